"""C28 PPP-RTK: from Compact SSR messages with network corrections to a
position"""
from copy import deepcopy
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, Quiet
from vlib import possim, ppsim, tides, atm
from vlib.possim import Sim, enu, ecef2llh
from vlib.bits import Bits
from vlib.cssrenc import SIG, rsig
from vlib.local import nearest_points, zenith, slant
from checks.C10 import encode, Model, mkgrid, STS, sno
from checks.C26 import amb
from checks.C27 import corr_frame, epoch, geometry
from cssrlib import gnss as g
from cssrlib.gnss import Nav, uTideModel
from cssrlib.cssrlib import cssr, sCSSRTYPE as sc
from cssrlib.ppprtk import ppprtkpos

SCALE = 6
C = possim.C
GID = {'G': 0, 'E': 2, 'J': 4}
EV = ['lli', 'gf', 'gap', 'cn0', 'noL', 'noP']
FAULT = ['svh', 'excl', 'eph', 'iode', 'nocorr', 'nosv', 'nanclk', 'nanorb',
         'nanb', 'nanstec', 'b6only']
RULE = 'scenes with two fixed epochs or more'


@st.composite
def scene(draw):
    nf = draw(st.sampled_from([2, 2, 2, 3]))
    sysn = draw(st.sampled_from(['G', 'GE', 'GEJ', 'E', 'GE', 'GEJ']))
    sats = draw(possim.sat_list(sysn, 7+len(sysn)//2, 11))
    nb = draw(st.integers(0, 2))
    bad = draw(possim.sat_list(sysn, nb, nb)) if nb else []
    have = {(s['c'], s['prn']) for s in sats}
    bad = [b for b in bad if (b['c'], b['prn']) not in have]
    for b in bad:
        b['fault'] = draw(st.sampled_from(FAULT))
        b['el'] = max(b['el'], 20.0)
    for k, a in enumerate(x for x in sats+bad if x['c'] == 'J'):
        a['prn'] = 193+k    # the mask has room for ten
    n = draw(st.integers(3, 6))
    ev = [dict(k=draw(st.sampled_from(EV)), ep=draw(st.integers(1, n-1)),
               sat=draw(st.integers(0, len(sats)-1)), n=draw(st.integers(1, 3)),
               f=draw(st.integers(0, nf-1)),
               sz=[draw(st.integers(-50, 50)) for _ in range(nf)])
          for _ in range(draw(st.integers(0, 3)))]
    i8 = st.integers(-1000, 1000).map(lambda x: x*1e-3)
    return dict(
        site=dict(draw(possim.site(60)),
                  lon=draw(st.integers(-170000, 170000))), sats=sats, bad=bad, systems=sysn, nf=nf,
        week=draw(st.integers(1700, 2500)),
        tow=draw(st.integers(1, 604800//30-1))*30,
        p0=[draw(st.integers(-3, 3))*1.0 for _ in range(3)],
        clk=draw(i8)*3e5+137.3, drift=draw(i8)*3,
        vel=[draw(i8)*0.1 for _ in range(3)], kin=draw(st.booleans()),
        dt=draw(st.sampled_from([1, 5, 30])), seed=draw(st.integers(0, 10**6)),
        phw=draw(st.sampled_from([2, 2, 0, 1])), tide=draw(st.integers(0, 2)),
        hold=draw(st.booleans()), n=n, ev=ev, lat=draw(st.integers(0, 5)),
        # corrections at every epoch: all, clocks, nothing, new mask
        upd=[draw(st.sampled_from(['all', 'clk', 'clk', '', 'iod']))
             for _ in range(n)],
        bias=draw(st.sampled_from(['4+5', '6', '6n', '4+5+6n', '5+6nc'])),
        atm=draw(st.sampled_from(['8+9', '9', '12', '12', '12'])),
        f12=[draw(st.sampled_from([2, 3])), draw(st.sampled_from([1, 2, 3]))],
        comb=draw(st.booleans()), ng=draw(st.integers(1, 8)),
        reg=draw(st.booleans()), xs=draw(st.booleans()),
        near=draw(st.integers(0, 4)) == 0,
        notrop=draw(st.sampled_from([0, 0, 1, 2])), nets=draw(st.integers(1, 3)))


class Net:
    """the service: produces messages and keeps what a user knows of them"""

    def __init__(self, s, sim, faults, codes, rng):
        self.s, self.sim, self.faults, self.codes = s, sim, faults, codes
        self.rng = rng
        self.cs = cssr()
        self.cs.cssrmode = sc.QZS_CLAS
        self.cs.week = s['week']
        self.iod = int(rng.randint(16))
        n = len(sim.sats)
        self.order = [i for i in range(n) if faults.get(i) != 'nocorr']
        self.iode = [int(x) for x in rng.randint(0, 256, n)]
        self.pb = rng.randint(-8000, 8000, (n, 4))
        self.pbn = rng.randint(-8000, 8000, (n, 4))
        self.ci = np.stack([rng.randint(100, 300, n)] + [
            rng.randint(-60, 60, n) for _ in range(5)], axis=1)
        self.dst = rng.randint(-4, 5, (n, 20))
        self.dth = rng.randint(-25, 25, (20, 2))
        self.typ = [int(x) for x in rng.randint(0, 4, n)]
        self.si = [int(x) for x in rng.randint(0, 4, n)]
        self.ct = [int(x) for x in rng.randint(-20, 20, 4)]
        self.rows = self.grid()
        self.cs.grid = mkgrid([self.rows[i] for i in
                               range(len(self.rows))])
        self.M = Model(s['week'])
        la, lo = np.rad2deg(sim.llh[:2])
        self.near = nearest_points(self.rows, la, lo)

    def grid(self):
        s, rng = self.s, self.rng
        la, lo = np.rad2deg(self.sim.llh[:2])
        rows = []
        ids = [int(x) for x in rng.permutation(
            np.arange(1, 30 if rng.rand() < .6 else 4))[:s['nets']]]
        for k, net in enumerate(ids):
            n = s['ng'] if k == 0 else int(rng.randint(1, 6))
            c = [la, lo] if k == 0 else [la+rng.uniform(-3, 3),
                                         lo+rng.choice([-1, 1])*5]
            if k == 0 and s['near']:
                o = rng.uniform(-.03, .03, 2)
            else:
                o = rng.uniform(-.5, .5, 2)
            for j in range(n):
                if s['reg']:
                    p = [c[0]+o[0]+.55*(j//3), c[1]+o[1]+.6*(j % 3)]
                elif j == 0:
                    p = [c[0]+o[0], c[1]+o[1]]
                else:
                    p = [c[0]+rng.uniform(-1, 1), c[1]+rng.uniform(-1, 1)]
                rows.append((net, j+1, round(p[0], 2), round(p[1], 2)))
        return rows

    def mask(self):
        self.order = [self.order[i] for i in
                      self.rng.permutation(len(self.order))]
        m = []
        for gid, c in ((0, 'G'), (2, 'E'), (4, 'J')):
            ix = sorted((i for i in self.order if self.sim.sats[i][0] == c),
                        key=lambda i: self.sim.sats[i][1]['prn'])
            if not ix:
                continue
            sg = []
            for q in self.codes[c]:
                w = [q]
                if q[1] in 'QL' or (c == 'E' and q[1] == 'C'):
                    x = q[0]+'X'
                    if self.s['xs']:
                        w = [x] if self.rng.rand() < .8 else [x, q]
                sg += w
            ex = [q for q in SIG[gid] if q[0] not in '125' or
                  q[1] in 'PS' or (q[1] == 'B')]
            if ex and self.rng.rand() < .5:
                sg.append(ex[self.rng.randint(len(ex))])
            sg = sorted(SIG[gid].index(q) for q in set(sg))
            p0 = {'G': 0, 'E': 0, 'J': 192}[c]
            cell = [[int(self.rng.rand() < .9) for _ in sg] for _ in ix]
            for i, q in zip(ix, cell):
                if self.faults.get(i) == 'nanb':
                    q[:] = [1]*len(sg)
            m.append(dict(gnss=gid, sv=[self.sim.sats[i][1]['prn']-p0
                                        for i in ix], sig=sg, cma=1,
                          cell=cell, nm=0, ix=ix))
        return m

    def update(self, k, what):
        """send messages before epoch k"""
        s, rng = self.s, self.rng
        if k == 0:
            what = 'all'
        if what == '':
            return
        t = int(s['tow']+k*s['dt']-s['lat'])
        h = [t, 5, 1]
        b = Bits()

        def put(**d):
            d = dict(h=h, iod=self.iod, **d)
            encode(b, d, self.m)
            assert self.M.apply(d)

        def r(n, lim=1.0):
            q = int(((1 << (n-1))-1)*lim)
            return int(rng.randint(-q, q+1))
        if what == 'iod':
            self.iod = (self.iod+1) % 16
        no = s['notrop'] == k and k > 0 and what != 'clk'
        self.void = no or what == 'clk' and self.void
        if what != 'clk':
            if k == 0 or what == 'iod':
                self.m = self.mask()
            put(st=1, m=self.m)
        ix = [i for e in self.m for i in e['ix']]
        cells = [[SIG[e['gnss']][a] for a, q in zip(e['sig'], cl) if q]
                 for e in self.m for cl in e['cell']]
        f = self.faults
        clk = [-(1 << 14) if f.get(i) == 'nanclk' else r(15, .5) for i in ix]
        if what == 'clk':
            if s['comb'] and rng.rand() < .5:
                put(st=11, f=[0, 1, 0], net=0, sv=[], orb=[], clk=clk)
            else:
                put(st=3, clk=clk)
            self.send(b)
            return
        orb = [[(self.iode[i]+(f.get(i) == 'iode')) % 256, r(15, .1),
                -(1 << 12) if f.get(i) == 'nanorb' else r(13, .1), r(13, .1)]
               for i in ix]
        if s['comb']:
            put(st=11, f=[1, 1, 0], net=0, sv=[], orb=orb, clk=clk)
            # the data sets are not linked to an issue otherwise
            put(st=2, orb=orb)
            put(st=3, clk=clk)
        else:
            put(st=2, orb=orb)
            put(st=3, clk=clk)
        if k:
            self.pb += rng.randint(-8, 9, self.pb.shape)
            self.ci[:, 0] += rng.randint(-1, 2, len(self.ci))
            self.dth += rng.randint(-2, 3, self.dth.shape)

        def cb():
            return [[-(1 << 10) if f.get(i) == 'nanb' else r(11, .4)
                     for _ in c] for i, c in zip(ix, cells)]

        def pb(a):
            return [[[int(a[i, SIG[GID[self.sim.sats[i][0]]].index(q) % 4]), 0]
                     for q in c] for i, c in zip(ix, cells)]
        net = self.near[0]
        out = [int(f.get(i) != 'nosv') for i in ix]
        sv12 = [int(f.get(i) not in ('nosv', 'b6only')) for i in ix]
        other = [int(x) for x in rng.randint(0, 2, len(ix))]
        q = s['bias']
        jobs = []
        if q in ('4+5', '4+5+6n'):
            jobs += [dict(st=4, cb=cb()), dict(st=5, pb=pb(self.pb))]
        if q == '5+6nc':
            jobs += [dict(st=5, pb=pb(self.pb))]
        if q == '6':
            jobs += [dict(st=6, f=[1, 1, 0], net=0, sv=[], cb=cb(),
                          pb=pb(self.pb))]
        if q in ('6n', '4+5+6n'):
            jobs += [dict(st=6, f=[1, 1, 1], net=net, sv=out, cb=cb(),
                          pb=pb(self.pbn))]
        if q == '5+6nc':
            jobs += [dict(st=6, f=[1, 0, 1], net=net, sv=out, cb=cb(),
                          pb=pb(self.pbn))]
        nets = [net]+[x for x in {w[0] for w in self.rows} if x != net]
        for x in nets:
            ng = len([w for w in self.rows if w[0] == x])
            sv = sv12 if x == net else other
            base = dict(net=x, sv=sv, ng=ng, q=[9]*len(ix), tq=9,
                        typ=[self.typ[i] for i in ix],
                        c=[[-(1 << 13) if f.get(i) == 'nanstec' else
                            int(self.ci[i, 0])]+[
                               int(w) for w in self.ci[i, 1:3]] +
                           [int(w) for w in self.ci[i, 3:]//6]
                           for i in ix])
            if s['atm'] != '12':
                base['typ'] = [self.typ[0]]*len(ix)
                g9 = dict(base, st=9, tt=1, rng=0,
                          trop=[[-256 if no else int(u), int(v)]
                                for u, v in self.dth[:ng]],
                          dst=[[int(w)*4 for w in self.dst[i, :ng]]
                               for i in ix])
                if s['atm'] == '9':
                    g9['rng'] = 1
                    g9['dst'] = [[-(1 << 15) if f.get(i) == 'nanstec' else
                                  int(w)*4+int(self.ci[i, 0]) for w in
                                  self.dst[i, :ng]] for i in ix]
                else:
                    jobs.append(dict(base, st=8))
                jobs.append(g9)
            else:
                fs = s['f12'][1]
                jobs.append(dict(
                    base, st=12, f=[s['f12'][0], fs], tt=2,
                    t=[-256 if no else self.ct[0]]+self.ct[1:],
                    sz=0, of=10, tr=[int(v) for v in self.dth[:ng, 1]],
                    si=[self.si[i] for i in ix],
                    dst=[[-(1 << (STS[self.si[i]]-1)) if
                          f.get(i) == 'nanstec' and fs == 1 else
                          int(w) for w in np.clip(self.dst[i, :ng], -3, 3)]
                         for i in ix]))
        # the order of the bias and atmosphere messages is free, but not
        # that of STEC polynomials and residuals
        if rng.rand() < .5:
            a = [j for j in jobs if j['st'] <= 6]
            b_ = [j for j in jobs if j['st'] > 6]
            jobs = b_+a
        for j in jobs:
            put(**j)
        self.send(b)

    def send(self, b):
        with Quiet():
            self.cs.decode_cssr(b.bytes()+bytes(64), 0)

    void = False

    # what the corrections say
    def orbit(self, i, t, p):
        o = self.M.lc[0].get('dorb', {}).get(self.no(i))
        if o is None or np.isnan(o).any():
            return np.zeros(3)
        v = self.sim.state(i, t+0.5)[0]-self.sim.state(i, t-0.5)[0]
        return -(o@corr_frame('clas', p, v))

    def no(self, i):
        c, k, _ = self.sim.sats[i]
        return sno(c, k['prn'])

    def clock(self, i, t):
        d = self.M.lc[0].get('dclk', {}).get(self.no(i), 0.0)
        return 0.0 if np.isnan(d) else d/C

    def apply(self, r):
        """observations follow the corrections"""
        net, ix, sel, d, sure = self.near
        L = self.M.lc[net]
        la, lo = np.rad2deg(ecef2llh(r.rr0)[:2])
        gw = 1/np.array([d[i] for i in sel])
        gw = gw/gw.sum()
        k = np.array([self.rows[i][1]-1 for i in sel])
        r0 = [w for w in self.rows if w[0] == net][0]
        dla, dlo = la-r0[2], lo-r0[3]
        self.zd = np.nan_to_num(zenith(L, dla, dlo, k, gw), nan=2.3)
        for i in range(len(self.sim.sats)):
            s = self.no(i)
            c = self.sim.sats[i][0]
            v = 5.0
            if s in L['sat_n'] and s in self.stec_sats(L):
                v = slant(L, s, dla, dlo, k, gw)
                v = 5.0 if np.isnan(v) else v
            r.iono[i] = 40.3e16/1575.42e6**2*v
            for a, (arr, nm) in enumerate(((r.cb, 'cbias'), (r.pb, 'pbias'))):
                for f, q in enumerate(self.codes[c]):
                    b = 0.0
                    for n in (0, net):
                        z = self.M.lc.get(n, {}).get(nm, {}).get(s, {})
                        y = rsig(c, q, 'CL'[a])
                        x = rsig(c, q[0]+'X', 'CL'[a])
                        w = z.get(y, z.get(x, 0.0))
                        b += 0.0 if np.isnan(w) else w
                    arr[i, f] = b

    def stec_sats(self, L):
        o = None
        if L['flg_stec'] & 2:
            o = set(L['ci'])
        if L['flg_stec'] & 1:
            o = set(L['dstec']) if o is None else o & set(L['dstec'])
        return o or set()

    def trop(self, llh, el, week, tow):
        h, w = atm.saast(llh[0], llh[2])
        h0, w0 = atm.saast(llh[0], 0.0)
        mh, mw = atm.niell(atm.doy(week, tow), llh[0], llh[2], el)
        return mh*self.zd[0]*h/h0+mw*self.zd[1]*w/w0


def mk(s):
    rng = np.random.RandomState(s['seed'])
    nf = s['nf']
    sats = s['sats']+s['bad']
    n, ng = len(sats), len(s['sats'])
    sim = Sim(s['site'], sats, s['week'], s['tow'])
    codes = {c: list(possim.CODE[c][:nf]) for c in s['systems']}
    faults = {ng+j: b['fault'] for j, b in enumerate(s['bad'])}
    for i, f in faults.items():
        if f == 'b6only' and s['bias'] not in ('6n', '4+5+6n', '5+6nc') or \
                f == 'nanb' and s['bias'] == '':
            faults[i] = 'nosv'
    net = Net(s, sim, faults, codes, rng)
    if net.near is None or not net.near[4]:
        return None
    d = net.near[3]
    dm = sorted(d[i] for i in range(len(d)))
    if abs(dm[0]-5000) < 100 or min(d) < 300:
        return None
    o = sorted((d[i], net.rows[i][0]) for i in range(len(d)))
    if any(b[1] != o[0][1] and b[0]-o[0][0] < 200 for b in o[1:]):
        return None
    s_ = sorted(d[i] for i in net.near[1])
    if any(b-a < 100 for a, b in zip(s_[:4], s_[1:5])):
        return None
    nav = Nav(nf=nf)
    nav.pmode = 1 if s['kin'] else 0
    cfg = deepcopy(g.default_config)
    cfg['nav'].update(ephopt=2, trop_opt=2, iono_opt=2, phw_opt=s['phw'],
                      eratio=[30.0]*3, err=[0, 7e-4, 3.5e-4],
                      sig_n0=300.0, parmode=1, armode=3 if s['hold'] else 1,
                      elmin=10.0)
    r = ppsim.Rx(sim, codes, s['systems'], clk=s['clk'], drift=s['drift'],
                 vel=s['vel'] if s['kin'] else (0, 0, 0),
                 tide=[None, tides.simple, tides.iers][s['tide']],
                 phw=s['phw'], shap=True, iono=[1.0]*n,
                 amb=amb(sats, nf, rng), orbit=net.orbit,
                 clock=net.clock, trop=net.trop)
    sim.load(nav, [i for i, f in faults.items() if f == 'eph'])
    no = [sim.satno(i) for i in range(n)]
    for e in nav.eph:
        i = no.index(e.sat)
        e.iode = net.iode[i]
        e.mode = 0
        if faults.get(i) == 'svh':
            e.svh = 1
    for i, f in faults.items():
        if f == 'excl':
            nav.excl_sat.append(no[i])
    r.off = rng.uniform(-1e3, 1e3, n)
    r.faults = faults
    ppp = ppprtkpos(nav, sim.rr+np.array(s['p0']), config=cfg)
    nav.tidecorr = [uTideModel.NONE, uTideModel.SIMPLE,
                    uTideModel.IERS2010][s['tide']]
    nav.t = nav.time_p = g.gpst2time(s['week'], s['tow'])
    return sim, r, nav, ppp, net, rng


def run(s):
    q = mk(s)
    if q is None:
        return []
    sim, r, nav, ppp, net, rng = q
    r.gf = {}
    res = []
    up = enu(sim.llh)[2]
    dh = 0.0
    for k in range(s['n']):
        net.update(k, s['upd'][k])
        net.apply(r)
        for i in r.faults:
            r.cb[i] += r.off[i]
            r.pb[i] -= r.off[i]
        q = epoch(s, k, r, rng)
        if q is None:
            break
        t, o, out = q
        nu, dop, edge = geometry(s, r, out)
        if edge:
            break
        nav.smode = 0
        dh = max(dh, abs(up@(nav.x[:3]-r.pos(t))))
        with Quiet():
            ppp.process(o, cs=net.cs)
        if net.void:
            continue
        res.append(dict(k=k, nu=nu, dop=dop, mode=nav.smode, dh=dh,
                        xa=nav.xa[:3]-r.pos(t), x=nav.x[:3]-r.pos(t),
                        sd=np.sqrt(np.trace(nav.P[:3, :3])),
                        sa=np.sqrt(np.trace(nav.Pa[:3, :3]))))
    return res


def judge(s):
    good = 0
    lost = False
    for r in run(s):
        k, d = r['k'], r['dop']
        if s['kin'] and d > 1e8:
            lost = True
        if r['nu'] < 6:
            check(r['nu']+len(s['bad']) >= 6 or r['mode'] == 0,
                  'epoch %d: solution with %d satellites', k, r['nu'])
            continue
        if d > 8 or lost:
            continue
        check(r['mode'] in (4, 5), 'epoch %d: no solution', k)
        e = np.linalg.norm(r['x'])
        check(e < 0.1*max(d, 2), 'epoch %d: float solution off by %.4f m '
              '(DOP %.1f)', k, e, d)
        if d < 6:
            check(r['mode'] == 4, 'epoch %d: ambiguities not resolved '
                  '(DOP %.1f, %d satellites)', k, d, r['nu'])
        if r['mode'] == 4:
            e = np.linalg.norm(r['xa'])
            check(e < (0.0015+6e-4*r['dh'])*max(d, 2)+0.1*r['sa'],
                  'epoch %d: fixed solution '
                  'off by %.4f m (DOP %.1f)', k, e, d)
            good += 1
    return s['atm']+'/'+s['bias'] if good >= 2 else False


@facet('clas', scene(), 120, 2400, 'messages, corrections and position')
def clas(s):
    return judge(s)
