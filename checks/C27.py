"""C27 precise point positioning: broadcast, SSR and precise products"""
from copy import deepcopy
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, same, Quiet
from vlib import possim, ppsim, tides
from vlib.possim import Sim, enu, ecef2llh
from checks.C09 import as_pcv, offs, lin, frame
from checks.C26 import jump, lam, amb
from cssrlib import gnss as g
from cssrlib.gnss import Nav, uGNSS, rSigRnx, uTideModel
from cssrlib.cssrlib import cssr, sCSSRTYPE as sc, sCType
from cssrlib.peph import peph, peph_t
from cssrlib.rinex import pclk_t
from cssrlib.pppssr import pppos

SCALE = 3
C = ppsim.C
MODES = {'clas': sc.QZS_CLAS, 'madoca': sc.QZS_MADOCA, 'has': sc.GAL_HAS_SIS,
         'idd': sc.GAL_HAS_IDD, 'igs': sc.IGS_SSR, 'rtcm': sc.RTCM3_SSR,
         'bds': sc.BDS_PPP, 'pvs': sc.PVS_PPP}
# bands of the antenna phase centre the orbits refer to
APC = {'madoca': {'G': '12', 'R': '12', 'E': '15', 'J': '15'},
       'has': {'G': '12', 'E': '17'},
       'idd': {'G': '1', 'R': '1', 'E': '1', 'C': '2', 'J': '1'},
       'bds': {'G': '12', 'C': '6'}, 'pvs': {'G': '15', 'E': '15'}}
APC['igs'] = APC['rtcm'] = APC['idd']
SYSN = {'brdc': ['G', 'GE', 'GEJ', 'GC', 'GEC', 'E', 'C', 'GEJCR', 'GR'],
        'clas': ['G', 'GE', 'GEJ'], 'madoca': ['GEJ', 'GEJR', 'GE'],
        'has': ['GE', 'E', 'G'], 'idd': ['GE', 'E', 'GEJC'],
        'igs': ['GE', 'GEJC', 'GEJCR'], 'rtcm': ['GE', 'GEJC', 'GEJCR'],
        'bds': ['C', 'GC'], 'pvs': ['GE', 'G'],
        'prec': ['G', 'GE', 'GEJ', 'GEC', 'GEJCR']}
EV = ['lli', 'gf', 'gap', 'cn0', 'noL', 'noP']
FAULT = ['svh', 'excl', 'eph']


@st.composite
def scene(draw, modes):
    mode = draw(st.sampled_from(modes))
    nf = draw(st.sampled_from([2, 2, 2, 3]))
    sysn = draw(st.sampled_from(SYSN[mode]))
    if nf == 3:
        sysn = sysn.replace('R', '')
    sats = draw(possim.sat_list(sysn, 7+len(sysn)//2, 11))
    nb = draw(st.integers(0, 2))
    bad = draw(possim.sat_list(sysn, nb, nb)) if nb else []
    have = {(s['c'], s['prn']) for s in sats}
    bad = [b for b in bad if (b['c'], b['prn']) not in have]
    for b in bad:
        b['fault'] = draw(st.sampled_from(FAULT+(
            ['nocorr', 'nanclk', 'nanorb', 'nanb', 'noant']
            if mode != 'brdc' else [])))
        b['el'] = max(b['el'], 20.0)
    n = draw(st.integers(3, 6))
    ev = [dict(k=draw(st.sampled_from(EV)), ep=draw(st.integers(1, n-1)),
               sat=draw(st.integers(0, len(sats)-1)), n=draw(st.integers(1, 3)),
               f=draw(st.integers(0, nf-1)),
               sz=[draw(st.integers(-50, 50)) for _ in range(nf)])
          for _ in range(draw(st.integers(0, 3)))]
    i8 = st.integers(-1000, 1000).map(lambda x: x*1e-3)
    return dict(
        mode=mode, site=draw(possim.site()), sats=sats, bad=bad, systems=sysn,
        nf=nf, week=draw(st.integers(1700, 2500)),
        tow=draw(st.integers(0, 604800//30-1))*30,
        p0=[draw(st.integers(-3, 3))*1.0 for _ in range(3)],
        clk=draw(i8)*3e5+137.3, drift=draw(i8)*3, dz=draw(i8)*0.05,
        vel=[draw(i8)*0.1 for _ in range(3)], kin=draw(st.booleans()),
        dt=draw(st.sampled_from([1, 5, 30])), seed=draw(st.integers(0, 10**6)),
        phw=draw(st.integers(0, 2)), tide=draw(st.integers(0, 2)),
        rant=draw(st.booleans()), hold=draw(st.booleans()), n=n, ev=ev,
        age=draw(st.integers(0, 30)), xs=draw(st.integers(0, 3)),
        bst=draw(st.integers(0, 7)), iod=draw(st.booleans()),
        useclk=draw(st.booleans()), useeph=draw(st.booleans()))


def sat_antenna(rng, c, bands, sat):
    z1 = 20
    return dict(name='X', sat=sat, z1=z1, dz=1, f=[
        dict(f=[c, b], neu=[int(rng.randint(-300, 300))*100,
                            int(rng.randint(-300, 300))*100,
                            int(rng.randint(500, 2500))*100],
             pcv=[int(x) for x in rng.randint(-1000, 1000, z1+1)])
        for b in bands])


class Rx(ppsim.Rx):
    """adds antennas"""
    tx = None
    rx = None
    apc = None

    def extra(self, i, f, e, p, sun, llh):
        o = 0.0
        c, k, _ = self.sim.sats[i]
        b = self.codes[c][f][0]
        if self.tx is not None and self.tx[i] is not None:
            a = self.tx[i]
            X, Y, Z = frame(p, sun)
            h = {q['f'][1]: q for q in a['f']}
            o0 = np.zeros(3)
            r = (self.apc or {}).get(c, '')
            if len(r) == 1:
                o0 = offs(a, h[r])
            elif len(r) == 2:
                u, v = [(possim.freq(c, q, k.get('frq', 0)))**2 for q in r]
                o0 = (u*offs(a, h[r[0]])-v*offs(a, h[r[1]]))/(u-v)
            q = offs(a, h[b])-o0
            za = np.rad2deg(np.arccos(np.clip(Z@-e, -1, 1)))
            o += 1e-3*(lin(a, h[b], za)+(q[0]*X+q[1]*Y+q[2]*Z)@e)
        if self.rx is not None:
            a = self.rx
            q = [x for x in a['f'] if x['f'] == [c, b]][0]
            en = enu(llh)@e
            o += 1e-3*(lin(a, q, 90-np.rad2deg(np.arcsin(en[2]))) -
                       offs(a, q)@en)
        return o


def corr_frame(mode, p, v):
    if mode == 'bds':
        r = p/np.linalg.norm(p)
        c = np.cross(p, v)
        c = c/np.linalg.norm(c)
        return np.array([r, np.cross(c, r), c])
    a = v/np.linalg.norm(v)
    c = np.cross(p, v)
    c = c/np.linalg.norm(c)
    return np.array([np.cross(a, c), a, c])


def mk(s):
    rng = np.random.RandomState(s['seed'])
    mode, nf = s['mode'], s['nf']
    sats = s['sats']+s['bad']
    n, ng = len(sats), len(s['sats'])
    sim = Sim(s['site'], sats, s['week'], s['tow'])
    codes = {c: list(possim.CODE[c][:nf]) for c in s['systems']}
    if mode in ('has',):
        codes['E'] = ['1C', '7Q', '5Q'][:nf]
    if mode in ('pvs',):
        codes['G'] = ['1C', '5Q', '2W'][:nf]
    nav = Nav(nf=nf)
    nav.pmode = 1 if s['kin'] else 0
    ssr = mode in MODES
    t0 = g.gpst2time(s['week'], s['tow'])
    cfg = deepcopy(g.default_config)
    cfg['nav'].update(ephopt=4 if mode == 'prec' else 2 if ssr else 0,
                      eratio=[30.0]*3, err=[0, 7e-4, 3.5e-4], sig_ztd0=0.3,
                      sig_n0=300.0, sig_ion0=30.0,
                      phw_opt=s['phw'], parmode=1, armode=3 if s['hold'] else 1,
                      elmin=10.0)
    faults = {ng+j: b['fault'] for j, b in enumerate(s['bad'])}
    for i, f in faults.items():
        if f == 'noant' and mode == 'clas' or \
                f == 'nanb' and ssr and s['bst'] & 3 == 3 or \
                f in ('eph', 'svh') and mode == 'prec' and not s['useeph']:
            faults[i] = 'excl'
    sno = [sim.satno(i) for i in range(n)]
    # orbit and clock corrections
    orb_c = rng.uniform(-3, 3, (n, 3))
    vel_c = rng.uniform(-5e-4, 5e-4, (n, 3))
    clk_c = rng.uniform(-10, 10, n)
    dft_c = rng.uniform(-1e-3, 1e-3, n)
    bad_off = rng.uniform(-1e3, 1e3, n)
    # code and phase biases, m
    B = rng.uniform(-8, 8, (n, 2, nf))*s.get('bs', 1)
    age = s['age']*1.0

    def clock(i, t):
        if not ssr:
            return 0.0
        k = clk_c[i]
        if mode == 'pvs':
            k += dft_c[i]*(t+age)
        d = k/C
        if mode == 'pvs' and sim.sats[i][0] == 'G':
            d -= sim.sats[i][1]['tgd']
        return d

    def orbit(i, t, p):
        if not ssr:
            return np.zeros(3)
        if mode == 'pvs':
            return -(orb_c[i]+vel_c[i]*(t+age))
        v = sim.state(i, t+0.5)[0]-sim.state(i, t-0.5)[0]
        return -(orb_c[i]@corr_frame(mode, p, v))
    if mode == 'prec':
        st0 = sim.state

        def state(i, t):
            c, k, off = sim.sats[i]
            p, _ = st0(i, t)
            v = st0(i, t+0.5)[0]-st0(i, t-0.5)[0]
            a0, a1 = (-k['taun'], k['gamn']) if c == 'R' else (k['af0'],
                                                               k['af1'])
            return p, a0+a1*(t-off)-2*(p@v)/C**2
        sim.state = state
    anten = ssr and mode != 'clas' or mode == 'prec'
    r = Rx(sim, codes, s['systems'], clk=s['clk'], drift=s['drift'],
           vel=s['vel'] if s['kin'] else (0, 0, 0), dz=s['dz'],
           tide=[None, tides.simple, tides.iers][s['tide']],
           phw=s['phw'], shap=True, iono=list(rng.uniform(0.5, 15, n)),
           amb=amb(sats, nf, rng), orbit=orbit, clock=clock)
    tx = [sat_antenna(rng, sim.sats[i][0],
                      sorted(set(b[0] for b in codes[sim.sats[i][0]]) |
                             set(APC.get(mode, {}).get(sim.sats[i][0], ''))),
                      [sim.sats[i][0], sim.sats[i][1]['prn']])
          for i in range(n)]
    if anten:
        r.tx = tx
        r.apc = APC.get(mode)
        nav.sat_ant = []
        for i in rng.permutation(n):
            if faults.get(i) != 'noant':
                p = as_pcv(tx[i])
                nav.sat_ant.append(p)
    if s['rant']:
        r.rx = dict(name='R', sat=None, z1=90, dz=5, f=[
            dict(f=[c, b[0]], neu=[int(x)*100 for x in
                                   rng.randint(-200, 200, 3)],
                 pcv=[int(x) for x in rng.randint(-1500, 1500, 19)])
            for c in codes for b in codes[c]])
        nav.rcv_ant = as_pcv(r.rx)
    # biases
    sg = {}
    for i in range(n):
        c = sim.sats[i][0]
        for a, ty in enumerate('CL'):
            for f in range(nf):
                sg[i, a, f] = rSigRnx(c+ty+codes[c][f])
    cs = orb = bsx = None
    sign = 0
    if ssr:
        sign = 1 if mode in ('clas', 'bds', 'pvs') else -1
        cs = mk_cs(s, mode, sno, faults, g.timeadd(t0, -age), orb_c, vel_c,
                   clk_c, dft_c)
        nav_mode = cs.nav_mode
        lc = cs.lc[0]
        lc.cbias, lc.pbias = {}, {}
        use = [s['bst'] & 1 == 0, s['bst'] & 2 == 0]
        for a, (d, ct) in enumerate(((lc.cbias, sCType.CBIAS),
                                     (lc.pbias, sCType.PBIAS))):
            if use[a]:
                lc.cstat |= 1 << ct
            else:
                B[:, a, :] = 0.0
            for i in range(n):
                d[sno[i]] = {}
                for f in range(nf):
                    x = sg[i, a, f]
                    c = sim.sats[i][0]
                    if mode == 'has' and x in (rSigRnx('GC2W'),
                                               rSigRnx('GL2W')):
                        x = rSigRnx('G'+'CL'[a]+'2P')
                    elif s['xs'] == 1 and codes[c][f] in ('5Q', '7Q', '2L'):
                        x = x.toAtt('X')
                    v = B[i, a, f] if use[a] else 7.7
                    if s['xs'] == 2 and f == nf-1 and i % 3 == 0:
                        B[i, a, f] = 0.0
                        continue
                    if faults.get(i) == 'nanb' and f == 0:
                        v = np.nan
                    d[sno[i]][x] = v
                d[sno[i]][rSigRnx({'G': 'G%s1P', 'R': 'R%s1P', 'E': 'E%s6C',
                                   'C': 'C%s1D', 'J': 'J%s6L'}[
                    sim.sats[i][0]] % 'CL'[a])] = 55.5
        # nothing is known about the biases of other satellites
    elif mode == 'prec':
        sign = 1
        orb, bsx = precise(s, nav, sim, sno, faults, B, sg, nf)
        for i in range(n):
            if sim.sats[i][0] == 'R':
                B[i, 1, :] = 0.0
    r.cb = sign*B[:, 0, :]
    r.pb = sign*B[:, 1, :]
    skip = [i for i, f in faults.items() if f == 'eph']
    if mode != 'prec' or s['useeph']:
        sim.load(nav, skip)
    for i in range(n):
        if sim.sats[i][0] == 'R':
            nav.glo_ch[sno[i]] = sim.sats[i][1]['frq']
        f = faults.get(i)
        if f == 'excl':
            nav.excl_sat.append(sno[i])
        if f in ('svh',):
            for e in nav.eph+nav.geph:
                if e.sat == sno[i]:
                    e.svh = 1
        if f is not None:
            r.cb[i] += bad_off[i]
            r.pb[i] -= bad_off[i]
    if ssr:
        for e in nav.eph:
            e.iode = 10
            sy = g.sat2prn(e.sat)[0]
            e.mode = nav_mode[sy]
            e.tgd = e.tgd
        for e in nav.geph:
            e.iode = 10
            e.mode = 0
    ppp = pppos(nav, sim.rr+np.array(s['p0']), config=cfg)
    nav.tidecorr = [uTideModel.NONE, uTideModel.SIMPLE,
                    uTideModel.IERS2010][s['tide']]
    nav.t = nav.time_p = t0
    return sim, r, nav, ppp, cs, orb, bsx, rng


def mk_cs(s, mode, sno, faults, t0, orb_c, vel_c, clk_c, dft_c):
    cs = cssr()
    cs.cssrmode = MODES[mode]
    cs.nav_mode = {uGNSS.GPS: 0, uGNSS.QZS: 0, uGNSS.GAL: 0, uGNSS.BDS: 0,
                   uGNSS.GLO: 0}
    cs.mask_id = cs.mask_id_clk = 1
    o = 5 if s['iod'] else 4
    cs.iodssr, cs.iodssr_p = 5, 4
    cs.iodssr_c[sCType.ORBIT] = cs.iodssr_c[sCType.CLOCK] = o
    lc = cs.lc[0]
    lc.iode, lc.dorb, lc.dclk, lc.hclk = {}, {}, {}, {}
    lc.dvel, lc.ddft, lc.t0, lc.iodc, lc.iodc_c = {}, {}, {}, {}, {}
    lc.iodc_c_p, lc.dclk_p = {}, {}
    sat_n = []
    for i, sat in enumerate(sno):
        f = faults.get(i)
        lc.t0[sat] = {sCType.ORBIT: t0, sCType.CLOCK: t0}
        if f != 'nocorr':
            sat_n.append(sat)
        lc.iode[sat] = 10
        lc.dorb[sat] = np.array(orb_c[i])
        lc.dclk[sat] = clk_c[i]
        if f == 'nanclk':
            lc.dclk[sat] = np.nan
        if f == 'nanorb':
            lc.dorb[sat][1] = np.nan
        lc.dvel[sat] = np.array(vel_c[i])
        lc.ddft[sat] = dft_c[i]
        # BDS: clock of the current or of the previous issue
        lc.iodc[sat] = 3
        lc.iodc_c[sat] = 3
        lc.iodc_c_p[sat] = 3
        lc.dclk_p[sat] = lc.dclk[sat]
        if i % 2:
            lc.iodc_c[sat] = 4
            lc.dclk[sat] = lc.dclk[sat]+99.0 if mode == 'bds' else \
                lc.dclk[sat]
        if f == 'nocorr' and mode == 'bds':
            lc.iodc_c[sat] = lc.iodc_c_p[sat] = 5
    cs.sat_n = list(sat_n)
    cs.sat_n_p = list(sat_n)
    return cs


class Bsx:
    def __init__(self, d):
        self.d = d

    def getosb(self, sat, t, sig):
        return self.d.get((int(sat), sig), np.nan)


def precise(s, nav, sim, sno, faults, B, sg, nf):
    n = len(sno)
    d = {}
    for i in range(n):
        for a in range(2):
            for f in range(nf):
                if faults.get(i) == 'nanb' and f == 0:
                    continue
                d[sno[i], sg[i, a, f]] = B[i, a, f]/C*1e9
    nav.ne = nav.nc = 0
    nav.pclk = []
    for j in range(-9, 10):
        t = j*300.0+60.0
        tt = g.timeadd(g.gpst2time(s['week'], s['tow']), t)
        p = peph_t(tt)
        for i in range(n):
            f = faults.get(i)
            if f == 'nocorr':
                continue
            q, _ = sim.state(i, t)
            c, k, off = sim.sats[i]
            a0, a1 = (-k['taun'], k['gamn']) if c == 'R' else (k['af0'],
                                                               k['af1'])
            p.pos[sno[i]-1, :3] = q
            p.pos[sno[i]-1, 3] = a0+a1*(t-off)
            if f == 'nanclk':
                p.pos[sno[i]-1, 3] = np.nan
            if f == 'nanorb':
                p.pos[sno[i]-1, :] = np.nan
        nav.peph.append(p)
        nav.ne += 1
    if s['useclk']:
        for j in range(-3, 30):
            t = j*30.0
            p = pclk_t(g.timeadd(g.gpst2time(s['week'], s['tow']), t))
            for i in range(n):
                c, k, off = sim.sats[i]
                a0, a1 = (-k['taun'], k['gamn']) if c == 'R' else (
                    k['af0'], k['af1'])
                if faults.get(i) not in ('nocorr', 'nanclk'):
                    p.clk[sno[i]-1] = a0+a1*(t-off)
            nav.pclk.append(p)
            nav.nc += 1
    return peph(), Bsx(d)


def epoch(s, k, r, rng):
    t = k*s['dt']*1.0
    out, post = set(), []
    keep = set(range(len(r.sim.sats)))
    for e in s['ev']:
        i, kd = e['sat'], e['k']
        if kd == 'gap':
            if e['ep'] <= k < e['ep']+e['n']:
                keep.discard(i)
                out.add(i)
                if k == e['ep']:
                    jump(r, i, e['sz'], '')
            continue
        if e['ep'] != k:
            continue
        if kd in ('lli', 'gf'):
            jump(r, i, e['sz'], '' if kd == 'lli' else 'gf')
        if kd != 'gf':
            post.append((kd, i, e['f']))
        out.add(i)
    o = r.obs(t)
    for kd, i, f in post:
        if kd == 'lli':
            o.lli[i, f] = 1
        elif kd == 'cn0':
            # too weak to be used, and wrong
            o.S[i, f] = 10.0
            o.P[i, f] += 500.0
            o.L[i, f] += 5.3*(i % 2)
        elif kd == 'noL':
            o.L[i, f] = 0.0
        elif kd == 'noP':
            o.P[i, f] = 0.0
    for i in keep:
        if o.L[i, 0] == 0 or o.L[i, 1] == 0:
            continue
        gf = o.L[i, 0]*lam(r, i, 0)-o.L[i, 1]*lam(r, i, 1)
        d = abs(gf-r.gf.get(i, gf))
        if abs(d-0.15) < 0.02:
            return None
        if d > 0.15:
            out.add(i)
        r.gf[i] = gf
    p = sorted(keep)
    rng.shuffle(p)
    return t, ppsim.pick(o, p), out


def geometry(s, rx, out):
    """position dilution including a zenith delay"""
    N = np.zeros((4, 4))
    nu = 0
    edge = False
    for c in s['systems']:
        u = []
        for i in range(len(s['sats'])):
            if rx.sim.sats[i][0] != c:
                continue
            az, el = rx.info[i]
            d = np.rad2deg(el)
            if min(abs(d-10), abs(d-20)) < 0.3:
                edge = True
            if i in out or d < 10:
                continue
            nu += 1
            if d > 20:
                u.append([np.cos(el)*np.sin(az), np.cos(el)*np.cos(az),
                          np.sin(el), 0.05/np.sin(el)])
        if len(u) > 1:
            d = np.array(u)-np.mean(u, axis=0)
            N += d.T@d
    N[3, 3] += 1.0
    if edge or nu < 6 or np.linalg.matrix_rank(N[:3, :3]) < 3:
        return nu, 1e9, edge
    return nu, np.sqrt(np.trace(np.linalg.inv(N)[:3, :3])), edge


def run(s):
    sim, r, nav, ppp, cs, orb, bsx, rng = mk(s)
    r.gf = {}
    res = []
    up = enu(sim.llh)[2]
    dh = 0.0
    for k in range(s['n']):
        q = epoch(s, k, r, rng)
        if q is None:
            break
        t, o, out = q
        nu, dop, edge = geometry(s, r, out)
        if edge:
            break
        nav.smode = 0
        dh = max(dh, abs(up@(nav.x[:3]-r.pos(t))))
        with Quiet():
            ppp.process(o, cs=cs, orb=orb, bsx=bsx)
        res.append(dict(k=k, nu=nu, dop=dop, mode=nav.smode, dh=dh,
                        xa=nav.xa[:3]-r.pos(t), x=nav.x[:3]-r.pos(t),
                        sd=np.sqrt(np.trace(nav.P[:3, :3])),
                        sa=np.sqrt(np.trace(nav.Pa[:3, :3]))))
    return res


def judge(s):
    good = 0
    lost = False
    for r in run(s):
        k, d = r['k'], r['dop']
        if s['kin'] and d > 1e8:
            lost = True
        if r['nu'] < 6:
            # satellites without antenna or biases are dropped later
            check(r['nu']+len(s['bad']) >= 6 or r['mode'] == 0, 'epoch %d: solution with %d satellites', k,
                  r['nu'])
            continue
        if d > 8 or lost:
            continue
        check(r['mode'] in (4, 5), 'epoch %d: no solution', k)
        e = np.linalg.norm(r['x'])
        check(e < 0.1*max(d, 2), 'epoch %d: float solution off by %.4f m '
              '(DOP %.1f)', k, e, d)
        if d < 6 and 'R' not in s['systems']:
            check(r['mode'] == 4, 'epoch %d: ambiguities not resolved '
                  '(DOP %.1f, %d satellites)', k, d, r['nu'])
        if r['mode'] == 4:
            e = np.linalg.norm(r['xa'])
            if 'R' in s['systems']:
                # FDMA ambiguities have no integer differences
                check(e < 0.1*max(d, 2), 'epoch %d: fixed solution off by '
                      '%.4f m (DOP %.1f)', k, e, d)
                continue
            check(e < (0.0015+6e-4*r['dh'])*max(d, 2)+0.1*r['sa'],
                  'epoch %d: fixed solution '
                  'off by %.4f m (DOP %.1f)', k, e, d)
            good += 1
    if good < 2 and 'R' not in s['systems']:
        return False
    return s['mode']


@facet('broadcast', scene(['brdc']), 40, 600, 'broadcast ephemerides')
def broadcast(s):
    return judge(s)


@facet('ssr', scene(list(MODES)), 80, 1200,
       'orbit, clock and bias corrections of eight services')
def ssr(s):
    return judge(s)


@facet('precise', scene(['prec']), 40, 600,
       'precise orbits, clocks and biases')
def precise_(s):
    return judge(s)
