"""C23 QZSS SLAS (differential corrections)"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, Quiet
from vlib import gen, possim, atm, ews
from vlib.bits import Bits
from vlib.possim import Sim, C, freq
from cssrlib import gnss as g
from cssrlib.gnss import Nav, Obs, rSigRnx, uTYP, uGNSS
from cssrlib.cssrlib import sCType
from cssrlib.pntpos import stdpos

SCALE = 6
RULE = 'histories of SLAS messages against an independent model'
SYSS = ['G', 'J', 'R', 'E', 'C']
MLEN = {'G': 64, 'J': 9, 'R': 36, 'E': 36, 'C': 36}
NSAT = {'G': 32, 'J': 9, 'R': 24, 'E': 36, 'C': 36}
OFF = {'G': 0, 'J': 192, 'R': 0, 'E': 0, 'C': 0}
SIGN = [0x53, 0x9A, 0xC6]


def msg(mt, body, pre=0):
    return Bits().u(SIGN[pre % 3], 8).u(mt, 6).add(body.pad(212)).u(
        0x5A5A5A, 24).bytes()


def satno(x):
    return int(g.prn2sat(gen.SYS[x[0]], x[1]+OFF[x[0]]))


def order(sats):
    return sorted(sats, key=lambda x: (SYSS.index(x[0]), x[1]))


def bmask(sats):
    b = Bits()
    for c in SYSS:
        for p in range(1, MLEN[c]+1):
            b.u((c, p) in sats, 1)
    return b


def mt47(ent):
    b = Bits()
    for e in (list(ent)+[None]*5)[:5]:
        if e is None:
            b.u(63, 6).u(0, 36)
        else:
            b.u(e[0], 6).s(e[1], 15).s(e[2], 15).u(e[3], 6)
    return msg(47, b)


def mt48(iodp, sats):
    return msg(48, Bits().u(iodp, 2).add(bmask(set(sats))))


def mt49(iodp, iodi, n, iod):
    """iod: {index in the mask: issue of data}"""
    b = Bits().u(iodi, 2)
    for k in range(23):
        b.u(k in iod, 1)
    for k in sorted(iod):
        b.u(iod[k], 8)
    b.pad(209)
    return msg(49, b.u(iodp, 2))


def mt50(iodp, iodi, code, h, prc):
    b = Bits().u(iodp, 2).u(iodi, 2).u(code, 6).u(h, 1)
    for k in range(23):
        b.u(k in prc, 1)
    for k in sorted(prc):
        b.s(prc[k], 12)
    return msg(50, b)


SAT = st.sampled_from(SYSS).flatmap(
    lambda c: st.tuples(st.just(c), st.integers(1, NSAT[c])))
CODE = st.one_of(st.integers(0, 4), st.integers(0, 62))


@st.composite
def hist(draw):
    ops = []
    for _ in range(draw(st.integers(3, 25))):
        k = draw(st.sampled_from(['sta', 'mask', 'iod', 'iod', 'cor', 'cor',
                                  'cor', 'cor', 'health', 'null', 'valid']))
        o = dict(op=k, dt=draw(st.sampled_from([0, 1, 1, 5, 60])))
        if k == 'sta':
            o['e'] = draw(st.lists(st.one_of(st.none(), st.tuples(
                CODE, st.integers(-16384, 16383), st.integers(-16384, 16383),
                st.integers(0, 63))), min_size=5, max_size=5))
        elif k in ('mask', 'health'):
            o['s'] = sorted(draw(st.sets(SAT, min_size=1, max_size=23)))
            o['step'] = draw(st.sampled_from([1, 1, 1, 0, 2]))
        elif k == 'iod':
            o['step'] = draw(st.sampled_from([1, 1, 0]))
            o['bad'] = draw(st.integers(0, 9)) == 0
            o['m'] = draw(st.one_of(st.just(2**23-1),
                                    st.integers(0, 2**23-1)))
            o['v'] = draw(st.lists(st.integers(0, 255), min_size=23,
                                   max_size=23))
        elif k == 'cor':
            o['code'] = draw(CODE)
            o['h'] = int(draw(st.integers(0, 9)) == 0)
            o['badp'] = draw(st.integers(0, 9)) == 0
            o['badi'] = draw(st.integers(0, 9)) == 0
            o['m'] = draw(st.sets(st.integers(0, 22), max_size=14))
            o['m'] = sorted(o['m'])
            o['v'] = draw(st.lists(st.integers(-2048, 2047), min_size=14,
                                   max_size=14))
        ops.append(o)
    if draw(st.integers(0, 9)):
        ops.insert(0, dict(op='iod', dt=1, step=1, bad=False, m=2**23-1,
                           v=draw(st.lists(st.integers(0, 255), min_size=23,
                                           max_size=23))))
        ops.insert(0, dict(op='mask', dt=0, step=1,
                           s=sorted(draw(st.sets(SAT, min_size=5,
                                                 max_size=23)))))
    return ops


@facet('messages', hist, 400, 8000,
       'state of the decoder after every message against the model')
def messages(ops):
    dec = ews.decoder("dgps")
    dec.monlevel = 0
    t = g.gpst2time(2280, 1000)
    pos = dec.posr.copy()
    iodp = iodi = -1
    sats, iod, cor = [], {}, {}
    n = 0
    for j, o in enumerate(ops):
        t = g.timeadd(t, o['dt'])
        dec.time = t
        k = o['op']
        tag = 'message %d (%s): ' % (j, k)
        if k == 'valid':
            continue
        if k == 'sta':
            m = mt47(o['e'])
            for e in o['e']:
                if e is not None:
                    pos[e[0]] = [np.deg2rad(e[1]*0.005),
                                 np.deg2rad(e[2]*0.005+115),
                                 e[3]*50.0-100]
        elif k == 'mask':
            iodp = (iodp+o['step']) % 4
            sats = order([tuple(x) for x in o['s']])
            m = mt48(iodp, sats)
        elif k == 'health':
            m = msg(51, bmask({tuple(x) for x in o['s']}))
        elif k == 'iod':
            nx = (iodi+o['step']) % 4
            d = {i: o['v'][i] for i in range(len(sats))
                 if o['m'] >> i & 1}
            p = (iodp+o['bad']) % 4 if iodp >= 0 else 0
            m = mt49(p, nx, 0, d)
            if iodp >= 0 and p == iodp:
                iodi = nx
                iod = {sats[i]: v for i, v in d.items()}
        elif k == 'cor':
            p = (max(iodp, 0)+o['badp']) % 4
            q = (max(iodi, 0)+o['badi']) % 4
            d = {i: o['v'][r] for r, i in enumerate(
                [x for x in o['m'] if x < len(sats)])}
            m = mt50(p, q, o['code'], o['h'], d)
            if p == iodp and q == iodi and not o['h']:
                c = {}
                for i, v in d.items():
                    if sats[i] in iod:
                        c[satno(sats[i])] = (v*0.04, iod[sats[i]], t)
                cor[o['code']] = c
                n += len(c)
        else:
            m = msg(63, Bits())
        dec.decode_cssr(m, 0)
        same(tag+'message type', int(dec.msgtype), {
            'sta': 47, 'mask': 48, 'iod': 49, 'cor': 50, 'health': 51,
            'null': 63}[k])
        eq(tag+'reference stations', dec.posr, pos, 1e-12, 1e-12)
        same(tag+'IODP', int(dec.iodp), iodp)
        same(tag+'IODI', int(dec.iodi), iodi)
        if iodp >= 0:
            same(tag+'mask', [int(x) for x in dec.sat],
                 [satno(x) for x in sats])
        if k == 'health':
            bb = bmask({tuple(x) for x in o['s']})
            i = 0
            for c in SYSS:
                same(tag+'health '+c, int(dec.svh[gen.SYS[c]]),
                     bb.slice(i, MLEN[c]).v)
                i += MLEN[c]
        for code, c in cor.items():
            lc = dec.lc[code+1]
            same(tag+'satellites of station %d' % code,
                 sorted(int(x) for x in lc.sat_n), sorted(c))
            same(tag+'corrections of station %d' % code,
                 sorted(int(x) for x in lc.dclk), sorted(c))
            for x, (v, i, tt) in c.items():
                eq(tag+'correction', lc.dclk[x], v, 1e-9)
                same(tag+'issue of data', int(lc.iode[x]), i)
                eq(tag+'orbit correction', lc.dorb[x], [0, 0, 0], 0)
                eq(tag+'age', g.timediff(t, lc.t0[x][sCType.CLOCK]),
                   g.timediff(t, tt), 1e-9)
    return n > 0


# ---------------------------------------------------------------- position


@st.composite
def scene(draw):
    systems = draw(st.sampled_from(['G', 'GJ', 'GE', 'GR', 'GJREC', 'GC']))
    sats = draw(possim.sat_list(systems, 6, 12, lo=16))
    for s in sats:
        s['prn'] = {'J': (s['prn']-193) % 9+193, 'C': (s['prn']-6) % 31+6, 'R':
                    (s['prn']-1) % 24+1}.get(s['c'], s['prn'])
    seen, out = set(), []
    for s in sats:
        if (s['c'], s['prn']) not in seen:
            seen.add((s['c'], s['prn']))
            out.append(s)
    nb = draw(st.integers(0, 3))
    return dict(
        lat=draw(st.integers(-70000, 70000)),
        lon=draw(st.integers(36000, 175000)), h=draw(st.integers(0, 2500)),
        sats=out, systems=systems, code=draw(CODE),
        dn=draw(st.integers(-60, 60)), de=draw(st.integers(-60, 60)),
        alt=draw(st.integers(0, 63)),
        nb=nb, bad=[draw(st.sampled_from(['nocor', 'noiod', 'noeph']))
                    for _ in range(nb)],
        other=draw(st.lists(st.tuples(CODE, st.integers(3, 20),
                                      st.integers(0, 359)), max_size=3)),
        week=draw(st.integers(1700, 2700)),
        tow=draw(st.integers(0, 604800//30-1))*30,
        clk0=draw(st.integers(-300000, 300000))*1.0,
        p0=[draw(st.integers(-40, 40))*1.0 for _ in range(3)],
        iodp=draw(st.integers(0, 3)), iodi=draw(st.integers(0, 3)),
        iode=draw(st.integers(0, 255)), n=draw(st.integers(1, 3)),
        h0=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


@facet('position', scene, 80, 1500,
       'position of a rover up to about 100 km from the reference station '
       'with arbitrary errors common to both')
def position(s):
    rng = np.random.RandomState(s['seed'])
    sim = Sim(s, s['sats'], s['week'], s['tow'])
    ns = len(sim.sats)
    nav = Nav(nf=1)
    nav.pmode = 0
    nav.ephopt = 0
    t0 = g.gpst2time(s['week'], s['tow'])
    nav.t = t0
    nav.time_p = t0
    iode = [(s['iode']+i*7) % 256 for i in range(ns)]
    for i, (c, k, _) in enumerate(sim.sats):
        if c == 'R':
            e = gen.mk_geph(k)
            e.svh = 0
            e.iode = iode[i]
            f = gen.mk_geph(k)
            f.svh = 0
            f.iode = (iode[i]+1) % 256
            f.taun += 1e-6
            es, lst = [e, f], nav.geph
        else:
            md = 1 if c == 'E' else 0
            e = gen.mk_eph(k, mode=md, iode=iode[i])
            f = gen.mk_eph(k, mode=md, iode=(iode[i]+1) % 256)
            f.af0 += 1e-6
            e.svh = f.svh = 0
            es, lst = [e, f], nav.eph
        bad = i >= ns-s['nb'] and s['bad'][i-ns+s['nb']]
        if bad == 'noeph':
            es = [f]
        lst.extend(es if rng.rand() < .5 else es[::-1])
    # reference stations
    q = [round((s['lat']*1e-3+s['dn']*0.01)/0.005),
         round((s['lon']*1e-3+s['de']*0.01-115)/0.005), s['alt']]
    ref = np.array([np.deg2rad(q[0]*0.005), np.deg2rad(q[1]*0.005+115),
                    q[2]*50.0-100])
    ent = [(s['code'],)+tuple(q)]
    others = []
    for code, d, az in s['other']:
        if code != s['code'] and code not in [x[0] for x in others]:
            la = np.clip(s['lat']*1e-3+d*np.cos(np.deg2rad(az)), -80, 80)
            lo = np.clip(s['lon']*1e-3+d*np.sin(np.deg2rad(az)), 34, 195)
            others.append((code, round(la/0.005), round((lo-115)/0.005), 3))
    dec = ews.decoder("dgps")
    dec.monlevel = 0
    # built-in station list must not matter
    dd = dec.posr[:, :2]-np.array([sim.llh[0], sim.llh[1]])
    near = np.hypot(dd[:, 0], dd[:, 1]*np.cos(sim.llh[0]))*6378.137
    for i in range(64):
        if np.any(dec.posr[i, :2]) and i != s['code'] and near[i] < 400:
            return False
    for x in others:
        r = np.array([np.deg2rad(x[1]*.005), np.deg2rad(x[2]*.005+115)])
        if np.hypot(r[0]-sim.llh[0], (r[1]-sim.llh[1])*np.cos(
                sim.llh[0]))*6378 < 250:
            return False
    ids = order([(c, k['prn']-OFF[c]) for c, k, _ in sim.sats])
    ix = {(c, k['prn']-OFF[c]): i for i, (c, k, _) in enumerate(sim.sats)}
    badof = {i: s['bad'][i-ns+s['nb']] for i in range(ns-s['nb'], ns)}
    rr_r = possim.llh2ecef(ref)
    common = rng.uniform(-40, 40, ns)
    codes = {c: possim.CODE[c][0] for c in s['systems']}
    doy = atm.doy(s['week'], s['tow'])
    zh_r, zw_r = atm.mops_zenith(doy, ref[0], ref[2])
    zh, zw = atm.mops_zenith(doy, sim.llh[0], sim.llh[2])
    prc, prc_o = {}, {}
    for m, x in enumerate(ids):
        i = ix[x]
        if badof.get(i) == 'nocor' or m >= 23:
            continue
        c, k, _ = sim.sats[i]
        q_, az, el, dts, _ = sim.geom(i, 0.0, rr_r)
        v = -(common[i]+(zh_r+zw_r)*atm.mops_map(el))
        if c != 'G':
            v -= C*k.get('tgd', 0.0)
        if not -81 < v < 81:
            return False
        prc[m] = round(v/0.04)
        prc_o[m] = int(rng.randint(-1000, 1000))
        if len(prc) == 14:
            break
    iod = {m: iode[ix[x]] for m, x in enumerate(ids)
           if badof.get(ix[x]) != 'noiod'}
    msgs = [mt47(ent+others), mt48(s['iodp'], ids),
            mt49(s['iodp'], s['iodi'], 0, iod)]
    late = [mt50(s['iodp'], s['iodi'], s['code'], 0, prc)]
    for x in others:
        late.append(mt50(s['iodp'], s['iodi'], x[0], 0, prc_o))
    if s['seed'] % 2:
        late = late[::-1]
    if s['h0']:  # not to be used: other issue, unhealthy station
        late.append(mt50((s['iodp']+1) % 4, s['iodi'], s['code'], 0, prc_o))
        late.append(mt50(s['iodp'], s['iodi'], s['code'], 1, prc_o))
    for m in msgs+late:
        dec.time = t0
        dec.decode_cssr(m, 0)
    spp = stdpos(nav, pos0=sim.rr+np.array(s['p0']), trop_opt=1, iono_opt=1)
    for n in range(s['n']):
        t = n*1.0
        obs = Obs()
        obs.t = g.timeadd(t0, t)
        obs.sat = np.array([sim.satno(i) for i in range(ns)])
        for a in 'PLSD':
            setattr(obs, a, np.zeros((ns, 1)))
        obs.S += 45.0
        obs.lli = np.zeros((ns, 1), dtype=int)
        dtr = s['clk0']
        info, use = [], []
        for i, (c, k, _) in enumerate(sim.sats):
            rho, az, el, dts, _ = sim.geom(i, t-dtr/C, sim.rr)
            T = (zh+zw)*atm.mops_map(el) if el > 0.05 else 0.0
            obs.P[i, 0] = rho+dtr-C*(dts-k.get('tgd', 0.0))+T+common[i]
            if i in badof:
                obs.P[i, 0] += rng.uniform(-2000, 2000)
            obs.L[i, 0] = obs.P[i, 0]*freq(c, codes[c],
                                           k.get('frq', 0))/C
            m = ids.index((c, k['prn']-OFF[c]))
            use.append(i not in badof and m in prc)
            if abs(np.rad2deg(el)-10) < .05:
                return False
            info.append((az, el))
        if sum(use) < 5:
            return False
        obs.sig = {gen.SYS[c]: {
            uTYP.C: [rSigRnx(c+'C'+codes[c])],
            uTYP.L: [rSigRnx(c+'L'+codes[c])],
            uTYP.S: [rSigRnx(c+'S'+codes[c])]} for c in s['systems']}
        with Quiet():
            spp.process(obs, cs=dec)
        H = np.array([[np.cos(e)*np.sin(a), np.cos(e)*np.cos(a), np.sin(e),
                       1.0] for (a, e), u in zip(info, use) if u])
        gd = np.sqrt(np.trace(np.linalg.inv(H.T@H)))
        if gd > 15:
            return False
        same('satellites used', int(spp.nsat), sum(use))
        same('solution status', int(nav.smode), 2)
        same('station', int(dec.inet), s['code']+1)
        e = np.linalg.norm(nav.x[:3]-sim.rr)
        tol = 0.06*max(gd, 1)+(0.04 if n == 0 else 0.02)*max(gd, 1)
        check(e < tol, 'epoch %d: position off by %.3f m (GDOP %.1f)', n, e,
              gd)
        eq('receiver clock [m]', nav.x[3], dtr, tol)
    return '%s%s' % (s['systems'], '/others' if others else '')


# ------------------------------------------------- nearest station
@facet('nearest', st.fixed_dictionaries(dict(
    lat=st.floats(-68, 68), lon=st.floats(40, 170),
    n=st.integers(1, 10), seed=st.integers(0, 2**32-1))), quick=300,
    thorough=4000, rule='two or more stations')
def nearest(c):
    """the nearest reference station is taken, with its distance"""
    rng = np.random.RandomState(c['seed'])
    dec = ews.decoder("dgps")
    dec.monlevel = 0
    dec.posr[:] = 0             # no built-in station
    pos = np.deg2rad([c['lat'], c['lon']])
    rr = possim.llh2ecef(np.array([pos[0], pos[1], 100.0]))
    same('no station', dec.get_station(rr)[0], -1)
    ent, dist = [], []
    for code in rng.permutation(63)[:c['n']]:
        la = c['lat']+rng.uniform(-8, 8)*rng.choice([1, .2])
        lo = c['lon']+rng.uniform(-8, 8)*rng.choice([1, .2])/np.cos(pos[0])
        la, lo = np.clip(la, -80, 80), np.clip(lo, 34, 195)
        q = (int(code), round(la/.005), round((lo-115)/.005), 3)
        ent.append(q)
        a, o = np.deg2rad(q[1]*.005), np.deg2rad(q[2]*.005+115)
        h = np.sin((a-pos[0])/2)**2+np.cos(a)*np.cos(pos[0])*np.sin(
            (o-pos[1])/2)**2
        dist.append(2*np.arcsin(np.sqrt(h))*6371e3)
    dec.time = g.gpst2time(2200, 1000)
    for k in range(0, len(ent), 5):
        dec.decode_cssr(mt47(ent[k:k+5]), 0)
    k, d = dec.get_station(rr)
    i = [x[0] for x in ent].index(k) if k in [x[0] for x in ent] else None
    check(i is not None, 'station %d was not broadcast', k)
    # plane approximation of the distance
    tol = 0.01+.5*np.abs(np.tan(pos[0]))*8/57
    check(dist[i] <= min(dist)*(1+2*tol)+500, 'station at %.0f km taken, '
          'nearest at %.0f km', dist[i]*1e-3, min(dist)*1e-3)
    check(abs(d-dist[i]) <= tol*dist[i]+500, 'distance %.0f km, %.0f km '
          'expected', d*1e-3, dist[i]*1e-3)
    return c['n'] > 1
