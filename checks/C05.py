"""C05 ephemeris selection and satellite states at transmission time"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen, orb
from cssrlib import gnss as g, ephemeris as ep
from cssrlib.gnss import uGNSS, Eph, Nav, Obs, rSigRnx
from cssrlib.cssrlib import cssr, sCType, sCSSRTYPE as sc

SCALE = 6
RULE = ('sets of broadcast ephemerides of several satellites, modes and IODs, '
        'queried at times inside and outside validity, with and without SSR')
C = 299792458.0
TMAX = {'G': 7201, 'E': 14400, 'J': 7201, 'C': 7201, 'I': 7201, 'R': 1800,
        'S': 360}


@facet('findeph', st.fixed_dictionaries(
    {'l': st.lists(st.tuples(
        st.sampled_from('GEJCIR'), st.integers(0, 1), st.integers(-20, 20),
        st.integers(0, 3), st.integers(0, 1)), max_size=14),
     'c': st.sampled_from('GEJCIR'), 'n': st.integers(0, 1),
     't': st.one_of(st.integers(-25000, 25000),
                   st.integers(-1300, 1300), st.integers(-30, 30)), 'iode': st.integers(-1, 3),
     'mode': st.integers(0, 1), 'unit': st.sampled_from([900, 1800, 450, 60, 16, 1])}),
    2500, 20000, 'reference selection over the whole list')
def findeph(c):
    t0 = g.gpst2time(2200, 300000)
    L = []
    for s, n, d, iode, mode in c['l']:
        e = Eph(int(g.prn2sat(gen.SYS[s], gen.PRN[s][0]+n)))
        e.toe = g.timeadd(t0, d*c['unit'])
        e.iode, e.mode = iode, mode
        L.append(e)
    sat = int(g.prn2sat(gen.SYS[c['c']], gen.PRN[c['c']][0]+c['n']))
    t = g.timeadd(t0, c['t'])
    r = ep.findeph(L, t, sat, c['iode'], c['mode'])
    cand = [e for e in L if e.sat == sat and e.mode == c['mode']
            and abs(g.timediff(t, e.toe)) <= TMAX[c['c']]
            and (c['iode'] < 0 or e.iode == c['iode'])]
    if not cand:
        check(r is None, 'ephemeris returned though none is usable')
        return 'none'
    check(r is not None, 'usable ephemeris not found')
    check(any(r is e for e in cand),
          'unusable ephemeris returned (sat %d mode %d iode %d dt %.0f)',
          r.sat, r.mode, r.iode, g.timediff(t, r.toe))
    if c['iode'] < 0:
        eq('age', abs(g.timediff(t, r.toe)),
           min(abs(g.timediff(t, e.toe)) for e in cand), 1e-6)
        return 'nearest'
    return 'iode'


@facet('nearest', st.fixed_dictionaries(
    {'c': st.sampled_from('GEJCIR'), 'mode': st.integers(0, 1),
     'scale': st.sampled_from([30, 300, 700, 1700, 3600, 7000, 14000]),
     'd': st.lists(st.tuples(st.floats(-1, 1), st.sampled_from([1, 1, 1, 0])),
                   min_size=2, max_size=6), 't': st.floats(-1, 1)}),
    1500, 15000, 'several usable entries of one satellite: the nearest one '
    'whatever the order and the distances')
def nearest(c):
    t0 = g.gpst2time(2200, 300000)
    sat = int(g.prn2sat(gen.SYS[c['c']], gen.PRN[c['c']][0]))
    L = []
    for i, (d, m) in enumerate(c['d']):
        e = Eph(sat)
        e.toe = g.timeadd(t0, round(d*c['scale']))
        e.iode, e.mode = i, c['mode'] if m else 1-c['mode']
        L.append(e)
    t = g.timeadd(t0, round(c['t']*c['scale']))
    cand = [e for e in L if e.mode == c['mode']
            and abs(g.timediff(t, e.toe)) <= TMAX[c['c']]]
    r = ep.findeph(L, t, sat, -1, c['mode'])
    if not cand:
        check(r is None, 'ephemeris returned though none is usable')
        return 'none'
    check(r is not None, 'usable ephemeris not found')
    check(any(r is e for e in cand), 'unusable ephemeris returned')
    eq('age', abs(g.timediff(t, r.toe)),
       min(abs(g.timediff(t, e.toe)) for e in cand), 1e-6)
    return 'nearest of %d' % len(cand)


# ---------------------------------------------------------------- states

@st.composite
def scene(draw, systems='GEJCIR', ssr=False):
    week, tow = draw(st.integers(1800, 2600)), draw(
        st.integers(0, 604800//16-1))*16
    sats = []
    used = set()
    for _ in range(draw(st.integers(1, 5))):
        s = draw(st.sampled_from(systems))
        k = draw(gen.glo()) if s == 'R' else draw(gen.kep(s))
        if (s, k['prn']) in used:
            continue
        used.add((s, k['prn']))
        lim = 900 if s == 'R' else 7000
        off = draw(st.integers(-lim, lim))
        e = {'s': s, 'k': k, 'off': off, 'iode': draw(st.integers(0, 60)),
             'P': draw(st.integers(19000000000, 42000000000))*1e-3,
             'eph': draw(st.sampled_from([1, 1, 1, 1, 0]))
             if not ssr else 1, 'svh': draw(st.sampled_from([0, 0, 1, 63]))}
        if ssr:
            e.update(orb=[draw(st.integers(-8000, 8000))*1.6e-3
                          for _ in range(3)],
                     clk=draw(st.integers(-9000, 9000))*1.6e-3,
                     vel=[draw(st.integers(-128, 127))*2.0**-11
                          for _ in range(3)],
                     dft=draw(st.integers(-256, 255))*2.0**-12,
                     hclk=draw(st.sampled_from([None, 0.5, -0.25, 'nan'])),
                     clkp=draw(st.integers(-9000, 9000))*1.6e-3,
                     iodc=[draw(st.integers(0, 7)) for _ in range(3)],
                     inp=draw(st.sampled_from([1, 1, 1, 0])),
                     dage=draw(st.sampled_from([0, 0, -6, 13])),
                     fault=draw(st.sampled_from(
                         ['', '', '', '', '', 'iode', 'noclk', 'nanorb',
                          'nanclk', 'mask', 'noiode'])))
            if draw(st.booleans()):     # mostly the current clock
                e['iodc'][draw(st.integers(1, 2))] = e['iodc'][0]
        sats.append(e)
    d = {'week': week, 'tow': tow, 'frac': draw(st.integers(0, 999))*1e-3,
         'sats': sats}
    if ssr:
        d['mode'] = draw(st.sampled_from(
            ['CLAS', 'CLAS', 'MADOCA', 'PVS', 'SBAS5', 'SBAS1', 'HAS', 'BDS',
             'BDS', 'RTCM', 'IGS', 'DGPS']))
        d['newmask'] = draw(st.booleans())
        d['clkmask'] = draw(st.booleans())
        d['iod'] = draw(st.sampled_from(['cur', 'cur', 'prev', 'mix', 'none']))
        d['hcstat'] = draw(st.booleans())
        d['age'] = draw(st.integers(0, 60))
    return d


def build(c, nav):
    t = g.timeadd(g.gpst2time(c['week'], c['tow']), c['frac'])
    obs = Obs()
    obs.t = t
    obs.sat = np.array([int(g.prn2sat(gen.SYS[e['s']], e['k']['prn']))
                        for e in c['sats']])
    obs.P = np.array([[e['P'], e['P']+3.0] for e in c['sats']])
    obs.sig = {gen.SYS[s]: {} for s in 'GEJCIR'}
    for e in c['sats']:
        k = dict(e['k'])
        te = g.timeadd(g.gpst2time(c['week'], c['tow']), e['off'])
        k['week'], k['toes'] = g.time2gpst(te)
        e['k'] = k
        if not e['eph']:
            continue
        mode = 1 if (e['s'] == 'C' and 'mode' in c) else 0
        if e['s'] == 'R':
            x = gen.mk_geph(k, e['iode'])
            nav.geph.append(x)
        else:
            x = gen.mk_eph(k, mode, 0, e['iode'])
            nav.eph.append(x)
        x.svh = e['svh']
    return obs


def ref_state(e, c, tgd=False, mode=0):
    """position, velocity, clock at transmission time"""
    k = e['k']
    # toe relative to integer epoch
    dt = c['frac']-e['off']-e['P']/C
    if e['s'] == 'R':
        d = 0.0
        for _ in range(4):
            d = -k['taun']+k['gamn']*(dt-d)
        p, v = orb.glo_state(k['pos'], k['vel'], k['acc'], dt-d)
        return p, v, -k['taun']+k['gamn']*(dt-d), 2e-3
    d = 0.0
    for _ in range(4):
        x = dt-d
        d = k['af0']+k['af1']*x+k['af2']*x*x
    x = dt-d
    p = orb.eph_pos(k['c'], k['prn'], k, x, mode > 0)
    v = orb.eph_vel(k['c'], k['prn'], k, x, mode > 0)
    clk = k['af0']+k['af1']*x+k['af2']*x*x+orb.eph_rel(
        k['c'], k, x, mode > 0)
    if tgd:
        clk -= k['tgd']
    return p, v, clk, 2e-3


@facet('broadcast', st.fixed_dictionaries(
    {'sc': scene(), 'std': st.booleans(), 'skip': st.sampled_from(
        ['', '', 'G', 'R', 'C'])}), 120, 1500,
    'states of all observed satellites against the reference model')
def broadcast(c):
    s = c['sc']
    nav = Nav(nf=1 if c['std'] else 2)
    nav.ephopt = 0
    nav.smode = 1 if c['std'] else 0
    obs = build(s, nav)
    if c['skip']:
        del obs.sig[gen.SYS[c['skip']]]
    P0 = obs.P.copy()
    rs, vs, dts, svh, nsat = ep.satposs(obs, nav)
    exp_n = 0
    for i, e in enumerate(s['sats']):
        if e['s'] == c['skip']:
            eq('skipped system', rs[i], np.zeros(3), 0)
            continue
        if not e['eph']:
            eq('no ephemeris', rs[i], np.zeros(3), 0)
            check(svh[i] != 0, 'satellite without ephemeris reported healthy')
            continue
        exp_n += 1
        p, v, d, tol = ref_state(e, s, tgd=c['std'])
        eq('position', rs[i], p, tol)
        eq('velocity', vs[i], v, 2e-4)
        eq('clock', dts[i], d, 5e-13)
        same('health', int(svh[i]), e['svh'])
        if e['s'] == 'R':
            same('channel', nav.glo_ch.get(int(obs.sat[i])), e['k']['frq'])
    same('number of satellites', nsat, exp_n)
    r2, v2, d2, s2, n2 = ep.satposs(obs, nav)
    check((r2 == rs).all() and (v2 == vs).all() and (d2 == dts).all() and
          (obs.P == P0).all(), 'second evaluation differs')
    return '%dsat' % len(s['sats'])


@facet('single', st.fixed_dictionaries({'sc': scene(), 'std': st.booleans()}),
       100, 1000,
       'state of one satellite at an epoch; clock without relativity')
def single(c):
    s = c['sc']
    nav = Nav(nf=1 if c['std'] else 2)
    nav.ephopt = 0
    nav.smode = 1 if c['std'] else 0
    obs = build(s, nav)
    for i, e in enumerate(s['sats']):
        r, v, d, h = ep.satpos(int(obs.sat[i]), obs.t, nav)
        if not e['eph']:
            check(np.isnan(r).all() and np.isnan(d).all() and h[0] != 0,
                  'state without ephemeris')
            continue
        k = e['k']
        x = s['frac']-e['off']
        if e['s'] == 'R':
            p, w = orb.glo_state(k['pos'], k['vel'], k['acc'], x)
            clk = -k['taun']+k['gamn']*x+2*(p@w)/C**2
        else:
            p = orb.eph_pos(k['c'], k['prn'], k, x, False)
            w = orb.eph_vel(k['c'], k['prn'], k, x, False)
            clk = k['af0']+k['af1']*x+k['af2']*x*x
            if c['std']:    # single-frequency user
                clk -= k['tgd']
        eq('position', r[0], p, 2e-3)
        eq('velocity', v[0], w, 2e-4)
        eq('clock', d[0], clk, 5e-13)
        same('health', int(h[0]), e['svh'])


MODES = {'CLAS': sc.QZS_CLAS, 'MADOCA': sc.QZS_MADOCA, 'PVS': sc.PVS_PPP,
         'SBAS5': sc.SBAS_L5, 'SBAS1': sc.SBAS_L1, 'HAS': sc.GAL_HAS_SIS,
         'BDS': sc.BDS_PPP, 'RTCM': sc.RTCM3_SSR, 'IGS': sc.IGS_SSR,
         'DGPS': sc.DGPS}


def mk_cs(s, obs):
    cs = cssr()
    cs.cssrmode = MODES[s['mode']]
    cs.nav_mode = {uGNSS.GPS: 0, uGNSS.QZS: 0, uGNSS.GAL: 0, uGNSS.BDS: 1,
                   uGNSS.GLO: 0}
    cs.mask_id = 1
    cs.mask_id_clk = 1 if s['clkmask'] else 2
    o, k = {'cur': (5, 5), 'prev': (4, 4), 'mix': (5, 4), 'none': (9, 9)}[
        s['iod']]
    cs.iodssr, cs.iodssr_p = 5, 4
    cs.iodssr_c[sCType.ORBIT], cs.iodssr_c[sCType.CLOCK] = o, k
    lc = cs.lc[0]
    lc.iode, lc.dorb, lc.dclk, lc.hclk = {}, {}, {}, {}
    lc.dvel, lc.ddft = {}, {}
    lc.iodc, lc.iodc_c, lc.iodc_c_p, lc.dclk_p = {}, {}, {}, {}
    if s['hcstat']:
        lc.cstat |= 1 << sCType.HCLOCK
    lc.t0 = {}
    t0 = g.timeadd(obs.t, -s['age'])
    masked, old = [], []
    for i, e in enumerate(s['sats']):
        sat = int(obs.sat[i])
        if e['fault'] != 'mask':
            masked.append(sat)
        if e['fault'] != 'mask' if not s['newmask'] else e['inp']:
            old.append(sat)
        lc.t0[sat] = {sCType.ORBIT: t0, sCType.CLOCK:
                      g.timeadd(t0, e['dage'])}
        lc.iodc[sat], lc.iodc_c[sat], lc.iodc_c_p[sat] = e['iodc']
        lc.dclk_p[sat] = e['clkp']
        if e['fault'] != 'noiode':
            lc.iode[sat] = e['iode']+(1 if e['fault'] == 'iode' else 0)
        lc.dorb[sat] = np.array(e['orb'])
        if e['fault'] == 'nanorb':
            lc.dorb[sat][1] = np.nan
        if e['fault'] != 'noclk':
            lc.dclk[sat] = np.nan if e['fault'] == 'nanclk' else e['clk']
        if e['hclk'] is not None:
            lc.hclk[sat] = np.nan if e['hclk'] == 'nan' else e['hclk']
        lc.dvel[sat] = np.array(e['vel'])
        lc.ddft[sat] = e['dft']
    cs.sat_n = list(masked)
    cs.sat_n_p = old
    return cs, t0


def usable(s, e):
    """has the satellite a complete and consistent correction?"""
    f = e['fault']
    if s['iod'] == 'none' or f in ('iode', 'noiode', 'nanorb'):
        return None
    inn = f != 'mask'
    inp = bool(e['inp']) if s['newmask'] else inn
    if not (inp if s['iod'] == 'prev' else inn):
        return None
    if s['mode'] == 'BDS':
        a, b, c = e['iodc']
        if a == b and f != 'noclk':
            return None if f == 'nanclk' else e['clk']
        return e['clkp'] if a == c and a != b else None
    if s['mode'] == 'HAS':
        if not s['clkmask'] and not inp:
            return None
    elif not (inn if s['iod'] == 'cur' else inp):
        return None
    return None if f in ('noclk', 'nanclk') else e['clk']


def correct(s, e, p, v, clk, age, cage):
    """corrected position and clock correction [m]"""
    o = np.array(e['orb'])
    if s['mode'] != 'BDS' and s['hcstat'] and e['hclk'] not in (None, 'nan'):
        clk += e['hclk']
    if s['mode'] in ('PVS', 'SBAS5', 'SBAS1'):
        return p-o-np.array(e['vel'])*age, clk+e['dft']*cage
    w = np.cross(p, v)
    w /= np.linalg.norm(w)
    if s['mode'] == 'BDS':
        r = p/np.linalg.norm(p)
        a = np.cross(w, r)
    else:
        a = v/np.linalg.norm(v)
        r = np.cross(a, w)
    return p-(r*o[0]+a*o[1]+w*o[2]), clk


@facet('ssr', st.fixed_dictionaries({'sc': scene('GEJCR', ssr=True)}),
       400, 4000, 'SSR orbit/clock corrections applied once, to the matching '
       'ephemeris only')
def ssr(c):
    s = c['sc']
    nav = Nav()
    nav.ephopt = 2
    obs = build(s, nav)
    nav.x = np.array([-3957000.0, 3310000.0, 3737000.0])
    nav.time_p = g.gpst2time(1500, 0)
    cs, t0 = mk_cs(s, obs)
    ok = 0
    if s['mode'] == 'BDS' and any(e['fault'] == 'noclk' and
                                  e['iodc'][0] == e['iodc'][1]
                                  for e in s['sats']):
        return False    # a clock IOD without a clock does not occur
    # corrections of services for L1 users
    l1 = s['mode'] in ('PVS', 'SBAS5', 'SBAS1', 'DGPS')
    out = [ep.satposs(obs, nav, cs) for _ in range(2)]
    rs, vs, dts, svh, nsat = out[0]
    for i, e in enumerate(s['sats']):
        clk = usable(s, e)
        if clk is None:
            eq('satellite without valid correction (%s)' % e['fault'], rs[i],
               np.zeros(3), 0)
            continue
        ok += 1
        p, v, d, tol = ref_state(e, s, mode=1 if e['s'] == 'C' else 0)
        p, clk = correct(s, e, p, v, clk, s['age'], s['age']-e['dage'])
        d += clk/C
        if l1 and e['s'] == 'G':
            d -= e['k']['tgd']
        # GEO velocity is tiny, its direction less sharp
        geo = orb.is_geo(e['k'].get('c', 'R'), e['k']['prn'])
        eq('corrected position', rs[i], p, 5e-2 if geo else 4e-3)
        eq('corrected clock', dts[i], d, 1e-12)
        same('health', int(svh[i]), e['svh'])
    same('number of satellites', nsat, ok)
    for a, b in zip(out[0], out[1]):
        check(np.array_equal(np.array(a), np.array(b)),
              'corrections change when applied a second time')
    for i, e in enumerate(s['sats']):
        if e['fault'] == '':
            same('stored correction', cs.lc[0].dorb[int(obs.sat[i])].tolist(),
                 e['orb'])
        r1, v1, d1, h1 = ep.satpos(int(obs.sat[i]), obs.t, nav, cs)
        r2, v2, d2, h2 = ep.satpos(int(obs.sat[i]), obs.t, nav, cs)
        check(np.array_equal(r1, r2, equal_nan=True), 'satpos not repeatable')
        clk = usable(s, e)
        if clk is None:
            check(np.isnan(r1).all(), 'state without valid correction')
            continue
        k, x = e['k'], s['frac']-e['off']
        if e['s'] == 'R':
            p, v = orb.glo_state(k['pos'], k['vel'], k['acc'], x)
            d = -k['taun']+k['gamn']*x+2*(p@v)/C**2
        else:
            p = orb.eph_pos(k['c'], k['prn'], k, x, e['s'] == 'C')
            v = orb.eph_vel(k['c'], k['prn'], k, x, e['s'] == 'C')
            d = k['af0']+k['af1']*x+k['af2']*x*x
        p, clk = correct(s, e, p, v, clk, s['age'], s['age']-e['dage'])
        if l1 and e['s'] == 'G':
            d -= e['k']['tgd']
        geo = orb.is_geo(e['k'].get('c', 'R'), e['k']['prn'])
        eq('corrected position at an epoch', r1[0], p,
           5e-2 if geo else 4e-3)
        eq('corrected clock at an epoch', d1[0], d+clk/C, 1e-12)
    return s['mode']+'/'+s['iod']


@facet('precise', st.fixed_dictionaries({
    'k': gen.kep('GE'), 'q': st.integers(0, 14*900), 'c0':
    st.integers(-10**6, 10**6), 'ck': st.booleans(),
    'brdc': st.sampled_from([None, None, 'none', 'old', 0, 1, 63]),
    'P': st.integers(19000000000, 30000000000)}), 150, 2000,
    'state from a precise orbit at an epoch and for an observation')
def precise(c):
    """orbits and clocks of a precise product, health from the broadcast"""
    from checks.C08 import truth, T0, gt
    from cssrlib.peph import peph as Peph, peph_t
    from cssrlib.rinex import pclk_t
    k = c['k']
    sat = int(g.prn2sat(gen.SYS[k['c']], k['prn']))
    o = dict(a=k['A'], e=min(k['e'], .01), i=np.rad2deg(k['i0']),
             O=k['OMG0'], w=k['omg'], M=k['M0'])
    nav = Nav()
    nav.ephopt = 4
    nav.ne = nav.nc = 0
    nav.pclk = []
    t0 = gt(T0)
    for j in range(15):
        x = peph_t(g.timeadd(t0, 900*j))
        x.pos[sat-1, :3] = truth(o, 900*j)[0]
        x.pos[sat-1, 3] = c['c0']*1e-9+1e-13*900*j
        nav.peph.append(x)
        nav.ne += 1
        if c['ck']:
            x.pos[sat-1, 3] += 1e-6
            y = pclk_t(g.timeadd(t0, 900*j))
            y.clk[sat-1] = c['c0']*1e-9+1e-13*900*j
            nav.pclk.append(y)
            nav.nc += 1
    t = g.timeadd(t0, c['q'])
    want = 0
    if c['brdc'] is not None:
        te = g.timeadd(t, -86400 if c['brdc'] == 'old' else 600)
        k['week'], k['toes'] = g.time2gpst(te)
        if c['brdc'] == 'none':
            k['prn'] = k['prn'] % 30+1
        x = gen.mk_eph(k, 0, 0, 3)
        x.svh = c['brdc'] if isinstance(c['brdc'], int) else 0
        nav.eph.append(x)
        want = c['brdc'] if isinstance(c['brdc'], int) else None
    orbit = Peph()
    r, v, d, h = ep.satpos(sat, t, nav, orb=orbit)
    obs = Obs()
    obs.t, obs.sat = t, np.array([sat])
    obs.P = np.array([[c['P']*1e-3, 0.0]])
    obs.sig = {gen.SYS[c['k']['c']]: {}}
    r2, v2, d2, h2, n2 = ep.satposs(obs, nav, orb=orbit)
    y = c['c0']*1e-9+1e-13*c['q']
    if want is None:
        check(np.isnan(r).all() and h[0] != 0 and h2[0] != 0 and n2 == 0,
              'satellite without ephemeris is not flagged')
        return True
    if y == 0 or c['q'] == 0 or c['c0'] in (0, -1000):
        return False            # a clock of zero stands for a missing one
    dt = c['q']-c['P']*1e-3/C-y
    if dt < 0:
        return False
    p, w = truth(o, c['q'])
    eq('position', r[0], p, 3)
    eq('velocity', v[0], w, 3e-2)
    eq('clock without relativity', d[0], y, 2e-12)
    same('health', (int(h[0]), int(h2[0]), int(n2)), (want, want, 1))
    p, w = truth(o, dt)
    eq('position at transmission', r2[0], p, 3)
    eq('velocity at transmission', v2[0], w, 3e-2)
    eq('clock at transmission', d2[0], y-2*(p@w)/C**2, 5e-11)
    x = truth(o, c['q'])[0]-truth(o, dt)[0]
    eq('motion during the flight', r[0]-r2[0], x, 1e-2)
    return True
