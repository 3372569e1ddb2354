"""C17 RTCM and IGS state-space messages: decoding and encoding"""
import os
import random
import tempfile
import numpy as np
from copy import deepcopy
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from vlib import gen, rtcmenc as R, rtcmssr as S
from vlib.bits import Bits
from cssrlib import gnss as g
from cssrlib.gnss import uTYP, rSigRnx
from cssrlib.cssrlib import sCType, local_corr
from cssrlib.rtcm import rtcm, rtcme

SCALE = 16
GROUP = {'orb': ['O'], 'clk': ['C'], 'comb': ['O', 'C'], 'hclk': ['H'],
         'ura': ['U'], 'cb': ['B'], 'pb': ['P']}
STORE = {'O': ('iode', 'dorb', 'ddorb'), 'C': ('dclk', 'ddclk', 'dddclk'),
         'H': ('hclk',), 'U': ('ura',), 'B': ('cbias',),
         'P': ('pbias', 'di', 'si', 'wl')}
CT = {'O': sCType.ORBIT, 'C': sCType.CLOCK, 'H': sCType.HCLOCK,
      'U': sCType.URA, 'B': sCType.CBIAS, 'P': sCType.PBIAS}
TOL = {'dorb': 1e-9, 'ddorb': 1e-11, 'dclk': 1e-9, 'ddclk': 1e-11,
       'dddclk': 1e-13, 'hclk': 1e-9, 'ura': 1e-9, 'cbias': 1e-9,
       'pbias': 1e-9, 'yaw': 1e-12, 'dyaw': 1e-12}


def newdec(week, tow, log=None):
    d = rtcm(log)
    d.monlevel = 1 if log else 0
    d.week = week
    d.time = g.gpst2time(week, float(tow))
    return d


def frame(b):
    """frame of a message (at least 6 bytes)"""
    by = b.bytes()
    return R.frame(by+bytes(max(0, 6-len(by))))


def feed(d, b):
    fr = frame(b)
    check(d.sync(fr, 0) and d.checksum(fr, 0, len(fr)+1), 'valid frame')
    r = d.decode(fr[:d.len+3])
    return r, fr


def fam_ok(fam, c, t):
    return fam == 'I' or (fam, c, t) in S.MT


@st.composite
def history(draw):
    n = draw(st.integers(1, 14))
    ev = []
    fams = draw(st.sampled_from(['R', 'T', 'I', 'RTI', 'RI']))
    cs = draw(st.sampled_from(['G', 'GRE', 'GRECJS', 'EC', 'R']))
    ts = draw(st.sampled_from([['orb', 'clk'], ['comb', 'clk', 'orb'],
                               ['cb', 'pb'], ['hclk', 'ura', 'clk'],
                               list(GROUP)]))
    for _ in range(n):
        f = draw(st.sampled_from(fams))
        opt = [(c, t) for c in cs for t in ts if fam_ok(f, c, t)]
        if not opt:
            f = 'I'
            opt = [(c, t) for c in cs for t in ts]
        c, t = draw(st.sampled_from(opt))
        ev.append([f, c, t, draw(st.sampled_from([0, 0, 0, 1, 5, 30])),
                   draw(st.integers(0, 2**32-1))])
    return dict(week=draw(st.integers(1931, 2300)),
                tow=draw(st.one_of(
                    st.integers(0, 604000),
                    st.integers(0, 6).map(lambda k: k*86400+75500))),
                ev=ev, log=draw(st.booleans()))


def rkey(c, t, code):
    return rSigRnx(c+t+code)


def got_map(d, name, c=None):
    """flatten a store of the decoder"""
    lc = d.lc[0]
    v = getattr(lc, name)
    o = {}
    if v is None:
        return o
    for sat, x in v.items():
        if name in ('cbias', 'pbias', 'di', 'si', 'wl'):
            for k, y in x.items():
                if not isinstance(k, rSigRnx):
                    viol('%s of %s is keyed by %r: the positioning engines '
                         'look biases up by signal (rSigRnx)'
                         % (name, g.sat2id(sat), k))
                if k == rSigRnx():      # reserved signal number
                    continue
                o[int(sat), k] = y
        else:
            o[int(sat)] = x
    return o


def expand(m):
    """values() with signal codes turned into rSigRnx"""
    o = {}
    for name, dd in S.values(m).items():
        typ = 'C' if name == 'cbias' else 'L'
        o[name] = {(k[0], rkey(m['c'], typ, k[1])) if isinstance(k, tuple)
                   else k: v for k, v in dd.items()}
    return o


@facet('stream', history(), quick=250, thorough=4000,
       rule='at least two messages, one with satellites')
def stream(c):
    """after every message: the corrections of the latest epoch are held, and
    every correction held is the latest one received"""
    tmp = None
    if c['log']:
        fd, tmp = tempfile.mkstemp()
        os.close(fd)
    try:
        return _stream(c, tmp)
    finally:
        if tmp:
            os.unlink(tmp)


def _stream(c, log):
    t = c['tow']
    d = newdec(c['week'], t, log)
    latest = {}             # store -> key -> (value, time)
    last = {}               # group -> time of the latest epoch
    ns = 0
    for fam, cc, ty, dt, seed in c['ev']:
        t += dt
        rnd = random.Random(seed)
        m = S.rmsg(rnd, fam, cc, ty, t)
        ns += len(m['sats'])
        T = g.gpst2time(c['week'], t)
        b = S.bits(m)
        fr = frame(b)
        tm = d.decode_time(fr)
        if fam == 'I' or (fam == 'R' and ty != 'pb'):
            check(tm is not False, 'no epoch found in message %s', m['t'])
            eq('decode_time', g.timediff(tm, T), 0, 1e-9)
        r, _ = feed(d, b)
        eq('epoch of %s %s' % (cc, ty), g.timediff(d.time, T), 0, 1e-9)
        same('IOD SSR', d.iodssr, m['iod'])
        same('provider', (d.pid, d.sid), (m['pid'], m['sid']))
        same('multiple message flag', bool(d.mi), bool(m['mi']))
        if ty in ('orb', 'comb'):
            same('datum', d.datum, m['datum'])
        same('bits consumed', r[0]-24, b.n)
        val = expand(m)
        for gr in GROUP[ty]:
            last[gr] = t
            for s in STORE[gr]:
                if m['fam'] == 'T' and s == 'wl':
                    for k in val.get('pbias', {}):
                        latest.setdefault(s, {}).pop(k, None)
                    continue
                latest.setdefault(s, {}).update(
                    {k: (v, t) for k, v in val.get(s, {}).items()})
            for s in m['sats']:
                sat = S.sat_of(cc, s['id'])
                eq('t0 of %s' % g.sat2id(sat), g.timediff(
                    d.lc[0].t0[sat][CT[gr]], T), 0, 1e-9)
            check(d.lc[0].cstat & (1 << CT[gr]), 'status bit')
            same('update interval', int(d.udi[CT[gr]]), m['udi'])
        for k in ('yaw', 'dyaw'):
            latest.setdefault(k, {}).update(
                {s: (v, t) for s, v in val.get(k, {}).items()})
            if ty == 'pb':
                compare(k, got_map(d, k), latest[k], None)
        for gr in GROUP[ty]:
            for s in STORE[gr]:
                if s == 'wl':
                    compare(s, got_map(d, s), latest.get(s, {}), None, part=True)
                else:
                    compare(s, got_map(d, s), latest.get(s, {}), last[gr])
    return len(c['ev']) > 1 and ns > 0


def compare(name, got, lat, t, part=False):
    for k, v in got.items():
        if part and k not in lat:
            continue
        check(k in lat, '%s of %s was never received', name, k)
        tol = TOL.get(name)
        if tol is None:
            same('%s of %s' % (name, k), int(v), int(lat[k][0]))
        else:
            eq('%s of %s' % (name, k), v, lat[k][0], tol, 1e-12)
    for k, (v, tt) in lat.items():
        if t is not None and tt == t:
            check(k in got, '%s of %s of the latest epoch is missing',
                  name, k)


# ------------------------------------------------- extended phase bias

@facet('widelane', st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**32-1), same=st.booleans(),
    cs=st.permutations('GREC').map(lambda x: ''.join(x[:2])))),
    quick=150, thorough=2000, rule='signals received')
def widelane(c):
    """wide-lane groups apply to the signals of the phase bias message of the
    same system and property id, in its order"""
    rnd = random.Random(c['seed'])
    wk, t = 2200, rnd.randrange(600000)
    d = newdec(wk, t)
    exp = {}
    for cc in c['cs']:
        m = S.rmsg(rnd, 'T', cc, 'pb', t, nmax=6)
        feed(d, S.bits(m))
        k = {'G': 0, 'R': 1, 'E': 2, 'C': 3, 'J': 4}[cc]
        b = Bits().u(90+k, 12)
        S.epoch(b, 'T', cc, t)
        b.u(m['iod'], 4).u(m['pid'], 16).u(m['sid'], 4)
        b.u(m['iexpb'] if c['same'] else m['iexpb'] ^ 5, 4)
        for s in m['sats']:
            for q in s['sig']:
                w = rnd.randrange(4)
                b.u(w, 2)
                if c['same']:
                    exp[S.sat_of(cc, s['id']),
                        rkey(cc, 'L', S.SIG[cc][q['m']])] = w
        feed(d, b)
    got = got_map(d, 'wl')
    for k in exp:
        same('widelane group of %s %s' % (g.sat2id(k[0]), k[1].str()),
             got.get(k), exp[k])
    if not c['same']:
        check(not got, 'groups of another property id applied')
    return bool(exp)


# ------------------------------------------------- troposphere

TROP = (('ah', 11, 2.5e-7, .00118), ('bh', 9, 5e-6, .00298),
        ('ch', 9, 2e-4, .0682), ('aw', 13, 1e-6, .000104),
        ('bw', 6, 2.5e-5, .0015), ('cw', 5, 2e-3, .048),
        ('c00h', 13, 1e-4, 2.3), ('c10h', 15, 1e-5, 0), ('c01h', 15, 1e-5, 0),
        ('c00w', 13, 1e-4, .252), ('c10w', 15, 1e-5, 0),
        ('c01w', 15, 1e-5, 0))


def atm_head(mt, c, t, m):
    b = Bits().u(mt, 12)
    S.epoch(b, 'T', c, t)
    return b.u(m['udi'], 4).u(m['mi'], 1).u(m['iod'], 4).u(
        m['pid'], 16).u(m['sid'], 4)


def rhead(rnd):
    return dict(udi=rnd.randrange(16), mi=rnd.randint(0, 1),
                iod=rnd.randrange(16), pid=rnd.randrange(65536),
                sid=rnd.randrange(16))


def rtrop(rnd, nan=True):
    m = rhead(rnd)
    m['gid'] = rnd.choice([0, 1, 2, 31, 32, rnd.randrange(1, 33)])
    m['rmi'] = rnd.randint(0, 1)
    for n, k, _, _ in TROP:
        m[n] = S.rs(rnd, k, nan)
    m['ofst'] = rnd.choice([0, 0, 1, 5])
    m['ng'] = rnd.choice([0, 1, 3, 20])
    m['n'] = rnd.choice([0, 0, 4, 8, 14, 15])
    m['m'] = rnd.choice([0, 8, 14, 15])
    m['rh'] = [S.rs(rnd, m['n'], nan) if m['n'] else 0
               for _ in range(m['ng'])]
    m['rw'] = [S.rs(rnd, m['m'], nan) if m['m'] else 0
               for _ in range(m['ng'])]
    return m


def trop_bits(m, t):
    b = atm_head(95, 'G', t, m).u(m['gid'], 10).u(m['rmi'], 1)
    for n, k, _, _ in TROP:
        b.s(m[n], k)
    if m['rmi']:
        b.u(m['ofst'], 12).u(m['ng'], 12).u(m['n'], 4).u(m['m'], 4)
        for x, y in zip(m['rh'], m['rw']):
            if m['n']:
                b.s(x, m['n'])
            if m['m']:
                b.s(y, m['m'])
    return b


def tv(m, n):
    for a, k, s, o in TROP:
        if a == n:
            return S.sc(m[a], k, s)+o


def check_trop(lc, m):
    eq('maph', lc.maph, [tv(m, k) for k in ('ah', 'bh', 'ch')], 1e-12)
    eq('mapw', lc.mapw, [tv(m, k) for k in ('aw', 'bw', 'cw')], 1e-12)
    eq('ct', np.asarray(lc.ct)[:, :3],
       [[tv(m, k+s) for k in ('c00', 'c01', 'c10')] for s in 'hw'], 1e-10)
    if m['rmi']:
        same('number of grid points', (lc.ng, lc.ofst), (m['ng'], m['ofst']))
        for nm, f, k in (('dth', 'rh', 'n'), ('dtw', 'rw', 'm')):
            if m[k]:
                eq(nm, getattr(lc, nm)[m['ofst']:],
                   [S.sc(x, m[k], 1e-4) for x in m[f]], 1e-10)


@facet('trop', st.integers(0, 2**32-1), quick=150, thorough=3000,
       rule='residuals present')
def trop(seed):
    """tropospheric corrections are stored for their grid"""
    rnd = random.Random(seed)
    d = newdec(2200, 1000)
    t = 1000
    ref = {}
    for _ in range(rnd.randint(1, 4)):
        m = rtrop(rnd)
        t += rnd.choice([0, 0, 30])
        b = trop_bits(m, t)
        r, _ = feed(d, b)
        same('bits consumed', r[0]-24, b.n)
        ref[m['gid']] = m
        eq('epoch', g.timediff(d.time, g.gpst2time(2200, t)), 0, 1e-9)
    for k, m in ref.items():
        check_trop(d.lc[k], m)
    return any(m['rmi'] for m in ref.values())


# ------------------------------------------------- ionosphere

def riono(rnd, c, gid, nan=True, nmax=8):
    m = rhead(rnd)
    m['c'] = c
    n = rnd.choice([0, 1, 2, 4, nmax])
    m['ids'] = sorted(rnd.sample(range(1, S.MAXID[c]+1), n))
    m['gid'] = gid
    m['pmi'], m['rmi'] = rnd.randint(0, 1), rnd.randint(0, 1)
    m['pgi'] = rnd.randint(0, 1)
    m['ci'] = [[S.rs(rnd, 17, nan), S.rs(rnd, 18, nan), S.rs(rnd, 18, nan)]
               for _ in m['ids']]
    m['ofst'], m['ng'] = rnd.choice([0, 0, 2]), rnd.choice([0, 1, 4, 12])
    m['rlen'] = rnd.choice([1, 5, 12, 18, 24])
    m['sf'] = rnd.randrange(8)
    m['res'] = [[S.rs(rnd, m['rlen'], nan) if m['rlen'] > 1 else
                 -rnd.randint(0, 1) for _ in range(m['ng'])]
                for _ in m['ids']]
    return m


IMT = {'G': 96, 'R': 97, 'E': 98, 'C': 99, 'J': 100}


def iono_bits(m, t):
    b = atm_head(IMT[m['c']], m['c'], t, m)
    b.u(m['gid'], 10).u(m['pmi'], 1).u(m['rmi'], 1)
    b.u(sum(1 << (64-i) for i in m['ids']), 64)
    if m['pmi']:
        b.u(m['pgi'], 1)
        for x in m['ci']:
            b.s(x[0], 17)
            if m['pgi']:
                b.s(x[1], 18).s(x[2], 18)
    if m['rmi']:
        b.u(m['ofst'], 12).u(m['ng'], 12).u(m['rlen'], 5).u(m['sf'], 3)
        for r in m['res']:
            for x in r:
                b.s(x, m['rlen'])
    return b


@facet('iono', st.integers(0, 2**32-1), quick=200, thorough=3000,
       rule='several systems on one grid')
def iono(seed):
    """slant TEC of every system is held for its grid"""
    rnd = random.Random(seed)
    t = 5000+86400*rnd.randrange(6)
    d = newdec(2200, t)
    ref = {}
    gids = rnd.choice([[1], [3, 7], [0, 32]])
    for _ in range(rnd.randint(1, 6)):
        c = rnd.choice('GRECJ')
        m = riono(rnd, c, rnd.choice(gids))
        b = iono_bits(m, t)
        r, _ = feed(d, b)
        same('bits consumed', r[0]-24, b.n)
        eq('epoch', g.timediff(d.time, g.gpst2time(2200, t)), 0, 1e-9)
        ref[m['gid'], c] = m
        lc = d.lc[m['gid']]
        exp = sorted(S.sat_of(k[1], i) for k, x in ref.items()
                     if k[0] == m['gid'] for i in x['ids'])
        same('satellites with STEC', sorted(int(x) for x in lc.sat_n), exp)
        for k, x in ref.items():
            if k[0] != m['gid']:
                continue
            for j, i in enumerate(x['ids']):
                sat = S.sat_of(k[1], i)
                if x['pmi']:
                    n = 3 if x['pgi'] else 1
                    eq('STEC polynomial of %s' % g.sat2id(sat),
                       lc.ci[sat][:n],
                       [S.sc(x['ci'][j][0], 17, .01)] +
                       [S.sc(y, 18, 1e-3) for y in x['ci'][j][1:n]], 1e-9)
                    eq('unused terms', np.sum(np.abs(lc.ci[sat][n:])), 0)
                    same('type', int(lc.stype[sat]), x['pgi'])
                if x['rmi']:
                    eq('STEC residual of %s' % g.sat2id(sat),
                       lc.dstec[sat][x['ofst']:],
                       [S.sc(y, x['rlen'], 1e-3*2**x['sf'])
                        for y in x['res'][j]], 1e-9)
    return len(ref) > 1


# ------------------------------------------------- grid definition

def rgrid(rnd, typ):
    n = rnd.choice([0, 1, 2, 10, 40])
    lat, lon = rnd.randint(-80000, 80000), rnd.randint(-170000, 170000)
    return dict(pid=rnd.randrange(65536), mi=rnd.randint(0, 1),
                gid=rnd.choice([0, 1, 5, 31, 32]), typ=typ,
                lat=lat, lon=lon, alt=rnd.randrange(0, 400),
                ofst=rnd.choice([0, 0, 1, 7, 100]),
                pts=[[rnd.randint(-4000, 4000)//4, rnd.randint(
                    -8000, 8000)//4, rnd.randint(-250, 250)//5]
                     for _ in range(n)])


def grid_bits(m):
    b = Bits().u(61, 12).u(m['pid'], 16).u(m['mi'], 1).u(m['gid'], 10).u(
        m['typ'], 3).s(m['lat'], 18).s(m['lon'], 19)
    if m['typ'] == 0:
        b.u(m['alt'], 10)
    b.u(m['ofst'], 12).u(len(m['pts']), 8)
    for p in m['pts']:
        b.s(p[0], 13).s(p[1], 14)
        if m['typ'] == 0:
            b.s(p[2], 9)
    return b


def grid_points(m):
    la, lo, al = m['lat'], m['lon'], m['alt']
    o = [(la, lo, al)]
    for p in m['pts']:
        la, lo, al = la+p[0], lo+p[1], al+p[2]
        o.append((la, lo, al))
    return [(a*1e-3, b*1e-3, c*12.5-1000 if m['typ'] == 0 else 0.)
            for a, b, c in o]


@facet('grid', st.tuples(st.integers(0, 1), st.integers(0, 2**32-1)),
       quick=150, thorough=2000, rule='relative points')
def grid(c):
    """grid points are the accumulated relative positions"""
    rnd = random.Random(c[1])
    m = rgrid(rnd, c[0])
    d = newdec(2200, 0)
    b = grid_bits(m)
    r, _ = feed(d, b)
    same('bits consumed', r[0]-24, b.n)
    p = grid_points(m)
    same('points', len(d.grid), len(p))
    eq('coordinates', [[x['lat'], x['lon'], x['alt']] for x in d.grid], p,
       1e-7)
    same('network', [int(x['nid']) for x in d.grid], [m['gid']]*len(p))
    same('numbering', [int(x['gid']) for x in d.grid],
         [m['ofst']+k for k in range(len(p))])
    eq('relative positions', d.dpos.reshape(-1, 3), np.array(
        [[x[0]*1e-3, x[1]*1e-3, x[2]*12.5*(m['typ'] == 0)]
         for x in m['pts']]).reshape(-1, 3), 1e-9)
    same('header', (d.pid, int(d.mi), d.gid, d.inet),
         (m['pid'], m['mi'], m['gid'], m['gid']))
    return len(m['pts']) > 0


# ------------------------------------------------- satellite antenna, misc

AMT = {'G': 80, 'R': 81, 'E': 82, 'C': 83, 'J': 84}


@facet('satant', st.integers(0, 2**32-1), quick=100, thorough=1500,
       rule='nadir-dependent corrections')
def satant(seed):
    """satellite antenna corrections are stored per satellite and frequency"""
    rnd = random.Random(seed)
    c = rnd.choice('GRECJ')
    ids = sorted(rnd.sample(range(1, S.MAXID[c]+1), rnd.randint(0, 5)))
    ndi, nde = rnd.randint(0, 1), rnd.randrange(1, 12)
    b = Bits().u(AMT[c], 12).u(rnd.randrange(65536), 16).u(
        rnd.randrange(64), 6).u(1, 1).u(0, 1).u(ndi, 1)
    if ndi:
        b.u(14, 5).u(nde, 4)
    b.u(len(ids) > 1, 1).u(sum(1 << (64-i) for i in ids), 64)
    exp = {}
    for i in ids:
        fr = sorted(rnd.sample(range(6), rnd.randint(0, 3)))
        b.u(len(fr) > 1, 1).u(sum(1 << (5-f) for f in fr), 6)
        for f in fr:
            nci = rnd.randint(0, 1)
            v = S.rs(rnd, 12)
            b.u(nci, 1)
            if nci:
                b.s(v, 12)
            w = [S.rs(rnd, 3+nde) for _ in range(nde+1)]
            if ndi:
                for x in w:
                    b.s(x, 3+nde)
            exp[S.sat_of(c, i), f] = (
                S.sc(v, 12, 1e-3) if nci else None,
                [S.sc(x, 3+nde, 1e-3) for x in w] if ndi else None)
    d = newdec(2200, 0)
    r, _ = feed(d, b)
    same('bits consumed', r[0]-24, b.n)
    got = {(s, f): a for s, x in d.antc.items() for f, a in x.items()}
    same('antennas', sorted(got), sorted(exp))
    for k, (n, a) in exp.items():
        v = vars(got[k])
        x = list(v.values())
        for y, z in zip(x, (n, a)):
            if z is None:
                same('absent correction', y, None)
            else:
                eq('correction', y, z, 1e-9)
    return ndi and bool(exp)


@facet('vtec', st.integers(0, 2**32-1), quick=60, thorough=500,
       rule='always')
def vtec(seed):
    """ionosphere (VTEC) messages are accepted and leave the other
    corrections usable"""
    rnd = random.Random(seed)
    t = 3600*rnd.randrange(160)
    d = newdec(2200, t)
    m = S.rmsg(rnd, 'I', 'G', 'orb', t)
    feed(d, S.bits(m))
    for _ in range(rnd.randint(1, 2)):
        b = Bits().u(4076, 12).u(1, 3).u(201, 8).u(t, 20).u(3, 4).u(0, 1)
        b.u(rnd.randrange(16), 4).u(rnd.randrange(65536), 16).u(2, 4)
        b.u(rnd.randrange(512), 9)
        nl = rnd.randrange(4)
        b.u(nl, 2)
        for _k in range(nl):
            n = rnd.randrange(0, 7)
            k = rnd.randint(0, n)
            b.u(rnd.randrange(256), 8).u(n, 4).u(k, 4)
            for j in range(k+1):
                for _l in range(j, n+1):
                    b.s(S.rs(rnd, 16), 16)
            for j in range(1, k+1):
                for _l in range(j, n+1):
                    b.s(S.rs(rnd, 16), 16)
        r, _ = feed(d, b)
        same('bits consumed', r[0]-24, b.n)
    t += 5
    for c in rnd.sample('GREJCS', 6):
        m = S.rmsg(rnd, 'I', c, 'orb', t, nmax=30)
        feed(d, S.bits(m))
        x = expand(m)
        g_ = got_map(d, 'dorb')
        for s, v in x.get('dorb', {}).items():
            eq('orbit', g_[s], v, 1e-9)
    return True


# ------------------------------------------------- encoder

@st.composite
def encs(draw):
    fam = draw(st.sampled_from('RT'))
    keys = [k for k in S.MT if k[0] == fam and not (
        fam == 'R' and (k[1] != 'G' or k[2] == 'pb'))]
    f, c, t = draw(st.sampled_from(sorted(keys)))
    return dict(f=f, c=c, t=t, seed=draw(st.integers(0, 2**32-1)),
                week=draw(st.integers(1931, 2300)),
                tow=draw(st.integers(0, 604799)))


def newenc(week, tow, m, others=()):
    e = rtcme()
    e.lc = [local_corr() for _ in range(33)]
    e.week, e.tow = week, tow
    e.time = g.gpst2time(week, tow)
    e.iodssr, e.pid, e.sid, e.mi = m['iod'], m['pid'], m['sid'], m['mi']
    e.inet = 0
    return e


def unit_noise(rnd, k, scale, nbit):
    """a value that rounds to k*scale"""
    if k == -(1 << (nbit-1)):
        return float('nan')
    return (k+rnd.uniform(-.45, .45)*(abs(k) < (1 << (nbit-1))-1))*scale


@facet('encode', encs(), quick=250, thorough=4000,
       rule='at least one satellite of the message system')
def encode(c):
    """an encoded message is, bit by bit, the message of the nearest
    representable corrections"""
    rnd = random.Random(c['seed'])
    f, cc, t = c['f'], c['c'], c['t']
    m = S.rmsg(rnd, f, cc, t, c['tow'])
    e = newenc(c['week'], c['tow'], m)
    e.msgtype = S.MT[f, cc, t]
    e.datum = m['datum']
    e.udi[:] = m['udi']
    e.iyaw, e.iexpb = bool(m['iyaw']), m['iexpb']
    lc = e.lc[0]
    # satellites of other systems are held as well
    other = rnd.choice([x for x in 'GRECJ' if x != cc])
    o = S.rmsg(rnd, 'I', other, t, c['tow'], nmax=4)
    o['iyaw'] = 1
    allm = [(m, s) for s in m['sats']]+[(o, s) for s in o['sats']]
    if rnd.random() < .5:
        allm = allm[len(m['sats']):]+allm[:len(m['sats'])]
    for k in ('iode', 'dorb', 'ddorb', 'dclk', 'ddclk', 'dddclk', 'hclk',
              'ura'):
        setattr(lc, k, {})
    e.sat_n = []
    for mm, s in allm:
        sat = S.sat_of(mm['c'], s['id'])
        e.sat_n.append(sat)
        if t in ('orb', 'comb'):
            lc.iode[sat] = s['iode']
            v = [unit_noise(rnd, s[n], x, b) for n, b, x in S.ORB]
            lc.dorb[sat], lc.ddorb[sat] = np.array(v[:3]), np.array(v[3:])
        if t in ('clk', 'comb'):
            v = [unit_noise(rnd, s[n], x, b) for n, b, x in S.CLK]
            lc.dclk[sat], lc.ddclk[sat], lc.dddclk[sat] = v
        if t == 'hclk':
            lc.hclk[sat] = unit_noise(rnd, s['hc'], 1e-4, 22)
        if t == 'ura':
            lc.ura[sat] = S.ura(s['cls'], s['val'])
            if (s['cls'], s['val']) == (7, 7):      # more than 5.4665 m
                lc.ura[sat] = 9.
        if t in ('cb', 'pb'):
            typ = 'C' if t == 'cb' else 'L'
            n, x = (14, .01) if t == 'cb' else (20, 1e-4)
            dst = lc.cbias if t == 'cb' else lc.pbias
            dst[sat] = {}
            for d in (lc.di, lc.si, lc.wl):
                d[sat] = {}
            for q in s['sig']:
                k = rkey(mm['c'], typ, S.SIG[mm['c']][q['m']])
                dst[sat][k] = unit_noise(rnd, q['b'], x, n)
                if t == 'pb':
                    lc.di[sat][k], lc.si[sat][k] = q['di'], q['si']
                    lc.wl[sat][k] = q['wl']
            if t == 'pb':
                lc.yaw[sat] = (s['yaw']+rnd.uniform(-.4, .4)*(
                    s['yaw'] > 0))/256
                if s['dyaw'] == -128:
                    s['dyaw'] = -127
                lc.dyaw[sat] = (s['dyaw']+rnd.uniform(-.4, .4)*(
                    abs(s['dyaw']) < 127))/8192
    if t in ('ura', 'cb', 'pb') and rnd.random() < .5:
        # satellites without such a correction
        e.sat_n += [int(g.prn2sat(gen.SYS[cc], 7+gen.PRN[cc][0]))]*3
    msg = bytearray(1100)
    i = e.encode(msg)
    b = S.bits(m)
    got = int.from_bytes(msg[3:], 'big') >> (len(msg[3:])*8-b.n)
    same('length of the message', i-24, b.n)
    if got != b.v:
        d = rtcm()
        d.monlevel = 0
        for k in range(b.n):
            if (got ^ b.v) >> (b.n-1-k) & 1:
                break
        viol('encoded MT%d (%s %s) differs at bit %d of %d; fields %r'
             % (e.msgtype, cc, t, k, b.n, m))
    return len(m['sats']) > 0


@facet('encode_atm', st.tuples(st.sampled_from(['trop', 'iono', 'grid']),
                               st.integers(0, 2**32-1)),
       quick=200, thorough=3000, rule='residuals or grid points present')
def encode_atm(c):
    """troposphere, ionosphere and grid messages: encode then decode gives
    the corrections back to within half a unit"""
    rnd = random.Random(c[1])
    t = 5000+rnd.randrange(600000)//30*30
    msg = bytearray(4000)
    if c[0] == 'trop':
        m = rtrop(rnd)
        m['n'] = rnd.choice([0, 8, 14])
        m['rh'] = [S.rs(rnd, m['n']) if m['n'] else 0 for _ in m['rh']]
        e = newenc(2200, t, m)
        e.udi[:] = m['udi']
        e.msgtype = 95
        e.gid = m['gid']
        e.nlen, e.mlen = m['n'], m['m']
        lc = e.lc[m['gid']]
        lc.flg_trop = m['rmi'] | 2

        def q(n):
            for a, k, s, o in TROP:
                if a == n:
                    return unit_noise(rnd, m[a], s, k)+o
        lc.maph = np.array([q(k) for k in ('ah', 'bh', 'ch')])
        lc.mapw = np.array([q(k) for k in ('aw', 'bw', 'cw')])
        lc.ct = np.zeros((2, 4))
        for r, s in enumerate('hw'):
            lc.ct[r, :3] = [q(k+s) for k in ('c00', 'c01', 'c10')]
        lc.ng, lc.ofst = m['ng'], m['ofst']
        z = [0.]*m['ofst']
        lc.dth = np.array(z+[unit_noise(rnd, x, 1e-4, m['n'] or 1)
                             for x in m['rh']])
        lc.dtw = np.array(z+[unit_noise(rnd, x, 1e-4, m['m'] or 1)
                             for x in m['rw']])
        b = trop_bits(m, t)
        i = e.encode(msg)
        bitcmp(msg, i, b, 95)
        return bool(m['rmi'] and m['ng'])
    if c[0] == 'grid':
        m = rgrid(rnd, rnd.randint(0, 1))
        e = newenc(2200, t, dict(rhead(rnd), pid=m['pid'], mi=m['mi']))
        e.msgtype = 61
        e.gid, e.gtype, e.ofst = m['gid'], m['typ'], m['ofst']
        dt = [('nid', 'i4'), ('gid', 'i4'), ('lat', 'f8'), ('lon', 'f8'),
              ('alt', 'f8')]
        pts = [(m['gid'], m['ofst']+k)+p
               for k, p in enumerate(grid_points(m))]
        extra = [(m['gid']+1, 1, 3., 4., 5.)]
        e.grid = np.array(extra+pts+extra, dtype=dt)
        i = e.encode(msg)
        bitcmp(msg, i, grid_bits(m), 61)
        return len(m['pts']) > 0
    cc = rnd.choice('GRECJ')
    m = riono(rnd, cc, rnd.choice([0, 1, 9, 32]), nan=False)
    m['rlen'], m['sf'] = 18, 1
    m['res'] = [[S.rs(rnd, 18, False) for _ in r] for r in m['res']]
    if not m['pmi'] or not m['ids']:
        m['pgi'] = 0
    e = newenc(2200, t, m)
    e.udi[:] = m['udi']
    e.msgtype = IMT[cc]
    e.gid = e.inet = m['gid']
    lc = e.lc[m['gid']]
    lc.flg_stec = m['pmi']*2+m['rmi']
    lc.ci, lc.stype, lc.dstec = {}, {}, {}
    lc.ng, lc.ofst = m['ng'], m['ofst']
    n = m['ng']+m['ofst']
    e.grid = np.array([(m['gid'], k, 35+.1*k, 139-.2*k, 0.)
                       for k in range(n+1)],
                      dtype=[('nid', 'i4'), ('gid', 'i4'), ('lat', 'f8'),
                             ('lon', 'f8'), ('alt', 'f8')])
    oc = rnd.choice([x for x in 'GRECJ' if x != cc])
    lc.ci[S.sat_of(oc, 1)] = np.zeros(6)
    lc.stype[S.sat_of(oc, 1)] = 2
    lc.dstec[S.sat_of(oc, 1)] = np.zeros(n)
    for j, i in enumerate(m['ids']):
        s = S.sat_of(cc, i)
        ci = [unit_noise(rnd, x, y, z) for x, y, z in
              zip(m['ci'][j], (.01, 1e-3, 1e-3), (17, 18, 18))]
        if not m['pgi']:
            ci[1:] = [0., 0.]
        lc.ci[s] = np.array(ci+[0., 0., 0.])
        lc.stype[s] = m['pgi']
        lc.dstec[s] = np.array([0.]*m['ofst']+[
            unit_noise(rnd, x, 2e-3, 18) for x in m['res'][j]])
    i = e.encode(msg)
    bitcmp(msg, i, iono_bits(m, t), e.msgtype)
    return bool(m['rmi'] and m['ng'] and m['ids'])


def bitcmp(msg, i, b, mt):
    same('length of MT%d' % mt, i-24, b.n)
    got = int.from_bytes(msg[3:], 'big') >> (len(msg[3:])*8-b.n)
    x = got ^ b.v
    if x:
        viol('encoded MT%d differs at bit %d of %d'
             % (mt, b.n-x.bit_length(), b.n))


def known_grid2():
    """grid definition by rows and columns (type 2) cannot be decoded"""
    d = newdec(2200, 0)
    b = Bits().u(61, 12).u(1, 16).u(0, 1).u(3, 10).u(2, 3).s(
        35000, 18).s(139000, 19).u(4, 6).u(3, 6).u(20, 9).u(20, 10).u(0, 1)
    feed(d, b)
    same('points', len(d.grid), 12)
