"""C07 RINEX observation files"""
import datetime
import io
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from vlib import rnx, gen
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, uTYP, rSigRnx, Obs
from cssrlib.rinex import rnxdec, rnxenc, sync_obs

SCALE = 8
BANDS = {'G': ['1C', '1W', '1L', '1X', '2W', '2L', '2X', '2C', '5Q', '5X',
               '5I'],
         'E': ['1C', '1X', '1B', '5Q', '5X', '7Q', '7X', '6C', '6X', '8Q'],
         'J': ['1C', '1L', '1X', '2L', '2S', '2X', '5Q', '5X', '6L', '6X'],
         'C': ['2I', '6I', '7I', '1P', '5P', '1X', '5X', '7P'],
         'R': ['1C', '1P', '2C', '2P', '3X', '3Q'],
         'S': ['1C', '5I', '5X'], 'I': ['5A', '1P', '9A']}
OFS = {'J': 192, 'S': 100}
TY = {'C': uTYP.C, 'L': uTYP.L, 'D': uTYP.D, 'S': uTYP.S}
T0 = datetime.datetime(1999, 8, 22)
SATS = [(c, p) for c in gen.PRN for p in range(gen.PRN[c][0],
                                               gen.PRN[c][1]+1)]


@st.composite
def obsfile(draw):
    n = draw(st.integers(1, 4))
    cs = draw(st.lists(st.sampled_from('GEJCRSI'), min_size=n, max_size=n,
                       unique=True))
    types = {}
    for c in cs:
        allc = [t+b for b in BANDS[c] for t in 'CLDS']
        m = draw(st.one_of(st.integers(1, min(12, len(allc))),
                           st.integers(1, len(allc)),
                           st.sampled_from([13, 14, 26, 27, 39, 40]).map(
                               lambda v: min(v, len(allc)))))
        types[c] = draw(st.permutations(allc))[:m]
    want = []
    for c in draw(st.lists(st.sampled_from(cs*3+['G', 'E']), min_size=1,
                           unique=True)):
        allc = [t+b for b in BANDS[c] for t in 'CLDS']
        pool = types.get(c, [])+draw(st.lists(st.sampled_from(allc),
                                              min_size=1, max_size=2))
        pool = sorted(set(pool))
        k = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=8,
                          unique=True))
        want += [c+x for x in k]
    near = sorted(set(x[0] for x in want))*1
    if draw(st.integers(0, 3)) == 0:   # systems which are not asked for too
        near += cs+['R']
    nep = draw(st.integers(1, 4))
    eps = []
    t = draw(st.integers(0, 86400*365*60))
    for _ in range(nep):
        t += draw(st.integers(1, 3600))
        # a '5'-digit fraction keeps the text exact
        fr = draw(st.sampled_from([0, 0, 0, 5000000, 1234567, 9999999]))
        ev = draw(st.sampled_from([0]*9+[1, 2, 3, 4, 5]))
        sats = draw(st.lists(st.sampled_from(
            [s for s in SATS if s[0] in near]), min_size=draw(
                st.sampled_from([0, 1, 2, 3])), max_size=6, unique=True))
        body = []
        for c, p in sats:
            v = []
            for code in types.get(c, ['C1C']):
                if draw(st.integers(0, 5)) == 0:
                    v.append(None)
                    continue
                big = {'C': 10**11, 'L': 10**12, 'D': 10**7,
                       'S': 70000}[code[0]]
                x = draw(st.integers(1, big))
                if code[0] == 'D' and draw(st.booleans()):
                    x = -x
                v.append([x, draw(st.sampled_from(' 0112357')),
                          draw(st.sampled_from('      159'))])
            body.append([c, p, v])
        eps.append(dict(t=t, fr=fr, ev=ev, sats=body,
                        ntext=draw(st.integers(0, 3)),
                        blank=draw(st.booleans())))
    glo = draw(st.lists(st.tuples(st.integers(1, 27), st.integers(-7, 6)),
                        max_size=24, unique_by=lambda x: x[0]))
    return dict(ver=draw(st.sampled_from([3.02, 3.04, 3.05, 4.0, 4.01])),
                types=types, want=want, eps=eps, glo=glo,
                strip=draw(st.booleans()), auto=draw(st.booleans()),
                pos=[draw(st.integers(-6400*10**7, 6400*10**7))
                     for _ in range(3)],
                dhen=[draw(st.integers(-99999, 99999)) for _ in range(3)],
                rcv=draw(st.text('ABcd 01-', min_size=1, max_size=18)),
                ant=draw(st.text('ABcd 01.', min_size=1, max_size=15)))


def when(e):
    return T0+datetime.timedelta(seconds=e['t'])


def write(c):
    L = rnx.line
    s = '%9.2f           %-20s%-20s%-20s\n' % (
        c['ver'], 'OBSERVATION DATA', 'M: MIXED', 'RINEX VERSION / TYPE')
    s += L('MARK', 'MARKER NAME')
    s += L('%-20s%-20s%-20s' % ('12345', c['rcv'], '1.0'),
           'REC # / TYPE / VERS')
    s += L('%-20s%-20s' % ('7', c['ant']), 'ANT # / TYPE')
    s += L(''.join('%14.4f' % (x*1e-4) for x in c['pos']),
           'APPROX POSITION XYZ')
    s += L(''.join('%14.4f' % (x*1e-4) for x in c['dhen']),
           'ANTENNA: DELTA H/E/N')
    for k, ty in c['types'].items():
        for i in range(0, len(ty), 13):
            h = '%s  %3d' % (k, len(ty)) if i == 0 else ' '*6
            s += L(h+''.join(' '+x for x in ty[i:i+13]),
                   'SYS / # / OBS TYPES')
    d = when(c['eps'][0])
    s += L('%6d%6d%6d%6d%6d%13.7f     %s' % (
        d.year, d.month, d.day, d.hour, d.minute, d.second, 'GPS'),
        'TIME OF FIRST OBS')
    d = when(c['eps'][-1])
    s += L('%6d%6d%6d%6d%6d%13.7f     %s' % (
        d.year, d.month, d.day, d.hour, d.minute, d.second, 'GPS'),
        'TIME OF LAST OBS')
    gl = c['glo']
    for i in range(0, max(len(gl), 1), 8):
        h = '%3d ' % len(gl) if i == 0 else '    '
        s += L(h+''.join('R%02d %2d ' % (p, f) for p, f in gl[i:i+8]),
               'GLONASS SLOT / FRQ #')
    s += L('', 'END OF HEADER')
    for e in c['eps']:
        d = when(e)
        ep = '> %04d %02d %02d %02d %02d %02d.%07d' % (
            d.year, d.month, d.day, d.hour, d.minute, d.second, e['fr'])
        if e['ev'] >= 2:
            if e['blank']:
                ep = '>'+' '*28
            s += '%s  %d%3d\n' % (ep, e['ev'], e['ntext'])
            for k in range(e['ntext']):
                s += L('EVENT TEXT %d' % k, 'COMMENT')
            continue
        s += '%s  %d%3d\n' % (ep, e['ev'], len(e['sats']))
        for k, p, v in e['sats']:
            ln = '%s%02d' % (k, p-OFS.get(k, 0))
            for x in v:
                ln += ' '*16 if x is None else '%14.3f%s%s' % (
                    x[0]*1e-3, x[1], x[2])
            s += (ln.rstrip() if c['strip'] else ln)+'\n'
    return s


class Temp:
    def __init__(self, *txt):
        self.txt = txt

    def __enter__(self):
        self.d = tempfile.mkdtemp()
        self.p = []
        for i, t in enumerate(self.txt):
            p = os.path.join(self.d, 'f%d.obs' % i)
            with open(p, 'w') as f:
                f.write(t)
            self.p.append(p)
        return self.p

    def __exit__(self, *a):
        for p in self.p:
            os.unlink(p)
        os.rmdir(self.d)


def opened(c, path):
    dec = rnxdec()
    dec.setSignals([rSigRnx(x) for x in c['want']])
    same('header', dec.decode_obsh(path), 0)
    return dec


@facet('observations', obsfile, quick=700, thorough=12000,
       rule='at least one wanted observation with a value')
def observations(c):
    with Temp(write(c)) as (p,):
        dec = opened(c, p)
        try:
            return judge(c, dec)
        finally:
            dec.fobs.close()


def judge(c, dec):
    same('receiver', dec.rcv.strip(), c['rcv'].upper().strip())
    same('antenna', dec.ant.strip(), c['ant'].upper().strip())
    eq('position', dec.pos, [round(x*1e-4, 4) for x in c['pos']], atol=1e-9)
    h = [round(x*1e-4, 4) for x in c['dhen']]
    eq('eccentricity (E,N,U)', dec.ecc, [h[1], h[2], h[0]], atol=1e-12)
    same('glonass channels', {int(k): v for k, v in dec.glo_ch.items()},
         {int(g.prn2sat(uGNSS.GLO, q)): f for q, f in c['glo']})

    def tm(e):
        d = when(e)
        return g.epoch2time([d.year, d.month, d.day, d.hour, d.minute,
                             d.second])
    eq('first', g.timediff(dec.ts, tm(c['eps'][0])), 0)
    eq('last', g.timediff(dec.te, tm(c['eps'][-1])), 0)
    for k, ty in c['types'].items():
        m = dec.sig_map[g.char2sys(k)]
        same('types of '+k, [m[i].str() for i in range(len(m))], list(ty))
    # wanted codes, after optional substitution by the library
    want = {}
    for x in c['want']:
        want.setdefault(x[0], {}).setdefault(x[1], []).append(x[1:])
    if c['auto']:
        dec.autoSubstituteSignals()
        for k, d in want.items():
            for t, l in d.items():
                sg = dec.getSignals(g.char2sys(k), TY[t])
                same('number of signals', len(sg), len(l))
                for i, (a, b) in enumerate(zip(l, sg)):
                    b = b.str()
                    if a in c['types'].get(k, []) or k not in c['types']:
                        same('available signal kept', b, a)
                    elif b != a:
                        check(b in c['types'][k] and b[:2] == a[:2],
                              '%s%s replaced by %s (file has %r)', k, a, b,
                              c['types'][k])
                    l[i] = b
    ncol = {t: max([len(d.get(t, [])) for d in want.values()]+[0])
            for t in 'CLDS'}
    used = 0
    for e in c['eps']:
        if e['ev'] >= 2:
            continue
        o = dec.decode_obs()
        exp = g.timeadd(tm(e), e['fr']*1e-7)
        eq('epoch', g.timediff(o.t, exp), 0, atol=2e-9)
        sats = [(k, q, v) for k, q, v in e['sats']
                if k in c['types'] and k in want]
        same('satellites', [int(s) for s in o.sat],
             [int(g.prn2sat(gen.SYS[k], q)) for k, q, _ in sats])
        for t, arr in (('C', o.P), ('L', o.L), ('D', o.D), ('S', o.S)):
            same('shape '+t, arr.shape, (len(sats), ncol[t]))
        same('shape lli', o.lli.shape, (len(sats), ncol['L']))
        for r, (k, q, v) in enumerate(sats):
            col = dict(zip(c['types'][k], v))
            for t, arr in (('C', o.P), ('L', o.L), ('D', o.D), ('S', o.S)):
                l = want[k].get(t, [])
                for j in range(ncol[t]):
                    x = col.get(l[j]) if j < len(l) else None
                    # a code asked for twice after substitution
                    if j < len(l) and l.index(l[j]) != j:
                        continue
                    w = '%s%02d %s' % (k, q, l[j] if j < len(l) else '-')
                    eq(w, arr[r, j], 0.0 if x is None else
                       float('%.3f' % (x[0]*1e-3)))
                    used += x is not None
                    if t == 'L':
                        b = 0 if x is None or not x[1].strip() else \
                            int(x[1]) & 1
                        same(w+' loss of lock', int(o.lli[r, j]), b)
    o = dec.decode_obs()
    check(o.t.time == 0 and len(o.sat) == 0,
          'observation returned after the end of file')
    return used > 0


# ------------------------------------------------------------ output

SIG = {'G': ['1C', '1W', '2W', '2L', '5Q'], 'E': ['1C', '5Q', '7Q', '6C',
                                                  '8Q'],
       'J': ['1C', '1L', '2L', '5Q'], 'C': ['2I', '6I', '7I', '1P', '5P'],
       'R': ['1C', '2C', '2P'], 'S': ['1C', '5I'], 'I': ['5A', '1P', '9A']}


@st.composite
def encase(draw):
    cs = draw(st.lists(st.sampled_from(sorted(SIG)), min_size=1, max_size=4,
                       unique=True))
    sig = draw(st.sampled_from([SIG, SIG, BANDS]))
    tab = {c: draw(st.permutations(sig[c]))[:draw(st.integers(
        1, min(len(sig[c]), 8)))] for c in cs}
    ds = draw(st.sampled_from(['DS', 'DS', 'S', 'D', '']))
    n = max(len(v) for v in tab.values())
    eps = []
    t = draw(st.integers(0, 86400*365*20))
    for _ in range(draw(st.integers(1, 3))):
        t += draw(st.integers(1, 4000))
        sats = draw(st.lists(st.sampled_from(
            [s for s in SATS if s[0] in cs]), max_size=6, unique=True))
        rows = []
        for c, p in sats:
            rows.append([c, p, [[draw(st.integers(0, 5)) and
                                 draw(st.integers(1, 10**m)) for m in
                                 (11, 11, 6, 5)]+[draw(st.sampled_from(
                                    [0, 0, 1, 2, 3, 7]))]
                                for _ in range(len(tab[c]))]])
        eps.append([t, draw(st.sampled_from([0, 0, 25])), rows])
    return dict(tab=tab, ds=ds, eps=eps, n=n, useT=draw(st.booleans()),
                pos=[draw(st.integers(-6400*10**7, 6400*10**7))
                     for _ in range(3)],
                dant=[draw(st.integers(-10**5, 10**5)) for _ in range(3)])


@facet('output', encase, quick=300, thorough=5000,
       rule='library output read back; at least one satellite')
def output(c):
    tab = {}
    codes = []
    for k, b in c['tab'].items():
        tab[g.char2sys(k)] = {TY[t]: [rSigRnx(k+t+x) for x in b]
                              for t in 'CL'+c['ds']}
        codes += [k+t+x for t in 'CL'+c['ds'] for x in b]
    enc = rnxenc(sig_tab=tab)
    enc.pos, enc.dant = np.array(c['pos'])*1e-4, np.array(c['dant'])*1e-4
    enc.rectype, enc.anttype = 'RX TYPE 1', 'ANTENNA_2       NONE'
    f = io.StringIO()

    def tm(e):
        return g.timeadd(g.epoch2time([1999, 8, 22, 0, 0, 0]),
                         e[0]+e[1]*0.01)
    enc.rnx_obs_header(tm(c['eps'][0]), f)
    enc.rnx_obs_header(tm(c['eps'][0]), f)      # written once
    obs = []
    for e in c['eps']:
        o = Obs()
        o.t = tm(e)
        if not c['useT']:
            o.time = o.t
        m = len(e[2])
        A = np.zeros((m, c['n'], 5))
        for i, (k, p, r) in enumerate(e[2]):
            A[i, :len(r), :] = np.array(r)
        o.P, o.L, o.D, o.S = (A[:, :, j]*1e-3 for j in range(4))
        o.lli = A[:, :, 4].astype(int)
        o.sat = np.array([g.prn2sat(gen.SYS[k], p) for k, p, _ in e[2]],
                         dtype=int)
        o.sig = tab
        enc.rnx_obs_body(o, f)
        obs.append(o)
    with Temp(f.getvalue()) as (p,):
        dec = rnxdec()
        dec.setSignals([rSigRnx(x) for x in codes])
        same('header', dec.decode_obsh(p), 0)
        for k, b in c['tab'].items():
            m = dec.sig_map[g.char2sys(k)]
            same('types of '+k, sorted(m[i].str() for i in m),
                 sorted(t+x for t in 'CL'+c['ds'] for x in b))
        eq('first epoch', g.timediff(dec.ts, tm(c['eps'][0])), 0, atol=1e-6)
        eq('position', dec.pos, enc.pos, atol=6e-5)
        eq('antenna offset', dec.ecc, enc.dant[[1, 2, 0]], atol=6e-5)
        same('receiver', dec.rcv.strip(), enc.rectype)
        same('antenna', dec.ant.strip(), enc.anttype)
        cnt = 0
        for o in obs:
            d = dec.decode_obs()
            eq('epoch', g.timediff(d.t, o.t), 0, atol=1e-6)
            same('satellites', list(map(int, d.sat)), list(map(int, o.sat)))
            cnt += len(o.sat)
            if len(o.sat) == 0:
                continue
            eq('P', d.P, o.P, atol=1e-4)
            eq('L', d.L, o.L, atol=1e-4)
            if 'D' in c['ds']:
                eq('D', d.D, o.D, atol=1e-4)
            if 'S' in c['ds']:
                eq('S', d.S, o.S, atol=1e-4)
            # loss of lock is attached to a phase
            eq('lli', d.lli, np.where(o.L == 0, 0, o.lli & 1))
        dec.fobs.close()
    return cnt > 0


# ------------------------------------------------------------ sync

@facet('synchronisation', st.tuples(
    st.lists(st.integers(1, 8), min_size=1, max_size=14),
    st.lists(st.integers(1, 8), min_size=1, max_size=14),
    st.sampled_from([0, 0, 0.04, -0.06, 0.3])), quick=250, thorough=4000,
    rule='at least one common epoch and one unmatched epoch')
def synchronisation(case):
    a, b, off = case
    ta = list(np.cumsum(a))
    tb = list(np.cumsum(b))

    def mk(ts, o):
        s = '%9.2f           %-20s%-20s%-20s\n' % (
            3.04, 'OBSERVATION DATA', 'M: MIXED', 'RINEX VERSION / TYPE')
        s += rnx.line('G    1 C1C', 'SYS / # / OBS TYPES')
        s += rnx.line('', 'END OF HEADER')
        for t in ts:
            x = t+100+o
            s += '> 2021 03 19 00 %02d %010.7f  0  1\n' % (x//60, x % 60)
            s += 'G05%14.3f\n' % (20000000+t)
        return s
    # reference: repeatedly take the next pair within the threshold
    pairs = []
    i = j = 0
    while i < len(ta) and j < len(tb):
        d = ta[i]-(tb[j]+off)
        if abs(d) <= 0.1:
            pairs.append((ta[i], tb[j]))
            i += 1
            j += 1
        elif d > 0:
            j += 1
        else:
            i += 1
    with Temp(mk(ta, 0), mk(tb, off)) as ps:
        D = []
        for p in ps:
            d = rnxdec()
            d.setSignals([rSigRnx('GC1C')])
            d.decode_obsh(p)
            D.append(d)
        for x, y in pairs:
            o, ob = sync_obs(*D)
            eq('rover', o.P[0, 0], 20000000+x)
            eq('base', ob.P[0, 0], 20000000+y)
        o, ob = sync_obs(*D)
        check(o.t.time == 0 or ob.t.time == 0,
              'a pair that does not exist was returned')
        for d in D:
            d.fobs.close()
    return bool(pairs) and len(pairs) < max(len(ta), len(tb))
