"""C06 RINEX navigation files"""
import copy
import datetime
import io
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from vlib import rnx, gen
from vlib.rnx import val
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, Nav
from cssrlib.rinex import rnxdec, rnxenc

SCALE = 10
FL = st.builds(lambda m, e: m*10.0**e, st.integers(-10**13, 10**13),
               st.integers(-30, -6))
SMALL = st.builds(lambda m: m*2.0**-31, st.integers(-2**20, 2**20))
ANG = st.floats(-3.2, 3.2, allow_nan=False)

INTS = dict(iode=255, iodc=1023, code=1023, l2p=1, svh=255, fit=8,
            urai0=31, urai1=7, urai2=7, wn_op=1023, integ=7, sattype=3,
            sisai0=31, sisai1=31, sisai2=7, sisai3=7, sismai=15, uraiS=15,
            sva=4096)

EPOCH = st.builds(lambda d, s: [int(x) for x in (
    datetime.datetime(2010, 1, 1)+datetime.timedelta(
        days=d, seconds=s)).timetuple()[:6]],
    st.integers(0, 8000), st.one_of(
        st.integers(0, 86399), st.sampled_from([0, 86399, 7200, 85500])))

KINDS = {  # kind -> (systems, mode, label by version)
    'LNAV': ('GJ', 0), 'CNAV': ('GJ', 1), 'CNV2': ('GJ', 2),
    'INAV': ('E', 0), 'FNAV': ('E', 1), 'D1': ('C', 0), 'D2': ('C', 0),
    'CNV1': ('C', 1), 'CCNV2': ('C', 2), 'CNV3': ('C', 3),
    'ILNAV': ('I', 0), 'L1NV': ('I', 2), 'FDMA': ('R', 0),
    'SBAS': ('S', 0)}
TABLE = {'INAV': 'GAL', 'FNAV': 'GAL', 'D1': 'D1D2', 'D2': 'D1D2',
         'CNV1': 'CCNV1', 'CNV3': 'CCNV3'}
OLD = ['LNAV', 'INAV', 'FNAV', 'D1', 'D2', 'ILNAV', 'FDMA', 'SBAS']
# PRNs carried by RINEX identifiers
OFS = {'J': 192, 'S': 100}


@st.composite
def record(draw, v4):
    kind = draw(st.sampled_from(sorted(KINDS) if v4 else OLD))
    c = draw(st.sampled_from(KINDS[kind][0]))
    lo, hi = gen.PRN[c]
    prn = draw(st.integers(lo, hi))
    r = dict(kind=kind, c=c, prn=prn, ep=draw(EPOCH),
             exp=draw(st.sampled_from('EEd')), strip=draw(st.booleans()))
    f = {}
    if kind in ('FDMA', 'SBAS'):
        for n in ('af0', 'af1'):
            f[n] = draw(SMALL)
        f['x'] = [[draw(st.integers(-42000000, 42000000).map(lambda v: v*1e-3)), draw(st.integers(-4000000, 4000000))*1e-6,
                   draw(st.integers(-30, 30))*1e-9] for _ in range(3)]
        f['svh'] = draw(st.integers(0, 63))
        if kind == 'FDMA':
            r['ep'][4:6] = [draw(st.sampled_from([15, 45])), 0]
            f['dtof'] = draw(st.integers(-43000, 43000))
            f['frq'] = draw(st.integers(-7, 13))
            f['wrap'] = draw(st.booleans())
            f['age'] = draw(st.integers(0, 31))
            f['status'] = draw(st.integers(0, 511))
            f['dtaun'] = draw(st.integers(-15, 15))*2**-30
            f['urai'] = draw(st.integers(0, 15))
        else:
            f['tot'] = draw(st.integers(0, 604799))
            f['sva'] = draw(st.sampled_from([2.0, 2.8, 4.0, 32.0]))
            f['iodn'] = draw(st.integers(0, 255))
        r['f'] = f
        return r
    tb = TABLE.get(kind, kind)
    if kind == 'L1NV':
        tb = 'L1NV%d' % draw(st.integers(0, 1))
    r['tb'] = tb
    if c in 'GJ' and tb in ('CNAV', 'CNV2'):
        r['noint'] = draw(st.booleans())
    for n in rnx.HEAD+[x for rw in rnx.ROWS[tb] for x in rw if x]:
        if n in INTS and not (n == 'sva' and kind in OLD):
            f[n] = draw(st.integers(0, INTS[n]))
        elif n == 'sqrtA':
            f[n] = draw(st.floats(5000, 6600))
        elif n in ('toes', 'tops', 'tot'):
            f[n] = draw(st.integers(0, 604799))
        elif n == 'week':
            f[n] = draw(st.integers(0, 3000))
        elif n == 'e':
            f[n] = draw(st.integers(0, 2**31))*2.0**-33
        elif n == 'sva' and kind in OLD:
            f[n] = draw(st.sampled_from([
                2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 8192.0, 0.6, 3.12,
                -1.0]))
        else:
            f[n] = draw(FL)
    if kind == 'L1NV':
        f['integ'] = int(tb[-1])
    if kind == 'INAV':
        f['code'] = draw(st.sampled_from([517, 513, 516]))
    if kind == 'FNAV':
        f['code'] = 258
    r['f'] = f
    return r


def rid(r):
    return '%s%02d' % (r['c'], r['prn']-OFS.get(r['c'], 0))


def tow(ep):
    d = datetime.datetime(*ep)-datetime.datetime(1980, 1, 6)
    return (d.days % 7)*86400+d.seconds


def text(r, ver):
    f = r['f']
    v4 = ver >= 4
    kind = r['kind']
    lbl = kind[1:] if kind in ('ILNAV', 'CCNV2') else kind
    if kind in ('FDMA', 'SBAS'):
        out = '> EPH %s %s\n' % (rid(r), lbl) if v4 else ''
        e, sp = r['exp'], r['strip']

        def rw(v, ind=4):
            return rnx.row(v, e, ind, sp)
        t = f['tot'] if kind == 'SBAS' else (tow(r['ep'])+f['dtof']) % 604800
        h = rid(r)+' '+rnx.ep_str(r['ep'])
        s = h+rnx.num(f['af0'], e)+rnx.num(f['af1'], e)+rnx.num(t, e)
        out += (s.rstrip() if sp else s)+'\n'
        x = f['x']
        if kind == 'SBAS':
            l4 = [f['svh'], f['sva'], f['iodn']]
        else:
            fr = f['frq']
            if f['wrap'] and fr < 0:
                fr += 256
            l4 = [f['svh'], fr, f['age']]
        for k in range(3):
            out += rw(x[k]+[l4[k]])
        if kind == 'FDMA' and ver >= 3.05:
            out += rw([f['status'], f['dtaun'], f['urai'], None])
        return out
    ff = dict(f)
    if r.get('noint'):
        ff['integ'] = None
    return rnx.eph_rec(r['tb'], rid(r), r['ep'], ff, r['exp'], r['strip'],
                       lbl if v4 else None)


@st.composite
def navfile(draw):
    ver = draw(st.sampled_from([3.02, 3.03, 3.04, 3.05, 4.0, 4.01, 4.02]))
    recs = draw(st.lists(record(ver >= 4), min_size=1, max_size=5))
    extra = {}
    if draw(st.booleans()):
        extra['A'] = [draw(st.integers(-999, 999))*1e-10 for _ in range(4)]
        extra['B'] = [draw(st.integers(-999, 999))*1e3 for _ in range(4)]
    if draw(st.booleans()):
        extra['leap'] = draw(st.integers(10, 30))
    return dict(ver=ver, recs=recs, extra=extra,
                junk=draw(st.booleans()))


def write(case):
    ex = []
    if 'A' in case['extra']:
        for k in 'AB':
            ex.append(rnx.line('GPS%s ' % k+''.join(
                '%12.4E' % v for v in case['extra'][k]), 'IONOSPHERIC CORR'))
    if 'leap' in case['extra']:
        ex.append(rnx.line('%6d' % case['extra']['leap'], 'LEAP SECONDS'))
    return rnx.head(case['ver'], extra=ex)+''.join(
        text(r, case['ver']) for r in case['recs'])


def gt(ep):
    return g.epoch2time(ep)


def compare(r, e, ver):
    f = r['f']
    c, kind = r['c'], r['kind']
    w = '%s %s ' % (rid(r), kind)
    same(w+'sat', int(e.sat), int(g.prn2sat(gen.SYS[c], r['prn'])))
    if kind in ('FDMA', 'SBAS'):
        sgn = -1 if kind == 'FDMA' else 1
        a = ('taun', 'gamn') if kind == 'FDMA' else ('af0', 'af1')
        eq(w+a[0], getattr(e, a[0]), sgn*val(f['af0']))
        eq(w+a[1], getattr(e, a[1]), val(f['af1']))
        for k, n in enumerate(('pos', 'vel', 'acc')):
            eq(w+n, getattr(e, n), [val(f['x'][j][k])*1e3 for j in range(3)],
               rtol=1e-15)
        same(w+'svh', e.svh, f['svh'])
        if kind == 'SBAS':
            eq(w+'t0', g.timediff(e.t0, gt(r['ep'])), 0)
            d = f['tot']-tow(r['ep'])       # occurrence next to the epoch
            if abs(abs(d)-302400) > 1:
                d = (d+302400) % 604800-302400
                eq(w+'tof', g.timediff(e.tof, e.t0), d)
            same(w+'iodn', e.iodn, f['iodn'])
            eq(w+'sva', e.sva, f['sva'])
            return
        toe = g.utc2gpst(gt(r['ep']))
        eq(w+'toe', g.timediff(e.toe, toe), 0, atol=1e-9)
        # frame time of the day, resolved to the occurrence next to toe
        eq(w+'tof', g.timediff(e.tof, g.utc2gpst(
            g.timeadd(gt(r['ep']), f['dtof']))), 0, atol=1e-6)
        same(w+'frq', e.frq, f['frq'])
        same(w+'age', int(e.age), f['age'])
        d = tow(r['ep'])
        same(w+'iode', e.iode, int(((d+10800) % 86400)//900))
        if ver >= 3.05:
            eq(w+'dtaun', e.dtaun, val(f['dtaun']))
            same(w+'urai', int(e.urai[0]), f['urai'])
            same(w+'status', e.status, f['status'])
        return
    mode = KINDS[kind][1]
    same(w+'mode', e.mode, mode)
    skip = ('sqrtA', 'toes', 'tops', 'tot', 'week', 'bgda', 'bgdb', 'l2p',
            'uraiS', 'code', 'svh')
    for n, v in f.items():
        if n in skip:
            continue
        if n == 'integ' and r.get('noint'):
            continue
        for arr in ('urai', 'isc', 'sisai'):
            if n[:-1] == arr:
                eq(w+n, getattr(e, arr)[int(n[-1])], val(v))
                break
        else:
            eq(w+n, getattr(e, n), val(v))
    eq(w+'A', e.A, val(f['sqrtA'])**2, rtol=1e-15)
    if c == 'J':
        same(w+'svh', e.svh, f['svh'] & 0xEE)
    else:
        same(w+'svh', e.svh, f['svh'])
        if 'code' in f:
            same(w+'code', e.code, f['code'])
    if 'uraiS' in f:
        eq(w+'urai', e.urai, f['uraiS'])
    if mode == 1 and c in 'GJ' or mode == 2 and c in 'GJ':
        eq(w+'urai3', e.urai[3], f['sva'])
    if 'bgda' in f:
        a, b = val(f['bgda']), val(f['bgdb'])
        # group delay of the signal pair the clock refers to comes first
        eq(w+'tgd', [e.tgd, e.tgd_b], [b, a] if f['code'] >> 9 & 1
           else [a, b])
    # times: BeiDou records are in BDT
    off = 14 if c == 'C' else 0
    toc = g.timeadd(gt(r['ep']), off)
    eq(w+'toc', g.timediff(e.toc, toc), 0, atol=1e-6)
    wk0 = datetime.datetime(2006, 1, 1) if c == 'C' else \
        datetime.datetime(1980, 1, 6)
    week = f['week'] if 'week' in f else \
        (datetime.datetime(*r['ep'])-wk0).days//7
    same(w+'week', int(e.week), week)
    base = g.epoch2time(list(wk0.timetuple()[:6]))
    if c in 'GJ' and mode > 0 or kind == 'L1NV':
        toe = toc
    else:
        toe = g.timeadd(base, week*604800+f['toes']+off)
        eq(w+'toes', e.toes, f['toes'])
    eq(w+'toe', g.timediff(e.toe, toe), 0, atol=1e-6)
    eq(w+'tot', g.timediff(e.tot, g.timeadd(
        base, week*604800+f['tot']+off)), 0, atol=1e-6)
    if 'tops' in f:
        eq(w+'tops', e.tops, f['tops'])


def decode(txt, nav=None, append=False):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'x.rnx')
    try:
        with open(p, 'w') as fh:
            fh.write(txt)
        if nav is None:
            nav = Nav()
        dec = rnxdec()
        r = dec.decode_nav(p, nav, append)
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)
    return r, nav


def fam(r):
    return {'FDMA': 'geph', 'SBAS': 'seph'}.get(r['kind'], 'eph')


def judge(recs, nav, ver):
    for n in ('eph', 'geph', 'seph'):
        exp = [r for r in recs if fam(r) == n]
        got = getattr(nav, n)
        same('number of %s records' % n, len(got), len(exp))
        for r, e in zip(exp, got):
            compare(r, e, ver)


@facet('records', navfile, quick=700, thorough=12000,
       rule='a file with at least two records')
def records(case):
    ret, nav = decode(write(case))
    check(ret is nav, 'decode_nav returned %r', ret)
    judge(case['recs'], nav, case['ver'])
    ex = case['extra']
    if 'A' in ex:
        eq('ion alpha', nav.ion[0], [float('%12.4E' % v) for v in ex['A']])
        eq('ion beta', nav.ion[1], [float('%12.4E' % v) for v in ex['B']])
    if 'leap' in ex:
        same('leap seconds', nav.leaps, ex['leap'])
    return '%d records' % len(case['recs']) if len(case['recs']) > 1 \
        else False


@facet('append', st.tuples(navfile(), navfile(), st.booleans()), quick=80,
       thorough=1500, rule='append mode with records in both files')
def append(case):
    a, b, app = case
    _, nav = decode(write(a))
    _, nav = decode(write(b), nav, app)
    if app:
        # records written in two versions: judge the halves separately
        for n in ('eph', 'geph', 'seph'):
            na = len([r for r in a['recs'] if fam(r) == n])
            nb = len([r for r in b['recs'] if fam(r) == n])
            same('records after append', len(getattr(nav, n)), na+nb)
        first = Nav()
        second = Nav()
        for n in ('eph', 'geph', 'seph'):
            na = len([r for r in a['recs'] if fam(r) == n])
            setattr(first, n, getattr(nav, n)[:na])
            setattr(second, n, getattr(nav, n)[na:])
        judge(a['recs'], first, a['ver'])
        judge(b['recs'], second, b['ver'])
    else:
        judge(b['recs'], nav, b['ver'])
    return app


# ------------------------------------------------- STO / EOP / ION messages

@st.composite
def msgs(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(['STO', 'EOP', 'KLOB', 'NEQG', 'BDGIM',
                                  'EPH', 'EPH', 'IRNK', 'IRNN', 'LXOC']))
        m = dict(k=k, ep=draw(EPOCH))
        n = {'STO': 4, 'EOP': 10, 'KLOB': 9, 'NEQG': 4, 'BDGIM': 9,
             'EPH': 0, 'IRNK': 13, 'IRNN': 25, 'LXOC': 3}[k]
        m['v'] = [draw(FL) for _ in range(n)]
        m['sys'] = draw(st.sampled_from('GRECJI'))
        if k == 'STO':
            m['mode'] = [draw(st.sampled_from(['GP', 'GA', 'BD', 'QZ', 'IR',
                                               'GL', 'SB'])),
                         draw(st.sampled_from(['UT', 'GP', 'GA', 'GL']))]
        if k in ('STO', 'EOP'):
            m['type'] = draw(st.sampled_from(
                ['LNAV', 'CNVX', 'IFNV', 'D1D2', 'L1NV', 'LXOC', 'FDMA',
                 'XXXX']))
        if k == 'KLOB':
            m['sys'], m['type'] = draw(st.sampled_from(
                [('G', 'LNAV'), ('J', 'LNAV'), ('G', 'CNVX'), ('J', 'CNVX'),
                 ('C', 'D1D2'), ('I', 'LNAV')]))
            m['reg'] = draw(st.sampled_from([None, 0, 1]))
            m['strip'] = draw(st.booleans())
        if k == 'EPH':
            m['r'] = draw(record(True))
        if k in ('NEQG',):
            m['flag'] = draw(st.integers(0, 31))
        out.append(m)
    return out


def mtext(m):
    e = rnx.ep_str(m['ep'])
    v = m['v']
    k = m['k']
    N = rnx.num

    def R(x):
        return '    '+''.join(N(y) for y in x)+'\n'
    if k == 'EPH':
        return text(m['r'], 4.01)
    if k == 'STO':
        return '> STO %s01 %s\n    %s %-18s \n' % (
            m['sys'], m['type'], e, ''.join(m['mode'])) + R(v)
    if k == 'EOP':
        return '> EOP %s01 %s\n    %s%s\n' % (
            m['sys'], m['type'], e, ''.join(N(x) for x in v[:3])) + \
            R([None]+v[3:6])+R(v[6:10])
    if k == 'KLOB':
        s = '> ION %s01 %s\n    %s%s\n' % (
            m['sys'], m['type'], e, ''.join(N(x) for x in v[:3])) + \
            R(v[3:7])
        t = R([v[7], m['reg']])
        return s+(t.rstrip()+'\n' if m['strip'] else t)
    if k == 'NEQG':
        return '> ION E01 IFNV\n    %s%s\n' % (
            e, ''.join(N(x) for x in v[:3]))+R([m['flag']])
    if k == 'BDGIM':
        return '> ION C25 CNVX\n    %s%s\n' % (
            e, ''.join(N(x) for x in v[:3]))+R(v[3:7])+R(v[7:9])
    if k == 'LXOC':
        return '> ION R01 LXOC\n    %s%s\n' % (
            e, ''.join(N(x) for x in v[:3]))
    if k == 'IRNK':
        return '> ION I02 L1NV KLOB\n    %s%s\n' % (e, N(v[0])) + \
            R(v[1:5])+R(v[5:9])+R(v[9:13])
    return '> ION I02 L1NV NEQN\n    %s%s\n' % (e, N(v[0])) + \
        ''.join(R(v[1+4*j:5+4*j]) for j in range(6))


SRC = {'GP': uGNSS.GPS, 'GL': uGNSS.GLO, 'GA': uGNSS.GAL, 'BD': uGNSS.BDS,
       'QZ': uGNSS.QZS, 'IR': uGNSS.IRN, 'SB': uGNSS.SBS, 'UT': uGNSS.NONE}
ITYPE = {'LNAV': 0, 'FDMA': 1, 'IFNV': 2, 'D1D2': 3, 'SBAS': 4, 'CNVX': 5,
         'L1NV': 6, 'LXOC': 7}


@facet('messages', msgs, quick=300, thorough=5000,
       rule='at least two system messages')
def messages(case):
    txt = rnx.head(4.01)+''.join(mtext(m) for m in case)
    _, nav = decode(txt)
    judge([m['r'] for m in case if m['k'] == 'EPH'], nav, 4.01)
    last = {}
    for m in case:
        k = m['k']
        if k == 'EPH' or m.get('type') == 'XXXX':
            continue
        fam_ = k if k in ('STO', 'EOP') else 'ION'
        sysc, ty = {'NEQG': ('E', 'IFNV'), 'BDGIM': ('C', 'CNVX'),
                    'LXOC': ('R', 'LXOC'), 'IRNK': ('I', 'L1NV'),
                    'IRNN': ('I', 'L1NV')}.get(k, (m['sys'], m.get('type')))
        last[(fam_, sysc, ty)] = m
    for (fam_, sysc, ty), m in last.items():
        s = g.char2sys(sysc)
        p = dict(STO=nav.sto_prm, EOP=nav.eop_prm,
                 ION=nav.ion_prm)[fam_][s][ITYPE[ty]]
        v = [val(x) for x in m['v']]
        w = '%s %s %s ' % (m['k'], sysc, ty)
        k = m['k']
        t = g.epoch2time(m['ep'])
        if k == 'STO':
            eq(w+'t', g.timediff(p.t_ot, t), 0)
            same(w+'systems', [int(x) for x in p.prm],
                 [int(SRC[x]) for x in m['mode']])
            eq(w+'t_t', p.t_t, v[0])
            eq(w+'a', p.a, v[1:4])
        elif k == 'EOP':
            eq(w+'t', g.timediff(p.t_eop, t), 0)
            eq(w+'prm', p.prm, v[:6]+v[7:10])
            eq(w+'t_t', p.t_t, v[6])
        else:
            eq(w+'t', g.timediff(p.t_tm, t), 0)
            if k == 'KLOB':
                eq(w+'prm', p.prm, v[:8]+[m['reg'] or 0])
            elif k == 'NEQG':
                eq(w+'prm', p.prm[:4], v[:3]+[m['flag']])
            elif k == 'BDGIM':
                eq(w+'prm', p.prm, v)
            elif k == 'LXOC':
                eq(w+'prm', p.prm[:3], v)
            elif k == 'IRNK':
                eq(w+'iod', p.iod, v[0])
                eq(w+'prm', p.prm[:8], v[1:9])
                eq(w+'region', p.region, v[9:13])
            else:
                eq(w+'iod', p.iod, v[0])
                x = np.array(v[1:]).reshape(3, 8)
                eq(w+'prm', p.prm, x)
    return len(last) > 1


# --------------------------------------------------------- encoder

@st.composite
def reenc(draw):
    recs = draw(st.lists(record(True), min_size=1, max_size=4))
    return recs


def attrs(e):
    out = {}
    for n, v in vars(e).items():
        if isinstance(v, g.gtime_t):
            out[n] = v.time+v.sec
        elif isinstance(v, (int, float, np.number, list, np.ndarray)):
            out[n] = np.array(v, dtype=float)
    return out


LABEL = {(gen.SYS[x], m): {'CCNV2': 'CNV2', 'ILNAV': 'LNAV'}.get(k, k)
         for k, (c, m) in KINDS.items() if k != 'D2' for x in c}


@facet('rewrite', reenc, quick=400, thorough=6000,
       rule='library output read back; at least one record')
def rewrite(case):
    _, nav = decode(rnx.head(4.02)+''.join(text(r, 4.02) for r in case))
    enc = rnxenc()
    f = io.StringIO()
    enc.rnx_nav_header(f)
    keep = {'eph': [], 'geph': [], 'seph': []}
    last = {}
    for n, meth in (('eph', enc.rnx_nav_body), ('geph', enc.rnx_gnav_body),
                    ('seph', enc.rnx_snav_body)):
        for e in getattr(nav, n):
            meth(copy.deepcopy(e), f)
            k = (int(e.sat), e.mode)
            t = e.t0.time if n == 'seph' else e.toe.time
            iod = e.iodn if n == 'seph' else e.iode
            if last.get(k) == (iod, t):
                continue      # the same ephemeris again
            last[k] = (iod, t)
            if n == 'eph' and isinstance(e.urai, float):
                pass
            keep[n].append(e)
    ret, nv2 = decode(f.getvalue())
    check(ret is nv2, 'output not readable')
    # message types named in the records: satellites in geostationary orbit
    # send D2
    lbl = [x.split()[2:] for x in f.getvalue().split('\n') if
           x.startswith('> EPH')]
    for n in keep:
        for e in keep[n]:
            k = LABEL[g.sat2prn(e.sat)[0], int(e.mode)]
            if k == 'D1' and not 6 <= g.sat2prn(e.sat)[1] <= 58:
                k = 'D2'
            same('type of the record', lbl.pop(0), [g.sat2id(e.sat), k])
    same('records', lbl, [])
    for n in keep:
        same('records written', len(getattr(nv2, n)), len(keep[n]))
        for a, b in zip(keep[n], getattr(nv2, n)):
            x, y = attrs(a), attrs(b)
            if n == 'geph':
                y['status'] = x['status']   # FDMA flags: two attributes
                x['urai'] = y['urai'] = np.zeros(1)
            skip = ['l2p']
            if g.sat2prn(a.sat)[0] == uGNSS.QZS:
                skip += ['code']
            for m in x:
                if m in skip:
                    continue
                eq('%s %s %d' % (n, m, int(a.sat)), y[m], x[m],
                   rtol=5e-12, atol=1e-7 if m in (
                       'toe', 'toc', 'tot', 'tof') else 0)
    return True


@st.composite
def cdma(draw):
    mode = draw(st.sampled_from([1, 3]))
    f = lambda: draw(FL)
    return dict(mode=mode, prn=draw(st.integers(1, 27)), ep=draw(EPOCH),
                q=draw(st.sampled_from([0, 15, 30, 45])),
                dtof=draw(st.integers(-40000, 40000)),
                taun=f(), gamn=f(), beta=f(),
                pos=[f()*1e9 for _ in range(3)], vel=[f() for _ in range(3)],
                acc=[f() for _ in range(3)], svh=draw(st.integers(0, 7)),
                status=draw(st.integers(0, 1)), isc=f(),
                sattype=draw(st.integers(0, 3)), src=draw(st.integers(0, 15)),
                aode=draw(st.integers(0, 255))*.25,
                aodc=draw(st.integers(0, 255))*.25, flag=draw(st.integers(0, 1)),
                tin=draw(st.integers(0, 86399)), tau1=f(), tau2=f(), psi=f(),
                sn=draw(st.integers(0, 1)), win=f(), dw=f(), wmax=f(),
                dpos=[f() for _ in range(3)],
                urai=[draw(st.integers(0, 15)) for _ in range(2)])


@facet('glonass cdma', cdma, quick=150, thorough=3000,
       rule='library output of L1OC/L3OC read back')
def glo_cdma(c):
    from cssrlib.gnss import Geph
    e = Geph(int(g.prn2sat(uGNSS.GLO, c['prn'])))
    ep = c['ep'][:4]+[c['q'], 0]
    e.toe = g.utc2gpst(g.epoch2time(ep))
    e.tof = g.utc2gpst(g.timeadd(g.epoch2time(ep), c['dtof']))
    names = ('taun', 'gamn', 'beta', 'svh', 'status', 'sattype', 'src',
             'aode', 'aodc', 'flag', 'tin', 'tau1', 'tau2', 'psi', 'sn',
             'win', 'dw', 'wmax')
    for n in names:
        setattr(e, n, c[n])
    for n in ('pos', 'vel', 'acc', 'dpos'):
        setattr(e, n, np.array(c[n]))
    e.urai = np.array(c['urai'])
    e.mode = c['mode']
    e.isc[1 if c['mode'] == 1 else 2] = c['isc']
    enc = rnxenc()
    f = io.StringIO()
    enc.rnx_nav_header(f)
    enc.rnx_gnav_body(e, f)
    _, nav = decode(f.getvalue())
    same('records', len(nav.geph), 1)
    d = nav.geph[0]
    same('sat', int(d.sat), int(e.sat))
    same('mode', d.mode, e.mode)
    for n in names+('pos', 'vel', 'acc', 'dpos', 'urai', 'isc'):
        eq('CDMA '+n, getattr(d, n), getattr(e, n), rtol=5e-12)
    eq('toe', g.timediff(d.toe, e.toe), 0, atol=1e-6)
    eq('tof', g.timediff(d.tof, e.tof), 0, atol=1e-6)
    return True
