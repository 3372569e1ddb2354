"""C09 antenna calibrations (ANTEX, NGS) and signal biases (Bias-SINEX)"""
import datetime
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from vlib import gen, astro
from cssrlib import gnss as g
from cssrlib import peph as pp
from cssrlib.gnss import uGNSS, Nav, rSigRnx

T0 = datetime.datetime(2000, 1, 1)
SCALE = 10
OFS = {'J': 192, 'S': 100}
BANDS = {'G': '125', 'R': '12', 'E': '15678', 'C': '125678', 'J': '126' '5',
         'S': '15', 'I': '59'}
CLI = 299792458.0
FRQ = {('G', '1'): 1575.42e6, ('G', '2'): 1227.60e6, ('G', '5'): 1176.45e6,
       ('E', '1'): 1575.42e6, ('E', '5'): 1176.45e6, ('E', '6'): 1278.75e6,
       ('E', '7'): 1207.14e6, ('E', '8'): 1191.795e6,
       ('C', '1'): 1575.42e6, ('C', '2'): 1561.098e6, ('C', '5'): 1176.45e6,
       ('C', '6'): 1268.52e6, ('C', '7'): 1207.14e6, ('C', '8'): 1191.795e6,
       ('J', '1'): 1575.42e6, ('J', '2'): 1227.60e6, ('J', '5'): 1176.45e6,
       ('J', '6'): 1278.75e6}


def freq(c, b, k=0):
    if c == 'R':
        return {'1': 1602e6+k*562.5e3, '2': 1246e6+k*437.5e3}[b]
    return FRQ[(c, b)]


def sid(c, p):
    return '%s%02d' % (c, p-OFS.get(c, 0))


def sno(c, p):
    return int(g.prn2sat(gen.SYS[c], p))


def gt(s):
    d = T0+datetime.timedelta(seconds=s)
    return g.epoch2time([d.year, d.month, d.day, d.hour, d.minute, d.second])


def with_file(txt, fn):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'f.txt')
    with open(p, 'w', encoding='latin-1') as f:
        f.write(txt)
    try:
        return fn(p)
    finally:
        os.unlink(p)
        os.rmdir(d)


def L(a, b):
    return '%-60s%-20s\n' % (a, b)


NAMES = ['TRM59800.00     NONE', 'JAVRINGANT_DM   SCIS', 'LEIAR25.R4      LEIT',
         'TRM59800.00     SCIS', '{:16s}{:4s}'.format('AOAD/M_T', 'NONE')]
STYPE = ['BLOCK IIF', 'GLONASS-M', 'GALILEO-2', 'BEIDOU-3M-CAST', 'QZSS-2I']


@st.composite
def freqs(draw, chars, rx=False):
    keys = [(c, b) for c in chars for b in BANDS[c]]
    n = draw(st.integers(1, 4))
    ks = draw(st.permutations(keys))[:n]
    if rx and draw(st.integers(0, 3)) > 0:
        ks = [('G', '1'), ('G', '2')]+[k for k in ks if k not in
                                       (('G', '1'), ('G', '2'))]
    return [list(k) for k in ks]


@st.composite
def antenna(draw, sat=None):
    z1 = 90 if sat is None else draw(st.sampled_from([14, 17, 20]))
    dz = draw(st.sampled_from([5, 10] if sat is None else [1, 1, 2]))
    if z1 % dz:
        dz = 1
    nv = z1//dz+1
    fs = draw(freqs('GRECJSI' if sat is None else sat[0], sat is None))
    rnd = draw(st.randoms(use_true_random=False))
    big = draw(st.booleans())
    m = 300000 if big else 20000
    out = []
    for f in fs:
        out.append(dict(f=f, neu=[rnd.randint(-m, m) for _ in range(3)],
                        pcv=[rnd.randint(-1500, 1500) for _ in range(nv)],
                        az=[[rnd.randint(-1500, 1500) for _ in range(nv)]
                            for _ in range(3)]))
    return dict(name=draw(st.sampled_from(NAMES if sat is None else STYPE)),
                sat=list(sat) if sat else None, z1=z1, dz=dz, f=out,
                azi=draw(st.booleans()),
                ts=draw(st.one_of(st.none(), st.integers(0, 200))),
                te=draw(st.one_of(st.none(), st.integers(1, 200))),
                com=draw(st.booleans()), strip=draw(st.booleans()))


def gsat():
    return st.sampled_from('GREC'+'J').flatmap(
        lambda c: st.tuples(st.just(c), st.integers(gen.PRN[c][0], min(
            gen.PRN[c][1], gen.PRN[c][0]+3))))


def atx():
    return st.tuples(
        st.lists(st.one_of(antenna(), gsat().flatmap(antenna)), min_size=1,
                 max_size=6),
        st.lists(st.one_of(
            st.integers(-40, 6300).map(lambda q: [-1, q*86400]),
            st.tuples(st.integers(0, 11), st.sampled_from(
                [-1, 0, -2, 1, 3600, -3600, 43200, 86399, -86400])).map(list)),
            min_size=1, max_size=5),
        st.booleans())


def day(n):
    """validity bounds are 30-day steps"""
    return n*30*86400


def atx_ep(s):
    d = T0+datetime.timedelta(seconds=s)
    return '%6d%6d%6d%6d%6d%13.7f' % (d.year, d.month, d.day, d.hour,
                                      d.minute, d.second)


def atx_text(ants):
    o = L('     1.4            M', 'ANTEX VERSION / SYST')
    o += L('A', 'PCV TYPE / REFANT')+L('a comment', 'COMMENT')
    o += L('', 'END OF HEADER')
    for a in ants:
        o += L('', 'START OF ANTENNA')
        o += L('%-20s%-20s%-20s' % (a['name'], sid(*a['sat']) if a['sat']
                                    else '', 'G063' if a['sat'] else ''),
               'TYPE / SERIAL NO')
        o += L('', 'METH / BY / # / DATE')
        o += L('%8.1f' % (5.0 if a['azi'] else 0), 'DAZI')
        o += L('  %6.1f%6.1f%6.1f' % (0, a['z1'], a['dz']),
               'ZEN1 / ZEN2 / DZEN')
        o += L('%6d' % len(a['f']), '# OF FREQUENCIES')
        if a['ts'] is not None:
            o += L(atx_ep(day(a['ts'])), 'VALID FROM')
        if a['te'] is not None:
            o += L(atx_ep(day(a['te'])-1), 'VALID UNTIL')
        if a['com']:
            o += L('START OF FREQUENCY', 'COMMENT')
        for f in a['f']:
            fn = '   %s0%s' % tuple(f['f'])
            o += L(fn, 'START OF FREQUENCY')
            o += L('%10.2f%10.2f%10.2f' % tuple(x*.01 for x in f['neu']),
                   'NORTH / EAST / UP')
            o += '   NOAZI'+''.join('%8.2f' % (x*.01) for x in f['pcv'])+'\n'
            if a['azi']:
                for k, r in enumerate(f['az']):
                    o += '%8.1f' % (k*5)+''.join('%8.2f' % (x*.01)
                                                 for x in r)+'\n'
            o += L(fn, 'END OF FREQUENCY')
            if a['com']:
                # rms section: same layout, not an antenna offset
                o += L(fn, 'START OF FREQ RMS')+L(fn, 'END OF FREQ RMS')
        o += L('', 'END OF ANTENNA')
    if ants and ants[0]['strip']:
        o = '\n'.join(x.rstrip() for x in o.split('\n'))
    return o


def offs(a, f):
    n, e, u = [round(x*.01, 2) for x in f['neu']]
    return np.array([n, e, u] if a['sat'] else [e, n, u])


def valid(a, s):
    return (a['ts'] is None or s >= day(a['ts'])) and \
        (a['te'] is None or s <= day(a['te'])-1)


@facet('antex', atx, quick=250, thorough=4000,
       rule='an antenna selected among several')
def antex(case):
    ants, qs, only = case
    d = pp.atxdec()
    with_file(atx_text(ants), lambda p: d.readpcv(p, only))
    sats = [a for a in ants if a['sat'] and not only]
    rcv = [a for a in ants if not a['sat']]
    same('satellite antennas', len(d.pcvs), len(sats))
    same('receiver antennas', len(d.pcvr), len(rcv))
    n = 0
    for lst, ref in ((d.pcvs, sats), (d.pcvr, rcv)):
        for p, a in zip(lst, ref):
            if a['sat']:
                same('satellite', int(p.sat), sno(*a['sat']))
            else:
                check(p.sat is None, 'receiver antenna with satellite')
                same('type', p.type, a['name'])
            eq('grid', p.zen, [0, a['z1'], a['dz']])
            keys = {rSigRnx(gen.SYS[f['f'][0]], 'L'+f['f'][1]): f
                    for f in a['f']}
            check(set(p.off) == set(keys) == set(p.var),
                  'frequencies %r of %r', list(p.off), list(keys))
            for k, f in keys.items():
                eq('offset %s' % k, p.off[k], offs(a, f), atol=1e-9)
                eq('variation %s' % k, p.var[k],
                   [round(x*.01, 2) for x in f['pcv']], atol=1e-9)
        for w, s in qs:
            if w >= 0:      # around a bound of a validity interval
                a = ants[w//2 % len(ants)]
                b = a['te' if w % 2 else 'ts']
                s += day(b or 0)
            q = s/86400
            for key in {(a['name'] if not a['sat'] else tuple(a['sat']))
                        for a in ref}:
                nm = key if isinstance(key, str) else sno(*key)
                r = pp.searchpcv(lst, nm, gt(s))
                m = [i for i, a in enumerate(ref) if valid(a, s) and
                     (a['name'] == key if isinstance(key, str) else
                      tuple(a['sat']) == key)]
                i = None if r is None else [x is r for x in lst].index(True)
                same('antenna for %r at day %d' % (key, q), i,
                     m[0] if m else None)
                n += len(ref) > 1
    return n > 0


# --------------------------------------------------------- models

def subst(c, b, have, tx):
    """substitute calibration frequency"""
    if [c, b] in have:
        return [c, b]
    if c == 'G' and b == '5':
        return ['G', '2']
    if tx:
        if c == 'R' and b == '3':
            return ['R', '2']
        if c == 'C' and b == '8':
            return ['C', '5']
        return [c, b]
    hi = {'R': '1', 'E': '1', 'C': '12', 'J': '1', 'S': '1', 'I': ''}
    lo = {'R': '23', 'E': '5678', 'C': '5678', 'J': '256', 'S': '5',
          'I': '5'}
    if b in hi.get(c, ''):
        return ['G', '1']
    if b in lo.get(c, ''):
        return ['G', '2']
    return [c, b]


def as_pcv(a):
    p = pp.pcv_t()
    p.type = a['name']
    p.sat = sno(*a['sat']) if a['sat'] else None
    p.zen = [0.0, float(a['z1']), float(a['dz'])]
    p.nv = a['z1']//a['dz']+1
    for f in a['f']:
        k = rSigRnx(gen.SYS[f['f'][0]], 'L'+f['f'][1])
        p.off[k] = offs(a, f)
        p.var[k] = np.array([x*.01 for x in f['pcv']])
    return p


def lin(a, f, za):
    q = min(max(za/a['dz'], 0), len(f['pcv'])-1)
    i = min(int(q), len(f['pcv'])-2)
    return .01*(f['pcv'][i]*(1-q+i)+f['pcv'][i+1]*(q-i))


def att(c, b):
    """a tracking attribute that exists on the band"""
    return 'C' if c+b == 'S1' else 'X'


@st.composite
def rxcase(draw):
    c = draw(st.sampled_from('GRECJSI'))
    n = draw(st.integers(1, 4))
    bs = [draw(st.sampled_from(BANDS[c]+('3' if c == 'R' else '')))
          for _ in range(n)]
    return dict(ant=draw(antenna()), ant2=draw(antenna()),
                base=draw(st.booleans()), c=c,
                sig=[[draw(st.sampled_from('CL')), b] for b in bs],
                lat=draw(st.floats(-89, 89)), lon=draw(st.floats(-180, 180)),
                az=draw(st.floats(0, 360)), el=draw(st.floats(-5, 90)))


@facet('receiver antenna', rxcase, quick=300, thorough=5000,
       rule='a calibrated or substituted signal')
def rx(c):
    nav = Nav()
    nav.rcv_ant = as_pcv(c['ant2'] if c['base'] else c['ant'])
    nav.rcv_ant_b = as_pcv(c['ant'] if c['base'] else c['ant2'])
    la, lo = np.deg2rad(c['lat']), np.deg2rad(c['lon'])
    el, az = np.deg2rad(c['el']), np.deg2rad(c['az'])
    E = np.array([-np.sin(lo), np.cos(lo), 0])
    N = np.array([-np.sin(la)*np.cos(lo), -np.sin(la)*np.sin(lo), np.cos(la)])
    U = np.array([np.cos(la)*np.cos(lo), np.cos(la)*np.sin(lo), np.sin(la)])
    enu = np.array([np.cos(el)*np.sin(az), np.cos(el)*np.cos(az), np.sin(el)])
    e = enu[0]*E+enu[1]*N+enu[2]*U
    sigs = [rSigRnx('%s%s%s%s' % (c['c'], t, b, att(c['c'], b)))
            for t, b in c['sig']]
    # antModelRx takes the geodetic position (radians) or ECEF as ecef2enu
    r = pp.antModelRx(nav, np.array([la, lo, 100.0]), e, sigs,
                      0 if c['base'] else 1)
    a = c['ant']
    have = {tuple(f['f']): f for f in a['f']}
    x = []
    for _, b in c['sig']:
        k = tuple(subst(c['c'], b, [list(h) for h in have], False))
        if k not in have:
            x.append(np.nan)
            continue
        f = have[k]
        x.append(1e-3*(lin(a, f, 90-c['el'])-offs(a, f)@enu))
    # the zenith angle near the vertical is known to 1e-6 degrees
    eq('range correction', r, x, atol=1e-7)
    return not np.isnan(x).all()


@st.composite
def txcase(draw):
    s = draw(gsat())
    c = s[0]
    ant = draw(antenna(s))
    if ant['f'] and draw(st.integers(0, 2)) == 0:
        b = {'C': '5', 'G': '2', 'R': '2'}.get(c)
        if b and [c, b] not in [f['f'] for f in ant['f']]:
            ant['f'][0]['f'] = [c, b]
    hv = [f['f'][1] for f in ant['f']]
    # bands whose calibration is replaced by that of another band
    sb = {'C': ['8'], 'G': ['5'], 'R': ['3']}.get(c, [])*5
    two = draw(st.integers(0, 2))
    bs = sorted({draw(st.sampled_from(hv)) for _ in range(2)})
    return dict(sat=list(s), ant=ant, other=draw(gsat().flatmap(antenna)),
                sig=[[draw(st.sampled_from('CL')),
                      draw(st.sampled_from(hv*2+list(BANDS[c])+sb))]
                     for _ in range(draw(st.integers(1, 3)))],
                sig0=None if two == 0 else bs[:two],
                k=draw(st.integers(-7, 6)), t=draw(st.integers(0, 6000)),
                sec=draw(st.integers(0, 86399)),
                r=draw(st.integers(25000, 42000)),
                dir=[draw(st.floats(-1, 1)) for _ in range(3)],
                rcv=[draw(st.floats(-180, 180)), draw(st.floats(-80, 80))],
                sun=[draw(st.floats(-180, 180)), draw(st.floats(-23, 23))])


def unit(v):
    return v/np.linalg.norm(v)


def sph(lon, lat):
    lon, lat = np.deg2rad(lon), np.deg2rad(lat)
    return np.array([np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon),
                     np.sin(lat)])


def frame(rs, rsun):
    """nominal yaw attitude: z to the earth centre, y along the panel axis
    (perpendicular to the sun direction), x completes"""
    z = -unit(rs)
    es = unit(rsun-rs)
    x = unit(es-(es@z)*z)
    return x, np.cross(z, x), z


@facet('satellite antenna', txcase, quick=500, thorough=5000,
       rule='a finite correction')
def tx(c):
    d0 = np.array(c['dir'])
    if np.linalg.norm(d0) < 0.1:
        return False
    rs = unit(d0)*c['r']*1e3
    sun = sph(*c['sun'])*1.496e11
    if abs(unit(rs)@unit(sun)) > 0.99:
        return False
    rr = sph(*c['rcv'])*6371e3
    e = unit(rs-rr)
    a = c['ant']
    s = c['t']*86400+c['sec']
    sat = sno(*c['sat'])
    nav = Nav()
    nav.glo_ch = {sat: c['k']}
    nav.rsun = sun
    oth = dict(c['other'])
    nav.sat_ant = [as_pcv(oth)] if sno(*oth['sat']) != sat else []
    nav.sat_ant.append(as_pcv(a))
    ch = c['sat'][0]
    have = {f['f'][1]: f for f in a['f']}
    mk = [rSigRnx('%s%s%s%s' % (ch, t, b, att(ch, b))) for t, b in c['sig']]
    X, Y, Z = frame(rs, sun)

    def xyz(o):
        return o[0]*X+o[1]*Y+o[2]*Z
    off0 = np.zeros(3)
    f0 = None
    if c['sig0'] is not None:
        b = c['sig0']
        f0 = [rSigRnx('%sL%s%s' % (ch, q, att(ch, q))) for q in b]
        if len(b) == 1:
            off0 = offs(a, have[b[0]])
        else:
            u, v = [freq(ch, q, c['k'])**2 for q in b]
            off0 = (u*offs(a, have[b[0]])-v*offs(a, have[b[1]]))/(u-v)
    r = pp.antModelTx(nav, e, mk, sat, gt(s), rs, f0)
    x = []
    za = np.rad2deg(np.arccos(np.clip(Z@-e, -1, 1)))
    for _, b in c['sig']:
        q = subst(ch, b, [[ch, h] for h in have], True)[1]
        if q not in have:
            x.append(np.nan)
        else:
            f = have[q]
            # an offset towards the receiver shortens the range
            x.append(1e-3*(lin(a, f, za)-xyz(offs(a, f)-off0)@-e))
    eq('range correction', r, x, atol=1e-7*(1+np.abs(off0).max()))
    check(pp.antModelTx(nav, e, mk, sno('E', 33), gt(s), rs) is None or
          sat == sno('E', 33) or oth['sat'][:2] == ['E', 33],
          'correction of a satellite without antenna')
    if f0:
        # centre of mass = antenna phase centre minus offset
        try:
            sun2 = astro.sun(T0+datetime.timedelta(seconds=s))
        except Exception:
            return False
        if abs(unit(rs)@unit(sun2)) > 0.99:
            return False
        X, Y, Z = frame(rs, sun2)
        dr = pp.apc2com(nav, sat, gt(s), rs, f0, c['k'])
        eq('apc2com', dr, -1e-3*xyz(off0),
           atol=1e-3*(1e-3+5e-3*np.abs(off0).max()*8))
    return not np.isnan(x).all()


# --------------------------------------------------------- NGS file

@st.composite
def ngs(draw):
    rnd = draw(st.randoms(use_true_random=False))
    return [dict(name=n, off=[[rnd.randint(-9000, 9000) for _ in range(3)]
                              for _ in range(2)],
                 v=[[rnd.randint(-300, 300) for _ in range(19)]
                    for _ in range(2)])
            for n in draw(st.permutations(NAMES))[:draw(st.integers(1, 4))]]


@facet('ngs', ngs, quick=80, thorough=800, rule='several antennas')
def ngsf(c):
    o = '%-61s|\n' % ' ANTENNA ID      DESCRIPTION'
    for a in c:
        o += '%-20s%-30s\n' % (a['name'], 'Choke ring')
        for k in range(2):
            o += '%10.1f%10.1f%10.1f\n' % tuple(x*.1 for x in a['off'][k])
            o += ''.join('%6.1f' % (x*.1) for x in a['v'][k][:10])+'\n'
            o += ''.join('%6.1f' % (x*.1) for x in a['v'][k][10:])+'\n'
    d = pp.atxdec()
    with_file(o, d.readngspcv)
    same('antennas', [p.type for p in d.pcvr], [a['name'] for a in c])
    for p, a in zip(d.pcvr, c):
        for k, s in enumerate(('GL1', 'GL2')):
            n, e, u = [x*.1 for x in a['off'][k]]
            eq('offset', p.off[rSigRnx(s)], [e, n, u], atol=1e-6)
            eq('variation', p.var[rSigRnx(s)], [x*.1 for x in a['v'][k]],
               atol=1e-6)
        check(pp.searchpcv(d.pcvr, a['name'], gt(0)) is p, 'search')
    return len(c) > 1


# --------------------------------------------------------- Bias-SINEX

CODES = {'G': ['C1C', 'C1W', 'C2W', 'C2L', 'C5Q', 'L1C', 'L2W'],
         'R': ['C1C', 'C1P', 'C2P', 'C2C'], 'E': ['C1C', 'C5Q', 'C7Q', 'L1C',
                                                  'L5Q', 'C6C'],
         'C': ['C2I', 'C6I', 'C7I', 'C1P', 'L2I', 'C5P'],
         'J': ['C1C', 'C2L', 'C5Q', 'L1C']}
STA = ['', '', 'BRUX', 'TSKB', 'WTZR00DEU']


@st.composite
def bias(draw, dsb):
    c = draw(st.sampled_from('GGRECJ'))
    s1 = draw(st.sampled_from(CODES[c]))
    s2 = draw(st.sampled_from([x for x in CODES[c] if x[0] == s1[0] and
                               x != s1] or [s1])) if dsb else ''
    t = draw(st.integers(0, 30))
    return dict(dsb=dsb, sat=[c, draw(st.integers(
        gen.PRN[c][0], gen.PRN[c][0]+2))], s1=s1, s2=s2, t0=t,
        t1=t+draw(st.integers(1, 20)), undef=draw(st.integers(0, 5)),
        v=draw(st.integers(-10**8, 10**8)), sd=draw(st.integers(0, 10**5)),
        sta=draw(st.sampled_from(STA)), only=draw(st.booleans()),
        slope=draw(st.booleans()))


def sinex():
    return st.tuples(
        st.lists(st.booleans().flatmap(bias), min_size=1, max_size=12),
        st.sampled_from([None, 'BRUX', 'TSKB']),
        st.integers(0, 25*365), st.sampled_from([0, 43200, 900]),
        st.lists(st.floats(-1, 51), min_size=2, max_size=6))


def sinex_text(rows, base, sec):
    def tm(k, undef):
        if undef:
            return '0000:000:00000'
        d = T0+datetime.timedelta(days=base+k, seconds=sec)
        return '%4d:%03d:%05d' % (d.year, (d-datetime.datetime(
            d.year, 1, 1)).days+1, sec)
    o = '%=BIA 1.00 COD 2021:001:00000 COD 2021:001:00000\n'
    o += '+FILE/REFERENCE\n DSB OSB text\n-FILE/REFERENCE\n'
    o += '+BIAS/SOLUTION\n'
    o += '*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______' \
         ' UNIT __ESTIMATED_VALUE____ _STD_DEV___\n'
    for r in rows:
        ph = r['s1'][0] == 'L' and r['dsb']
        st_only = r['sta'] and r['only'] and r['sat'][0] != 'R'
        l = ' %-4s %-4s %-3s %-9s %-4s %-4s %s %s %-4s %21.5f %11.6f' % (
            'DSB' if r['dsb'] else 'OSB',
            '%s063' % r['sat'][0] if not st_only else r['sat'][0],
            r['sat'][0] if st_only else sid(*r['sat']),
            r['sta'] if st_only or r['sat'][0] == 'R' else '',
            r['s1'], r['s2'], tm(r['t0'], r['undef'] == 0),
            tm(r['t1'], r['undef'] in (0, 1)), 'cyc' if ph else 'ns',
            r['v']*1e-5, r['sd']*1e-6)
        if r['slope']:
            l += ' %21.12E %11.6E' % (1.5, 0.1)
        o += l+'\n'
    return o+'-BIAS/SOLUTION\n'+o.split('\n')[-2].replace('BIA', '*')+'\n'


@facet('biases', sinex, quick=300, thorough=5000,
       rule='a bias found among several')
def biases(case):
    rows, site, base, sec, qs = case
    d = pp.biasdec()
    with_file(sinex_text(rows, base, sec), lambda p: d.parse(p, site))
    n = 0
    keep = []
    blank = set()
    for r in rows:
        if r['sat'][0] == 'R':
            if r['sta']:
                if r['sta'] != site:
                    continue
            elif not r['dsb']:
                # satellite-only GLONASS OSB: not specified
                blank.add((tuple(r['sat']), r['s1']))
                continue
        elif r['sta'] and r['only']:
            continue
        keep.append(r)

    def act(r, q):
        return (r['undef'] == 0 or q >= r['t0']) and \
            (r['undef'] in (0, 1) or q < r['t1'])
    for q in qs:
        q = round(q*8)/8
        t = gt((base+q)*86400+sec)
        for key in {(tuple(r['sat']), r['s1']) for r in rows} - blank:
            sat, s = key
            m = [r for r in keep if not r['dsb'] and act(r, q) and
                 (tuple(r['sat']), r['s1']) == key]
            sg = rSigRnx(gen.SYS[sat[0]], s)
            b = d.getosb(sno(*sat), t, sg)
            sd = d.getosbstd(sno(*sat), t, sg)
            eq('OSB %s %s' % (sid(*sat), s), [b, sd],
               [m[0]['v']*1e-5, m[0]['sd']*1e-6] if m else [np.nan]*2,
               atol=1e-9)
            n += len(m) > 0
        for key in {(tuple(r['sat']), r['s2']) for r in rows if r['dsb']}:
            sat, s = key
            m = [r for r in keep if r['dsb'] and act(r, q) and
                 (tuple(r['sat']), r['s2']) == key]
            b, sd, s1 = d.getdcb(sno(*sat), t, rSigRnx(gen.SYS[sat[0]], s))
            if not m:
                check(b is None, 'DSB %s %s outside of its validity', sid(
                    *sat), s)
                continue
            eq('DSB %s %s' % (sid(*sat), s), [b, sd],
               [m[0]['v']*1e-5, m[0]['sd']*1e-6], atol=1e-9)
            check(s1 == rSigRnx(gen.SYS[sat[0]], m[0]['s1']), 'OBS1')
            n += 1
    return n > 0
