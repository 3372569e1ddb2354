"""Independent RTCM / IGS state-space message encoder (raw integer fields)"""
from vlib.bits import Bits
from vlib import gen
from cssrlib import gnss as g

# message numbers: (family, system, type)
OFF = {'orb': 0, 'clk': 1, 'cb': 2, 'comb': 3, 'ura': 4, 'hclk': 5}
MT = {}
for _c, _b in (('G', 1057), ('R', 1063), ('E', 1240)):
    for _t, _o in OFF.items():
        MT['R', _c, _t] = _b+_o
for _k, _t in enumerate(('orb', 'clk', 'cb', 'comb', 'ura', 'hclk')):
    MT['T', 'R', _t] = 41+_k
for _t, _b in (('orb', 62), ('clk', 65), ('cb', 68), ('comb', 71),
               ('ura', 74), ('hclk', 77)):
    for _k, _c in enumerate('ECJ'):
        MT['T', _c, _t] = _b+_k
for _k, _c in enumerate('GREJSC'):
    MT['R', _c, 'pb'] = 1265+_k
for _k, _c in enumerate('GRECJ'):
    MT['T', _c, 'pb'] = 85+_k
IGS = {'G': 20, 'R': 40, 'E': 60, 'J': 80, 'C': 100, 'S': 120}
IST = {'orb': 1, 'clk': 2, 'comb': 3, 'hclk': 4, 'cb': 5, 'pb': 6, 'ura': 7}
MAXID = {'G': 32, 'R': 24, 'E': 36, 'C': 63, 'J': 10, 'S': 38}
P0 = {'J': 192, 'S': 119}
SIG = {
    'G': {0: '1C', 1: '1P', 2: '1W', 5: '2C', 6: '2D', 7: '2S', 8: '2L',
          9: '2X', 10: '2P', 11: '2W', 14: '5I', 15: '5Q', 16: '5X',
          17: '1S', 18: '1L', 19: '1X'},
    'R': {0: '1C', 1: '1P', 2: '2C', 3: '2P', 4: '4A', 5: '4B', 6: '6A',
          7: '6B'},
    'E': {0: '1A', 1: '1B', 2: '1C', 3: '1X', 4: '1Z', 5: '5I', 6: '5Q',
          7: '5X', 8: '7I', 9: '7Q', 10: '7X', 11: '8I', 12: '8Q',
          13: '8X', 14: '6A', 15: '6B', 16: '6C', 17: '6X', 18: '6Z'},
    'J': {0: '1C', 1: '1S', 2: '1L', 3: '2S', 4: '2L', 5: '2X', 6: '5I',
          7: '5Q', 8: '5X', 9: '6S', 10: '6L', 11: '6X', 12: '1X', 17: '6E'},
    'C': {0: '2I', 1: '2Q', 2: '2X', 3: '6I', 4: '6Q', 5: '6X', 6: '7I',
          7: '7Q', 8: '7X', 9: '1D', 10: '1P', 11: '1X', 12: '5D',
          13: '5P', 14: '5X'},
    'S': {0: '1C', 1: '5I', 2: '5Q', 3: '5X'}}
# raw fields of one satellite: (bits, scale); all signed
ORB = (('dr', 22, 1e-4), ('da', 20, 4e-4), ('dc', 20, 4e-4),
       ('ddr', 21, 1e-6), ('dda', 19, 4e-6), ('ddc', 19, 4e-6))
CLK = (('c0', 22, 1e-4), ('c1', 21, 1e-6), ('c2', 27, 2e-8))


def sat_of(c, i):
    return int(g.prn2sat(gen.SYS[c], i+P0.get(c, 0)))


def epoch(b, fam, c, tow, leap=18):
    if c == 'R' and fam != 'I':
        return b.u((tow-leap+10800) % 86400, 17)
    return b.u(tow, 20)


def head(m):
    """header up to the number of satellites"""
    fam, c, t = m['fam'], m['c'], m['t']
    b = Bits()
    if fam == 'I':
        b.u(4076, 12).u(m.get('ver', 1), 3).u(IGS[c]+IST[t], 8)
    else:
        b.u(MT[fam, c, t], 12)
    epoch(b, fam, c, m['tow'])
    b.u(m['udi'], 4).u(m['mi'], 1)
    od = t in ('orb', 'comb')
    if od and fam != 'I':
        b.u(m['datum'], 1)
    b.u(m['iod'], 4).u(m['pid'], 16).u(m['sid'], 4)
    if od and fam == 'I':
        b.u(m['datum'], 1)
    if t == 'pb':
        if fam == 'T':
            b.u(m['iyaw'], 1).u(m['iexpb'], 4)
        else:
            b.u(m.get('disp', 0), 1).u(m.get('mw', 0), 1)
    return b.u(len(m['sats']), 6)


def idbits(fam, c):
    return 6 if fam == 'I' else {'R': 5, 'J': 4}.get(c, 6)


def iodbits(fam, c):
    return 8 if fam == 'I' else {'E': 10, 'S': 24}.get(c, 8)


def bits(m):
    fam, c, t = m['fam'], m['c'], m['t']
    b = head(m)
    for s in m['sats']:
        b.u(s['id'], idbits(fam, c))
        if t in ('orb', 'comb'):
            b.u(s['iode'], iodbits(fam, c))
            for n, k, _ in ORB:
                b.s(s[n], k)
        if t in ('clk', 'comb'):
            for n, k, _ in CLK:
                b.s(s[n], k)
        if t == 'hclk':
            b.s(s['hc'], 22)
        if t == 'ura':
            b.u(s['cls'], 3).u(s['val'], 3)
        if t == 'cb':
            b.u(len(s['sig']), 5)
            for q in s['sig']:
                b.u(q['m'], 5).s(q['b'], 14)
        if t == 'pb':
            b.u(len(s['sig']), 5)
            if fam != 'T' or m['iyaw']:
                b.u(s['yaw'], 9).s(s['dyaw'], 8)
            for q in s['sig']:
                b.u(q['m'], 5).u(q['si'], 1)
                if fam != 'T':
                    b.u(q['wl'], 2)
                b.u(q['di'], 4).s(q['b'], 20)
    return b


def sc(v, n, scale):
    return float('nan') if v == -(1 << (n-1)) else v*scale


def ura(cls, val):
    """URA/SQI bound in m; NaN = undefined"""
    if cls == 0 and val == 0:
        return float('nan')
    if cls == 7 and val == 7:
        return 5.4665
    return (3**cls*(1+val/4)-1)*1e-3


def rs(rnd, n, nan=True):
    lim = 1 << (n-1)
    x = rnd.random()
    if x < .04 and nan:
        return -lim
    if x < .12:
        return rnd.choice([lim-1, -lim+1, 0, 1, -1])
    k = rnd.randint(1, n-1)
    return rnd.randint(-(1 << k)+1, (1 << k)-1)


def rmsg(rnd, fam, c, t, tow, nan=True, reserved=True, nmax=12):
    n = rnd.choice([0, 1, 1, 2, 3, 5, 8, nmax])
    n = min(n, MAXID[c])
    if idbits(fam, c) == 4:
        n = min(n, 9)
    m = dict(fam=fam, c=c, t=t, tow=tow, udi=rnd.randrange(16),
             mi=rnd.randint(0, 1), datum=rnd.randint(0, 1),
             iod=rnd.randrange(16), pid=rnd.randrange(65536),
             sid=rnd.randrange(16), iyaw=rnd.randint(0, 1),
             iexpb=rnd.randrange(16), disp=rnd.randint(0, 1),
             mw=rnd.randint(0, 1), ver=1)
    sats = []
    for i in rnd.sample(range(1, MAXID[c]+1), n):
        s = dict(id=i)
        if t in ('orb', 'comb'):
            s['iode'] = rnd.randrange(1 << iodbits(fam, c))
            for k, b, _ in ORB:
                s[k] = rs(rnd, b, nan)
        if t in ('clk', 'comb'):
            for k, b, _ in CLK:
                s[k] = rs(rnd, b, nan)
        if t == 'hclk':
            s['hc'] = rs(rnd, 22, nan)
        if t == 'ura':
            s['cls'], s['val'] = rnd.randrange(8), rnd.randrange(8)
        if t in ('cb', 'pb'):
            pool = sorted(SIG[c])
            ns = min(len(pool), rnd.choice([0, 1, 2, 3, 4, 8, 12, 20]))
            q = []
            for md in rnd.sample(pool, ns):
                d = dict(m=md, b=rs(rnd, 14 if t == 'cb' else 20, nan))
                if t == 'pb':
                    d.update(si=rnd.randint(0, 1), wl=rnd.randrange(4),
                             di=rnd.randrange(16))
                q.append(d)
            s['sig'] = q
            s['yaw'], s['dyaw'] = rnd.randrange(512), rs(rnd, 8, nan)
        sats.append(s)
    m['sats'] = sats
    return m


def values(m):
    """{store: {sat: value}} that the message carries"""
    o = {}
    t, c = m['t'], m['c']
    for s in m['sats']:
        sat = sat_of(c, s['id'])
        if t in ('orb', 'comb'):
            v = [sc(s[n], b, x) for n, b, x in ORB]
            o.setdefault('iode', {})[sat] = s['iode']
            o.setdefault('dorb', {})[sat] = v[:3]
            o.setdefault('ddorb', {})[sat] = v[3:]
        if t in ('clk', 'comb'):
            v = [sc(s[n], b, x) for n, b, x in CLK]
            for k, x in zip(('dclk', 'ddclk', 'dddclk'), v):
                o.setdefault(k, {})[sat] = x
        if t == 'hclk':
            o.setdefault('hclk', {})[sat] = sc(s['hc'], 22, 1e-4)
        if t == 'ura':
            o.setdefault('ura', {})[sat] = ura(s['cls'], s['val'])
        if t == 'cb':
            for q in s['sig']:
                o.setdefault('cbias', {})[
                    sat, SIG[c][q['m']]] = sc(q['b'], 14, .01)
        if t == 'pb':
            if m['fam'] != 'T' or m['iyaw']:
                o.setdefault('yaw', {})[sat] = s['yaw']/256
                o.setdefault('dyaw', {})[sat] = sc(s['dyaw'], 8, 1/8192)
            for q in s['sig']:
                k = sat, SIG[c][q['m']]
                o.setdefault('pbias', {})[k] = sc(q['b'], 20, 1e-4)
                o.setdefault('di', {})[k] = q['di']
                o.setdefault('si', {})[k] = q['si']
                if m['fam'] != 'T':
                    o.setdefault('wl', {})[k] = q['wl']
    return o
