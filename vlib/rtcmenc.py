"""Independent RTCM 3 framing and message encoders (RTCM 10403.x)"""
import numpy as np
from vlib.bits import Bits
from vlib import gen
from cssrlib import gnss as g

POLY = 0x1864CFB


def crc24q(data):
    """CRC-24Q, bit by bit"""
    c = 0
    for b in bytes(data):
        c ^= b << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= POLY
    return c


def frame(body, res=0):
    """body bytes -> frame"""
    h = bytes([0xd3, (res << 2) | (len(body) >> 8), len(body) & 0xff])
    m = h+bytes(body)
    return m+crc24q(m).to_bytes(3, 'big')


def put(b, spec, d):
    """spec: list of (name, type, bits)"""
    for n, t, k in spec:
        v = d.get(n, 0)
        {'u': b.u, 's': b.s, 'm': b.sm}[t](v, k)
    return b


def ri(rnd, t, k):
    x = rnd.random()
    if t == 'u':
        return 0 if x < .05 else (1 << k)-1 if x < .1 else rnd.randrange(
            1 << k)
    m = (1 << (k-1))-1
    if t == 'm':
        return rnd.choice([-m, m, -1, 1]) if x < .1 else rnd.randint(-m, m)
    return rnd.choice([-m-1, m, -1, 0]) if x < .1 else rnd.randint(-m-1, m)


def sno(c, prn):
    return int(g.prn2sat(gen.SYS[c], prn))


# MSM: message number of MSM1, signal numbers (RINEX codes), satellites
MSM = {'G': 1071, 'R': 1081, 'E': 1091, 'S': 1101, 'J': 1111, 'C': 1121}
SIG = {
    'G': {2: '1C', 3: '1P', 4: '1W', 8: '2C', 9: '2P', 10: '2W', 15: '2S',
          16: '2L', 17: '2X', 22: '5I', 23: '5Q', 24: '5X', 30: '1S',
          31: '1L', 32: '1X'},
    'R': {2: '1C', 3: '1P', 8: '2C', 9: '2P'},
    'E': {2: '1C', 3: '1A', 4: '1B', 5: '1X', 6: '1Z', 8: '6C', 9: '6A',
          10: '6B', 11: '6X', 12: '6Z', 14: '7I', 15: '7Q', 16: '7X',
          18: '8I', 19: '8Q', 20: '8X', 22: '5I', 23: '5Q', 24: '5X'},
    'S': {2: '1C', 22: '5I', 23: '5Q', 24: '5X'},
    'J': {2: '1C', 9: '6S', 10: '6L', 11: '6X', 15: '2S', 16: '2L',
          17: '2X', 22: '5I', 23: '5Q', 24: '5X', 30: '1S', 31: '1L',
          32: '1X'},
    'C': {2: '2I', 3: '2Q', 4: '2X', 8: '6I', 9: '6Q', 10: '6X', 14: '7I',
          15: '7Q', 16: '7X', 22: '5D', 23: '5P', 24: '5X', 25: '7D',
          30: '1D', 31: '1P', 32: '1X'}}
PRN0 = {'G': 0, 'R': 0, 'E': 0, 'S': 119, 'J': 192, 'C': 0}
NSAT = {'G': 32, 'R': 24, 'E': 36, 'S': 39, 'J': 10, 'C': 63}
FREQ = {'G': {1: 1575.42e6, 2: 1227.6e6, 5: 1176.45e6},
        'E': {1: 1575.42e6, 5: 1176.45e6, 6: 1278.75e6, 7: 1207.14e6,
              8: 1191.795e6},
        'S': {1: 1575.42e6, 5: 1176.45e6},
        'J': {1: 1575.42e6, 2: 1227.6e6, 5: 1176.45e6, 6: 1278.75e6},
        'C': {1: 1575.42e6, 2: 1561.098e6, 5: 1176.45e6, 6: 1268.52e6,
              7: 1207.14e6}}


def freq(c, s, fcn=None):
    b = int(s[0])
    if c == 'R':
        if fcn is None:
            return 0.0
        return {1: 1602e6+fcn*562500, 2: 1246e6+fcn*437500}[b]
    return FREQ[c][b]


def msm_bits(d):
    """d: c, typ(1-7), ep (30-bit), ref, mi, iods, sats [n..], sigs [id..],
    cell [[0/1..]..], ms, mod, ex, rr, pr, cp, lock, half, cnr, dop"""
    t = d['typ']
    b = Bits().u(MSM[d['c']]+t-1, 12).u(d['ref'], 12).u(d['ep'], 30)
    b.u(d['mi'], 1).u(d['iods'], 3).u(0, 7)
    b.u(0, 2).u(0, 2).u(0, 1).u(0, 3)
    b.u(sum(1 << (64-s) for s in d['sats']), 64)
    b.u(sum(1 << (32-s) for s in d['sigs']), 32)
    for r in d['cell']:
        for v in r:
            b.u(v, 1)
    if t > 3:
        for v in d['ms']:
            b.u(v, 8)
    if t in (5, 7):
        for v in d['ex']:
            b.u(v, 4)
    for v in d['mod']:
        b.u(v, 10)
    if t in (5, 7):
        for v in d['rr']:
            b.s(v, 14)
    hi = t > 5
    if t != 2:
        for v in d['pr']:
            b.s(v, 20 if hi else 15)
    if t > 1:
        for v in d['cp']:
            b.s(v, 24 if hi else 22)
        for v in d['lock']:
            b.u(v, 10 if hi else 4)
        for v in d['half']:
            b.u(v, 1)
    if t > 3:
        for v in d['cnr']:
            b.u(v, 10 if hi else 6)
    if t in (5, 7):
        for v in d['dop']:
            b.s(v, 15)
    return b


C = 299792458.0


def msm_expect(d):
    """{(sat, code): (P, L, S, lock, half)} in m, cycles, dB-Hz"""
    t = d['typ']
    hi = t > 5
    out = {}
    j = 0
    for k, s in enumerate(d['sats']):
        sat = sno(d['c'], s+PRN0[d['c']])
        r = d['mod'][k]/1024
        ok = True
        if t > 3:
            ok = d['ms'][k] != 255
            r += d['ms'][k]
        fcn = None
        if t in (5, 7) and d['ex'][k] <= 13:
            fcn = d['ex'][k]-7
        for q, on in enumerate(d['cell'][k]):
            if not on:
                continue
            code = SIG[d['c']][d['sigs'][q]]
            P = L = S = 0.0
            lock = half = 0
            if t != 2 and ok and d['pr'][j] != -(1 << (19 if hi else 14)):
                P = (r+d['pr'][j]*2.0**(-29 if hi else -24))*C*1e-3
            if t > 1 and ok and d['cp'][j] != -(1 << (23 if hi else 21)):
                L = (r+d['cp'][j]*2.0**(-31 if hi else -29))*1e-3 * \
                    freq(d['c'], code, fcn)
            if t > 1:
                lock, half = d['lock'][j], d['half'][j]
            if t > 3:
                S = d['cnr'][j]*(0.0625 if hi else 1.0)
            out[(sat, code)] = (P, L, S, lock, half)
            j += 1
    return out


def rmsm(rnd, c, typ, ep, maxcell=64):
    ns = rnd.choice([1, 2, 4, 8, 12, 20])
    ns = min(ns, NSAT[c])
    sigs = sorted(rnd.sample(sorted(SIG[c]), rnd.randint(1, min(
        len(SIG[c]), max(1, maxcell//ns), 8))))
    sats = sorted(rnd.sample(range(1, NSAT[c]+1), ns))
    p = rnd.choice([.5, .9, 1.0])
    cell = [[int(rnd.random() < p) for _ in sigs] for _ in sats]
    n = sum(map(sum, cell))
    hi = typ > 5

    def fld(t, k, m):
        return [ri(rnd, t, k) for _ in range(m)]
    return dict(
        c=c, typ=typ, ep=ep, ref=rnd.randrange(4096), mi=rnd.randint(0, 1),
        iods=rnd.randint(0, 7), sats=sats, sigs=sigs, cell=cell,
        ms=[rnd.choice([255, 0, 254]) if rnd.random() < .08 else
            rnd.randint(63, 130) for _ in sats],
        mod=[rnd.randrange(1024) if rnd.random() < .9 else 1023
             for _ in sats],
        ex=[rnd.choice([0, 13, 15]) if rnd.random() < .2 else
            rnd.randint(0, 13) for _ in sats] if c == 'R' else
           [0]*len(sats),
        rr=fld('s', 14, len(sats)),
        pr=fld('s', 20 if hi else 15, n), cp=fld('s', 24 if hi else 22, n),
        lock=[rnd.randrange(1024 if hi else 16) for _ in range(n)],
        half=[int(rnd.random() < .2) for _ in range(n)],
        cnr=fld('u', 10 if hi else 6, n), dop=fld('s', 15, n))


PI = np.pi
# broadcast ephemerides: (name, type, bits, scale)
E_GPS = [('prn', 'u', 6, 0), ('week', 'u', 10, 0), ('sva', 'u', 4, 1),
         ('code', 'u', 2, 1), ('idot', 's', 14, PI*2.**-43),
         ('iode', 'u', 8, 1), ('toc', 'u', 16, 0), ('af2', 's', 8, 2.**-55),
         ('af1', 's', 16, 2.**-43), ('af0', 's', 22, 2.**-31),
         ('iodc', 'u', 10, 1), ('crs', 's', 16, 2.**-5),
         ('deln', 's', 16, PI*2.**-43), ('M0', 's', 32, PI*2.**-31),
         ('cuc', 's', 16, 2.**-29), ('e', 'u', 32, 2.**-33),
         ('cus', 's', 16, 2.**-29), ('sqrtA', 'u', 32, 2.**-19),
         ('toe', 'u', 16, 0), ('cic', 's', 16, 2.**-29),
         ('OMG0', 's', 32, PI*2.**-31), ('cis', 's', 16, 2.**-29),
         ('i0', 's', 32, PI*2.**-31), ('crc', 's', 16, 2.**-5),
         ('omg', 's', 32, PI*2.**-31), ('OMGd', 's', 24, PI*2.**-43),
         ('tgd', 's', 8, 2.**-31), ('svh', 'u', 6, 1), ('flag', 'u', 1, 1),
         ('fit', 'u', 1, 1)]
E_QZS = [('prn', 'u', 4, 0), ('toc', 'u', 16, 0), ('af2', 's', 8, 2.**-55),
         ('af1', 's', 16, 2.**-43), ('af0', 's', 22, 2.**-31),
         ('iode', 'u', 8, 1), ('crs', 's', 16, 2.**-5),
         ('deln', 's', 16, PI*2.**-43), ('M0', 's', 32, PI*2.**-31),
         ('cuc', 's', 16, 2.**-29), ('e', 'u', 32, 2.**-33),
         ('cus', 's', 16, 2.**-29), ('sqrtA', 'u', 32, 2.**-19),
         ('toe', 'u', 16, 0), ('cic', 's', 16, 2.**-29),
         ('OMG0', 's', 32, PI*2.**-31), ('cis', 's', 16, 2.**-29),
         ('i0', 's', 32, PI*2.**-31), ('crc', 's', 16, 2.**-5),
         ('omg', 's', 32, PI*2.**-31), ('OMGd', 's', 24, PI*2.**-43),
         ('idot', 's', 14, PI*2.**-43), ('code', 'u', 2, 1),
         ('week', 'u', 10, 0), ('sva', 'u', 4, 1), ('svh', 'u', 6, 1),
         ('tgd', 's', 8, 2.**-31), ('iodc', 'u', 10, 1), ('fit', 'u', 1, 1)]
E_GAL = [('prn', 'u', 6, 0), ('week', 'u', 12, 0), ('iode', 'u', 10, 1),
         ('sva', 'u', 8, 1), ('idot', 's', 14, PI*2.**-43),
         ('toc', 'u', 14, 0), ('af2', 's', 6, 2.**-59),
         ('af1', 's', 21, 2.**-46), ('af0', 's', 31, 2.**-34),
         ('crs', 's', 16, 2.**-5), ('deln', 's', 16, PI*2.**-43),
         ('M0', 's', 32, PI*2.**-31), ('cuc', 's', 16, 2.**-29),
         ('e', 'u', 32, 2.**-33), ('cus', 's', 16, 2.**-29),
         ('sqrtA', 'u', 32, 2.**-19), ('toe', 'u', 14, 0),
         ('cic', 's', 16, 2.**-29), ('OMG0', 's', 32, PI*2.**-31),
         ('cis', 's', 16, 2.**-29), ('i0', 's', 32, PI*2.**-31),
         ('crc', 's', 16, 2.**-5), ('omg', 's', 32, PI*2.**-31),
         ('OMGd', 's', 24, PI*2.**-43)]
E_GALF = E_GAL+[('tgd', 's', 10, 2.**-32), ('hs5a', 'u', 2, 0),
                ('dvs5a', 'u', 1, 0), ('res', 'u', 7, 0)]
E_GALI = E_GAL+[('tgd_b', 's', 10, 2.**-32), ('tgd', 's', 10, 2.**-32),
                ('hs5b', 'u', 2, 0), ('dvs5b', 'u', 1, 0),
                ('hs1', 'u', 2, 0), ('dvs1', 'u', 1, 0), ('res', 'u', 2, 0)]
E_BDS = [('prn', 'u', 6, 0), ('week', 'u', 13, 0), ('sva', 'u', 4, 1),
         ('idot', 's', 14, PI*2.**-43), ('iode', 'u', 5, 1),
         ('toc', 'u', 17, 0), ('af2', 's', 11, 2.**-66),
         ('af1', 's', 22, 2.**-50), ('af0', 's', 24, 2.**-33),
         ('iodc', 'u', 5, 1), ('crs', 's', 18, 2.**-6),
         ('deln', 's', 16, PI*2.**-43), ('M0', 's', 32, PI*2.**-31),
         ('cuc', 's', 18, 2.**-31), ('e', 'u', 32, 2.**-33),
         ('cus', 's', 18, 2.**-31), ('sqrtA', 'u', 32, 2.**-19),
         ('toe', 'u', 17, 0), ('cic', 's', 18, 2.**-31),
         ('OMG0', 's', 32, PI*2.**-31), ('cis', 's', 18, 2.**-31),
         ('i0', 's', 32, PI*2.**-31), ('crc', 's', 18, 2.**-6),
         ('omg', 's', 32, PI*2.**-31), ('OMGd', 's', 24, PI*2.**-43),
         ('tgd', 's', 10, 1e-10), ('tgd_b', 's', 10, 1e-10),
         ('svh', 'u', 1, 1)]
E_IRN = [('prn', 'u', 6, 0), ('week', 'u', 10, 0), ('af0', 's', 22, 2.**-31),
         ('af1', 's', 16, 2.**-43), ('af2', 's', 8, 2.**-55),
         ('sva', 'u', 4, 1), ('toc', 'u', 16, 0), ('tgd', 's', 8, 2.**-31),
         ('deln', 's', 22, PI*2.**-41), ('iode', 'u', 8, 1),
         ('res', 'u', 10, 0), ('svh', 'u', 2, 1), ('cuc', 's', 15, 2.**-28),
         ('cus', 's', 15, 2.**-28), ('cic', 's', 15, 2.**-28),
         ('cis', 's', 15, 2.**-28), ('crc', 's', 15, 2.**-4),
         ('crs', 's', 15, 2.**-4), ('idot', 's', 14, PI*2.**-43),
         ('M0', 's', 32, PI*2.**-31), ('toe', 'u', 16, 0),
         ('e', 'u', 32, 2.**-33), ('sqrtA', 'u', 32, 2.**-19),
         ('OMG0', 's', 32, PI*2.**-31), ('omg', 's', 32, PI*2.**-31),
         ('OMGd', 's', 22, PI*2.**-41), ('i0', 's', 32, PI*2.**-31),
         ('res2', 'u', 4, 0)]
EPH = {1019: ('G', E_GPS, 16, 604784), 1044: ('J', E_QZS, 16, 604784),
       1045: ('E', E_GALF, 60, 604740), 1046: ('E', E_GALI, 60, 604740),
       1042: ('C', E_BDS, 8, 604792), 1041: ('I', E_IRN, 16, 604784)}
E_GLO = [('prn', 'u', 6), ('frq', 'u', 5), ('ah', 'u', 1), ('aha', 'u', 1),
         ('P1', 'u', 2), ('tkh', 'u', 5), ('tkm', 'u', 6), ('tks', 'u', 1),
         ('bn', 'u', 1), ('P2', 'u', 1), ('tb', 'u', 7),
         ('vx', 'm', 24), ('x', 'm', 27), ('ax', 'm', 5),
         ('vy', 'm', 24), ('y', 'm', 27), ('ay', 'm', 5),
         ('vz', 'm', 24), ('z', 'm', 27), ('az', 'm', 5),
         ('P3', 'u', 1), ('gam', 'm', 11), ('P', 'u', 2), ('ln3', 'u', 1),
         ('tau', 'm', 22), ('dtau', 'm', 5), ('En', 'u', 5), ('P4', 'u', 1),
         ('FT', 'u', 4), ('NT', 'u', 11), ('M', 'u', 2), ('av', 'u', 1),
         ('NA', 'u', 11), ('tauc', 'm', 32), ('N4', 'u', 5),
         ('tgps', 'm', 22), ('ln5', 'u', 1), ('res', 'u', 7)]
E_SBS = [('prn', 'u', 6), ('iodn', 'u', 8), ('toc', 'u', 13), ('sva', 'u', 4),
         ('x', 's', 30), ('y', 's', 30), ('z', 's', 25),
         ('vx', 's', 17), ('vy', 's', 17), ('vz', 's', 18),
         ('ax', 's', 10), ('ay', 's', 10), ('az', 's', 10),
         ('af0', 's', 12), ('af1', 's', 8)]
