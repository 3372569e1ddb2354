"""C29 raw navigation messages: decoding of pages into ephemerides"""
import io
import random
import datetime
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen, rawenc as E
from cssrlib import gnss as g
from cssrlib.gnss import Nav
from cssrlib.rawnav import RawNav, rcvDec
from cssrlib.rinex import rnxdec, rnxenc

SCALE = 4
SVA = [2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
       1024.0, 2048.0, 4096.0, 8192.0]
WEEK = 604800
BDT0 = 1356*WEEK+14       # BDT week 0 in seconds of GPS time
NIC0 = 1024*WEEK          # Galileo/NavIC week 0


class K:
    """one kind: systems, parameter table, pages needed, timing"""
    def __init__(self, c, par, meth, frame, need, step, t0=0, dt=0,
                 const=(), prn=None, nat=None):
        self.c, self.par, self.meth, self.frame = c, par, meth, frame
        self.need, self.step, self.t0, self.dt = need, step, t0, dt
        self.const = const      # parameters without issue number
        self.prn = prn
        self.nat = nat


# frame: spacing of complete sets [s]; step: spacing of pages [s];
# t0: offset of GPS time and system time; dt: time stamp relative to the
# start of the set
KIND = {
    'LNAV': K('GJ', E.LNAV, 'lnav', 30, (1, 2, 3), 6, dt=6),
    'CNAV': K('GJ', E.GCNAV, 'cnav', 48, (10, 11, 30), 12, dt=12),
    'CNV2': K('GJ', E.GCNAV, 'cnav2', 18, (1,), 18),
    'INAV': K('E', E.GAL, 'inav', 30, (1, 2, 3, 4, 5), 2, t0=NIC0, dt=8,
              const=('bgda', 'bgdb', 'hs1', 'hs5', 'dvs1', 'dvs5')),
    'FNAV': K('E', E.GAL, 'fnav', 50, (1, 2, 3, 4), 10, t0=NIC0),
    'D1': K('C', E.D12, 'd1', 30, (1, 2, 3), 6, t0=BDT0, prn=(6, 58)),
    'D2': K('C', E.D12, 'd2', 30, (1, 3, 4, 5, 6, 7, 8, 9, 10), 3, t0=BDT0,
            prn=(59, 63)),
    'B1C': K('C', E.BCNAV, 'b1c', 18, (1,), 18, t0=BDT0, prn=(19, 63)),
    'B2A': K('C', E.BCNAV, 'b2a', 12, (10, 11, 30, 40), 3, t0=BDT0,
             prn=(19, 58), const=('sisai0', 'sisai1', 'sisai2', 'sisai3')),
    'B2B': K('C', E.BCNAV, 'b2b', 3, (10, 30), 1, t0=BDT0, prn=(19, 58)),
    'IRN': K('I', E.IRN, 'irn', 48, (0, 1), 12),
    'IL1': K('I', E.IL1, 'irnl1', 18, (0,), 18, t0=NIC0),
    'GLO': K('R', E.GLO, 'glo', 30, (1, 2, 3, 4), 2),
    'L1OC': K('R', E.GLOC, 'l1oc', 6, (10, 11, 12), 2),
    'L3OC': K('R', E.GLOC, 'l3oc', 9, (10, 11, 12), 3),
    'SBS': K('S', E.SBS, 'sbs', 1, (9,), 1)}
KEP = ('LNAV', 'CNAV', 'CNV2', 'INAV', 'FNAV', 'D1', 'D2', 'B1C', 'B2A',
       'B2B', 'IRN', 'IL1')
TOE = {'LNAV': 16, 'CNAV': 300, 'CNV2': 300, 'INAV': 60, 'FNAV': 60, 'D1': 8,
       'D2': 8, 'B1C': 300, 'B2A': 300, 'B2B': 300, 'IRN': 16, 'IL1': 300,
       'SBS': 16}
HEAD = ('af0', 'af1', 'af2')
ORB = ('crs', 'deln', 'M0', 'cuc', 'e', 'cus', 'cic', 'OMG0', 'cis', 'i0',
       'crc', 'omg', 'idot')


def gps(t):
    return g.gpst2time(int(t//WEEK), float(t % WEEK))


def leap(t):
    """GPS-UTC at GPS time t (seconds since 1980)"""
    d = datetime.datetime(1980, 1, 6)+datetime.timedelta(seconds=t)
    return 18 if d >= datetime.datetime(2017, 1, 2) else None


@st.composite
def satcase(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    k = KIND[kind]
    c = draw(st.sampled_from(k.c))
    lo, hi = k.prn or gen.PRN[c]
    if c == 'J':
        hi = 202
    if kind == 'GLO':
        hi = 24
    n = draw(st.integers(1, 5))
    ns = draw(st.integers(1, 3))
    fr = [draw(st.integers(0, ns-1)) for _ in range(n)]
    d = dict(kind=kind, c=c, prn=draw(st.integers(lo, hi)),
             iss=[[draw(st.integers(0, 2**32-1)),
                   draw(st.integers(-7200, 7200))] for _ in range(ns)],
             fr=sorted(fr), loss=draw(st.sampled_from([0., 0., .1, .3])),
             seed=draw(st.integers(0, 2**32-1)),
             noise=draw(st.booleans()))
    return d


# a time: near the end of a week or of a day, or anywhere; from 2017 on
TIME = st.builds(lambda w, s: w*WEEK+s, st.integers(1948, 3300), st.one_of(
    st.integers(0, WEEK-1), st.integers(-3000, 3000).map(lambda x: x % WEEK),
    st.builds(lambda d, x: (d*86400+x) % WEEK, st.integers(0, 6),
              st.integers(-200, 200)),
    st.builds(lambda d, x: (d*86400-10800+x) % WEEK, st.integers(0, 6),
              st.integers(-200, 200))))


def build(d, t):
    """frames of a satellite: [(issue, expected, [(time, page, bytes)])]"""
    kind = d['kind']
    k = KIND[kind]
    r = random.Random(d['seed'])
    iss = []
    used = set()
    com = E.draw(k.par, d['seed'])
    for seed, dtoe in d['iss']:
        raw = E.draw(k.par, seed)
        for n in k.const:
            raw[n] = com[n]
        if 'sisa' in raw and r.random() < .5:   # steps of the table
            raw['sisa'] = r.choice([0, 49, 50, 74, 75, 99, 100, 125, 126, 254,
                                    255])
        m = dict(prn=d['prn'], raw=raw, seed=seed)
        if kind in TOE:
            q = TOE[kind]
            toe = (t-k.t0+dtoe)//q*q
            while toe in used:      # a new issue has a new reference time
                toe += q
            used.add(toe)
            m['toe_'] = toe
        m['fix'] = dict(alert=r.getrandbits(1), esf=r.getrandbits(1),
                        svh=r.getrandbits(3), top_=(
                            t-k.t0+r.randint(-86400, 0))//300*300)
        iss.append(m)
    # issue numbers differ
    for n in ('iode', 'iodc', 'iodnav', 'iodn'):
        if n in k.par:
            b = min(k.par[n][0], 8)
            o = r.randrange(1 << b)
            for j, m in enumerate(iss):
                x = m['raw'][n]
                m['raw'][n] = x-(x % (1 << b))+(o+j) % (1 << b)
    o = r.randrange(1024)
    for j, m in enumerate(iss):
        m['iodc'] = (o+j) % 1024
    if kind == 'B2A':       # SISAI of message 40 has no issue number
        for m in iss:
            m['fix']['top_'] = iss[0]['fix']['top_']
    # interleaved frames of constellations do not start together
    f0 = -(-(t-k.t0)//k.frame)*k.frame
    out = []
    for j, q in enumerate(d['fr']):
        ts = f0+j*k.frame           # start of the set, system time
        out.append((q, ts)+frame(d, k, iss[q], ts))
    return out


def frame(d, k, m, ts):
    kind, raw, fx = d['kind'], m['raw'], m['fix']
    par = k.par
    en = E.Enc(par, raw, (m['seed'] ^ ts) & 0xffffffff)
    v = {n: raw[n]*par[n][2] for n in par}
    wn, tow = ts//WEEK, ts % WEEK
    mm = dict(prn=d['prn'], wn=wn, tow=tow, **fx)
    x = {}
    if kind in KEP:
        x.update({n: v[n] for n in ORB+HEAD})
        mm['toe'] = m['toe_'] % WEEK
        x['toes'] = mm['toe']
        x['toe'] = m['toe_']+k.t0
        x['tot'] = ts+k.t0+k.dt
    for n in ('tgd', 'tgd_b', 'iode', 'iodc', 'svh', 'Adot', 'delnd', 'OMGd',
              'sattype', 'sismai', 'integ', 'l2p', 'code'):
        if n in par:
            x[n] = v[n]
    if 'sqrtA' in par:
        x['A'] = v['sqrtA']**2
    elif 'dA' in par:
        x['A'] = v['dA']+(26559710.0 if d['c'] == 'G' else 42164200.0)
    if 'ura' in par and kind not in ('IL1', 'SBS'):
        x['sva'] = SVA[raw['ura']]
    # reference time of the clock
    if kind in ('LNAV', 'INAV', 'FNAV', 'D1', 'D2', 'IRN'):
        toc = m['toe_']+(m['seed'] % 5-2)*TOE[kind]
    elif kind in KEP:
        toc = m['toe_']
    if kind in KEP:
        mm['toc'] = toc % WEEK
        x['toc'] = toc+k.t0
    t0 = ts+k.t0
    if kind == 'LNAV':
        x.update(mode=0, iode=raw['iodc'] & 255)
        pages = en.lnav(mm)
    elif kind in ('CNAV', 'CNV2'):
        mm['top'] = fx['top_'] % WEEK
        mm['wn_op'] = fx['top_']//WEEK
        x['OMGd'] = v['OMGd']-2.6e-9*E.PI
        x['urai'] = [raw[n] for n in ('ura0', 'ura1', 'ura2', 'ura_ed')]
        x['top'] = fx['top_']
        x['wn_op'] = mm['wn_op']
        x['tops'] = mm['top']
        x['isc'] = [v['isc%d' % i] for i in range(
            4 if kind == 'CNAV' else 6)]
        if kind == 'CNAV':
            mm['prn6'] = d['prn']-(192 if d['c'] == 'J' else 0)
            clk = 61 if d['c'] == 'J' and m['seed'] & 1 else 30
            x.update(mode=1, svh=fx['svh'],
                     integ=fx['alert']*4+fx['esf']*2+raw['isf'])
            pages = en.cnav(mm, (10, 11, clk))
            pages = [(30 if p == 61 else p, b) for p, b in pages]
        else:
            mm['prn8'] = d['prn']
            x.update(mode=2, svh=fx['svh'] & 1, integ=raw['isf'] + (
                2*fx['esf'] if d['c'] == 'J' else 0))
            pages = en.cnav2(mm, 61 if d['c'] == 'J' and
                             m['seed'] & 1 else 1)
            pages = [(1, pages[0][1])]
    elif kind in ('INAV', 'FNAV'):
        mm['wn'] = wn % 4096
        x['week'] = x['toe']//WEEK
        x['iode'] = x['iodc'] = raw['iodnav']
        s = raw['sisa']
        x['sva'] = s*.01 if s < 50 else .5+(s-50)*.02 if s < 75 else \
            1+(s-75)*.04 if s < 100 else 2+(s-100)*.16 if s < 126 else None
        if s == 255:
            x['sva'] = -1.0
        if x['sva'] is None:
            del x['sva']
        if kind == 'INAV':
            mm['tow'] = (tow+8) % WEEK
            mm['wn'] = (ts+8)//WEEK % 4096
            x.update(mode=0, tgd=v['bgdb'], tgd_b=v['bgda'],
                     code=512 | (1 if d['seed'] & 1 else 4),
                     svh=raw['hs5']*128+raw['dvs5']*64+raw['hs1']*2 +
                     raw['dvs1'])
            pages = en.inav(mm)
        else:
            x.update(mode=1, tgd=v['bgda'], code=258,
                     svh=raw['hs5']*16+raw['dvs5']*8)
            pages = en.fnav(mm)
    elif kind in ('D1', 'D2'):
        x.update(mode=0, week=m['toe_']//WEEK)
        pages = en.d1(mm) if kind == 'D1' else en.d2(mm)
    elif kind in ('B1C', 'B2A', 'B2B'):
        mm['top'] = fx['top_'] % WEEK
        mm['iodc'] = m['iodc']
        x['A'] = v['dA']+(27906100. if raw['sattype'] == 3 else 42162200.)
        x['sisai'] = [raw['sisai0'], raw['sisai1'] % 32, raw['sisai2'] % 8,
                      raw['sisai3'] % 8]
        x['tops'] = mm['top']
        if kind != 'B2B':
            x['iodc'], x['iode'] = m['iodc'], m['iodc'] & 255
        if kind == 'B1C':
            x.update(mode=1, isc0=v['isc0'])
            pages = en.b1c(mm)
        elif kind == 'B2A':
            x.update(mode=2, isc1=v['isc1'],
                     integ=raw['ib2a']*8+raw['ib1c'])
            pages = en.b2a(mm)
        else:
            x['mode'] = 3
            del x['tgd_b']
            pages = en.b2b(mm)
    elif kind == 'IRN':
        x.update(mode=0, iodc=raw['iode'], week=x['toe']//WEEK)
        pages = en.irn(mm)
    elif kind == 'IL1':
        x.update(mode=2, iodc=raw['iode'], urai=raw['ura'],
                 integ=raw['isf'], isc4=v['isc4'], isc5=v['isc5'])
        pages = en.irnl1(mm)
    elif kind == 'GLO':
        # UTC of the start of the frame, Moscow time
        u = t0-18+10800
        sod = u % 86400
        f0 = sod//30*30
        t0 = t0-(sod-f0)
        mm['tk'] = (f0//3600, f0//60 % 60, f0//30 % 2)
        tb = (f0//1800*2+1+2*(m['seed'] % 2)) % 96
        tb = max(tb, 1)
        mm.update(tb=tb, NT=1+m['seed'] % 1461, slot=d['prn'], N4=7)
        dt = tb*900-f0
        dt = dt-86400 if dt > 43200 else dt+86400 if dt < -43200 else dt
        x = dict(tof=t0, toe=t0+dt, iode=tb, mode=0, age=raw['En'],
                 sva=raw['FT'], taun=v['taun'], gamn=v['gamn'],
                 dtaun=v['dtaun'], pos=[v['x'], v['y'], v['z']],
                 vel=[v['vx'], v['vy'], v['vz']],
                 acc=[v['ax'], v['ay'], v['az']], frq=d['prn'] % 14-7,
                 flag=raw['M']*128+raw['P4']*64+raw['P3']*32 +
                 raw['P2']*16+raw['P1']*4+raw['P'])
        pages = en.glo(mm)
        return x, [(t0+2*i, p, b) for i, (p, b) in enumerate(pages)]
    elif kind in ('L1OC', 'L3OC'):
        l3 = kind == 'L3OC'
        st_ = 3 if l3 else 2
        u = t0-18+10800
        f0 = u % 86400//k.frame*k.frame
        t0 -= u % 86400-f0
        day = datetime.date(1980, 1, 6)+datetime.timedelta(
            days=(t0-18+10800)//86400)
        n4 = (day.year-1996)//4
        nt = (day-datetime.date(1996+4*n4, 1, 1)).days+1
        tb = f0//900*10+m['seed'] % 3*5
        mm.update(N4=n4+1, NT=nt, tb=tb, ts=f0//st_, slot=d['prn'])
        x = dict(tof=t0, toe=t0-f0+tb*90, iode=tb, mode=3 if l3 else 1,
                 taun=v['taun'], gamn=v['gamn'], beta=v['beta'],
                 tau_c=v['tau_c'], dtau_c=v['dtau_c'],
                 pos=[v['x'], v['y'], v['z']],
                 vel=[v['vx'], v['vy'], v['vz']],
                 acc=[v['ax'], v['ay'], v['az']],
                 dpos=[v['dx'], v['dy'], v['dz']], tau_gps=v['tau_gps'],
                 urai=[raw['FE'], raw['FT']], svh=raw['svh'],
                 status=raw['valid'], flag=raw['P2'], sattype=raw['M'],
                 src=raw['RE']*4+raw['RT'], aode=raw['EE']*.25,
                 aodc=raw['ET']*.25)
        if l3:
            x['isc2'] = v['isc']
        else:       # layout of the other fields of L1OC not claimed
            for n in ('vel', 'acc', 'dpos', 'tau_gps'):
                del x[n]
            x['vel0'] = v['vx']
        pages = en.gloc(mm, l3)
        if l3 and m['seed'] & 2:
            pages = en.gloc(mm, l3, (10, 11, 12, 16))
            pages = pages[3:]+pages[:3]
            if d['fr'][0] == d['fr'][-1] and not d['loss']:
                x.update(psi=v['psi'], sn=raw['sn'], wmax=v['wmax'],
                         win=v['win'], dw=v['dw'], tin=v['tin'],
                         tau1=v['tau1'], tau2=v['tau2'])
    elif kind == 'SBS':
        mm['t0'] = m['toe_'] % 86400
        x = dict(t0=m['toe_'], tof=t0, iodn=raw['iodn'], mode=0,
                 svh=int(raw['ura'] == 15), af0=v['af0'], af1=v['af1'],
                 sva=(SVA[:15]+[0.])[raw['ura']],
                 pos=[v['x'], v['y'], v['z']],
                 vel=[v['vx'], v['vy'], v['vz']],
                 acc=[v['ax'], v['ay'], v['az']])
        pages = en.sbs(mm, (0x53, 0x9a, 0xc6)[ts % 3])
    return x, [(t0+i*k.step, p, b) for i, (p, b) in enumerate(pages)]


def decode(rn, d, t, b):
    """hand a page to the decoder"""
    w, tow, kind = int(t//WEEK), t % WEEK, d['kind']
    sat = g.prn2sat(gen.SYS[d['c']], d['prn'])
    f = {'LNAV': rn.decode_gps_lnav, 'CNAV': rn.decode_gps_cnav,
         'CNV2': rn.decode_gps_cnav2, 'FNAV': rn.decode_gal_fnav,
         'D1': rn.decode_bds_d1, 'D2': rn.decode_bds_d2,
         'B1C': rn.decode_bds_b1c, 'B2A': rn.decode_bds_b2a,
         'B2B': rn.decode_bds_b2b, 'IRN': rn.decode_irn_lnav,
         'IL1': rn.decode_irn_l1nav, 'L1OC': rn.decode_glo_l1oc,
         'L3OC': rn.decode_glo_l3oc, 'SBS': rn.decode_sbs_l1}
    if kind == 'INAV':
        return rn.decode_gal_inav(w, tow, sat, 0 if d['seed'] & 1 else 2, b)
    if kind == 'FNAV':
        return rn.decode_gal_fnav(w, tow, sat, 1, b)
    if kind == 'GLO':
        return rn.decode_glo_fdma(w, tow, sat, b, d['prn'] % 14-7)
    return f[kind](w, tow, sat, b)


def secs(t):
    d = g.timediff(t, g.gpst2time(0, 0.0))
    return d


def diff(e, x, skip=()):
    """name of the first parameter that differs"""
    for n, v in x.items():
        if n in skip:
            continue
        if n in ('toe', 'toc', 'tot', 'tof', 'top', 't0'):
            o = secs(getattr(e, n))
        elif n[:3] == 'isc' and len(n) == 4:
            o = e.isc[int(n[3])]
        elif n == 'vel0':
            o = e.vel[0]
        else:
            o = getattr(e, n)
        if n == 'sismai':
            o %= 16
        if n == 'sisai':
            o = [o[0], o[1] % 32, o[2] % 8, o[3] % 8]
        if n == 'isc':
            o = o[:len(v)]
        if not np.allclose(np.array(o, float), np.array(v, float),
                           rtol=1e-12, atol=1e-23 if n != 'sva' else 1e-9):
            return '%s: decoded %s, sent %s' % (n, o, v)
    return None


def noise(d, r, b, page):
    """a page that is not part of the ephemeris of this satellite"""
    s = bytearray(b)
    kind = d['kind']

    def put(p, n, v):
        x = int.from_bytes(s, 'big')
        o = len(s)*8-p-n
        x = x & ~(((1 << n)-1) << o) | (v << o)
        s[:] = x.to_bytes(len(s), 'big')
    rest = bytearray(r.randbytes(len(s)))
    t = r.randrange(2)
    hd = {'LNAV': (64, 8), 'D1': (38, 4), 'D2': (46, 4), 'CNAV': (38, 4),
          'GLO': (5, 8), 'L1OC': (18, 8), 'L3OC': (26, 8), 'INAV': (2, 12),
          'FNAV': (6, 8), 'B2A': (30, 8), 'B2B': (44, 8), 'IRN': (30, 8),
          'SBS': (14, 8), 'IL1': (52, 8), 'CNV2': (52, 8), 'B1C': (0, 8)}
    p0 = hd[kind][0]
    x = int.from_bytes(s, 'big')
    y = int.from_bytes(rest, 'big')
    o = len(s)*8-p0
    s[:] = ((x >> o << o) | (y & ((1 << o)-1))).to_bytes(len(s), 'big')
    if kind == 'LNAV':
        put(2, 8, 0x8b ^ (1 << r.randrange(8)))
    elif kind == 'CNAV':
        if t:
            put(0, 8, 0x8b ^ (1 << r.randrange(8)))
        else:
            q = d['prn']-(192 if d['c'] == 'J' else 0)
            put(8, 6, q % 63+1)
    elif kind == 'INAV':
        if t:
            put(2, 6, r.choice([0, 6, 7, 10, 16, 17, 22, 63]))
        else:
            put(0, 2, 1)            # alert page
    elif kind == 'FNAV':
        put(0, 6, r.choice([5, 6, 63]))
    elif kind == 'D1':
        if t:
            put(0, 11, 0x712 ^ (1 << r.randrange(11)))
        else:
            put(15, 3, r.choice([4, 5]))
    elif kind == 'D2':
        if t:
            put(0, 11, 0x712 ^ (1 << r.randrange(11)))
        else:
            put(15, 3, r.choice([2, 3, 4, 5]))
    elif kind == 'B2A':
        put(6, 6, r.choice([0, 31, 32, 33, 63]))
    elif kind == 'B2B':
        put(12, 6, r.choice([0, 8, 63]))
    elif kind == 'IRN':
        put(27, 2, 3)
    elif kind == 'IL1':
        return None
    elif kind == 'GLO':
        put(1, 4, r.choice([0, 6, 15]))
    elif kind in ('L1OC', 'L3OC'):
        n = 12 if kind == 'L1OC' else 20
        if t:
            put(0, n, (0x5f1 if n == 12 else 0x494e) ^
                (1 << r.randrange(n)))
        else:
            put(n, 6, r.choice([0, 20, 31, 32, 60]))
    elif kind == 'SBS':
        if t:
            put(8, 6, r.choice([0, 1, 4, 28, 63]))
        else:
            put(0, 8, (0x53, 0x9a, 0xc6)[r.randrange(3)] ^ 8)
    else:
        return None
    return bytes(s)


def run_sat(rn, d, t):
    """generator: one page per step"""
    k = KIND[d['kind']]
    r = random.Random(d['seed'] ^ 5)
    fr = build(d, t)
    stamp = {'CNAV': 10, 'INAV': 5, 'FNAV': 1, 'B2A': 10, 'B2B': 10}.get(
        d['kind'], k.need[0])
    last = None         # latest page with the transmission time
    got = 0
    for q, ts, x, pages in fr:
        seen, ok = set(), None
        for tt, p, b in pages:
            yield tt, None
            if d['noise'] and r.random() < .3:
                nb = noise(d, r, b, p)
                if nb is not None:
                    o = decode(rn, d, tt, nb)
                    check(o is None, '%s: an unrelated page gave an '
                          'ephemeris (%s)', d['kind'], nb.hex())
            if r.random() < d['loss']:
                continue
            if p == stamp and 'tot' in x:
                last = x['tot']
            o = decode(rn, d, tt, b)
            if p in k.need:
                seen.add(p)
            full = seen == set(k.need) and p == max(
                k.need) if d['kind'] != 'INAV' else len(seen) == 5
            if full and ok is None:
                check(o is not None, '%s %s%d: complete set of pages not '
                      'decoded', d['kind'], d['c'], d['prn'])
                ok = o
            if o is None:
                continue
            got += 1
            check(o.sat == g.prn2sat(gen.SYS[d['c']], d['prn']), 'satellite')
            if d['kind'] in ('L1OC', 'L3OC'):
                if full:
                    z = diff(o, x)
                    check(z is None, '%s %s', d['kind'], z)
                continue
            zs = [(diff(o, y, ('tot', 'tof')), yq, y) for yq, _, y, _ in fr]
            mt = [y for z, yq, y in zs if z is None]
            if not mt:
                z = [z for z, yq, _ in zs if yq == q][0]
                check(False, '%s: not an issue that was sent: %s', d['kind'],
                      z)
            if full:
                z = diff(o, x)
                check(z is None, '%s %s', d['kind'], z)
            elif 'tot' in x:
                eq(d['kind']+' transmission time', secs(o.tot), last)
    yield None, got


def interleave(rn, sats, t):
    """pages of all satellites in the order of reception"""
    its = []
    for d in sats:
        i = run_sat(rn, d, t)
        its.append([next(i)[0], i])
    n = 0
    while its:
        j = min(range(len(its)), key=lambda a: its[a][0])
        tt, res = next(its[j][1])
        if tt is None:
            n += res
            its.pop(j)
        else:
            its[j][0] = tt
    return n


GROUPS = {'gps': ['LNAV', 'CNAV', 'CNV2'], 'gal': ['INAV', 'FNAV'],
          'bds': ['D1', 'D2', 'B1C', 'B2A', 'B2B'], 'irn': ['IRN', 'IL1'],
          'glo': ['GLO', 'L1OC', 'L3OC'], 'sbs': ['SBS']}


def hist(kinds):
    return st.builds(dict, t=TIME, sats=st.lists(
        satcase(kinds), min_size=1, max_size=4,
        unique_by=lambda d: (d['c'], d['prn'], d['kind']) if d['kind'] not in
        ('D1', 'D2') else (d['c'], d['prn'], 'D')))


def one(case):
    rn = RawNav()
    n = interleave(rn, case['sats'], case['t'])
    if not n:
        return False
    m = sum(len(set(d['fr'])) > 1 for d in case['sats'])
    return 'issue changes' if m else 'one issue'


@facet('gps', hist(GROUPS['gps']), 300, 6000, 'GPS and QZSS messages')
def gps_(case):
    return one(case)


@facet('galileo', hist(GROUPS['gal']), 250, 5000, 'Galileo messages')
def galileo(case):
    return one(case)


@facet('beidou', hist(GROUPS['bds']), 400, 8000, 'BeiDou messages')
def beidou(case):
    return one(case)


@facet('navic', hist(GROUPS['irn']), 200, 4000, 'NavIC messages')
def navic(case):
    return one(case)


@facet('glonass', hist(GROUPS['glo']), 250, 5000, 'GLONASS messages')
def glonass(case):
    return one(case)


@facet('sbas', hist(GROUPS['sbs']), 150, 3000, 'SBAS geostationary message')
def sbas(case):
    return one(case)


@facet('mixed', hist(list(KIND)), 200, 4000, 'all constellations')
def mixed(case):
    return one(case)


# ------------------------------------------------------- receiver to RINEX

TIMES = ('toe', 'toc', 'tot', 'top', 'tof', 't0')
SKIP = {'LNAV': ('l2p',), 'L1OC': ('iode', 'tau_c', 'dtau_c'),
        'L3OC': ('iode', 'tau_c', 'dtau_c', 'tau_gps'), 'CNAV': ('top', 'wn_op', 'integ'),
        'CNV2': ('top', 'wn_op', 'integ'), 'D1': ('iodc',), 'D2': ('iodc',)}


def chain(d, t):
    """page decoder, RINEX writer, RINEX reader"""
    d = dict(d, fr=d['fr'][:1], loss=0., noise=False)
    if d['kind'] in ('L1OC', 'L3OC'):   # RINEX records have quarter hours
        d['iss'] = [[v[0]//6*6, v[1]] for v in d['iss']]
    q, ts, x, pages = build(d, t)[0]
    rn = RawNav()
    e = None
    for tt, p, b in pages:
        o = decode(rn, d, tt, b)
        e = e if o is None else o
    check(e is not None, '%s: not decoded', d['kind'])
    return e, x


@facet('rinex', st.builds(dict, t=TIME, sats=st.lists(
    satcase(list(KIND)), min_size=1, max_size=4,
    unique_by=lambda d: (d['c'], d['prn']))), 150, 3000,
    'ephemerides from messages written to and read from RINEX')
def rinex(case):
    enc = rnxenc()
    fh = io.StringIO()
    enc.rnx_nav_header(fh)
    exp = []
    for d in case['sats']:
        e, x = chain(d, case['t'])
        f = 'geph' if d['c'] == 'R' else 'seph' if d['c'] == 'S' else 'eph'
        {'eph': enc.rnx_nav_body, 'geph': enc.rnx_gnav_body,
         'seph': enc.rnx_snav_body}[f](e, fh)
        exp.append((f, d, e, x))
    nav = Nav()
    dec = rnxdec()
    dec._decode_nav(io.StringIO(fh.getvalue()), nav)
    for f in ('eph', 'geph', 'seph'):
        want = [v for v in exp if v[0] == f]
        got = getattr(nav, f)
        same('records', len(got), len(want))
        for o, (_, d, e, x) in zip(got, want):
            w = d['kind']+' '
            same(w+'sat', int(o.sat), int(e.sat))
            same(w+'mode', int(o.mode), int(e.mode))
            for n in x:
                if n in SKIP.get(d['kind'], ()):
                    continue
                if d['c'] == 'J' and n in ('svh', 'code'):
                    continue        # health of L1C/A and L1C/B is masked
                if n[:3] == 'isc' and len(n) == 4:
                    a, b = o.isc[int(n[3])], e.isc[int(n[3])]
                elif d['kind'] == 'GLO' and n in ('sva', 'flag'):
                    a = o.urai[0] if n == 'sva' else o.status
                    b = getattr(e, n)
                elif n == 'vel0':
                    a, b = o.vel, e.vel
                elif n in TIMES:
                    a, b = secs(getattr(o, n)), secs(getattr(e, n))
                else:
                    a, b = getattr(o, n), getattr(e, n)
                if not np.allclose(np.array(a, float), np.array(b, float),
                                   rtol=2e-12, atol=0):
                    check(False, '%s%s: from RINEX %s, from the messages %s',
                          w, n, a, b)
    return '%d records' % len(exp)


SYSSIG = {'G': 'GPS', 'R': 'GLO', 'E': 'GAL', 'C': 'BDS', 'J': 'QZS',
          'S': 'SBS', 'I': 'IRN'}


@facet('signals', st.lists(st.sampled_from('GRECJSI'), min_size=1,
                           unique=True), 60, 300,
       'signal table of the receiver for the selected constellations')
def signals(case):
    s = ''.join(case)
    tab = rcvDec(gnss_t=s).sig_tab
    same('constellations', sorted(int(k) for k in tab),
         sorted(int(gen.SYS[c]) for c in s))
    for c in s:
        t = tab[gen.SYS[c]]
        cod = {typ: [q.str()[-2:] for q in t[typ]] for typ in t}
        same('types', len(cod), 4)
        for typ in t:
            for q in t[typ]:
                check(q.sys == gen.SYS[c] and q.typ == typ,
                      'signal %s of system %s', q.str(), c)
            same('signals', cod[typ], cod[g.uTYP.C])
            same('distinct', len(set(cod[typ])), len(cod[typ]))
    return s if len(s) > 1 else False
