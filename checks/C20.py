"""C20 SBAS L1 and DFMC (L5) messages, ionospheric grid"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen
from vlib.bits import Bits
from cssrlib import gnss as g
from cssrlib.cssrlib import sCType
from cssrlib.sbas import sbasDec, searchIGP, ionoSBAS
from cssrlib.pntpos import ionmodel, ionKlobuchar
from cssrlib.gnss import uIonoModel

SCALE = 6
CL = 299792458.0


def sn(c, p):
    return int(g.prn2sat(gen.SYS[c], p))


def rs(rnd, n):
    """signed, without the smallest and the largest value"""
    m = (1 << (n-1))-2
    x = rnd.random()
    if x < .1:
        return rnd.choice([-m, m, 0, -1])
    return rnd.randint(-m, m)


def tod(t, k, u):
    """time (s of week) of day closest to t"""
    x = t//86400*86400+k*u
    if x-t > 43200:
        x -= 86400
    elif x-t < -43200:
        x += 86400
    return x


def igps():
    """grid points of each band (DO-229 table A-14)"""
    b = {}
    a = list(range(-55, 60, 5))
    for k in range(9):
        o = []
        for j in range(8):
            lon = -180+40*k+5*j
            if j % 2:
                v = a
            else:
                v = [-75, -65]+a+[65, 75]
                if lon in (-180, -90, 0, 90):
                    v = v+[85]
                if lon in (-140, -50, 40, 130):
                    v = [-85]+v
            o += [(x, lon) for x in v]
        b[k] = o
    for k, s in ((9, 1), (10, -1)):
        o = [(60*s, x) for x in range(-180, 180, 5)]
        for y in (65, 70, 75):
            o += [(y*s, x) for x in range(-180, 180, 10)]
        o += [(85*s, x) for x in range(-180 if s > 0 else -170, 180, 30)]
        b[k] = o
    return b


IGP = igps()
E_ORD = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3), (1, 2),
         (1, 3), (2, 3)]


def cov(rnd, b):
    e = rnd.randrange(8)
    R = np.zeros((4, 4))
    b.u(e, 3)
    for i, j in E_ORD:
        v = rnd.randrange(512) if i == j else rs(rnd, 10)
        b.u(v, 9) if i == j else b.s(v, 10)
        R[i, j] = v*2.0**(e-5)
    return R.T@R, 2.0**(e-5)


def masks(rnd):
    o = []
    lo = rnd.choice([0, 1, 1])
    pg = rnd.choice([.1, .5, .9, 1])
    for s in range(1, 33):
        if rnd.random() < pg:
            o.append(s)
    for s in range(38, 62):
        if lo and rnd.random() < .3:
            o.append(s)
    for s in range(120, 139):
        if rnd.random() < .2:
            o.append(s)
    return sorted(rnd.sample(o, min(len(o), rnd.choice([4, 14, 30, 51]))))


def slot1(s):
    return sn('G', s) if s < 33 else sn('R', s-37) if s < 62 else sn('S', s)


class Sys:
    def __init__(self, c, nf):
        self.cs = sbasDec(nf=nf)
        self.rnd = c['rnd']
        self.wk = c['week']
        self.t = 0
        self.ic = None      # IOD of the mask with the last corrections

    def time(self, s):
        return g.gpst2time(self.wk, s)


class L1(Sys):
    def __init__(self, c):
        super().__init__(c, 1)
        r = self.rnd
        self.prn = r.randint(120, 138)
        self.iodp = r.randrange(4)
        self.mask = None
        self.nmask = masks(r)       # mask at the system
        self.fast, self.udrei, self.ai, self.long = {}, {}, {}, {}
        self.cov, self.alm = {}, {}
        self.seph = self.deg = self.si = None
        self.band = {}
        self.iodi = r.randrange(4)
        self.gm = {}                # grid masks at the system
        for b in r.sample(range(11), 3):
            self.gm[b] = self.newgm(b)

    def newgm(self, b):
        n = len(IGP[b])
        return sorted(self.rnd.sample(range(n), self.rnd.choice(
            [1, 14, 15, 16, 40, n])))

    def stale(self):
        return self.rnd.random() < .08

    def send(self, kind):
        r = self.rnd
        b = Bits()
        f = getattr(self, kind)(b)
        mt, f = f
        b.pad(212)
        m = Bits().u([0x53, 0x9a, 0xc6][r.randrange(3)], 8).u(mt, 6).add(
            b).u(r.getrandbits(24), 24)
        self.cs.decode_cssr(m.bytes(), 0, 0, self.prn)

    # each returns the message type, after updating the model
    def m_mask(self, b):
        r = self.rnd
        if r.random() < .15:
            self.iodp = (self.iodp+1) % 4
            m = set(self.nmask)
            for s in r.sample(self.nmask, max(0, min(3, len(m)-2))):
                m.discard(s)
            q = masks(r)
            m |= set(r.sample(q, min(2, len(q))))
            self.nmask = sorted(m)[:51]
        for s in range(1, 211):
            b.u(int(s in self.nmask), 1)
        b.u(self.iodp, 2)
        self.mask = [slot1(s) for s in self.nmask]
        self.miodp = self.iodp
        self.long = {s: v for s, v in self.long.items() if s in self.mask}
        return 1, 0

    def p(self):
        """IODP of the message, does it match?"""
        x = self.iodp
        if self.stale():
            x = (x+self.rnd.randint(1, 3)) % 4
        return x, self.mask is not None and x == self.miodp

    def fastblk(self, b, n, blk, ok):
        r = self.rnd
        u = []
        for k in range(n):
            v, x = rs(r, 12), r.randrange(16)
            b.s(v, 12)
            u.append(x)
            j = blk*13+k
            if ok and j < len(self.mask):
                self.fast[self.mask[j]] = (v*.125, self.t)
                self.udrei[self.mask[j]] = x
        for x in u:
            b.u(x, 4)

    def m_fast(self, b):
        k = self.rnd.randrange(4)
        x, ok = self.p()
        b.u(self.rnd.randrange(4), 2).u(x, 2)
        self.fastblk(b, 13, k, ok)
        return 2+k, 0

    def m_integ(self, b):
        b.u(255, 8)
        for k in range(51):
            x = self.rnd.randrange(16)
            b.u(x, 4)
            if self.mask and k < len(self.mask):
                self.udrei[self.mask[k]] = x
        return 6, 0

    def m_degr(self, b):
        x, ok = self.p()
        b.u(self.rnd.randrange(16), 4).u(x, 2).u(0, 2)
        for k in range(51):
            x = self.rnd.randrange(16)
            b.u(x, 4)
            if ok and k < len(self.mask):
                self.ai[self.mask[k]] = x
        return 7, 0

    def slot(self):
        r = self.rnd
        n = len(self.nmask)
        return r.choice([0, 1, n, min(n+1, 63), r.randint(1, max(n, 1)),
                         r.randint(1, max(n, 1)), r.randint(1, max(n, 1))])

    def half(self, b):
        r = self.rnd
        vc = r.randrange(2)
        b.u(vc, 1)
        x, ok = self.p()
        if vc == 0:
            for _ in range(2):
                s, iod = self.slot(), r.randrange(256)
                d = [r.randint(-256, 255) for _ in range(3)]
                d.append(r.randint(-512, 511))
                b.u(s, 6).u(iod, 8)
                for v, n in zip(d, (9, 9, 9, 10)):
                    b.s(v, n)
                self.addl(ok, s, iod, d, [0]*4, self.t)
            b.u(x, 2).u(0, 1)
        else:
            s, iod = self.slot(), r.randrange(256)
            d = [rs(r, 11) for _ in range(4)]
            e = [rs(r, 8) for _ in range(4)]
            b.u(s, 6).u(iod, 8)
            for v in d:
                b.s(v, 11)
            for v in e:
                b.s(v, 8)
            k = (self.t+r.randint(-120, 180)) % 86400//16
            b.u(k, 13).u(x, 2)
            self.addl(ok, s, iod, d, e, tod(self.t, k, 16))
        if ok:
            self.ic = x

    def addl(self, ok, s, iod, d, e, t):
        if ok and 0 < s <= len(self.mask):
            self.long[self.mask[s-1]] = dict(
                iode=iod, dorb=-np.array(d[:3])*.125, dclk=d[3]*2**-31*CL,
                dvel=-np.array(e[:3])*2**-11, ddft=e[3]*2**-39*CL, t=t)

    def m_mixed(self, b):
        r = self.rnd
        k = r.randrange(4)
        x, ok = self.p()
        self.fastblk(b, 6, k, ok)
        b.u(x, 2).u(k, 2).u(r.randrange(4), 2).u(0, 4)
        if ok:
            self.half(b)
        else:
            b.u(r.getrandbits(106), 106)
        return 24, 0

    def m_long(self, b):
        self.half(b)
        self.half(b)
        return 25, 0

    def m_ranging(self, b):
        r = self.rnd
        k = (self.t+r.randint(-120, 180)) % 86400//16
        b.u(r.randrange(256), 8).u(k, 13)
        ura = r.randrange(15)
        b.u(ura, 4)
        v = []
        for n in (30, 30, 25, 17, 17, 18, 10, 10, 10, 12, 8):
            x = rs(r, n)
            b.s(x, n)
            v.append(x)
        self.seph = dict(
            t=tod(self.t, k, 16), sva=[2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64,
                                       128, 256, 512, 1024, 2048, 4096][ura],
            pos=np.array(v[:3])*[.08, .08, .4],
            vel=np.array(v[3:6])*[.000625, .000625, .004],
            acc=np.array(v[6:9])*[.0000125, .0000125, .0000625],
            af0=v[9]*2**-31, af1=v[10]*2**-40)
        return 9, 0

    def m_degp(self, b):
        r = self.rnd
        o = []
        for n, u in ((10, .002), (10, .002), (10, .00005), (9, 1),
                     (10, .002), (9, 1), (10, .0005), (10, .00005), (9, 1),
                     (6, .5), (10, .001), (9, 1), (10, .000005), (1, 1),
                     (1, 1), (7, .1)):
            x = r.randrange(1 << n)
            b.u(x, n)
            o.append(x*u)
        self.deg = o
        return 10, 0

    def m_alm(self, b):
        r = self.rnd
        k = (self.t+r.randint(-3600, 3600)) % 86400//64
        for _ in range(3):
            p = r.choice([0, r.randint(120, 158)])
            v = [r.randrange(4), p, r.randrange(256)]
            x = [rs(r, n) for n in (15, 15, 9, 3, 3, 4)]
            b.u(v[0], 2).u(p, 8).u(v[2], 8)
            for y, n in zip(x, (15, 15, 9, 3, 3, 4)):
                b.s(y, n)
            if p:
                self.alm[sn('S', p)] = dict(
                    svh=v[2], pos=np.array(x[:3])*[2600, 2600, 26000],
                    vel=np.array(x[3:])*[10, 10, 60], t=tod(self.t, k, 64))
        b.u(k, 11)
        return 17, 0

    def m_gmask(self, b):
        r = self.rnd
        if r.random() < .1:
            self.iodi = (self.iodi+1) % 4
            for x in self.gm:
                if r.random() < .7:
                    self.gm[x] = self.newgm(x)
        k = r.choice(list(self.gm))
        m = self.gm[k]
        b.u(len(self.gm), 4).u(k, 4).u(self.iodi, 2)
        for j in range(201):
            b.u(int(j in m), 1)
        o = self.band.get(k)
        if o is None or o['iodi'] != self.iodi:
            self.band[k] = dict(iodi=self.iodi, m=m, v={}, t=None)
        return 18, 0

    def m_iono(self, b):
        r = self.rnd
        k = r.choice(list(self.gm))
        n = len(self.gm[k])
        blk = r.randrange((n+14)//15)
        iodi = self.iodi
        if self.stale():
            iodi = (iodi+r.randint(1, 3)) % 4
        b.u(k, 4).u(blk, 4)
        o = self.band.get(k)
        ok = o is not None and o['iodi'] == iodi
        for j in range(15):
            v = r.choice([511, r.randrange(512), r.randrange(512)])
            e = r.choice([15, 0, r.randrange(16), r.randrange(16)])
            b.u(v, 9).u(e, 4)
            if ok and blk*15+j < len(o['m']):
                o['v'][o['m'][blk*15+j]] = (v, e)
        b.u(iodi, 2)
        if ok:
            o['t'] = self.t
        return 26, 0

    def m_serv(self, b):
        r = self.rnd
        v = [r.randrange(1 << n) for n in (3, 3, 3, 3, 2, 4, 4)]
        for x, n in zip(v, (3, 3, 3, 3, 2, 4, 4)):
            b.u(x, n)
        q = []
        for _ in range(5):
            x = [r.randint(-90, 90), r.randint(-180, 180), r.randint(-90, 90),
                 r.randint(-180, 180), r.randrange(2)]
            b.s(x[0], 8).s(x[1], 9).s(x[2], 8).s(x[3], 9).u(x[4], 1)
            q.append(x)
        self.si = (v, q)
        return 27, 0

    def m_cov(self, b):
        x, ok = self.p()
        b.u(x, 2)
        for _ in range(2):
            s = self.slot()
            b.u(s, 6)
            C, k = cov(self.rnd, b)
            if ok and 0 < s <= len(self.mask):
                self.cov[self.mask[s-1]] = (C, k)
        return 28, 0

    def m_other(self, b):
        b.u(self.rnd.getrandbits(212), 212)
        return self.rnd.choice([12, 62, 63]), 0

    def verify(self):
        cs = self.cs
        lc = cs.lc[0]
        if self.mask is not None:
            same('IODP', (cs.iodp, cs.iodssr), (self.miodp,)*2)
            same('mask', [int(s) for s in cs.sat], self.mask)
        same('fast corrections', set(lc.hclk), set(self.fast))
        for s, (v, t) in self.fast.items():
            eq('fast correction of %d' % s, lc.hclk[s], v, 1e-9)
            eq('time', g.timediff(lc.t0[s][sCType.HCLOCK], self.time(t)), 0)
        same('UDREI', cs.obad.udrei, self.udrei)
        same('degradation', cs.ai, self.ai)
        same('corrected satellites', {int(s) for s in cs.sat_n},
             set(self.long))
        chkcorr(self, lc)
        for s, (C, k) in self.cov.items():
            eq('covariance of %d' % s, cs.obad.cov[s], C, 1e-9, 1e-12)
            eq('scale', cs.obad.scl[s], k)
        same('covariances', set(cs.obad.cov), set(self.cov))
        if self.seph:
            q = cs.Seph
            same('satellite', int(q.sat), sn('S', self.prn))
            for k in ('pos', 'vel', 'acc', 'af0', 'af1', 'sva'):
                eq('ranging '+k, getattr(q, k), self.seph[k], 1e-15, 1e-12)
            eq('ranging t0', g.timediff(q.t0, self.time(self.seph['t'])), 0)
        if self.deg:
            eq('degradation parameters', cs.deg_prm, self.deg, 1e-12)
        same('almanac', {int(s) for s in cs.Alm}, set(self.alm))
        for s, v in self.alm.items():
            q = cs.Alm[s]
            same('health', q.svh, v['svh'])
            eq('almanac pos', q.pos, v['pos'])
            eq('almanac vel', q.vel, v['vel'])
            eq('almanac t0', g.timediff(q.t0, self.time(v['t'])), 0)
        for k, o in self.band.items():
            same('grid mask %d' % k, list(cs.igp_idx[k]), o['m'])
            for j, m in enumerate(o['m']):
                v, e = o['v'].get(m, (511, 15))
                if e == 15 or v == 511:
                    check(cs.givei[k][j] == 15 or np.isnan(cs.vtec[k][j]),
                          'band %d point %d must not be used', k, m)
                else:
                    eq('GIVEI', cs.givei[k][j], e)
                    eq('delay', cs.vtec[k][j], v*.125)
        if self.si:
            v, q = self.si
            s = cs.sinfo
            same('service', [s.iods, s.nmsg, s.snum, s.nreg, s.priority,
                             s.dUDRE_in, s.dUDRE_out], v)
            eq('regions', np.array([s.lat1, s.lon1, s.lat2, s.lon2,
                                    s.shape]).T, q)


def chkcorr(M, lc):
    if M.ic is not None:
        for k in (sCType.CLOCK, sCType.ORBIT):
            same('mask of corrections', M.cs.iodssr_c[k], M.ic)
    for s, v in M.long.items():
        for k in ('iode', 'dorb', 'dclk', 'dvel', 'ddft'):
            eq('%s of %d' % (k, s), getattr(lc, k)[s], v[k], atol=1e-12)
        for k in (sCType.CLOCK, sCType.ORBIT):
            eq('reference time of %d' % s, g.timediff(
                lc.t0[s][k], M.time(v['t'])), 0)


K1 = ['m_mask', 'm_fast', 'm_fast', 'm_integ', 'm_degr', 'm_mixed',
      'm_mixed', 'm_long', 'm_long', 'm_ranging', 'm_degp', 'm_alm',
      'm_gmask', 'm_gmask', 'm_iono', 'm_iono', 'm_iono', 'm_serv', 'm_cov',
      'm_other']


@st.composite
def hist(draw):
    t = draw(st.integers(0, 604000))
    if draw(st.integers(0, 3)) == 0:
        t = t//86400*86400+draw(st.sampled_from([0, 5, 20, 86390, 86399]))
    return dict(seed=draw(st.integers(0, 2**40)), t=min(t, 604700),
                week=draw(st.integers(1024, 2400)),
                n=draw(st.integers(2, 40)))


def run(c, cl, kinds, first):
    import random
    c = dict(c, rnd=random.Random(c['seed']))
    M = cl(c)
    M.t = c['t']
    for k in range(c['n']):
        M.t = min(M.t+M.rnd.choice([0, 1, 1, 6, 40]), 604799)
        M.cs.time = M.time(M.t)
        if k == 0 and M.rnd.random() < .8:
            kind = first
        else:
            kind = M.rnd.choice(kinds)
        M.send(kind)
        try:
            M.verify()
        except Exception as e:
            e.args = ('after message %d (%s): %s' % (
                k, kind, e.args[0] if e.args else e),)
            raise
    # corrections too old
    tq = M.t+M.rnd.choice([0, 60, 119, 120, 121, 300])
    M.cs.check_validity(M.time(tq))
    lc = M.cs.lc[0]
    for s, v in M.long.items():
        if s not in [int(x) for x in M.cs.sat_n]:
            continue            # not usable
        old = tq-v['t'] > 120
        same('IODE of %d' % s, lc.iode[s], -1 if old else v['iode'])
        eq('orbit', lc.dorb[s], v['dorb']*(not old), atol=1e-12)
        eq('clock', lc.dclk[s], v['dclk']*(not old), atol=1e-12)
    return M


@facet('l1', hist, quick=600, thorough=12000,
       rule='long-term corrections and a grid are held')
def l1(c):
    """after any history the decoder holds what the system sent"""
    M = run(c, L1, K1, 'm_mask')
    return bool(M.long) and bool(M.band)


# ------------------------------------------------------------- L5
def slot5(s):
    for lo, hi, o, c in ((1, 32, 0, 'G'), (38, 69, 37, 'R'),
                         (75, 110, 74, 'E'), (120, 158, 0, 'S'),
                         (159, 195, 158, 'C'), (197, 205, 4, 'J')):
        if lo <= s <= hi:
            return sn(c, s-o)
    return 0


class L5(Sys):
    def __init__(self, c):
        super().__init__(c, 2)
        r = self.rnd
        self.prn = r.randint(120, 158)
        self.all = [s for s in range(1, 215) if slot5(s)]
        self.iodm = r.randrange(4)
        self.nmask = sorted(r.sample(self.all, r.choice([3, 20, 60, 92])))
        self.mask = None
        self.extra = []
        self.long, self.cov, self.dfrei, self.rc = {}, {}, {}, {}
        self.alm = {}
        self.obad = self.obad0 = self.eph1 = self.eph = None
        self.iodg = r.randrange(4)

    def send(self, kind):
        r = self.rnd
        b = Bits()
        mt = getattr(self, kind)(b)
        if b.n != 216:
            raise ValueError(b.n)
        m = Bits().u([5, 12, 6, 9, 3][r.randrange(5)], 4).u(mt, 6).add(b).u(
            r.getrandbits(24), 24)
        self.cs.decode_cssr(m.bytes(), 0, 1, self.prn)

    def m_mask(self, b):
        r = self.rnd
        if r.random() < .2:
            self.iodm = (self.iodm+1) % 4
            self.nmask = sorted(r.sample(self.all, r.choice([3, 20, 92])))
        for s in range(1, 215):
            b.u(int(s in self.nmask), 1)
        b.u(self.iodm, 2)
        self.mask = [slot5(s) for s in self.nmask]
        self.miodm = self.iodm
        self.extra = []
        return 31

    def m_corr(self, b):
        r = self.rnd
        s = r.choice(self.nmask[:3]+[r.choice(self.all), 0, 33, 112, 196,
                                     210, 255])
        iod = r.randrange(1024)
        d = [rs(r, n) for n in (11, 11, 11, 12)]
        e = [rs(r, n) for n in (8, 8, 8, 9)]
        b.u(s, 8).u(iod, 10)
        for v, n in zip(d+e, (11, 11, 11, 12, 8, 8, 8, 9)):
            b.s(v, n)
        k = (self.t+r.randint(-120, 60)) % 86400//16
        b.u(k, 13)
        C, sc = cov(r, b)
        x, y = r.randrange(16), r.randrange(16)
        b.u(x, 4).u(y, 4)
        s = slot5(s)
        if s:
            self.long[s] = dict(
                iode=iod, dorb=-np.array(d[:3])*.0625, dclk=d[3]*.03125,
                dvel=-np.array(e[:3])/2048, ddft=e[3]/4096,
                t=tod(self.t, k, 16))
            self.cov[s] = (C, sc)
            self.dfrei[s] = x
            self.rc[s] = y/15
            self.ic = self.miodm if self.mask is not None else None
            if s not in (self.mask or []) and s not in self.extra:
                self.extra.append(s)
        return 32

    def p(self):
        x = self.iodm
        if self.rnd.random() < .08:
            x = (x+self.rnd.randint(1, 3)) % 4
        return x, self.mask is not None and x == self.miodm

    def m_34(self, b):
        r = self.rnd
        x, ok = self.p()
        n1 = 0
        ch = []
        for k in range(92):
            s = self.mask[k] if ok and k < len(self.mask) else None
            v = 0
            if s is not None:
                v = r.choice([0, 0, 1, 2, 3])
                if v == 1 and n1 == 7:
                    v = 0
                if v == 2 and (s not in self.dfrei or self.dfrei[s] > 13):
                    v = 0
                n1 += v == 1
            ch.append((s, v))
            b.u(v, 2)
        d = [r.randrange(16) for _ in range(7)]
        for v in d:
            b.u(v, 4)
        b.u(0, 2).u(x, 2)
        k = 0
        for s, v in ch:
            if v == 1:
                self.dfrei[s] = d[k]
                k += 1
            elif v == 2:
                self.dfrei[s] += 1
            elif v == 3:
                self.dfrei[s] = 15
        return 34

    def m_35(self, b):
        x, ok = self.p()
        for k in range(53):
            v = self.rnd.randrange(16)
            b.u(v, 4)
            if ok and k < len(self.mask):
                self.dfrei[self.mask[k]] = v
        b.u(0, 2).u(x, 2)
        return 35

    def m_36(self, b):
        x, ok = self.p()
        for k in range(39):
            v = self.rnd.randrange(16)
            b.u(v, 4)
            if ok and k+53 < len(self.mask):
                self.dfrei[self.mask[k+53]] = v
        b.u(0, 58).u(x, 2)
        return 36

    def m_37(self, b):
        r = self.rnd
        v = [r.randrange(1 << n) for n in (6, 6, 6, 7)]
        for x, n in zip(v, (6, 6, 6, 7)):
            b.u(x, n)
        q = []
        for _ in range(6):
            x = [r.randrange(32), r.randrange(256), r.randrange(256)]
            b.u(x[0], 5).u(x[1], 8).u(x[2], 8)
            q.append(x)
        d = [r.randrange(16) for _ in range(15)]
        for x in d:
            b.u(x, 4)
        tid = r.randrange(8)
        b.u(tid, 3).u(0, 2)
        self.obad = (v, q, d, tid)
        return 37

    def m_39(self, b):
        r = self.rnd
        s = r.randint(1, 39)
        self.iodg = r.randrange(4)
        b.u(s, 6).u(self.iodg, 2).u(r.randrange(32), 5)
        v = [rs(r, n) for n in (19, 19, 22, 34, 34, 34, 25, 16)]
        for x, n in zip(v, (19, 19, 22, 34, 34, 34, 25, 16)):
            b.s(x, n)
        sc = np.pi*2**-33
        self.eph1 = dict(
            sat=sn('S', s+119), omg=v[3]*sc, OMG0=v[4]*sc, M0=v[5]*sc,
            af0=v[6]*.02/CL, af1=v[7]*4e-5/CL,
            cuc=v[0]*np.pi*2**-19*1e-4, cus=v[1]*np.pi*2**-19*1e-4,
            idot=v[2]*7/6*np.pi*2**-21*1e-6)
        self.eph = None
        return 39

    def m_40(self, b):
        r = self.rnd
        x = self.iodg
        if r.random() < .2:
            x = r.randrange(4)
        v = [r.randrange(1 << n) for n in (33, 30, 31)]
        b.u(x, 2)
        for y, n in zip(v, (33, 30, 31)):
            b.u(y, n)
        k = (self.t+r.randint(-300, 300)) % 86400//16
        b.u(k, 13)
        C, sc = cov(r, b)
        d, e = r.randrange(16), r.randrange(16)
        b.u(d, 4).u(e, 4)
        if self.eph1 and x == self.iodg:
            self.eph = dict(self.eph1, i0=v[0]*np.pi*2**-33, e=v[1]*2**-30,
                            A=v[2]*.02, t=tod(self.t, k, 16))
            s = self.eph['sat']
            self.cov[s] = (C, sc)
            self.dfrei[s] = d
            self.rc[s] = e/15
        return 40

    def m_47(self, b):
        r = self.rnd
        for _ in range(2):
            s = r.choice([0]+[r.randint(1, 39) for _ in range(3)])
            b.u(s, 6).u(r.randrange(32), 5).u(r.randrange(2), 1)
            v = [r.randrange(1 << n) for n in (16, 8, 13)]
            v += [r.randint(-(1 << n-1), (1 << n-1)-1) for n in (14, 14, 8)]
            v.append(r.randrange(1 << 15))
            for x, n in zip(v[:3], (16, 8, 13)):
                b.u(x, n)
            for x, n in zip(v[3:6], (14, 14, 8)):
                b.s(x, n)
            k = (self.t+r.randint(-7200, 7200)) % 86400//1800
            b.u(v[6], 15).u(k, 6)
            if s:
                self.alm[sn('S', s+119)] = dict(
                    A=v[0]*650, e=v[1]/256, i0=v[2]*np.pi/2**13,
                    omg=v[3]*np.pi/2**13, OMG0=v[4]*np.pi/2**13,
                    OMGd=v[5]*1e-9, M0=v[6]*np.pi/2**14,
                    t=tod(self.t, k, 1800))
        b.u(r.randrange(16), 4)
        return 47

    def m_other(self, b):
        b.u(self.rnd.getrandbits(216), 216)
        return self.rnd.choice([42, 62, 63])

    def verify(self):
        cs = self.cs
        lc = cs.lc[0]
        if self.mask is not None:
            same('IODM', (cs.iodm, cs.iodssr), (self.miodm,)*2)
        same('satellites', [int(s) for s in cs.sat_n],
             (self.mask or [])+self.extra)
        same('corrected satellites', {int(s) for s in lc.iode},
             set(self.long))
        chkcorr(self, lc)
        for s, (C, k) in self.cov.items():
            eq('covariance of %d' % s, cs.obad.cov[s], C, 1e-9, 1e-12)
            eq('scale', cs.obad.scl[s], k)
        same('covariances', set(cs.obad.cov), set(self.cov))
        same('DFREI', {int(k): int(v) for k, v in cs.obad.dfrei.items()},
             self.dfrei)
        same('dRcorr', set(cs.obad.dRcorr), set(self.rc))
        for s, v in self.rc.items():
            eq('dRcorr', cs.obad.dRcorr[s], v, 1e-12)
        if self.obad:
            v, q, d, tid = self.obad
            o = cs.obad
            eq('Cer, Ccov', [o.Cer, o.Ccov], [v[2]*.5, v[3]*.1], 1e-12)
            # resolution; lower limit of the ranges not judged
            eq('validity', o.dt_mt32-o.dt_mt39, (v[0]-v[1])*6)
            for j, s in enumerate('GRECSJ'):
                y = gen.SYS[s]
                eq('Icorr', o.Icorr[y]-o.Icorr[gen.SYS['G']],
                   (q[j][0]-q[0][0])*6)
                eq('Ccorr, Rcorr', [o.Ccorr[y], o.Rcorr[y]],
                   [q[j][1]*.01, q[j][2]*.2], 1e-12)
            eq('DFREI table', o.dfrei_tbl[:15], np.array(d)*[
                .0625, .125, .125, .125, .125, .25, .25, .25, .25, .25, .5,
                .5, 1, 3, 6], 1e-12)
            same('time reference', o.tid, tid)
        if self.eph:
            q = cs.Eph
            same('satellite', int(q.sat), self.eph['sat'])
            for k, v in self.eph.items():
                if k == 't':
                    eq('toe', g.timediff(q.toe, self.time(v)), 0)
                    eq('toc', g.timediff(q.toc, self.time(v)), 0)
                else:
                    eq('ephemeris '+k, getattr(q, k), v, 0, 1e-9)
        same('almanac', {int(s) for s in cs.Alm}, set(self.alm))
        for s, a in self.alm.items():
            for k, v in a.items():
                if k == 't':
                    eq('toa', g.timediff(cs.Alm[s].toa, self.time(v)), 0)
                elif k == 'M0':
                    eq('almanac M0', np.remainder(
                        cs.Alm[s].M0-v+1, 2*np.pi), 1, 1e-9)
                else:
                    eq('almanac '+k, getattr(cs.Alm[s], k), v, 0, 1e-9)


K5 = ['m_mask', 'm_corr', 'm_corr', 'm_corr', 'm_34', 'm_34', 'm_35', 'm_36',
      'm_37', 'm_39', 'm_40', 'm_40', 'm_47', 'm_other']


@facet('l5', hist, quick=600, thorough=12000,
       rule='corrections of two satellites are held')
def l5(c):
    M = run(c, L5, K5, 'm_mask')
    return len(M.long) > 1


# -------------------------------------------------------- ionosphere
@st.composite
def grid(draw):
    return dict(seed=draw(st.integers(0, 2**40)),
                lat=draw(st.one_of(st.floats(-84, 84), st.floats(-84, 84),
                                   st.floats(-84, 84),
                                   st.floats(73, 87), st.floats(-87, -73))),
                lon=draw(st.floats(-180, 180)),
                az=draw(st.floats(0, 6.28)), el=draw(st.floats(.06, 1.57)),
                p=draw(st.sampled_from([0, 0, .1, .3])),
                lo=draw(st.integers(0, 3)) == 0,
                dt=draw(st.integers(0, 600)),
                week=draw(st.integers(1024, 2400)))


@facet('iono', grid, quick=800, thorough=15000,
       rule='the delay is interpolated in the grid')
def iono(c):
    """the slant delay comes from the monitored points around the pierce
    point; a delay linear in latitude and longitude is reproduced"""
    import random
    rnd = random.Random(c['seed'])
    lat, lon = c['lat'], c['lon']
    if c['lo']:         # around the date line, grid lines
        lon = rnd.choice([-180, 180, 179.9, -179.9, 175, 0, 40])+0.0
        lat = round(lat/5)*5.0
        if c['seed'] % 3 == 0:      # south pole, offset of the points
            lat, lon = -80.0, rnd.choice([42, 48, -47, 133, -137])+0.0
    pos = np.array([np.deg2rad(lat), np.deg2rad(lon), 50.0])
    # pierce point at 350 km
    psi = np.pi/2-c['el']-np.arcsin(6378.1363/6728.1363*np.cos(c['el']))
    pl = np.arcsin(np.sin(pos[0])*np.cos(psi) +
                   np.cos(pos[0])*np.sin(psi)*np.cos(c['az']))
    plon = pos[1]+np.arctan2(
        np.sin(psi)*np.sin(c['az'])*np.cos(pos[0]),
        np.cos(psi)-np.sin(pos[0])*np.sin(pl))
    F = 1/np.sqrt(1-(6378.1363*np.cos(c['el'])/6728.1363)**2)
    pl, plon = np.rad2deg(pl), np.rad2deg(plon)
    plon = (plon+180) % 360-180
    if abs(pl) > 84.999:
        return False
    hi = abs(pl) >= 75
    # points of 85 deg are 90 deg apart, from 180 W (N) and 140 W (S)
    o = 0 if pl > 0 else 40
    x85 = np.floor((plon-o)/90)*90+o
    cs = sbasDec()
    t0 = g.gpst2time(c['week'], 3000)
    cs.time = t0
    t = g.timeadd(t0, c['dt'])
    # delay field around the pierce point, LSB 0.125 m
    a = rnd.randint(100, 300)
    kx, ky = rnd.randint(-2, 2), rnd.randint(-2, 2)     # per 5 deg
    if hi:      # points of 85 deg are used as the corners of the cell
        kx = 0

    def field(y, x):
        d = (x-plon+180) % 360-180
        x0 = np.floor(plon/5)*5
        e = (x-x0+180) % 360-180
        return a+(y-np.floor(pl/5)*5)/5*ky+e/5*kx, d

    used = {}
    miss = set()
    rl = list(IGP)
    rnd.shuffle(rl)
    if hi and c['seed'] % 2:
        rl = [b for b in rl if b < 9]
    for b in rl:
        ok = []
        for j, (y, x) in enumerate(IGP[b]):
            v, d = field(y, x)
            if abs(y) == 85 and c['p'] and (x-x85+180) % 360-180 not in (
                    0, 90):
                continue
            if abs(y-pl) < 25 and (abs(d) < 25 or hi and abs(d) < 100):
                ok.append((j, y, x, v))
        if not ok:
            continue
        m = [o for o in ok if rnd.random() >= c['p']/2]
        if not m:
            continue
        M = Bits().u(1, 4).u(b, 4).u(1, 2)
        idx = {o[0] for o in m}
        for j in range(201):
            M.u(int(j in idx), 1)
        cs.decode_cssr(Bits().u(0x53, 8).u(18, 6).add(M).pad(250).bytes(),
                       0, 0, 120)
        for blk in range((len(m)+14)//15):
            M = Bits().u(b, 4).u(blk, 4)
            if rnd.random() < c['p']/3:
                continue        # block not received
            for o in (m[blk*15:blk*15+15]+[None]*15)[:15]:
                if o is None:
                    M.u(rnd.randrange(512), 9).u(rnd.randrange(16), 4)
                elif rnd.random() < c['p']:
                    M.u(*rnd.choice([(511, 9), (510, 9)]))
                    M.u(15, 4)
                else:
                    M.u(int(o[3]), 9).u(rnd.randrange(15), 4)
                    used.setdefault((o[1], o[2]), []).append(b)
            cs.decode_cssr(Bits().u(0x53, 8).u(26, 6).add(M.u(1, 2)).pad(
                250).bytes(), 0, 0, 120)
    r = ionoSBAS(t, pos, c['az'], c['el'], cs)
    d, var = r
    check(var >= 0, 'variance %r', var)
    # the cell used: 5 deg between +-55, else 10 deg
    if -55 <= pl < 55:
        h, y0, x0 = 5, np.floor(pl/5)*5, np.floor(plon/5)*5
    else:
        h, y0, x0 = 10, np.floor((pl-5)/10)*10+5, np.floor(plon/10)*10
    edge = min(abs(pl-y0), abs(pl-y0-h), abs(plon-x0), abs(plon-x0-h)) < 1e-4
    cor = [(y, (x+180) % 360-180) for y in (y0, y0+h) for x in (x0, x0+h)]
    if hi:
        edge = edge or min(plon-x85, x85+90-plon) < 1e-4
        cor = [(y, ((x0 if abs(y) == 75 else x85)+k*(
            h if abs(y) == 75 else 90)+180) % 360-180)
            for y in (y0, y0+h) for k in (0, 1)]
    n = sum(k in used for k in cor)
    exp = (a+(pl-np.floor(pl/5)*5)/5*ky+(
        plon-np.floor(plon/5)*5)/5*kx)*.125*F
    if d != 0:
        eq('delay at (%.3f,%.3f)' % (pl, plon), d, exp, atol=1e-6)
        check(edge or n >= 3, 'delay without enough points')
    elif not edge:
        if n == 4:
            check(False, 'no delay, all points available')
        if n == 3 and not hi:
            # is the pierce point inside of the triangle?
            miss = [k for k in cor if k not in used][0]
            fx, fy = (plon-x0)/h, (pl-y0)/h
            if miss[1] != (x0+180) % 360-180:
                fx = 1-fx
            if miss[0] != y0:
                fy = 1-fy
            # distance from the missing corner
            check(fx+fy < 1+1e-4, 'no delay, inside of three points')
    if n < 4 and not edge and n == 3 and d != 0 and not hi:
        miss = [k for k in cor if k not in used][0]
        fx, fy = (plon-x0)/h, (pl-y0)/h
        if miss[1] != (x0+180) % 360-180:
            fx = 1-fx
        if miss[0] != y0:
            fy = 1-fy
        check(fx+fy > 1-1e-4, 'delay outside of the three points')
    # use in the positioning
    nav = g.Nav()
    v = ionmodel(t, pos, c['az'], c['el'], nav, uIonoModel.SBAS, cs)
    if d != 0:
        eq('model', v, d)
    else:
        eq('model without grid', v, ionKlobuchar(t, pos, c['az'], c['el'],
                                                 nav.ion))
    eq('below the horizon', ionoSBAS(t, pos, c['az'], -.1, cs)[0], 0)
    return bool(d != 0)
