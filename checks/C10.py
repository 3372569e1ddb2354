"""C10 Compact SSR (CLAS) messages, L6 framing and local interpolation"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from vlib import gen
from vlib.bits import Bits, getu
from vlib.local import nearest_points, zenith, slant
from vlib.cssrenc import (GN, SIG, qual, ri, sv, mask, mask_sats, put_mask,
                          rsig)
from cssrlib import gnss as g
from cssrlib.cssrlib import cssr, cssre, sCType

SCALE = 10
UNSET = object()
STS = [4, 4, 5, 7]
STL = [0.04, 0.12, 0.16, 0.24]
NID = [1, 2, 7]
GRID = [(1, 1, 24.5, 124.1), (1, 2, 24.7, 124.4), (2, 1, 35.0, 136.0),
        (2, 2, 35.5, 136.0), (2, 3, 35.0, 136.6), (2, 4, 35.5, 136.6),
        (7, 1, -36.2, 140.1)]


def mkgrid(rows):
    return np.array([(n, k, la, lo, 0.0) for n, k, la, lo in rows],
                    dtype=[('nid', '<i4'), ('gid', '<i4'), ('lat', '<f8'),
                           ('lon', '<f8'), ('alt', '<f8')])


def sno(c, p):
    return int(g.prn2sat(gen.SYS[c], p))


@st.composite
def history(draw):
    """messages with raw fields, grouped into decoder calls"""
    tow = draw(st.integers(0, 604000))
    iod = draw(st.integers(0, 15))
    m = draw(mask())
    bufs = []
    rnd = draw(st.randoms(use_true_random=False))
    first = True
    for _ in range(draw(st.integers(1, 4))):
        msgs = []
        for k in range(rnd.randint(1, 5)):
            nt = min(tow+rnd.randint(0, 5), 604799)
            if nt//3600 != tow//3600:   # the mask tells the hour
                nt = tow
            tow = nt
            h = [tow, rnd.randint(0, 15), rnd.randint(0, 1)]
            if first or rnd.random() < 0.12:
                if not first:
                    if rnd.random() < 0.6:
                        iod = (iod+1) % 16
                        m = draw(mask())
                msgs.append(dict(st=1, h=h, iod=iod, m=m))
                first = False
                continue
            sats = mask_sats(m)
            n = len(sats)
            t = rnd.choice([2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 11, 11, 12, 12,
                            12])
            d = dict(st=t, h=h, iod=iod)
            if t in (7, 8, 9, 11, 12) and rnd.random() < 0.08:
                d['iod'] = (iod+rnd.randint(1, 15)) % 16

            def orb(s):
                return [rnd.randint(0, 1023 if s[1] == 'E' else 255),
                        ri(rnd, 15), ri(rnd, 13), ri(rnd, 13)]

            def msk(p=0.7):
                return [int(rnd.random() < p) for _ in range(n)]
            if t == 2:
                d['orb'] = [orb(s) for s in sats]
            elif t == 3:
                d['clk'] = [ri(rnd, 15) for _ in sats]
            elif t == 4:
                d['cb'] = [[ri(rnd, 11) for _ in s[3]] for s in sats]
            elif t == 5:
                d['pb'] = [[[ri(rnd, 15), rnd.randint(0, 3)] for _ in s[3]]
                           for s in sats]
            elif t == 6:
                d['f'] = [rnd.randint(0, 1) for _ in range(3)]
                d['net'] = rnd.choice(NID+[19, 31])
                d['sv'] = msk()
                d['cb'] = [[ri(rnd, 11) for _ in s[3]] for s in sats]
                d['pb'] = [[[ri(rnd, 15), rnd.randint(0, 3)] for _ in s[3]]
                           for s in sats]
            elif t == 7:
                d['q'] = [rnd.randint(0, 63) for _ in sats]
            elif t in (8, 9, 12):
                d['net'] = rnd.choice(NID+([30] if rnd.random() < .1 else []))
                d['sv'] = msk()
                d['q'] = [rnd.randint(0, 63) for _ in sats]
                d['typ'] = [rnd.randint(0, 3) for _ in sats]
                d['c'] = [[ri(rnd, 14), ri(rnd, 12), ri(rnd, 12),
                           ri(rnd, 10), ri(rnd, 8), ri(rnd, 8)]
                          for _ in sats]
                d['tq'] = rnd.randint(0, 63)
                d['ng'] = ng = rnd.randint(1, 5)
                d['tt'] = rnd.randint(0, 3)
                if t == 9:
                    d['rng'] = rnd.randint(0, 1)
                    d['trop'] = [[ri(rnd, 9), ri(rnd, 8)] for _ in range(ng)]
                    d['dst'] = [[ri(rnd, 16 if d['rng'] else 7)
                                 for _ in range(ng)] for _ in sats]
                if t == 12:
                    d['f'] = [rnd.randint(0, 3), rnd.randint(0, 3)]
                    d['t'] = [ri(rnd, 9), ri(rnd, 7), ri(rnd, 7), ri(rnd, 7)]
                    d['sz'] = rnd.randint(0, 1)
                    d['of'] = rnd.randint(0, 15)
                    d['tr'] = [ri(rnd, 8 if d['sz'] else 6)
                               for _ in range(ng)]
                    d['si'] = [rnd.randint(0, 3) for _ in sats]
                    d['dst'] = [[ri(rnd, STS[k]) for _ in range(ng)]
                                for k in d['si']]
            elif t == 10:
                d['cnt'] = rnd.randint(0, 7)
                d['data'] = [rnd.getrandbits(40) for _ in
                             range(rnd.randint(1, 4))]
            elif t == 11:
                d['f'] = [rnd.randint(0, 1) for _ in range(3)]
                d['net'] = rnd.choice(NID)
                d['sv'] = msk()
                d['orb'] = [orb(s) for s in sats]
                d['clk'] = [ri(rnd, 15) for _ in sats]
            msgs.append(d)
            if d['iod'] != iod:
                break
        bufs.append(msgs)
    return dict(bufs=bufs, log=draw(st.booleans()),
                week=draw(st.integers(1000, 2400)))


def encode(b, d, m):
    sats = mask_sats(m)
    t = d['st']
    b.u(4073, 12).u(t, 4)
    if t == 10:
        b.u(d['h'][2], 1).u(d['cnt'], 3).u(len(d['data'])-1, 2)
        for x in d['data']:
            b.u(x, 40)
        return
    if t == 1:
        b.u(d['h'][0], 20)
    else:
        b.u(d['h'][0] % 3600, 12)
    b.u(d['h'][1], 4).u(d['h'][2], 1).u(d['iod'], 4)

    def orb(s, o):
        b.u(o[0], 10 if s[1] == 'E' else 8).s(o[1], 15).s(o[2], 13)
        b.s(o[3], 13)

    def bits(v):
        for x in v:
            b.u(x, 1)

    def poly(k, c):
        b.s(c[0], 14)
        if k > 0:
            b.s(c[1], 12).s(c[2], 12)
        if k > 1:
            b.s(c[3], 10)
        if k > 2:
            b.s(c[4], 8).s(c[5], 8)
    if t == 1:
        b.u(len(d['m']), 4)
        put_mask(b, d['m'])
    elif t == 2:
        for s, o in zip(sats, d['orb']):
            orb(s, o)
    elif t == 3:
        for x in d['clk']:
            b.s(x, 15)
    elif t == 4:
        for r in d['cb']:
            for x in r:
                b.s(x, 11)
    elif t == 5:
        for r in d['pb']:
            for x, y in r:
                b.s(x, 15).u(y, 2)
    elif t == 6:
        bits(d['f'])
        if d['f'][2]:
            b.u(d['net'], 5)
            bits(d['sv'])
        for k in range(len(sats)):
            if d['f'][2] and not d['sv'][k]:
                continue
            for x, (y, z) in zip(d['cb'][k], d['pb'][k]):
                if d['f'][0]:
                    b.s(x, 11)
                if d['f'][1]:
                    b.s(y, 15).u(z, 2)
    elif t == 7:
        for x in d['q']:
            b.u(x, 6)
    elif t == 8:
        k = d['typ'][0] if d['typ'] else 0
        b.u(k, 2).u(d['net'], 5)
        bits(d['sv'])
        for i, s in enumerate(d['sv']):
            if s:
                b.u(d['q'][i], 6)
                poly(k, d['c'][i])
    elif t == 9:
        b.u(d['tt'], 2).u(d['rng'], 1).u(d['net'], 5)
        bits(d['sv'])
        b.u(d['tq'], 6).u(d['ng'], 6)
        for j in range(d['ng']):
            if d['tt']:
                b.s(d['trop'][j][0], 9).s(d['trop'][j][1], 8)
            for i, s in enumerate(d['sv']):
                if s:
                    b.s(d['dst'][i][j], 16 if d['rng'] else 7)
    elif t == 11:
        bits(d['f'])
        if d['f'][2]:
            b.u(d['net'], 5)
            bits(d['sv'])
        for k, s in enumerate(sats):
            if d['f'][2] and not d['sv'][k]:
                continue
            if d['f'][0]:
                orb(s, d['orb'][k])
            if d['f'][1]:
                b.s(d['clk'][k], 15)
    elif t == 12:
        b.u(d['f'][0], 2).u(d['f'][1], 2).u(d['net'], 5).u(d['ng'], 6)
        if d['f'][0]:
            b.u(d['tq'], 6)
        if d['f'][0] & 2:
            b.u(d['tt'] % 3, 2).s(d['t'][0], 9)
            if d['tt'] % 3 > 0:
                b.s(d['t'][1], 7).s(d['t'][2], 7)
            if d['tt'] % 3 > 1:
                b.s(d['t'][3], 7)
        if d['f'][0] & 1:
            b.u(d['sz'], 1).u(d['of'], 4)
            for x in d['tr']:
                b.s(x, 8 if d['sz'] else 6)
        bits(d['sv'])
        for i, s in enumerate(d['sv']):
            if not s:
                continue
            if d['f'][1]:
                b.u(d['q'][i], 6)
            if d['f'][1] & 2:
                b.u(d['typ'][i], 2)
                poly(d['typ'][i], d['c'][i])
            if d['f'][1] & 1:
                b.u(d['si'][i], 2)
                for x in d['dst'][i]:
                    b.s(x, STS[d['si'][i]])


class Model:
    def __init__(self, week):
        self.week = week
        self.m = []
        self.iod = self.iodp = None
        self.prev = []
        self.lc = {}
        self.iodc = {}
        self.stat = {}
        self.udi = {}
        self.t0 = {}
        self.si = bytearray(160)
        self.tow = None

    def net(self, n):
        return self.lc.setdefault(n, {})

    def mark(self, n, typ, sats, tow):
        self.stat[n] = self.stat.get(n, 0) | (1 << typ)
        for s in sats:
            self.t0[(n, s, typ)] = tow

    def poly(self, k, c):
        x = np.zeros(6)
        n = [1, 3, 4, 6][k]
        w = [14, 12, 12, 10, 8, 8]
        q = [.05, .02, .02, .02, .005, .005]
        for i in range(n):
            x[i] = sv(c[i], w[i], q[i])
        return x

    def apply(self, d):
        """False when the message belongs to another mask"""
        t = d['st']
        if t == 10:
            j = len(d['data'])*5*d['cnt']
            self.si[j:j+5*len(d['data'])] = b''.join(
                x.to_bytes(5, 'big') for x in d['data'])
            return True
        tow = self.tow = d['h'][0]
        if t == 1:
            if self.iod != d['iod']:
                self.prev, self.iodp = self.m, self.iod
            self.m, self.iod = d['m'], d['iod']
            self.stat[0] = self.stat.get(0, 0) | 1
            return True
        if t in (7, 8, 9, 11, 12) and d['iod'] != self.iod:
            return False
        S = mask_sats(self.m)
        no = [sno(c, p) for _, c, p, _ in S]

        def sg(s, typ):
            return [rsig(s[1], x, typ) for x in s[3]]

        def orb(o):
            return np.array([sv(o[1], 15, .0016), sv(o[2], 13, .0064),
                             sv(o[3], 13, .0064)])
        n = 0
        sel = range(len(S))
        if t in (8, 9, 12) or (t in (6, 11) and d['f'][2]):
            n = d['net']
            sel = [i for i in sel if d['sv'][i]]
        L = self.net(n)
        ids = [no[i] for i in sel]
        u = d['h'][1]
        if t == 2 or (t == 11 and d['f'][0]):
            L['dorb'] = {no[i]: orb(d['orb'][i]) for i in sel}
            L['iode'] = {no[i]: d['orb'][i][0] for i in sel}
            self.mark(n, sCType.ORBIT, ids, tow)
            self.udi[sCType.ORBIT] = u
            if t == 2:
                self.iodc[sCType.ORBIT] = d['iod']
        if t == 3 or (t == 11 and d['f'][1]):
            L['dclk'] = {no[i]: sv(d['clk'][i], 15, .0016) for i in sel}
            self.mark(n, sCType.CLOCK, ids, tow)
            self.udi[sCType.CLOCK] = u
            if t == 3:
                self.iodc[sCType.CLOCK] = d['iod']
        if t == 4 or (t == 6 and d['f'][0]):
            L['cbias'] = {no[i]: {s: sv(x, 11, .02) for s, x in zip(
                sg(S[i], 'C'), d['cb'][i])} for i in sel}
            self.stat[n] = self.stat.get(n, 0) | (1 << sCType.CBIAS)
            self.iodc[sCType.CBIAS] = d['iod']
            self.udi[sCType.CBIAS] = u
        if t == 5 or (t == 6 and d['f'][1]):
            L['pbias'] = {no[i]: {s: sv(x, 15, .001) for s, (x, _) in zip(
                sg(S[i], 'L'), d['pb'][i])} for i in sel}
            L['di'] = {no[i]: {s: y for s, (_, y) in zip(
                sg(S[i], 'L'), d['pb'][i])} for i in sel}
            self.stat[n] = self.stat.get(n, 0) | (1 << sCType.PBIAS)
            self.iodc[sCType.PBIAS] = d['iod']
            self.udi[sCType.PBIAS] = u
        if t == 6 and d['f'][2] or t in (8, 9, 12):
            L['sat_n'] = ids
        if t == 7:
            L['ura'] = {a: qual(q) for a, q in zip(no, d['q'])}
            self.stat[0] |= 1 << sCType.URA
        if t == 8:
            k = d['typ'][0] if d['typ'] else 0
            L['ci'] = {no[i]: self.poly(k, d['c'][i]) for i in sel}
            L['stec_quality'] = {no[i]: qual(d['q'][i]) for i in sel}
            L['flg_stec'] = 2
            self.mark(n, sCType.STEC, ids, tow)
        if t == 9:
            L['ng'] = d['ng']
            L['trop_quality'] = qual(d['tq'])
            w = 16 if d['rng'] else 7
            L['dstec'] = {no[i]: [sv(x, w, .04) for x in d['dst'][i]]
                          for i in sel}
            z = [[0, 0]]*d['ng']
            if d['tt']:
                z = [[sv(a, 9, .004), sv(b, 8, .004)] for a, b in d['trop']]
            L['dth'] = [a for a, _ in z]
            L['dtw'] = [b for _, b in z]
            L['ct'] = np.array([[2.3, 0, 0, 0], [.252, 0, 0, 0]])
            L['flg_trop'] = 3 if d['tt'] else 0
            L['flg_stec'] = L.get('flg_stec', 0) | 1
            self.mark(n, sCType.TROP, ids, tow)
            L['maptow'] = tow
        if t == 12:
            a, b = d['f']
            L['ng'] = d['ng']
            L['flg_trop'], L['flg_stec'] = a, b
            ct = np.zeros((2, 4))
            if a:
                L['trop_quality'] = qual(d['tq'])
                L['maptow'] = tow
                self.stat[n] = self.stat.get(n, 0) | (1 << sCType.TROP)
            if a & 2:
                k = d['tt'] % 3
                ct[0, 0] = 2.3+sv(d['t'][0], 9, .004)
                if k > 0:
                    ct[0, 1] = sv(d['t'][1], 7, .002)
                    ct[0, 2] = sv(d['t'][2], 7, .002)
                if k > 1:
                    ct[0, 3] = sv(d['t'][3], 7, .001)
            if a & 1:
                ct[1, 0] = d['of']*.02
                L['dtw'] = [sv(x, 8 if d['sz'] else 6, .004)
                            for x in d['tr']]
            L['ct'] = ct
            L['stec_quality'] = {no[i]: qual(d['q'][i]) for i in sel} \
                if b else {}
            if b & 2:
                L['ci'] = {no[i]: self.poly(d['typ'][i], d['c'][i])
                           for i in sel}
            if b & 1:
                L['dstec'] = {no[i]: [sv(x, STS[d['si'][i]],
                                         STL[d['si'][i]])
                                      for x in d['dst'][i]] for i in sel}
            if b:
                self.mark(n, sCType.STEC, ids, tow)
            else:
                for i in ids:
                    self.t0.pop((n, i, sCType.STEC), None)
        return True


def deep(what, got, exp):
    if isinstance(exp, dict):
        check(isinstance(got, dict) and set(got) == set(exp),
              '%s: %r instead of %r', what, got, exp)
        for k in exp:
            deep('%s[%s]' % (what, k), got[k], exp[k])
    else:
        eq(what, got, exp, atol=1e-9)


@facet('messages', history, quick=350, thorough=6000,
       rule='at least four messages of three types were applied')
def messages(c):
    fn = None
    if c['log']:
        fd, fn = tempfile.mkstemp()
        os.close(fd)
    try:
        cs = cssr(fn)
        cs.monlevel = 1 if fn else 0
        cs.grid = mkgrid(GRID)
        cs.week = c['week']
        M = Model(c['week'])
        types = []
        for msgs in c['bufs']:
            b = Bits()
            alive = True
            for d in msgs:
                m = d['m'] if d['st'] == 1 else \
                    ([] if M.iod is None else M.m)
                encode(b, d, m)
                if alive:
                    alive = M.apply(d)
                    if alive:
                        types.append(d['st'])
            cs.decode_cssr(b.bytes()+bytes(64), 0)
            verify(cs, M)
        if fn:
            cs.fh.close()
            check(os.path.getsize(fn) > 0, 'empty log file')
    finally:
        if fn:
            os.unlink(fn)
    return len(types) >= 4 and len(set(types)) >= 3


def verify(cs, M):
    S = mask_sats(M.m)
    no = [sno(x[1], x[2]) for x in S]
    same('satellites', [int(x) for x in cs.sat_n], no)
    same('number of satellites', cs.nsat_n, len(no))
    same('systems', list(cs.sys_n), [gen.SYS[x[1]] for x in S])
    for s, x in zip(no, S):
        same('signals of %s%d' % (x[1], x[2]),
             [q.toTyp(g.uTYP.L) for q in cs.sig_n[s]],
             [rsig(x[1], q, 'L') for q in x[3]])
    same('IOD SSR', cs.iodssr, M.iod)
    if M.iodp is not None:
        same('previous IOD SSR', cs.iodssr_p, M.iodp)
        same('previous satellites', [int(x) for x in cs.sat_n_p],
             [sno(x[1], x[2]) for x in mask_sats(M.prev)])
    for k, v in M.iodc.items():
        same('IOD of %s' % k.name, int(cs.iodssr_c[k]), v)
    for k, v in M.udi.items():
        same('update interval %s' % k.name, int(cs.udi[k]), v)
    same('service information', bytes(cs.sinfo), bytes(M.si))
    for n, L in M.lc.items():
        lc = cs.lc[n]
        for k, v in L.items():
            if k == 'maptow':
                if n in NID:
                    la = [x[2] for x in GRID if x[0] == n][0]
                    h, w = g.mapfParam(g.gpst2time(M.week, v),
                                       np.deg2rad(la))
                    eq('mapping function', lc.maph, h, rtol=1e-12)
                    eq('mapping function (wet)', lc.mapw, w, rtol=1e-12)
                continue
            if k in ('sat_n', 'flg_trop', 'flg_stec', 'ng'):
                same('lc[%d].%s' % (n, k), getattr(lc, k), v)
            else:
                deep('lc[%d].%s' % (n, k), getattr(lc, k), v)
        if 'sat_n' in L:
            same('lc[%d].nsat_n' % n, lc.nsat_n, len(L['sat_n']))
    for n, v in M.stat.items():
        same('status of network %d' % n, int(cs.lc[n].cstat), v)
    for (n, s, k), tow in M.t0.items():
        eq('reference time of %s' % k.name, g.timediff(
            cs.lc[n].t0[s][k], g.gpst2time(M.week, tow)), 0, atol=1e-6)
    eq('time', g.timediff(cs.time, g.gpst2time(M.week, M.tow)), 0, atol=1e-6)


# ------------------------------------------------------------- L6 frames

FAC = [[0, 2, 1, 3], [2, 0, 3, 1]]


@st.composite
def frames(draw):
    rnd = draw(st.randoms(use_true_random=False))
    vendor = draw(st.sampled_from([5, 5, 2]))
    out = []
    fac, pt = rnd.randint(0, 3), rnd.randint(0, 1)
    for _ in range(draw(st.integers(1, 5))):
        if rnd.random() < 0.25:
            fac, pt = rnd.randint(0, 3), rnd.randint(0, 1)
        for k in range(5):
            x = rnd.random()
            if x < 0.08:
                continue
            out.append([int(k == 0), fac, pt, rnd.getrandbits(32),
                        int(x > 0.97), rnd.randint(0, 3)])
    return dict(v=vendor, f=out)


@facet('L6 frames', frames, quick=150, thorough=3000,
       rule='a complete subframe was assembled')
def l6(c):
    cs = cssr()
    cur = None
    fac = -1
    n = 0
    for sid, f, pt, seed, bad, o in c['f']:
        data = int.from_bytes(np.random.RandomState(seed).bytes(212),
                              'big') >> 1
        b = Bits()
        b.u(0x1acffc1d ^ (4 if bad else 0), 32)
        b.u(193, 8).u(c['v'], 3).u(f, 2).u(pt, 2).u(sid, 1).u(0, 1)
        b.u(data, 1695).u(0x5a, 256)
        cs.decode_l6msg(bytes([0xee]*o)+b.bytes(), o)
        if bad:
            continue
        q = FAC[pt][f] if c['v'] == 5 else f
        if sid:
            cur = []
        if fac >= 0 and q != fac:
            cur = None
        fac = q
        if cur is not None:
            cur.append(data)
            if len(cur) <= 5:
                same('messages of the subframe', cs.fcnt, len(cur))
                same('facility', cs.facility, q)
                for k, d in enumerate(cur):
                    check(getu(bytes(cs.buff), 1695*k, 1695) == d,
                          'data part %d differs', k)
                n += len(cur) == 5
            elif len(cur)*1695 > 20000:
                cur = None
        else:
            check(cs.fcnt < 0, 'subframe assembled from fragments')
    return n > 0


# ------------------------------------------------------------- local use

@st.composite
def local(draw):
    rnd = draw(st.randoms(use_true_random=False))
    nets = []
    for k in range(draw(st.integers(1, 3))):
        n = rnd.randint(1, 9)
        la0, lo0 = 25+4*k+rnd.random(), 125+5*k+rnd.random()
        if rnd.random() < 0.5:
            w = 3
            pts = [[round(la0+.55*(j//w), 2), round(lo0+.6*(j % w), 2)]
                   for j in range(n)]
        else:
            pts = [[round(la0+rnd.uniform(0, 1.6), 2),
                    round(lo0+rnd.uniform(0, 1.9), 2)] for _ in range(n)]
        nets.append([rnd.randint(1, 10)+10*k, pts])
    i = rnd.randrange(len(nets))
    p = rnd.choice(nets[i][1])
    near = rnd.random() < 0.2
    w = 0.02 if near else 0.7
    pos = [p[0]+rnd.uniform(-w, w), p[1]+rnd.uniform(-w, w)]
    return dict(nets=nets, pos=pos, mask=draw(mask(maxsat=4)),
                seed=rnd.getrandbits(30), old=draw(st.booleans()),
                tr=draw(st.sampled_from([0, 2, 3, 3, 3])),
                stc=draw(st.integers(0, 3)), file=draw(st.booleans()))


@facet('local', local, quick=350, thorough=6000,
       rule='interpolated between several grid points')
def localf(c):
    cs = cssr()
    rows = [(n, k+1, p[0], p[1]) for n, pts in c['nets']
            for k, p in enumerate(pts)]
    if c['file']:
        fd, fn = tempfile.mkstemp()
        with os.fdopen(fd, 'w') as f:
            f.write('<Compact Network ID>  <GRID No.> <Lat> <Lon> <Hgt>\n')
            for r in rows:
                f.write('%3d %3d %8.2f %8.2f %8.3f\n' % (r+(0.0,)))
        cs.read_griddef(fn)
        os.unlink(fn)
        if cs.grid.ndim == 0:
            cs.grid = np.atleast_1d(cs.grid)
    else:
        cs.grid = mkgrid(rows)
    la, lo = c['pos']
    pos = np.array([np.deg2rad(la), np.deg2rad(lo), 20.0])
    q = nearest_points(rows, la, lo)
    if q is None:
        return False
    net, ix, sel, d, sure = q
    got = cs.find_grid_index(pos)
    same('network', int(got), net)
    gi = [int(x) for x in np.atleast_1d(cs.grid_index)]
    gw = np.atleast_1d(np.asarray(cs.grid_weight, dtype=float))
    check(len(gi) == len(gw) == cs.ngrid, 'number of grid points %r %r %r',
          gi, gw, cs.ngrid)
    eq('sum of weights', gw.sum(), 1.0, atol=1e-9)
    idx = {rows[i][1]: i for i in ix}
    check(len(set(gi)) == len(gi) and set(gi) <= set(idx),
          'grid points %r of network %d', gi, net)
    if sure:
        same('grid points', sorted(gi), sorted(rows[i][1] for i in sel))
    iv = np.array([1/d[idx[k]] for k in gi])
    eq('weights', gw, iv/iv.sum(), rtol=1e-6)
    # corrections at the rover
    rnd = np.random.RandomState(c['seed'])
    S = mask_sats(c['mask'])
    ng = len(ix)

    def rr(n, k=None):
        return [int(x) for x in rnd.randint(-(1 << (n-1))+1, 1 << (n-1),
                                            k)] if k else \
            int(rnd.randint(-(1 << (n-1))+1, 1 << (n-1)))
    h = [1000, 5, 0]
    base = dict(h=h, iod=3, net=net, sv=[int(x) for x in rnd.randint(
        0, 2, len(S))], q=[9]*len(S), tq=9, ng=ng)
    base['typ'] = [int(x) for x in rnd.randint(0, 4, len(S))]
    base['c'] = [[rr(14), rr(12), rr(12), rr(10), rr(8), rr(8)] for _ in S]
    M = Model(2200)
    b = Bits()
    msgs = [dict(st=1, h=h, iod=3, m=c['mask'])]
    if c['old']:
        rg = int(rnd.randint(0, 2))
        msgs.append(dict(base, st=8))
        msgs.append(dict(base, st=9, tt=1, rng=rg,
                         trop=[[rr(9), rr(8)] for _ in range(ng)],
                         dst=[rr(16 if rg else 7, ng) for _ in S]))
    else:
        si = [int(x) for x in rnd.randint(0, 4, len(S))]
        msgs.append(dict(base, st=12, f=[c['tr'], c['stc']], tt=2,
                         t=[rr(9), rr(7), rr(7), rr(7)], sz=1, of=7,
                         tr=rr(8, ng), si=si,
                         dst=[rr(STS[k], ng) for k in si]))
    for m in msgs:
        encode(b, m, c['mask'])
        M.apply(m)
    cs.week = 2200
    cs.decode_cssr(b.bytes()+bytes(64), 0)
    L = M.lc[net]
    dla, dlo = cs.get_dpos(pos)
    r0 = [r for r in rows if r[0] == net][0]
    eq('offset from the reference point', [dla, dlo], [la-r0[2], lo-r0[3]],
       atol=1e-9)
    trh, trw = cs.get_trop(dla, dlo)
    k = np.array(gi)-1
    xh, xw = zenith(L, dla, dlo, k, gw)
    eq('zenith delays', [trh, trw], [xh, xw], atol=1e-9)
    stec = cs.get_stec(dla, dlo)
    y = [slant(L, s, dla, dlo, k, gw) for s in L['sat_n']]
    eq('slant delays', stec, y, atol=1e-8)
    return len(gi) > 1


# ------------------------------------------------------------- validity

@st.composite
def valid(draw):
    return dict(m=draw(mask()), to=draw(st.sampled_from([0, 30, 80, 150])),
                tc=draw(st.sampled_from([0, 30, 60, 120])),
                q=draw(st.sampled_from([80, 100, 120, 121, 150, 151, 200])),
                do=draw(st.integers(0, 5)) > 0, dc=draw(st.integers(0, 5)) > 0,
                seed=draw(st.integers(0, 2**30)))


@facet('validity', valid, quick=120, thorough=1500,
       rule='something outdated and something current')
def validity(c):
    cs = cssr()
    cs.week = 2200
    rnd = np.random.RandomState(c['seed'])
    S = mask_sats(c['m'])
    b = Bits()
    encode(b, dict(st=1, h=[0, 0, 0], iod=1, m=c['m']), [])
    orb = [[int(rnd.randint(0, 256)), int(rnd.randint(1, 9000)), 5, 7]
           for _ in S]
    clk = [int(rnd.randint(1, 9000)) for _ in S]
    if c['do']:
        encode(b, dict(st=2, h=[c['to'], 0, 0], iod=1, orb=orb), c['m'])
    if c['dc']:
        encode(b, dict(st=3, h=[c['tc'], 0, 0], iod=1, clk=clk), c['m'])
    cs.decode_cssr(b.bytes()+bytes(64), 0)
    cs.check_validity(g.gpst2time(2200, c['q']))
    oo, oc = c['q']-c['to'] > 120, c['q']-c['tc'] > 30
    for x, o, k in zip(S, orb, clk):
        s = sno(x[1], x[2])
        if c['do']:
            eq('orbit', cs.lc[0].dorb[s], np.zeros(3) if oo else np.array(
                [o[1]*.0016, o[2]*.0064, o[3]*.0064]), atol=1e-9)
            same('IODE', cs.lc[0].iode[s], -1 if oo else o[0])
        if c['dc']:
            eq('clock', cs.lc[0].dclk[s], 0.0 if oc else k*.0016, atol=1e-9)
    return c['do'] and c['dc'] and oo != oc and len(S) > 0


@facet('quality', enum=list(range(64)), rule='all quality indices')
def quality(i):
    cs = cssr()
    eq('quality %d' % i, cs.quality_idx(i >> 3, i & 7), qual(i), rtol=1e-12)
    if i not in (0, 63, 62):
        c, v = cssre().quality2qi(qual(i))
        same('index of quality %g' % qual(i), (int(c) << 3)+int(v), i)
