"""C12 BeiDou PPP-B2b messages"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen
from vlib.bits import Bits
from vlib.cssrenc import qual, rsig
from cssrlib import gnss as g
from cssrlib.cssr_bds import cssr_bds
from cssrlib.cssrlib import sCType

SCALE = 8
NS = {'C': 63, 'G': 37, 'E': 37, 'R': 37}
OFF = {'C': 0, 'G': 63, 'E': 100, 'R': 137}
USE = {'C': 63, 'G': 32, 'E': 36, 'R': 27}
BSIG = {
    'C': {0: '2I', 1: '1D', 2: '1P', 4: '5D', 5: '5P', 7: '7D', 8: '7P',
          12: '6I'},
    'G': {0: '1C', 1: '1P', 4: '1L', 5: '1X', 7: '2L', 8: '2X', 11: '5I',
          12: '5Q', 13: '5X'},
    'E': {1: '1B', 2: '1C', 4: '5Q', 5: '5I', 7: '7I', 8: '7Q', 11: '6C'},
    'R': {0: '1C', 1: '1P', 2: '2C'}}


def slot(s):
    return OFF[s[0]]+s[1]


def sno(s):
    return int(g.prn2sat(gen.SYS[s[0]], s[1]))


def sval(x, n, scl):
    return np.nan if x <= -(1 << (n-1))+1 else x*scl


def ri(rnd, n):
    x = rnd.random()
    lo = -(1 << (n-1))
    if x < .05:
        return rnd.choice([lo, lo+1])
    if x < .1:
        return rnd.choice([lo+2, -lo-1, 0])
    return rnd.randint(lo+2, -lo-1)


@st.composite
def history(draw):
    rnd = draw(st.randoms(use_true_random=False))

    def mask():
        out = []
        big = rnd.random() < .35
        for c in 'CGER':
            mx = USE[c]
            k = rnd.randint(0, mx if big else 8)
            out += [[c, p] for p in sorted(rnd.sample(range(1, mx+1), k))]
        return out or [['C', 19]]
    m, iodp, iods = mask(), rnd.randint(0, 15), rnd.randint(0, 3)
    tod = draw(st.integers(0, 86000))
    msgs = [dict(mt=1, tod=tod, iodp=iodp, iods=iods, m=m)]
    for _ in range(draw(st.integers(2, 9))):
        tod = min(tod+rnd.choice([0, 1, 6, 48, 600]), 86399)
        t = rnd.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 7])
        d = dict(mt=t, tod=tod, iods=iods, iodp=iodp)
        if t == 1:
            if rnd.random() < .5:
                iodp = d['iodp'] = (iodp+1) % 16
                m = mask()
            elif rnd.random() < .5:
                iods = d['iods'] = (iods+1) % 4
            d['m'] = m
            msgs.append(d)
            continue
        if rnd.random() < .1:
            d['iods'] = (iods+rnd.randint(1, 3)) % 4
        if t in (4, 5, 6) and rnd.random() < .1:
            d['iodp'] = (iodp+rnd.randint(1, 15)) % 16

        def sat():
            x = rnd.random()
            if x < .1:
                return 0
            if x < .2:
                c = rnd.choice('CGER')
                return slot([c, rnd.randint(1, USE[c])])
            if x < .23:
                return rnd.randint(175, 511)
            return slot(rnd.choice(m))

        def orb():
            return [sat(), rnd.randint(0, 1023), rnd.randint(0, 7),
                    ri(rnd, 15), ri(rnd, 13), ri(rnd, 13),
                    rnd.randint(0, 63)]

        def clk():
            return [rnd.randint(0, 7), ri(rnd, 15)]
        if t == 2:
            d['orb'] = [orb() for _ in range(6)]
        elif t == 3:
            d['cb'] = []
            left = 410
            for _ in range(rnd.randint(1, 6)):
                k = rnd.randint(0, 7)
                left -= 13+16*k
                if left < 0:
                    break
                s = 0
                while not 1 <= s <= 164:
                    s = sat()
                d['cb'].append([s, [[x, ri(rnd, 12)] for x in sorted(
                    rnd.sample(range(15), k))]])
        elif t == 4:
            d['st'] = rnd.randint(0, min(len(m)//23+1, 7))
            d['clk'] = [clk() for _ in range(23)]
        elif t == 5:
            d['st'] = rnd.randint(0, 2)
            d['ura'] = [rnd.randint(0, 63) for _ in range(70)]
        elif t == 6:
            nc, no = rnd.choice([(22, 0), (17, 1), (13, 2), (9, 3), (5, 4),
                                 (1, 5), (0, 6), (3, 0), (0, 2)])
            d['first'] = rnd.randint(0, max(0, len(m)-rnd.randint(0, nc)))
            d['clk'] = [clk() for _ in range(nc)]
            d['orb'] = [orb() for _ in range(no)]
        else:
            nc, no = rnd.choice([(15, 0), (12, 1), (9, 2), (6, 3), (3, 4),
                                 (0, 6), (0, 1), (2, 2)])
            d['clk'] = [[sat()]+clk() for _ in range(nc)]
            d['orb'] = [orb() for _ in range(no)]
        msgs.append(d)
    return dict(msgs=msgs, week=draw(st.integers(400, 1100)),
                day=draw(st.integers(0, 6)), log=draw(st.booleans()))


def encode(d):
    b = Bits().u(d['mt'], 6)
    t = d['mt']

    def head():
        b.u(d['tod'], 17).u(0, 4).u(d['iods'], 2)

    def orb(v):
        for s, iodn, iodc, x, y, z, q in v:
            b.u(s, 9).u(iodn, 10).u(iodc, 3).s(x, 15).s(y, 13).s(z, 13)
            b.u(q, 6)
    if t < 6:
        head()
    if t == 1:
        b.u(d['iodp'], 4)
        for c in 'CGER':
            v = 0
            for s in d['m']:
                if s[0] == c:
                    v |= 1 << (NS[c]-s[1])
            b.u(v, NS[c])
    elif t == 2:
        orb(d['orb'])
    elif t == 3:
        b.u(len(d['cb']), 5)
        for s, v in d['cb']:
            b.u(s, 9).u(len(v), 4)
            for x, y in v:
                b.u(x, 4).s(y, 12)
    elif t == 4:
        b.u(d['iodp'], 4).u(d['st'], 5)
        for a, x in d['clk']:
            b.u(a, 3).s(x, 15)
    elif t == 5:
        b.u(d['iodp'], 4).u(d['st'], 3)
        for q in d['ura']:
            b.u(q, 6)
    else:
        b.u(len(d['clk']), 5).u(len(d['orb']), 3)
        if d['clk']:
            head()
            if t == 6:
                b.u(d['iodp'], 4).u(d['first'], 9)
            for v in d['clk']:
                if t == 7:
                    b.u(v[0], 9)
                b.u(v[-2], 3).s(v[-1], 15)
        if d['orb']:
            head()
            orb(d['orb'])
    if b.n > 462:
        raise ValueError('message of %d bits' % b.n)
    return b.pad(462).bytes()


class Model:
    def __init__(self):
        self.m, self.iodp, self.iods = [], None, None
        self.clear()
        self.t0 = {}

    def clear(self):
        self.lc = {k: {} for k in ('dclk', 'dorb', 'iode', 'iodc', 'iodc_c',
                                   'cbias', 'dclk_p', 'iodc_c_p')}
        self.ura = {}

    def orb(self, d):
        ok = {slot(s): s for s in self.m}
        for s, iodn, iodc, x, y, z, q in d['orb']:
            if s not in ok:
                continue
            i = sno(ok[s])
            L = self.lc
            L['iode'][i] = iodn & 0xff if ok[s][0] in 'GC' else iodn
            L['iodc'][i] = iodc
            L['dorb'][i] = np.array([sval(x, 15, .0016), sval(y, 13, .0064),
                                     sval(z, 13, .0064)])
            self.ura[i] = qual(q)
            self.t0[(i, sCType.ORBIT)] = d['tod']

    def clk(self, s, iodc, x, tod):
        i = sno(s)
        L = self.lc
        if i in L['iodc_c'] and L['iodc_c'][i] != iodc:
            L['iodc_c_p'][i] = L['iodc_c'][i]
            L['dclk_p'][i] = L['dclk'][i]
        L['iodc_c'][i] = iodc
        L['dclk'][i] = -sval(x, 15, .0016)
        self.t0[(i, sCType.CLOCK)] = tod

    def apply(self, d):
        t = d['mt']
        if t == 1:
            if d['iodp'] != self.iodp:
                self.m, self.iodp = d['m'], d['iodp']
                self.clear()
            self.iods = d['iods']
            return True
        if d['iods'] != self.iods:
            return False
        if t in (4, 5) and d['iodp'] != self.iodp:
            return False
        if t == 2:
            self.orb(d)
        elif t == 3:
            ok = {slot(s): s for s in self.m}
            for s, v in d['cb']:
                if s not in ok:
                    continue
                c = ok[s][0]
                self.lc['cbias'][sno(ok[s])] = {
                    rsig(c, BSIG[c][x], 'C'): sval(y, 12, .017)
                    for x, y in v if x in BSIG[c]}
                self.t0[(sno(ok[s]), sCType.CBIAS)] = d['tod']
        elif t == 4:
            for k, (a, x) in enumerate(d['clk']):
                j = d['st']*23+k
                if j < len(self.m):
                    self.clk(self.m[j], a, x, d['tod'])
        elif t == 5:
            for k, q in enumerate(d['ura']):
                j = d['st']*70+k
                if j < len(self.m):
                    self.ura[sno(self.m[j])] = qual(q)
        elif t == 6:
            if d['iodp'] == self.iodp:
                for k, (a, x) in enumerate(d['clk']):
                    j = d['first']+k
                    if j < len(self.m):
                        self.clk(self.m[j], a, x, d['tod'])
            self.orb(d)
        elif t == 7:
            ok = {slot(s): s for s in self.m}
            for s, a, x in d['clk']:
                if s in ok:
                    self.clk(ok[s], a, x, d['tod'])
            self.orb(d)
        return True


def deep(what, got, exp):
    if isinstance(exp, dict):
        check(isinstance(got, dict) and set(got) == set(exp),
              '%s: %r instead of %r', what, got, exp)
        for k in exp:
            deep('%s[%s]' % (what, k), got[k], exp[k])
    else:
        eq(what, got, exp, atol=1e-9)


@facet('messages', history, quick=1200, thorough=20000,
       rule='at least three correction messages of two types were applied')
def messages(c):
    fn = None
    if c['log']:
        fd, fn = tempfile.mkstemp()
        os.close(fd)
    try:
        cs = cssr_bds(fn)
        cs.monlevel = 1 if fn else 0
        cs.week, cs.tow0 = c['week'], c['day']*86400
        M = Model()
        types = []
        for d in c['msgs']:
            cs.decode_cssr(encode(d), 0)
            if M.apply(d) and d['mt'] > 1:
                types.append(d['mt'])
            eq('time', g.timediff(cs.time, g.gpst2time(
                c['week']+1356, c['day']*86400+d['tod']+14)), 0, atol=1e-6)
            same('satellites', [int(x) for x in cs.sat_n],
                 [sno(s) for s in M.m])
            same('systems', list(cs.sys_n), [gen.SYS[s[0]] for s in M.m])
            same('IOD SSR', cs.iodssr, M.iods)
            for k, v in M.lc.items():
                deep(k, getattr(cs.lc[0], k), v)
            deep('ura', cs.ura, M.ura)
            for (s, k), tod in M.t0.items():
                eq('reference time of %s' % k.name, g.timediff(
                    cs.lc[0].t0[s][k], g.gpst2time(
                        c['week']+1356, c['day']*86400+tod+14)), 0,
                   atol=1e-6)
        if fn:
            cs.fh.close()
    finally:
        if fn:
            os.unlink(fn)
    return len(types) >= 3 and len(set(types)) > 1
