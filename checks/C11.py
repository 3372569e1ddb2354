"""C11 Galileo High Accuracy Service: messages and page recovery"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen
from vlib.bits import Bits
from vlib.cssrenc import ri, sv, mask, mask_sats, put_mask, rsig, SIG
from cssrlib import gnss as g
from cssrlib.cssr_has import cssr_has, cnav_msg
from cssrlib.cssrlib import sCType

MASK, ORB, CLK, SUB, CB, PB = 32, 16, 8, 4, 2, 1


SCALE = 5
def sno(c, p):
    return int(g.prn2sat(gen.SYS[c], p))


def clkval(rnd):
    x = rnd.random()
    if x < .05:
        return -4096
    if x < .1:
        return 4095
    if x < .15:
        return rnd.choice([-4095, 4094, 0])
    return rnd.randint(-4095, 4094)


@st.composite
def history(draw):
    rnd = draw(st.randoms(use_true_random=False))
    m, mid = draw(mask(gnss=(0, 2))), rnd.randint(0, 31)
    msgs = []
    tow = draw(st.integers(0, 600000))
    for k in range(draw(st.sampled_from([1, 3, 4, 5, 6, 7]))):
        tow = min(tow+rnd.choice([0, 1, 10, 50, 1000]), 604799)
        d = dict(tow=tow, iod=rnd.randint(0, 31), mt=rnd.choice([1, 1, 1,
                                                                  4073]))
        fl = rnd.getrandbits(6) & 31
        if k == 0 or rnd.random() < .2:
            fl |= MASK
            if k and rnd.random() < .7:
                m, mid = draw(mask(gnss=(0, 2))), (mid+1) % 32
            d['m'] = m
        d['mid'] = mid
        if not fl & MASK and rnd.random() < .08:
            d['mid'] = (mid+rnd.randint(1, 31)) % 32
        d['fl'] = fl
        d['bad'] = not fl & MASK and rnd.random() < .04
        S = mask_sats(m)
        n = len(S)
        d['udi'] = [rnd.randint(0, 15) for _ in range(5)]
        d['orb'] = [[rnd.randint(0, 1023 if s[1] == 'E' else 255),
                     ri(rnd, 13), ri(rnd, 12), ri(rnd, 12)] for s in S]
        d['dcm'] = [rnd.randint(0, 3) for _ in m]
        d['clk'] = [clkval(rnd) for _ in S]
        gl = sorted(rnd.sample(range(len(m)), rnd.randint(0, len(m))))
        d['sub'] = [[j, rnd.randint(0, 3),
                     [int(rnd.random() < .6) for _ in m[j]['sv']],
                     [clkval(rnd) for _ in m[j]['sv']]] for j in gl]
        d['cb'] = [[ri(rnd, 11) for _ in s[3]] for s in S]
        d['pb'] = [[[ri(rnd, 11), rnd.randint(0, 3)] for _ in s[3]]
                   for s in S]
        assert len(d['orb']) == n
        msgs.append(d)
    return dict(msgs=msgs, week=draw(st.integers(1000, 2400)),
                log=draw(st.booleans()))


def encode(d, m):
    S = mask_sats(m)
    fl = d['fl']
    b = Bits()
    b.u(3600+d['tow'] % 400 if d['bad'] else d['tow'] % 3600, 12)
    b.u(fl, 6).u(0, 4).u(d['mid'], 5).u(d['iod'], 5)
    if fl & MASK:
        b.u(len(m), 4)
        put_mask(b, m, True)
    if fl & ORB:
        b.u(d['udi'][0], 4)
        for s, o in zip(S, d['orb']):
            b.u(o[0], 10 if s[1] == 'E' else 8)
            b.s(o[1], 13).s(o[2], 12).s(o[3], 12)
    if fl & CLK:
        b.u(d['udi'][1], 4)
        for x in d['dcm']:
            b.u(x, 2)
        for x in d['clk']:
            b.s(x, 13)
    if fl & SUB:
        b.u(d['udi'][2], 4).u(len(d['sub']), 4)
        for j, dcm, msk, val in d['sub']:
            b.u(m[j]['gnss'], 4).u(dcm, 2)
            for k in msk:
                b.u(k, 1)
            for k, x in zip(msk, val):
                if k:
                    b.s(x, 13)
    if fl & CB:
        b.u(d['udi'][3], 4)
        for r in d['cb']:
            for x in r:
                b.s(x, 11)
    if fl & PB:
        b.u(d['udi'][4], 4)
        for r in d['pb']:
            for x, y in r:
                b.s(x, 11).u(y, 2)
    return b.bytes()


def clk(x, dcm):
    return np.nan if x in (-4096, 4095) else x*.0025*(dcm+1)


class Model:
    def __init__(self):
        self.m = []
        self.mid = None
        self.lc = {}
        self.t0 = {}
        self.udi = {}
        self.midclk = None
        self.clkset = []

    def apply(self, d):
        fl = d['fl']
        if d['bad']:
            return False
        if fl & MASK:
            self.m, self.mid = d['m'], d['mid']
        elif d['mid'] != self.mid:
            return False
        S = mask_sats(self.m)
        no = [sno(c, p) for _, c, p, _ in S]

        def mark(typ, ids):
            for i in ids:
                self.t0[(i, typ)] = d['tow']
        if fl & ORB:
            self.lc['iode'] = dict(zip(no, [o[0] for o in d['orb']]))
            self.lc['dorb'] = {
                i: -np.array([sv(o[1], 13, .0025), sv(o[2], 12, .008),
                              sv(o[3], 12, .008)])
                for i, o in zip(no, d['orb'])}
            mark(sCType.ORBIT, no)
            self.udi[sCType.ORBIT] = d['udi'][0]
        if fl & CLK:
            dc = {m['gnss']: x for m, x in zip(self.m, d['dcm'])}
            self.lc['dclk'] = {i: clk(x, dc[s[0]])
                               for i, s, x in zip(no, S, d['clk'])}
            mark(sCType.CLOCK, no)
            self.udi[sCType.CLOCK] = d['udi'][1]
            self.midclk = d['mid']
            self.clkset = no
        if fl & SUB:
            for j, dcm, msk, val in d['sub']:
                gn = self.m[j]['gnss']
                ids = [i for i, s in zip(no, S) if s[0] == gn]
                for i, k, x in zip(ids, msk, val):
                    if k:
                        self.lc.setdefault('dclk', {})[i] = clk(x, dcm)
                        mark(sCType.CLOCK, [i])
        if fl & CB:
            self.lc['cbias'] = {i: {rsig(s[1], q, 'C'): sv(x, 11, .02)
                                    for q, x in zip(s[3], r)}
                                for i, s, r in zip(no, S, d['cb'])}
            mark(sCType.CBIAS, [i for i, s in zip(no, S) if s[3]])
            self.udi[sCType.CBIAS] = d['udi'][3]
        if fl & PB:
            self.lc['pbias'] = {i: {rsig(s[1], q, 'L'): sv(x[0], 11, .01)
                                    for q, x in zip(s[3], r)}
                                for i, s, r in zip(no, S, d['pb'])}
            self.lc['di'] = {i: {rsig(s[1], q, 'L'): x[1]
                                 for q, x in zip(s[3], r)}
                             for i, s, r in zip(no, S, d['pb'])}
            mark(sCType.PBIAS, [i for i, s in zip(no, S) if s[3]])
            self.udi[sCType.PBIAS] = d['udi'][4]
        return True


def deep(what, got, exp):
    if isinstance(exp, dict):
        check(isinstance(got, dict) and set(got) == set(exp),
              '%s: %r instead of %r', what, got, exp)
        for k in exp:
            deep('%s[%s]' % (what, k), got[k], exp[k])
    else:
        eq(what, got, exp, atol=1e-9)


@facet('messages', history, quick=900, thorough=15000,
       rule='at least three messages with four kinds of blocks were applied')
def messages(c):
    fn = None
    if c['log']:
        fd, fn = tempfile.mkstemp()
        os.close(fd)
    try:
        cs = cssr_has(fn)
        cs.monlevel = 1 if fn else 0
        cs.week = c['week']
        M = Model()
        kinds, n = 0, 0
        m = []
        for d in c['msgs']:
            if d['fl'] & MASK and not d['bad']:
                m = d['m']
            cs.tow0 = d['tow']//3600*3600
            cs.msgtype = d['mt']
            b = encode(d, d['m'] if d['fl'] & MASK else m)
            cs.decode_cssr(b+bytes(16), 0)
            if M.apply(d):
                n += 1
                kinds |= d['fl']
                eq('time', g.timediff(cs.time, g.gpst2time(
                    c['week'], d['tow'])), 0, atol=1e-6) \
                    if d['fl'] else None
            verify(cs, M, c['week'])
        if fn:
            cs.fh.close()
    finally:
        if fn:
            os.unlink(fn)
    return n >= 3 and bin(kinds).count('1') >= 4


def verify(cs, M, week):
    S = mask_sats(M.m)
    no = [sno(x[1], x[2]) for x in S]
    same('satellites', [int(x) for x in cs.sat_n], no)
    same('systems', list(cs.sys_n), [gen.SYS[x[1]] for x in S])
    if M.mid is not None:
        same('mask id', cs.mask_id, M.mid)
    if M.midclk is not None:
        same('mask id of clocks', cs.mask_id_clk, M.midclk)
        same('satellites of clocks', [int(x) for x in cs.sat_n_p], M.clkset)
    for s, x in zip(no, S):
        same('signals of %s%d' % (x[1], x[2]),
             [q.toTyp(g.uTYP.L) for q in cs.sig_n[s]],
             [rsig(x[1], q, 'L') for q in x[3]])
    for k, v in M.lc.items():
        deep(k, getattr(cs.lc[0], k), v)
    for k, v in M.udi.items():
        same('update interval %s' % k.name, int(cs.udi[k]), v)
    for (s, k), tow in M.t0.items():
        eq('reference time of %s' % k.name, g.timediff(
            cs.lc[0].t0[s][k], g.gpst2time(week, tow)), 0, atol=1e-6)


# ------------------------------------------------------- page recovery

EXP, LOG = [0]*510, [0]*256
x_ = 1
for k_ in range(255):
    EXP[k_] = EXP[k_+255] = x_
    LOG[x_] = k_
    x_ <<= 1
    if x_ & 256:
        x_ ^= 0x11d


def mul(a, b):
    return EXP[LOG[a]+LOG[b]] if a and b else 0


def genmat():
    """systematic generator of RS(255,32): rows = encoded symbols"""
    gp = [1]
    for i in range(1, 224):     # 223 parity symbols
        n = [0]*(len(gp)+1)
        for j, v in enumerate(gp):
            n[j] ^= v
            n[j+1] ^= mul(v, EXP[i])
        gp = n
    G = np.zeros((255, 32), dtype=np.uint8)
    for k in range(32):
        G[k, k] = 1
        r = [0]*223
        # remainder of x^(254-k) by the generator polynomial
        msg = [0]*255
        msg[k] = 1
        for i in range(32):
            c = msg[i]
            if c:
                for j, v in enumerate(gp):
                    msg[i+j] ^= mul(v, c)
        r = msg[32:]
        G[32:, k] = r
    return G


GM = genmat()
MUL = np.zeros((256, 256), dtype=np.uint8)
for a_ in range(1, 256):
    for b_ in range(1, 256):
        MUL[a_, b_] = EXP[LOG[a_]+LOG[b_]]


@st.composite
def transmission(draw):
    """messages as streams of pages received by several satellites"""
    rnd = draw(st.randoms(use_true_random=False))
    ms = draw(st.lists(st.tuples(st.sampled_from([1, 1, 2, 3, 5, 9, 15, 32]),
                                 st.integers(0, 31)), min_size=1,
                       max_size=5))
    ep = []
    for k, (n, mid) in enumerate(ms):
        cnt = 0
        pool = [p for p in list(range(1, n+1))+list(range(33, 256))]
        if rnd.random() < .5:
            rnd.shuffle(pool)
        else:
            h = pool[:n]
            rnd.shuffle(h)
            pool = h+pool[n:]
        lost = rnd.random() < .2
        want = n if not lost else rnd.randint(0, n-1) if n > 1 else 0
        while cnt < want and pool:
            row = []
            for _ in range(rnd.randint(0, 6)):
                x = rnd.random()
                if x < .12:
                    row.append(['dummy'])
                elif x < .18:
                    row.append(['status', rnd.choice([2, 3]), k,
                                rnd.randint(1, 255)])
                elif x < .22:
                    row.append(['pid0', k])
                elif x < .30:
                    o = rnd.randrange(len(ms))
                    if ms[o][1] == mid and o != k:
                        continue
                    if o != k:
                        row.append(['page', o, rnd.randint(1, ms[o][0]), 0])
                elif pool:
                    p = pool.pop(0)
                    row.append(['page', k, p, 0])
                    cnt += 1
                    while rnd.random() < .15:
                        row.append(['page', k, p, 1])
            ep.append(row)
        for _ in range(rnd.choice([0, 0, 1, 3, 70])):
            ep.append([])
    return dict(ms=[list(x) for x in ms], ep=ep,
                seed=rnd.getrandbits(32))


def page(bits, body):
    """14 bits, 24 bits header, 53 bytes, tail"""
    b = Bits().u(0x2aaa, 14).add(bits)
    for x in body:
        b.u(int(x), 8)
    return b.u(0, 30).bytes().hex()


@facet('pages', transmission, quick=500, thorough=6000,
       rule='a message of two or more pages was recovered')
def pages(c):
    r = np.random.RandomState(c['seed'])
    msg = [r.randint(0, 256, (n, 53)) for n, _ in c['ms']]
    enc = {}

    def coded(k, p):
        if (k, p) not in enc:
            n = c['ms'][k][0]
            y = np.zeros(53, dtype=np.uint8)
            for j in range(n):
                y ^= MUL[GM[p-1, j]][msg[k][j]]
            enc[(k, p)] = y
        return enc[(k, p)]
    dec = cnav_msg()
    dec.gMat = GM
    # model
    cur, got, done, icnt = None, {}, [], 0
    big = False
    for t, row in enumerate(c['ep']):
        vi = []
        for e in row:
            if e[0] == 'dummy':
                b = Bits().u(0xaf3bc3, 24)
                body = r.randint(0, 256, 53)
            else:
                k = e[1] if e[0] != 'status' else e[2]
                n, mid = c['ms'][k]
                hass, pid = 1, 0
                if e[0] == 'page':
                    hass, pid = int(r.randint(0, 2)), e[2]
                elif e[0] == 'status':
                    hass, pid = e[1], e[3]
                if e[0] == 'page':
                    body = coded(k, pid)
                else:
                    body = r.randint(0, 256, 53)
                b = Bits().u(hass, 2).u(0, 2).u(1, 2).u(mid, 5)
                b.u(n-1, 5).u(pid, 8)
                if e[0] == 'page':
                    if cur is None and mid not in done:
                        cur = (mid, n)
                    if cur is not None and (mid, n) == cur:
                        got.setdefault(pid, body)
            vi.append({'nav': page(b, body).encode()})
        out = dec.decode_cnav(t, vi)
        exp = None
        if cur is not None and len(got) >= cur[1]:
            k = [i for i, x in enumerate(c['ms']) if x[1] == cur[0]]
            # the same id may be used for several messages: skip those
            exp = [msg[i].astype(np.uint8).tobytes() for i in k
                   if c['ms'][i][0] == cur[1]]
            if len(k) > 1:
                exp = None
            else:
                big = big or cur[1] > 1
                check(out is not None, 'message %d not recovered from %d '
                      'pages', cur[0], len(got))
                same('recovered message %d' % cur[0], bytes(out)[:len(
                    exp[0])], exp[0])
                check(dec.msgtype == 1, 'message type')
            done = (done+[cur[0]])[-10:]
            cur, got, icnt = None, {}, 0
        else:
            check(out is None, 'message output from %d pages of %s', len(got),
                  cur)
            icnt += 1
            if cur is not None and icnt > 2*cur[1]:
                icnt = 0
                cur, got = None, {}
    return big
