"""C14 SouthPAN PVS corrections and SISNeT compression"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen
from vlib.bits import Bits
from cssrlib import gnss as g
from cssrlib.cssr_pvs import cssr_pvs, decode_sinca_line
from cssrlib.cssrlib import sCType


SCALE = 16
def slot2(s):
    for lo, hi, o, c in ((1, 32, 0, 'G'), (38, 61, 37, 'R'),
                         (75, 110, 74, 'E'), (120, 158, 0, 'S'),
                         (159, 195, 158, 'C')):
        if lo <= s <= hi:
            return int(g.prn2sat(gen.SYS[c], s-o))
    return 0


def rs(rnd, n):
    x = rnd.random()
    if x < .1:
        return rnd.choice([-(1 << (n-1))+1, (1 << (n-1))-1, 0, -1])
    return rnd.randint(-(1 << (n-1))+1, (1 << (n-1))-1)


@st.composite
def history(draw):
    rnd = draw(st.randoms(use_true_random=False))
    t = draw(st.integers(0, 604000))
    if draw(st.integers(0, 3)) == 0:
        t = t//86400*86400+rnd.choice([0, 5, 20, 86390, 86399])
    pool = [1, 5, 32, 38, 61, 75, 100, 110, 120, 158, 159, 195, 0, 33, 111,
            197, 255]
    pool = rnd.sample(pool, 6)
    out = []
    for _ in range(draw(st.integers(1, 12))):
        t = min(t+rnd.choice([0, 1, 1, 7, 40, 130]), 604799)
        if rnd.random() < .15:
            out.append(dict(mt=rnd.choice([0, 31, 34, 37, 39, 63]), t=t,
                            x=rnd.getrandbits(200)))
            continue
        tod = (t-rnd.randint(0, 90)) % 86400
        k = tod//16
        if rnd.random() < .85 and k % 2 == 0:
            k = (k-1) % 5400
        out.append(dict(mt=32, t=t, slot=rnd.choice(pool),
                        iod=rnd.randint(0, 1023), t0=k,
                        v=[rs(rnd, 11), rs(rnd, 11), rs(rnd, 11),
                           rs(rnd, 12)],
                        d=[rs(rnd, 8), rs(rnd, 8), rs(rnd, 8), rs(rnd, 9)]))
    return dict(msgs=out, week=draw(st.integers(2000, 2400)),
                q=rnd.choice([0, 60, 119, 121, 300]),
                pad=rnd.getrandbits(131))


@facet('messages', history, quick=1500, thorough=25000,
       rule='corrections of two satellites were applied')
def messages(c):
    cs = cssr_pvs()
    M = {}
    t = 0
    for d in c['msgs']:
        t = d['t']
        cs.set_time(g.gpst2time(c['week'], t))
        b = Bits().u([5, 9, 12][t % 3], 4).u(d['mt'], 6)
        if d['mt'] == 32:
            b.u(d['slot'], 8).u(d['iod'], 10)
            for x, n in zip(d['v'], (11, 11, 11, 12)):
                b.s(x, n)
            for x, n in zip(d['d'], (8, 8, 8, 9)):
                b.s(x, n)
            b.u(d['t0'], 13).u(c['pad'], 131)
            s = slot2(d['slot'])
            if s and d['t0'] % 2:
                day = t//86400*86400
                tt = day+d['t0']*16
                if tt-t > 43200:
                    tt -= 86400
                M[s] = dict(iode=d['iod'], t=tt,
                            dorb=-np.array(d['v'][:3])*.0625,
                            dclk=d['v'][3]*.03125,
                            dvel=-np.array(d['d'][:3])/2048,
                            ddft=d['d'][3]/4096)
        else:
            b.u(d['x'], 206)
        cs.decode_cssr(b.bytes(), 0)
        same('satellites', sorted(int(x) for x in cs.sat_n), sorted(M))
        for s, v in M.items():
            lc = cs.lc[0]
            for k in ('iode', 'dorb', 'dclk', 'dvel', 'ddft'):
                eq('%s of %d' % (k, s), getattr(lc, k)[s], v[k], atol=1e-12)
            for k in (sCType.CLOCK, sCType.ORBIT):
                eq('reference time', g.timediff(
                    lc.t0[s][k], g.gpst2time(c['week'], v['t'])), 0,
                   atol=1e-6)
    # validity
    tq = t+c['q']
    cs.check_validity(g.gpst2time(c['week'], tq))
    for s, v in M.items():
        old = tq-v['t'] > 120
        same('IODE', cs.lc[0].iode[s], -1 if old else v['iode'])
        eq('orbit', cs.lc[0].dorb[s], v['dorb']*(not old), atol=1e-12)
        eq('clock', cs.lc[0].dclk[s], v['dclk']*(not old), atol=1e-12)
    return len(M) > 1


@st.composite
def sinca(draw):
    rnd = draw(st.randoms(use_true_random=False))
    hx = ''
    for _ in range(draw(st.integers(1, 30))):
        ch = rnd.choice('0123456789ABCDEF')
        hx += ch*rnd.choice([1, 1, 1, 2, 3, 4, 9, 15, 16, 17, 40, 63])
    hx = hx[:64]
    return dict(hex=hx[:len(hx)//2*2] or '00', minr=rnd.randint(3, 5),
                maxr=rnd.choice([15, 16, 63, 255]),
                week=draw(st.integers(1024, 2400)),
                tow=draw(st.integers(0, 604799)))


@facet('sisnet', sinca, quick=2000, thorough=40000,
       rule='at least two compressed runs')
def sisnet(c):
    s, out, i, n = c['hex'], '', 0, 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == s[i] and j-i < c['maxr']:
            j += 1
        k = j-i
        if k < c['minr']:
            out += s[i]*k
        elif k < 16:
            out += '%s|%X' % (s[i], k)
            n += 1
        else:
            out += '%s/%02X' % (s[i], k)
            n += 1
        i = j
    line = '*MSG,%d,%d,%s*%02X' % (c['week'], c['tow'], out, 0x3a)
    t, b = decode_sinca_line(line)
    same('message', bytes(b), bytes.fromhex(s))
    eq('time', g.timediff(t, g.gpst2time(c['week'], c['tow'])), 0, atol=1e-9)
    check(decode_sinca_line('*START,'+line) is None, 'not a message')
    return n > 1
