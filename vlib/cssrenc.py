"""Independent Compact SSR message model and encoder (IS-QZSS-L6, HAS ICD).

A message is a dict of integers (raw fields); Model keeps the state a user
of the corrections should see after a history of messages.
"""
import numpy as np
from hypothesis import strategies as st
from vlib.bits import Bits
from vlib import gen
from cssrlib.gnss import rSigRnx, uTYP, uSIG

# gnss id -> (system letter, prn offset, number of svs used)
GN = {0: ('G', 0, 32), 1: ('R', 0, 24), 2: ('E', 0, 36), 3: ('C', 0, 40),
      4: ('J', 192, 10), 7: ('C', 18, 40)}
SIG = {
    0: ['1C', '1P', '1W', '1S', '1L', '1X', '2S', '2L', '2X', '2P', '2W',
        '5I', '5Q', '5X'],
    1: ['1C', '1P', '2C', '2P', '4A', '4B', '4X', '6A', '6B', '6X', '3I',
        '3Q', '3X'],
    2: ['1B', '1C', '1X', '5I', '5Q', '5X', '7I', '7Q', '7X', '8I', '8Q',
        '8X', '6B', '6C', '6X'],
    3: ['2I', '2Q', '2X', '6I', '6Q', '6X', '7I', '7Q', '7X', '1D', '1P',
        '1X', '5D', '5P', '5X'],
    4: ['1C', '1S', '1L', '1X', '2S', '2L', '2X', '5I', '5Q', '5X', '6D',
        '6P', '6E', '1E'],
}
SIG[7] = SIG[3]


def rsig(c, s, typ):
    """signal from system letter and band+attribute"""
    return rSigRnx(gen.SYS[c], {'C': uTYP.C, 'L': uTYP.L}[typ], uSIG['L'+s])


def qual(i):
    c, v = i >> 3, i & 7
    if i == 63:
        return 5.4665
    if i == 0:
        return np.nan
    return (3.0**c*(1+v/4)-1)*1e-3


def ri(rnd, n, inv=0.04):
    """signed n-bit value, sometimes the 'not available' one or an extreme"""
    x = rnd.random()
    lo = -(1 << (n-1))
    if x < inv:
        return lo
    if x < inv+0.05:
        return rnd.choice([lo+1, -lo-1, 0, -1, 1])
    return rnd.randint(lo+1, -lo-1)


def sv(x, n, scl):
    return np.nan if x == -(1 << (n-1)) else x*scl


@st.composite
def mask(draw, gnss=(0, 1, 2, 3, 4, 7), maxsat=6, extra=False):
    gl = draw(st.lists(st.sampled_from(list(gnss)), min_size=1, max_size=4,
                       unique=True))
    if 3 in gl and 7 in gl:
        gl.remove(7)
    rnd = draw(st.randoms(use_true_random=False))
    out = []
    for gn in sorted(gl):
        _, _, mx = GN[gn]
        n = rnd.randint(0 if out and rnd.random() < .1 else 1, maxsat)
        svs = sorted(rnd.sample(range(1, mx+1), n))
        ns = rnd.randint(1, 5)
        sg = sorted(rnd.sample(range(len(SIG[gn])), ns))
        cma = rnd.random() < 0.6
        cells = [[int(not cma or rnd.random() < .7) for _ in sg] for _ in svs]
        out.append(dict(gnss=gn, sv=svs, sig=sg, cma=int(cma), cell=cells,
                        nm=rnd.randint(0, 7)))
    return out


def mask_sats(m):
    """[(gnss id, letter, prn, [signals])] in transmission order"""
    o = []
    for e in m:
        c, off, _ = GN[e['gnss']]
        for p, cell in zip(e['sv'], e['cell']):
            o.append((e['gnss'], c, p+off,
                      [SIG[e['gnss']][s] for s, k in zip(e['sig'], cell)
                       if k]))
    return o


def put_mask(b, m, has=False):
    for e in m:
        b.u(e['gnss'], 4)
        b.u(sum(1 << (40-p) for p in e['sv']), 40)
        b.u(sum(1 << (15-s) for s in e['sig']), 16)
        b.u(e['cma'], 1)
        if e['cma']:
            for r in e['cell']:
                for k in r:
                    b.u(k, 1)
        if has:
            b.u(e['nm'], 3)
    if has:
        b.u(0, 6)
    return b
