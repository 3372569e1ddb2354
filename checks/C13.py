"""C13 MADOCA-PPP wide-area ionospheric corrections"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen
from vlib.bits import Bits
from vlib.cssrenc import mask, mask_sats, put_mask
from cssrlib import gnss as g
from cssrlib.cssr_mdc import cssr_mdc
from cssrlib.cssrlib import sCType

SCALE = 8
NAREA = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
SY = [('G', 32), ('R', 24), ('E', 36), ('C', 46), ('J', 9)]


def sno(c, p):
    return int(g.prn2sat(gen.SYS[c], p))


def rs(rnd, n):
    return rnd.randint(-(1 << (n-1))+1, (1 << (n-1))-1)


def rarea(rnd, k, near=None):
    """[area, shape, fields]: rectangle (0.1 deg) or circle (0.01 deg, 10km)"""
    la, lo = rnd.uniform(-60, 60), rnd.uniform(0, 359.9)
    if near is not None:
        la, lo = near[0]+rnd.uniform(-8, 8), near[1]+rnd.uniform(-9, 9)
        la = max(-70, min(70, la))
    lo %= 360
    if rnd.random() < .5:
        return [k, 0, [int(la*10), int(lo*10) % 3600, rnd.randint(5, 200),
                       rnd.randint(5, 255)]]
    return [k, 1, [int(la*100), int(lo*100) % 36000, rnd.randint(2, 255)]]


@st.composite
def history(draw):
    rnd = draw(st.randoms(use_true_random=False))
    tow = draw(st.integers(0, 604000))
    near = [rnd.uniform(-55, 55), rnd.choice([0.5, 179.8, 180.2, 359.6,
                                              rnd.uniform(0, 360)])]
    bufs = []
    areas = {}
    hour = -1
    for b in range(draw(st.integers(1, 4))):
        ms = []
        for k in range(rnd.randint(1, 3)):
            tow = min(tow+rnd.randint(0, 40), 604799)
            t = 1 if not areas or rnd.random() < .3 else rnd.choice(
                [2, 2, 2, 4073])
            if t == 2 and tow//3600 != hour:
                t = 1       # the hour is known from full times only
            hour = tow//3600
            d = dict(mt=t, tow=tow, uid=rnd.randint(0, 15),
                     iod=rnd.randint(0, 15))
            if t == 1:
                d['reg'] = reg = rnd.randint(1, 5)
                d['alert'] = rnd.randint(0, 1)
                ks = rnd.sample(range(1, NAREA[reg]+1),
                                rnd.randint(1, NAREA[reg]))
                d['areas'] = [rarea(rnd, k, near if rnd.random() < .8
                                    else None) for k in sorted(ks)]
                for a in d['areas']:
                    areas[(reg, a[0])] = a
            elif t == 2:
                d['reg'], d['area'] = rnd.choice(sorted(areas))
                d['typ'] = rnd.randint(0, 3)
                d['sat'] = []
                for c, mx in SY:
                    v = sorted(rnd.sample(range(1, mx+1), rnd.choice(
                        [0, 0, 1, 2, 5])))
                    d['sat'].append([[p, rnd.randint(0, 63), rs(rnd, 14),
                                      rs(rnd, 12), rs(rnd, 12), rs(rnd, 10),
                                      rs(rnd, 8), rs(rnd, 8)] for p in v])
            else:
                d['m'] = draw(mask(gnss=(0, 1, 2, 4), maxsat=3))
            ms.append(d)
        bufs.append(ms)
    pos = []
    for _ in range(4):
        if areas and rnd.random() < .8:
            a = areas[rnd.choice(sorted(areas))][2]
            s = .1 if len(a) == 4 else .01
            if len(a) == 4:
                w = [a[2]*.1*rnd.choice([.3, .9, 1.15]),
                     a[3]*.1*rnd.choice([.3, .9, 1.15])]
                k = [rnd.choice([-1, 1, rnd.uniform(-1, 1)])
                     for _ in range(2)]
            else:
                w = a[2]*10*rnd.choice([.3, .85, 1.2])/111.3
                w = [w, w/np.cos(np.deg2rad(a[0]*s))]
                k = rnd.choice([0, 90, 180, 270, rnd.uniform(0, 360)])
                k = [np.cos(np.deg2rad(k)), np.sin(np.deg2rad(k))]
            pos.append([max(-89, min(89, a[0]*s+k[0]*w[0])),
                        a[1]*s+k[1]*w[1]])
        else:
            pos.append([rnd.uniform(-80, 80), rnd.uniform(-180, 180)])
    return dict(bufs=bufs, pos=pos, log=draw(st.booleans()))


def encode(b, d):
    t = d['mt']
    b.u(t, 12).u(1 if t == 4073 else 0, 4)
    b.u(d['tow'] % 3600, 12) if t == 2 else b.u(d['tow'], 20)
    b.u(d['uid'], 4).u(0, 1).u(d['iod'], 4)
    if t == 4073:
        b.u(len(d['m']), 4)
        put_mask(b, d['m'])
    elif t == 1:
        b.u(d['reg'], 8).u(d['alert'], 1).u(59+45*len(d['areas']), 16)
        b.u(len(d['areas']), 5)
        for k, s, v in d['areas']:
            b.u(k, 5).u(s, 1)
            if s == 0:
                b.s(v[0], 11).u(v[1], 12).u(v[2], 8).u(v[3], 8)
            else:
                b.s(v[0], 15).u(v[1], 16).u(v[2], 8)
    else:
        b.u(d['reg'], 8).u(d['area'], 5).u(d['typ'], 2)
        for v in d['sat']:
            b.u(len(v), 5)
        for v in d['sat']:
            for x in v:
                b.u(x[0], 6).u(x[1], 6).s(x[2], 14)
                if d['typ'] > 0:
                    b.s(x[3], 12).s(x[4], 12)
                if d['typ'] > 1:
                    b.s(x[5], 10)
                if d['typ'] > 2:
                    b.s(x[6], 8).s(x[7], 8)


def inside(a, la, lo):
    """True, False or None when too close to the boundary"""
    _, s, v = a
    if s == 0:
        d = [v[2]*.1-abs(la-v[0]*.1),
             v[3]*.1-abs((lo-v[1]*.1+180) % 360-180)]
        m = min(d)
        return None if abs(m) < 1e-6 else m > 0
    R = 6378.137
    a = np.deg2rad(v[0]*.01)
    r = np.hypot(np.deg2rad(la)-a, np.deg2rad((lo-v[1]*.01+180) % 360-180)
                 * np.cos(a))*R
    m = v[2]*10-r
    # plane or spherical distance: leave a margin
    return None if abs(m) < 0.04*r+1e-3 else m > 0


@facet('history', history, quick=1200, thorough=20000,
       rule='a position inside of an area with corrections')
def historyf(c):
    fn = None
    if c['log']:
        fd, fn = tempfile.mkstemp()
        os.close(fd)
    try:
        cs = cssr_mdc(fn)
        cs.monlevel = 1 if fn else 0
        cs.week = 2300
        areas, corr = {}, {}
        m = None
        for ms in c['bufs']:
            b = Bits()
            for d in ms:
                encode(b, d)
                if d['mt'] == 1:
                    for a in d['areas']:
                        areas[(d['reg'], a[0])] = a
                elif d['mt'] == 2:
                    corr[(d['reg'], d['area'])] = d
                else:
                    m = d
            cs.decode_cssr(b.bytes()+bytes(16), 0)
            if m is not None:
                same('satellites', [int(x) for x in cs.sat_n],
                     [sno(x[1], x[2]) for x in mask_sats(m['m'])])
                same('IOD SSR', cs.iodssr, m['iod'])
        if fn:
            cs.fh.close()
    finally:
        if fn:
            os.unlink(fn)
    same('areas', {(r, a) for r in cs.pnt for a in cs.pnt[r]}, set(areas))
    hit = False
    for la, lo in c['pos']:
        lo = (lo+180) % 360-180
        pos = np.array([np.deg2rad(la), np.deg2rad(lo), 0.0])
        cs.inet = inet = cs.find_grid_index(pos)
        st_ = {k: inside(a, la, lo) for k, a in areas.items()}
        yes = [k for k in st_ if st_[k]]
        may = [k for k in st_ if st_[k] is not False]
        if inet < 0:
            check(not yes, 'no area found at %r, inside of %r', (la, lo), yes)
            continue
        net = {sum(NAREA[i] for i in range(1, r))+a: (r, a)
               for r in NAREA for a in range(1, NAREA[r]+1)}
        check(int(inet) in net, 'network %r', inet)
        k = net[int(inet)]
        check(k in may, 'area %r found at %r, inside of %r', k, (la, lo), may)
        dla, dlo = cs.get_dpos(pos)
        v = areas[k][2]
        s = .1 if areas[k][1] == 0 else .01
        ex = (la-v[0]*s, (lo-v[1]*s+180) % 360-180)
        eq('offset from the reference point', [dla, dlo], ex, atol=1e-9)
        if k not in corr:
            continue
        d = corr[k]
        n = [1, 3, 4, 6][d['typ']]
        lc = cs.lc[int(inet)]
        stec = cs.get_stec(dla, dlo)
        sats, val = [], []
        for (cc, _), x in zip(SY, d['sat']):
            for e in x:
                sats.append(sno(cc, e[0]+(192 if cc == 'J' else 0)))
                co = [e[2]*.05, e[3]*.02, e[4]*.02, e[5]*.02, e[6]*.005,
                      e[7]*.005]
                p = [1, dla, dlo, dla*dlo, dla**2, dlo**2]
                val.append(sum(a*q for a, q in zip(co[:n], p[:n])))
        same('satellites of the area', [int(x) for x in lc.sat_n], sats)
        same('number of satellites', int(lc.nsat_n), len(sats))
        eq('slant delays', stec, val, atol=1e-7)
        same('quality indicators', {int(k): int(q) for k, q in
                                    lc.stec_quality.items()},
             {sno(cc, e[0]+(192 if cc == 'J' else 0)): e[1]
              for (cc, _), x in zip(SY, d['sat']) for e in x})
        check(lc.cstat & (1 << sCType.STEC), 'no slant delays available')
        eq('reference time', g.timediff(
            lc.t0[0][sCType.STEC], g.gpst2time(2300, d['tow'])), 0, atol=1e-6)
        hit = hit or len(sats) > 0
    return hit
