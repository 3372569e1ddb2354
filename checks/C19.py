"""C19 QZNMA: authentication of GPS, Galileo and QZSS navigation messages"""
import os
import random
import shutil
import tempfile
from hypothesis import strategies as st
from cryptography.hazmat.primitives import serialization as ser
from cryptography.hazmat.primitives.asymmetric import ec
from vlib.core import facet, check, same, viol
from vlib.bits import Bits
from vlib.nmasim import sign
from cssrlib.gnss import uGNSS, prn2sat
from cssrlib.qznma import qznma, uNavId

LN, CN, C2, FN, IN = (uNavId.GPS_LNAV, uNavId.GPS_CNAV, uNavId.GPS_CNAV2,
                      uNavId.GAL_FNAV, uNavId.GAL_INAV)


SCALE = 16
def B(x, n):
    return Bits().u(x, n)


def rb(rnd, n):
    return B(rnd.getrandbits(n), n)


def put(b, i, n, v):
    """set bits of b"""
    sh = b.n-i-n
    b.v = b.v & ~(((1 << n)-1) << sh) | (v << sh)


def clr(b, *rng):
    for i, n in rng:
        put(b, i, n, 0)
    return b


def cp(b):
    return b.slice(0, b.n)


# ---------------------------------------------------------- messages
def lnav(rnd, svid, tow, sid, iode, iodc):
    b = rb(rnd, 300)
    put(b, 0, 8, 0x8b)
    put(b, 30, 17, tow)
    put(b, 49, 3, sid)
    if sid == 1:
        put(b, 60+22, 2, iodc >> 8)
        put(b, 210, 8, iodc & 255)
    elif sid == 2:
        put(b, 60, 8, iode)
    elif sid == 3:
        put(b, 270, 8, iode)
    return b


def words(b):
    """30 bit words in 32 bit"""
    o = Bits()
    for k in range(10):
        o.u(0, 2).add(b.slice(30*k, 30))
    return o.bytes()


def mn_lnav(sf, qzs):
    """signed part: no parity, no TLM message (GPS), no solved bits, ..."""
    o = Bits()
    for j, b in enumerate(sf):
        b = cp(b)
        clr(b, *[(30*k+24, 6) for k in range(10)])
        clr(b, (292, 2))
        if qzs:
            clr(b, (22, 2), (47, 7))
        else:
            clr(b, (8, 14), (52, 2))
            if j == 1:
                clr(b, (287, 5))        # AODO
        o.add(b)
    return o


def cnav(rnd, prn, mt, tow, toe):
    b = rb(rnd, 300)
    put(b, 0, 8, 0x8b)
    put(b, 8, 6, prn)
    put(b, 14, 6, mt)
    put(b, 20, 17, tow)
    if mt == 10:
        put(b, 70, 11, toe)
    elif mt == 11:
        put(b, 38, 11, toe)
    elif mt != 60:
        put(b, 60, 11, toe)
    return b


def mn_cnav(ms, qzs):
    o = Bits()
    for j, b in enumerate(ms):
        b = clr(cp(b), (276, 24))
        if qzs:
            clr(b, (8, 6), (37, 1))
            if j == 0:
                clr(b, (271, 1))
        else:
            clr(b, (14, 6))
        if j == 2:
            clr(b, (127, 173))
        o.add(b)
    return o


def mn_cnav2(toi, sf2):
    return B(toi, 9).add(clr(cp(sf2), (32, 1), (565, 1), (576, 24)))


def fnav(rnd, svid, pt, iod, tow):
    b = rb(rnd, 244)
    put(b, 0, 6, pt)
    if pt == 1:
        put(b, 6, 6, svid)
    if pt < 5:
        put(b, 12 if pt == 1 else 6, 10, iod)
        put(b, {1: 167, 2: 194, 3: 186, 4: 189}[pt], 20, tow)
    return b


def mn_fnav(ms):
    o = Bits()
    for b in ms:
        o.add(clr(cp(b), (214, 24)))
    return o


def inav(rnd, wt, iod, tow):
    b = rb(rnd, 128)
    put(b, 0, 6, wt)
    if wt < 5:
        put(b, 6, 10, iod)
    elif wt == 5:
        put(b, 85, 20, tow)
    return b


def page(rnd, w):
    return B(0, 1).u(0, 1).add(w.slice(0, 112)).u(0, 6).u(1, 1).u(0, 1).add(
        w.slice(112, 16)).add(rb(rnd, 102)).bytes()


# bits that frame the message: not touched by the attacker
FRAME = {LN: [[(0, 8), (30, 17), (49, 3), (82, 2), (210, 8)],
              [(30, 17), (49, 3), (60, 8)], [(30, 17), (49, 3), (270, 8)]],
         CN: [[(0, 37), (70, 11)], [(0, 37), (38, 11)], [(0, 37), (60, 11)]],
         FN: [[(0, 22), (167, 20)], [(0, 16), (194, 20)],
              [(0, 16), (186, 20)], [(0, 16), (189, 20)]],
         IN: [[(0, 16)]]*4+[[(0, 6), (85, 20)]]}
TOW = {LN: [(30, 17, 0), (330, 17, 1), (630, 17, 2)],
       CN: [(20, 17, 0), (320, 17, 1), (620, 17, 2)],
       FN: [(167, 20, 0), (438, 20, 10), (674, 20, 20), (921, 20, 30)],
       IN: [(597, 20, 0)]}


def mnav(mt, ms, rtow):
    if mt == LN:
        b = mn_lnav(ms, False)
    elif mt == CN:
        b = mn_cnav(ms, False)
    elif mt == FN:
        b = mn_fnav(ms)
    else:
        b = Bits()
        for m in ms:
            b.add(m)
    for i, n, d in TOW[mt]:
        put(b, i, n, rtow+d)
    return b


class Keys:
    def __init__(self, rnd, d):
        self.sk = {}
        for k in rnd.sample(range(256), 3):
            self.sk[k] = ec.derive_private_key(
                rnd.getrandbits(240) | 1, ec.SECP256R1())
        self.ids = list(self.sk)
        self.unk = self.ids[2]          # not installed
        for k in self.ids[:2]:
            with open(d+'/%03d.der' % k, 'wb') as f:
                f.write(self.sk[k].public_key().public_bytes(
                    ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo))


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)
        return False


@st.composite
def scen(draw):
    return dict(seed=draw(st.integers(0, 2**40)),
                ns=draw(st.integers(1, 5)), n=draw(st.integers(1, 8)),
                same=draw(st.booleans()))


# ------------------------------------------------ signatures on L6
class Data:
    """data set of a satellite"""

    def __init__(self, rnd, svid, mt, iod, tow):
        self.svid, self.mt, self.iod, self.tow = svid, mt, iod, tow
        self.iod2 = self.iodc = 0
        if mt == LN:
            iod &= 255
            self.iod = self.iod2 = iod
            self.iodc = iod | rnd.randrange(4) << 8
            self.ms = [lnav(rnd, svid, tow//6+j, j+1, iod, self.iodc)
                       for j in range(3)]
        elif mt == CN:
            self.iod = self.iod2 = self.iodc = iod
            t3 = rnd.choice([30, 31, 32, 33, 35, 36, 37, 61])
            self.ms = [cnav(rnd, svid, t, tow//6+j, iod)
                       for j, t in enumerate((10, 11, t3))]
        elif mt == FN:
            self.ms = [fnav(rnd, svid-64, j+1, iod, tow+10*j)
                       for j in range(4)]
        else:
            self.ms = [inav(rnd, j+1, iod, tow) for j in range(5)]
        self.rx = [cp(m) for m in self.ms]
        self.tampered = False

    def tamper(self, rnd):
        j = rnd.randrange(len(self.ms))
        b = self.rx[j]
        fr = FRAME[self.mt][j]
        while True:
            i = rnd.randrange(b.n)
            if not any(a <= i < a+n for a, n in fr):
                break
        put(b, i, 1, 1-b.slice(i, 1).v)

    def rows(self, rnd, other):
        o = []
        for j, m in enumerate(self.rx):
            if self.mt == LN:
                x = words(m)
            elif self.mt == CN:
                x = m.bytes(38)
            elif self.mt == FN:
                x = m.bytes(31)
            else:
                x = page(rnd, m)
            o.append((self.tow+6*j, x))
        # other messages of the frame, unrelated
        if other:
            if self.mt == LN:
                x = [words(lnav(rnd, 0, self.tow//6+3+k, 4+k, 0, 0))
                     for k in range(2)]
            elif self.mt == CN:
                x = [cnav(rnd, self.svid, 60, self.tow//6+3, 0).bytes(38)]
            elif self.mt == FN:
                x = [fnav(rnd, 0, 5, 0, 0).bytes(31)]
            else:
                x = [page(rnd, inav(rnd, w, 0, 0)) for w in (0, 6, 10)]
            o += [(self.tow+18, y) for y in x]
        return o


FILES = {LN: 'lnav', CN: 'cnav', FN: 'fnav', IN: 'inav'}


@facet('l6', scen(), quick=300, thorough=8000,
       rule='some signature is genuine and one is not')
def l6(c):
    """a GPS or Galileo message is authenticated when the signature
    transmitted on L6 is that of the received message, and else never"""
    rnd = random.Random(c['seed'])
    with Tmp() as d:
        return _l6(c, rnd, d)


def _l6(c, rnd, d):
    ks = Keys(rnd, d)
    q = qznma()
    q.pubk_bdir = d
    gm, em = rnd.choice([LN, CN]), rnd.choice([FN, IN])
    q.navmode[uGNSS.GPS], q.navmode[uGNSS.GAL] = gm, em
    data = []
    svs = rnd.sample(list(range(1, 33))+list(range(65, 101)), c['ns'])
    for svid in svs:
        mts = [LN, CN] if svid < 64 else [FN, IN]
        if rnd.random() < .5:
            mts = mts[:1] if rnd.random() < .5 else mts[1:]
        iods = rnd.sample(range(256 if svid < 64 else 1024),
                          rnd.randint(1, 3))
        tw = rnd.randrange(0, 604000, 30)
        for mt in mts:
            if not c['same']:
                tw = rnd.randrange(0, 604000, 30)
            for k, iod in enumerate(iods):
                x = Data(rnd, svid, mt, iod, tw+k*60)
                if rnd.random() < .3:
                    x.tamper(rnd)
                data.append(x)
    # data sets whose messages are of different issues
    mixed = []
    for svid in svs:
        if rnd.random() < .5:
            continue
        mt = rnd.choice([LN, CN] if svid < 64 else [FN, IN])
        use = {x.iod for x in data if x.svid == svid}
        iods = [k for k in range(256 if svid < 64 else 1024) if k not in use]
        a, b = rnd.sample(iods, 2)
        tw = max([x.tow for x in data if x.svid == svid])+60
        x = Data(rnd, svid, mt, a, tw)
        j = rnd.randrange(4 if mt == IN else len(x.ms))
        y = Data(rnd, svid, mt, b, tw)
        x.rx[j] = y.rx[j]
        if mt == LN and j == 0 and rnd.random() < .5:
            # as many bits as possible agree
            x.rx[0] = lnav(rnd, svid, tw//6, 1, a, a ^ 1 << rnd.randrange(8))
        mixed.append((x, {a, b}))
    # files: one per message type
    for mt in (LN, CN, FN, IN):
        rows = {}
        for x in data:
            if x.mt == mt:
                rep = rnd.randint(1, 2)
                for _ in range(rep):
                    rows.setdefault(x.svid, []).extend(
                        x.rows(rnd, rnd.random() < .6))
        for x, _ in mixed:
            if x.mt == mt:
                i = rnd.choice([0, len(rows.get(x.svid, []))])
                rows.setdefault(x.svid, [])[i:i] = x.rows(rnd, False)
        if not rows:
            continue
        # interleave the satellites
        seq = []
        cur = {k: 0 for k in rows}
        while cur:
            k = rnd.choice(list(cur))
            seq.append((k, rows[k][cur[k]]))
            cur[k] += 1
            if cur[k] == len(rows[k]):
                del cur[k]
        fn = d+'/'+FILES[mt]+'.txt'
        with open(fn, 'w') as f:
            for k, (tow, x) in seq:
                f.write('2300 %d %d 0 %d %s\n' % (
                    tow, k if k < 64 else k-64, len(x), x.hex()))
        getattr(q, 'load_navmsg_'+FILES[mt])(fn)
    for x in data:
        sat = tosat(x.svid)
        check(sat in q.navmsg and x.iod in q.navmsg[sat] and
              x.mt in q.navmsg[sat][x.iod], 'svid %d: %s IOD %d not loaded',
              x.svid, x.mt.name, x.iod)
    for x, bad in mixed:
        v = q.navmsg.get(tosat(x.svid), {})
        for k in bad:
            check(x.mt not in v.get(k, {}), 'svid %d: %s of different issues '
                  'taken as IOD %d', x.svid, x.mt.name, k)
    tws = sorted({x.tow for x in data})
    t = rnd.choice(tws)+rnd.choice([-1, 0, 1, 30])
    same('number of satellites tracked', q.count_tracked_sat(t),
         len({x.svid for x in data if x.tow <= t}))
    vst, order, ngood, nbad = {}, [], 0, 0
    for k in range(c['n']):
        b = Bits()
        b.u(0x1acffc1d, 32).u(rnd.randrange(193, 203), 8)
        vid = 3 if rnd.random() < .9 else rnd.choice([0, 1, 2, 4, 5, 6, 7])
        b.u(vid << 5 | rnd.randrange(32), 8).u(rnd.randrange(2), 1)
        for _ in range(2):
            ok, r, x = rds(rnd, data, ks)
            b.add(r)
            if ok and vid == 3:
                ngood += 1
                s = tosat(x.svid)
                v = vst.setdefault(s, {})
                v[x.iod] = v.get(x.iod, 0)+1
                if x.mt in (gm, em) and s not in order:
                    order.append(s)
            else:
                nbad += 1
        b.add(rb(rnd, 2000-b.n))
        q.decode(rnd.randrange(604800), None, b.bytes())
        same('message %d: authenticated messages' % k, q.vstatus, vst)
        same('authenticated satellites', q.sat_t, order)
        for sys, lo, n in ((uGNSS.GPS, 1, 32), (uGNSS.GAL, 65, 36)):
            ss = [tosat(v) for v in range(lo, lo+n)]
            same('number of %s satellites' % sys.name, q.nsat[sys],
                 len([s for s in order if s in ss]))
        q.vcnt_min = rnd.randint(1, 3)
        same('number of authenticated satellites', q.count_valid_sat(),
             len([s for s in vst if max(vst[s].values()) >= q.vcnt_min]))
    return ngood > 0 and nbad > 0


def tosat(svid):
    return prn2sat(uGNSS.GPS, svid) if svid < 64 else prn2sat(
        uGNSS.GAL, svid-64)


def rds(rnd, data, ks):
    """signature, is it genuine and of the received message?"""
    x = rnd.choice(data)
    k = rnd.random()
    if k < .08:         # empty
        r = B(0, 605) if k < .04 else rb(rnd, 605)
        return False, r, x
    kid = rnd.choice(ks.ids[:2])
    att = rnd.choice(['no']*6+['ds', 'head', 'salt', 'key', 'unk', 'svid',
                               'other', 'svx', 'sha'])
    rtow = {LN: rnd.randrange(100798), CN: rnd.randrange(100798)}.get(
        x.mt, rnd.randrange(604770))
    sal = rnd.randrange(65536)
    if att == 'unk':
        kid = ks.unk
    hdr = B(0, 4).u(rtow, 20).u(x.svid, 8).u(x.mt, 4).u(x.iod, 11).u(
        x.iod2, 11).u(x.iodc, 11).u(kid, 8)
    y = x
    if att == 'other':
        y = rnd.choice(data)
        if y.mt != x.mt:
            y = x
    m = mnav(x.mt, y.ms, rtow)
    n = {LN: 125, CN: 125, FN: 134, IN: 92}[x.mt]
    ms = cp(hdr).add(m).u(sal, 16).bytes(n)
    sk = ks.sk[kid]
    if att == 'key':
        sk = ks.sk[ks.ids[2]]
    ds = B(int.from_bytes(sign(sk, ms), 'big'), 512)
    if att == 'sha':
        ds = rb(rnd, 512) if rnd.random() < .5 else B(0, 512)
    ok = att in ('no', 'other')
    if att == 'ds':
        i = rnd.randrange(512)
        put(ds, i, 1, 1-ds.slice(i, 1).v)
    elif att == 'salt':
        sal ^= 1 << rnd.randrange(16)
    elif att == 'svx':          # satellite number of no satellite
        put(hdr, 24, 8, rnd.choice([0, 64, 128, 203, 255]))
    elif att == 'svid':
        put(hdr, 24, 8, rnd.choice([x.svid % 255+1, x.svid ^ 64, 193]))
    elif att == 'head':
        i = rnd.randrange(77)
        put(hdr, i, 1, 1-hdr.slice(i, 1).v)
    # what the receiver has
    if ok and mnav(x.mt, x.rx, rtow).v != m.v:
        ok = False
    return ok, hdr.add(ds).u(sal, 16), x


# ---------------------------------------- signatures in QZSS messages
@st.composite
def qscen(draw):
    return dict(seed=draw(st.integers(0, 2**40)),
                mode=draw(st.sampled_from([LN, CN, C2])),
                ns=draw(st.integers(1, 3)), n=draw(st.integers(1, 5)),
                loss=draw(st.sampled_from([0, 0, .05, .2])),
                wk=draw(st.sampled_from(['rand', 'roll', 'start'])),
                part=draw(st.booleans()))


def signed(rnd, ks, mode, m):
    """signature data; None: not genuine"""
    kid = rnd.choice(ks.ids[:2])
    att = rnd.choice(['no']*5+['ds', 'salt', 'key', 'unk', 'nav'])
    sal = rnd.randrange(65536)
    if att == 'unk':
        kid = ks.unk
    n = {LN: 116, CN: 137, C2: 100}[mode]
    m = cp(m).pad(609) if mode == C2 else m
    sk = ks.sk[ks.unk] if att == 'key' else ks.sk[kid]
    ds = B(int.from_bytes(sign(sk, B(kid, 8).add(m).u(sal, 16).bytes(n)),
                          'big'), 512)
    if att == 'ds':
        i = rnd.randrange(512)
        put(ds, i, 1, 1-ds.slice(i, 1).v)
    elif att == 'salt':
        sal ^= 1 << rnd.randrange(16)
    return att, B(kid, 8).add(ds).u(sal, 16)


def stream(rnd, ks, c, prn, t0):
    """messages of one satellite: (tow, message, tag); tag: None, or number
    of the signature, part 1..3 of the signature or 4.. signed message,
    genuine"""
    mode = c['mode']
    o = []
    t = t0

    def ev(x, tag=None):
        o.append((t, x, tag))
    for k in range(c['n']):
        if mode == LN:
            iod = rnd.randrange(256)
            iodc = iod | rnd.randrange(4) << 8
            # parts in SF4 and SF5, the last in SF5
            slots = [0, 0, 0, 0, 0, 1]
            for i in rnd.sample(range(5), 2):
                slots[i] = 1
            nf = 3
            tt = t+30*nf        # frame that is signed
            sf = [lnav(rnd, prn, (tt+6*(j+1)) % 604800//6, j+1, iod, iodc)
                  for j in range(3)]
            rx = [cp(s) for s in sf]
            att, r = signed(rnd, ks, mode, mn_lnav(sf, True))
            r.pad(540)
            part = 0
            for f in range(nf):
                for j in range(5):
                    tw = (t+6) % 604800//6
                    if j < 3:
                        b = lnav(rnd, prn, tw, j+1, iod, iodc)
                        ev(words(b))
                    else:
                        b = lnav(rnd, prn, tw, j+1, 0, 0)
                        put(b, 60, 2, 3)
                        tag = None
                        if slots[2*f+j-3]:
                            put(b, 62, 6, 60)
                            put(b, 68, 2, part+1)
                            z = r.slice(180*part, 180)
                            put(b, 70, 14, z.slice(0, 14).v)
                            for w in range(6):
                                put(b, 30*(w+3), 24, z.slice(
                                    14+24*w, 24).v)
                            put(b, 270, 22, z.slice(158, 22).v)
                            part += 1
                            tag = (k, part, att)
                        else:
                            put(b, 62, 6, rnd.choice([1, 51, 56, 63]))
                        ev(words(b), tag)
                    t += 6
            if att == 'nav':
                j, i = alter(rnd, rx, [[(30, 17), (49, 3)]]*3)
                if mn_lnav(rx, True).v == mn_lnav(sf, True).v:
                    att = 'no'
                o = [(a, x, g and g[0] == k and (k, g[1], att) or g)
                     for a, x, g in o]
            for j in range(3):
                ev(words(rx[j]), (k, 4+j, att))
                t += 6
            for j in (4, 5):
                b = lnav(rnd, prn, (t+6) % 604800//6, j, 0, 0)
                put(b, 62, 6, rnd.choice([1, 51, 56, 63]))
                ev(words(b))
                t += 6
        elif mode == CN:
            toe = rnd.randrange(2016)
            seq = [10, 11, 30, 37, 32, 12, 15]
            ms = [rnd.choice(seq) for _ in range(rnd.randint(0, 5))]+[60]
            for _ in range(2):
                ms += [rnd.choice(seq) for _ in range(rnd.randint(0, 3))]
                ms += [60]
            tt = t+6*len(ms)
            t3 = rnd.choice([30, 31, 32, 33, 35, 36, 37, 61])
            sf = [cnav(rnd, prn-192, m, (tt+6*(j+1)) % 604800//6, toe)
                  for j, m in enumerate((10, 11, t3))]
            rx = [cp(s) for s in sf]
            att, r = signed(rnd, ks, mode, mn_cnav(sf, True))
            if att == 'nav':
                alter(rnd, rx, [[(14, 23)]]*3)
                if mn_cnav(rx, True).v == mn_cnav(sf, True).v:
                    att = 'no'
            r.pad(708)
            part = 0
            for m in ms:
                b = cnav(rnd, prn-192, m, (t+6) % 604800//6, toe)
                tag = None
                if m == 60:
                    part += 1
                    put(b, 38, 2, part)
                    put(b, 40, 236, r.slice(236*(part-1), 236).v)
                    tag = (k, part, att)
                ev(b.bytes(38), tag)
                t += 6
            for j in range(3):
                ev(rx[j].bytes(38), (k, 4+j, att))
                t += 6
        else:
            pages = [rnd.choice([1, 2, 3, 4]) for _ in range(
                rnd.randint(0, 3))]+[60]*3
            if rnd.random() < .3:
                pages.insert(-1, 2)
            nf = len(pages)
            r = None
            fr = []
            for j in range(nf+1):
                tw = (t+18*j) % 604800
                sf2 = rb(rnd, 600)
                put(sf2, 13, 8, tw//7200)
                fr.append((tw % 7200//18, sf2))
            toi, sf2 = fr[-1]
            att, r = signed(rnd, ks, mode, mn_cnav2(toi, sf2))
            r.pad(702)
            rx = [cp(sf2)]
            if att == 'nav':
                alter(rnd, rx, [[(13, 8)]])
                if mn_cnav2(toi, rx[0]).v == mn_cnav2(toi, sf2).v:
                    att = 'no'
            part = 0
            for j in range(nf+1):
                toi, sf2 = fr[j]
                tag = None
                b = B(toi, 9).add(rb(rnd, 43)).add(
                    rx[0] if j == nf else sf2).add(rb(rnd, 600))
                p = pages[j] if j < nf else rnd.choice([1, 2, 3])
                s3 = B(prn, 8).u(p, 6)
                if p == 60:
                    part += 1
                    s3.u(part, 2).add(r.slice(234*(part-1), 234))
                    tag = (k, part, att)
                elif j == nf:
                    tag = (k, 4, att)
                s3.add(rb(rnd, 548-s3.n))
                ev(b.add(s3).bytes(), tag)
                t += 18
    return o


def alter(rnd, rx, frame):
    j = rnd.randrange(len(rx))
    while True:
        i = rnd.randrange(rx[j].n)
        if not any(a <= i < a+n for a, n in frame[j]):
            break
    put(rx[j], i, 1, 1-rx[j].slice(i, 1).v)
    return j, i


@facet('qzs', qscen(), quick=250, thorough=6000,
       rule='some message is authenticated')
def qzs(c):
    """the QZSS messages after a complete signature are authenticated
    when the signature is theirs, and else never"""
    rnd = random.Random(c['seed'])
    with Tmp() as d:
        return _qzs(c, rnd, d)


def _qzs(c, rnd, d):
    ks = Keys(rnd, d)
    q = qznma()
    q.pubk_bdir = d
    mode = c['mode']
    q.navmode[uGNSS.QZS] = mode
    u = {LN: 30, CN: 6, C2: 18}[mode]
    ev = []
    for prn in rnd.sample(range(193, 203), c['ns']):
        if c['wk'] == 'start':
            t0 = 0
        elif c['wk'] == 'roll':
            t0 = 604800-u*rnd.randint(1, 12)
        else:
            t0 = rnd.randrange(0, 604800, 1800)
        sat = prn2sat(uGNSS.QZS, prn)
        s = stream(rnd, ks, c, prn, t0)
        if c['part']:
            s = s[rnd.randrange(min(len(s), 15)):]
        for t, x, g in s:
            ev.append((t-t0, sat, t, x, g))
    ev.sort(key=lambda e: e[0])
    vst, order = {}, []
    state = {}
    last = 4 if mode == C2 else 6
    for _, sat, t, x, g in ev:
        if rnd.random() < c['loss']:
            continue
        q.decode(t % 604800, x, None, sat, mode)
        if g:
            k, part, att = g
            st_ = state.setdefault((sat, k), set())
            st_.add(part)
            if part == last and len(st_) == last and att == 'no':
                v = vst.setdefault(sat, {})
                v[0] = v.get(0, 0)+1
                if sat not in order:
                    order.append(sat)
        same('%s tow %d: authentications' % (mode.name, t % 604800),
             q.vstatus, vst)
        same('authenticated satellites', q.sat_t, order)
        same('number of QZSS satellites', q.nsat[uGNSS.QZS], len(order))
    return bool(vst)
