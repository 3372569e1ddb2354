"""Galileo OSNMA transmitter, written from the SIS ICD (Issue 1.1)"""
import hashlib
import hmac
import random
from cryptography.hazmat.primitives import hashes, cmac
from cryptography.hazmat.primitives.ciphers import algorithms
from cryptography.hazmat.primitives.asymmetric import ec, utils
from vlib.bits import Bits

KLEN = [96, 104, 112, 120, 128, 160, 192, 224, 256]
TLEN = {6: 24, 8: 32, 9: 40}
# MAC look-up table: two consecutive sub-frames; S self, E cross, FLX
MACLT = {
    27: ['00S', '00E', '00E', '00E', '12S', '00E',
         '00S', '00E', '00E', '04S', '12S', '00E'],
    28: ['00S', '00E', '00E', '00E', '00S', '00E', '00E', '12S', '00E',
         '00E', '00S', '00E', '00E', '00S', '00E', '00E', '04S', '12S',
         '00E', '00E'],
    31: ['00S', '00E', '00E', '12S', '00E',
         '00S', '00E', '00E', '12S', '04S'],
    33: ['00S', '00E', '04S', '00E', '12S', '00E',
         '00S', '00E', '00E', '12S', '00E', '12E'],
    34: ['00S', 'FLX', '04S', 'FLX', '12S', '00E',
         '00S', 'FLX', '00E', '12S', '00E', '12E'],
    35: ['00S', 'FLX', '04S', 'FLX', '12S', 'FLX',
         '00S', 'FLX', 'FLX', '12S', 'FLX', 'FLX'],
    36: ['00S', 'FLX', '04S', 'FLX', '12S',
         '00S', 'FLX', '00E', '12S', '12E'],
    38: ['00S', 'FLX', '04S', 'FLX', '12S',
         '00S', 'FLX', 'FLX', '12S', 'FLX'],
    39: ['00S', 'FLX', '04S', 'FLX', '00S', 'FLX', '00E', '12S'],
    40: ['00S', '00E', '04S', '12S', '00S', '00E', '00E', '12E'],
    41: ['00S', 'FLX', '04S', 'FLX', '00S', 'FLX', 'FLX', '12S'],
}


def h256(hf, m):
    return (hashlib.sha256 if hf == 0 else hashlib.sha3_256)(m).digest()


class Chain:
    """TESLA chain; t0: GST (s) of the subframe of the first key"""

    def __init__(self, rnd, t0, n, p):
        self.t0, self.p = t0, p
        self.lk = KLEN[p['ks']]//8
        self.alpha = rnd.randbytes(6)
        k = rnd.randbytes(self.lk)
        ks = [k]
        for j in range(n-1, -1, -1):
            # key number j: subframe t0+30*(j-1)
            k = h256(p['hf'], k+gst(t0+30*(j-1))+self.alpha)[:self.lk]
            ks.append(k)
        self.keys = ks[::-1]            # keys[0] root

    def key(self, t):
        return self.keys[(t-self.t0)//30+1]

    def mac(self, key, m):
        if self.p['mf'] == 0:
            return hmac.new(key, m, hashlib.sha256).digest()
        c = cmac.CMAC(algorithms.AES(key))
        c.update(m)
        return c.finalize()


def gst(t):
    return Bits().u(t//604800, 12).u(t % 604800, 20).bytes()


def sign(sk, m):
    r, s = utils.decode_dss_signature(sk.sign(m, ec.ECDSA(hashes.SHA256())))
    return r.to_bytes(32, 'big')+s.to_bytes(32, 'big')


def header(cid, nmas=2, cpks=1):
    return Bits().u(nmas, 2).u(cid, 2).u(cpks, 3).u(0, 1).bytes()


def dsm_kroot(ch, hdr, pkid, cid, sk, pad):
    """bytes of the DSM-KROOT"""
    p = ch.p
    lk = KLEN[p['ks']]
    nb = 1+-(-(lk+512)//104)
    b = Bits().u(nb-6, 4).u(pkid, 4)
    q = Bits().u(cid, 2).u(0, 2).u(p['hf'], 2).u(p['mf'], 2).u(
        p['ks'], 4).u(p['ts'], 4).u(p['maclt'], 8).u(0, 4).u(
        ch.t0//604800, 12).u(ch.t0 % 604800//3600, 8)
    m = hdr+q.bytes()+ch.alpha+ch.keys[0]
    ds = sign(sk, m)
    lp = nb*104-104-lk-512
    pdk = h256(p['hf'], m+ds)[:lp//8]
    return b.bytes()+m[1:]+ds+pdk, nb


def merkle(leaves):
    lv = [hashlib.sha256(x).digest() for x in leaves]
    t = [lv]
    while len(lv) > 1:
        lv = [hashlib.sha256(lv[i]+lv[i+1]).digest()
              for i in range(0, len(lv), 2)]
        t.append(lv)
    return t


def pub(sk):
    from cryptography.hazmat.primitives import serialization as s
    return sk.public_key().public_bytes(s.Encoding.X962,
                                        s.PublicFormat.CompressedPoint)


def dsm_pkr(leaves, mid, nb=13):
    """leaf: type(4) id(4) point"""
    t = merkle(leaves)
    path = b''
    k = mid
    for lv in t[:-1]:
        path += lv[k ^ 1]
        k >>= 1
    x = leaves[mid]
    b = Bits().u(nb-6, 4).u(mid, 4).bytes()+path+x
    lp = nb*104-1040-(len(x)-1)*8
    return b+hashlib.sha256(t[-1][0]+x).digest()[:lp//8], nb, t[-1][0]


class Nav:
    """I/NAV words of one satellite"""

    def __init__(self, rnd, iod):
        self.iod = iod
        self.w = {}
        for k in (1, 2, 3, 4, 5, 6, 10):
            b = Bits().u(k, 6)
            if k <= 4:
                b.u(iod, 10)
            self.w[k] = b.u(rnd.getrandbits(128-b.n), 128-b.n)

    def eph(self):
        o = Bits()
        for k, n in ((1, 120), (2, 120), (3, 122), (4, 120), (5, 67)):
            o.add(self.w[k].slice(6, n))
        return o

    def utc(self):
        return Bits().add(self.w[6].slice(6, 99)).add(
            self.w[10].slice(86, 42))


def page(w, nma):
    """even and odd part of a nominal page; w: 128 bit word, nma: 5 bytes"""
    b = Bits().u(0, 1).u(0, 1).add(w.slice(0, 112)).u(0, 6)
    b.u(1, 1).u(0, 1).add(w.slice(112, 16))
    for x in nma:
        b.u(x, 8)
    return b.u(0x2aaaaa, 22).u(0, 2).u(0, 24).u(0, 8).u(0, 6).bytes()


def tagmsg(first, adkd, prn_d, prn_a, t, ctr, nmas, nav):
    b = Bits()
    if not first:
        b.u(prn_a if prn_d == 255 else prn_d, 8)
    b.u(prn_a, 8)
    for x in gst(t):
        b.u(x, 8)
    b.u(ctr, 8).u(nmas, 2)
    b.add(nav.utc() if adkd == 4 else nav.eph())
    return b.bytes()


def mack(ch, prn_a, t, infos, nav, nmas=2):
    """MACK of satellite prn_a, sub-frame t.  infos: (prn_d, adkd, flex)
    of the tags; nav(prn, t): data broadcast in sub-frame t"""
    p = ch.p
    lt = TLEN[p['ts']]//8
    key = ch.key(t+30)
    o = b''
    flx = b''
    inf = []
    for k, (prn_d, adkd, fx) in enumerate(infos):
        i = bytes([prn_d, adkd << 4])
        inf.append(i)
        if fx:
            flx += i
    seq = ch.mac(key, bytes([prn_a])+gst(t)+flx)
    seq = bytes([seq[0], seq[1] & 0xf0])
    for k, (prn_d, adkd, fx) in enumerate(infos):
        src = prn_a if adkd == 4 or prn_d == 255 else prn_d
        m = tagmsg(k == 0, adkd, prn_d, prn_a, t, k+1, nmas, nav(src, t-30))
        kk = ch.key(t+330) if adkd == 12 else key
        o += ch.mac(kk, m)[:lt]+(seq if k == 0 else inf[k])
    o += ch.key(t)
    return o+bytes(60-len(o))
