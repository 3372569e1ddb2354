"""C18 Galileo OSNMA: authentication of navigation messages"""
import os
import random
import tempfile
from hypothesis import strategies as st
from cryptography.hazmat.primitives import serialization as ser
from cryptography.hazmat.primitives.asymmetric import ec
from vlib.core import facet, check, eq, same, viol
from vlib import nmasim as N
from vlib.bits import Bits
from cssrlib.osnma import osnma, uOSNMA

SCALE = 10
WORDS = [2, 4, 6, 7, 10, 0, 9, 8, 0, 16, 1, 3, 5, 0, 0]
# combinations (key size, tag size) by number of tags
COMB = {}
for _ks, _lk in enumerate(N.KLEN):
    for _ts, _lt in N.TLEN.items():
        COMB.setdefault((480-_lk)//(_lt+16), []).append((_ks, _ts))


def params(rnd):
    maclt = rnd.choice(sorted(k for k in N.MACLT
                              if len(N.MACLT[k])//2 in COMB))
    ks, ts = rnd.choice(COMB[len(N.MACLT[maclt])//2])
    mf = rnd.randint(0, 1) if ks in (4, 6, 8) else 0
    return dict(hf=rnd.choice([0, 2]), mf=mf, ks=ks, ts=ts, maclt=maclt)


def key(rnd, curve=ec.SECP256R1):
    return ec.derive_private_key(rnd.getrandbits(240) | 1, curve())


def newrx(tmp, slow=False):
    r = osnma(logfile=tmp)
    r.monlevel = 0
    r.flg_slowmac = slow
    return r


class Con:
    """constellation with a navigation data schedule"""

    def __init__(self, rnd, prns, t0, n, forged=()):
        self.d = {}
        for p in prns:
            iods = rnd.sample(range(1024), 4)
            k = 0
            cur = N.Nav(rnd, iods[0])
            for j in range(-2, n+1):
                if rnd.random() < .12 and k < 3:
                    k += 1
                    cur = N.Nav(rnd, iods[k])
                self.d[p, t0+30*j] = cur

    def __call__(self, p, t):
        return self.d[p, t]


def tags(rnd, p, prns, maclt, t, unseen):
    """tag sequence of one MACK"""
    s = N.MACLT[maclt]
    h = len(s)//2
    o = []
    for x in s[:h] if t % 60 == 0 else s[h:]:
        oth = [q for q in prns if q != p] or [unseen]
        if rnd.random() < .1:
            oth = [unseen]
        fx = x == 'FLX'
        if fx:
            x = rnd.choice(['00S', '00E', '00E', '04S', '12E', '12S'])
        o.append((p if x[2] == 'S' else rnd.choice(oth), int(x[:2]), fx))
    return o


ATT = ['none', 'none', 'nav', 'tag', 'macseq', 'info', 'key', 'kroot_new',
       'kroot_sig', 'kroot_mix', 'kroot_bit', 'kroot_pad', 'early']


@st.composite
def scen(draw):
    return dict(seed=draw(st.integers(0, 2**40)), att=draw(
        st.sampled_from(ATT)), ns=draw(st.integers(2, 6)),
        wk=draw(st.sampled_from(['rand', 'roll'])),
        loss=draw(st.sampled_from([0, 0, .004, .02])),
        slow=draw(st.integers(0, 5)) == 0,
        age=draw(st.sampled_from([0, 0, 1, 3, 170])))


@facet('auth', scen(), quick=150, thorough=2500,
       rule='some data is authenticated, or an attack is on')
def auth(c):
    """genuine data is authenticated as soon as the key is out; data that
    was not signed by the system never is"""
    fd, tmp = tempfile.mkstemp()
    os.close(fd)
    try:
        return _auth(c, tmp)
    finally:
        os.unlink(tmp)


def _auth(c, tmp):
    rnd = random.Random(c['seed'])
    att = c['att']
    slow = c['slow']
    p = params(rnd)
    prns = rnd.sample(range(1, 37), c['ns'])
    unseen = rnd.choice([q for q in range(1, 37) if q not in prns])
    wn = rnd.randrange(900, 1500)
    n = rnd.randint(14, 17) if slow else rnd.randint(6, 10)
    if c['wk'] == 'roll':
        t0 = wn*604800-30*rnd.randint(0, n)
    else:
        t0 = wn*604800+30*rnd.randrange(20100)
    tk = (t0//3600-c['age'])*3600
    if att == 'early':
        tk = (t0//3600+2)*3600
    con = Con(rnd, prns, t0, n)
    ch = N.Chain(rnd, tk, (max(t0, tk)-tk)//30+n+30, p)
    sk = key(rnd)
    pkid = rnd.randrange(1, 16)
    cid = rnd.randrange(4)
    hdr = N.header(cid, cpks=rnd.choice([1, 1, 2, 3, 4]))
    did = rnd.randrange(12)
    dsm, nb = N.dsm_kroot(ch, hdr, pkid, cid, sk, 0)
    rx = newrx(tmp, slow)
    rx.pk_list[pkid] = sk.public_key()
    # attacker
    x = prns[rnd.randrange(len(prns))]
    j0 = -(-nb//len(prns))+rnd.randint(0, 1)    # genuine root received
    fch = N.Chain(rnd, tk, (max(t0, tk)-tk)//30+n+30, p)
    if att == 'early':
        # keys that all equal the public root key
        class Flat(N.Chain):
            def key(self, t):
                return self.keys[0]
        fch = ch
        fch.__class__ = Flat
    fcon = Con(rnd, prns, t0, n)
    fsk = key(rnd)
    fdsm, _ = N.dsm_kroot(fch, hdr, pkid, cid, fsk, 0)
    if att == 'kroot_mix' or (att == 'kroot_sig' and rnd.random() < .5):
        # signature of the genuine root key, consistent padding
        lk = N.KLEN[p['ks']]//8
        m = hdr+fdsm[1:13+lk]
        ds = dsm[13+lk:13+lk+64]
        pdk = N.h256(p['hf'], m+ds)
        k = len(dsm)-(13+lk+64)
        fdsm = fdsm[:13+lk]+ds+pdk[:k]
        if k == 0 and att == 'kroot_mix':
            # nothing of the forged root key would remain
            return False
    fdid = (did+1) % 12
    nmsg = -(-(13+N.KLEN[p['ks']]//8)//13)      # blocks with signed part
    bit = rnd.randrange(8, (13+N.KLEN[p['ks']]//8+64)*8)
    if att == 'kroot_pad':      # inconsistent padding
        if len(dsm) <= 13+N.KLEN[p['ks']]//8+64:
            return False
        bit = rnd.randrange((13+N.KLEN[p['ks']]//8+64)*8, len(dsm)*8)
        att = 'kroot_bit'
    forged = att in ('key', 'kroot_new', 'kroot_sig', 'kroot_mix', 'early')
    tam = dict(w=rnd.choice([1, 2, 3, 4, 5]), bit=rnd.randrange(16, 70),
               b=rnd.randrange(8))

    def hk(q, i, j):
        """DSM block of satellite number i in sub-frame j"""
        k = j*len(prns)+i
        d, dd = dsm, did
        if att == 'kroot_bit':
            d = bytearray(dsm)
            d[bit//8] ^= 128 >> (bit % 8)
        elif att == 'kroot_mix':
            if j < -(-nb//len(prns)):
                d = fdsm
            else:
                k = k % nmsg
        elif att in ('kroot_new', 'kroot_sig') and j >= j0:
            # forged root key from all satellites after the genuine one
            k -= j0*len(prns)
            d, dd = fdsm, rnd.choice([fdid]) if att == 'kroot_new' else did
        k %= nb
        return hdr+Bits().u(dd, 4).u(k, 4).bytes()+bytes(d[k*13:k*13+13])

    roots = set()
    root = False
    full = {}           # (prn, sub-frame) fully received
    first = {}          # first page received
    ok = {}             # (prn, iod) -> minimum count of verified tags
    up = {}             # maximum
    utc = 0
    utcmax = 0
    tg = {}
    pend = []
    for j in range(n):
        t = t0+30*j
        order = rnd.sample(prns, len(prns))
        buf = {}
        sent = {}
        for i, q in enumerate(prns):
            inf = tags(rnd, q, prns, p['maclt'], t, unseen)
            spoof = forged and q == x
            tg[q, t] = inf
            m = bytearray(N.mack(
                fch if spoof else ch, q, t, inf,
                lambda a, b: N.Nav(random.Random(a*7919+b), a)
                if a == unseen else (fcon if spoof else con)(a, b)))
            lt = N.TLEN[p['ts']]//8
            if att == 'tag' and q == x:
                for k in range(len(inf)):
                    m[k*(lt+2)+rnd.randrange(lt)] ^= 1 << tam['b']
            elif att == 'macseq' and q == x:
                m[lt+rnd.randrange(2)] ^= 0x10 << (tam['b'] % 4)
            elif att == 'info' and q == x:
                for k in range(1, len(inf)):
                    m[k*(lt+2)+lt+rnd.randrange(2)] ^= 0x10 << (tam['b'] % 4)
            h = hk(q, i, j)
            nv = (fcon if spoof else con)(q, t).w
            sent[q] = h
            buf[q] = []
            for k, w in enumerate(WORDS):
                if w in nv:
                    b = nv[w]
                    if att == 'nav' and q == x and w == tam['w']:
                        b = Bits()
                        b.v, b.n = nv[w].v ^ (1 << (127-tam['bit'])), 128
                else:
                    b = Bits().u(w, 6).u(rnd.getrandbits(122), 122)
                buf[q].append(N.page(b, bytes([h[k]])+m[4*k:4*k+4]))
        lost = {(q, k) for q in prns for k in range(15)
                if rnd.random() < c['loss']}
        for k in range(15):
            tow = t % 604800+2*k+1
            for q in order:
                if (q, k) in lost:
                    continue
                nav, nma = rx.load_gal_inav(buf[q][k])
                rx.save_gal_inav(nav, q, tow)
                rx.decode(nma, t//604800+1024, tow, q)
        # ---- what must and may be authenticated
        for q in prns:
            full[q, t] = not any((q, k) in lost for k in range(15))
            first[q, t] = (q, 0) not in lost
        aft = False     # a satellite was processed up to the tags
        for q in order:
            if not full[q, t]:
                continue
            if att != 'kroot_bit' and att != 'kroot_mix':
                if sent[q][1] >> 4 == did and (
                        j < j0 or att not in ('kroot_sig', 'kroot_new')):
                    roots.add(sent[q][1] & 15)
                    if len(roots) == nb:
                        root = True
            if not root or (forged and q == x) or att == 'early':
                continue
            if not full.get((q, t-30)):
                continue
            if att in ('macseq', 'tag') and q == x:
                continue
            for k, (a, adkd, fx) in enumerate(tg[q, t-30]):
                if att == 'info' and q == x and (k > 0 or True):
                    continue
                have = a in prns and full.get((a, t-60)) and \
                    first.get((a, t-30)) and first.get((a, t))
                if adkd == 4:
                    if have:
                        utc += 1
                elif not have or ((forged or att == 'nav') and a == x):
                    continue
                elif adkd == 0:
                    z = a, con(a, t-60).iod
                    ok[z] = ok.get(z, 0)+1
                elif slow:
                    pend.append((t-30, (a, con(a, t-60).iod)))
            aft = True
        if aft:
            for s, z in pend:
                if s+300 == t-30:
                    ok[z] = ok.get(z, 0)+1
        # upper bound: all tags sent so far
    for (q, t), inf in tg.items():
        if forged and q == x or att == 'early':
            continue
        for k, (a, adkd, fx) in enumerate(inf):
            if adkd == 4:
                if t+30 <= t0+30*(n-1):
                    utcmax += 1
            elif a in prns and (a != x or not forged and att != 'nav'):
                if t+30 <= t0+30*(n-1) and (adkd == 0 or slow):
                    z = a, con(a, t-30).iod
                    up[z] = up.get(z, 0)+1
    if att in ('kroot_bit', 'kroot_mix', 'early'):
        check(not rx.vstatus, 'data authenticated (attack %s): %r',
              att, rx.vstatus)
        if att == 'kroot_bit':
            check(not rx.status & uOSNMA.ROOTKEY_VERIFIED,
                  'altered root key accepted')
        return True
    got = {(q, i): v for q, d in rx.vstatus.items() for i, v in d.items()
           if q != osnma.GALMAX+1}
    for z, v in got.items():
        check(z in up, 'navigation data IOD %d of E%02d authenticated '
              '(attack %s on E%02d)', z[1], z[0], att, x)
        check(v <= up[z], 'E%02d IOD %d authenticated %d times by %d tags',
              z[0], z[1], v, up[z])
        check(rx.chk_nav(*z), 'chk_nav')
    for z, v in ok.items():
        check(got.get(z, 0) >= v, 'E%02d IOD %d: %d tags verified, at least '
              '%d expected (%r, loss %g, attack %s)', z[0], z[1],
              got.get(z, 0), v, p, c['loss'], att)
    u = rx.vstatus.get(osnma.GALMAX+1, {}).get(0, 0)
    check(utc <= u <= utcmax, 'UTC verified %d times, %d..%d expected',
          u, utc, utcmax)
    same('UTC flag', bool(rx.status & uOSNMA.UTC_VERIFIED), u > 0)
    if root:
        check(rx.status & uOSNMA.ROOTKEY_VERIFIED, 'root key not verified')
    if len({z[0] for z in ok}) >= 4:
        check(rx.status & uOSNMA.POS_AUTH, 'position authentication flag')
    if rx.status & uOSNMA.POS_AUTH:
        check(len({z[0] for z in got}) >= 4, 'position with %d satellites',
              len({z[0] for z in got}))
    for q in prns+[unseen]:
        for i in (0, 1, 1023):
            if (q, i) not in up:
                check(not rx.chk_nav(q, i), 'chk_nav of unseen data')
    return bool(ok) or att != 'none'


# ------------------------------------------------- public key renewal

@facet('pkr', st.tuples(st.integers(0, 2**40), st.sampled_from(
    ['ok', 'ok', 'ok', 'path', 'key', 'id', 'root', 'mid', 'noroot',
     'type'])),
       quick=120, thorough=1500, rule='always')
def pkr(c):
    """a new public key is installed iff its Merkle path leads to the root"""
    fd, tmp = tempfile.mkstemp()
    os.close(fd)
    try:
        rx = newrx(tmp)
        return _pkr(rx, *c)
    finally:
        os.unlink(tmp)


def send(rx, dsm, nb, hdr, did, rnd, t, prn=1):
    """DSM block by block; returns the next sub-frame time"""
    blk = list(range(nb))
    k0 = rnd.randrange(nb)
    blk = blk[k0:]+blk[:k0]
    if rnd.random() < .3:
        blk = [blk[0]]+blk
    for k in blk:
        h = hdr+Bits().u(did, 4).u(k, 4).bytes()+bytes(dsm[k*13:k*13+13])
        for j in range(15):
            rx.decode(bytes([h[j]])+rnd.randbytes(4), t//604800+1024,
                      t % 604800+2*j+1, prn)
        t += 30
    return t


def _pkr(rx, seed, mode):
    rnd = random.Random(seed)
    mid = rnd.randrange(16)
    typ = rnd.choice([1, 1, 3, 4])
    if mode == 'type':
        typ = 1
    keys = [key(rnd, ec.SECP521R1 if (typ == 3 and k == mid)
                else ec.SECP256R1) for k in range(16)]
    leaves = []
    nb = {1: 13, 3: 16, 4: rnd.choice([13, 16])}[typ]
    pkid = rnd.randrange(1, 16)
    for k in range(16):
        ty = typ if k == mid else 1
        x = rnd.randbytes((nb*104-1040)//8) if ty == 4 else N.pub(keys[k])
        if mode == 'type' and k == mid:     # reserved
            ty = rnd.choice([0, 2, 5, 9, 15])
        leaves.append(bytes([ty << 4 | (pkid if k == mid else (k+1) % 16)])+x)
    dsm, nb, root = N.dsm_pkr(leaves, mid, nb)
    dsm = bytearray(dsm)
    rx.root_mt = root
    if mode == 'path':
        dsm[1+rnd.randrange(128)] ^= 1 << rnd.randrange(8)
    elif mode == 'key' or (mode == 'mid' and typ == 4):
        mode = 'key'
        k = rnd.randrange(131, 130+len(leaves[mid])-1)
        dsm[k] ^= 1 << rnd.randrange(8)
    elif mode == 'id':
        dsm[129] ^= 1 << rnd.randrange(4)
    elif mode == 'root':
        rx.root_mt = rnd.randbytes(32)
    elif mode == 'mid':
        dsm[0] ^= 1 << rnd.randrange(4)
    elif mode == 'noroot':
        rx.root_mt = -1
    t = 604800*rnd.randrange(1000, 1400)+30*rnd.randrange(20000)
    old = key(rnd).public_key()
    rx.pk_list = {pkid: old}
    kroot = rnd.random() < .5
    hdr = N.header(1, cpks=4)
    if kroot:       # root key first, signed by the old or another key
        p = params(rnd)
        ch = N.Chain(rnd, (t//3600-1)*3600, 3, p)
        d, n_ = N.dsm_kroot(ch, hdr, (pkid+1) % 16, 1, key(rnd), 0)
        t = send(rx, d, n_, hdr, 3, rnd, t)
    t = send(rx, bytes(dsm), nb, hdr, 12+rnd.randrange(4), rnd, t)
    good = mode == 'ok'
    same('renewal accepted', bool(rx.status & uOSNMA.PKR_UPDATED), good)
    same('keys', sorted(rx.pk_list), [pkid])
    exp = keys[mid].public_key() if good and typ != 4 else old
    same('key', rx.pk_list[pkid].public_numbers(), exp.public_numbers())
    if typ == 1:
        # a root key signed with the new key is accepted iff it is installed
        p = params(rnd)
        ch = N.Chain(rnd, (t//3600-1)*3600, 3, p)
        d, n_ = N.dsm_kroot(ch, hdr, pkid, 1, keys[mid], 0)
        send(rx, d, n_, hdr, 5, rnd, t)
        same('root key verified', bool(rx.status & uOSNMA.ROOTKEY_VERIFIED),
             good)
    return True


# ------------------------------------------------- keys and trees from files

@facet('files', st.integers(0, 2**40), quick=40, thorough=300,
       rule='always')
def files(seed):
    """public keys and Merkle trees are loaded from files"""
    rnd = random.Random(seed)
    with tempfile.TemporaryDirectory() as d:
        rx = newrx(os.path.join(d, 'log'))
        rx.pubk_bdir = d+'/'
        ids = rnd.sample(range(16), 3)
        ks = {}
        for i in ids:
            ks[i] = key(rnd).public_key()
            pem = rnd.random() < .5
            f = 'k%d.%s' % (i, 'pem' if pem else 'der')
            with open(os.path.join(d, f), 'wb') as fh:
                fh.write(ks[i].public_bytes(
                    ser.Encoding.PEM if pem else ser.Encoding.DER,
                    ser.PublicFormat.SubjectPublicKeyInfo))
            check(rx.load_pubkey_pkid(f, i), 'key file %s', f)
        same('IDs', sorted(rx.pk_list), sorted(ids))
        for i in ids:
            same('key', rx.pk_list[i].public_numbers(),
                 ks[i].public_numbers())
        check(not rx.load_pubkey_pkid('k.txt', 1), 'unknown type')
        # Merkle tree
        sk = [key(rnd) for _ in range(16)]
        lv = [bytes([0x10 | k])+N.pub(s) for k, s in enumerate(sk)]
        tr = N.merkle(lv)
        xml = '<signalData><header/><body><MerkleTree>'
        own = rnd.sample(range(16), 3)
        for k in own:
            xml += ('<PublicKey><PKID>%d</PKID><point>%s</point>'
                    '<PKType>ECDSA P-256/SHA-256</PKType></PublicKey>'
                    % (k, N.pub(sk[k]).hex()))
        xml += ('<PublicKey><PKID>0</PKID><point>%s</point><PKType>OAM'
                '</PKType></PublicKey>' % rnd.randbytes(30).hex())
        for j, r in enumerate(tr):
            for i, x in enumerate(r):
                xml += ('<TreeNode><j>%d</j><i>%d</i><lengthInBits>256'
                        '</lengthInBits><x_ji>%s</x_ji></TreeNode>'
                        % (j, i, x.hex().upper()))
        xml += '</MerkleTree></body></signalData>'
        with open(os.path.join(d, 'mt.xml'), 'w') as fh:
            fh.write(xml)
        r2 = newrx(os.path.join(d, 'log2'))
        r2.load_mt(os.path.join(d, 'mt.xml'))
        same('root', bytes(r2.root_mt), tr[4][0])
        same('keys', sorted(k for k in r2.pk_list), sorted(
            set(own)-({0} if False else set())))
        for k in own:
            same('key', r2.pk_list[k].public_numbers(),
                 sk[k].public_key().public_numbers())
    return True
