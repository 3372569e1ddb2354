"""C16 RTCM 3: framing, observations (MSM), ephemerides, station messages"""
import numpy as np
from math import floor
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen, rtcmenc as R
from vlib.bits import Bits
from vlib.rtcmenc import sno
from cssrlib import gnss as g
from cssrlib.gnss import uTYP
from cssrlib.rtcm import rtcm, rtcme, sRTCM


SCALE = 7
def leap(week, tow):
    """GPS-UTC for the weeks used here"""
    t = week*604800+tow
    for wk, s, n in ((1930, 17, 18), (1851, 259216, 17), (1695, 16, 16)):
        if t >= wk*604800+s:
            return n
    return 15


def newdec(week, tow):
    d = rtcm()
    d.monlevel = 0
    d.week = week
    d.time = g.gpst2time(week, float(tow))
    return d


def feed(d, fr):
    check(d.sync(fr, 0), 'no sync')
    check(d.checksum(fr, 0, len(fr)+1), 'checksum of a valid frame')
    same('frame length', d.dlen, len(fr))
    return d.decode(fr[:d.len+3])


# ---------------------------------------------------------------- framing

@facet('frame', st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(6, 60), st.integers(6, 1023)),
    seed=st.integers(0, 2**32-1),
    mode=st.sampled_from(['ok', 'flip1', 'flip2', 'flip3', 'odd', 'burst']),
    k=st.integers(0, 40))), quick=300, thorough=6000,
    rule='a corrupted frame was offered')
def framing(c):
    """valid frames pass, errors within the guaranteed detection capability
    of CRC-24Q are detected"""
    r = np.random.default_rng(c['seed'])
    body = r.integers(0, 256, c['n'], dtype=np.uint8).tobytes()
    fr = R.frame(body, int(r.integers(0, 64)) if c['k'] % 3 == 0 else 0)
    pre = bytes(c['k'])
    d = rtcm()
    d.monlevel = 0
    buf = pre+fr
    check(d.checksum(buf, c['k'], len(buf)+1), 'valid frame rejected')
    same('len', (d.len, d.dlen), (c['n'], c['n']+6))
    e = rtcme()
    msg = bytearray(len(fr))
    e.set_sync(msg, 0)
    e.set_len(msg, 0, c['n'])
    e.set_body(msg, b'\0\0\0'+body, 0, c['n']+3)
    e.set_checksum(msg, 0)
    check(bytes(msg) == R.frame(body), 'encoded frame differs')
    nb = (c['n']+3)*8       # error positions in body and CRC
    if c['mode'] == 'ok':
        return False
    if c['mode'] == 'burst':
        ln = int(r.integers(2, 25))
        s = int(r.integers(0, nb-ln+1))
        m = int(r.integers(0, 1 << (ln-2) if ln > 2 else 1))
        pos = [s, s+ln-1]+[s+1+j for j in range(ln-2) if (m >> j) & 1]
    else:
        n = {'flip1': 1, 'flip2': 2, 'flip3': 3,
             'odd': int(r.integers(1, 10))*2+1}[c['mode']]
        pos = r.choice(nb, n, replace=False)
    w = bytearray(buf)
    for p in pos:
        w[c['k']+3+int(p)//8] ^= 0x80 >> (int(p) % 8)
    check(not d.checksum(bytes(w), c['k'], len(w)+1),
          'corrupted frame accepted (%s)', c['mode'])
    return c['mode']


@facet('stream', st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**32-1), n=st.integers(1, 8),
    cut=st.integers(0, 60), bad=st.booleans())), quick=150, thorough=3000,
    rule='at least two frames')
def stream(c):
    """every intact frame of a byte stream with garbage between the frames
    and a truncated end is found, and nothing else"""
    r = np.random.default_rng(c['seed'])
    buf = b''
    exp = []
    for k in range(c['n']):
        m = int(r.integers(0, 3))
        gb = bytes(x if x != 0xd3 or r.random() < .5 else 0
                   for x in r.integers(0, 256, int(r.integers(0, 12))))
        buf += gb if m else b''
        t = [1005, 1006, 1230, 1007][int(r.integers(0, 4))]
        b = Bits().u(t, 12).u(int(r.integers(0, 4096)), 12)
        pad = {1005: 19, 1006: 21, 1230: 12, 1007: 6}[t]
        if t == 1007:
            b.u(0, 16)
        fr = R.frame(b.bytes(pad))
        if c['bad'] and r.random() < .3:
            fr = fr[:5]+bytes([fr[5] ^ 0x10])+fr[6:]
        else:
            exp.append((len(buf), t, R.Bits and int.from_bytes(
                fr[3:6], 'big') & 4095))
        buf += fr
    # a frame that is not complete
    fr = R.frame(bytes([0x3e, 0xd0])+bytes(17))
    buf += fr[:min(c['cut'], len(fr)-1)]
    d = rtcm()
    d.monlevel = 0
    k, got = 0, []
    while k < len(buf):
        if not d.sync(buf, k):
            k += 1
            continue
        if not d.checksum(buf, k, len(buf)):
            k += 1
            continue
        d.decode(buf[k:k+d.len+3])
        got.append((k, d.msgtype, d.refid))
        k += d.dlen
    same('frames', got, exp)
    return len(exp) > 1


# -------------------------------------------------------------------- MSM

@st.composite
def msmhist(draw):
    rnd = draw(st.randoms(use_true_random=False))
    week = draw(st.sampled_from([1720, 1800, 1851, 2086, 2200, 2400]))
    tow = draw(st.one_of(st.integers(0, 604799), st.integers(0, 40),
                         st.integers(604760, 604799),
                         st.integers(593900, 594100)))
    if week == 1851:        # the week of a leap second, not at its ends
        tow = 100+tow % 590000
    ms = []
    prev = {}
    for k in range(rnd.randint(1, 4)):
        for c in rnd.sample('GREJCS', rnd.randint(1, 3)):
            typ = rnd.choice([4, 5, 6, 7, 7, 7, 1, 2, 3]) if k == 0 or \
                c not in prev else prev[c]['typ']
            d = R.rmsm(rnd, c, typ, 0, 64)
            if c in prev and rnd.random() < .8:
                # same satellites and signals with the lock time going on
                p = prev[c]
                d.update(sats=p['sats'], sigs=p['sigs'])
                n = len(d['sats'])
                cell = [[int(rnd.random() < .9) for _ in d['sigs']]
                        for _ in d['sats']]
                q = R.rmsm(rnd, c, typ, 0, 64)
                m = sum(map(sum, cell))

                def ext(v, n):
                    return [v[i % len(v)] for i in range(n)] if v else \
                        [0]*n
                for f in ('ms', 'mod', 'ex', 'rr'):
                    d[f] = ext(q[f], n)
                for f in ('pr', 'cp', 'cnr', 'dop'):
                    d[f] = ext(q[f], m)
                d['cell'] = cell
                mx = 1023 if typ > 5 else 15
                d['lock'] = [rnd.choice([0, 1, 5, mx, rnd.randint(0, mx)])
                             for _ in range(m)]
                d['half'] = [int(rnd.random() < .2) for _ in range(m)]
            d['t'] = tow*1000+rnd.choice([0, 0, 500, 1, 999])
            prev[c] = d
            ms.append(d)
        tow = min(tow+rnd.choice([1, 1, 5, 30]), 604799)
    return dict(week=week, ms=ms)


def msmepoch(c, week, tms):
    """30-bit epoch field of GPS time (ms of week)"""
    if c == 'R':
        s = tms-leap(week, tms//1000)*1000+10800000
        s %= 604800000
        return (s//86400000) << 27 | s % 86400000
    if c == 'C':
        return (tms-14000) % 604800000
    return tms


@facet('msm', msmhist(), quick=150, thorough=2500,
       rule='a cell with phase and pseudorange')
def msm(h):
    d = newdec(h['week'], h['ms'][0]['t']//1000)
    lk = {}
    lab = 0
    for m in h['ms']:
        m = dict(m, ep=msmepoch(m['c'], h['week'], m['t']))
        fr = R.frame(R.msm_bits(m).bytes())
        td = d.decode_time(fr)
        _, obs, eph, geph, seph = feed(d, fr)
        t = g.gpst2time(h['week'], m['t']//1000)
        t = g.timeadd(t, (m['t'] % 1000)*1e-3)
        tag = '%s MSM%d' % (m['c'], m['typ'])
        eq(tag+' epoch', g.timediff(obs.t, t), 0, 1e-6)
        eq(tag+' obs.time', g.timediff(obs.time, t), 0, 1e-6)
        eq(tag+' decode_time', g.timediff(td, t), 0, 1e-6)
        same(tag+' station', d.refid, m['ref'])
        same(tag+' iods', (int(d.mi), d.iods), (m['mi'], m['iods']))
        sys = gen.SYS[m['c']]
        same(tag+' sats', [int(s) for s in obs.sat],
             [sno(m['c'], s+R.PRN0[m['c']]) for s in m['sats']])
        codes = [R.SIG[m['c']][s] for s in m['sigs']]
        for ty, pf in ((uTYP.C, 'C'), (uTYP.L, 'L'), (uTYP.S, 'S')):
            same(tag+' signals', [s.str() for s in obs.sig[sys][ty]],
                 [pf+s for s in codes])
        exp = R.msm_expect(m)
        for k, sat in enumerate(int(s) for s in obs.sat):
            for q, s in enumerate(codes):
                P, L, S, lock, half = exp.get((sat, s), (0, 0, 0, 0, 0))
                w = '%s %s %s ' % (tag, g.sat2id(sat), s)
                eq(w+'P', obs.P[k, q], P, 1e-4)
                eq(w+'L', obs.L[k, q], L, 1e-4)
                eq(w+'S', obs.S[k, q], S, 1e-9)
                lli = 0
                if (sat, s) in exp and m['typ'] > 1:
                    if lk.get((sat, s), -1) > lock:
                        lli |= 1
                    if half:
                        lli |= 3
                    lk[(sat, s)] = lock
                same(w+'lli', int(obs.lli[k, q]), lli)
                if P and L:
                    lab += 1
    return lab > 0


# ------------------------------------------------------------- ephemerides

@st.composite
def ephmsg(draw):
    rnd = draw(st.randoms(use_true_random=False))
    mt = draw(st.sampled_from(sorted(R.EPH)))
    c, spec, sc, _ = R.EPH[mt]
    week = draw(st.sampled_from([1023+1, 1400, 2047, 2048, 2049, 2200, 2300,
                                 3071, 3072]))
    tow = draw(st.one_of(st.integers(0, 604799), st.integers(0, 7200),
                         st.integers(597600, 604799)))
    toe = (tow+draw(st.integers(-7200, 7200)))//sc*sc   # may leave the week
    toc = toe
    v = {n: R.ri(rnd, t, k) for n, t, k, s in spec}
    if rnd.random() < .3:
        toc = max(0, min(604799//sc*sc, toe % 604800 +
                         rnd.randint(-5, 5)*sc))-toe % 604800+toe
    v['toe'], v['toc'] = toe % 604800//sc, toc % 604800//sc
    if toe//604800 != toc//604800:
        v['toc'] = v['toe']
        toc = toe
    wk = week+toe//604800
    v['week'] = {'G': wk % 1024, 'J': wk % 1024, 'E': (wk-1024) % 4096,
                 'C': wk-1356, 'I': (wk-1024) % 1024}[c]
    lo, hi = gen.PRN[c]
    v['prn'] = rnd.randint(1, {'J': 10, 'I': 14}.get(c, hi))
    return dict(mt=mt, v=v, week=week, tow=tow, toe=[wk, toe % 604800],
                toc=[wk, toc % 604800])


@facet('ephemeris', ephmsg(), quick=500, thorough=8000,
       rule='every message')
def ephem(m):
    c, spec, sc, _ = R.EPH[m['mt']]
    if c == 'C' and m['v']['week'] < 0:
        return False
    d = newdec(m['week'], m['tow'])
    t0 = d.time
    b = R.put(Bits().u(m['mt'], 12), [x[:3] for x in spec], m['v'])
    _, obs, eph, geph, seph = feed(d, R.frame(b.bytes()))
    check(eph is not None and geph is None and seph is None and obs is None,
          'no ephemeris from %d', m['mt'])
    v = m['v']
    same('sat', int(eph.sat), sno(c, v['prn']+(192 if c == 'J' else 0)))
    for n, t, k, s in spec:
        if s == 0 or n == 'sqrtA':
            continue
        eq('%d %s' % (m['mt'], n), getattr(eph, n), v[n]*s, 1e-300, 1e-12)
    eq('A', eph.A, (v['sqrtA']*2.**-19)**2, 0, 1e-12)
    off = 14.0 if c == 'C' else 0.0
    for n in ('toe', 'toc'):
        wk, s = m[n]
        eq('%d %s' % (m['mt'], n), g.timediff(getattr(eph, n), g.timeadd(
            g.gpst2time(wk, float(s)), off)), 0, 1e-6)
    eq('toes', eph.toes, m['toe'][1])
    eq('tot', g.timediff(eph.tot, t0), 0, 1e-9)
    if m['mt'] == 1045:
        same('svh', eph.svh, v['hs5a'] << 4 | v['dvs5a'] << 3)
        same('source', (eph.code, eph.mode), (0x102, 1))
        same('iodc', eph.iodc, v['iode'])
    elif m['mt'] == 1046:
        same('svh', eph.svh, v['hs5b'] << 7 | v['dvs5b'] << 6 |
             v['hs1'] << 1 | v['dvs1'])
        same('source', (eph.code, eph.mode), (0x205, 0))
        same('iodc', eph.iodc, v['iode'])
    else:
        same('mode', eph.mode, 0)
    return str(m['mt'])


@st.composite
def glomsg(draw):
    rnd = draw(st.randoms(use_true_random=False))
    week = draw(st.sampled_from([1750, 1900, 2200, 2300]))
    tow = draw(st.one_of(st.integers(0, 604799), st.integers(0, 6).map(
        lambda k: k*86400+rnd.randint(-1800, 1800) % 604800), st.integers(
            0, 6).map(lambda k: k*86400+75600+rnd.randint(-1800, 1800))))
    tow %= 604800
    v = {n: R.ri(rnd, t, k) for n, t, k in R.E_GLO}
    v['prn'] = rnd.randint(1, 24)
    v['frq'] = rnd.randint(0, 13)
    # Moscow time of day
    ls = leap(week, tow)
    mt = week*604800+tow-ls+10800
    tb = (mt+rnd.randint(-900, 1800))//900*900
    tk = (mt-rnd.randint(0, 600))//30*30
    v['tb'] = tb % 86400//900
    s = tk % 86400
    v['tkh'], v['tkm'], v['tks'] = s//3600, s//60 % 60, s//30 % 2
    return dict(v=v, week=week, tow=tow, toe=tb-10800+ls, tof=tk-10800+ls)


@facet('glonass', glomsg(), quick=300, thorough=5000, rule='every message')
def gloeph(m):
    v = m['v']
    d = newdec(m['week'], m['tow'])
    b = R.put(Bits().u(1020, 12), R.E_GLO, v)
    _, obs, eph, geph, seph = feed(d, R.frame(b.bytes()))
    check(geph is not None and eph is None, 'no GLONASS ephemeris')
    same('sat', int(geph.sat), sno('R', v['prn']))
    same('frequency channel', geph.frq, v['frq']-7)
    for k, a in enumerate('xyz'):
        eq('position '+a, geph.pos[k], v[a]*2.**-11*1e3, 1e-7)
        eq('velocity '+a, geph.vel[k], v['v'+a]*2.**-20*1e3, 1e-9)
        eq('acceleration '+a, geph.acc[k], v['a'+a]*2.**-30*1e3, 1e-15)
    eq('gamma', geph.gamn, v['gam']*2.**-40, 0, 1e-12)
    eq('tau', geph.taun, v['tau']*2.**-30, 0, 1e-12)
    eq('dtau', geph.dtaun, v['dtau']*2.**-30, 0, 1e-12)
    same('age', geph.age, v['En'])
    same('iode', geph.iode, v['tb'])
    same('health', geph.svh, v['bn'])
    same('flags', geph.status, v['M'] << 7 | v['P4'] << 6 | v['P3'] << 5 |
         v['P2'] << 4 | v['P1'] << 2 | v['P'])
    for n in ('toe', 'tof'):
        eq(n, g.timediff(getattr(geph, n), g.gpst2time(
            m[n]//604800, float(m[n] % 604800))), 0, 1e-6)
    return True


@st.composite
def sbsmsg(draw):
    rnd = draw(st.randoms(use_true_random=False))
    week = draw(st.sampled_from([1750, 2200]))
    tow = draw(st.one_of(st.integers(0, 604799), st.integers(0, 6).map(
        lambda k: (k*86400+rnd.randint(-300, 300)) % 604800)))
    v = {n: R.ri(rnd, t, k) for n, t, k in R.E_SBS}
    v['prn'] = rnd.randint(1, 39)
    t0 = (week*604800+tow+rnd.randint(-250, 250))//16*16
    v['toc'] = t0 % 86400//16
    return dict(v=v, week=week, tow=tow, t0=t0)


@facet('sbas', sbsmsg(), quick=200, thorough=3000, rule='every message')
def sbseph(m):
    v = m['v']
    d = newdec(m['week'], m['tow'])
    b = R.put(Bits().u(1043, 12), R.E_SBS, v)
    _, obs, eph, geph, seph = feed(d, R.frame(b.bytes()))
    check(seph is not None, 'no SBAS ephemeris')
    same('sat', int(seph.sat), sno('S', v['prn']+119))
    same('iodn', seph.iodn, v['iodn'])
    same('sva', seph.sva, v['sva'])
    for k, (a, s1, s2, s3) in enumerate((
            ('x', .08, .000625, .0000125), ('y', .08, .000625, .0000125),
            ('z', .4, .004, .0000625))):
        eq('position '+a, seph.pos[k], v[a]*s1, 1e-6)
        eq('velocity '+a, seph.vel[k], v['v'+a]*s2, 1e-9)
        eq('acceleration '+a, seph.acc[k], v['a'+a]*s3, 1e-12)
    eq('af0', seph.af0, v['af0']*2.**-31, 0, 1e-12)
    eq('af1', seph.af1, v['af1']*2.**-40, 0, 1e-12)
    eq('t0', g.timediff(seph.t0, g.gpst2time(
        m['t0']//604800, float(m['t0'] % 604800))), 0, 1e-6)
    return True


# ---------------------------------------------------------------- stations

TXT = st.text(alphabet=[chr(c) for c in range(32, 127)], max_size=31)


@facet('station', st.fixed_dictionaries(dict(
    seq=st.lists(st.one_of(
        st.tuples(st.just('pos'), st.sampled_from([1005, 1006, 1032]),
                  st.lists(st.integers(-2**37+1, 2**37-1), min_size=3,
                           max_size=3), st.integers(0, 65535),
                  st.integers(0, 15)),
        st.tuples(st.just('ant'), st.sampled_from([1007, 1008, 1033]),
                  st.lists(TXT, min_size=5, max_size=5),
                  st.integers(0, 255)),
        st.tuples(st.just('glo'), st.integers(0, 15),
                  st.lists(st.integers(-32768, 32767), min_size=4,
                           max_size=4))), min_size=1, max_size=6),
    ref=st.lists(st.integers(0, 4095), min_size=6, max_size=6),
    scan=st.booleans())), quick=300, thorough=5000, rule='every history')
def station(h):
    d = newdec(2200, 0)
    e = {}
    for ref, m in zip(h['ref'], h['seq']):
        m = list(m)
        if m[0] == 'pos':
            mt, p, hgt, ind = m[1], m[2], m[3], m[4]
            b = Bits().u(mt, 12)
            if mt == 1032:
                b.u(ref ^ 1, 12)
            b.u(ref, 12).u(ref % 64, 6)
            if mt != 1032:
                b.u(ind, 4)
            b.s(p[0], 38)
            if mt != 1032:
                b.u(ind % 4, 2)
            b.s(p[1], 38)
            if mt != 1032:
                b.u(ind % 3, 2)
            b.s(p[2], 38)
            if mt == 1006:
                b.u(hgt, 16)
                e['hgt'] = hgt*1e-4
            e['pos'] = [v*1e-4 for v in p]
        elif m[0] == 'ant':
            mt, tx = m[1], m[2]
            b = Bits().u(mt, 12).u(ref, 12)

            def text(s):
                b.u(len(s), 8)
                for ch in s:
                    b.u(ord(ch), 8)
            text(tx[0])
            b.u(m[3], 8)
            e['desc'], e['id'] = tx[0], m[3]
            if mt != 1007:
                text(tx[1])
                e['serial'] = tx[1]
            if mt == 1033:
                for k in (2, 3, 4):
                    text(tx[k])
                e['rcv'] = tx[2:]
            if b.n < 48:
                b.pad(48)
        else:
            mt = 1230
            b = Bits().u(mt, 12).u(ref, 12).u(1, 1).u(0, 3).u(m[1], 4)
            e['glo'] = [0.0]*4
            for k in range(4):
                if (m[1] >> (3-k)) & 1:
                    b.s(m[2][k], 16)
                    e['glo'][k] = m[2][k]*0.02
            if b.n < 48:
                b.pad(48)
        fr = R.frame(b.bytes())
        check(d.checksum(fr, 0, len(fr)+1), 'checksum')
        d.decode(fr[:d.len+3], scanmode=h['scan'])
        same('station id', d.refid, ref)
        if 'pos' in e:
            eq('position', d.pos_arp, e['pos'], 1e-6)
        if 'hgt' in e:
            eq('antenna height', d.ant_height, e['hgt'], 1e-9)
        if 'desc' in e:
            same('antenna', (d.ant_desc, d.ant_id), (e['desc'], e['id']))
        if 'serial' in e:
            same('antenna serial', d.ant_serial, e['serial'])
        if 'rcv' in e:
            same('receiver', [d.rcv_type, d.firm_ver, d.rcv_serial],
                 e['rcv'])
        if 'glo' in e:
            eq('GLONASS biases', d.glo_bias, e['glo'], 1e-9)
    return True


@facet('misc', st.fixed_dictionaries(dict(
    mt=st.sampled_from([1029, 1030, 1031]), seed=st.integers(0, 2**32-1),
    tow=st.integers(0, 604799), txt=st.text(max_size=40),
    skip=st.booleans())), quick=200, thorough=3000, rule='every message')
def misc(c):
    """text, network RTK residuals, skipped messages"""
    import random
    rnd = random.Random(c['seed'])
    week = 2200
    d = newdec(week, c['tow'])
    if c['mt'] == 1029:
        u = c['txt'].encode('utf-8', 'ignore')[:127]
        u = u.decode('utf-8', 'ignore').encode()
        b = Bits().u(1029, 12).u(rnd.randrange(4096), 12).u(59000, 16)
        b.u(100, 17).u(len(u.decode()), 7).u(len(u), 8)
        for x in u:
            b.u(x, 8)
    else:
        glo = c['mt'] == 1031
        b = Bits().u(c['mt'], 12)
        if glo:
            b.u((c['tow']-18+10800) % 86400, 17)
        else:
            b.u(c['tow'], 20)
        ref, nref = rnd.randrange(4096), rnd.randrange(128)
        sats = rnd.sample(range(1, 25), rnd.randint(0, 12))
        b.u(ref, 12).u(nref, 7).u(len(sats), 5)
        exp = {}
        for p in sats:
            f = [rnd.randrange(1 << n) for n in (8, 9, 6, 10, 10)]
            b.u(p, 6)
            for v, n in zip(f, (8, 9, 6, 10, 10)):
                b.u(v, n)
            exp[sno('R' if glo else 'G', p)] = [
                f[0]*5e-4, f[1]*1e-8, f[2]*1e-7, f[3]*5e-4, f[4]*1e-8]
    fr = R.frame(b.bytes())
    if c['skip']:
        d.mt_skip = [c['mt']]
        r = feed(d, fr)
        check(len(r) == 5 and all(x is None for x in r[1:]),
              'skipped message %r', r)
        same('nothing stored', d.nrtk_r, {})
        return True
    r = feed(d, fr)
    check(len(r) == 5 and all(x is None for x in r[1:]), 'result %r', r)
    if c['mt'] == 1029:
        same('text', d.ustr, u.decode())
        return True
    same('station', (d.refid, d.nrefs, d.nsat), (ref, nref, len(sats)))
    same('satellites', sorted(int(s) for s in d.nrtk_r), sorted(exp))
    for s in exp:
        eq('residual', d.nrtk_r[s], exp[s], 1e-12)
    td = d.decode_time(fr)
    eq('epoch', g.timediff(td, g.gpst2time(week, float(c['tow']))), 0, 1e-6)
    return True


# ------------------------------------------------------------------ tables

@facet('msm_time', st.fixed_dictionaries(dict(
    c=st.sampled_from('GREJCS'), week=st.sampled_from([1750, 1900, 2200]),
    tms=st.one_of(st.integers(0, 604799999), st.integers(0, 30000),
                  st.integers(604760000, 604799999),
                  st.integers(593900000, 594100000)))),
    quick=400, thorough=8000, rule='every case')
def msm_time(c):
    """epoch field and back, both directions"""
    week, tms = c['week'], c['tms']
    t = g.timeadd(g.gpst2time(week, tms//1000), (tms % 1000)*1e-3)
    e = rtcme()
    _, ep = e.encode_msm_time(gen.SYS[c['c']], t)
    same('epoch field', int(ep), msmepoch(c['c'], week, tms))
    d = newdec(week, tms//1000)
    td, _ = d.decode_msm_time(gen.SYS[c['c']], week, ep)
    eq('decoded', g.timediff(td, t), 0, 1e-6)
    return True
