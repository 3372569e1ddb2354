"""C30 RTCM SC-134 integrity messages"""
import os
import random
import re
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from vlib import gen, rtcmenc as R
from vlib.bits import Bits
from cssrlib import gnss as g
from cssrlib.rtcm import rtcm

SCALE = 12
ORD = 'GRECJI'              # constellation mask DFi013
MAXID = {'G': 32, 'R': 24, 'E': 36, 'C': 63, 'J': 10, 'I': 14}
NF = {'G': 3, 'R': 3, 'E': 5, 'C': 6, 'J': 4, 'I': 3}   # defined frequencies
VP = [1, 2, 5, 10, 15, 30, 60, 120, 240, 300, 600, 900, 1800, 3600, 7200,
      10800]
MT = [2000, 2005, 2006, 2007, 2008, 2051, 2091, 2071, 2072, 2011]
SYS = dict(gen.SYS)
SYS.setdefault('I', g.uGNSS.IRN)

# tables of the data fields (value of each index)
T36 = [.02, .04, .06, .08, .10, .12, .14, .16, .18, .20, .25, .30, .35, .40,
       .45, .50, .60, .70, .80, .90, 1, 1.25, 1.5, 1.75, 2, 2.5, 3, 4, 5, 7,
       -1, -1]
T38 = [k*1e-3 for k in range(1, 21)]+[.022, .024, .026, .028, .030, .032,
                                      .034, .036, .040, .045, .050, -1]
T39 = [.001, .002, .003, .004, .005, .006, .008, .010, .012, .014, .016,
       .018, .020, .025, .030, -1]
T37 = [0, .01, .02, .03, .04, .05, .075, .1, .2, .4, .6, .8, 1, 3, 7, -1]
T34 = [5, 10, 30, 60, 120, 600, 900, 1800, 3600, 7200, 10800, 21600, 43200,
       86400, 604800, -1]
T40 = [0, 5, 10, 30, 60, 90, 300, 600, 1800, 3600, 7200, 14400, 28800, 57600,
       115200, -1]
T44 = [0, 5, 10, 20, 30, 45, 60, 120, 180, 300, 600, 1200, 3600, 7200, 14400,
       -1]
T45 = [0, 2, 5, 10, 20, 30, 45, 60, 120, 180, 240, 300, 600, 1800, 7200, -1]
TP = [10**x for x in (-11, -10, -9, -8, -7, -6.2, -6, -5.2, -5, -4.2, -4,
                      -3.3, -3, -2.3, -2)]+[-1]
T120 = [1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 3e-3, 6e-3, 1e-2, 3e-2, 6e-2, .1,
        .5, 5, 0, -1]
T121 = [1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 4e-4, 1e-3, 4e-3, .01,
        .04, .1, .5, 5, -1]
T122 = [1e-3, 2e-3, 5e-3, 7.5e-3, .01, .014, .018, .025, .05, .1, .15, .2,
        .5, 1, 20, -1]
T123 = [10.0**x for x in range(-11, 2)]+[0, 0, -1]
T125 = [5e-4, 1e-3, 2e-3, 4e-3, .01, .02, .05, -1]
T128 = [5e-3, 1e-2, 2e-2, 5e-2, .1, .25, 1, -1]
T130 = [.01, .02, .03, .05, .075, .1, .125, -1]
TMU = [0, .04, .07, .1, .2, .3, .5, 1, 2, 5, 10, 20, 50, 80, 100, -1]
TSG = [0, .04, .07, .1, .2, .25, .3, .4, .5, .7, 1, 2, 5, 7, 10, -1]


def mask(idx, n, o=0):
    return sum(1 << (n-1-(k-o)) for k in idx)


def sats(rnd, tot, lo=0):
    """systems and satellites of a message"""
    cs = sorted(rnd.sample(ORD, rnd.choice([lo, 1, 1, 2, 3])), key=ORD.index)
    o = {}
    for c in cs:
        n = rnd.choice([0, 1, 3, rnd.randint(0, tot//max(1, len(cs)))])
        n = min(n, MAXID[c], tot//len(cs))
        o[c] = sorted(rnd.sample(range(1, MAXID[c]+1), n))
        if n and rnd.random() < .2:
            o[c][-1] = MAXID[c]
    return o


def satno(c, k):
    return int(g.prn2sat(SYS[c], k+(192 if c == 'J' else 0)))


def build(rnd, mt, num=None):
    """message bits, expected fields {name: value}"""
    E = {}
    b = Bits().u(num or mt, 12)
    if num == 54:       # test message: working group, sub-message, revision
        b.u(rnd.randrange(1, 16), 4).u({2071: 9, 2072: 10}[mt], 8).u(
            rnd.randrange(16), 4)
    ms = rnd.choice([0, 604799999, rnd.randrange(604800000)])
    pid, vp, udi, aid = (rnd.randrange(4096), rnd.randrange(16),
                         rnd.randrange(65536), rnd.randrange(1024))
    b.u(ms, 30).u(pid, 12).u(vp, 4).u(udi, 16)
    E.update(tow=ms*1e-3, pid=pid, vp=VP[vp], udi=udi*.1)
    if mt != 2000:
        b.u(aid, 10)
        E['aid'] = aid

    def r(n):
        return R.ri(rnd, 'u', n)

    def per_sat(S, spec, b, s, c):
        for n, k, lo in spec:
            v = rnd.randrange(lo) if lo else r(k)
            b.u(v, k)
            E.setdefault(n, {}).setdefault(c, {})[s] = v

    if mt == 2000:
        S = sats(rnd, 34, 1)
        b.u(mask([ORD.index(c) for c in S], 16), 16).u(r(16), 16).u(
            r(16), 16)
        for n in ('iod_sys', 'sts', 'mst', 'src', 'freq', 'iod_freq', 'ists',
                  'msts'):
            E[n] = {}
        for c, ids in S.items():
            iod, sts, src = r(2), r(64), rnd.randrange(4)
            mon = sorted(rnd.sample(range(1, 65), rnd.randint(0, 64)))
            b.u(mask(ids, 64, 1), 64).u(iod, 2).u(sts, 64).u(
                mask(mon, 64, 1), 64).u(src, 3)
            E['iod_sys'][c], E['sts'][c], E['src'][c] = iod, sts, src
            E['mst'][c] = [k+(192 if c == 'J' else 0) for k in mon]
            for n in ('freq', 'iod_freq', 'ists', 'msts'):
                E[n][c] = {}
            for k in ids:
                s = satno(c, k)
                f = sorted(rnd.sample(range(NF[c]), rnd.randint(0, NF[c])))
                v = r(2), r(8), r(8)
                b.u(mask(f, 8), 8).u(v[0], 2).u(v[1], 8).u(v[2], 8)
                E['freq'][c][s] = f
                E['iod_freq'][c][s], E['ists'][c][s], E['msts'][c][s] = v
    elif mt == 2005:
        S = sats(rnd, 40)
        il, tt, sol = r(8), r(7), r(15)
        b.u(il, 8).u(tt, 7).u(sol, 15)
        E.update(ilvl=il, ttt=(tt+1)*.1, stype=sol)
        b.u(mask([ORD.index(c) for c in S], 16), 16)
        f = rnd.randrange(2)
        b.u(f, 1)
        if f:
            E['Paug'] = r(4)
            b.u(E['Paug'], 4)
        E['fc'], E['iod_p'] = bool(rnd.randrange(2)), r(6)
        b.u(E['fc'], 1).u(E['iod_p'], 6)
        A = [('mfd_s', 4), ('mfd_c', 4), ('tau_c', 4), ('sig_c', 5),
             ('tau_p', 4), ('sig_p', 5), ('Pa_cc', 4), ('Pa_cp', 4)]
        B = [('Pa_sc', 4), ('sig_ob_c', 5), ('Pa_sp', 4), ('b_ob_c', 4),
             ('sig_ob_p', 5), ('b_ob_p', 4)]
        for n, _ in A+B:
            E[n] = {}
        for c, ids in S.items():
            for n, k in A:
                E[n][c] = r(k)
                b.u(E[n][c], k)
            b.u(mask(ids, 64, 1), 64)
            for n, k in B:
                E[n][c] = {}
            for i in ids:
                per_sat(S, [(n, k, 0) for n, k in B], b, satno(c, i), c)
    elif mt == 2006:
        S = sats(rnd, 40)
        E['iod_ip'], E['fc'] = r(6), rnd.randrange(2)
        E['bias'] = [rnd.randrange(8), rnd.randrange(8)]
        b.u(E['iod_ip'], 6).u(mask([ORD.index(c) for c in S], 16), 16).u(
            E['fc'], 1).u(E['bias'][0], 3).u(E['bias'][1], 3)
        B = [('sig_cd', 4), ('sig_pd', 4), ('cbr', 3), ('sig_dp', 4),
             ('idx_dp', 4), ('ocr', 3), ('sig_ion', 3), ('idx_ion', 3),
             ('sig_trp', 3), ('idx_trp', 3)]
        E['iod_m'] = {}
        for c, ids in S.items():
            E['iod_m'][c] = r(2)
            b.u(mask(ids, 64, 1), 64).u(E['iod_m'][c], 2)
            for n, k in B:
                E.setdefault(n, {})[c] = {}
            for i in ids:
                per_sat(S, [(n, k, 0) for n, k in B], b, satno(c, i), c)
    elif mt in (2007, 2008):
        at = rnd.randrange(2)
        E['atype'], E['iod_sa'], E['cf'] = at, r(6), r(1)
        b.u(at, 2).u(E['iod_sa'], 6).u(E['cf'], 1)
        if mt == 2007:
            E['f_t'] = r(3)
            b.u(E['f_t'], 3)
        E['seq'] = r(5)
        b.u(E['seq'], 5)
        if mt == 2008:
            for n, k in (('f_ir', 2), ('f_ttd', 2), ('f_t', 3),
                         ('f_exs', 3)):
                E[n] = r(k)
                b.u(E[n], k)
        n = 1
        if at == 1:
            n = rnd.choice([0, 1, 2, 30])
            b.u(n, 8)
            E['npnt'] = n
        p = []
        for _ in range(n):
            la, lo = rnd.randint(-2**33+1, 2**33-1), rnd.randint(
                -2**34+1, 2**34-1)
            b.s(la, 34).s(lo, 35)
            p.append([la*1.1e-8, lo*1.1e-8, 0])
        if at == 0:
            p[0][2] = r(20)
            b.u(p[0][2], 20)
            p = p[0]
        E['pos_v'] = np.array(p).reshape(-1, 3) if at else p
    elif mt == 2051:
        E['nid'] = r(8)
        q = sorted(rnd.sample(range(8), rnd.randint(0, 8)))
        v = [r(8) for _ in q]
        b.u(E['nid'], 8).u(mask(q, 8), 8)
        for x in v:
            b.u(x, 8)
        E['qi'] = np.array(v)*.1
    elif mt == 2091:
        S = sats(rnd, 20)
        b.u(mask([ORD.index(c) for c in S], 16), 16)
        for c, ids in S.items():
            b.u(mask(ids, 64, 1), 64).u(r(2), 2)
            for n in ('cnr', 'agc_t', 'agc'):
                E.setdefault(n, {})[c] = {}
            for i in ids:
                s = satno(c, i)
                f = sorted(rnd.sample(range(8), rnd.randint(0, 8)))
                b.u(mask(f, 8), 8).u(r(2), 2)
                for n in ('cnr', 'agc_t', 'agc'):
                    E[n][c][s] = {}
                for k in f:
                    for n, w in (('cnr', 8), ('agc_t', 1), ('agc', 8)):
                        E[n][c][s][k] = r(w)
                        b.u(E[n][c][s][k], w)
    elif mt == 2071:
        n = rnd.choice([0, 1, 2, 6])
        E.update(narea=n, cf=r(1), seq=r(5))
        b.u(n, 8).u(E['cf'], 1).u(E['seq'], 5)
        P, N, A = [], [], {}
        for k in range(n):
            la, lo, h, na = (R.ri(rnd, 's', 34), R.ri(rnd, 's', 35),
                             R.ri(rnd, 's', 14),
                             rnd.choice([0, 1, 5, rnd.randrange(64)]))
            b.s(la, 34).s(lo, 35).s(h, 14).u(na, 6)
            P.append([la*1.1e-8, lo*1.1e-8, h])
            N.append(na)
            a = 0
            A[k] = []
            for _ in range(na):
                d, e = rnd.choice([r(9), rnd.randrange(8)]), r(7)
                b.u(d, 9).u(e, 7)
                a += d
                A[k].append([a, e])
        E.update(pos=np.array(P).reshape(-1, 3), naz=np.array(N), azel=A)
    elif mt == 2072:
        n, mm = rnd.choice([0, 1, 2, 6]), rnd.randrange(3)
        E.update(narea=n, mm_id=mm, cf=r(1), seq=r(5))
        b.u(n, 8).u(mm, 3).u(E['cf'], 1).u(E['seq'], 5)
        P, N, A = [], [], {}
        for k in range(n):
            f = sorted(rnd.sample(range(8), rnd.randint(0, 8)))
            if mm:
                b.u(mask(f, 8), 8)
            la, lo, h = (R.ri(rnd, 's', 34), R.ri(rnd, 's', 35),
                         R.ri(rnd, 's', 14))
            b.s(la, 34).s(lo, 35).s(h, 14)
            P.append([la*1.1e-8, lo*1.1e-8, h])
            A[k] = []
            if mm == 0:
                N.append(rnd.randrange(4))
                b.u(N[-1], 2)
                for _ in range(N[-1]):
                    v = r(4), r(4), r(4)
                    for x in v:
                        b.u(x, 4)
                    A[k].append([v[0]*.0625, TMU[v[1]], TSG[v[2]]])
            else:
                N.append(len(f))
                for q in f:
                    v = r(4), R.ri(rnd, 's', 5), R.ri(rnd, 's', 5)
                    b.u(v[0], 4).s(v[1], 5).s(v[2], 5)
                    x = [q, TSG[v[0]], v[1]*.25, v[2]*.0625]
                    if mm == 2:
                        d = r(8)
                        b.u(d, 8)
                        x.append(d*.3515625)
                    A[k].append(x)
        E.update(pos=np.array(P).reshape(-1, 3), np=np.array(N), mm_param=A)
    elif mt == 2011:
        S = sats(rnd, 120)
        E.update(pidssr=r(16), sidssr=r(4), iodssr=r(4))
        b.u(E['pidssr'], 16).u(E['sidssr'], 4).u(E['iodssr'], 4)
        b.u(mask([ORD.index(c) for c in S], 16), 16)
        E.update(iod_sys={}, flag={}, sat_e=[])
        for c, ids in S.items():
            E['iod_sys'][c] = r(2)
            b.u(mask(ids, 64, 1), 64).u(E['iod_sys'][c], 2)
            E['flag'][c] = {}
            for i in ids:
                v = r(2)
                b.u(v, 2)
                E['flag'][c][satno(c, i)] = v
                if v == 1:
                    E['sat_e'].append(satno(c, i))
    return b, E


def norm(x):
    """decoded values with plain keys and numbers"""
    if isinstance(x, dict):
        return {('GREJCSI'[['GPS', 'GLO', 'GAL', 'QZS', 'BDS', 'SBS',
                            'IRN'].index(k.name)]
                 if isinstance(k, g.uGNSS) else int(k)): norm(v)
                for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)):
        return np.array(x, dtype=float).tolist()
    return float(x)


def enorm(x):
    if isinstance(x, dict):
        return {k: enorm(v) for k, v in x.items()}
    if isinstance(x, (list, np.ndarray)):
        return np.array(x, dtype=float).tolist()
    return float(x)


def cmpv(name, a, b):
    if isinstance(b, dict):
        same('keys of %s' % name, sorted(a, key=str), sorted(b, key=str))
        for k in b:
            cmpv('%s[%s]' % (name, k), a[k], b[k])
    elif isinstance(b, list):
        if not b and not np.size(a):
            return
        same('size of %s' % name, np.shape(a), np.shape(b))
        eq(name, a, b, 1e-12, 1e-12)
    else:
        eq(name, a, b, 1e-9, 1e-12)


# ----------------------------------------------------------- log sections
HEX = [('2005', 'Mean Failure Duration (MFD) of a Single', 'mfd_s', T34),
       ('2005', 'Mean Failure Duration (MFD) of a Cons', 'mfd_c', T40),
       ('2005', 'Correlation Time of Pseudo', 'tau_c', T44),
       ('2005', 'Pseudorange stdev', 'sig_c', T36),
       ('2005', 'Correlation Time of Carrier', 'tau_p', T45),
       ('2005', 'Carrier Phase stdev', 'sig_p', T38),
       ('2005', 'Multiple PR', 'Pa_cc', TP),
       ('2005', 'Multiple CP', 'Pa_cp', TP),
       ('2005', 'Single PR', 'Pa_sc', TP),
       ('2005', 'Overbounding stdev of PR', 'sig_ob_c', T36),
       ('2005', 'Single CP', 'Pa_sp', TP),
       ('2005', 'Overbounding Bias of the Long-Term PR', 'b_ob_c', T37),
       ('2005', 'Overbounding stdev of CP', 'sig_ob_p', T38),
       ('2005', 'Overbounding Bias of the Long-Term CP', 'b_ob_p', T39),
       ('2006', 'Bound on rate of change of PR', 'sig_cd', T120),
       ('2006', 'Bound on rate of change in phase', 'sig_pd', T121),
       ('2006', 'Nominal pseudorange bias', 'cbr', T125),
       ('2006', 'Bounding sigma', 'sig_dp', T122),
       ('2006', 'Phase-range-rate error rate', 'idx_dp', T123),
       ('2006', 'Orbit/clock', 'ocr', T125),
       ('2006', 'Residual iono', 'sig_ion', T128),
       ('2006', 'Index of bounding parameter on change in iono', 'idx_ion',
        T125),
       ('2006', 'Residual trop', 'sig_trp', T130),
       ('2006', 'Index of bounding parameter on change in trop', 'idx_trp',
        T125)]

SOLT = ['ARAIM', 'SBAS', 'GBAS', 'DGNSS', 'RTK', 'NRTK/VRS', 'PPP', 'PPP-AR',
        'PPP-RTK']        # (the bit of 'other' is not known)


def cnr(k):
    return -1 if k == 0 else k-1 if k < 20 else 19+(k-20)*.2 if k < 245 \
        else k-181


def section(txt, title):
    """{key: value} of the tokens of a section of the log"""
    L = txt.split('\n')
    i = [k for k, x in enumerate(L) if x.strip().startswith(title)]
    check(len(i) == 1, 'section %r is in the log %d times', title, len(i))
    o = L[i[0]].split(':', 1)[1]
    for x in L[i[0]+1:]:
        if not re.match(r'  [GRECJI]:', x):
            break
        o += ' '+x[4:]
    w = o.replace(':', ' ').split()
    return w


def chklog(mt, txt, E):
    for m, title, n, t in HEX:
        if m != str(mt):
            continue
        w = section(txt, title)
        v = E.get(n, {})
        exp = []
        for c in v:
            if isinstance(v[c], dict):
                for s, x in v[c].items():
                    exp += [g.sat2id(s), t[x]]
            else:
                exp += [c, t[v[c]]]
        k = sorted(range(len(exp)//2), key=lambda i: exp[2*i])
        j = sorted(range(len(w)//2), key=lambda i: w[2*i])
        same('entries of %r' % title, [w[2*i] for i in j],
             [exp[2*i] for i in k])
        if exp:
            eq('log of %r' % title, [float(w[2*i+1]) for i in j],
               [exp[2*i+1] for i in k], 0, 1e-9)
    if mt == 2005:
        m = re.search(r'Solution Type: (.*)', txt)
        check(m, 'solution type is not in the log')
        # a bit of the mask adds a name: the more significant, the earlier
        same('solution type in the log', m.group(1).strip(), ''.join(
            x for k, x in enumerate(SOLT) if E['stype'] >> (14-k) & 1))
    if mt == 2091:
        for title, n, f in (('CNR', 'cnr', cnr), ('AGC type', 'agc_t', int),
                            ('AGC [dB]', 'agc',
                             lambda k: 'N/A' if k == 0 else k-128)):
            w = section(txt, title)
            exp = []
            for c, v in E.get(n, {}).items():
                for s, d in v.items():
                    exp += [g.sat2id(s)]+[f(k) for k in d.values()]
            same('number of entries of %r' % title, len(w), len(exp))
            for x, y in zip(w, exp):
                if isinstance(y, str):
                    same('log of %r' % title, x, y)
                else:
                    eq('log of %r' % title, float(x), y, 1e-9)


@facet('messages', st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**32-1), n=st.integers(1, 6),
    mt=st.sampled_from(MT), week=st.integers(1100, 2400),
    log=st.booleans())), quick=400, thorough=8000,
    rule='a satellite or an area is listed')
def messages(c):
    """each field is stored under its constellation, satellite, signal"""
    rnd = random.Random(c['seed'])
    with tempfile.TemporaryDirectory() as td:
        fn = os.path.join(td, 'log.txt')
        d = rtcm(fn if c['log'] else None)
        d.monlevel = 1 if c['log'] else 0
        d.week = c['week']
        d.time = g.gpst2time(c['week'], 0.0)
        try:
            return _messages(c, rnd, d, fn)
        finally:
            if c['log']:
                d.fh.close()


def _messages(c, rnd, d, fn):
    big = False
    stale = set()       # satellites of systems in earlier messages
    for j in range(c['n']):
        mt = c['mt'] if rnd.random() < .5 else rnd.choice(MT)
        num = mt
        if mt in (2071, 2072) and rnd.random() < .4:
            num = 54
        b, E = build(rnd, mt, num)
        by = b.bytes()
        fr = R.frame(by+bytes(max(0, 6-len(by))))
        check(d.sync(fr, 0) and d.checksum(fr, 0, len(fr)+1), 'valid frame')
        if c['log']:
            d.fh.flush()
            p0 = os.path.getsize(fn)
        d.decode(fr[:d.len+3])
        eq('time', g.timediff(d.time, g.gpst2time(c['week'], E['tow'])), 0,
           1e-6)
        q = d.integ
        for n, v in E.items():
            try:
                a = getattr(q, n)
            except AttributeError:
                viol('MT%d: %s is not stored' % (mt, n))
            a, v = norm(a), enorm(v)
            if mt in (2006, 2091) and isinstance(v, dict):
                # systems not in the message may stay
                a = {k: x for k, x in a.items() if k in v}
            cmpv('MT%d %s' % (mt, n), a, v)
        if c['log']:
            d.fh.flush()
            with open(fn) as f:
                f.seek(p0)
                txt = f.read()
            if mt == 2091 and list(norm(q.cnr)) != list(E.get('cnr', {})):
                stale.add(mt)
            if mt in (2006, 2091) and any(
                    k not in E.get('iod_m', E.get('cnr', {}))
                    for k in norm(q.iod_m if mt == 2006 else q.cnr)):
                stale.add(mt)
            if not (mt in (2006, 2091) and mt in stale):
                chklog(mt, txt, E)
        big = big or any(isinstance(v, (dict, np.ndarray)) and len(v)
                         for v in E.values())
    return big
