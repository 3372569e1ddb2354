"""C02 satellite and signal identifiers"""
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, uTYP, uSIG, rSigRnx

SCALE = 4
RULE = 'exhaustive over satellites, PRNs, signals; all cases count'

SYS = {'G': (uGNSS.GPS, range(1, 33), 0, 'GPS'),
       'E': (uGNSS.GAL, range(1, 37), 0, 'GALILEO'),
       'J': (uGNSS.QZS, range(193, 210), 192, 'QZSS'),
       'C': (uGNSS.BDS, range(1, 64), 0, 'BEIDOU'),
       'R': (uGNSS.GLO, range(1, 33), 0, 'GLONASS'),
       'S': (uGNSS.SBS, range(120, 159), 100, 'SBAS'),
       'I': (uGNSS.IRN, range(1, 15), 0, 'IRNSS')}

# RINEX 3.05/4.0x observation code tables: band -> attributes
ATT = {
    'G': {1: 'CSLXPWYM', 2: 'CDSLXPWYMN', 5: 'IQX'},
    'R': {1: 'CP', 2: 'CP', 3: 'IQX', 4: 'ABX', 6: 'ABX'},
    'E': {1: 'ABCXZ', 5: 'IQX', 6: 'ABCXZ', 7: 'IQX', 8: 'IQX'},
    'S': {1: 'C', 5: 'IQX'},
    'J': {1: 'CESLXZB', 2: 'SLX', 5: 'IQXDPZ', 6: 'SLXEZ'},
    'C': {1: 'DPX', 2: 'IQX', 5: 'DPX', 6: 'IQX', 7: 'IQXDPZ', 8: 'DPX'},
    'I': {1: 'DPX', 5: 'ABCX', 9: 'ABCX'}}
# accepted by the library beyond the table, harmless either way
MAY = {('R', 1): 'X', ('R', 2): 'X', ('C', 1): 'SLZAN', ('C', 6): 'DPZA',
       ('G', 1): 'N'}

MHZ = {
    'G': {1: 1575.42, 2: 1227.60, 5: 1176.45},
    'E': {1: 1575.42, 5: 1176.45, 6: 1278.75, 7: 1207.14, 8: 1191.795},
    'S': {1: 1575.42, 5: 1176.45},
    'J': {1: 1575.42, 2: 1227.60, 5: 1176.45, 6: 1278.75},
    'C': {1: 1575.42, 2: 1561.098, 5: 1176.45, 6: 1268.52, 7: 1207.14,
          8: 1191.795},
    'I': {1: 1575.42, 5: 1176.45, 9: 2492.028},
    'R': {3: 1202.025, 4: 1600.995, 6: 1248.06}}


@facet('satellites', enum=[[c, p] for c in SYS for p in SYS[c][1]],
       rule='every PRN of every system')
def satellites(case):
    c, p = case
    sys, rng, off, nm = SYS[c]
    sat = int(g.prn2sat(sys, p))
    check(1 <= sat <= int(uGNSS.MAXSAT), 'satellite number %d', sat)
    s2, p2 = g.sat2prn(sat)
    same('sat2prn(prn2sat)', (int(s2), int(p2)), (int(sys), p))
    id_ = '%s%02d' % (c, p-off)
    same('sat2id', g.sat2id(sat), id_)
    same('id2sat', int(g.id2sat(id_)), sat)
    same('char2sys', g.char2sys(c), sys)
    same('sys2char', g.sys2char(sys), c)
    same('sys2str', g.sys2str(sys), nm)


@facet('numbers', enum=[[]], rule='injectivity over all satellite numbers')
def numbers(_):
    n = {}
    for c in SYS:
        for p in SYS[c][1]:
            n.setdefault(int(g.prn2sat(SYS[c][0], p)), []).append((c, p))
    for s, l in n.items():
        check(len(l) == 1, 'satellite number %d shared by %r', s, l)
    same('numbers in use', sorted(n), list(range(1, int(uGNSS.MAXSAT)+1)))
    ids = [g.sat2id(s) for s in sorted(n)]
    same('distinct ids', len(set(ids)), len(ids))
    same('beyond the last', int(g.sat2prn(int(uGNSS.MAXSAT)+1)[0]),
         int(uGNSS.NONE))
    same('unknown letter', g.char2sys('X'), uGNSS.NONE)
    same('unknown id', g.id2sat('X01'), -1)
    same('many', g.char2sys('GREX'), [uGNSS.GPS, uGNSS.GLO, uGNSS.GAL,
                                      uGNSS.NONE])


TY = {'C': uTYP.C, 'L': uTYP.L, 'D': uTYP.D, 'S': uTYP.S}


def _codes():
    out = []
    for c in SYS:
        for t in 'CLDS':
            for b in ATT[c]:
                for a in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ':
                    out.append([c, t, b, a])
    return out


@facet('codes', enum=_codes,
       rule='every letter as attribute of every band of every system')
def codes(case):
    c, t, b, a = case
    sys = SYS[c][0]
    txt = '%s%d%s' % (t, b, a)
    ok = a in ATT[c][b]
    may = a in MAY.get((c, b), '')
    try:
        s = rSigRnx(c+txt)
    except ValueError:
        check(not ok, 'valid code %s%s rejected', c, txt)
        return 'rejected'
    check(ok or may, 'invalid code %s%s accepted', c, txt)
    same('type', (s.sys, s.typ), (sys, TY[t]))
    same('signal', int(s.sig), b*100+ord(a)-64)
    same('str', s.str(), txt)
    same('repr', repr(s), c+txt)
    same('reparse', rSigRnx(repr(s)), s)
    same('two-argument form', rSigRnx(sys, txt), s)
    same('three-argument form', rSigRnx(sys, TY[t], uSIG(b*100+ord(a)-64)), s)
    same('hash', hash(rSigRnx(sys, txt)), hash(s))
    same('band', int(s.band()), b*100)
    same('P(Y)', bool(s.isGPS_PY()), c == 'G' and a == 'W' and b in (1, 2))
    for t2 in 'CLDS':
        u = s.toTyp(TY[t2])
        same('toTyp', repr(u), c+t2+txt[1:])
        same('original after toTyp', repr(s), c+txt)
        same('equality', u == s, t2 == t)
    for a2 in ATT[c][b]:
        u = s.toAtt(a2)
        same('toAtt', repr(u), c+txt[:2]+a2)
        same('equality', u == s, a2 == a)
    same('toAtt()', s.toAtt().str(), txt[:2]+' ')
    return 'accepted'


def _bands():
    return [[c, t, b, k] for c in SYS for t in 'CLDS' for b in ATT[c]
            for k in (range(-7, 7) if c == 'R' else [0])]


@facet('frequency', enum=_bands, rule='every band, GLONASS channels -7..6')
def frequency(case):
    c, t, b, k = case
    for a in ATT[c][b]:
        s = rSigRnx('%s%s%d%s' % (c, t, b, a))
        if c == 'R' and b == 1:
            f = 1602.0+k*9/16
        elif c == 'R' and b == 2:
            f = 1246.0+k*7/16
        else:
            f = MHZ[c][b]
        # G2a is quoted as 1248.06 (RINEX) and 1248.065 (signal ICD)
        tol = 6e3 if (c, b) == ('R', 6) else 1e-3
        got = s.frequency(k) if c == 'R' else s.frequency()
        check(got is not None, '%r has no frequency', s)
        eq('frequency of %r' % s, got, f*1e6, tol)
        w = s.wavelength(k) if c == 'R' else s.wavelength()
        eq('wavelength', w*got, 299792458.0, 1e-3)
        if c == 'R' and b in (1, 2):
            check(s.frequency() is None, 'FDMA frequency without a channel')
    return '%s%d' % (c, b)


@facet('malformed', st.fixed_dictionaries(
    {'s': st.text('GREJCSIXclLDS123456789 ABQ', max_size=6)}), 1500, 8000,
    'arbitrary short strings: a signal or ValueError, nothing else')
def malformed(c):
    s = c['s']
    try:
        r = rSigRnx(s)
    except ValueError:
        return 'ValueError'
    check(3 <= len(s) <= 4, 'length')
    same('text kept', repr(r).strip(), s[:1].replace('X', '?') + s[1:].strip()
         if s[0] in 'GREJCSI' else '?'+s[1:].strip())
    return 'accepted'
