"""C24 emergency warning messages (DC report, CAMF)"""
import contextlib
import datetime as dt
import io
import re
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import ews
from vlib.ews import Msg, text
from cssrlib import gnss as g

EP0 = dt.datetime(1970, 1, 1)


SCALE = 10
def gt(d):
    return g.epoch2time([d.year, d.month, d.day, d.hour, d.minute,
                         float(d.second)])


def secs(t):
    return t.time+t.sec


def when(tag, got, d):
    eq(tag, secs(got), (d-EP0).total_seconds(), 1e-6)


@st.composite
def now(draw):
    d = dt.datetime(2018, 1, 1)+dt.timedelta(
        days=draw(st.integers(0, 365*20)), seconds=draw(st.integers(0, 86399)))
    k = draw(st.integers(0, 5))
    if k == 0:  # turn of the year
        d = dt.datetime(draw(st.integers(2019, 2038)), 1, 1)+dt.timedelta(
            seconds=draw(st.integers(-86400, 86400)))
    if k == 1:  # turn of a month
        d = dt.datetime(draw(st.integers(2019, 2038)),
                        draw(st.integers(1, 12)), 1)+dt.timedelta(
            seconds=draw(st.integers(-86400, 86400)))
    return [d.year, d.month, d.day, d.hour, d.minute, d.second]


U = st.integers


@st.composite
def report(draw, dc=None):
    dc = dc or draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14]))
    o = dict(dc=dc, now=draw(now()), rc=draw(st.sampled_from([3, 7])),
             it=draw(st.sampled_from([0, 2])), age=draw(U(0, 2880)),
             ev=draw(st.one_of(U(0, 600), U(0, 12*1440))), vn=draw(U(0, 63)))
    big = st.sampled_from(ews.BIG)
    if dc == 1:
        o.update(lg=[draw(U(0, 7)), draw(U(0, 7))],
                 co=draw(st.lists(U(0, 511), min_size=3, max_size=3)),
                 de=draw(U(0, 511)), ma=draw(U(0, 127)), ep=draw(U(0, 1023)),
                 il=draw(U(0, 15)), iu=draw(U(0, 15)),
                 reg=sorted(draw(st.sets(U(0, 79), max_size=12))))
    elif dc == 2:
        o.update(co=draw(st.lists(U(0, 511), min_size=3, max_size=3)),
                 de=draw(U(0, 511)), ma=draw(U(0, 127)), ep=draw(U(0, 1023)),
                 lat=[draw(U(0, 1)), draw(U(0, 89)), draw(U(0, 59)),
                      draw(U(0, 59))],
                 lon=[draw(U(0, 1)), draw(U(0, 179)), draw(U(0, 59)),
                      draw(U(0, 59))])
    elif dc == 3:
        o['e'] = draw(st.lists(st.tuples(U(0, 7), U(0, 63)), max_size=16))
    elif dc == 4:
        o.update(is_=draw(U(0, 15)), pm=draw(U(1, 6)),
                 txt=draw(st.lists(U(32, 126), min_size=18, max_size=18)))
        o['pn'] = draw(U(1, o['pm']))
    elif dc == 5:
        o.update(co=draw(st.lists(U(0, 511), min_size=3, max_size=3)),
                 dw=draw(U(0, 15)), e=draw(st.lists(st.tuples(
                     U(0, 1), U(0, 23), U(0, 59), U(0, 15), U(1, 1023)),
                     max_size=5)))
    elif dc == 6:
        o.update(tp=draw(U(0, 7)), e=draw(st.lists(st.tuples(
            U(0, 1), U(0, 23), U(0, 59), U(0, 511), U(0, 127)),
            min_size=5, max_size=5)))
    elif dc == 8:
        o.update(du=draw(U(0, 7)), dw=draw(U(0, 127)), vo=draw(U(0, 4095)),
                 reg=draw(st.lists(big, max_size=5)))
    elif dc == 9:
        o.update(dw=draw(U(1, 2)), vo=draw(U(0, 4095)), e=draw(st.lists(
            st.tuples(U(0, 7), U(0, 7), big), max_size=4)))
    elif dc == 10:
        o.update(ar=draw(U(1, 2)), e=draw(st.lists(st.tuples(
            U(1, 31), st.sampled_from([x for x in ews.BIG if x < 2**19])),
            max_size=6)))
    elif dc == 11:
        o['e'] = draw(st.lists(st.tuples(U(0, 15), big.map(
            lambda x: x*99991)), max_size=3))
    elif dc == 12:
        o.update(dt=draw(U(1, 3)), du=draw(U(0, 127)), tn=draw(U(0, 127)),
                 sr=draw(U(0, 15)), ic=draw(U(0, 15)), pr=draw(U(0, 2047)),
                 w1=draw(U(0, 127)), w2=draw(U(0, 127)),
                 lat=[draw(U(0, 1)), draw(U(0, 89)), draw(U(0, 59)),
                      draw(U(0, 59))],
                 lon=[draw(U(0, 1)), draw(U(0, 179)), draw(U(0, 59)),
                      draw(U(0, 59))])
    elif dc == 14:
        o['e'] = draw(st.lists(st.tuples(U(0, 31), U(1, 2**14-1)),
                               max_size=8))
    o['e2'] = draw(U(-600, 120*60)) if dc == 12 else 0
    return o


def times(o):
    """reception, report, event"""
    n = dt.datetime(*o['now'])
    r = (n-dt.timedelta(minutes=o['age'])).replace(second=0)
    if o['dc'] == 12:
        e = r+dt.timedelta(minutes=o['e2'])
    else:
        e = r-dt.timedelta(minutes=o['ev'])
    return n, r, e


def dms(v):
    x = v[1]+v[2]/60+v[3]/3600
    return -x if v[0] else x


def encode(o):
    """message and expected (params, pos, event times) of a DC report"""
    m = Msg(43)
    n, r, e = times(o)
    m.seq(14, (3, o['rc']), (4, o['dc']), (4, r.month), (5, r.day),
          (5, r.hour), (6, r.minute), (2, o['it']))
    m.put(214, 6, o['vn'])
    ev = [(5, e.day), (5, e.hour), (6, e.minute)]
    pos, tb = None, e
    dc = o['dc']
    if dc == 1:
        m.seq(47, (3, o['lg'][0]), (3, o['lg'][1]))
        m.seq(53, *[(9, x) for x in o['co']])
        m.seq(80, *ev)
        m.seq(96, (9, o['de']), (7, o['ma']), (10, o['ep']), (4, o['il']),
              (4, o['iu']))
        m.seq(130, *[(1, k in o['reg']) for k in range(80)])
        par = [o['reg'], [o['de'], o['ma']*0.1, o['ep'], o['il'], o['iu']]]
    elif dc == 2:
        m.seq(53, *[(9, x) for x in o['co']])
        m.seq(80, *ev)
        m.seq(96, (9, o['de']), (7, o['ma']), (10, o['ep']))
        m.seq(122, *zip((1, 7, 6, 6), o['lat']))
        m.seq(142, *zip((1, 8, 6, 6), o['lon']))
        par = [o['co'], [o['de'], o['ma']*0.1, o['ep']]]
        pos, tb = [dms(o['lat']), dms(o['lon'])], None
    elif dc == 3:
        m.seq(53, *ev)
        m.seq(69, *[y for a, b in o['e'] for y in ((3, a), (6, b))])
        x = [y for y in o['e'] if tuple(y) != (0, 0)]
        par = [[y[0] for y in x], [y[1] for y in x]]
    elif dc == 4:
        m.put(53, 4, o['is_'])
        m.seq(57, *[(8, x) for x in o['txt']])
        m.seq(201, (6, o['pn']), (6, o['pm']))
        par, tb = [list(o['txt']), [o['pn'], o['pm']]], None
    elif dc in (5, 6):
        d0 = r.replace(hour=0, minute=0)
        if dc == 5:
            m.seq(53, *[(9, x) for x in o['co']])
            m.put(80, 4, o['dw'])
            m.seq(84, *[y for x in o['e'] for y in zip((1, 5, 6, 4, 10), x)])
            par = [o['co'], [o['dw']]]
        else:
            m.put(53, 3, o['tp'])
            m.seq(56, *[y for x in o['e'] for y in zip((1, 5, 6, 9, 7), x)])
            par = [o['tp']]
        par += [list(x[3:]) for x in o['e']]
        tb = [d0+dt.timedelta(days=x[0], hours=x[1], minutes=x[2])
              for x in o['e']]
    elif dc == 8:
        m.put(50, 3, o['du'])
        m.seq(53, *ev)
        m.seq(69, (7, o['dw']), (12, o['vo']))
        m.seq(88, *[(23, x) for x in o['reg']])
        par = [o['du'], o['dw'], o['vo'], o['reg']]
    elif dc == 9:
        m.seq(53, *ev)
        m.seq(69, (2, o['dw']), (12, o['vo']))
        m.seq(83, *[y for x in o['e'] for y in zip((3, 3, 23), x)])
        par = [o['dw'], o['vo']]+[list(x) for x in o['e']]
    elif dc == 10:
        m.put(53, 3, o['ar'])
        m.seq(56, *[y for x in o['e'] for y in zip((5, 19), x)])
        par, tb = [o['ar']]+[list(x) for x in o['e']], None
    elif dc == 11:
        m.seq(53, *[y for x in o['e'] for y in zip((4, 40), x)])
        par, tb = [list(x) for x in o['e']], None
    elif dc == 12:
        m.seq(53, *ev)
        m.put(69, 3, o['dt'])
        m.seq(80, (7, o['du']), (7, o['tn']), (4, o['sr']), (4, o['ic']))
        m.seq(102, *zip((1, 7, 6, 6), o['lat']))
        m.seq(122, *zip((1, 8, 6, 6), o['lon']))
        m.seq(143, (11, o['pr']), (7, o['w1']), (7, o['w2']))
        pos = [dms(o['lat']), dms(o['lon'])]
        par = [o[k] for k in ('dt', 'du', 'tn', 'sr', 'ic', 'pr', 'w1', 'w2')]
    else:
        m.seq(53, *[y for x in o['e'] for y in zip((5, 14), x)])
        par, tb = [list(x) for x in o['e']], None
    return m.bytes(), par, pos, tb


def flat(x):
    if isinstance(x, (list, tuple, bytes, bytearray, np.ndarray)):
        return [flat(y) for y in x]
    return round(float(x), 6)


def words(o):
    """texts which the printed report contains"""
    dc = o['dc']
    w = []
    if dc == 1:
        w = [text('7', o['ep'])]+[text('10', k) for k in o['reg']]
        w += [text('6', k) for k in o['co'] if k]
    elif dc == 2:
        w = [text('7', o['ep'])]+[text('6', k) for k in o['co'] if k]
    elif dc == 3:
        for a, b in o['e']:
            if a or b:
                w += [text('15', a), text('16', b)]
    elif dc == 4:
        w = [text('19', o['is_'])]
    elif dc == 5:
        for x in o['e']:
            w += [text('23', x[3]), text('24', x[4])]
    elif dc == 8:
        w = [text('31', o['dw']), text('32', o['vo'])]
        w += [text('33', k) for k in o['reg']]
    elif dc == 9:
        w = [text('32', o['vo'])]
        for x in o['e']:
            w += [text('36', x[1]), text('33', x[2])]
    elif dc == 10:
        for x in o['e']:
            w += [text('40', x[0]), text('41', x[1])]
    elif dc == 11:
        for x in o['e']:
            if x[0] or x[1]:
                w += [text('44', x[0]), text('45', x[1])]
    elif dc == 14:
        for x in o['e']:
            w += [text('52', x[0]), text('53', x[1])]
    return w


@facet('dcr', st.fixed_dictionaries({
    'r': st.lists(report(), min_size=1, max_size=4),
    'via': st.booleans(), 'mon': st.booleans()}), 700, 15000,
    'DC reports received one after another: times, content and text')
def dcr(c):
    if c['via']:
        par = ews.decoder('dgps')
        dec = par.dcr
        par.monlevel = 0
    else:
        par, dec = None, ews.decoder('jma')
    dec.monlevel = 1 if c['mon'] else 0
    for j, o in enumerate(c['r']):
        msg, want, pos, tb = encode(o)
        n, r, e = times(o)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if par is not None:
                par.time = gt(n)
                par.decode_cssr(msg, 0)
            else:
                dec.time = gt(n)
                dec.decode(msg, 14)
        tag = 'report %d (type %d): ' % (j, o['dc'])
        same(tag+'type', int(dec.dc), o['dc'])
        same(tag+'priority', int(dec.rc), o['rc'])
        same(tag+'information type', int(dec.it), o['it'])
        same(tag+'version', int(dec.vn), o['vn'])
        when(tag+'report time', dec.ta, r)
        if isinstance(tb, list):
            same(tag+'arrival times', len(dec.tb), len(tb))
            for a, b in zip(dec.tb, tb):
                when(tag+'arrival time', a, b)
        elif tb is not None:
            when(tag+'event time', dec.tb, tb)
        if pos is not None:
            eq(tag+'position', dec.pos, pos, 1e-9)
        same(tag+'content', flat(dec.params), flat(want))
        if c['mon']:
            s = out.getvalue()
            for w in words(o):
                check(re.search(re.escape(w)+r'(?!\d)', s),
                      tag+'%s missing in the text', w)
        if o['dc'] in (12, 14):
            s = dec.gen_msg(o['dc'])
            w = [text('53', x[1]) for x in o['e']] if o['dc'] == 14 else \
                ['#%d' % o['tn'], '%dh' % o['du'], '%.4f/%.4f' % tuple(pos),
                 '%d' % o['pr']]
            for x in w:
                check(x in s.split(), tag+'%s missing in gen_msg', x)
    return '/'.join(sorted({str(o['dc']) for o in c['r']}))


@st.composite
def pages(draw):
    ms = []
    for _ in range(draw(U(1, 3))):
        o = draw(report(4))
        o['pm'] = draw(U(1, 6))
        o['all'] = draw(st.lists(U(32, 126), min_size=18*o['pm'],
                                 max_size=18*o['pm']))
        o['ord'] = draw(st.permutations(list(range(1, o['pm']+1))))
        o['ord'] += draw(st.lists(U(1, o['pm']), max_size=3))
        ms.append(o)
    return ms


@facet('pages', pages, 200, 4000,
       'texts sent in pages, message after message: complete after the last '
       'page and free of pages of the previous message')
def pages_(ms):
    dec = ews.decoder('jma')
    dec.monlevel = 0
    last = None
    n = 0
    for o in ms:
        key = (o['now'], o['age'], o['it'], o['is_'], o['pm'])
        if last is not None and key[2:] == last[2:] and \
                times(o)[1] == t1:
            return False
        last, t1 = key, times(o)[1]
        seen = set()
        for pn in o['ord']:
            o['pn'] = pn
            o['txt'] = o['all'][18*(pn-1):18*pn]
            dec.time = gt(times(o)[0])
            dec.decode(encode(o)[0], 14)
            seen.add(pn)
            same('pages received', int(dec.pidx),
                 sum(1 << (p-1) for p in seen))
            for p in range(1, o['pm']+1):
                b = bytes(dec.msg[18*(p-1):18*p])
                same('page %d' % p, b, bytes(o['all'][18*(p-1):18*p])
                     if p in seen else bytes(18))
            same('beyond the last page', bytes(dec.msg[18*o['pm']:]).strip(
                b'\0'), b'')
        n += len(seen)
    return n > 1


@facet('dcr_other', st.fixed_dictionaries({
    'rc': U(0, 7), 'dc': U(0, 15), 'x': U(0, 2**190-1)}), 100, 2000,
    'reports of undefined type are refused')
def dcr_other(c):
    ok = c['rc'] in (3, 7) and c['dc'] in (1, 2, 3, 4, 5, 6, 8, 9, 10, 11,
                                           12, 14)
    if ok:
        return False
    m = Msg(43)
    m.seq(14, (3, c['rc']), (4, c['dc']), (190, c['x']))
    dec = ews.decoder('jma')
    dec.time = gt(dt.datetime(2024, 5, 6))
    same('result', dec.decode(m.bytes(), 14), -1)
    same('content', dec.params, None)


# -------------------------------------------------------------------- CAMF

# details of a hazard: (table, bits)
B4 = {
    'EARTHQUAKE': [('d1', 4), ('d2', 3), ('d3', 4), ('d4', 4)],
    'TIDAL_WAVE TSUNAMI': [('d5', 3)],
    'COLD_WAVE HEAT_WAVE': [('d6', 4)],
    'HURRICANE': [('d7', 3), ('d8', 4), ('d9', 3)],
    'TYPHOON': [('d36', 3), ('d8', 4), ('d9', 3)],
    'TORNADO': [('d8', 4), ('d9', 3), ('d11', 3)],
    'STORM': [('d8', 4), ('d9', 3), ('d10', 3), ('d16', 3)],
    'HAIL': [('d12', 3)],
    'RAINFALL': [('d9', 3), ('d13', 4)],
    'SNOWFALL': [('d14', 5), ('d13', 4)],
    'FLOOD': [('d15', 2)],
    'LIGHTNING': [('d16', 3)],
    'WIND_CHILL': [('d8', 4), ('d6', 4)],
    'DERECHO': [('d8', 4), ('d9', 3), ('d16', 3), ('d11', 3)],
    'FOG': [('d17', 3), ('d13', 4)],
    'SNOW_STORM': [('d13', 4), ('d8', 4)],
    'DROUGHT': [('d18', 2)],
    'AVALANCHE_RISK': [('d19', 3)],
    'ASH_FALL': [('d20', 3)],
    'WIND_SURGE': [('d8', 4), ('d5', 3)],
    'GEOMAGNETIC_STORM': [('d21', 3)],
    'TERRORISM': [('d22', 3)],
    'RISK_OF_FIRE': [('d23', 3)],
    'CONTAMINATED_WATER': [('d24', 3)],
    'UV_RADIATION': [('d25', 4)],
    'PANDEMIC RISK_OF_INFECTION': [('d26', 5), ('d35', 6)],
    'NOISE_POLLUTION': [('d27', 4)],
    'AIR_POLLUTION': [('d28', 3)],
    'MARINE_POLLUTION RIVER_POLLUTION': [('d24', 3)],
    'OUTAGE_OF_IT GAS_SUPPLY_OUTAGE POWER_OUTAGE EMERGENCY_NUMBER_OUTAGE '
    'TELEPHONE_LINE_OUTAGE': [('d29', 5)],
    'NUCLEAR_HAZARD RADIOLOGICAL_HAZARD NUCLEAR_POWER_ACCIDENT': [('d30', 4)],
    'CHEMICAL_HAZARD': [('d31', 4)],
    'BIO_HAZARD': [('d32', 2), ('d33', 2)],
    'EXPLOSIVE_HAZARD': [('d34', 2)],
}
# codes of the hazards (CAMF table A4)
CODE = dict(
    EARTHQUAKE=36, TIDAL_WAVE=43, TSUNAMI=44, COLD_WAVE=63, HEAT_WAVE=71,
    HURRICANE=80, TYPHOON=82, TORNADO=79, STORM=77, HAIL=70, RAINFALL=74,
    SNOWFALL=76, FLOOD=68, LIGHTNING=72, WIND_CHILL=81, DERECHO=64, FOG=69,
    SNOW_STORM=75, DROUGHT=65, AVALANCHE_RISK=33, ASH_FALL=32, WIND_SURGE=47,
    GEOMAGNETIC_STORM=37, TERRORISM=103, RISK_OF_FIRE=30,
    CONTAMINATED_WATER=16, UV_RADIATION=23, PANDEMIC=51, RISK_OF_INFECTION=53,
    NOISE_POLLUTION=19, AIR_POLLUTION=15, MARINE_POLLUTION=18,
    RIVER_POLLUTION=21, OUTAGE_OF_IT=57, GAS_SUPPLY_OUTAGE=56,
    POWER_OUTAGE=58, EMERGENCY_NUMBER_OUTAGE=55, TELEPHONE_LINE_OUTAGE=60,
    NUCLEAR_HAZARD=9, RADIOLOGICAL_HAZARD=11, NUCLEAR_POWER_ACCIDENT=10,
    CHEMICAL_HAZARD=5, BIO_HAZARD=4, EXPLOSIVE_HAZARD=6)
DET = {}
for _k, _v in B4.items():
    for _n in _k.split():
        DET[CODE[_n]] = _v
LEN = dict(d1=9, d2=8, d3=16, d4=16, d5=8, d6=16, d7=5, d8=13, d9=8, d10=6,
           d11=6, d12=8, d13=10, d14=32, d15=4, d16=6, d17=5, d18=4, d19=5,
           d20=5, d21=5, d22=5, d23=5, d24=6, d25=10, d26=21, d27=12, d28=6,
           d29=14, d30=9, d31=16, d32=4, d33=4, d34=4, d35=64, d36=5)
JP = 0b001101111
INFO = list(range(0, 8))+[127, 255]
INFOA = [0, 1]+list(range(127, 137))+[255]


@st.composite
def alert(draw):
    o = dict(now=draw(now()), mt=draw(U(0, 3)),
             reg=draw(st.one_of(st.just(JP), U(0, 511))),
             pid=draw(U(0, 31) if draw(st.booleans()) else U(1, 4)),
             haz=draw(st.one_of(st.sampled_from(ews.HAZ),
                                st.sampled_from(sorted(DET)))),
             sev=draw(U(0, 3)), wn=draw(U(0, 1)), tow=draw(U(1, 10080)),
             dur=draw(U(0, 3)), ver=draw(U(0, 7)),
             ga=draw(U(0, 31)), gb=draw(U(0, 31)),
             inst=draw(U(0, 3)),
             lat=draw(U(0, 2**16-1)), lon=draw(U(0, 2**17-1)),
             sma=draw(U(0, 31)), smi=draw(U(0, 31)), az=draw(U(0, 63)),
             subj=draw(st.sampled_from([0, 1, 2, 3, 3, 3])))
    if o['pid'] in (1, 2, 3, 4) and draw(U(0, 3)):
        o['reg'] = JP
    o['sel'] = draw(U(0, 1)) if o['reg'] == JP else 0
    o['info'] = draw(st.sampled_from(INFOA if o['pid'] in (2, 3) else INFO))
    s = o['subj']
    if s == 0:
        o['b'] = [draw(U(0, 7)) for _ in range(4)]
    elif s == 1:
        o['b'] = [draw(U(0, 127)) for _ in range(2)]
    elif s == 2:
        o['b'] = [draw(U(0, 3)), draw(U(0, 7)), draw(U(0, 31)),
                  draw(U(0, 31))]
    else:
        o['b'] = [draw(U(0, min(LEN[d], 1 << n)-1))
                  for d, n in DET.get(o['haz'], [])]
    # extension
    o['ex'] = [draw(st.sampled_from([x[0] for x in ews.CITY]+[0])),
               draw(U(0, 1)), draw(U(0, 2**17-1)), draw(U(0, 2**17-1)),
               draw(U(0, 31)), draw(U(0, 31)), draw(U(0, 127)),
               draw(U(0, 63))]
    o['ja'] = draw(U(0, 1))
    o['pref'] = sorted(draw(st.one_of(
        st.just(set(range(1, 48))), st.sets(U(1, 47), max_size=6))))
    o['mun'] = draw(st.lists(st.sampled_from([x[0] for x in ews.CITY]),
                             max_size=4))
    return o


def axis(k):
    return 0.216*(2500/0.216)**(k/31)


def city_name(code):
    for c, p, k in ews.CITY:
        if c == code:
            return ''.join(ews.city(p, k))


@facet('camf', st.fixed_dictionaries({
    'a': st.lists(alert(), min_size=1, max_size=3), 'via': st.booleans(),
    'mon': st.booleans()}), 700, 15000,
    'alert messages with all specific settings and extended messages')
def camf(c):
    if c['via']:
        par = ews.decoder('dgps')
        dec = par.dcx
        par.monlevel = 0
    else:
        par, dec = None, ews.decoder('camf')
    dec.monlevel = 1 if c['mon'] else 0
    lab = []
    for j, o in enumerate(c['a']):
        m = Msg(44)
        m.seq(14, (1, 0), (9, 5))
        i = m.seq(24, (2, o['mt']), (9, o['reg']), (5, o['pid']),
                  (7, o['haz']), (2, o['sev']), (1, o['wn']), (14, o['tow']),
                  (2, o['dur']), (1, o['sel']), (3, o['ver']))
        if o['sel']:
            i = m.seq(i, (2, o['inst']), (8, o['info']))
        else:
            i = m.seq(i, (5, o['ga']), (5, o['gb']))
        i = m.seq(i, (16, o['lat']), (17, o['lon']), (5, o['sma']),
                  (5, o['smi']), (6, o['az']), (2, o['subj']))
        if o['subj'] == 3:
            m.seq(i, *[(n, v) for (d, n), v in zip(DET.get(o['haz'], []),
                                                   o['b'])])
        else:
            m.seq(i, *zip(((3, 3, 3, 3), (7, 7), (2, 3, 5, 5))[o['subj']],
                          o['b']))
        same('harness', i+15, 146)
        if o['sel'] and o['pid'] in (2, 3):
            m.put(146, 1, o['ja'])
            if o['ja']:
                m.seq(147, *[(16, x) for x in o['mun']])
            else:
                m.seq(147, *[(1, k in o['pref']) for k in range(1, 48)])
            m.seq(211, (3, 1), (6, o['ex'][7]))
        elif o['sel'] and o['pid'] == 1:
            m.seq(146, *zip((16, 1, 17, 17, 5, 5, 7, 6), o['ex']))
        msg = m.bytes()
        n = dt.datetime(*o['now'])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if par is not None:
                par.time = gt(n)
                par.decode_cssr(msg, 0)
            else:
                dec.time = gt(n)
                k = dec.decode(msg, 24)
                same('end of the message', k, 146)
                k = dec.decode_ext(msg, 146)
                if not o['sel'] or o['pid'] in (1, 2, 3):
                    same('end of the extended message', k, 220)
        s = out.getvalue()
        tag = 'alert %d: ' % j
        same(tag+'type', dec.mt, ('Test', 'Alert', 'Update',
                                  'All Clear')[o['mt']])
        same(tag+'region', dec.region, text('region', o['reg']))
        same(tag+'provider', int(dec.pid), o['pid'])
        same(tag+'hazard', dec.hazard, text('hazard', o['haz']))
        same(tag+'severity', dec.severity, (
            'unknown', 'moderate', 'severe', 'extreme')[o['sev']])
        mon = (n-dt.timedelta(days=n.weekday())).date()
        on = dt.datetime(mon.year, mon.month, mon.day)+dt.timedelta(
            days=7*o['wn'], minutes=o['tow']-1)
        when(tag+'onset', dec.th, on)
        same(tag+'duration', dec.duration, dec.duration_t[o['dur']])
        same(tag+'guidance type', int(dec.sel), o['sel'])
        same(tag+'guidance version', int(dec.ver), o['ver']+1)
        if o['sel']:
            same(tag+'instruction', dec.inst, dec.inst_t[o['inst']])
            t = dec.guid_la_t if o['pid'] in (2, 3) else dec.guid_t
            same(tag+'guidance', dec.guid, t[o['info']])
        else:
            same(tag+'guidance A', dec.gmsg_a, text('list_a', o['ga']))
            same(tag+'guidance B', dec.gmsg_b, text('list_b', o['gb']))
        la = -90+o['lat']*180/65535
        lo = -180+o['lon']*360/131071
        LM, Lm = axis(o['sma']), axis(o['smi'])
        b = o['b']
        if o['subj'] == 0:
            la += b[0]*180/65535/8
            lo += b[1]*360/131071/8
            LM -= b[2]/8*(LM-(axis(o['sma']-1) if o['sma'] else 0))
            Lm -= b[3]/8*(Lm-(axis(o['smi']-1) if o['smi'] else 0))
        eq(tag+'latitude', dec.lat, la, 5e-6)
        eq(tag+'longitude', dec.lon, lo, 5e-6)
        eq(tag+'semi-major axis', dec.LM, LM, 0, 3e-3)
        eq(tag+'semi-minor axis', dec.Lm, Lm, 0, 3e-3)
        eq(tag+'azimuth', dec.az, -90+o['az']*180/64, 1e-9)
        if o['subj'] == 1:
            for k, v in enumerate((dec.dlat, dec.dlon)):
                x = b[k]-64
                eq(tag+'centre of the hazard', v,
                   (x if x < 0 else x+1)*10/64, 1e-9)
        elif o['subj'] == 2:
            eq(tag+'shift', dec.dist, b[0]*LM, 0, 3e-3)
            eq(tag+'second ellipse', [dec.LMs, dec.Lms],
               [LM*(b[1]+1)/4, Lm*(b[1]+1)/4], 0, 3e-3)
            eq(tag+'bearing', dec.theta, b[2]*11.25, 1e-9)
        elif o['subj'] == 3:
            for (d, _), v in zip(DET.get(o['haz'], []), b):
                if d == 'd3':
                    eq(tag+'azimuth of the epicentre', dec.d3, v*22.5, 1e-9)
                else:
                    same(tag+d, getattr(dec, d), getattr(dec, d+'_t')[v])
        lab.append(o['subj'])
        if c['mon']:
            check(text('hazard', o['haz']) in s.split(),
                  tag+'hazard missing in the text')
            if o['sel'] and o['pid'] in (2, 3):
                if o['ja']:
                    w = [city_name(x) for x in o['mun']]
                elif len(o['pref']) == 47:
                    w = ['whole', 'Japan']
                else:
                    w = ['Pref%d' % x for x in o['pref']]
                same(tag+'target area', s.split('[DCX-ext]')[-1].split()[2:],
                     w)
            elif o['sel'] and o['pid'] == 1 and o['ex'][0]:
                x = s.split('[DCX-ext]')[-1]
                check(city_name(o['ex'][0]) in x.split(),
                      tag+'target area missing in the text')
                check(('Leave', 'Head')[o['ex'][1]] in x.split(),
                      tag+'evacuation direction')
    return '/'.join(str(x) for x in sorted(set(lab)))
