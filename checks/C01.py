"""C01 time systems"""
from datetime import datetime, timedelta
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from cssrlib import gnss as g
from cssrlib.gnss import gtime_t

SCALE = 10
RULE = ('epochs 1970..2099 incl. leap days, month/year/week edges, fractions '
        'of a second; a case is non-trivial unless the facet labels it so')

D0 = datetime(1970, 1, 1)

# first UTC instant at which GPST-UTC = n (IERS Bulletin C)
LEAPS = [(1981, 7, 1, 1), (1982, 7, 1, 2), (1983, 7, 1, 3), (1985, 7, 1, 4),
         (1988, 1, 1, 5), (1990, 1, 1, 6), (1991, 1, 1, 7), (1992, 7, 1, 8),
         (1993, 7, 1, 9), (1994, 7, 1, 10), (1996, 1, 1, 11),
         (1997, 7, 1, 12), (1999, 1, 1, 13), (2006, 1, 1, 14),
         (2009, 1, 1, 15), (2012, 7, 1, 16), (2015, 7, 1, 17),
         (2017, 1, 1, 18)]
LS = [(int((datetime(y, m, d)-D0).total_seconds()), n) for y, m, d, n in LEAPS]


def utc_off(us):
    """GPST-UTC at UTC second us"""
    n = 0
    for s, k in LS:
        if us >= s:
            n = k
    return n


def civil(y0, y1):
    a = int((datetime(y0, 1, 1)-D0).total_seconds())
    b = int((datetime(y1, 1, 1)-D0).total_seconds())-1
    edges = []
    for y in range(y0, y1):
        for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (7, 1)):
            try:
                e = int((datetime(y, m, d)-D0).total_seconds())
            except ValueError:
                continue
            edges += [e, e-1, e+86399]
    edges = [e for e in edges if a <= e <= b]
    return st.one_of(st.integers(a, b), st.sampled_from(edges))


frac = st.one_of(st.just(0), st.integers(0, 999999))
SEC = st.fixed_dictionaries({'s': civil(1970, 2100), 'us': frac})


def dt_of(c):
    return D0+timedelta(seconds=c['s'], microseconds=c['us'])


def T(c):
    return gtime_t(c['s'], c['us']*1e-6)


def tsec(t):
    """gtime as (integer second, fraction in 0..1)"""
    return t.time, t.sec


def eqt(what, t, s, us, tol=1e-6):
    d = (t.time-s)+(t.sec-us*1e-6)
    check(abs(d) <= tol, '%s: off by %r s', what, d)


@facet('civil', SEC, 2500, 40000,
       'calendar conversion against datetime and back')
def civil_(c):
    d = dt_of(c)
    ep = [d.year, d.month, d.day, d.hour, d.minute, d.second+c['us']*1e-6]
    t = g.epoch2time(ep)
    eqt('epoch2time%r' % ep, t, c['s'], c['us'])
    check(0 <= t.sec < 1.0+1e-9, 'fraction %r not in [0,1)', t.sec)
    e = g.time2epoch(T(c))
    same('time2epoch', [int(x) for x in e[:5]], [int(x) for x in ep[:5]])
    eq('time2epoch sec', e[5], ep[5], 1e-6)
    doy = g.time2doy(T(c))
    ref = (d-datetime(d.year, 1, 1)).total_seconds()/86400+1
    eq('time2doy', doy, ref, 1e-9)
    same('time2str', g.time2str(T(c)), d.strftime('%Y-%m-%d %H:%M:%S'))


@facet('text', st.fixed_dictionaries(
    {'s': civil(1980, 2080), 'us': frac, 'pad': st.integers(0, 5),
     'short': st.booleans()}), 1500, 10000, 'str2time of formatted epochs')
def text(c):
    d = dt_of(c)
    y = d.year % 100 if c['short'] else d.year
    s = ' '*c['pad']+'%d %d %d %d %d %.6f' % (
        y, d.month, d.day, d.hour, d.minute, d.second+c['us']*1e-6)
    t = g.str2time(s+'   junk', c['pad'], len(s)-c['pad'])
    eqt('str2time(%r)' % s, t, c['s'], c['us'])


@facet('arith', st.fixed_dictionaries(
    {'s': civil(1980, 2090), 'us': frac,
     'd1': st.integers(-10**13, 10**13), 'd2': st.integers(-10**7, 10**7)}),
    2000, 20000, 'timeadd/timediff laws, operands untouched, ordering')
def arith(c):
    t = T(c)
    a, b = c['d1']*1e-6, c['d2']*1e-6
    u = g.timeadd(t, a)
    eqt('operand of timeadd', t, c['s'], c['us'], 0)
    eq('timediff(timeadd)', g.timediff(u, t), a, 2e-6)
    eq('antisymmetry', g.timediff(t, u), -a, 2e-6)
    check(0 <= u.sec <= 1.0, 'timeadd fraction %r', u.sec)
    tot = c['s']*10**6+c['us']+c['d1']
    eqt('timeadd', u, tot//10**6, tot % 10**6, 2e-6)
    w = g.timeadd(u, b)
    eq('additive', g.timediff(w, g.timeadd(t, a+b)), 0, 4e-6)
    eq('inverse', g.timediff(g.timeadd(u, -a), t), 0, 4e-6)
    if abs(c['d1']) >= 2:
        same('ordering', (u > t, t > u), (a > 0, a < 0))
    return 'neg' if a < 0 else 'pos'


@facet('weeks', st.fixed_dictionaries(
    {'s': st.one_of(civil(2006, 2099).filter(lambda x: x > 1136073600),
                    st.integers(0, 4000).map(
                        lambda w: 1136073600+w*604800),
                    st.integers(1, 4000).map(
                        lambda w: 1136073599+w*604800)),
     'us': frac}), 2000, 20000, 'week/tow of the three systems')
def weeks(c):
    t = T(c)
    off = {}
    for nm, fwd, bwd, e0 in (
            ('gps', g.time2gpst, g.gpst2time, datetime(1980, 1, 6)),
            ('gst', g.time2gst, g.gst2time, datetime(1999, 8, 22)),
            ('bdt', g.time2bdt, g.bdt2time, datetime(2006, 1, 1))):
        week, tow = fwd(t)
        s0 = c['s']-int((e0-D0).total_seconds())
        same('%s week' % nm, int(week), s0//604800)
        eq('%s tow' % nm, tow, s0 % 604800+c['us']*1e-6, 1e-6)
        r = bwd(week, tow)
        eqt('%s round trip' % nm, r, c['s'], c['us'], 2e-6)
        off[nm] = week
    same('GPS-Galileo week offset', off['gps']-off['gst'], 1024)
    same('GPS-BeiDou week offset', off['gps']-off['bdt'], 1356)
    b = g.gpst2bdt(t)
    eq('gpst2bdt', g.timediff(t, b), 14.0, 1e-6)
    eq('bdt2gpst', g.timediff(g.bdt2gpst(b), t), 0.0, 1e-6)


@facet('tow_over', st.fixed_dictionaries(
    {'w': st.integers(0, 4500), 'tow': st.integers(-2*10**9, 2*10**9),
     'k': st.integers(-3, 3)}), 1000, 8000,
    'week/tow with tow outside the week names the same instant')
def tow_over(c):
    tow = c['tow']*1e-3
    for f, e0 in ((g.gpst2time, datetime(1980, 1, 6)),
                  (g.gst2time, datetime(1999, 8, 22)),
                  (g.bdt2time, datetime(2006, 1, 1))):
        a = f(c['w'], tow)
        ref = int((e0-D0).total_seconds())+c['w']*604800
        eq('instant', (a.time-ref)+a.sec, tow, 1e-6)
        b = f(c['w']+c['k'], tow-c['k']*604800)
        eq('carry', g.timediff(a, b), 0.0, 1e-6)


@facet('utc', st.fixed_dictionaries(
    {'s': st.one_of(civil(1980, 2090).filter(lambda s: s > 315964800),
                    st.sampled_from([s+d for s, _ in LS for d in
                                     (-86400, -3600, -3, -2, 1, 2, 5, 25, 30,
                                      3600, 86400)])),
     'us': frac}), 2500, 20000, 'UTC offset against the leap second table')
def utc(c):
    # s is a UTC time at least one second away from a leap second
    u = T(c)
    n = utc_off(c['s'])
    t = g.utc2gpst(u)
    eq('utc2gpst offset', g.timediff(t, u), n, 1e-6)
    near = any(-1 <= c['s']-s < 0 for s, _ in LS)
    if not near:
        v = g.gpst2utc(t)
        eq('gpst2utc(utc2gpst)', g.timediff(v, u), 0, 1e-6)
    return 'leap%d' % n


@facet('rollover', st.fixed_dictionaries(
    {'s': civil(1985, 2090), 'us': frac, 'd': st.integers(-890000, 890000),
     'per': st.sampled_from([86400.0, 604800.0])}), 1500, 10000,
    'adjtime picks the alias nearest the reference')
def rollover(c):
    ref = T(c)
    per = c['per']
    d = c['d'] if per == 604800.0 else c['d']*86400/604800
    t = g.timeadd(ref, d)
    r = g.adjtime(t, ref) if per == 604800.0 else g.adjtime(t, ref, per)
    x = g.timediff(r, ref)
    check(abs(x) <= per/2+1e-6, 'adjtime left %r s from the reference', x)
    k = (g.timediff(r, t))/per
    check(abs(k-round(k)) < 1e-9, 'adjtime moved by %r periods', k)
    return 'moved' if abs(k) > .5 else 'kept'


@facet('timeofday', st.fixed_dictionaries(
    {'s': civil(1985, 2090), 'us': frac, 'd': st.integers(-43100, 43100)}),
    1500, 10000, 'time-of-day resolution around a reference (GPS, GLONASS)')
def timeofday(c):
    if any(abs(c['s']-s) < 2.2*86400 for s, _ in LS):
        return False
    ref = T(c)
    t = g.timeadd(ref, c['d'])             # true instant, within half a day
    tod = g.time2gpst(t)[1] % 86400.0
    eq('tod2tow', g.timediff(g.tod2tow(tod, ref), t), 0, 2e-6)
    # GLONASS time is UTC + 3 h
    s = c['s']+c['d']-utc_off(c['s'])+10800
    todg = s % 86400+c['us']*1e-6
    eq('glo2time', g.timediff(g.glo2time(ref, todg), t), 0, 2e-6)
    return 'wrap' if (c['s'] % 86400)+c['d'] not in range(86400) else 'in-day'
