"""C04 broadcast orbit and clock models, almanacs"""
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from vlib import gen, orb
from cssrlib import gnss as g, ephemeris as ep
from cssrlib.gnss import uGNSS, Alm

SCALE = 8
RULE = ('elements over the interface ranges for GPS, Galileo (e up to 0.18), '
        'QZSS, BeiDou (GEO/IGSO/MEO), NavIC, GLONASS; times within validity')
DT = st.one_of(st.integers(-14400*1000, 14400*1000), st.just(0)
               ).map(lambda x: x*1e-3)


@facet('kepler', st.fixed_dictionaries(
    {'k': gen.kep(), 'dt': DT, 'mode': st.integers(0, 3),
     'toc': st.sampled_from([0, 0, 16, -7200, 3600])}), 700, 8000,
    'position, velocity, clock against ICD formulas with Newton solver')
def kepler(c):
    k, dt = c['k'], c['dt']
    e = gen.mk_eph(k, c['mode'], c['toc'])
    t = g.timeadd(e.toe, dt)
    cn = c['mode'] > 0
    ref = orb.eph_pos(k['c'], k['prn'], k, dt, cn)
    rs, dts = ep.eph2pos(t, e)
    eq('position', rs, ref, 2e-3)
    dtc = dt-c['toc']
    rel = orb.eph_rel(k['c'], k, dt, cn)
    clk = k['af0']+k['af1']*dtc+k['af2']*dtc**2
    eq('clock', dts, clk+rel, 2e-13)
    eq('relativity', ep.eph2rel(t, e), rel, 2e-13)
    r2, v2, d2 = ep.eph2pos(t, e, True)
    eq('position with velocity', r2, ref, 2e-3)
    eq('clock with velocity', d2, dts, 1e-16)
    # the interface specification leaves the rates of the mean motion
    # correction and of the semi-major axis out of the velocity formula
    eq('velocity', v2, orb.eph_vel(k['c'], k['prn'], k, dt, cn),
       1e-4+(abs(k['delnd']*dt)*k['A']+2*abs(k['Adot']) if cn else 0))
    return k['c']+('geo' if orb.is_geo(k['c'], k['prn']) else '')


@facet('clock', st.fixed_dictionaries(
    {'k': gen.kep(), 'dt': DT}), 600, 5000,
    'clock offset at a satellite-clock reading')
def clock(c):
    k = c['k']
    e = gen.mk_eph(k)
    d = ep.eph2clk(g.timeadd(e.toc, c['dt']), e)
    # reading minus offset is the system time at which the polynomial holds
    t = c['dt']-d
    eq('clock', d, k['af0']+k['af1']*t+k['af2']*t*t, 1e-12)


@facet('glonass', st.fixed_dictionaries(
    {'k': gen.glo(), 'dt': st.one_of(
        st.integers(-1800*10, 1800*10).map(lambda x: x*0.1),
        st.integers(-900, 900), st.integers(-30, 30).map(lambda x: x*0.1),
        # close to a whole number of integration steps
        st.tuples(st.integers(-300, 300), st.sampled_from(
            [1e-3, -1e-3, 5e-3, -8e-3, 2e-2, 0.4, -0.3])).map(sum),
        st.sampled_from([0, 1, -1, -1, 2, -2]))}), 90, 800,
    'GLONASS state against a high-order integration of the ICD equations')
def glonass(c):
    k, dt = c['k'], c['dt']
    e = gen.mk_geph(k)
    t = g.timeadd(e.toe, dt)
    p, v = orb.glo_state(k['pos'], k['vel'], k['acc'], dt)
    rs, vs, dts = ep.geph2pos(t, e, True)
    eq('position', rs, p, 2e-3)
    eq('velocity', vs, v, 1e-5)
    eq('clock', dts, -k['taun']+k['gamn']*dt, 1e-15)
    same('ephemeris untouched', (e.pos.tolist(), e.vel.tolist()),
         (list(k['pos']), list(k['vel'])))
    rs2, dts2 = ep.geph2pos(t, e)
    eq('repeat', rs2, rs, 1e-9)
    eq('clock', dts2, dts, 1e-15)
    d = ep.geph2clk(t, e)
    eq('clock at reading', d, -k['taun']+k['gamn']*(dt-d), 1e-13)
    eq('relativity', ep.geph2rel(rs, vs), -2*(p@v)/orb.C**2, 1e-15)
    return 'zero' if dt == 0 else 'back' if dt < 0 else 'forward'


def ref_alm(c, prn, k, dt):
    q = dict(k, deln=0.0, idot=0.0, cuc=0.0, cus=0.0, cic=0.0, cis=0.0,
             crc=0.0, crs=0.0)
    mu, om = orb.MU[c], orb.OM[c]
    M = q['M0']+np.sqrt(mu/q['A']**3)*dt
    E = orb.kepler(M, q['e'])
    e = q['e']
    x = np.array([q['A']*(np.cos(E)-e),
                  q['A']*np.sqrt(1-e*e)*np.sin(E), 0.0])
    O = q['OMG0']+(q['OMGd']-om)*dt-om*q['toes']
    return orb.rz(-O)@orb.rx(-q['i0'])@orb.rz(-q['omg'])@x


@facet('almanac', st.fixed_dictionaries(
    {'k': gen.kep('GEJC'), 'dt': st.integers(-6*86400, 6*86400)}),
    500, 4000, 'almanac position/clock against plain Kepler geometry')
def almanac(c):
    k, dt = c['k'], c['dt']
    a = Alm(int(g.prn2sat(gen.SYS[k['c']], k['prn'])))
    for n in ('A', 'e', 'i0', 'M0', 'OMG0', 'omg', 'OMGd', 'af0', 'af1'):
        setattr(a, n, k[n])
    a.toas = k['toes']
    a.toa = g.gpst2time(k['week'], k['toes'])
    rs, dts = ep.alm2pos(g.timeadd(a.toa, dt), a)
    eq('position', rs, ref_alm(k['c'], k['prn'], k, dt), 5e-2)
    eq('clock', dts, k['af0']+k['af1']*dt, 1e-15)


@facet('findalm', st.fixed_dictionaries(
    {'l': st.lists(st.tuples(st.integers(1, 4), st.integers(0, 40)),
                   max_size=12), 'sat': st.integers(1, 4),
     't': st.integers(0, 40),
     'tmax': st.sampled_from([None, 3, 10])}), 500, 3000,
    'almanac selection: same satellite, nearest epoch, within tmax')
def findalm(c):
    L = []
    t0 = g.gpst2time(2200, 0)
    for s, d in c['l']:
        a = Alm(s)
        a.toa = g.timeadd(t0, d*3600)
        L.append(a)
    t = g.timeadd(t0, c['t']*3600)
    r = ep.findalm(L, t, c['sat']) if c['tmax'] is None else \
        ep.findalm(L, t, c['sat'], c['tmax']*3600)
    tm = 1e9 if c['tmax'] is None else c['tmax']
    cand = [abs(d-c['t']) for s, d in c['l'] if s == c['sat']
            and abs(d-c['t']) <= tm]
    if not cand:
        check(r is None, 'almanac found for nothing')
        return 'none'
    check(r is not None, 'no almanac found')
    check(r.sat == c['sat'], 'wrong satellite')
    eq('distance', abs(g.timediff(r.toa, t))/3600, min(cand), 1e-9)
    return 'found'


@facet('yuma', st.fixed_dictionaries(
    {'l': st.lists(gen.kep('G'), min_size=1, max_size=4),
     'sys': st.sampled_from('GJEC'), 'health': st.integers(0, 63),
     'week': st.integers(1500, 2390), 'toa': st.integers(0, 147)}),
    250, 2000, 'Yuma text of generated almanacs read back')
def yuma(c):
    L = c['l']
    sys = gen.SYS[c['sys']]
    off = {'G': 0, 'J': 0, 'E': 1024, 'C': 1356}[c['sys']]
    lo, hi = gen.PRN[c['sys']]
    w = c['week']
    toa = c['toa']*4096
    txt = ''
    prns = []
    for n, k in enumerate(L):
        prn = lo+(k['prn']+n) % (hi-lo+1)
        prns.append(prn)
        txt += '******** Week %4d almanac for PRN-%02d ********\n' % (
            (w-off) % 1024, prn)
        txt += 'ID:                         %02d\n' % prn
        txt += 'Health:                     %03d\n' % c['health']
        txt += 'Eccentricity:               %.10E\n' % k['e']
        txt += 'Time of Applicability(s):  %.4f\n' % toa
        txt += 'Orbital Inclination(rad):   %.10f\n' % k['i0']
        txt += 'Rate of Right Ascen(r/s):  %.10E\n' % k['OMGd']
        txt += 'SQRT(A)  (m 1/2):           %.6f\n' % np.sqrt(k['A'])
        txt += 'Right Ascen at Week(rad):  %.10E\n' % k['OMG0']
        txt += 'Argument of Perigee(rad):   %.9f\n' % k['omg']
        txt += 'Mean Anom(rad):             %.10E\n' % k['M0']
        txt += 'Af0(s):                     %.10E\n' % k['af0']
        txt += 'Af1(s/s):                  %.10E\n' % k['af1']
        txt += 'week:                        %4d\n\n' % ((w-off) % 1024)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.alm')
        with open(f, 'w') as fh:
            fh.write(txt)
        A = ep.loadyuma(f, sys)
    same('number of almanacs', len(A), len(L))
    for a, k, prn in zip(A, L, prns):
        same('satellite', int(a.sat), int(g.prn2sat(sys, prn)))
        same('health', a.svh, c['health'])
        eq('toa', g.timediff(a.toa, g.gpst2time(w, toa)), 0.0, 1e-6)
        eq('toas', a.toas, toa, 1e-6)
        for n, tol in (('e', 1e-9), ('i0', 1e-9), ('OMGd', 1e-15),
                       ('OMG0', 1e-9), ('omg', 1e-8), ('M0', 1e-9),
                       ('af0', 1e-12), ('af1', 1e-18), ('A', 2e-2)):
            eq(n, getattr(a, n), k[n], tol)
    return 'rolled' if (w-off) % 1024 != w-off else 'plain'


@facet('galxml', st.fixed_dictionaries(
    {'l': st.lists(gen.kep('E', 0.02), min_size=1, max_size=4),
     'week': st.integers(700, 1500), 'toa': st.integers(0, 1007),
     'st': st.lists(st.integers(0, 3), min_size=3, max_size=3),
     'iod': st.integers(0, 15)}), 200, 1500,
    'Galileo XML almanac of generated values read back')
def galxml(c):
    w, toa = c['week'], c['toa']*600
    ee = g.time2epoch(g.gst2time(w, toa))
    out = []
    for k in c['l']:
        out.append(
            '<svAlmanac><SVID>%d</SVID><almanac>'
            '<aSqRoot>%.9f</aSqRoot><ecc>%.12f</ecc><deltai>%.12e</deltai>'
            '<omega0>%.12e</omega0><omegaDot>%.12e</omegaDot><w>%.12e</w>'
            '<m0>%.12e</m0><af0>%.12e</af0><af1>%.12e</af1><iod>%d</iod>'
            '<t0a>%d</t0a><wna>%d</wna></almanac>'
            '<svFNavSignalStatus><statusE5a>%d</statusE5a>'
            '</svFNavSignalStatus><svINavSignalStatus>'
            '<statusE5b>%d</statusE5b><statusE1B>%d</statusE1B>'
            '</svINavSignalStatus></svAlmanac>' % (
                k['prn'], np.sqrt(k['A'])-np.sqrt(29600e3), k['e'],
                (k['i0']-np.deg2rad(56))/np.pi, k['OMG0']/np.pi,
                k['OMGd']/np.pi, k['omg']/np.pi, k['M0']/np.pi, k['af0'],
                k['af1'], c['iod'], toa, w % 4, *c['st']))
    xml = ('<?xml version="1.0" encoding="UTF-8"?><signalData><header>'
           '<GAL-header><issueDate>%04d-%02d-%02dT%02d:%02d:%02d'
           '</issueDate></GAL-header></header><body><Almanacs>%s'
           '</Almanacs></body></signalData>' % (*[int(x) for x in ee],
                                                ''.join(out)))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.xml')
        with open(f, 'w') as fh:
            fh.write(xml)
        A = ep.loadXmlAlmanac(f)
    same('number', len(A), len(c['l']))
    for a, k in zip(A, c['l']):
        same('satellite', int(a.sat), int(g.prn2sat(uGNSS.GAL, k['prn'])))
        eq('toa', g.timediff(a.toa, g.gst2time(w, toa)), 0, 1e-6)
        same('status', a.svh, c['st'][0] << 4 | c['st'][1] << 2 | c['st'][2])
        for n, tol in (('e', 1e-11), ('i0', 1e-9), ('OMGd', 1e-18),
                       ('OMG0', 1e-10), ('omg', 1e-10), ('M0', 1e-10),
                       ('af0', 1e-14), ('af1', 1e-19), ('A', 1e-3)):
            eq(n, getattr(a, n), k[n], tol)
