"""C22 atmosphere models"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq
from vlib import atm, possim
from cssrlib import gnss as g
from cssrlib.gnss import uTropoModel, uIonoModel, Nav
from cssrlib.pntpos import ionKlobuchar, ionmodel

SCALE = 16
RULE = 'sites, directions and epochs over the whole domain of the models'

LAT = st.one_of(st.integers(-90000, 90000), st.sampled_from(
    [0, 15000, -15000, 30000, 45000, -45000, 60000, 75000, -75000, 74999,
     14999, 89999, -89999])).map(lambda x: x*1e-3)
LON = st.integers(-180000, 180000).map(lambda x: x*1e-3)
HGT = st.one_of(st.integers(-400, 9000), st.just(0)).map(float)
EL = st.one_of(st.integers(50, 900), st.sampled_from([900, 10, 30])).map(
    lambda x: x*0.1)
AZ = st.integers(-180, 360).map(float)
WK = st.integers(1, 2900)
TOW = st.integers(0, 604799)


@facet('klobuchar', st.fixed_dictionaries({
    'lat': LAT, 'lon': LON, 'az': AZ, 'el': EL, 'week': WK, 'tow': TOW,
    'a': st.lists(st.integers(-128, 127), min_size=4, max_size=4),
    'b': st.lists(st.integers(-128, 127), min_size=4, max_size=4)}),
    1500, 30000, 'delay against the IS-GPS-200 algorithm')
def klobuchar(c):
    a = [c['a'][i]*2.0**(-30, -27, -24, -24)[i] for i in range(4)]
    b = [c['b'][i]*2.0**(11, 14, 16, 16)[i] for i in range(4)]
    lat, lon = np.deg2rad(c['lat']), np.deg2rad(c['lon'])
    az, el = np.deg2rad(c['az']), np.deg2rad(c['el'])
    ref = atm.klobuchar(c['tow'], lat, lon, az, el, a, b)
    t = g.gpst2time(c['week'], c['tow'])
    pos = np.array([lat, lon, 100.0])
    ion = np.array([a, b])
    # the cosine is cut at |x| = 1.57: allow for either side of the cut
    eps = max(1e-6, 1e-9*abs(ref))
    d = ionKlobuchar(t, pos, az, el, ion)
    near = [atm.klobuchar(c['tow']+s, lat, lon, az, el, a, b)
            for s in (-1e-3, 1e-3)]
    if abs(d-ref) > eps:
        check(min(near)-1e-3 <= d <= max(near)+1e-3,
              'klobuchar %.6f m instead of %.6f m', d, ref)
    nav = Nav()
    nav.ion = ion
    eq('default model', ionmodel(t, pos, az, el, nav), d, 0)
    eq('no model', ionmodel(t, pos, az, el, nav, uIonoModel.NONE), 0.0, 0)
    check(d > 0, 'negative delay')
    eq('period of the azimuth', ionKlobuchar(t, pos, az+2*np.pi, el, ion), d,
       1e-3+2*abs(near[1]-near[0]))
    return 'day' if d > 5e-9*2.6*atm.C*3.5 else 'night'


@facet('mops', st.fixed_dictionaries({
    'lat': LAT, 'h': HGT, 'el': EL, 'week': WK, 'tow': TOW}),
    1200, 20000, 'zenith delays and mapping against RTCA DO-229 appendix A')
def mops(c):
    lat = np.deg2rad(c['lat'])
    t = g.gpst2time(c['week'], c['tow'])
    pos = np.array([lat, 0.3, c['h']])
    d = atm.doy(c['week'], c['tow'])
    zh, zw = atm.mops_zenith(d, lat, c['h'])
    a = g.tropmodel(t, pos, model=uTropoModel.SBAS)
    eq('zenith hydrostatic', a[0], zh*atm.mops_map(np.pi/2), 1e-7)
    eq('zenith wet', a[1], zw*atm.mops_map(np.pi/2), 1e-7)
    el = np.deg2rad(c['el'])
    m = g.tropmapf(t, pos, el, model=uTropoModel.SBAS)
    eq('mapping', m, [atm.mops_map(el)]*2, 1e-9)
    b = g.tropmodel(t, pos, el, model=uTropoModel.SBAS)
    eq('slant', b[0]+b[1], (zh+zw)*atm.mops_map(el), 1e-5)
    check(1.0 < a[0] < 2.5 or c['h'] > 4000, 'implausible dry delay')


@facet('saastamoinen', st.fixed_dictionaries({
    'lat': LAT, 'h': HGT, 'el': EL, 'week': WK, 'tow': TOW,
    'humi': st.integers(0, 100).map(lambda x: x*0.01)}),
    1200, 20000, 'zenith delays and Niell mapping functions')
def saast(c):
    lat = np.deg2rad(c['lat'])
    t = g.gpst2time(c['week'], c['tow'])
    pos = np.array([lat, -2.3, c['h']])
    zh, zw = atm.saast(lat, c['h'], c['humi'])
    a = g.tropmodel(t, pos, humi=c['humi'], model=uTropoModel.SAAST)
    eq('zenith dry', a[0], zh, 1e-7)
    eq('zenith wet', a[1], zw, 1e-7)
    el = np.deg2rad(c['el'])
    d = atm.doy(c['week'], c['tow'])
    m = g.tropmapf(t, pos, el, model=uTropoModel.SAAST)
    eq('Niell mapping', m, atm.niell(d, lat, c['h'], el), 1e-7)
    z = g.tropmapf(t, pos, np.pi/2)
    eq('mapping in the zenith', z, [1.0, 1.0], 1e-9)
    e2 = min(el+0.05, np.pi/2)
    m2 = g.tropmapf(t, pos, e2)
    check(m2[0] <= m[0] and m2[1] <= m[1], 'mapping grows with elevation')


@facet('models', st.fixed_dictionaries({
    'lat': LAT, 'el': st.integers(50, 900).map(lambda x: x*0.1),
    'week': WK, 'tow': TOW}), 400, 4000,
    'model choice: none, Hopfield; the models agree within decimetres')
def models(c):
    t = g.gpst2time(c['week'], c['tow'])
    pos = np.array([np.deg2rad(c['lat']), 1.0, 0.0])
    el = np.deg2rad(c['el'])
    eq('none', g.tropmodel(t, pos, model=uTropoModel.NONE)[:2], [0, 0], 0)
    eq('none', g.tropmapf(t, pos, el, model=uTropoModel.NONE), [0, 0], 0)
    zd = []
    for m in (uTropoModel.SAAST, uTropoModel.SBAS, uTropoModel.HOPF):
        h, w, _ = g.tropmodel(t, pos, model=m)
        check(2.2 < h < 2.4, 'dry zenith delay %.3f m', h)
        check(0.0 < w < 0.45, 'wet zenith delay %.3f m', w)
        mh, mw = g.tropmapf(t, pos, el, model=m)
        s = 1/np.sin(el)
        check(mh <= s*1.002+0.002 and mw <= s*1.002+0.002 and mh > 0.9*s**.9,
              'mapping %r %r at %.1f deg', mh, mw, c['el'])
        zd.append(mh*h)
    check(max(zd)-min(zd) < 0.03*max(zd)/np.sin(el)**.5+.05,
          'dry slant delays differ: %r', zd)
    # Hopfield: h_d = 148.98 (T-4.12), h_w = 11000, P 1010, T 291.1, e 10.4
    mh, mw = g.tropmapf(t, pos, el, model=uTropoModel.HOPF)
    for nm, q, a in (('dry', mh, 2.5), ('wet', mw, 1.5)):
        eq('Hopfield mapping '+nm, q, 1/np.sin(np.deg2rad(
            np.sqrt(c['el']**2+a*a))), 1e-9)
    h, w, _ = g.tropmodel(t, pos, model=uTropoModel.HOPF)
    eq('Hopfield zenith dry', h, 77.6e-6/5*1010/291.1*148.98*(291.1-4.12),
       1e-4)
    eq('Hopfield zenith wet', w, 77.6e-6/5*11000*4810*10.4/291.1**2, 1e-6)
    # low elevation or implausible height: no Niell mapping
    eq('below horizon', g.tropmapf(t, pos, -0.01), [0, 0], 0)


@facet('pierce', st.fixed_dictionaries({
    'lat': LAT, 'lon': LON, 'az': AZ, 'el': EL,
    'hion': st.sampled_from([350e3, 375e3, 450e3, 506.7e3])}),
    1200, 20000, 'pierce point and slant factor against vector geometry')
def pierce(c):
    re = 6378136.3
    lat, lon = np.deg2rad(c['lat']), np.deg2rad(c['lon'])
    if abs(c['lat']) > 89.9:
        return False
    az, el = np.deg2rad(c['az']), np.deg2rad(c['el'])
    sf, p = g.ionppp(np.array([lat, lon, 0.0]), az, el, re, c['hion'])
    E = possim.enu([lat, lon])
    u = E.T@[np.cos(el)*np.sin(az), np.cos(el)*np.cos(az), np.sin(el)]
    r = re*E[2]
    b = r@u
    d = -b+np.sqrt(b*b+(re+c['hion'])**2-re*re)
    q = (r+d*u)/(re+c['hion'])
    got = np.array([np.cos(p[0])*np.cos(p[1]), np.cos(p[0])*np.sin(p[1]),
                    np.sin(p[0])])
    eq('pierce point', got, q, 2e-7)
    eq('slant factor', sf, 1/(q@u), 1e-9)
