"""C25 earth rotation, sun and moon, solid tides, relativity, wind-up"""
import datetime
import ephem
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq
try:
    from pysolid.solid import solid_grid
except ImportError:
    solid_grid = None
from vlib import gen, orb, possim, astro
from vlib.possim import enu, llh2ecef, ecef2llh
from cssrlib import gnss as g, ppp, peph

SCALE = 8
AS = np.pi/648000
GM, RE = 3.986004415e14, 6378137.0
GMS, GMM = 1.327124e20, 4.902801e12
T0 = datetime.datetime(2000, 1, 1)
RULE = 'epochs 2000 to 2036 against PyEphem and closed-form models'


def epoch():
    """UTC; leap seconds known to the code and ephem's range"""
    far = st.integers(0, 36*365*86400)
    days = st.integers(0, 36*365).map(lambda d: d*86400)
    eq_ = st.tuples(st.integers(0, 35), st.sampled_from(
        [79, 80, 171, 265, 266, 355, 0, 364]), st.integers(0, 86399)).map(
        lambda x: int(x[0]*365.25)*86400+x[1]*86400+x[2])
    return st.one_of(far, days, eq_)


def dt_of(s, frac=0):
    return T0+datetime.timedelta(seconds=s, milliseconds=frac)


def gt(d):
    return g.epoch2time([d.year, d.month, d.day, d.hour, d.minute,
                         d.second+d.microsecond*1e-6])


def ang(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b)), a@b)


def rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


def rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])


def ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])


def polar(xp, yp):
    return np.array([[1, 0, xp], [0, 1, -yp], [-xp, yp, 1]])


# (poles far off show which coordinate is which)
ERP = st.tuples(st.integers(-20000, 20000), st.integers(-20000, 20000),
                st.integers(-900, 900)).map(
    lambda x: [x[0]*1e-3*AS, x[1]*1e-3*AS, x[2]*1e-3])


@st.composite
def sm_case(draw):
    return dict(t=draw(epoch()), ms=draw(st.integers(0, 999)),
                erp=draw(st.one_of(st.just([0.0, 0.0, 0.0]), ERP)))


@facet('sunmoon', sm_case, 1200, 20000, RULE)
def sunmoon(s):
    d = dt_of(s['t'], s['ms'])
    t = gt(d)
    xp, yp, du = s['erp']
    erp = np.array([xp, yp, du, 0, 0])
    d1 = d+datetime.timedelta(seconds=du)
    ref = [polar(xp, yp)@f(d1) for f in (astro.sun, astro.moon)]
    gm = astro.gmst(d1)
    for nm, out in (('ppp', ppp.sunmoonpos(t, erp)),
                    ('peph', peph.sunmoonpos(t, erp, True, True, True))):
        rs, rm, gq = out
        a = np.rad2deg(ang(rs, ref[0]))
        check(a < 0.02, '%s sun direction off by %.4f deg at %s', nm, a, d)
        a = np.rad2deg(ang(rm, ref[1]))
        check(a < 0.45, '%s moon direction off by %.4f deg at %s', nm, a, d)
        q = np.linalg.norm(rs)/np.linalg.norm(ref[0])-1
        check(abs(q) < 2e-4, '%s sun distance %g at %s', nm, q, d)
        q = np.linalg.norm(rm)/np.linalg.norm(ref[1])-1
        check(abs(q) < 0.008, '%s moon distance %g at %s', nm, q, d)
        dg = np.remainder(gq-gm+np.pi, 2*np.pi)-np.pi
        check(abs(dg) < 2e-6, '%s GMST off by %g at %s', nm, dg, d)
        # polar motion turns both directions
        z = ppp.sunmoonpos(t, np.array([0, 0, du, 0, 0])) if nm == 'ppp' \
            else peph.sunmoonpos(t, np.array([0, 0, du, 0, 0]), True, True,
                                 True)
        for k in (0, 1):
            a = ang(out[k], polar(xp, yp)@z[k])/AS
            check(a < 0.01, '%s polar motion off by %.3f arc seconds at %s',
                  nm, a, d)
    if du == 0 and xp == 0 and yp == 0:
        o = ppp.sunmoonpos(t)
        check(np.array_equal(o[0], ppp.sunmoonpos(t, erp)[0]),
              'default earth rotation parameters')
    return True


def nut(T):
    """largest terms of the nutation (Meeus, Astronomical Algorithms)"""
    om = np.deg2rad(125.04452-1934.136261*T+0.0020708*T*T)
    L = np.deg2rad(280.4665+36000.7698*T)
    Lm = np.deg2rad(218.3165+481267.8813*T)
    M = np.deg2rad(357.52772+35999.050340*T)
    Mm = np.deg2rad(134.96298+477198.867398*T)
    dp = -17.1996*np.sin(om)-1.3187*np.sin(2*L)-0.2274*np.sin(2*Lm) \
        + 0.2062*np.sin(2*om)+0.1426*np.sin(M)+0.0712*np.sin(Mm) \
        - 0.0517*np.sin(2*L+M)-0.0386*np.sin(2*Lm-om) \
        - 0.0301*np.sin(2*Lm+Mm)+0.0217*np.sin(2*L-M) \
        + 0.0129*np.sin(2*L-om)+0.0123*np.sin(2*Lm-Mm)
    de = 9.2025*np.cos(om)+0.5736*np.cos(2*L)+0.0977*np.cos(2*Lm) \
        - 0.0895*np.cos(2*om)+0.0054*np.cos(M)+0.0224*np.cos(2*L+M) \
        + 0.0200*np.cos(2*Lm-om)+0.0129*np.cos(2*Lm+Mm)
    return dp*AS, de*AS, om


@st.composite
def rot_case(draw):
    return dict(t=draw(epoch()), ms=draw(st.integers(0, 999)),
                erp=draw(st.one_of(st.just([0.0, 0.0, 0.0]), ERP)),
                ra=draw(st.integers(0, 359999))*1e-3,
                dec=draw(st.integers(-89999, 89999))*1e-3)


@facet('rotation', rot_case, 1200, 20000,
       'J2000 directions rotated into the Earth-fixed frame')
def rotation(s):
    d = dt_of(s['t'], s['ms'])
    t = gt(d)
    xp, yp, du = s['erp']
    erp = np.array([xp, yp, du, 0, 0])
    ra, dec = np.deg2rad(s['ra']), np.deg2rad(s['dec'])
    v = np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra), np.sin(dec)])
    T = (d-datetime.datetime(2000, 1, 1, 12)).total_seconds()/86400/36525
    # precession by PyEphem
    e0 = ephem.Equatorial(ra, dec, epoch='2000')
    e1 = ephem.Equatorial(e0, epoch=ephem.Date(d))
    a, b = float(e1.ra), float(e1.dec)
    w = np.array([np.cos(b)*np.cos(a), np.cos(b)*np.sin(a), np.sin(b)])
    dp, de, om = nut(T)
    eps = np.deg2rad(23.439291-0.0130042*T)
    # precession IAU 1976 (PyEphem leaves out that of a few days)
    ze, z, th = ((a_*T+b_*T*T+c_*T**3)*AS for a_, b_, c_ in (
        (2306.2181, 0.30188, 0.017998), (2306.2181, 1.09468, 0.018203),
        (2004.3109, -0.42665, -0.041833)))
    w2 = rz(-z)@ry(th)@rz(-ze)@v
    w = rx(-eps-de)@rz(-dp)@rx(eps)@w
    w2 = rx(-eps-de)@rz(-dp)@rx(eps)@w2
    d1 = d+datetime.timedelta(seconds=du)
    gm = astro.gmst(d1)
    gast = gm+dp*np.cos(eps)+0.00264*AS*np.sin(om)
    w = polar(xp, yp)@rz(gast)@w
    w2 = polar(xp, yp)@rz(gast)@w2
    for nm, o in (('ppp', ppp.eci2ecef(g.utc2gpst(t), erp)),
                  ('peph', peph.eci2ecef(t, erp))):
        U, gq = o
        check(np.max(np.abs(U@U.T-np.eye(3))) < 1e-12 and
              np.linalg.det(U) > 0, '%s not a rotation at %s', nm, d)
        q = ang(U@v, w)/AS
        check(max(q/15, ang(U@v, w2)/AS) < 0.07, '%s direction off by %.3f arc seconds at %s', nm, q, d)
        dg = np.remainder(gq-gm+np.pi, 2*np.pi)-np.pi
        check(abs(dg) < 2e-6, '%s GMST off by %g at %s', nm, dg, d)
    return True


def tide1(R, gm, llh):
    """degree 2 and 3 displacement (IERS conventions, closed form)"""
    lat, lon = llh[0], llh[1]
    u = enu(llh)[2]
    D = np.linalg.norm(R)
    e = R/D
    c = e@u
    p2 = (3*np.sin(lat)**2-1)/2
    h2, l2 = 0.6078-0.0006*p2, 0.0847+0.0002*p2
    h3, l3 = 0.292, 0.015
    q = gm/GM*RE*(RE/D)**3
    r = q*(h2*u*(1.5*c*c-0.5)+3*l2*c*(e-c*u))
    q3 = q*RE/D
    r = r+q3*(h3*u*(2.5*c**3-1.5*c)+l3*(7.5*c*c-1.5)*(e-c*u))
    dl, L = np.arcsin(e[2]), np.arctan2(e[1], e[0])
    r = r+0.75*0.0025*q*np.sin(2*dl)*np.sin(2*lat)*np.sin(lon-L)*u
    r = r+0.75*0.0022*q*(np.cos(dl)*np.cos(lat))**2*np.sin(2*(lon-L))*u
    return r


@st.composite
def tide_case(draw):
    return dict(t=draw(epoch()), lat=draw(st.one_of(
        st.integers(-90000, 90000), st.sampled_from([-90000, 0, 90000]))),
        lon=draw(st.integers(-180000, 180000)),
        h=draw(st.integers(-100, 5000)))


@facet('tide', tide_case, 1500, 30000,
       'solid Earth tide of any site and epoch: closed form and PySolid')
def tide(s):
    d = dt_of(s['t'])
    t = gt(d)
    llh = np.array([np.deg2rad(s['lat']*1e-3), np.deg2rad(s['lon']*1e-3),
                    float(s['h'])])
    E = enu(llh)
    sun, moon = astro.sun(d), astro.moon(d)
    gm = astro.gmst(d)
    up = E[2]
    ref = tide1(sun, GMS, llh)+tide1(moon, GMM, llh) - \
        0.012*np.sin(2*llh[0])*np.sin(gm+llh[1])*up
    perm = 0.1196*(1.5*np.sin(llh[0])**2-0.5)*E[2] + \
        0.0247*np.sin(2*llh[0])*E[1]
    for fl, r in ((False, ref), (True, ref+perm)):
        q = ppp.solid_tide(sun, moon, llh, E, gm, fl)
        eq('solid tide for given sun and moon (%s)' % fl, q, r, 5e-5)
    q = ppp.tidedisp(t, llh)
    eq('solid tide', q, ref+perm, 6e-3)
    q = ppp.tidedispIERS2010(t, llh)
    m = 7e-3 if ppp.solid_grid is not None else 6e-3
    eq('solid tide (IERS 2010)', q,
       ref if ppp.solid_grid is not None else ref+perm, m)
    if solid_grid is not None and ppp.solid_grid is not None:
        # PySolid at the same site and second
        v = solid_grid(d.year, d.month, d.day, d.hour, d.minute, d.second,
                       s['lat']*1e-3, 0, 1, s['lon']*1e-3, 0, 1)
        eq('solid tide (PySolid)', q,
           E.T@np.array([float(np.ravel(x)[0]) for x in v]), 2e-4)
    return True


def windup(ek, xs, ys, xr, yr):
    """relative rotation of the dipoles in cycles (Wu et al. 1993), signed
    angle of the effective dipoles around the line of sight"""
    d1 = xs-ek*(ek@xs)-np.cross(ek, ys)
    d2 = xr-ek*(ek@xr)+np.cross(ek, yr)
    return np.arctan2(ek@np.cross(d1, d2), d1@d2)/(2*np.pi)


@st.composite
def wu_case(draw):
    return dict(site=draw(possim.site(89)),
                sat=draw(possim.sat_list('GEJCR', 1, 1, lo=3)),
                week=draw(st.integers(1200, 2800)),
                tow=draw(st.integers(0, 604799)),
                full=draw(st.booleans()), n=draw(st.integers(2, 12)),
                dt=draw(st.integers(1, 90)), p0=draw(
                    st.integers(-20000, 20000))*1e-3)


@facet('windup', wu_case, 800, 15000,
       'phase wind-up and Shapiro delay along an arc, continuity included')
def windup_(s):
    sim = possim.Sim(s['site'], s['sat'], s['week'], s['tow'])
    t0 = g.gpst2time(s['week'], s['tow'])
    d0 = datetime.datetime(1980, 1, 6)+datetime.timedelta(
        weeks=s['week'], seconds=s['tow']-15)
    E = enu(sim.llh)
    ph = s['p0']
    w0 = None
    for k in range(s['n']):
        tk = k*s['dt']
        p, _ = sim.state(0, tk)
        pa, _ = sim.state(0, tk+0.5)
        pb, _ = sim.state(0, tk-0.5)
        v = pa-pb
        sun = astro.sun(d0+datetime.timedelta(seconds=tk))
        z = -p/np.linalg.norm(p)
        if s['full']:
            x = sun-p
        else:
            x = v+np.cross([0, 0, possim.OME], p)
        y = np.cross(z, x)
        if np.linalg.norm(y) < 0.02*np.linalg.norm(x):
            return False
        y = y/np.linalg.norm(y)
        x = np.cross(y, z)
        ek = sim.rr-p
        ek = ek/np.linalg.norm(ek)
        w = windup(ek, x, y, E[0], E[1])
        q = ppp.windupcorr(g.timeadd(t0, tk), p, v, sim.rr, sun, ph,
                           full=s['full'])
        q = float(q)
        r = np.remainder(q-w+0.5, 1)-0.5
        check(abs(r) < 1e-6, 'wind-up differs from the definition by %g in epoch %d', r, k)
        check(abs(q-ph) <= 0.5+1e-9, 'wind-up jumps from %g to %g', ph, q)
        ph = q
        r1, r2, r3 = (np.linalg.norm(a) for a in (p, sim.rr, p-sim.rr))
        ref = 2*GM/orb.C**2*np.log((r1+r2+r3)/(r1+r2-r3))
        eq('Shapiro delay', float(ppp.shapiro(p, sim.rr)), ref, 1e-7)
    return True
