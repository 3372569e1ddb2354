"""C03 geodesy and geometry"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from cssrlib import gnss as g
from cssrlib.gnss import rCST

SCALE = 10
RULE = 'positions over the whole globe incl. poles and date line'
A, F = 6378137.0, 1/298.257223563
OM, CL = 7.2921151467e-5, 299792458.0

lat = st.one_of(st.integers(-90*10**7, 90*10**7),
                st.sampled_from([0, 90*10**7, -90*10**7, 899999999,
                                 -899999999])).map(lambda x: x*1e-7)
lon = st.one_of(st.integers(-180*10**7, 180*10**7),
                st.sampled_from([0, 180*10**7, -180*10**7, 90*10**7])
                ).map(lambda x: x*1e-7)
hgt = st.one_of(st.integers(-5000*1000, 10**7), st.integers(10**7, 36*10**9)
                ).map(lambda x: x*1e-3)
LLH = st.fixed_dictionaries({'lat': lat, 'lon': lon, 'h': hgt})
azs = st.integers(0, 3599999).map(lambda x: x*1e-4)
els = st.one_of(st.integers(-900000, 900000),
                st.just(900000)).map(lambda x: x*1e-4)


def normal(p, lm):
    return np.array([np.cos(p)*np.cos(lm), np.cos(p)*np.sin(lm), np.sin(p)])


def ref_ecef(p, lm, h):
    """foot point from the gradient of the ellipsoid, plus h * normal"""
    n = normal(p, lm)
    b = A*(1-F)
    D = np.array([A*A, A*A, b*b])
    foot = D*n/np.sqrt((D*n*n).sum())
    return foot+h*n


def frame(p, lm):
    """east, north, up from the definition"""
    u = normal(p, lm)
    e = np.array([-np.sin(lm), np.cos(lm), 0.0])
    return np.array([e, np.cross(u, e), u])


@facet('llh', LLH, 3000, 30000, 'LLH <-> ECEF against the normal-foot form')
def llh(c):
    p, lm, h = np.deg2rad(c['lat']), np.deg2rad(c['lon']), c['h']
    a = np.array([p, lm, h])
    r = g.pos2ecef(a)
    eq('pos2ecef', r, ref_ecef(p, lm, h), 1e-6, 1e-12)
    same('argument untouched', a.tolist(), [p, lm, h])
    d = np.array([c['lat'], c['lon'], h])
    r2 = g.pos2ecef(d, isdeg=True)
    eq('pos2ecef in degrees', r2, r, 1e-6, 1e-12)
    same('argument untouched (deg)', d.tolist(), [c['lat'], c['lon'], h])
    r0 = r.copy()
    q = g.ecef2pos(r)
    same('ecef2pos argument', r.tolist(), r0.tolist())
    eq('ecef2pos height', q[2], h, 2e-3)
    back = ref_ecef(q[0], q[1], q[2])
    eq('ecef2pos', back, r, 2e-3)
    check(abs(q[0]) <= np.pi/2+1e-12 and abs(q[1]) <= np.pi+1e-12,
          'angle range %r', q)
    return 'polar' if abs(c['lat']) > 89.9 else 'mid'


@facet('enu', st.fixed_dictionaries(
    {'lat': lat, 'lon': lon, 'v': st.lists(
        st.integers(-10**9, 10**9), min_size=3, max_size=3)}),
    1500, 15000, 'local frame orthonormal, right-handed, correctly oriented')
def enu(c):
    p, lm = np.deg2rad(c['lat']), np.deg2rad(c['lon'])
    pos = np.array([p, lm, 0.0])
    E = g.xyz2enu(pos)
    eq('xyz2enu', E, frame(p, lm), 1e-14)
    eq('enu2xyz', g.enu2xyz(pos), frame(p, lm).T, 1e-12)
    v = np.array(c['v'])*1e-3
    w = g.ecef2enu(pos, v)
    eq('ecef2enu', w, frame(p, lm)@v, 1e-8)
    eq('norm', np.linalg.norm(w), np.linalg.norm(v), 1e-8)
    # a point displaced east/north/up changes lon/lat/height that way
    if abs(c['lat']) < 89:
        r = ref_ecef(p, lm, 100.0)
        q0 = g.ecef2pos(r)
        q1 = g.ecef2pos(r+g.enu2xyz(pos)@np.array([100.0, 0, 0]))
        dl = (q1[1]-q0[1]+np.pi) % (2*np.pi)-np.pi
        check(dl > 0, 'east displacement gives dlon=%r', dl)
        q1 = g.ecef2pos(r+g.enu2xyz(pos)@np.array([0, 100.0, 0]))
        check(q1[0] > q0[0], 'north displacement gives dlat<=0')
        q1 = g.ecef2pos(r+g.enu2xyz(pos)@np.array([0, 0, 100.0]))
        eq('up displacement', q1[2]-q0[2], 100.0, 1e-2)


@facet('azel', st.fixed_dictionaries(
    {'lat': lat, 'lon': lon, 'az': azs, 'el': els}), 2000, 20000,
    'direction -> azimuth/elevation, incl. zenith')
def azel(c):
    p, lm = np.deg2rad(c['lat']), np.deg2rad(c['lon'])
    az, el = np.deg2rad(c['az']), np.deg2rad(c['el'])
    n = np.array([np.cos(el)*np.sin(az), np.cos(el)*np.cos(az), np.sin(el)])
    e = frame(p, lm).T@n
    a2, e2 = g.satazel(np.array([p, lm, 0.0]), e)
    check(abs(e2) <= np.pi/2+1e-12, 'elevation range %r', e2)
    m = np.array([np.cos(e2)*np.sin(a2), np.cos(e2)*np.cos(a2), np.sin(e2)])
    eq('direction', m, n, 1e-7)
    eq('elevation', e2, el, 1e-7)
    return 'zenith' if abs(c['el']) > 89.99 else 'below' if el < 0 else 'up'


@facet('range', st.fixed_dictionaries(
    {'lat': lat, 'lon': lon, 'az': azs,
     'el': st.integers(0, 900000).map(lambda x: x*1e-4),
     'd': st.integers(19_000_000, 42_000_000)}), 1500, 15000,
    'range incl. Earth rotation during signal travel')
def range_(c):
    p, lm = np.deg2rad(c['lat']), np.deg2rad(c['lon'])
    az, el = np.deg2rad(c['az']), np.deg2rad(c['el'])
    rr = ref_ecef(p, lm, 50.0)
    n = np.array([np.cos(el)*np.sin(az), np.cos(el)*np.cos(az), np.sin(el)])
    rs = rr+c['d']*(frame(p, lm).T@n)
    a, b = rs.copy(), rr.copy()
    r, e = g.geodist(rs, rr)
    check((a == rs).all() and (b == rr).all(), 'arguments modified')
    eq('unit vector', e, (rs-rr)/np.linalg.norm(rs-rr), 1e-12)
    rho = np.linalg.norm(rs-rr)
    for _ in range(8):
        th = OM*rho/CL
        R = np.array([[np.cos(th), np.sin(th), 0],
                      [-np.sin(th), np.cos(th), 0], [0, 0, 1]])
        rho = np.linalg.norm(R@rs-rr)
    eq('range', r, rho, 3e-3)


@facet('dop', st.fixed_dictionaries(
    {'az': st.lists(st.integers(0, 3599), min_size=3, max_size=14),
     'el': st.lists(st.integers(-50, 900), min_size=14, max_size=14),
     'mask': st.sampled_from([0, 5, 10, 15, 30])}), 1500, 10000,
    'DOP against the definition; satellites under the mask excluded')
def dop(c):
    az = np.deg2rad(np.array(c['az'])*0.1)
    el = np.deg2rad(np.array(c['el'][:len(az)])*0.1)
    m = np.deg2rad(c['mask'])
    keep = [i for i in range(len(az)) if not el[i] < m]
    H = np.array([[np.cos(el[i])*np.sin(az[i]), np.cos(el[i])*np.cos(az[i]),
                   np.sin(el[i]), 1.0] for i in keep])
    if len(keep) < 4:
        check(g.dops(az, el, m) is None, 'DOP from %d satellites', len(keep))
        return 'few'
    if np.linalg.cond(H) > 1e4:
        return False
    Q = np.diag(np.linalg.inv(H.T@H))
    exp = [np.sqrt(Q.sum()), np.sqrt(Q[:3].sum()), np.sqrt(Q[0]+Q[1]),
           np.sqrt(Q[2])]
    eq('gdop,pdop,hdop,vdop', g.dops(az, el, m), exp, 1e-9, 1e-7)
    check(abs(exp[0]**2-exp[1]**2-Q[3]) < 1e-6*exp[0]**2, 'oracle')
    return 'masked' if len(keep) < len(az) else 'all'


plat = st.one_of(st.integers(-89*10**7, 89*10**7),
                 st.integers(700*10**6, 899*10**6),
                 st.integers(-899*10**6, -700*10**6)).map(lambda x: x*1e-7)


@facet('pierce', st.fixed_dictionaries(
    {'lat': plat, 'lon': lon, 'az': azs,
     'el': st.integers(50000, 900000).map(lambda x: x*1e-4),
     'hion': st.sampled_from([350e3, 400e3, 450e3])}), 2000, 20000,
    'ionospheric pierce point against spherical vector geometry')
def pierce(c):
    re = 6378136.3
    p, lm = np.deg2rad(c['lat']), np.deg2rad(c['lon'])
    az, el = np.deg2rad(c['az']), np.deg2rad(c['el'])
    sf, pp = g.ionppp(np.array([p, lm, 0.0]), az, el, re, c['hion'])
    r0 = re*normal(p, lm)
    n = np.array([np.cos(el)*np.sin(az), np.cos(el)*np.cos(az), np.sin(el)])
    d = frame(p, lm).T@n
    b = r0@d
    s = -b+np.sqrt(b*b+(re+c['hion'])**2-re**2)
    q = (r0+s*d)/(re+c['hion'])
    eq('pierce point', normal(pp[0], pp[1]), q, 2e-6)
    eq('slant factor', sf, 1/(q@d), 1e-6, 1e-7)
    return 'polar' if abs(c['lat']) > 70 else 'mid'


@facet('dms', st.fixed_dictionaries(
    {'d': st.integers(-180*10**9, 180*10**9)}), 800, 5000,
    'degrees to degree/minute/second and back')
def dms(c):
    x = c['d']*1e-9
    d = g.deg2dms(x)
    sg = np.copysign(1.0, d[0]) if x != 0 else 1.0
    eq('dms', sg*(abs(d[0])+d[1]/60+d[2]/3600), x, 1e-11)
    check(0 <= d[1] < 60 and 0 <= d[2] < 60+1e-9 and d[0] == int(d[0])
          and d[1] == int(d[1]), 'field range %r', d)
