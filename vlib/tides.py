"""solid Earth tide (IERS conventions, closed form) and PySolid"""
import numpy as np
from vlib import astro
from vlib.possim import enu

GMS, GMM, GM, RE = 1.327124e20, 4.902801e12, 3.986004415e14, 6378136.6


def tide1(R, gm, llh):
    """degree 2 and 3 displacement"""
    lat, lon = llh[0], llh[1]
    u = enu(llh)[2]
    D = np.linalg.norm(R)
    e = R/D
    c = e@u
    p2 = (3*np.sin(lat)**2-1)/2
    h2, l2 = 0.6078-0.0006*p2, 0.0847+0.0002*p2
    h3, l3 = 0.292, 0.015
    q = gm/GM*RE*(RE/D)**3
    r = q*(h2*u*(1.5*c*c-0.5)+3*l2*c*(e-c*u))
    q3 = q*RE/D
    r = r+q3*(h3*u*(2.5*c**3-1.5*c)+l3*(7.5*c*c-1.5)*(e-c*u))
    dl, L = np.arcsin(e[2]), np.arctan2(e[1], e[0])
    r = r+0.75*0.0025*q*np.sin(2*dl)*np.sin(2*lat)*np.sin(lon-L)*u
    r = r+0.75*0.0022*q*(np.cos(dl)*np.cos(lat))**2*np.sin(2*(lon-L))*u
    return r


def closed(d, llh, sun=None, moon=None):
    """tide at UTC d without the permanent part (added by perm())"""
    sun = astro.sun(d) if sun is None else sun
    moon = astro.moon(d) if moon is None else moon
    return tide1(sun, GMS, llh)+tide1(moon, GMM, llh) - \
        0.012*np.sin(2*llh[0])*np.sin(astro.gmst(d)+llh[1])*enu(llh)[2]


def perm(llh):
    E = enu(llh)
    return 0.1196*(1.5*np.sin(llh[0])**2-0.5)*E[2] + \
        0.0247*np.sin(2*llh[0])*E[1]


def simple(d, llh):
    return closed(d, llh)+perm(llh)


def iers(d, llh):
    try:
        from pysolid.solid import solid_grid
    except ImportError:
        return simple(d, llh)
    e, n, u = solid_grid(d.year, d.month, d.day, d.hour, d.minute,
                         d.second, np.rad2deg(llh[0]), 0, 1,
                         np.rad2deg(llh[1]), 0, 1)
    return enu(llh).T@np.array([e[0, 0], n[0, 0], u[0, 0]])
