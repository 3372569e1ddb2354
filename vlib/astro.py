"""low precision sun and moon from PyEphem (independent of cssrlib)"""
import datetime
import numpy as np
import ephem

AU = 149597870700.0
RE = 6378137.0


def gmst(d):
    """d: UTC datetime (UT1 = UTC), IAU 1982 in radians"""
    jd = (d-datetime.datetime(2000, 1, 1, 12)).total_seconds()/86400
    # angle from the rotation rate formulation (Explanatory Supplement)
    h = 280.46061837+360.98564736629*jd+0.000387933*(jd/36525)**2
    return np.deg2rad(h % 360.0)


def body(d, b, r):
    b.compute(ephem.Date(d), epoch=ephem.Date(d))
    ra, dec = float(b.g_ra), float(b.g_dec)
    th = ra-gmst(d)
    return r(b)*np.array([np.cos(dec)*np.cos(th), np.cos(dec)*np.sin(th),
                          np.sin(dec)])


def sun(d):
    return body(d, ephem.Sun(), lambda b: b.earth_distance*AU)


def moon(d):
    return body(d, ephem.Moon(), lambda b: b.earth_distance*AU)
