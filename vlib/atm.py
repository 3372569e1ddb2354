"""reference atmosphere models written from their definitions"""
import numpy as np
from datetime import datetime, timedelta

C = 299792458.0


def klobuchar(tow, lat, lon, az, el, a, b):
    """IS-GPS-200 20.3.3.5.2.5, L1 delay [m]; angles in rad"""
    E = el/np.pi
    psi = 0.0137/(E+0.11)-0.022
    phi_i = lat/np.pi+psi*np.cos(az)
    phi_i = min(max(phi_i, -0.416), 0.416)
    lam_i = lon/np.pi+psi*np.sin(az)/np.cos(phi_i*np.pi)
    phi_m = phi_i+0.064*np.cos((lam_i-1.617)*np.pi)
    t = (43200*lam_i+tow) % 86400
    F = 1+16*(0.53-E)**3
    per = max(sum(b[n]*phi_m**n for n in range(4)), 72000.0)
    amp = max(sum(a[n]*phi_m**n for n in range(4)), 0.0)
    x = 2*np.pi*(t-50400)/per
    if abs(x) < 1.57:
        return F*(5e-9+amp*(1-x**2/2+x**4/24))*C
    return F*5e-9*C


def doy(week, tow):
    """day of year with fraction, 1.0 = 0 h on January 1st"""
    d = datetime(1980, 1, 6)+timedelta(weeks=week)
    d = d+timedelta(seconds=float(tow))
    return (d-datetime(d.year, 1, 1)).total_seconds()/86400+1


# RTCA DO-229 appendix A tables: latitude, P0 T0 e0 beta0 lambda0
AVG = {15: (1013.25, 299.65, 26.31, 6.30e-3, 2.77),
       30: (1017.25, 294.15, 21.79, 6.05e-3, 3.15),
       45: (1015.75, 283.15, 11.66, 5.58e-3, 2.57),
       60: (1011.75, 272.15, 6.78, 5.39e-3, 1.81),
       75: (1013.00, 263.65, 4.11, 4.53e-3, 1.55)}
AMP = {15: (0, 0, 0, 0, 0), 30: (-3.75, 7, 8.85, 0.25e-3, 0.33),
       45: (-2.25, 11, 7.24, 0.32e-3, 0.46),
       60: (-1.75, 15, 5.36, 0.81e-3, 0.74),
       75: (-0.5, 14.5, 3.39, 0.62e-3, 0.30)}


def _interp(tab, lat):
    lat = min(max(abs(lat), 15.0), 75.0)
    lo = min(int(lat//15)*15, 60)
    w = (lat-lo)/15.0
    return np.array(tab[lo])*(1-w)+np.array(tab[lo+15])*w


def mops_zenith(d, lat, h):
    """zenith hydrostatic and wet delay [m]; d day of year, lat rad"""
    ld = np.rad2deg(lat)
    dmin = 28 if ld >= 0 else 211
    P, T, e, be, la = _interp(AVG, ld)-_interp(AMP, ld)*np.cos(
        2*np.pi*(d-dmin)/365.25)
    k1, k2, Rd, gm, gr = 77.604, 382000.0, 287.054, 9.784, 9.80665
    zh = 1e-6*k1*Rd*P/gm
    zw = 1e-6*k2*Rd/(gm*(la+1)-be*Rd)*e/T
    return (1-be*h/T)**(gr/(Rd*be))*zh, \
        (1-be*h/T)**((la+1)*gr/(Rd*be)-1)*zw


def mops_map(el):
    return 1.001/np.sqrt(0.002001+np.sin(el)**2)


NMF_H = {15: (1.2769934e-3, 2.9153695e-3, 62.610505e-3),
         30: (1.2683230e-3, 2.9152299e-3, 62.837393e-3),
         45: (1.2465397e-3, 2.9288445e-3, 63.721774e-3),
         60: (1.2196049e-3, 2.9022565e-3, 63.824265e-3),
         75: (1.2045996e-3, 2.9024912e-3, 64.258455e-3)}
NMF_A = {15: (0, 0, 0), 30: (1.2709626e-5, 2.1414979e-5, 9.0128400e-5),
         45: (2.6523662e-5, 3.0160779e-5, 4.3497037e-5),
         60: (3.4000452e-5, 7.2562722e-5, 84.795348e-5),
         75: (4.1202191e-5, 11.723375e-5, 170.37206e-5)}
NMF_W = {15: (5.8021897e-4, 1.4275268e-3, 4.3472961e-2),
         30: (5.6794847e-4, 1.5138625e-3, 4.6729510e-2),
         45: (5.8118019e-4, 1.4572752e-3, 4.3908931e-2),
         60: (5.9727542e-4, 1.5007428e-3, 4.4626982e-2),
         75: (6.1641693e-4, 1.7599082e-3, 5.4736038e-2)}


def _cf(s, a, b, c):
    return (1+a/(1+b/(1+c)))/(s+a/(s+b/(s+c)))


def niell(d, lat, h, el):
    ld = np.rad2deg(lat)
    ph = (d-28)/365.25+(0.5 if ld < 0 else 0)
    H = _interp(NMF_H, ld)-_interp(NMF_A, ld)*np.cos(2*np.pi*ph)
    W = _interp(NMF_W, ld)
    s = np.sin(el)
    dm = (1/s-_cf(s, 2.53e-5, 5.49e-3, 1.14e-3))*h*1e-3
    return _cf(s, *H)+dm, _cf(s, *W)


def saast(lat, h, humi=0.7):
    p = 1013.25*(1-2.2557e-5*h)**5.2568
    T = 15-6.5e-3*h+273.16
    e = 6.108*humi*np.exp((17.15*T-4684)/(T-38.45))
    return 0.0022768*p/(1-0.00266*np.cos(2*lat)-0.00028*h*1e-3), \
        0.002277*(1255/T+0.05)*e
