"""independent reference orbit models (interface specifications)"""
import numpy as np

C = 299792458.0
MU = {'G': 3.986005e14, 'J': 3.986005e14, 'I': 3.986005e14,
      'E': 3.986004418e14, 'C': 3.986004418e14}
OM = {'G': 7.2921151467e-5, 'J': 7.2921151467e-5, 'I': 7.2921151467e-5,
      'E': 7.2921151467e-5, 'C': 7.2921150e-5}


def kepler(M, e):
    """eccentric anomaly by bisection + Newton to machine precision"""
    M = np.remainder(M+np.pi, 2*np.pi)-np.pi
    E = M+e*np.sin(M)
    for _ in range(60):
        d = (E-e*np.sin(E)-M)/(1-e*np.cos(E))
        E -= d
        if abs(d) < 1e-15:
            break
    return E


def rx(a):
    return np.array([[1, 0, 0], [0, np.cos(a), np.sin(a)],
                     [0, -np.sin(a), np.cos(a)]])


def rz(a):
    return np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0],
                     [0, 0, 1]])


def is_geo(c, prn):
    return c == 'C' and (prn <= 5 or prn >= 59)


def eph_pos(c, prn, k, dt, cnav):
    """position from the elements k (dict, angles in rad) dt s after toe"""
    mu, om = MU[c], OM[c]
    n0 = np.sqrt(mu/k['A']**3)
    A = k['A']
    dn = k['deln']
    if cnav:
        A = A+k['Adot']*dt
        dn = dn+0.5*k['delnd']*dt
    M = k['M0']+(n0+dn)*dt
    e = k['e']
    E = kepler(M, e)
    nu = 2*np.arctan2(np.sqrt(1+e)*np.sin(E/2), np.sqrt(1-e)*np.cos(E/2))
    ph = nu+k['omg']
    s2, c2 = np.sin(2*ph), np.cos(2*ph)
    u = ph+k['cus']*s2+k['cuc']*c2
    r = A*(1-e*np.cos(E))+k['crs']*s2+k['crc']*c2
    i = k['i0']+k['idot']*dt+k['cis']*s2+k['cic']*c2
    x = np.array([r*np.cos(u), r*np.sin(u), 0.0])
    if is_geo(c, prn):
        O = k['OMG0']+k['OMGd']*dt-om*k['toes']
        y = rz(-O)@rx(-i)@x
        return rz(om*dt)@rx(np.deg2rad(-5.0))@y
    O = k['OMG0']+(k['OMGd']-om)*dt-om*k['toes']
    return rz(-O)@rx(-i)@x


def eph_vel(c, prn, k, dt, cnav, h=0.5):
    """central difference, 5 points"""
    f = [eph_pos(c, prn, k, dt+j*h, cnav) for j in (-2, -1, 1, 2)]
    return (f[0]-8*f[1]+8*f[2]-f[3])/(12*h)


def eph_rel(c, k, dt, cnav):
    mu = MU[c]
    dn = k['deln']+(0.5*k['delnd']*dt if cnav else 0)
    E = kepler(k['M0']+(np.sqrt(mu/k['A']**3)+dn)*dt, k['e'])
    return -2*np.sqrt(mu*k['A'])*k['e']*np.sin(E)/C**2


def glo_state(pos, vel, acc, dt):
    """PZ-90 motion with J2, luni-solar acceleration constant"""
    from scipy.integrate import solve_ivp
    mu, ae, j2, om = 398600.44e9, 6378136.0, 1082625.7e-9, 7.292115e-5

    def f(_, s):
        x, y, z = s[:3]
        r = np.sqrt(x*x+y*y+z*z)
        m = -mu/r**3
        q = 1.5*j2*mu*ae**2/r**5
        w = 5*z*z/r**2
        return [s[3], s[4], s[5],
                m*x-q*x*(1-w)+om**2*x+2*om*s[4]+acc[0],
                m*y-q*y*(1-w)+om**2*y-2*om*s[3]+acc[1],
                m*z-q*z*(3-w)+acc[2]]
    if dt == 0:
        return np.array(pos), np.array(vel)
    s = solve_ivp(f, (0, dt), list(pos)+list(vel), method='DOP853',
                  rtol=1e-12, atol=1e-6)
    return s.y[:3, -1], s.y[3:, -1]
