"""independent simulation of GNSS observations (geometry, clocks, atmosphere)"""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, orb, atm
from vlib.orb import C
from cssrlib import gnss as g

OME = 7.2921151467e-5
A_RE, F_RE = 6378137.0, 1/298.257223563
NOM = {'G': 26559.7e3, 'E': 29600.3e3, 'J': 42164e3, 'C': 27906e3,
       'I': 42164e3, 'R': 25508e3}


def llh2ecef(p):
    e2 = F_RE*(2-F_RE)
    n = A_RE/np.sqrt(1-e2*np.sin(p[0])**2)
    return np.array([(n+p[2])*np.cos(p[0])*np.cos(p[1]),
                     (n+p[2])*np.cos(p[0])*np.sin(p[1]),
                     (n*(1-e2)+p[2])*np.sin(p[0])])


def enu(p):
    sp, cp, sl, cl = np.sin(p[0]), np.cos(p[0]), np.sin(p[1]), np.cos(p[1])
    return np.array([[-sl, cl, 0], [-sp*cl, -sp*sl, cp], [cp*cl, cp*sl, sp]])


def ecef2llh(r):
    e2 = F_RE*(2-F_RE)
    p = np.hypot(r[0], r[1])
    lat = np.arctan2(r[2], p*(1-e2))
    for _ in range(20):
        n = A_RE/np.sqrt(1-e2*np.sin(lat)**2)
        lat = np.arctan2(r[2]+e2*n*np.sin(lat), p)
    n = A_RE/np.sqrt(1-e2*np.sin(lat)**2)
    h = p*np.cos(lat)+r[2]*np.sin(lat)-A_RE*A_RE/n
    return np.array([lat, np.arctan2(r[1], r[0]), h])


def place(rr, llh, az, el, A):
    """point at distance A from the geocentre seen from rr at az/el"""
    E = enu(llh)
    u = E.T@np.array([np.cos(el)*np.sin(az), np.cos(el)*np.cos(az),
                      np.sin(el)])
    b = rr@u
    d = -b+np.sqrt(b*b-(rr@rr-A*A))
    return rr+d*u


def azel(rr, llh, rs):
    e = rs-rr
    e = e/np.linalg.norm(e)
    v = enu(llh)@e
    return np.arctan2(v[0], v[1]), np.arcsin(np.clip(v[2], -1, 1)), e


def orbit_through(c, p, head, ecc, omg, k, tk, toes):
    """complete the elements k so that the satellite is at p (ECEF) tk after
    toe, moving in direction head"""
    r = np.linalg.norm(p)
    er = p/r
    z = np.array([0, 0, 1.0])
    ee = np.cross(z, er)
    ee /= np.linalg.norm(ee)
    en = np.cross(er, ee)
    d = np.cos(head)*ee+np.sin(head)*en
    h = np.cross(er, d)
    inc = np.arccos(np.clip(h[2], -1, 1))
    om = np.arctan2(h[0], -h[1])
    n = np.array([np.cos(om), np.sin(om), 0])
    u = np.arctan2(p@np.cross(h, n)/r, p@n/r)
    nu = u-omg
    E = 2*np.arctan2(np.sqrt(1-ecc)*np.sin(nu/2), np.sqrt(1+ecc)*np.cos(nu/2))
    A = r/(1-ecc*np.cos(E))
    n0 = np.sqrt(orb.MU[c]/A**3)
    M = E-ecc*np.sin(E)
    k.update(A=A, e=ecc, i0=inc, omg=omg,
             M0=np.remainder(M-(n0+k['deln'])*tk+np.pi, 2*np.pi)-np.pi,
             OMG0=om-(k['OMGd']-orb.OM[c])*tk+orb.OM[c]*toes)
    return k


CODE = {'G': ['1C', '2W', '5Q'], 'E': ['1C', '5Q', '7Q'], 'J': ['1C', '2L', '5Q'],
        'C': ['2I', '6I', '7I'], 'R': ['1C', '2C'], 'I': ['5A', '1P']}
FRQ = {'1': 1575.42e6, '2': 1227.60e6, '5': 1176.45e6, '7': 1207.14e6,
       '6': 1278.75e6}
FRQC = {'2': 1561.098e6, '6': 1268.52e6, '7': 1207.14e6, '1': 1575.42e6,
        '5': 1176.45e6}


def freq(c, code, ch=0):
    b = code[0]
    if c == 'C':
        return FRQC[b]
    if c == 'R':
        return {'1': 1602e6+ch*562500.0, '2': 1246e6+ch*437500.0}[b]
    return FRQ[b]


@st.composite
def sat_list(draw, systems, nmin, nmax, lo=15, hi=85, low=0):
    """satellites spread over the sky"""
    out, used = [], set()
    n = draw(st.integers(nmin, nmax))
    az0 = draw(st.integers(0, 359))
    for i in range(n+low):
        c = draw(st.sampled_from(systems))
        plo, phi = gen.PRN[c]
        if c == 'C':
            plo, phi = 6, 58
        p = draw(st.integers(plo, phi))
        while (c, p) in used:
            p = p+1 if p < phi else plo
        used.add((c, p))
        if i >= n:
            el = draw(st.integers(-200, 600))*1e-2
        elif i == 0:
            el = draw(st.integers(70, 85))*1.0
        else:
            el = draw(st.integers(lo*10, min(hi, lo+45)*10))*0.1
        az = az0+360.0*i/max(n, 1)+draw(st.integers(-300, 300))*0.1
        out.append(dict(
            c=c, prn=p, az=az % 360, el=el,
            head=draw(st.integers(-80, 80))*1.0,
            ecc=draw(st.integers(0, 15000))*1e-6,
            omg=draw(gen.angle()),
            tk=draw(st.integers(-850, 850)) if c == 'R' else
            draw(st.integers(-3000, 3000)),
            deln=draw(gen.sc(-2000, 2000, np.pi*2**-43)),
            OMGd=draw(gen.sc(-20000, -10000, np.pi*2**-43)),
            idot=draw(gen.sc(-500, 500, np.pi*2**-43)),
            af0=draw(gen.sc(-2**20, 2**20-1, 2**-31)),
            af1=draw(gen.sc(-100, 100, 2**-43)),
            tgd=draw(gen.sc(-120, 120, 2**-31)),
            frq=draw(st.integers(-7, 6))))
    return out


def site(maxlat=75):
    return st.fixed_dictionaries(
        {'lat': st.integers(-maxlat*1000, maxlat*1000),
         'lon': st.integers(-180000, 180000), 'h': st.integers(0, 2500)})


class Sim:
    """scene: site + satellites at epoch t0 (week, tow)"""

    def __init__(self, s, sats, week, tow):
        self.llh = np.array([np.deg2rad(s['lat']*1e-3),
                             np.deg2rad(s['lon']*1e-3), float(s['h'])])
        self.rr = llh2ecef(self.llh)
        self.week, self.tow = week, tow
        self.sats = []
        for a in sats:
            c = a['c']
            p = place(self.rr, self.llh, np.deg2rad(a['az']),
                      np.deg2rad(a['el']), NOM[c])
            tk = a['tk']
            te = g.gpst2time(week, tow-tk)
            wk, toes = g.time2gpst(te)
            if c == 'R':
                er = p/np.linalg.norm(p)
                ee = np.cross([0, 0, 1.0], er)
                ee /= np.linalg.norm(ee)
                en = np.cross(er, ee)
                h = np.deg2rad(a['head'])
                v = np.sqrt(398600.44e9/np.linalg.norm(p))*(
                    np.cos(h)*ee+np.sin(h)*en)
                v = v-np.cross([0, 0, 7.292115e-5], p)
                p0, v0 = orb.glo_state(p, v, [0, 0, 0], -tk)
                k = dict(prn=a['prn'], pos=list(p0), vel=list(v0),
                         acc=[0, 0, 0], taun=-a['af0'], gamn=a['af1'],
                         week=wk, toes=toes, frq=a['frq'], tgd=0.0)
            else:
                k = dict(c=c, prn=a['prn'], deln=a['deln'], OMGd=a['OMGd'],
                         idot=a['idot'], cuc=0.0, cus=0.0, cic=0.0, cis=0.0,
                         crc=0.0, crs=0.0, Adot=0.0, delnd=0.0, af0=a['af0'],
                         af1=a['af1'], af2=0.0, tgd=a['tgd'], week=wk,
                         toes=toes)
                orbit_through(c, p, np.deg2rad(a['head']), a['ecc'],
                              a['omg'], k, tk, toes)
            self.sats.append((c, k, -tk))

    def state(self, i, t):
        """position (ECEF of date t), clock without TGD; t: s after t0 GPST"""
        c, k, off = self.sats[i]
        x = t-off
        if c == 'R':
            p, v = orb.glo_state(k['pos'], k['vel'], k['acc'], x)
            return p, -k['taun']+k['gamn']*x
        return orb.eph_pos(c, k['prn'], k, x, False), \
            k['af0']+k['af1']*x+orb.eph_rel(c, k, x, False)

    def geom(self, i, t, rr):
        """geometric range, az, el, satellite clock for reception at true
        GPST t at rr"""
        tau = 0.075
        for _ in range(8):
            p, dts = self.state(i, t-tau)
            q = orb.rz(OME*tau)@p
            rho = np.linalg.norm(q-rr)
            tau = rho/C
        llh = ecef2llh(rr)
        az, el, e = azel(rr, llh, q)
        return rho, az, el, dts, p

    def satno(self, i):
        c, k, _ = self.sats[i]
        return int(g.prn2sat(gen.SYS[c], k['prn']))

    def load(self, nav, skip=()):
        for i, (c, k, _) in enumerate(self.sats):
            if i in skip:
                continue
            if c == 'R':
                nav.geph.append(gen.mk_geph(k))
                nav.geph[-1].svh = 0
            else:
                e = gen.mk_eph(k)
                e.svh = 0
                nav.eph.append(e)
