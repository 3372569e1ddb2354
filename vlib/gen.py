"""shared Hypothesis strategies"""
import numpy as np
from hypothesis import strategies as st
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, Eph, Geph, gtime_t

SYS = {'G': uGNSS.GPS, 'E': uGNSS.GAL, 'J': uGNSS.QZS, 'C': uGNSS.BDS,
       'R': uGNSS.GLO, 'S': uGNSS.SBS, 'I': uGNSS.IRN}
PRN = {'G': (1, 32), 'E': (1, 36), 'J': (193, 209), 'C': (1, 63),
       'R': (1, 32), 'S': (120, 158), 'I': (1, 14)}


def sc(lo, hi, scale):
    """integer in lo..hi times scale"""
    return st.integers(lo, hi).map(lambda x: x*scale)


def angle():
    return st.integers(-2**31, 2**31-1).map(lambda x: x*np.pi/2**31)


@st.composite
def satellite(draw, systems='GEJCI'):
    c = draw(st.sampled_from(systems))
    lo, hi = PRN[c]
    edge = [lo, hi]+([1, 5, 6, 58, 59, 60, 62, 63] if c == 'C' else [])
    return c, draw(st.one_of(st.integers(lo, hi), st.sampled_from(edge)))


@st.composite
def kep(draw, systems='GEJCI', maxe=None):
    """broadcast elements within the interface ranges, plain dict"""
    c, prn = draw(satellite(systems))
    geo = c == 'C' and (prn <= 5 or prn >= 59)
    sma = {'G': [26559.7e3], 'E': [29600.3e3, 27978e3], 'J': [42164e3],
           'C': [27906e3, 42164e3], 'I': [42164e3]}[c]
    A = 42164.2e3 if geo else draw(st.sampled_from(sma))
    A += draw(st.integers(-40000, 40000))
    if maxe is None:
        me = {'G': 0.03, 'E': 0.18, 'J': 0.12, 'C': 0.02, 'I': 0.02}[c]
    else:
        me = maxe
    inc = {'G': 55, 'E': 56, 'J': 40, 'C': 55, 'I': 28}[c]
    i0 = draw(st.integers(0, 60000))*1e-6 if geo or c in 'JI' and \
        draw(st.booleans()) else np.deg2rad(inc)+draw(
            st.integers(-80000, 80000))*1e-6
    h = sc(-32768, 32767, 2**-29)
    k = dict(
        c=c, prn=prn, A=A, e=draw(st.integers(0, 10**6))*me*1e-6, i0=i0,
        M0=draw(angle()), OMG0=draw(angle()), omg=draw(angle()),
        deln=draw(sc(-32768, 32767, np.pi*2**-43)),
        idot=draw(sc(-8192, 8191, np.pi*2**-43)),
        OMGd=draw(sc(-20000, 20000, np.pi*2**-43)),
        cuc=draw(h), cus=draw(h), cic=draw(h), cis=draw(h),
        crc=draw(sc(-32768, 32767, 2**-5)),
        crs=draw(sc(-32768, 32767, 2**-5)),
        Adot=draw(sc(-2000, 2000, 2**-21)),
        delnd=draw(sc(-5000, 5000, np.pi*2**-57)),
        af0=draw(sc(-2**21, 2**21-1, 2**-31)),
        af1=draw(sc(-32768, 32767, 2**-43)),
        af2=draw(st.sampled_from([0, 0, 1, -1, 127, -128]))*2**-55,
        tgd=draw(sc(-128, 127, 2**-31)),
        week=draw(st.integers(1500, 2900)),
        toes=draw(st.integers(0, 604800//16-1))*16,
    )
    return k


NUM = ('A', 'e', 'i0', 'M0', 'OMG0', 'omg', 'deln', 'idot', 'OMGd', 'cuc',
       'cus', 'cic', 'cis', 'crc', 'crs', 'Adot', 'delnd', 'af0', 'af1',
       'af2', 'tgd')


def mk_eph(k, mode=0, toc_off=0, iode=0):
    e = Eph(int(g.prn2sat(SYS[k['c']], k['prn'])))
    for n in NUM:
        setattr(e, n, k[n])
    e.week = k['week']
    e.toes = k['toes']
    e.toe = g.gpst2time(k['week'], k['toes'])
    e.toc = g.gpst2time(k['week'], k['toes']+toc_off)
    e.mode = mode
    e.iode = iode
    e.iodc = iode
    return e


@st.composite
def glo(draw):
    """a GLONASS state vector on a realistic orbit"""
    from vlib import orb
    r = 25508e3+draw(st.integers(-20000, 20000))
    i = np.deg2rad(64.8)+draw(st.integers(-20000, 20000))*1e-6
    u, O = draw(angle()), draw(angle())
    v = np.sqrt(398600.44e9/r)
    R = orb.rz(-O)@orb.rx(-i)
    p = R@np.array([r*np.cos(u), r*np.sin(u), 0])
    w = R@np.array([-v*np.sin(u), v*np.cos(u), 0])
    w = w-np.cross([0, 0, 7.292115e-5], p)
    acc = [draw(st.integers(-6, 6))*2**-30*1e3 for _ in range(3)]
    return dict(prn=draw(st.integers(1, 27)),
                pos=[round(x/1e3/2**-11)*2**-11*1e3 for x in p],
                vel=[round(x/1e3/2**-20)*2**-20*1e3 for x in w],
                acc=acc, taun=draw(sc(-2**21+1, 2**21-1, 2**-30)),
                gamn=draw(sc(-1023, 1023, 2**-40)),
                week=draw(st.integers(1500, 2900)),
                toes=draw(st.integers(0, 604800//900-1))*900,
                frq=draw(st.integers(-7, 6)))


def mk_geph(k, iode=0):
    e = Geph(int(g.prn2sat(uGNSS.GLO, k['prn'])))
    e.pos = np.array(k['pos'])
    e.vel = np.array(k['vel'])
    e.acc = np.array(k['acc'])
    e.taun, e.gamn = k['taun'], k['gamn']
    e.toe = g.gpst2time(k['week'], k['toes'])
    e.tof = e.toe
    e.frq = k['frq']
    e.iode = iode
    e.mode = 0
    return e


def norm(t):
    """gtime with 0 <= sec < 1"""
    return g.timeadd(t, 0.0)
