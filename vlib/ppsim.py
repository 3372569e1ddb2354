"""carrier phase and code observations of a receiver, all effects modelled
independently of cssrlib"""
import datetime
import numpy as np
from vlib import gen, possim, atm, astro, orb
from vlib.possim import freq, enu, ecef2llh
from cssrlib import gnss as g
from cssrlib.gnss import Obs, rSigRnx, uTYP

C = orb.C
GM = 3.986004415e14


def utc(week, tow):
    d = datetime.datetime(1980, 1, 6)+datetime.timedelta(weeks=week,
                                                         seconds=tow)
    tab = [(datetime.datetime(2017, 1, 1), 18), (datetime.datetime(
        2015, 7, 1), 17), (datetime.datetime(2012, 7, 1), 16),
        (datetime.datetime(2009, 1, 1), 15), (datetime.datetime(
            2006, 1, 1), 14), (datetime.datetime(1999, 1, 1), 13)]
    for t0, n in tab:
        if d-datetime.timedelta(seconds=n) >= t0:
            return d-datetime.timedelta(seconds=n)
    raise ValueError


def shapiro(p, rr):
    a, b, c = np.linalg.norm(p), np.linalg.norm(rr), np.linalg.norm(p-rr)
    return 2*GM/C**2*np.log((a+b+c)/(a+b-c))


def windup(ek, xs, ys, xr, yr):
    d1 = xs-ek*(ek@xs)-np.cross(ek, ys)
    d2 = xr-ek*(ek@xr)+np.cross(ek, yr)
    return np.arctan2(ek@np.cross(d1, d2), d1@d2)/(2*np.pi)


def dipole(p, v, sun, full):
    z = -p/np.linalg.norm(p)
    x = sun-p if full else v+np.cross([0, 0, possim.OME], p)
    y = np.cross(z, x)
    y = y/np.linalg.norm(y)
    return np.cross(y, z), y


class Rx:
    """receiver: call obs(t) at increasing time tags (s after the epoch of
    the scene); per-satellite settings are lists indexed like sim.sats"""

    def __init__(self, sim, codes, systems, rr=None, vel=(0, 0, 0), clk=0.0,
                 drift=0.0, dz=0.0, tide=None, phw=0, shap=False, iono=None,
                 amb=None, cb=None, pb=None, cp_codes=None, trop=None,
                 orbit=None, clock=None):
        n = len(sim.sats)
        self.sim, self.codes, self.systems = sim, codes, systems
        self.nf = len(next(iter(codes.values())))
        self.rr0 = sim.rr if rr is None else np.array(rr)
        self.vel, self.clk, self.drift = np.array(vel), clk, drift
        self.dz, self.tide, self.phw, self.shap = dz, tide, phw, shap
        self.iono = iono if iono is not None else [0.0]*n
        self.amb = np.zeros((n, self.nf)) if amb is None else np.array(
            amb, dtype=float)
        self.cb = np.zeros((n, self.nf)) if cb is None else np.array(cb)
        self.pb = np.zeros((n, self.nf)) if pb is None else np.array(pb)
        self.trop = trop
        self.orbit, self.clock = orbit, clock
        self.wu = [None]*n
        self.cnr = 45.0

    def pos(self, t):
        return self.rr0+self.vel*t

    def fr(self, i, f):
        c, k, _ = self.sim.sats[i]
        return freq(c, self.codes[c][f], k.get('frq', 0))

    def obs(self, t, noise=None):
        sim, nf = self.sim, self.nf
        n = len(sim.sats)
        dtr = self.clk+self.drift*t
        ttrue = t-dtr/C
        rr = self.pos(t)
        llh = ecef2llh(rr)
        week, tow = sim.week, sim.tow+t
        d = utc(week, tow)
        if self.tide is not None:
            rr = rr+self.tide(d, llh)
            llh = ecef2llh(rr)
        E = enu(llh)
        sun = astro.sun(d) if self.phw == 1 or hasattr(self, 'extra') \
            else None
        o = Obs()
        o.t = g.timeadd(g.gpst2time(week, sim.tow), t)
        o.sat = np.array([sim.satno(i) for i in range(n)])
        o.P = np.zeros((n, nf))
        o.L = np.zeros((n, nf))
        o.S = np.full((n, nf), self.cnr)
        o.D = np.zeros((n, nf))
        o.lli = np.zeros((n, nf), dtype=int)
        zh, zw = atm.saast(llh[0], llh[2])
        self.info = []
        for i, (c, k, _) in enumerate(sim.sats):
            rho, az, el, dts, p = self.geom(i, ttrue, rr)
            self.info.append((az, el))
            if el < 0.02:
                T = 0.0
            elif self.trop is not None:
                T = self.trop(llh, el, week, tow)
            else:
                mh, mw = atm.niell(atm.doy(week, tow), llh[0], llh[2], el)
                T = mh*zh+mw*(zw+self.dz)
            if self.shap:
                T += shapiro(p, rr)
            w = 0.0
            if self.phw:
                pa, _ = sim.state(i, ttrue-0.075+0.5)
                pb, _ = sim.state(i, ttrue-0.075-0.5)
                xs, ys = dipole(p, pa-pb, sun, self.phw == 1)
                ek = rr-p
                ek = ek/np.linalg.norm(ek)
                w = windup(ek, xs, ys, E[0], E[1])
                if self.wu[i] is not None:
                    w += np.round(self.wu[i]-w)
                self.wu[i] = w
            I1 = self.iono[i](t) if callable(self.iono[i]) else self.iono[i]
            for f in range(nf):
                ff = self.fr(i, f)
                I = I1*(1575.42e6/ff)**2
                b = rho+dtr-C*dts+T
                if hasattr(self, 'extra'):
                    q = orb.rz(possim.OME*rho/C)@p
                    ek = (q-rr)/np.linalg.norm(q-rr)
                    x = self.extra(i, f, ek, q, sun, llh)
                else:
                    x = 0.0
                o.P[i, f] = b+I+x+self.cb[i, f]
                o.L[i, f] = (b-I+x+self.pb[i, f])*ff/C+w+self.amb[i, f]
                if noise is not None:
                    s = 1/np.sin(max(el, 0.05))
                    o.P[i, f] += noise[0]*s*noise[2].standard_normal()
                    o.L[i, f] += noise[1]*s*noise[2].standard_normal()*ff/C
        o.sig = {}
        for c in self.systems:
            o.sig[gen.SYS[c]] = {
                ty: [rSigRnx(c+a+self.codes[c][f]) for f in range(nf)]
                for ty, a in ((uTYP.C, 'C'), (uTYP.L, 'L'), (uTYP.S, 'S'))}
        return o

    def geom(self, i, t, rr):
        """as Sim.geom with orbit and clock corrections"""
        if self.orbit is None and self.clock is None:
            return self.sim.geom(i, t, rr)
        tau = 0.075
        for _ in range(8):
            p, dts = self.sim.state(i, t-tau)
            if self.orbit is not None:
                p = p+self.orbit(i, t-tau, p)
            if self.clock is not None:
                dts = dts+self.clock(i, t-tau)
            q = orb.rz(possim.OME*tau)@p
            rho = np.linalg.norm(q-rr)
            tau = rho/C
        az, el, _ = possim.azel(rr, ecef2llh(rr), q)
        return rho, az, el, dts, p


def pick(o, keep):
    """restrict observations to the satellites in keep (indices)"""
    for a in ('sat', 'P', 'L', 'S', 'D', 'lli'):
        setattr(o, a, getattr(o, a)[keep])
    return o
