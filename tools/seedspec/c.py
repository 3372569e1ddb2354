SEEDS = [
 dict(id='c01-sat2id-irn', prop='C02', file='gnss.py',
  edits=[("    elif sys == uGNSS.SBS:\n        prn += 100\n    sat = prn2sat(sys, prn)\n    return sat",
          "    elif sys == uGNSS.SBS and prn < 58:\n        prn += 100\n    sat = prn2sat(sys, prn)\n    return sat")],
  needs='an SBAS satellite with PRN 158',
  breaks='its identifier S58 is not converted back',
  demo='''
from cssrlib.gnss import *
ok = all(id2sat(sat2id(prn2sat(uGNSS.SBS, p))) == prn2sat(uGNSS.SBS, p)
         for p in range(120, 159))
sys.exit(0 if ok else 1)
'''),
 dict(id='c02-ecef2pos-iter', prop='C03', file='gnss.py',
  edits=[("    while cnt < 1000:\n        zk = z\n        sp",
          "    while cnt < 3:\n        zk = z\n        sp")],
  needs='a position above the ground: the latitude iteration needs more than three steps at mid latitudes',
  breaks='ecef2pos is not the inverse of pos2ecef (centimetres)',
  demo='''
import numpy as np
from cssrlib.gnss import pos2ecef, ecef2pos
p = np.array([0.75, 1.0, 9000e3])
r = pos2ecef(p)
d = np.linalg.norm(pos2ecef(ecef2pos(r))-r)
d2 = max(np.linalg.norm(pos2ecef(ecef2pos(pos2ecef(np.array([la, 1.0, 100.0]))))-pos2ecef(np.array([la, 1.0, 100.0]))) for la in np.linspace(-1.5, 1.5, 31))
sys.exit(0 if max(d, d2) < 1e-3 else 1)
'''),
 dict(id='c03-atx-bds-l8', prop='C09', file='peph.py',
  edits=[("        if sig.sig == uSIG.L8:  # BDS-3 B2a+b\n            sig = rSigRnx(sig.sys, sig.typ, uSIG.L5)",
          "        if sig.sig == uSIG.L8:  # BDS-3 B2a+b\n            sig = rSigRnx(sig.sys, sig.typ, uSIG.L6)")],
  needs='BeiDou B2a+b signal and an antenna calibrated for B2a',
  breaks='the antenna correction of another frequency is used',
  demo='''
import numpy as np
from cssrlib.gnss import *
from cssrlib.peph import pcv_t, antModelTx, substSigTx
p = pcv_t()
p.sat = prn2sat(uGNSS.BDS, 30)
for f, o in (('CL5', 1.0), ('CL6', 2.0), ('CL7', 3.0)):
    p.off[rSigRnx(f)] = np.array([0, 0, o])
s = substSigTx(p, rSigRnx('CL8X'))
sys.exit(0 if p.off[s][2] == 1.0 else 1)
'''),
 dict(id='c04-quality-low', prop='C10', file='cssrlib.py',
  edits=[("        elif cl == 0 and val == 0:  # undefined/unknown",
          "        elif cl == 0 and val <= 1:  # undefined/unknown")],
  needs='the smallest quality indicator that is defined (class 0, value 1)',
  breaks='it is treated as unknown',
  demo='''
from cssrlib.cssrlib import cssr
d = cssr()
sys.exit(0 if abs(d.quality_idx(0, 1)-0.25e-3) < 1e-9 else 1)
'''),
 dict(id='c05-has-dcm', prop='C11', file='cssrlib.py',
  edits=[("            self.lc[inet].dclk[sat] *= self.dcm[sys]",
          "            self.lc[inet].dclk[sat] *= min(self.dcm[sys], 3.0)")],
  needs='a delta clock multiplier of four',
  breaks='clock corrections are three quarters of those sent',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.cssr_has import cssr_has
from cssrlib.cssrlib import sCSSRTYPE
d = cssr_has()
d.cssrmode = sCSSRTYPE.GAL_HAS_SIS
sat = prn2sat(uGNSS.GPS, 5)
r = []
for m in (1.0, 2.0, 3.0, 4.0):
    d.dcm = {uGNSS.GPS: m}
    d.lc[0].dclk = {}
    d.decode_clk_sat(bs.pack('s13u19', 100, 0), 0, sat)
    r.append(d.lc[0].dclk[sat])
sys.exit(0 if abs(r[3]-4*r[0]) < 1e-9 and abs(r[1]-2*r[0]) < 1e-9 else 1)
'''),
 dict(id='c06-b2b-ura-page', prop='C12', file='cssr_bds.py',
  edits=[("            idx = st2*70+k", "            idx = st2*69+k")],
  needs='a URA message of the second or third subtype',
  breaks='accuracies are assigned to the preceding satellites',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.cssr_bds import cssr_bds
d = cssr_bds()
d.ura = {}
d.iodssr = 1
d.iodp = 2
d.sat_n = [prn2sat(uGNSS.BDS, k+1) for k in range(63)]+[prn2sat(uGNSS.GPS, k+1) for k in range(32)]
d.nsat_n = len(d.sat_n)
m = bs.pack('u17u4u2u4u3', 0, 0, 1, 2, 1)
b = bs.pack('u17u4u2u4u3'+'u3u3'*70, 0, 0, 1, 2, 1, *([1, 0]+[3, 1]*69))
d.decode_cssr_ura(b+bytes(20), 0)
sys.exit(0 if abs(d.ura[d.sat_n[70]]-(3-1)*1e-3) < 1e-9 else 1)
'''),
 dict(id='c07-mdc-areas', prop='C13', file='cssr_mdc.py',
  edits=[("        self.narea_t = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}",
          "        self.narea_t = {1: 8, 2: 16, 3: 4, 4: 1, 5: 8}")],
  needs='areas 5 of region 3 and 1 of region 4 both in use',
  breaks='two areas share their storage: corrections of one replace those of the other',
  demo='''
from cssrlib.cssr_mdc import cssr_mdc
d = cssr_mdc()
n = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
I = [d.get_inet(r, a) for r in n for a in range(1, n[r]+1)]
sys.exit(0 if len(set(I)) == len(I) and max(I) < len(d.lc) else 1)
'''),
 dict(id='c08-pvs-slot', prop='C14', file='cssr_pvs.py',
  edits=[("        elif slot >= 159 and slot <= 195:\n            prn = slot-158",
          "        elif slot >= 159 and slot < 195:\n            prn = slot-158")],
  needs='the last satellite of the mask (slot 195)',
  breaks='it is not recognised',
  demo='''
from cssrlib.gnss import *
from cssrlib.cssr_pvs import cssr_pvs
d = cssr_pvs()
sys.exit(0 if d.slot2sat(195) == prn2sat(uGNSS.BDS, 37) else 1)
'''),
 dict(id='c09-par-corr', prop='C15', file='mlambda.py',
  edits=[("        QP = Qzhat[:k, k:]@inv(Qzhat[k:, k:])",
          "        QP = Qzhat[:k, k:]@np.diag(1/np.diag(Qzhat[k:, k:]))")],
  needs='partial resolution with a correlated fixed subset of two or more ambiguities',
  breaks='the remaining ambiguities are not conditioned on the fixed ones',
  demo='''
import numpy as np
from cssrlib.mlambda import parsearch, ldldecom, sr_boost
Q = np.array([[4.0, 0.02, 0.003], [0.02, 0.01, 0.0049], [0.003, 0.0049, 0.01]])
L, d = ldldecom(Q)
z = np.array([0.3, 0.02, -0.03])
zp, sq, Qp, Zp, Ps, nfix, zf = parsearch(z, Q, np.eye(3), L, d, 0.0, P0=0.95, ncands=2)
k = 3-nfix
ref = z[:k]-Q[:k, k:]@np.linalg.solve(Q[k:, k:], z[k:]-np.round(z[k:]))
sys.exit(0 if nfix == 2 and np.allclose(zf[:k, 0], ref, atol=1e-9) else 1)
'''),
 dict(id='c10-msm-fcn', prop='C16', file='rtcm.py',
  edits=[("                if ex[k] <= 13:\n                    fcn = ex[k]-7",
          "                if ex[k] < 13:\n                    fcn = ex[k]-7")],
  needs='a GLONASS satellite of frequency channel +6 in MSM5 or MSM7',
  breaks='its carrier phases are missing',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.rtcm import rtcm
d = rtcm()
d.time = gpst2time(2200, 345600)
d.week = 2200
d.msgtype = 1087
h = bs.pack('u12u12u3u27u1u3u7u2u2u1u3', 1087, 1, 4, 3600000, 0, 0, 0, 0, 0, 0, 0)
bits = []
def add(n, v):
    bits.append(format(v & ((1 << n)-1), '0%db' % n))
for n, v in ((12, 1087), (12, 1), (3, 4), (27, 3600000), (1, 0), (3, 0), (7, 0), (2, 0), (2, 0), (1, 0), (3, 0)):
    add(n, v)
add(64, 1 << 63); add(32, 1 << 30); add(1, 1)
add(8, 70); add(4, 13); add(10, 0); add(14, 0)
add(20, 1000); add(24, 2000); add(10, 0); add(1, 0); add(10, 640); add(15, 0)
s = ''.join(bits)
s += '0'*(-len(s) % 8+64)
msg = int(s, 2).to_bytes(len(s)//8, 'big')
i, o = d.decode_msm(msg, 12)
sys.exit(0 if o is not None and o.L[0, 0] > 1e6 else 1)
'''),
 dict(id='c11-ssr-iono-grad', prop='C17', file='rtcm.py',
  edits=[("                    c01, c10 = bs.unpack_from('s18s18', msg, i)\n                    i += 36\n                    self.lc[inet].ci[sat_][1] = self.sval(c01, 18, 1e-3)\n                    self.lc[inet].ci[sat_][2] = self.sval(c10, 18, 1e-3)",
          "                    c01, c10 = bs.unpack_from('s18s18', msg, i)\n                    i += 36\n                    self.lc[inet].ci[sat_][1] = self.sval(c01, 17, 1e-3)\n                    self.lc[inet].ci[sat_][2] = self.sval(c10, 18, 1e-3)")],
  needs='a gradient of -65.536 (the missing value of a field of 17 bits)',
  breaks='the first gradient is reported as missing',
  demo='''
import numpy as np
from cssrlib.rtcm import rtcm
d = rtcm()
v = [d.sval(-2**16, 17, 1e-3), d.sval(-2**16, 18, 1e-3)]
import inspect
from cssrlib.gnss import *
from cssrlib.rtcm import sRTCM
# run the iono decoder with a stand-in for the header
class D(rtcm):
    def decode_head(self, msg, i, sys=None, stype=None):
        return 0, {'iodssr': 0, 'mi': 0, 'udi': 0}
    def get_ssr_sys(self, mt):
        return uGNSS.GPS
d = D()
b = format(1, '010b')+'1'+'0'+format(1 << 63, '064b')+'1'
b += format(100, '017b')+format((-65536) & (2**18-1), '018b')+format(7, '018b')
b += '0'*(-len(b) % 8+128)
d.decode_ssr_iono(int(b, 2).to_bytes(len(b)//8, 'big'), 0)
c = list(d.lc[1].ci.values())[0]
sys.exit(0 if abs(c[1]+65.536) < 1e-9 and abs(c[2]-0.007) < 1e-9 else 1)
'''),
 dict(id='c12-qznma-iodc', prop='C19', file='qznma.py',
  edits=[("        if iode1 != iode2 or iode1 != (iodc & 0xff):\n            return None\n\n        tow",
          "        if iode1 != iode2:\n            return None\n\n        tow")],
  needs='subframe 1 of a new issue combined with subframes 2 and 3 of the previous one',
  breaks='mixed navigation data is treated as one message',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.qznma import qznma
q = qznma()
def sf(k, fields):
    b = bytearray(40)
    bs.pack_into('u3', b, 53, k)
    for f, pos, v in fields:
        bs.pack_into(f, b, pos, v)
    return b
def buf(iodc):
    a = sf(1, [('u2', 32*2+24, iodc >> 8), ('u8', 32*7+2, iodc & 255), ('u16', 32*7+10, 450)])
    b = sf(2, [('u8', 32*2+2, 33), ('u16', 32*9+2, 450)])
    c = sf(3, [('u8', 32*9+2, 33)])
    return bytes(a+b+c)
ok = q.chk_gps_lnav(uGNSS.GPS, buf(33)) is not None
bad = q.chk_gps_lnav(uGNSS.GPS, buf(34)) is not None
sys.exit(0 if ok and not bad else 1)
'''),
 dict(id='c13-dfmc-iodg', prop='C20', file='sbas.py',
  edits=[("        if iodg != self.iodg:\n            i += 115+99\n            return i",
          "        if iodg < 0:\n            i += 115+99\n            return i")],
  needs='the second part of an ephemeris arrives with another issue than the first',
  breaks='parts of two ephemerides are mixed',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.sbas import sbasDec
d = sbasDec()
d.time = gpst2time(2200, 345600)
m39 = bs.pack('u6u2u5s19s19s22s34s34s34s25s16', 1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0)+bytes(20)
d.decode_dfmc_eph_mt39(m39, 0)
d.Eph.A = -1.0
m40 = bs.pack('u2u33u30u31u13', 1, 0, 0, 2108200000, 100)+bytes(30)
d.decode_dfmc_eph_mt40(m40, 0)
keep = d.Eph.A == -1.0
m40 = bs.pack('u2u33u30u31u13', 2, 0, 0, 2108200000, 100)+bytes(30)
d.decode_dfmc_eph_mt40(m40, 0)
sys.exit(0 if keep and abs(d.Eph.A-42164000) < 1 else 1)
'''),
 dict(id='c14-hatch-window', prop='C21', file='pntpos.py',
  edits=[("        self.cs_cnt[sat] = min(self.cs_cnt[sat]+1, ns)",
          "        self.cs_cnt[sat] = self.cs_cnt[sat]+1")],
  needs='more epochs of carrier smoothing than the length of the window',
  breaks='the window of the filter grows without bound',
  demo='''
import inspect
from cssrlib.gnss import *
from cssrlib.pntpos import stdpos
import tempfile
nav = Nav()
p = stdpos(nav)
p.monlevel = 0
t0 = gpst2time(2200, 0)
class O:
    pass
name = [n for n in dir(p) if 'hatch' in n.lower() or 'smooth' in n.lower()][0]
f = getattr(p, name)
out = []
prm = list(inspect.signature(f).parameters)
for k in range(40):
    o = O()
    o.t = timeadd(t0, 1.0*k)
    a = {'obs': o, 'sat': 5, 'Pm': 2e7+(k if k < 20 else 20)*0.05, 'Lm': 2e7, 'ns': 4}
    out.append(f(**{n: a[n] for n in prm if n in a}))
# a step of the code is forgotten with the window of four epochs
sys.exit(0 if abs(out[-1]-(2e7+1.0)) < 0.02 else 1)
'''),
 dict(id='c15-niell-height', prop='C22', file='gnss.py',
  edits=[("    dm = (1.0/sE-mapf(sE, aht[0], aht[1], aht[2]))*hgt*1e-3",
          "    dm = (1.0/sE-mapf(sE, aht[0], aht[1], aht[2]))*max(hgt, 0)*1e-3")],
  needs='a site below the ellipsoid',
  breaks='the height correction of the hydrostatic mapping function is missing',
  demo='''
from cssrlib.gnss import *
t = gpst2time(2200, 0)
m = [tropmapf(t, np.array([0.6, 1.0, h]), 0.1, model=uTropoModel.SAAST)[0] if 'model' in tropmapf.__code__.co_varnames
     else tropmapf(t, np.array([0.6, 1.0, h]), 0.1)[0] for h in (-400.0, 0.0, 400.0)]
sys.exit(0 if abs(m[0]+m[2]-2*m[1]) < 1e-9 and abs(m[2]-m[0]) > 1e-6 else 1)
'''),
 dict(id='c16-dgps-iodi', prop='C23', file='dgps.py',
  edits=[("        if iodp != self.iodp or iodi != self.iodi or h == 1:",
          "        if iodp != self.iodp or h == 1:")],
  needs='corrections of another issue of data than the last MT49',
  breaks='corrections are combined with issues of data of other ephemerides',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.dgps import dgpsDec
d = dgpsDec.__new__(dgpsDec)
super(dgpsDec, d).__init__()
from cssrlib.cssrlib import local_corr
for k in range(len(d.lc), 65):
    d.lc.append(local_corr())
    d.lc[k].t0 = {}
d.iodp_c = {}
d.sat_n = []
d.time = gpst2time(2200, 0)
s = prn2sat(uGNSS.GPS, 3)
d.sat = [s]
d.nsat = 1
d.iodp, d.iodi, d.iodn = 1, 2, {s: 44}
def m(iodi, v):
    return bs.pack('u8u6u2u2u6u1u23s12', 0x9a, 50, 1, iodi, 5, 0, 1 << 22, v)+bytes(30)
d.decode_mt50(m(2, 100), 14)
d.decode_mt50(m(3, 900), 14)
sys.exit(0 if abs(d.lc[6].dclk[s]-4.0) < 1e-9 else 1)
'''),
 dict(id='c17-typhoon-equator', prop='C24', file='ewss.py',
  edits=[("        i += 20\n        lat = latd+latm/60.0+lats/3600.0\n        if s == 1:\n            lat = -lat",
          "        i += 20\n        lat = latd+latm/60.0+lats/3600.0\n        if s == 1 and latd > 0:\n            lat = -lat")],
  needs='a typhoon less than one degree south of the equator',
  breaks='its latitude is positive',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.ewss import jmaDec
d = jmaDec.__new__(jmaDec)
d.monlevel = 0
d.time = gpst2time(2300, 0)
d.year = 2024
m = bs.pack('u4u5u5u6u2u10u5u5u6u3u8u7u7u4u4u1u7u6u6u1u8u6u6u11u7u7', 2, 4, 0, 0, 0, 0, 4, 0, 0, 1, 0,
            0, 1, 0, 0, 1, 0, 30, 0, 0, 130, 0, 0, 990, 30, 40)+bytes(20)
d.decode_jma_typhoon(m, 0)
sys.exit(0 if abs(d.pos[0]+0.5) < 1e-9 else 1)
'''),
 dict(id='c18-windup-sign', prop='C25', file='ppp.py',
  edits=[("    if ek@drs < 0.0:\n        ph = -ph", "    if drs[2] < 0.0:\n        ph = -ph")],
  needs='a satellite whose signal direction and rotation axis disagree in z',
  breaks='the phase wind-up has the wrong sign',
  demo='''
import numpy as np
from cssrlib.gnss import *
from cssrlib.ppp import windupcorr
t = gpst2time(2200, 0)
rs = np.array([0, 26.5e6, 0.0]); vs = np.array([-2e3, 0, 3e3])
r = []
for la in (0.5, -0.5):
    rr = pos2ecef(np.array([la, 1.2, 0.0]))
    r.append(windupcorr(t, rs, vs, rr, np.array([1.5e11, 0, 0]), 0.0))
# independent: angle of the effective dipoles about the line of sight
def ref(rr):
    u = lambda v: v/np.linalg.norm(v)
    k = u(rr-rs)
    ez = u(-rs); ex0 = u(vs+np.cross([0, 0, rCST.OMGE], rs)); ey = u(np.cross(ez, ex0)); ex = np.cross(ey, ez)
    E = xyz2enu(ecef2pos(rr))
    ds = ex-k*(k@ex)-np.cross(k, ey)
    dr = E[0]-k*(k@E[0])+np.cross(k, E[1])
    return np.arctan2(k@np.cross(ds, dr), ds@dr)/(2*np.pi)
ok = True
for la in np.linspace(-1.4, 1.4, 15):
    for lo in np.linspace(0, 3.1, 9):
        rr = pos2ecef(np.array([la, lo, 0.0]))
        d = windupcorr(t, rs, vs, rr, np.array([1.5e11, 0, 0]), 0.0)-ref(rr)
        ok &= abs(d-np.round(d)) < 1e-6
sys.exit(0 if ok else 1)
'''),
 dict(id='c19-lnav-iodc', prop='C29', file='rawnav.py',
  edits=[("        if iode != iode2 or iode != (iodc & 0xff):", "        if iode != iode2:")],
  needs='subframe 1 of a new issue with subframes 2 and 3 of the previous one',
  breaks='an ephemeris mixing two issues is returned',
  demo='''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.rawnav import RawNav
def sf(k, fields):
    b = bytearray(40)
    bs.pack_into('u8', b, 2, 0x8b)
    bs.pack_into('u3', b, 53, k)
    bs.pack_into('u17', b, 34, 1000+k)
    for f, pos, v in fields:
        bs.pack_into(f, b, pos, v)
    return bytes(b)
def run(iodc):
    r = RawNav()
    sat = prn2sat(uGNSS.GPS, 7)
    S = [sf(1, [('u10', 66, 152), ('u2', 32*2+24, iodc >> 8), ('u8', 32*7+2, iodc & 255), ('u16', 32*7+10, 450)]),
         sf(2, [('u8', 32*2+2, 33), ('u16', 32*9+2, 450)]),
         sf(3, [('u8', 32*9+2, 33)])]
    e = None
    for b in S:
        e = r.decode_gps_lnav(2200, 6000.0, sat, b)
    return e
sys.exit(0 if run(33) is not None and run(34) is None else 1)
'''),
]
