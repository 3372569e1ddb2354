SEEDS = [
 dict(id='b01-leap2012', prop='C01', file='gnss.py',
  edits=[("    for i in range(len(leaps_)):\n        if timediff(t, epoch2time(leaps_[i])) >= 0.0:",
          "    for i in range(len(leaps_)):\n        if timediff(t, epoch2time(leaps_[i])) > 0.0:")],
  needs='UTC time exactly at the first instant after a leap second',
  breaks='utc2gpst is one second off exactly at a leap second boundary',
  demo='''
from cssrlib.gnss import epoch2time, utc2gpst, timediff
u = epoch2time([2017, 1, 1, 0, 0, 0])
sys.exit(0 if abs(timediff(utc2gpst(u), u)-18) < 1e-6 else 1)
'''),
 dict(id='b02-glo2time-midnight', prop='C01', file='gnss.py',
  edits=[("    if tod < tod_p-43200.0:\n        tod += 86400.0\n    elif",
          "    if tod < tod_p-86400.0:\n        tod += 86400.0\n    elif")],
  needs='GLONASS time-of-day just after Moscow midnight, reference just before',
  breaks='GLONASS times are one day early across the day boundary',
  demo='''
from cssrlib.gnss import *
ref = utc2gpst(epoch2time([2021, 3, 19, 20, 59, 50]))
t = glo2time(ref, 20.0)
sys.exit(0 if abs(timediff(t, ref)-30) < 1e-6 else 1)
'''),
 dict(id='b03-geo-range', prop='C04', file='ephemeris.py',
  edits=[("if sys == uGNSS.BDS and (prn <= 5 or prn >= 59):  # BDS GEO",
          "if sys == uGNSS.BDS and (prn <= 5 or prn > 59):  # BDS GEO")],
  needs='BeiDou C59 (a BDS-3 geostationary satellite)',
  breaks='C59 is treated as a non-GEO satellite',
  demo='''
import numpy as np
from cssrlib.gnss import *
from cssrlib.ephemeris import eph2pos
def mk(prn):
    e = Eph(prn2sat(uGNSS.BDS, prn))
    e.A = 42164e3; e.i0 = 0.08; e.omg = 1.0; e.M0 = 0.4; e.OMG0 = 0.3; e.cuc = 0.0
    e.toe = e.toc = gpst2time(2300, 3600); e.toes = 3600
    return e
t = gpst2time(2300, 5000)
a = eph2pos(t, mk(1))[0]; b = eph2pos(t, mk(59))[0]
sys.exit(0 if np.allclose(a, b) else 1)
'''),
 dict(id='b04-findeph-first', prop='C05', file='ephemeris.py',
  edits=[("        if dt <= tmin:\n            eph = eph_\n            tmin = dt\n\n    return eph",
          "        if dt <= tmin:\n            eph = eph_\n            tmin = max(dt, 600.0)\n\n    return eph")],
  needs='two ephemerides both within ten minutes of the query time',
  breaks='the nearest ephemeris is not the one selected',
  demo='''
from cssrlib.gnss import *
from cssrlib.ephemeris import findeph
t0 = gpst2time(2200, 300000)
L = []
for d in (60, 500):
    e = Eph(3); e.toe = timeadd(t0, d); L.append(e)
sys.exit(0 if findeph(L, t0, 3) is L[0] else 1)
'''),
 dict(id='b05-satposs-hclk', prop='C05', file='ephemeris.py',
  edits=[("                            not np.isnan(cs.lc[0].hclk[sat]):\n                        dclk += cs.lc[0].hclk[sat]\n\n                    if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):\n                        dclk",
          "                            not np.isnan(cs.lc[0].hclk[sat]):\n                        dclk += cs.lc[0].hclk[sat]\n                        cs.lc[0].dclk[sat] = dclk\n\n                    if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):\n                        dclk")],
  needs='high-rate clock correction present and the same epoch evaluated twice',
  breaks='high-rate clock corrections accumulate in the stored clock correction',
  demo='''
import numpy as np
from cssrlib.gnss import *
from cssrlib.cssrlib import cssr, sCType
from cssrlib.ephemeris import satposs
nav = Nav(); nav.x = np.array([6378e3, 0, 0]); nav.time_p = gpst2time(2000, 0)
e = Eph(3); e.A = 26560e3; e.e = 0.01; e.i0 = 0.9; e.cuc = 0.0
e.toe = e.toc = gpst2time(2300, 3600); e.toes = 3600
nav.eph = [e]
o = Obs(); o.t = gpst2time(2300, 3700); o.sat = np.array([3]); o.P = np.array([[2.2e7]])
o.sig = {uGNSS.GPS: {}}
cs = cssr(); cs.iodssr = 1; cs.iodssr_c[:] = 1; cs.sat_n = [3]
lc = cs.lc[0]; lc.iode = {3: 0}; lc.dorb = {3: np.zeros(3)}; lc.dclk = {3: 1.0}; lc.hclk = {3: 0.5}
lc.cstat = 1 << sCType.HCLOCK; lc.t0 = {3: {sCType.ORBIT: o.t, sCType.CLOCK: o.t}}
a = satposs(o, nav, cs)[2][0]; b = satposs(o, nav, cs)[2][0]
sys.exit(0 if a == b else 1)
'''),
]
