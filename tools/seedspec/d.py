SEEDS = [
 dict(id='d01-sp3-predclk', prop='C08', file='peph.py',
  edits=[("                                if j == 3 and (opt & 1) and pred_c:",
          "                                if j == 3 and (opt & 1) and pred_o:")],
  needs='reading observed values only (opt=1) from an SP3 file in which clock and orbit are not both predicted',
  breaks='predicted clocks are taken as observed, observed clocks dropped',
  demo='''
import tempfile
from cssrlib.gnss import Nav, uGNSS, prn2sat
from cssrlib.peph import peph
txt = """#dP2021  3 19  0  0  0.00000000       1 ORBIT IGS14 HLM  IGS
## 2149 432000.00000000   900.00000000 59292 0.0000000000000
+    2   G01G02  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
++         0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc
%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc
%f  1.2500000  1.025000000  0.00000000000  0.000000000000000
%f  0.0000000  0.000000000  0.00000000000  0.000000000000000
%i    0    0    0    0      0      0      0      0         0
%i    0    0    0    0      0      0      0      0         0
/* C
*  2021  3 19  0  0  0.00000000
"""
def rec(s, pc, po):
    l = 'P%s' % s + '%14.6f' % 12345.678901 * 3 + '%14.6f' % 123.456789
    l = l + '  1  1  1   1'
    l = l.ljust(75) + ('P' if pc else ' ')
    return l.ljust(79) + ('P' if po else ' ') + chr(10)
txt += rec('G01', True, False) + rec('G02', False, True) + 'EOF' + chr(10)
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.sp3')
open(p, 'w').write(txt)
nav = Nav()
nav.ne = 0
peph().parse_sp3(p, nav, 1)
os.unlink(p)
os.rmdir(d)
x = nav.peph[0].pos
ok = x[0, 3] != x[0, 3] and abs(x[1, 3]-123.456789e-6) < 1e-12 \\
    and x[0, 0] == x[0, 0] and x[1, 0] != x[1, 0]
sys.exit(0 if ok else 1)
'''),
 dict(id='d02-macseq-flex', prop='C18', file='osnma.py',
  edits=[("            if mode_t[k+ofst] != 2:", "            if mode_t[k] != 2:")],
  needs='a MAC look-up table with FLEX slots that differ between the two sub-frames of the sequence, in the second of them',
  breaks='a genuine MACSEQ is rejected and one over other fields accepted',
  demo='''
import hmac
import hashlib
import os as _os
import tempfile
_os.chdir(tempfile.gettempdir())
from cssrlib.osnma import osnma, uOSNMA
import tempfile
res = []
for tow in (0, 30):
    o = osnma(logfile=os.devnull)
    o.status = uOSNMA.ROOTKEY_LOADED
    o.mf, o.ts, o.nt, o.maclt, o.prn_a = 0, 9, 6, 34, 7
    o.key = bytearray(range(16))
    w = (1200 << 20) | tow
    o.gst_sf_p = bytearray(w.to_bytes(4, 'big'))
    lt = 7
    tag = bytearray((i*37+11) % 256 for i in range(lt*6))
    flex = {0: [1, 3], 30: [1]}[tow]
    m = bytes([7])+bytes(o.gst_sf_p)
    for k in flex:
        m += bytes(tag[k*lt+5:k*lt+7])
    h = hmac.new(bytes(o.key), m, hashlib.sha256).digest()
    tag[5] = h[0]
    tag[6] = h[1] & 0xf0
    o.tag = bytearray(tag)
    res.append(bool(o.verify_macseq()))
sys.exit(0 if all(res) else 1)
'''),
 dict(id='d03-gf-sign', prop='C26', file='pppssr.py',
  edits=[("abs(gf1-gf0) > self.nav.thresslip", "gf1-gf0 > self.nav.thresslip")],
  needs='a cycle slip without loss-of-lock indicator that lowers the geometry-free combination',
  breaks='the slip is not detected and the ambiguity is continued',
  demo='''
import numpy as np
from cssrlib.gnss import *
from cssrlib.rtk import rtkpos
bad = 0
for d in (7, -7):
    nav = Nav(nf=2)
    r0 = pos2ecef(np.array([0.6, 2.4, 50.0]))
    rtk = rtkpos(nav, pos0=r0)
    nav.t = gpst2time(2200, 0)
    sat = prn2sat(uGNSS.GPS, 5)
    rs = (r0*26560e3/np.linalg.norm(r0)).reshape(1, 3)
    o = Obs()
    o.sat = np.array([sat])
    o.sig = {uGNSS.GPS: {uTYP.C: [rSigRnx('GC1C'), rSigRnx('GC2W')],
                         uTYP.L: [rSigRnx('GL1C'), rSigRnx('GL2W')],
                         uTYP.S: [rSigRnx('GS1C'), rSigRnx('GS2W')]}}
    n = []
    for k in range(3):
        o.t = gpst2time(2200, k)
        o.P = np.array([[2.02e7, 2.02e7]])
        o.L = np.array([[1.06e8+(d if k == 2 else 0), 8.3e7]])
        o.S = np.array([[45.0, 45.0]])
        o.lli = np.zeros((1, 2), dtype=int)
        n.append(len(rtk.qcedit(o, rs, np.zeros(1), np.zeros(1, dtype=int))))
    bad += n != [1, 1, 0]
sys.exit(1 if bad else 0)
'''),
 dict(id='d04-bias-generic', prop='C27', file='pppssr.py',
  edits=[("            elif sig.toAtt('X') in sigc.keys():\n                v[k] = sigc[sig.toAtt('X')]",
          "            elif k == 0 and sig.toAtt('X') in sigc.keys():\n                v[k] = sigc[sig.toAtt('X')]")],
  needs='a service whose bias of the second signal is given for the combined tracking attribute X',
  breaks='the bias of the second signal is not applied',
  demo='''
import numpy as np
from cssrlib.gnss import *
from cssrlib.pppssr import pppos
from cssrlib.cssrlib import cssr, sCSSRTYPE
nav = Nav(nf=2)
p = pppos(nav, pos0=np.array([-3957e3, 3310e3, 3737e3]))
cs = cssr()
cs.cssrmode = sCSSRTYPE.IGS_SSR
cs.lc[0].cbias = {5: {rSigRnx('GC1C'): 1.5, rSigRnx('GC2X'): -2.5}}
v = p.find_bias(cs, [rSigRnx('GC1C'), rSigRnx('GC2L')], 5)
sys.exit(0 if np.allclose(v, [1.5, -2.5]) else 1)
'''),
 dict(id='d05-wet-height', prop='C28', file='pppssr.py',
  edits=[("            r_wet = trop_wet/trop_wet0", "            r_wet = trop_hs/trop_hs0")],
  needs='a receiver well above sea level and a network troposphere with a wet part',
  breaks='the wet delay of the network is scaled with the height like the dry one (centimetres)',
  demo='''
import numpy as np
from cssrlib.gnss import *
from cssrlib.pppssr import pppos
from cssrlib.cssrlib import sCSSRTYPE
class LC:
    pass
class CS:
    cssrmode = sCSSRTYPE.QZS_CLAS
    inet = 1
    def __init__(self, w):
        self.w = w
        self.lc = [LC(), LC()]
        for x in self.lc:
            x.cstat, x.sat_n, x.cbias, x.pbias = 0, [5], None, None
    def find_grid_index(self, pos):
        return 1
    def get_dpos(self, pos):
        return 0.0, 0.0
    def get_trop(self, a, b):
        return 2.3, self.w
    def get_stec(self, a, b):
        return np.zeros(1)
r = pos2ecef(np.array([0.6, 2.4, 3000.0]))
up = r/np.linalg.norm(r)
y = []
for w in (0.0, 0.2):
    nav = Nav(nf=2)
    nav.ephopt = 2
    p = pppos(nav, pos0=r)
    nav.trop_opt = nav.iono_opt = 2
    nav.tidecorr = 0
    nav.edt = np.zeros((uGNSS.MAXSAT, 2), dtype=int)
    nav.rsun = np.array([1.5e11, 0, 0])
    o = Obs()
    o.t = gpst2time(2200, 0)
    o.sat = np.array([5])
    o.sig = {uGNSS.GPS: {uTYP.C: [rSigRnx('GC1C'), rSigRnx('GC2W')],
                         uTYP.L: [rSigRnx('GL1C'), rSigRnx('GL2W')],
                         uTYP.S: [rSigRnx('GS1C'), rSigRnx('GS2W')]}}
    o.P = np.full((1, 2), 2.02e7)
    o.L = np.full((1, 2), 1e8)
    a = p.zdres(o, CS(w), None, (r+2.02e7*up).reshape(1, 3),
                np.array([[3000.0, 100, 200]]), np.zeros(1), r)
    y.append(a[0][0])
t = o.t
pos = ecef2pos(r)
_, w1, _ = tropmodel(t, pos, model=nav.trpModel)
_, w0, _ = tropmodel(t, [pos[0], pos[1], 0], model=nav.trpModel)
d = y[0]-y[1]
sys.exit(0 if np.allclose(d, 0.2*w1/w0, atol=5e-3) else 1)
'''),
 dict(id='d06-vmap-azimuth', prop='C30', file='rtcm.py',
  edits=[("        for k in range(narea):\n            # Area Point - Lat DFi202\n            # Area Point - Lon DFi203\n            # Area Point - Height DFi204\n            # Number of Azimuth Slices DFi205",
          "        az = 0\n        for k in range(narea):\n            # Area Point - Lat DFi202\n            # Area Point - Lon DFi203\n            # Area Point - Height DFi204\n            # Number of Azimuth Slices DFi205"),
         ("            # Azimuth DFi206\n            # Elevation Mask DFi208\n            az = 0\n            for j in range(naz):\n                daz, mask_el",
          "            # Azimuth DFi206\n            # Elevation Mask DFi208\n            for j in range(naz):\n                daz, mask_el")],
  needs='a satellite visibility map with two or more area points',
  breaks='the azimuths of the second area point continue those of the first',
  demo='''
from cssrlib.gnss import *
from cssrlib.rtcm import rtcm
bits = ''
def u(v, n):
    global bits
    bits += format(v & ((1 << n)-1), '0%db' % n)
u(1000, 30); u(7, 12); u(3, 4); u(10, 16); u(5, 10)
u(2, 8); u(0, 1); u(0, 5)
for n in (3, 2):
    u(100, 34); u(-100, 35); u(20, 14); u(n, 6)
    for j in range(n):
        u(30+j, 9); u(10+j, 7)
bits += '0'*(-len(bits) % 8)
msg = bytes(int(bits[i:i+8], 2) for i in range(0, len(bits), 8))+bytes(8)
d = rtcm()
d.week = 2200
d.msgtype = 2071
d.decode_integrity_vmap(msg, 0)
a = [list(d.integ.azel[k][:, 0]) for k in (0, 1)]
sys.exit(0 if a == [[30, 61, 93], [30, 61]] else 1)
'''),
]
