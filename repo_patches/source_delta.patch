From 2355aa42d3fffdfb05b8386d91642c38c7a35dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 001/215] fix: check tracking attribute of GPS L2/L5 signals
 against the band digit

---
 src/cssrlib/gnss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index f5bd40f..84ea328 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -477,8 +477,8 @@ class rSigRnx():
         if len(s) == 3:
             if sys == uGNSS.GPS:
                 if (s[1] == '1' and s[2] not in 'CSLXPWYM') or \
-                   (s[2] == '2' and s[2] not in 'CDSLXPWYMN') or \
-                   (s[2] == '5' and s[2] not in 'IQX'):
+                   (s[1] == '2' and s[2] not in 'CDSLXPWYMN') or \
+                   (s[1] == '5' and s[2] not in 'IQX'):
                     raise ValueError
             elif sys == uGNSS.GLO:
                 if (s[1] == '1' and s[2] not in 'CPX') or \
-- 
2.43.0


From 81129d9e9b61efd4c3d857fc0b06eea0d7ab33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 002/215] fix: return the G2a carrier frequency for GLONASS
 band 6 signals

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 84ea328..de89a72 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -574,7 +574,7 @@ class rSigRnx():
                 return rCST.FREQ_R3
             elif int(self.sig / 100) == 4:
                 return rCST.FREQ_R1a
-            elif int(self.sig / 100) == 5:
+            elif int(self.sig / 100) in (5, 6):
                 return rCST.FREQ_R2a
             else:
                 return None
-- 
2.43.0


From 67fd33fcd6061975804a73035d03f7b8104823ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 003/215] fix: NavIC L5 carrier frequency is 1176.45 MHz

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index de89a72..23b9f48 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -81,7 +81,7 @@ class rCST():
     FREQ_S5 = 1176.45e6      # [Hz] SBS L5
 
     FREQ_I1 = 1575.42e6      # [Hz] IRS L1
-    FREQ_I5 = 1191.795e6     # [Hz] IRS L5
+    FREQ_I5 = 1176.45e6      # [Hz] IRS L5
     FREQ_IS = 2492.028e6     # [Hz] IRS S
 
     COS_5 = 0.9961946980917456
-- 
2.43.0


From cfb864b2302c6a0af4278b035dc6c1ef322dd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 004/215] fix: pos2ecef(isdeg=True) must not modify the
 position passed in

---
 src/cssrlib/gnss.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 23b9f48..d65f9b0 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1437,8 +1437,7 @@ def ecef2pos(r):
 def pos2ecef(pos, isdeg: bool = False):
     """ LLH (rad/deg) to ECEF position conversion  """
     if isdeg:
-        pos[0] *= np.pi/180.0
-        pos[1] *= np.pi/180.0
+        pos = [pos[0]*np.pi/180.0, pos[1]*np.pi/180.0, pos[2]]
     s_p = sin(pos[0])
     c_p = cos(pos[0])
     s_l = sin(pos[1])
-- 
2.43.0


From f98e539753c85757c144b913ca18d333cef9b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 005/215] fix: satazel raised a math domain error at the exact
 zenith

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index d65f9b0..24bfedc 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1501,7 +1501,7 @@ def satazel(pos, e):
     """ calculate az/el from LOS vector in ECEF (e) """
     enu = ecef2enu(pos, e)
     az = atan2(enu[0], enu[1])
-    el = asin(enu[2])
+    el = asin(max(-1.0, min(1.0, enu[2])))
     return az, el
 
 
-- 
2.43.0


From 0489d91a333dc56fa4e325e924e3177d476e7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 006/215] fix: eph2clk removed the clock offset twice when
 solving for the time

---
 src/cssrlib/ephemeris.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 5a1c699..f3c9c9c 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -234,9 +234,10 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
 
 def eph2clk(time, eph):
     """ calculate clock offset based on ephemeris """
-    t = timediff(time, eph.toc)
+    ts = timediff(time, eph.toc)
+    t = ts
     for _ in range(2):
-        t -= eph.af0+eph.af1*t+eph.af2*t**2
+        t = ts - (eph.af0+eph.af1*t+eph.af2*t**2)
     dts = eph.af0+eph.af1*t+eph.af2*t**2
     return dts
 
-- 
2.43.0


From 1fc52df41bdc48db52202bd8564bf50818453efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 007/215] fix: iterate Kepler's equation to convergence for
 eccentric orbits

---
 src/cssrlib/ephemeris.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index f3c9c9c..bfccbb3 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -131,11 +131,11 @@ def eccentricAnomaly(M, e):
     Compute eccentric anomaly based on mean anomaly and eccentricity
     """
     E = M
-    for _ in range(10):
+    for _ in range(MAX_ITER_KEPLER):
         Eold = E
         sE = np.sin(E)
         E = M+e*sE
-        if abs(Eold-E) < 1e-12:
+        if abs(Eold-E) < RTOL_KEPLER:
             break
 
     return E, sE
@@ -892,11 +892,11 @@ def alm2pos(t: gtime_t, alm: Alm):
     n0 = np.sqrt(mu/alm.A**3)
     M = alm.M0+n0*dt
     E = M
-    for _ in range(10):
+    for _ in range(MAX_ITER_KEPLER):
         Eold = E
         sE = np.sin(E)
         E = M+alm.e*sE
-        if abs(Eold-E) < 1e-12:
+        if abs(Eold-E) < RTOL_KEPLER:
             break
     cE = np.cos(E)
     u = np.arctan2(np.sqrt(1.0-alm.e**2)*sE, cE-alm.e)+alm.omg
-- 
2.43.0


From 7974c8ed4b0d798871152a7f0e18441e91372da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 008/215] fix: velocity of BeiDou GEO satellites ignored the
 GEO frame rotation

---
 src/cssrlib/ephemeris.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index bfccbb3..a845535 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -221,12 +221,15 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         hd = np.array([-h[1], h[0]])
         xod = rd*h+(r*ud)*hd
         incd = eph.idot+np.array([eph.cic, eph.cis])@h2d
-        omegd = eph.OMGd-omge
+        geo = sys == uGNSS.BDS and (prn <= 5 or prn >= 59)
+        omegd = eph.OMGd if geo else eph.OMGd-omge
 
         pd = np.array([-p[1], p[0], 0])*omegd
         qd = np.array([-q[1], q[0], 0])*omegd+qq*incd
 
         vs = xo@np.array([pd, qd])+xod@np.array([p, q])
+        if geo:  # rotate into ECEF frame
+            vs = Mo@vs + omge*np.array([rs[1], -rs[0], 0.0])
         return rs, vs, dts
 
     return rs, dts
-- 
2.43.0


From 67423e82d58245f9a8bb82ea540f9427a1b72888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 009/215] fix: GPS week of Yuma almanacs rolls over at 1024
 weeks

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index a845535..9549c3b 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -842,9 +842,9 @@ def loadyuma(fname, sys=uGNSS.GPS):
                 alm.af1 = float(v[1])
             elif v[0] == 'week':
                 alm.week = int(v[1])
-                alm.week += week_ref//1023*1023
+                alm.week += week_ref//1024*1024
                 if alm.week > week_ref:
-                    alm.week -= 1023
+                    alm.week -= 1024
 
                 alm.sattype = 0
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
-- 
2.43.0


From 3a6da995a01b0191dc3c3f8db01c412dcf061730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 010/215] fix: harmonic correction rates of satellite velocity
 used the wrong angle

---
 src/cssrlib/ephemeris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 9549c3b..e54fed5 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -214,7 +214,7 @@ def eph2pos(t: gtime_t, eph: Eph, flg_v=False):
         qq = np.array([si*sOmg, -si*cOmg, ci])
         Ed = n/nue
         nud = np.sqrt(1.0-eph.e**2)/nue*Ed
-        h2d = 2.0*nud*np.array([-h[1], h[0]])
+        h2d = 2.0*nud*np.array([-h2[1], h2[0]])
         ud = nud+np.array([eph.cuc, eph.cus])@h2d
         rd = Ak*eph.e*sE*Ed+np.array([eph.crc, eph.crs])@h2d
 
-- 
2.43.0


From fe0845ec1928ed11b73a1e61e2300a0a931c8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 011/215] fix: do not accumulate velocity correction in stored
 PVS/SBAS orbit corrections

---
 src/cssrlib/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index e54fed5..51a7684 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -360,7 +360,7 @@ def satpos(sat, t, nav, cs=None, orb=None):
 
             if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
 
-                dorb += cs.lc[0].dvel[sat] * \
+                dorb = dorb + cs.lc[0].dvel[sat] * \
                     (timediff(t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
             if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
@@ -592,7 +592,7 @@ def satposs(obs, nav, cs=None, orb=None):
                 dorb = cs.lc[0].dorb[sat]  # radial,along-track,cross-track
 
                 if cs.cssrmode in (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5):
-                    dorb += cs.lc[0].dvel[sat] * \
+                    dorb = dorb + cs.lc[0].dvel[sat] * \
                         (timediff(obs.t, cs.lc[0].t0[sat][sCType.ORBIT]))
 
                 if cs.cssrmode == sc.BDS_PPP:  # consistency check for IOD corr
-- 
2.43.0


From a3b66ab45153502c600cd61178a15a3aa6455e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 012/215] fix: single-frequency positioning used the TGD of
 another satellite for GLONASS

---
 src/cssrlib/ephemeris.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 51a7684..19cf857 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -477,7 +477,8 @@ def satpos(sat, t, nav, cs=None, orb=None):
                                sc.DGPS) and sys == uGNSS.GPS:
                 dts[i] -= eph.tgd
 
-        elif nav.smode == 1 and nav.nf == 1:  # standalone positioning
+        elif nav.smode == 1 and nav.nf == 1 and \
+                sys != uGNSS.GLO:  # standalone positioning
             dts[i] -= eph.tgd
 
     if cs is not None:
@@ -728,7 +729,8 @@ def satposs(obs, nav, cs=None, orb=None):
                 nav.dorb[sat] = dorb_
                 nav.dclk[sat] = dclk
 
-            elif nav.smode == 1 and nav.nf == 1:  # stand-alone positioning
+            elif nav.smode == 1 and nav.nf == 1 and \
+                    sys != uGNSS.GLO:  # stand-alone positioning
                 dts[i] -= eph.tgd
 
             nsat += 1
-- 
2.43.0


From db3ffb678c70370abca28e3ce01bce9fc3e2c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 013/215] fix: satpos raised KeyError for a satellite without
 SSR clock correction

---
 src/cssrlib/ephemeris.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/ephemeris.py b/src/cssrlib/ephemeris.py
index 19cf857..c21bc29 100644
--- a/src/cssrlib/ephemeris.py
+++ b/src/cssrlib/ephemeris.py
@@ -389,6 +389,8 @@ def satpos(sat, t, nav, cs=None, orb=None):
                     else:
                         return rs, vs, dts, svh
 
+                if sat not in cs.lc[0].dclk:
+                    return rs, vs, dts, svh
                 dclk = cs.lc[0].dclk[sat]
 
                 if cs.lc[0].cstat & (1 << sCType.HCLOCK) and \
-- 
2.43.0


From d61081a915c367d4d28b6a164344c8de6613a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 014/215] fix: RINEX navigation fields with trailing blanks
 stripped are blank, not an error

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 332823b..66ebb39 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -127,7 +127,7 @@ class rnxdec:
         """ convert string to float """
         if c >= 0:
             u = u[19*c+4:19*(c+1)+4]
-        if u.isspace():
+        if not u.strip():  # blank, or trailing blanks stripped
             return 0.0
         return float(u.replace("D", "E"))
 
-- 
2.43.0


From f237b88952b26c1f28e691604cd48b2e3b8a2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 015/215] fix: NavIC L1NV records lost the issue of data and
 the reference time

---
 src/cssrlib/rinex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 66ebb39..72f3910 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -577,7 +577,8 @@ class rnxdec:
             line = fnav.readline()  # line #3
             if sys == uGNSS.IRN and self.mode_nav == 2:
                 eph.iode = int(self.flt(line, 0))
-                eph.iode = eph.iodc
+                eph.iodc = eph.iode
+                eph.week, eph.toes = time2gpst(eph.toc)
             else:
                 if (sys == uGNSS.GPS or sys == uGNSS.QZS) and \
                         self.mode_nav > 0:  # CNAV, CNAV/2
-- 
2.43.0


From 86d49c7a20b7b1b300b0050bed04cb886d48a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 016/215] fix: NavIC TGD of RINEX navigation records was
 truncated to zero

---
 src/cssrlib/rinex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 72f3910..69ed555 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -634,9 +634,9 @@ class rnxdec:
                     eph.urai = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 if self.mode_nav == 2 and eph.integ == 1:
-                    eph.tgd = int(self.flt(line, 3))
+                    eph.tgd = self.flt(line, 3)
                 else:
-                    eph.tgd = int(self.flt(line, 2))
+                    eph.tgd = self.flt(line, 2)
             else:
                 eph.sva = int(self.flt(line, 0))
                 eph.svh = int(self.flt(line, 1))
-- 
2.43.0


From dbf4658d1b84ace18b51175953fc23f980bdb7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 017/215] fix: sign of the GLONASS L1/L2 group delay in RINEX
 navigation records

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 69ed555..08ee618 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -445,7 +445,7 @@ class rnxdec:
                     if self.mode_nav == 0:  # FDMA
                         # b7-8: M, b6: P4, b5: P3, b4: P2, b2-3: P1, b0-1: P
                         geph.status = int(self.flt(line, 0))
-                        geph.dtaun = -self.flt(line, 1)
+                        geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
                         if len(line) >= 80:
                             geph.svh = int(self.flt(line, 3))
-- 
2.43.0


From 0550e4eb7d0904d5fc09935044c6e1fce38a5f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 018/215] fix: a blank GLONASS health flag field must not
 declare the satellite healthy

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 08ee618..f67f64a 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -447,7 +447,7 @@ class rnxdec:
                         geph.status = int(self.flt(line, 0))
                         geph.dtaun = self.flt(line, 1)
                         geph.urai[0] = int(self.flt(line, 2))
-                        if len(line) >= 80:
+                        if line[61:80].strip():
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
                         sattype = int(self.flt(line, 0))
-- 
2.43.0


From ca095984721d8f3d1723cc98b9dbfebf2e084a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 019/215] fix: GLONASS CDMA navigation records could not be
 decoded

---
 src/cssrlib/rinex.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index f67f64a..68f12bb 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -399,7 +399,8 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     t0 = self.flt(line, 3)
                 else:  # L1OC, L3OC
-                    bet_ = self.flt(line, 3)  # clock drift rate
+                    geph.beta = self.flt(line, 3)  # clock drift rate
+                    t0 = tocs
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
@@ -418,7 +419,7 @@ class rnxdec:
                     if geph.frq > 128:
                         geph.frq -= 256
                 else:  # L1OC
-                    dvalid = int(self.flt(line, 3))
+                    geph.status = int(self.flt(line, 3))  # data validity
 
                 line = fnav.readline()  # line #3
                 pos[2] = self.flt(line, 0)*1e3
@@ -432,9 +433,9 @@ class rnxdec:
                 if self.mode_nav == 0:  # FDMA
                     geph.age = int(self.flt(line, 3))
                 elif self.mode_nav == 1:  # L1OC
-                    tgd_L2OCp = self.flt(line, 3)  # tgd_L2OCp
+                    geph.isc[1] = self.flt(line, 3)  # tgd_L2OCp
                 elif self.mode_nav == 3:  # L3OC
-                    isc_L3OCp = self.flt(line, 3)  # isc_L3OCp
+                    geph.isc[2] = self.flt(line, 3)  # isc_L3OCp
 
                 # Use GLONASS line #4 only from RINEX v3.05 onwards
                 #
@@ -450,33 +451,33 @@ class rnxdec:
                         if line[61:80].strip():
                             geph.svh = int(self.flt(line, 3))
                     else:  # L1OC,L3OC
-                        sattype = int(self.flt(line, 0))
-                        src = int(self.flt(line, 1))
+                        geph.sattype = int(self.flt(line, 0))
+                        geph.src = int(self.flt(line, 1))
                         geph.aode = int(self.flt(line, 2))
                         geph.aodc = int(self.flt(line, 3))
 
                         line = fnav.readline()  # line #5
-                        P2 = int(self.flt(line, 0))  # attitude flag
+                        geph.flag = int(self.flt(line, 0))  # attitude flag
                         geph.tin = self.flt(line, 1)  # sec of day, UTC(SU)
                         geph.tau1 = self.flt(line, 2)
                         geph.tau2 = self.flt(line, 3)
 
                         line = fnav.readline()  # line #6
-                        geph.yaw = self.flt(line, 0)
+                        geph.psi = self.flt(line, 0)
                         geph.sn = int(self.flt(line, 1))
                         geph.win = self.flt(line, 2)
                         geph.dw = self.flt(line, 3)
 
                         line = fnav.readline()  # line #7
                         geph.wmax = self.flt(line, 0)
-                        geph.dpoc[0] = self.flt(line, 1)
-                        geph.dpoc[1] = self.flt(line, 2)
-                        geph.dpoc[2] = self.flt(line, 3)
+                        geph.dpos[0] = self.flt(line, 1)
+                        geph.dpos[1] = self.flt(line, 2)
+                        geph.dpos[2] = self.flt(line, 3)
 
                         line = fnav.readline()  # line #8
                         geph.urai[0] = int(self.flt(line, 0))
                         geph.urai[1] = int(self.flt(line, 1))
-                        tot = self.flt(line, 2)
+                        t0 = self.flt(line, 3)
 
                 tod = t0 % 86400.0
                 tof = gpst2time(week, tod + dow*86400.0)
-- 
2.43.0


From 3e586fd8ecc72a8a78f16479500b0f69045837e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 020/215] fix: GLONASS message frame time of RINEX navigation
 records is in UTC

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 68f12bb..362727a 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1385,7 +1385,7 @@ class rnxenc:
             return
 
         ep = time2epoch(gpst2utc(geph.toe))
-        week, tot_ = time2gpst(geph.tof)
+        week, tot_ = time2gpst(gpst2utc(geph.tof))
 
         if geph.mode == 0:
             lbl = "FDMA"
-- 
2.43.0


From 2cdbd3cb09e391a830b1edecbdbd42ef8a0a8f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 021/215] fix: RINEX navigation output dropped new ephemerides
 with an unchanged issue of data

---
 src/cssrlib/rinex.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 362727a..78c7101 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1191,11 +1191,12 @@ class rnxenc:
         """ write RINEX navigation message to file """
         if eph.sat in self.rec_eph.keys():
             if eph.mode in self.rec_eph[eph.sat].keys() and \
-                    self.rec_eph[eph.sat][eph.mode][0] == eph.iode:
+                    self.rec_eph[eph.sat][eph.mode] == \
+                    [eph.iode, eph.toe.time]:
                 return
         else:
             self.rec_eph[eph.sat] = {}
-        self.rec_eph[eph.sat][eph.mode] = [eph.iode, eph.toes]
+        self.rec_eph[eph.sat][eph.mode] = [eph.iode, eph.toe.time]
 
         id_ = sat2id(eph.sat)
         sys, prn = sat2prn(eph.sat)
@@ -1372,11 +1373,12 @@ class rnxenc:
         """ write RINEX navigation message for GLONASS to file """
         if geph.sat in self.rec_eph.keys():
             if geph.mode in self.rec_eph[geph.sat].keys() and \
-                    self.rec_eph[geph.sat][geph.mode][0] == geph.iode:
+                    self.rec_eph[geph.sat][geph.mode] == \
+                    [geph.iode, geph.toe.time]:
                 return
         else:
             self.rec_eph[geph.sat] = {}
-        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toes]
+        self.rec_eph[geph.sat][geph.mode] = [geph.iode, geph.toe.time]
 
         id_ = sat2id(geph.sat)
         sys, prn = sat2prn(geph.sat)
@@ -1444,11 +1446,12 @@ class rnxenc:
         """ write RINEX navigation message for SBAS to file """
         if seph.sat in self.rec_eph.keys():
             if seph.mode in self.rec_eph[seph.sat].keys() and \
-                    self.rec_eph[seph.sat][seph.mode][0] == seph.iodn:
+                    self.rec_eph[seph.sat][seph.mode] == \
+                    [seph.iodn, seph.t0.time]:
                 return
         else:
             self.rec_eph[seph.sat] = {}
-        self.rec_eph[seph.sat][seph.mode] = [seph.iodn]
+        self.rec_eph[seph.sat][seph.mode] = [seph.iodn, seph.t0.time]
 
         id_ = sat2id(seph.sat)
         sys, prn = sat2prn(seph.sat)
-- 
2.43.0


From 189765f7d4e4c1f8ff1ed4fd8303e90a50f446fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 022/215] fix: SBAS navigation records left the reference and
 frame times unset

---
 src/cssrlib/rinex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 78c7101..dda19e8 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -505,6 +505,9 @@ class rnxdec:
                 seph.af0 = self.flt(line, 1)
                 seph.af1 = self.flt(line, 2)
                 seph.tot = self.flt(line, 3)
+                seph.t0 = seph.toc
+                week, _ = time2gpst(seph.toc)
+                seph.tof = gpst2time(week, seph.tot)
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
-- 
2.43.0


From 6ea40f791dd0b0d1c3d06352bfddbb6c0e5743c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 023/215] fix: RINEX header with 26 or more observation types
 per system

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index dda19e8..64133e0 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -843,7 +843,7 @@ class rnxdec:
                 # Extract string list of signal codes
                 #
                 sigs = line[7:60].split()
-                for _ in range(int(nsig/14)):
+                for _ in range((nsig-1)//13):
                     line2 = self.fobs.readline()
                     sigs += line2[7:60].split()
 
-- 
2.43.0


From 807601705618f2bc379e95b8ec236e7d1fe3cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 024/215] fix: observations of systems with fewer signals than
 others could not be stored

---
 src/cssrlib/rinex.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 64133e0..9b03495 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -924,16 +924,11 @@ class rnxdec:
                     prn += 100
                 sat = prn2sat(sys, prn)
 
-                pr = np.zeros(len(self.getSignals(sys, uTYP.C)),
-                              dtype=np.float64)
-                cp = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.float64)
-                ll = np.zeros(len(self.getSignals(sys, uTYP.L)),
-                              dtype=np.int32)
-                dp = np.zeros(len(self.getSignals(sys, uTYP.D)),
-                              dtype=np.float64)
-                cn = np.zeros(len(self.getSignals(sys, uTYP.S)),
-                              dtype=np.float64)
+                pr = np.zeros(self.nsig[uTYP.C], dtype=np.float64)
+                cp = np.zeros(self.nsig[uTYP.L], dtype=np.float64)
+                ll = np.zeros(self.nsig[uTYP.L], dtype=np.int32)
+                dp = np.zeros(self.nsig[uTYP.D], dtype=np.float64)
+                cn = np.zeros(self.nsig[uTYP.S], dtype=np.float64)
 
                 for i, sig in self.sig_map[sys].items():
 
-- 
2.43.0


From 33639acb966fcdaf29f4ffa8712a37c01543a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 025/215] fix: event records of RINEX observation files are not
 observations

---
 src/cssrlib/rinex.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 9b03495..d608609 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -882,6 +882,13 @@ class rnxdec:
 
             nsat = int(line[32:35])
 
+            # Skip special records of event epochs
+            #
+            if line[31] in '2345':
+                for _ in range(nsat):
+                    self.fobs.readline()
+                continue
+
             year = int(line[2:6])
             month = int(line[7:9])
             day = int(line[10:12])
-- 
2.43.0


From 7dcdb3e6bb2e13d395e22dce162c8e0f435f3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 026/215] fix: sync_obs never returned after the end of either
 file

---
 src/cssrlib/rinex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index d608609..eba4e0c 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -999,6 +999,9 @@ def sync_obs(dec, decb, dt_th=0.1):
         dt = timediff(obs.t, obsb.t)
         if np.abs(dt) <= dt_th:
             break
+        if len(obs.sat) == 0 and obs.t.time == 0 or \
+                len(obsb.sat) == 0 and obsb.t.time == 0:  # end of file
+            break
         if dt > dt_th:
             obsb = decb.decode_obs()
         elif dt < dt_th:
-- 
2.43.0


From 5d28ea05a32bf43eae0fdacd173ae99853e56853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 027/215] fix: RINEX observation header output with other than
 13 observation types

---
 src/cssrlib/rinex.py | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index eba4e0c..2daba06 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1108,37 +1108,20 @@ class rnxenc:
 
             fh.write("{:1s}  {:3d}".format(sys_t[sys], nsig))
 
-            n = 0
+            codes = []
             for k, _ in enumerate(pr):
-                fh.write(" {:3s}".format(pr[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
-                fh.write(" {:3s}".format(cp[k].str()))
-                n += 1
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-
+                codes += [pr[k].str(), cp[k].str()]
                 if uTYP.D in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(dp[k].str()))
-                    n += 1
-                    if n == 13:
-                        fh.write("  {:20s}\n{:6s}".format(
-                            "SYS / # / OBS TYPES", ""))
-
+                    codes.append(dp[k].str())
                 if uTYP.S in self.sig_tab[sys]:
-                    fh.write(" {:3s}".format(cn[k].str()))
-                    n += 1
-
-                if n == 13:
-                    fh.write("  {:20s}\n{:6s}".format(
-                        "SYS / # / OBS TYPES", ""))
-                elif n >= nsig-1:
-                    fh.write("  {:s}".format("    "*(13-(nsig % 13))))
-                    fh.write("{:20s}".format("SYS / # / OBS TYPES \n"))
+                    codes.append(cn[k].str())
+
+            for n in range(0, nsig, 13):  # up to 13 observations per line
+                if n > 0:
+                    fh.write("{:6s}".format(""))
+                for k in range(n, n+13):
+                    fh.write(" {:3s}".format(codes[k] if k < nsig else ""))
+                fh.write("  {:20s}\n".format("SYS / # / OBS TYPES"))
 
         # TBD
         ep = time2epoch(ts)
-- 
2.43.0


From f9d7f7090b161246954853d1be4eb68f2d1d41d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 028/215] fix: RINEX observation output failed for decoded
 observations

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 2daba06..38089bf 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1147,7 +1147,7 @@ class rnxenc:
     def rnx_obs_body(self, obs=None, fh=None):
         """ write RINEX observation message to file """
 
-        ep = time2epoch(obs.time)
+        ep = time2epoch(obs.time if hasattr(obs, 'time') else obs.t)
         nsat = len(obs.sat)
         nsig = obs.P.shape[1]
         fh.write("> {:4d} {:02d} {:02d} {:02d} {:02d} {:010.7f}".
-- 
2.43.0


From ed04d56be74d31979aeb2a07815bafae8f8dd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 029/215] fix: decoding a second Clock-RINEX file into the same
 Nav

---
 src/cssrlib/rinex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 38089bf..451b927 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -758,6 +758,7 @@ class rnxdec:
         offs = None
 
         nav.pclk = []
+        nav.nc = 0
         fnav = open(clkfile, 'rt')
 
         # Read header section
-- 
2.43.0


From 2f6c49b04626d7aed3fcf0c4252cf39ceb784273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 030/215] fix: use one convention for the two group delays of
 Galileo I/NAV

---
 src/cssrlib/rawnav.py | 5 +++--
 src/cssrlib/rinex.py  | 7 +++++--
 src/cssrlib/rtcm.py   | 7 ++++---
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index c4c66e3..079c240 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -266,8 +266,9 @@ class RawNav():
         eph.toe = gst2time(week_gst, eph.toes)
         eph.toc = gst2time(week_gst, toc)
 
-        eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
-        eph.tgd_b = bgdb*rCST.P2_32  # TGD (E1, E5b)
+        # I/NAV clock refers to (E1, E5b)
+        eph.tgd = bgdb*rCST.P2_32    # TGD (E1, E5b)
+        eph.tgd_b = bgda*rCST.P2_32  # TGD (E1, E5a)
 
         # e5b_hs, e1b_hs, e5b_dvs, e1b_dvs
         eph.svh = (e5b_hs << 7) | (e5b_dvs << 6) | (e1b_hs << 1) | (e1b_dvs)
diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 451b927..de68ab7 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1321,11 +1321,14 @@ class rnxenc:
                          format(tot_, float(eph.wn_op), float(eph.integ), ""))
 
         if sys == uGNSS.GAL:  # I/NAV, F/NAV
+            bgda, bgdb = eph.tgd, eph.tgd_b
+            if (int(eph.code) >> 9) & 1:  # tgd: E5b,E1
+                bgda, bgdb = eph.tgd_b, eph.tgd
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19s}\n".
                      format(eph.idot, float(eph.code), float(eph.week), ""))
             fh.write("    {:19.12E}{:19.12E}{:19.12E}{:19.12E}\n".
-                     format(float(eph.sva), float(eph.svh), eph.tgd,
-                            float(eph.tgd_b)))
+                     format(float(eph.sva), float(eph.svh), float(bgda),
+                            float(bgdb)))
             fh.write("    {:19.12E}{:19s}{:19s}{:19s}\n".
                      format(tot_, "", "", ""))
 
diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 65d8739..a8a0ce7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2715,9 +2715,10 @@ class rtcm(cssr, rtcmUtil):
         eph.crc = crc*rCST.P2_5
         eph.omg = omg*rCST.P2_31*rCST.SC2RAD
         eph.OMGd = OMGd*rCST.P2_43*rCST.SC2RAD
-        eph.tgd = tgd*rCST.P2_32
-        if self.msgtype == 1046:
-            eph.tgd_b = tgd2*rCST.P2_32
+        eph.tgd = tgd*rCST.P2_32        # TGD (E1, E5a)
+        if self.msgtype == 1046:  # I/NAV clock refers to (E1, E5b)
+            eph.tgd_b = eph.tgd
+            eph.tgd = tgd2*rCST.P2_32   # TGD (E1, E5b)
 
         eph.week = self.adjustweek(eph.week, self.time)
 
-- 
2.43.0


From 5dde90b822aa8064b678b5a7b85967419c7a99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 031/215] fix: data source of Galileo F/NAV ephemerides from
 RTCM 1045

---
 src/cssrlib/rtcm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index a8a0ce7..db9643f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2729,7 +2729,10 @@ class rtcm(cssr, rtcmUtil):
         eph.svh = (hs << 7)+(dvs << 6)
         if self.msgtype == 1046:
             eph.svh |= (hs1 << 1)+(dvs1)
-        eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        if self.msgtype == 1046:  # I/NAV
+            eph.code = (1 << 0)+(1 << 2)+(1 << 9)
+        else:  # F/NAV
+            eph.code = (1 << 1)+(1 << 8)
         eph.iodc = eph.iode
 
         eph.mode = 0 if self.msgtype == 1046 else 1
-- 
2.43.0


From 21b7de2e03ddc94a52365220147b7dae578554fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 032/215] fix: BeiDou CNV3 records lost the group delay when
 written back

---
 src/cssrlib/rinex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index de68ab7..058b520 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -729,7 +729,8 @@ class rnxdec:
                 if self.mode_nav < 3:  # CNAV-1,2
                     eph.iodc = int(self.flt(line, 3))
                 else:  # CNAV-3
-                    eph.tgd_b = float(self.flt(line, 3))  # tgd_B2bI
+                    eph.tgd = float(self.flt(line, 3))  # tgd_B2bI
+                    eph.tgd_b = eph.tgd
 
                 line = fnav.readline()  # line #9
                 tot = self.flt(line, 0)
-- 
2.43.0


From df56a17afbe51d2a63a505f08145437be0ae7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 033/215] fix: transmission time of BeiDou navigation records
 is in BDT

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 058b520..7c2b386 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1196,7 +1196,7 @@ class rnxenc:
 
         if sys == uGNSS.BDS:
             ep = time2epoch(gpst2bdt(eph.toc))
-            week, tot_ = time2bdt(eph.tot)
+            week, tot_ = time2bdt(gpst2bdt(eph.tot))
         else:
             ep = time2epoch(eph.toc)
             week, tot_ = time2gpst(eph.tot)
-- 
2.43.0


From 9a445b56199837f15e44709513565585bbd41e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 034/215] fix: loss of lock flagged together with half-cycle
 ambiguity was ignored

---
 src/cssrlib/rinex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 7c2b386..f248f3c 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -955,7 +955,7 @@ class rnxdec:
                     # Convert from string to numerical value
                     #
                     val = 0.0 if not sval else float(sval)
-                    lli = 1 if slli == '1' else 0
+                    lli = int(slli) & 1 if slli.isdigit() else 0
 
                     # Signal index in data structure
                     #
-- 
2.43.0


From f31ed381239e9aed3372e0e4b412440b87026970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 035/215] fix: SP3 epochs without any valid record were counted
 but not stored

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index b588583..a759b76 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -141,7 +141,6 @@ class peph:
                 if self.status == 10:  # body
                     if line[0:2] == '* ':  # epoch header
                         v = False
-                        nav.ne += 1
                         self.cnt = 0
                         peph = peph_t(str2time(line, 3, 27))
                         # ep = time2epoch(peph.time)
@@ -199,6 +198,7 @@ class peph:
                                         else:
                                             peph.vst[sat_-1, j] = v*1e-4
                     if v:
+                        nav.ne += 1
                         nav.peph.append(peph)
 
         return nav
-- 
2.43.0


From cb432465d9f1c3d9375f5304bb636d0691358e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 036/215] fix: SP3 files with EP/EV records lost satellites

---
 src/cssrlib/peph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index a759b76..d15baff 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -148,8 +148,12 @@ class peph:
                         #       .format(ep[0], ep[1], ep[2], ep[3], ep[4], ep[5]))
 
                         nline = self.nsat if self.flag == 'P' else self.nsat*2
-                        for _ in range(nline):
+                        n = 0
+                        while n < nline:
                             line = fh.readline()
+                            if line[0] == 'E':  # EP, EV: correlations
+                                continue
+                            n += 1
                             if line[0] != 'P' and line[0] != 'V':
                                 continue
 
-- 
2.43.0


From 0cbbd59b6ac864af5ae5ef05c409cb0d3c627784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 037/215] fix: missing SP3 positions were used for
 interpolation

---
 src/cssrlib/peph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index d15baff..f22ae36 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -335,7 +335,8 @@ class peph:
 
         for j in range(NMAX+1):
             t[j] = timediff(nav.peph[i+j].time, time)
-            if np.linalg.norm(nav.peph[i+j].pos[sat-1, :]) <= 0.0:
+            # missing positions are NaN or zero
+            if not np.linalg.norm(nav.peph[i+j].pos[sat-1, 0:3]) > 0.0:
                 return None, None, False, False
 
         for j in range(NMAX+1):
-- 
2.43.0


From f6b0efd3aeee4fbc1205ce3dab010bb037895672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 038/215] fix: peph2pos raised TypeError at the end of the
 validity of SP3 orbits

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index f22ae36..8b15c36 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -459,7 +459,7 @@ class peph:
         #
         time_tt = timeadd(time, tt)
         rst, dtst, _, _ = self.pephpos(time_tt, sat, nav)
-        if rss is None:
+        if rst is None:
             return None, None, False
 
         # Get clock offset from Clock-RINEX
-- 
2.43.0


From b5d70334a1f2bb2f3160647b5d559cfad323ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 039/215] fix: standard deviation of precise clocks

---
 src/cssrlib/peph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 8b15c36..dd8cc6f 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -367,6 +367,7 @@ class peph:
         t[1] = timediff(time, p_[1].time)
 
         c = [p_[0].pos[sat-1, 3], p_[1].pos[sat-1, 3]]
+        std = 0.0
 
         if t[0] <= 0.0:
             dts[0] = c[0]
@@ -375,11 +376,11 @@ class peph:
         elif t[1] >= 0.0:
             dts[0] = c[1]
             if dts[0] != 0.0:
-                std = p_[1].std[sat-1, 3]*rCST.CLIGHT-EXTERR_CLK*t[1]
+                std = p_[1].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*t[1]
         elif c[0] != np.nan and c[1] != np.nan:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1, 3]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1, 3]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             dts[0] = np.nan
 
@@ -420,11 +421,11 @@ class peph:
             dts[0] = c[1]
             if dts[0] == 0.0:
                 return None, False
-            std = p_[1].std[sat-1]*rCST.CLIGHT-EXTERR_CLK*t[1]
+            std = p_[1].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*t[1]
         elif c[0] != 0.0 and c[1] != 0.0:
             dts[0] = (c[1]*t[0]-c[0]*t[1])/(t[0]-t[1])
             i = 0 if t[0] < -t[1] else 1
-            std = p_[i].std[sat-1]+EXTERR_CLK*abs(t[i])
+            std = p_[i].std[sat-1]*rCST.CLIGHT+EXTERR_CLK*abs(t[i])
         else:
             return None, False
 
-- 
2.43.0


From c9cc53bcc53aa03449b123d45b845fc0f4e8e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 040/215] fix: SP3 output of a single epoch

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index dd8cc6f..b368218 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -234,7 +234,7 @@ class peph:
                      .format(e[0], e[1], e[2], e[3], e[4], e[5], ne, ' '))
 
             week, secs = time2gpst(t0)
-            tstep = timediff(nav.peph[1].time, t0)
+            tstep = timediff(nav.peph[1].time, t0) if ne > 1 else 0.0
             mjd = 44244 + 7*week + int(secs/86400.0)
             fod = time2doy(t0) % 1
 
-- 
2.43.0


From 312e3f061ba46b521d24bd7d6626e8e7d171f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 041/215] fix: ANTEX phase variations on short lines and large
 offsets

---
 src/cssrlib/peph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index b368218..ae09c96 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -524,7 +524,8 @@ class atxdec():
 
         with open(fname, "r") as fh:
             for line in fh:
-                if len(line) < 60 or "COMMENT" in line[60:]:
+                if "NOAZI" not in line[3:8] and \
+                        (len(line) < 60 or "COMMENT" in line[60:]):
                     continue
                 if "START OF ANTENNA" in line[60:]:
                     pcv = pcv_t()
@@ -555,7 +556,7 @@ class atxdec():
                     sys = uGNSS.NONE
                     sig = rSigRnx()
                 elif "NORTH / EAST / UP" in line[60:]:  # unit [mm]
-                    neu = [float(x) for x in line[3:30].split()]
+                    neu = [float(x) for x in line[0:30].split()]
                     pcv.off.update({sig: np.zeros(3)})
                     # For satellite use XYZ, for receiver use ENU
                     pcv.off[sig][0] = neu[0] if pcv.sat is not None else neu[1]
-- 
2.43.0


From e1075e1e4bc0f6eb0467fcac93cabe1b53d43b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 042/215] fix: antModelTx raised KeyError for signals missing
 in the antenna database

---
 src/cssrlib/peph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index ae09c96..1eb2594 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -836,7 +836,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
                 off0 += fac0_*ant.off[sig]
             else:
                 print(f"sig={sig} not in antenna database.")
-                off0 = np.ones((1,3))*np.nan
+                off0 = np.ones(3)*np.nan
 
     # Interpolate PCV and map PCO on line-of-sight vector
     #
@@ -849,17 +849,17 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
 
         # Satellite PCO in local antenna frame
         #
-        off = ant.off[sig] - off0
-
-        # Convert satellite PCO from antenna frame into ECEF frame
-        #
-        pco_v = off@A
-
-        # Interpolate PCV and map PCO on line-of-sight vector
-        #
         if sig not in ant.off or sig not in ant.var:
             dant[i] = None
         else:
+            off = ant.off[sig] - off0
+
+            # Convert satellite PCO from antenna frame into ECEF frame
+            #
+            pco_v = off@A
+
+            # Interpolate PCV and map PCO on line-of-sight vector
+            #
             pcv = np.interp(za, za_t, ant.var[sig])
             pco = -np.dot(pco_v, -e)
             dant[i] = (pco+pcv)*1e-3
-- 
2.43.0


From 42de4690fbf2aceb595e07169cb5b35881b75536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 043/215] fix: getdcb raised AttributeError

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 1eb2594..15d405f 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1285,7 +1285,7 @@ class biasdec():
                     timediff(time, dcb.ted) < 0.0:
                 bias = dcb.bias
                 std = dcb.std
-                bcode = dcb.code1
+                bcode = dcb.sig1
                 break
 
         return bias, std, bcode
-- 
2.43.0


From 944a3dec76f09adcec0df6e5ebc14aee3afa0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 044/215] fix: GLONASS differential biases of other stations
 were not skipped

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 15d405f..f584c2a 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1347,7 +1347,7 @@ class biasdec():
 
                     # Skip GLONASS biases if site ID does not match
                     #
-                    if sys == 'R' and not site == siteID:
+                    if sys == uGNSS.GLO and site and not site == siteID:
                         continue
 
                     sig1 = rSigRnx(sys, line[25:28])
-- 
2.43.0


From 6c01d700f70372a88c334f876af1ff65c63882f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 045/215] fix: biases with undefined start of validity were
 never valid

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index f584c2a..0917eec 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1358,7 +1358,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1) if any(ep1) else gtime_t()
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
 
@@ -1408,7 +1408,7 @@ class biasdec():
                         line[40:43]), int(line[44:49])]
                     ep2 = [int(line[50:54]), int(
                         line[55:58]), int(line[59:64])]
-                    tst = self.doy2time(ep1)
+                    tst = self.doy2time(ep1) if any(ep1) else gtime_t()
                     ted = self.doy2time(ep2)
                     unit = line[65:69]
                     # if (type1 == 0 and unit[0:2] != 'ns') or (type1 == 1 and unit[0:3] != 'cyc'):
-- 
2.43.0


From ec67b673e7025d03928a786026adcf1b54dbcd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 046/215] fix: coefficient of the IAU 1976 precession angle
 zeta

---
 src/cssrlib/peph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 0917eec..7b2ae53 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1163,7 +1163,7 @@ def eci2ecef(tutc, erpv):
     t3 = t2*t
     f = ast_args(t)
 
-    ze = (2306.2181*t+0.20188*t2+0.017998*t3)*rCST.AS2R
+    ze = (2306.2181*t+0.30188*t2+0.017998*t3)*rCST.AS2R
     th = (2004.3109*t-0.42665*t2-0.041833*t3)*rCST.AS2R
     z = (2306.2181*t+1.09468*t2+0.018203*t3)*rCST.AS2R
     eps = (84381.448-46.8150*t-0.00059*t2+0.001813*t3)*rCST.AS2R
-- 
2.43.0


From ced860efd518889e9c0993afbe2222f30f3a0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 047/215] fix: SP3 standard deviation overwrote the
 valid-record flag of the epoch

---
 src/cssrlib/peph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 7b2ae53..cb1316e 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -196,11 +196,11 @@ class peph:
                                     s = line[61+j*3:61+j*3+slen]
                                     std = int(s) if s[-1] != ' ' else 0
                                     if self.scl[ofst] > 0.0 and std > 0.0:
-                                        v = pow(self.scl[ofst], std)*scl
+                                        s = pow(self.scl[ofst], std)*scl
                                         if line[0] == 'P':
-                                            peph.std[sat_-1, j] = v
+                                            peph.std[sat_-1, j] = s
                                         else:
-                                            peph.vst[sat_-1, j] = v*1e-4
+                                            peph.vst[sat_-1, j] = s*1e-4
                     if v:
                         nav.ne += 1
                         nav.peph.append(peph)
-- 
2.43.0


From 64caa0b83ff1c9d5fc1673d91fa2b543af56ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 048/215] fix: SP3 epoch stored again for every line left over
 after its records

---
 src/cssrlib/peph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index cb1316e..2cd7775 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -201,9 +201,9 @@ class peph:
                                             peph.std[sat_-1, j] = s
                                         else:
                                             peph.vst[sat_-1, j] = s*1e-4
-                    if v:
-                        nav.ne += 1
-                        nav.peph.append(peph)
+                        if v:
+                            nav.ne += 1
+                            nav.peph.append(peph)
 
         return nav
 
-- 
2.43.0


From 1927e14ef216dd8ed753e77a7f21da3edc518e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 049/215] fix: Compact SSR QZSS L1C(P) signal was mapped to L1
 C/A

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 00800c3..c6f08ae 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -431,7 +431,7 @@ class cssr:
         qzs_tbl = {
             sSigQZS.L1C: uSIG.L1C,
             sSigQZS.L1S: uSIG.L1S,
-            sSigQZS.L1L: uSIG.L1C,
+            sSigQZS.L1L: uSIG.L1L,
             sSigQZS.L1X: uSIG.L1X,
             sSigQZS.L2S: uSIG.L2S,
             sSigQZS.L2L: uSIG.L2L,
-- 
2.43.0


From 7f4ea657c004c1716e8f037d98d0619c71d61219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 050/215] fix: Compact SSR bias message without network
 correction raised UnboundLocalError

---
 src/cssrlib/cssrlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index c6f08ae..601e0f1 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -807,7 +807,7 @@ class cssr:
             self.udi[sCType.PBIAS] = head['udi']
         ki = 0
         for k in range(self.nsat_n):
-            if not self.isset(v['svmaskn'], self.nsat_n, k):
+            if dfm['net'] and not self.isset(v['svmaskn'], self.nsat_n, k):
                 continue
             sat = self.sat_n[k]
             if dfm['cb']:
-- 
2.43.0


From 6469170627d56160e9cc6f19a12bc12c6bb75323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 051/215] fix: atmospheric corrections next to a grid point
 raised an exception

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 601e0f1..89ef920 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1309,8 +1309,8 @@ class cssr:
         self.inet_ref = self.grid[idx]['nid']
         if r[idx] < self.rngmin:
             self.ngrid = 1
-            self.grid_index = self.grid['gid'][idx]
-            self.grid_weight = [1]
+            self.grid_index = np.array([self.grid['gid'][idx]])
+            self.grid_weight = np.array([1.0])
         else:
             idn = self.grid['nid'] == self.inet_ref
             rn = r[idn]
-- 
2.43.0


From 3ad3f8d69774a911c14a4b88978cfa4d620e961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 052/215] fix: number of grid points used for interpolation

---
 src/cssrlib/cssrlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 89ef920..54ba4e1 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1314,7 +1314,7 @@ class cssr:
         else:
             idn = self.grid['nid'] == self.inet_ref
             rn = r[idn]
-            self.ngrid = n = min(len(rn), 4)
+            n = min(len(rn), 4)
             idx = np.argsort(rn)
 
             if n < 4:
@@ -1336,6 +1336,7 @@ class cssr:
                         idx_n = np.append(idx_n, i)
                         break
 
+            self.ngrid = len(idx_n)
             rp = 1./rn[idx_n]
             w = rp/np.sum(rp)
             self.grid_index = self.grid[idn]['gid'][idx_n]
-- 
2.43.0


From 7607adf3852a56e477b8b4898b6fb9d40cf814d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 053/215] fix: latitude unit for the mapping function of
 Compact SSR tropospheric corrections

---
 src/cssrlib/cssrlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 54ba4e1..c6013fa 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -931,7 +931,7 @@ class cssr:
         
         grid = self.grid[self.grid['nid'] == inet]
         if len(grid)>0:
-            ah, aw = mapfParam(self.time, grid['lat'][0])
+            ah, aw = mapfParam(self.time, np.deg2rad(grid['lat'][0]))
             self.lc[inet].maph = ah
             self.lc[inet].mapw = aw
 
@@ -1060,7 +1060,7 @@ class cssr:
             self.udi[sCType.TROP] = head['udi']
 
             grid = self.grid[self.grid['nid'] == inet]
-            ah, aw = mapfParam(self.time, grid['lat'][0])
+            ah, aw = mapfParam(self.time, np.deg2rad(grid['lat'][0]))
             self.lc[inet].maph = ah
             self.lc[inet].mapw = aw
 
-- 
2.43.0


From d3c124218e659c0a6787c8d96c7781552a69a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 054/215] fix: Compact SSR atmospheric correction of a network
 without grid definition

---
 src/cssrlib/cssrlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index c6013fa..fdaa70c 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1060,9 +1060,10 @@ class cssr:
             self.udi[sCType.TROP] = head['udi']
 
             grid = self.grid[self.grid['nid'] == inet]
-            ah, aw = mapfParam(self.time, np.deg2rad(grid['lat'][0]))
-            self.lc[inet].maph = ah
-            self.lc[inet].mapw = aw
+            if len(grid) > 0:
+                ah, aw = mapfParam(self.time, np.deg2rad(grid['lat'][0]))
+                self.lc[inet].maph = ah
+                self.lc[inet].mapw = aw
 
         self.lc[inet].ct = np.zeros((2, 4))
 
-- 
2.43.0


From 1eb8f6c029a46b596707184eaa80f14eda26e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 055/215] fix: STEC residuals of Compact SSR gridded
 corrections were not used

---
 src/cssrlib/cssrlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index fdaa70c..6caf86c 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -948,10 +948,11 @@ class cssr:
         self.lc[inet].s_sz = {}
         
         for sat in self.lc[inet].sat_n:
-            self.lc[inet].dstec[sat] = {}
+            self.lc[inet].dstec[sat] = np.zeros(ng)
             self.lc[inet].s_sz[sat] = sz
 
         self.lc[inet].flg_trop = 3 if dfm['ttype'] > 0 else 0
+        self.lc[inet].flg_stec |= 1  # stec residual term
 
         for j in range(ng):
             if dfm['ttype'] > 0:
-- 
2.43.0


From 20faebc18ff73b9e7dfbc6f868d8936c9ec9906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 056/215] fix: quality index of exact quality values was
 truncated

---
 src/cssrlib/cssrlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 6caf86c..8f14aae 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1506,8 +1506,12 @@ class cssre():
 
     def quality2qi(self, y):
         """ convert from quality to quality index (class, value) """
+        if np.isnan(y):  # undefined/unknown
+            return 0, 0
         n3 = np.log(3)
         n_ = np.log(y*1000+1)/n3
-        cls_ = int(n_)
-        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25)
-        return cls_, val_
+        cls_ = int(n_+1e-9)
+        if cls_ > 7:
+            return 7, 7
+        val_ = int((np.exp((n_-cls_)*n3)-1)/0.25+1e-6)
+        return cls_, min(val_, 7)
-- 
2.43.0


From 7a0a6fd2193b8fb6dcc2d77e6990ff0b8cbaf19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 057/215] fix: check_validity raised an exception before all
 corrections were received

---
 src/cssrlib/cssrlib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 8f14aae..a932872 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1210,10 +1210,14 @@ class cssr:
     def check_validity(self, time):
         """ check validity time of correction """
         for sat in self.sat_n:
-            if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
+            if sat not in self.lc[0].t0:
+                continue
+            if self.lc[0].dclk is not None and \
+               timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-            if timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
+            if self.lc[0].dorb is not None and \
+               timediff(time, self.lc[0].t0[sat][sCType.ORBIT]) > \
                     self.tmax[sCType.ORBIT]:
                 self.lc[0].iode[sat] = -1
                 self.lc[0].dorb[sat] = np.zeros(3)
-- 
2.43.0


From f046b50ffc94e2d8fc4e6d085badb54eab30b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 058/215] fix: L6 decoding overran its buffer when subframe
 indicators were missed

---
 src/cssrlib/cssrlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index a932872..d6bed7f 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1426,6 +1426,10 @@ class cssr:
             print(f"facility changed: {facility_p} -> {facility}")
             return -1
 
+        if 1695*(self.fcnt+1) > len(self.buff)*8:  # missed subframe indicator
+            self.fcnt = -1
+            return -1
+
         copy_buff(msg, self.buff, i, 1695*self.fcnt, 1695)
         self.fcnt = self.fcnt + 1
 
-- 
2.43.0


From f0b73e57a46fea21109afda90da1322643460c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 059/215] fix: logging of combined corrections without global
 orbit and clock

---
 src/cssrlib/cssrlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index d6bed7f..6912080 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1255,13 +1255,15 @@ class cssr:
                                       self.lc[0].dorb[sat_][1],
                                       self.lc[0].dorb[sat_][2]))
 
-        elif self.subtype == sCSSR.COMBINED:
+        elif self.subtype == sCSSR.COMBINED and \
+                self.lc[0].dorb is not None and \
+                self.lc[0].dclk is not None:
             self.fh.write(" {:s}\t{:s}\t{:s}\t{:s}\t{:s}\t{:s}\n"
                           .format("SatID", "IODE", "Radial[m]",
                                   "Along[m]", "Cross[m]", "dclk[m]"))
             for sat_ in self.lc[0].dorb.keys():
                 if np.isnan(self.lc[0].dorb[sat_][0]) or \
-                   np.isnan(self.lc[0].dclk[sat_]):
+                   np.isnan(self.lc[0].dclk.get(sat_, np.nan)):
                     continue
                 self.fh.write(
                     " {:s}\t{:3d}\t{:6.3f}\t{:6.3f}\t{:6.3f}\t{:8.4f}\n"
-- 
2.43.0


From c5203b11fdc658b0f950a875769a10aadb8674f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 060/215] fix: largest HAS orbit corrections and biases were
 taken as not available

---
 src/cssrlib/cssr_has.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index e9577f4..80ab436 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -31,10 +31,17 @@ class cssr_has(cssr):
     def sval(self, u, n, scl):
         """ calculate signed value based on n-bit int, lsb """
         invalid = -2**(n-1)
-        dnu = 2**(n-1)-1
-        y = np.nan if u == invalid or u == dnu else u*scl
+        y = np.nan if u == invalid else u*scl
         return y
 
+    def decode_clk_sat(self, msg, i, sat, inet=0):
+        """ decoder clock correction of HAS """
+        dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i)[0]
+        i = super().decode_clk_sat(msg, i, sat, inet)
+        if dclk == 2**(self.dclk_blen-1)-1:  # satellite shall not be used
+            self.lc[inet].dclk[sat] = np.nan
+        return i
+
     def decode_cssr_clk_sub(self, msg, i=0):
         head, i = self.decode_head(msg, i)
         self.flg_net = False
-- 
2.43.0


From 9988f84c1325a8164dd87732df7b2fa60e337f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 061/215] fix: decoding of HAS clock subset corrections

---
 src/cssrlib/cssr_has.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 80ab436..4a5201b 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -9,7 +9,7 @@ Galileo HAS correction data decoder
 import numpy as np
 import bitstruct as bs
 import galois
-from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE
+from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, sCType
 from cssrlib.gnss import gpst2time
 from binascii import unhexlify
 
@@ -48,20 +48,26 @@ class cssr_has(cssr):
         if self.iodssr != head['iodssr']:
             return -1
 
+        if self.lc[0].dclk is None:
+            self.lc[0].dclk = {}
+        self.dcm = {}
         nclk_sub = bs.unpack_from('u4', msg, i)[0]
         i += 4
         for j in range(nclk_sub):
             gnss, dcm = bs.unpack_from('u4u2', msg, i)
             i += 6
-            idx_s = np.where(np.array(self.gnss_n) == gnss)
-            mask_s = bs.unpack_from('u'+str(self.nsat_g[gnss]), msg, i)[0]
-            i += self.nsat_g[gnss]
-            idx, nclk = self.decode_mask(mask_s, self.nsat_g[gnss])
+            self.dcm[self.gnss2sys(gnss)] = dcm+1.0
+            sat_s = [sat for k, sat in enumerate(self.sat_n)
+                     if self.gnss_n[k] == gnss]
+            if len(sat_s) == 0:
+                continue
+            mask_s = bs.unpack_from('u'+str(len(sat_s)), msg, i)[0]
+            i += len(sat_s)
+            idx, nclk = self.decode_mask(mask_s, len(sat_s), 0)
             for k in range(nclk):
-                dclk = bs.unpack_from('s'+str(self.dclk_blen), msg, i) \
-                    * self.dclk_scl*(dcm+1)
-                self.lc[0].dclk[idx_s[idx[k]]] = dclk
-                i += self.dclk_blen
+                sat = sat_s[idx[k]]
+                i = self.decode_clk_sat(msg, i, sat)
+                self.set_t0(0, sat, sCType.CLOCK, self.time)
         return i
 
     def decode_head(self, msg, i, st=-1):
-- 
2.43.0


From 0771b1941722baf40c127f41546e4825005bd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 062/215] fix: HAS corrections of another mask were decoded
 with the current one

---
 src/cssrlib/cssr_has.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 4a5201b..bdf2df7 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -114,6 +114,9 @@ class cssr_has(cssr):
             print(f"invalid TOH={self.toh}")
             return False
 
+        if not (flags >> 5) & 1 and mask_id != self.mask_id:
+            return False  # the mask of this message has not been received
+
         if (flags >> 5) & 1:  # mask block
             self.mask_id = mask_id
             self.subtype = sCSSR.MASK
-- 
2.43.0


From 3b18b052f01682be053e1e485bc35ac75dc5eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 063/215] fix: HAS message recovery failed with more than 32
 pages

---
 src/cssrlib/cssr_has.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index bdf2df7..f0911fd 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -178,6 +178,7 @@ class cnav_msg():
     def decode_has_page(self, idx, has_pages, gMat, ms):
         """ HPVRS decoding for RS(255,32,224) """
         HASmsg = bytes()
+        idx = idx[:ms]
         k = len(idx)
         if k >= ms:
             Wd = self.GF(has_pages[idx, :])  # kx53
-- 
2.43.0


From 770e47bbcf075183afb10804d662cc91952ba36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 064/215] fix: timeout of a HAS message included the time of
 previous messages

---
 src/cssrlib/cssr_has.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index f0911fd..6e11e10 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -231,6 +231,7 @@ class cnav_msg():
             HASmsg = self.decode_has_page(
                 self.rec, self.has_pages, self.gMat, self.ms_)
             self.rec = []
+            self.icnt = 0
 
             self.mid_decoded += [self.mid_]
             self.mid_ = -1
-- 
2.43.0


From 01453b2b7e6531f0eaee716527083fd3f4abdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 065/215] fix: reserved HAS page id was stored as the last page

---
 src/cssrlib/cssr_has.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index 6e11e10..beebbfe 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -208,6 +208,8 @@ class cnav_msg():
             # ms: size of non-encoded message in number of pages 0:1,...
             # pid: id of the transmitted HAS encoded page
             mt, mid, ms, pid = bs.unpack_from('u2u5u5u8', buff, i)
+            if pid == 0:  # reserved
+                continue
 
             self.msgtype = mt
             ms += 1
-- 
2.43.0


From 2a253db7742f279f69c1ca2ab875ad94df177825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 066/215] fix: PPP-B2b code biases following a satellite
 outside of the mask

---
 src/cssrlib/cssr_bds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index e64ff58..53d986b 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -250,6 +250,7 @@ class cssr_bds(cssr):
             sys, prn = self.slot2prn(slot)
             sat = prn2sat(sys, prn)
             if sat not in sat_n:
+                i += nsig*(4+self.cb_blen)
                 continue
             if sat not in self.lc[inet].t0:
                 self.lc[inet].t0[sat] = {}
-- 
2.43.0


From 2a58ea18cdbf6ea89194c825d4bbfa91d7207716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 067/215] fix: reserved signals in PPP-B2b code bias messages

---
 src/cssrlib/cssr_bds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 53d986b..0078ee2 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -261,7 +261,10 @@ class cssr_bds(cssr):
                 sig, cb = bs.unpack_from(
                     'u4s{:d}'.format(self.cb_blen), msg, i)
                 i += 4+self.cb_blen
-                sig_ = self.ssig2rsig(sys, uTYP.C, sig)
+                try:
+                    sig_ = self.ssig2rsig(sys, uTYP.C, sig)
+                except KeyError:  # reserved signal
+                    continue
                 self.lc[inet].cbias[sat][sig_] = self.sval(
                     cb, self.cb_blen, self.cb_scl)
 
-- 
2.43.0


From 36b8e46a7e9e6f40d98c25ffc13df30ebaa15db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 068/215] fix: bit positions, validity and time of PPP-B2b
 combined messages

---
 src/cssrlib/cssr_bds.py | 59 +++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 0078ee2..7cd6b70 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -335,48 +335,67 @@ class cssr_bds(cssr):
         # self.lc[0].t0[0][sCType.URA] = self.time
         return i
 
+    def decode_cssr_comb_clk(self, msg, i, inet, sat, valid):
+        """ decode clock correction of combined messages """
+        if not valid or sat not in self.sat_n:
+            return i+3+self.dclk_blen
+        i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+        if sat not in self.lc[inet].t0:
+            self.lc[inet].t0[sat] = {}
+        self.lc[inet].t0[sat][sCType.CLOCK] = self.time
+        self.iodssr_c[sCType.CLOCK] = self.iodssr
+        self.lc[inet].cstat |= (1 << sCType.CLOCK)
+        return i
+
+    def decode_cssr_comb_orb(self, msg, i, inet, numo):
+        """ decode orbit corrections of combined messages """
+        head, i = self.decode_head(msg, i)
+        if self.iodssr != head['iodssr']:
+            return -1
+        sat_n = np.array(self.sat_n)
+        for k in range(numo):
+            i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+        self.iodssr_c[sCType.ORBIT] = head['iodssr']
+        self.lc[inet].cstat |= (1 << sCType.ORBIT)
+        return i
+
     def decode_cssr_comb1(self, msg, i, inet=0):
         """decode MT6 combined message #1 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr, iodp, slot_s = \
-                bs.unpack_from('u17u4u2u4u9', msg, i)
-            i += 36
+            head, i = self.decode_head(msg, i)
+            iodp, slot_s = bs.unpack_from('u4u9', msg, i)
+            i += 13
+            valid = self.iodssr == head['iodssr'] and self.iodp == iodp
             for k in range(numc):
                 idx = slot_s+k
-                sat = self.sat_n[idx]
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+                sat = self.sat_n[idx] if idx < self.nsat_n else -1
+                i = self.decode_cssr_comb_clk(msg, i, inet, sat, valid)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_cssr_comb_orb(msg, i, inet, numo)
 
         return i
 
     def decode_cssr_comb2(self, msg, i, inet=0):
         """decode MT7 combined message #2 """
         numc, numo = bs.unpack_from('u5u3', msg, i)
-        sat_n = np.array(self.sat_n)
+        i += 8
 
         if numc > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
+            head, i = self.decode_head(msg, i)
+            valid = self.iodssr == head['iodssr']
             for k in range(numc):
-                slot = bs.unpack_from('u9', msg, i)
+                slot = bs.unpack_from('u9', msg, i)[0]
                 i += 9
                 sys, prn = self.slot2prn(slot)
-                sat = prn2sat(sys, prn)
-                i = self.decode_cssr_clk_sat(msg, i, inet, sat)
+                sat = prn2sat(sys, prn) if sys != uGNSS.NONE else -1
+                i = self.decode_cssr_comb_clk(msg, i, inet, sat, valid)
 
         if numo > 0:
-            tod, _, iodssr = bs.unpack_from('u17u4u2', msg, i)
-            i += 23
-            for k in range(numo):
-                i = self.decode_cssr_orb_sat(msg, i, inet, sat_n)
+            i = self.decode_cssr_comb_orb(msg, i, inet, numo)
 
         return i
 
-- 
2.43.0


From 7433eedb8293252a994a0c7ccae5de938a7f9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 069/215] fix: PPP-B2b slot 0 is not a satellite

---
 src/cssrlib/cssr_bds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index 7cd6b70..c55b5d7 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -84,7 +84,7 @@ class cssr_bds(cssr):
         if slot >= 1 and slot <= 63:
             prn = slot
             sys = uGNSS.BDS
-        elif slot <= 100:
+        elif slot >= 64 and slot <= 100:
             prn = slot-63
             sys = uGNSS.GPS
         elif slot <= 137:
-- 
2.43.0


From bc7d59697dfa3cece0ef1a1b19f7ac4c443e131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 070/215] fix: PPP-B2b URA indices of another mask were applied

---
 src/cssrlib/cssr_bds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/cssr_bds.py b/src/cssrlib/cssr_bds.py
index c55b5d7..3d172d0 100644
--- a/src/cssrlib/cssr_bds.py
+++ b/src/cssrlib/cssr_bds.py
@@ -322,6 +322,9 @@ class cssr_bds(cssr):
 
         iodp, st2 = bs.unpack_from('u4u3', msg, i)
         i += 7
+        if iodp != self.iodp:
+            i += 70*6
+            return i
 
         for k in range(70):
             v = bs.unpack_from_dict('u3u3', ['class', 'val'], msg, i)
-- 
2.43.0


From d9e5da0ac895fe92444c517bd0339faf16959a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 071/215] fix: longitude scaling of circular MADOCA-PPP areas

---
 src/cssrlib/cssr_mdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 30c1b11..f031fff 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -77,7 +77,7 @@ class cssr_mdc(cssr):
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
                     de = (lond - p.lonr)*rCST.D2R * \
-                        rCST.RE_WGS84*np.cos(p.lonr*rCST.D2R)
+                        rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng:
                         self.reg = reg
-- 
2.43.0


From 4ffdd176154641d7865525eab196b2434fe3f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 072/215] fix: effective range of circular MADOCA-PPP areas is
 in km

---
 src/cssrlib/cssr_mdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index f031fff..212259c 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -79,7 +79,7 @@ class cssr_mdc(cssr):
                     de = (lond - p.lonr)*rCST.D2R * \
                         rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
-                    if r <= p.rng:
+                    if r <= p.rng*1e3:  # range [km]
                         self.reg = reg
                         self.area = area
                         break
-- 
2.43.0


From 34b0ee2007bdf204b893437583f37b6a7b2fd9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 073/215] fix: MADOCA-PPP areas in the western hemisphere were
 never found

---
 src/cssrlib/cssr_mdc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/cssr_mdc.py b/src/cssrlib/cssr_mdc.py
index 212259c..0737e22 100644
--- a/src/cssrlib/cssr_mdc.py
+++ b/src/cssrlib/cssr_mdc.py
@@ -59,6 +59,10 @@ class cssr_mdc(cssr):
             self.lc[inet].nsat_n = 0
             self.lc[inet].t0 = {}
 
+    def get_dlon(self, lond, lonr):
+        """ longitude difference [deg] within -180..180 """
+        return (lond-lonr+180.0) % 360.0-180.0
+
     def find_grid_index(self, pos):
         """ find region/area   """
 
@@ -70,13 +74,13 @@ class cssr_mdc(cssr):
                 p = self.pnt[reg][area]
                 if p.sid == 0:  # rectangle shape:
                     if p.latr-p.lats <= latd and latd <= p.latr+p.lats and \
-                            p.lonr-p.lons <= lond and lond <= p.lonr+p.lons:
+                            abs(self.get_dlon(lond, p.lonr)) <= p.lons:
                         self.reg = reg
                         self.area = area
                         break
                 elif p.sid == 1:  # circle
                     dn = (latd - p.latr)*rCST.D2R*rCST.RE_WGS84
-                    de = (lond - p.lonr)*rCST.D2R * \
+                    de = self.get_dlon(lond, p.lonr)*rCST.D2R * \
                         rCST.RE_WGS84*np.cos(p.latr*rCST.D2R)
                     r = np.sqrt(dn**2+de**2)
                     if r <= p.rng*1e3:  # range [km]
@@ -96,7 +100,7 @@ class cssr_mdc(cssr):
         latd, lond = np.rad2deg(pos[0:2])
         p = self.pnt[self.reg][self.area]
         dlat = latd - p.latr
-        dlon = lond - p.lonr
+        dlon = self.get_dlon(lond, p.lonr)
 
         return dlat, dlon
 
-- 
2.43.0


From 2d1601c47c17ea9dd51a57f3f5f53af3c81052ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 074/215] fix: PVS correction rates were applied from the
 reception time instead of the reference time

---
 src/cssrlib/cssr_pvs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/cssr_pvs.py b/src/cssrlib/cssr_pvs.py
index 2416174..6e0458c 100644
--- a/src/cssrlib/cssr_pvs.py
+++ b/src/cssrlib/cssr_pvs.py
@@ -19,7 +19,7 @@ import numpy as np
 import bitstruct as bs
 from cssrlib.cssrlib import cssr, sCSSR, sCSSRTYPE, prn2sat, sCType
 from cssrlib.cssrlib import sat2id
-from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, time2gpst
+from cssrlib.gnss import uGNSS, rCST, gpst2time, timediff, timeadd, time2gpst, tod2tow
 from binascii import unhexlify
 
 
@@ -127,8 +127,7 @@ class cssr_pvs(cssr):
             self.sat_n.append(sat)
 
         tow = self.tow0 + t0*16.0
-        self.time = self.adjust_time_week(
-            gpst2time(self.week, tow), self.time0)
+        self.time = tod2tow(t0*16.0, self.time0)
 
         self.lc[0].iode[sat] = iodn
         self.lc[0].dorb[sat] = np.zeros(3)
@@ -146,7 +145,7 @@ class cssr_pvs(cssr):
         self.iodssr = 0
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
         self.lc[0].t0[sat] = {
-            sCType.CLOCK: self.time0, sCType.ORBIT: self.time0}
+            sCType.CLOCK: self.time, sCType.ORBIT: self.time}
 
         self.iodssr_c[sCType.CLOCK] = self.iodssr
         self.iodssr_c[sCType.ORBIT] = self.iodssr
-- 
2.43.0


From f0bf6124268362c802761da84c93e0c00feeff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 075/215] fix: integer overflow of large decorrelated
 ambiguities in LAMBDA

---
 src/cssrlib/mlambda.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/mlambda.py b/src/cssrlib/mlambda.py
index e4a7dbe..324ef4d 100644
--- a/src/cssrlib/mlambda.py
+++ b/src/cssrlib/mlambda.py
@@ -86,7 +86,7 @@ def msearch(L, d, ahat, ncands=2):
 
     dist = np.zeros(n)
     acond = np.zeros(n)
-    zcond = np.zeros(n, dtype=np.int32)
+    zcond = np.zeros(n, dtype=np.int64)
     step = np.zeros(n, dtype=np.int32)
     afixed = np.zeros((n, ncands))
     sqnorm = np.zeros(ncands)
@@ -159,7 +159,7 @@ def estimILS(L, d, ahat, ncands=2):
     sqnorm = np.zeros(ncands)
 
     acond = np.zeros(n)
-    zcond = np.zeros(n, dtype=np.int32)
+    zcond = np.zeros(n, dtype=np.int64)
     left = np.zeros(n)
     step = np.zeros(n, dtype=np.int32)
 
-- 
2.43.0


From b880faa2aedf244aea709f5b3ff6502ceffa5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 076/215] fix: leap seconds were applied twice to the epoch of
 GLONASS RTCM messages

---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index db9643f..06fba01 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -990,7 +990,7 @@ class rtcm(cssr, rtcmUtil):
         if sys==uGNSS.GLO and self.msgtype != 4076:
             self.tod = bs.unpack_from('u17', msg, i)[0]     
             i += 17
-            self.time = utc2gpst(glo2time(self.time, self.tod))
+            self.time = glo2time(self.time, self.tod)
             if self.workaround_sc134:
                 self.time = timeadd(self.time, -36) # work-around
         else:
@@ -1488,7 +1488,7 @@ class rtcm(cssr, rtcmUtil):
             week, _ = time2bdt(gpst2bdt(gpst2time(self.week, tow)))
             time = bdt2gpst(bdt2time(week, tow))
         elif sys == uGNSS.GLO:
-            time = utc2gpst(glo2time(self.time, tow))
+            time = glo2time(self.time, tow)
         else:
             time = gpst2time(self.week, tow)
         return i, sys, time
@@ -1529,7 +1529,7 @@ class rtcm(cssr, rtcmUtil):
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
-                t = utc2gpst(glo2time(self.time, tow))
+                t = glo2time(self.time, tow)
                 if self.workaround_sc134:
                     t = timeadd(t, -36) # work-around on sc134
                 return t
-- 
2.43.0


From 8d92d4a5c6d4975a47e97107aaf0be1bc9c77777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 077/215] fix: ephemeris weeks of RTCM messages around a 10-bit
 week rollover

---
 src/cssrlib/rtcm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 06fba01..17240e7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -796,9 +796,8 @@ class rtcmUtil:
 
     def adjustweek(self, week: int, tref: gtime_t):
         """ adjust week number considering reference time """
-        week_, _ = time2gpst(tref)
-        week_ref = (week_//1024)*1024
-        return (week % 1024) + week_ref
+        week_ref, _ = time2gpst(tref)
+        return week + (week_ref-week+512)//1024*1024
 
     def sys2str(self, sys: uGNSS):
         """ convert system enum to string """
-- 
2.43.0


From b5c57722018229fa2956c076dc5aa775d6c94774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 078/215] fix: RTCM GLONASS ephemeris used the x component for
 all axes

---
 src/cssrlib/rtcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 17240e7..c10ad20 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2630,12 +2630,12 @@ class rtcm(cssr, rtcmUtil):
         geph.vel[0] = xd*rCST.P2_20*1e3
         geph.pos[0] = x*rCST.P2_11*1e3
         geph.acc[0] = xdd*rCST.P2_30*1e3
-        geph.vel[1] = xd*rCST.P2_20*1e3
-        geph.pos[1] = x*rCST.P2_11*1e3
-        geph.acc[1] = xdd*rCST.P2_30*1e3
-        geph.vel[2] = xd*rCST.P2_20*1e3
-        geph.pos[2] = x*rCST.P2_11*1e3
-        geph.acc[2] = xdd*rCST.P2_30*1e3
+        geph.vel[1] = yd*rCST.P2_20*1e3
+        geph.pos[1] = y*rCST.P2_11*1e3
+        geph.acc[1] = ydd*rCST.P2_30*1e3
+        geph.vel[2] = zd*rCST.P2_20*1e3
+        geph.pos[2] = z*rCST.P2_11*1e3
+        geph.acc[2] = zdd*rCST.P2_30*1e3
         geph.gamn = gamn*rCST.P2_40
         geph.taun = taun*rCST.P2_30
         geph.dtaun = dtaun*rCST.P2_30
-- 
2.43.0


From cfdc86921c40958bfccd2ad6c60965652f070474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 079/215] fix: RTCM GLONASS ephemeris values are coded as
 sign-magnitude

---
 src/cssrlib/rtcm.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c10ad20..0d262be 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2600,6 +2600,11 @@ class rtcm(cssr, rtcmUtil):
 
         return i, eph
 
+    def sval_sm(self, u, n):
+        """ signed value of n-bit sign-magnitude integer (intS) """
+        v = u & ((1 << (n-1))-1)
+        return -v if u >> (n-1) else v
+
     def decode_glo_eph(self, msg, i):
         """ GLONASS Satellite Ephemeris Message """
         prn, frq, cn, svh, P1 = bs.unpack_from('u6u5u1u1u2', msg, i)
@@ -2608,17 +2613,24 @@ class rtcm(cssr, rtcmUtil):
         i += 12
         bn, P2, tb = bs.unpack_from('u1u1u7', msg, i)
         i += 9
-        xd, x, xdd = bs.unpack_from('s24s27s5', msg, i)
+        xd, x, xdd = bs.unpack_from('u24u27u5', msg, i)
         i += 56
-        yd, y, ydd = bs.unpack_from('s24s27s5', msg, i)
+        yd, y, ydd = bs.unpack_from('u24u27u5', msg, i)
         i += 56
-        zd, z, zdd = bs.unpack_from('s24s27s5', msg, i)
+        zd, z, zdd = bs.unpack_from('u24u27u5', msg, i)
         i += 56
-        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1s11u2u1s22s5', msg, i)
+        P3, gamn, P, ln, taun, dtaun = bs.unpack_from('u1u11u2u1u22u5', msg, i)
         i += 42
         En, P4, Ft, Nt, M, ad, Na, tauc, N4, taugps, ln = bs.unpack_from(
-            'u5u1u4u11u2u1u11s32u5s22u1', msg, i)
-        i += 102
+            'u5u1u4u11u2u1u11u32u5u22u1', msg, i)
+        i += 122
+
+        xd, yd, zd = [self.sval_sm(v, 24) for v in (xd, yd, zd)]
+        x, y, z = [self.sval_sm(v, 27) for v in (x, y, z)]
+        xdd, ydd, zdd = [self.sval_sm(v, 5) for v in (xdd, ydd, zdd)]
+        gamn = self.sval_sm(gamn, 11)
+        taun = self.sval_sm(taun, 22)
+        dtaun = self.sval_sm(dtaun, 5)
 
         geph = Geph()
         geph.pos = np.zeros(3)
-- 
2.43.0


From d16750b08184f30214aae9f092327e6e64b64260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 080/215] fix: health of Galileo F/NAV ephemerides from RTCM
 1045 belongs to E5a

---
 src/cssrlib/rtcm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0d262be..ad87084 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2737,9 +2737,10 @@ class rtcm(cssr, rtcmUtil):
         eph.toc = gpst2time(eph.week, toc)
         eph.tot = self.time
         eph.A = sqrtA*sqrtA
-        eph.svh = (hs << 7)+(dvs << 6)
-        if self.msgtype == 1046:
-            eph.svh |= (hs1 << 1)+(dvs1)
+        if self.msgtype == 1046:  # E5b, E1-B
+            eph.svh = (hs << 7)+(dvs << 6)+(hs1 << 1)+(dvs1)
+        else:  # E5a
+            eph.svh = (hs << 4)+(dvs << 3)
         if self.msgtype == 1046:  # I/NAV
             eph.code = (1 << 0)+(1 << 2)+(1 << 9)
         else:  # F/NAV
-- 
2.43.0


From a456095150b61c2d9f82c4caef939c2800c54373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 081/215] fix: clock drift rate of BDS and NavIC ephemerides
 from RTCM

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ad87084..cc806be 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2831,7 +2831,7 @@ class rtcm(cssr, rtcmUtil):
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.iode = aode
         toc *= 8.0
-        eph.af2 = af0*rCST.P2_66
+        eph.af2 = af2*rCST.P2_66
         eph.af1 = af1*rCST.P2_50
         eph.af0 = af0*rCST.P2_33
         eph.iodc = aodc
@@ -2882,7 +2882,7 @@ class rtcm(cssr, rtcmUtil):
         eph.week = week
         eph.af0 = af0*rCST.P2_31
         eph.af1 = af1*rCST.P2_43
-        eph.af2 = af0*rCST.P2_55
+        eph.af2 = af2*rCST.P2_55
         eph.sva = ura
         toc *= 16.0
         eph.tgd = tgd*rCST.P2_31
-- 
2.43.0


From c8cc86ea70429442aeb5e93d58cf75f6bed0181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 082/215] fix: decoding of RTCM SBAS ephemerides

---
 src/cssrlib/rtcm.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index cc806be..543e973 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2931,9 +2931,9 @@ class rtcm(cssr, rtcmUtil):
 
         seph = Seph()
         seph.sat = prn2sat(uGNSS.SBS, svid+119)
-        seph.iode = iodn
+        seph.iodn = iodn
         toc *= 16.0
-        seph.ura = ura
+        seph.sva = ura
         seph.pos[0] = x*0.08
         seph.pos[1] = y*0.08
         seph.pos[2] = z*0.4
@@ -2943,11 +2943,17 @@ class rtcm(cssr, rtcmUtil):
         seph.acc[0] = ax*0.0000125
         seph.acc[1] = ay*0.0000125
         seph.acc[2] = az*0.0000625
-        seph.af0 = af0*self.P2_31
-        seph.af1 = af1*self.P2_40
+        seph.af0 = af0*rCST.P2_31
+        seph.af1 = af1*rCST.P2_40
         week, tow = time2gpst(self.time)
-        tod = (tow//86400)*86400
-        seph.t0 = gpst2time(week, toc+tod)
+        tod = tow % 86400.0
+        tow -= tod
+        if toc < tod-43200.0:
+            toc += 86400.0
+        elif toc > tod+43200.0:
+            toc -= 86400.0
+        seph.t0 = gpst2time(week, tow+toc)
+        seph.tof = self.time
         seph.mode = 0
 
         return i, seph
-- 
2.43.0


From 92df55f0eb22a92eb87b6b14f032c4290b49df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 083/215] fix: skipped RTCM messages return the same tuple as
 decoded ones

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 543e973..7d8b262 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3994,7 +3994,7 @@ class rtcm(cssr, rtcmUtil):
         self.subtype = subtype
 
         if self.msgtype in self.mt_skip:
-            return i
+            return i, obs, eph, geph, seph
 
         # SSR messages
         if self.msgtype in (1057, 1063, 1240, 1246, 1252, 1258):
-- 
2.43.0


From a1ecbbbc64b12dc7a0413a7b12492da8a2c6f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 084/215] fix: MSM epochs of GLONASS and BDS near the week
 boundary were off by a week

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 7d8b262..1483d86 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2268,9 +2268,11 @@ class rtcm(cssr, rtcmUtil):
             tow = (t & 0x7ffffff)*1e-3
             time = gpst2time(week, tow+dow*86400.0)
             time = utc2gpst(timeadd(time, -10800.0))
+            time = gpst2time(week, time2gpst(time)[1])
         elif sys == uGNSS.BDS:
             tow = t*1e-3
             time = bdt2gpst(gpst2time(week, tow))
+            time = gpst2time(week, time2gpst(time)[1])
         else:
             tow = t*1e-3
             time = gpst2time(week, tow)
-- 
2.43.0


From 1a066927045e2613c5f3925be4633210ddb95408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 085/215] fix: rough ranges of MSM1-3 are given modulo 1 ms in
 units of 2^-10 ms

---
 src/cssrlib/rtcm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1483d86..d7b3f9b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2331,9 +2331,7 @@ class rtcm(cssr, rtcmUtil):
         # satellite part
         if msm >= 1 and msm <= 3:
             for k in range(self.nsat):
-                v = bs.unpack_from('u10', msg, i)[0]
-                if v != 2**10-1:
-                    r[k] = v*rms
+                r[k] = bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
         else:
             for k in range(self.nsat):
-- 
2.43.0


From 142eaf0813b67f0280fc171714789202144abd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 086/215] fix: MSM with too many cells broke the RTCM decoder

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d7b3f9b..b902ae6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2304,7 +2304,7 @@ class rtcm(cssr, rtcmUtil):
         sz = self.nsat*self.nsig
 
         if sz > 64:
-            return -1
+            return i, None
         ncell = 0
         self.sig_n = []
         for k in range(self.nsat):
-- 
2.43.0


From aae3ad1a21b493415fc74b1c8d282e5ac8eaeb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 087/215] fix: invalid ranges in MSM were returned as tiny or
 not-a-number observations

---
 src/cssrlib/rtcm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index b902ae6..b752947 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2336,16 +2336,14 @@ class rtcm(cssr, rtcmUtil):
         else:
             for k in range(self.nsat):
                 v = bs.unpack_from('u8', msg, i)[0]
-                if v != 2**8-1:
-                    r[k] = v*rms
+                r[k] = v*rms if v != 2**8-1 else np.nan
                 i += 8
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
                     ex[k] = bs.unpack_from('u4', msg, i)[0]
                     i += 4
             for k in range(self.nsat):
-                if r[k] != 0.0:
-                    r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
+                r[k] += bs.unpack_from('u10', msg, i)[0]*rCST.P2_10*rms
                 i += 10
             if msm == 5 or msm == 7:
                 for k in range(self.nsat):
@@ -2443,8 +2441,9 @@ class rtcm(cssr, rtcmUtil):
 
             ofst += nsig_
 
-            obs.P[k, :] = pr_
-            obs.L[k, :] = cp_
+            # zero for invalid ranges
+            obs.P[k, :] = np.nan_to_num(pr_)
+            obs.L[k, :] = np.nan_to_num(cp_)
             obs.S[k, :] = cn_
             obs.sat[k] = sat_
 
-- 
2.43.0


From 4b101c716013ea294f186cf2adfe3fba74e93d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 088/215] fix: GLONASS MSM without frequency channel was
 converted with a wrong carrier frequency

---
 src/cssrlib/rtcm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index b752947..32a09a7 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2323,7 +2323,7 @@ class rtcm(cssr, rtcmUtil):
         cnr = np.zeros(ncell)
         rrf = np.zeros(ncell)
 
-        ex = np.zeros(self.nsat, dtype=int)
+        ex = np.full(self.nsat, 15, dtype=int)  # 15: not available
         rr = np.zeros(self.nsat)
 
         rms = rCST.CLIGHT*1e-3
@@ -2421,7 +2421,7 @@ class rtcm(cssr, rtcmUtil):
             hf_ = np.zeros(self.nsig, dtype=np.int32)
             cn_ = np.zeros(self.nsig, dtype=np.float64)
 
-            fcn = 0
+            fcn = None
             if sys == uGNSS.GLO:
                 if ex[k] <= 13:
                     fcn = ex[k]-7
@@ -2432,6 +2432,8 @@ class rtcm(cssr, rtcmUtil):
                     freq = obs.sig[sys][uTYP.C][idx].frequency()
                 else:
                     freq = obs.sig[sys][uTYP.C][idx].frequency(fcn)
+                    if freq is None:  # unknown frequency channel
+                        freq = 0.0
 
                 pr_[idx] = pr[j+ofst]+r[k]
                 cp_[idx] = (cp[j+ofst]+r[k])*freq/rCST.CLIGHT
-- 
2.43.0


From c1248e419f17e56cca27d5c5a755196b7399dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 089/215] fix: loss of lock and half-cycle indicators of MSM
 were never set

---
 src/cssrlib/rtcm.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 32a09a7..502ce80 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2413,7 +2413,8 @@ class rtcm(cssr, rtcmUtil):
         ofst = 0
         for k in range(self.nsat):
             sat_ = prn2sat(sys, prn[k])
-            nsig_ = len(self.sig_n[k])
+            sig_n_k = self.sig_n[k]
+            nsig_ = len(sig_n_k)
 
             pr_ = np.zeros(self.nsig, dtype=np.float64)
             cp_ = np.zeros(self.nsig, dtype=np.float64)
@@ -2449,18 +2450,15 @@ class rtcm(cssr, rtcmUtil):
             obs.S[k, :] = cn_
             obs.sat[k] = sat_
 
-            if sat_ in self.lock:
-                for j, ll in enumerate(ll_):
-                    if sig[j] not in self.sig_n:
-                        continue
-                    idx = sig.index(sig[j])
-                    ll_p = self.lock[sat_][j]
-                    if (ll == 0 & ll_p != 0) | ll < ll_p:
+            if msm > 1:
+                lock_ = self.lock.setdefault(sat_, {})
+                for j in sig_n_k:
+                    idx = sig.index(j)
+                    if j in lock_ and ll_[idx] < lock_[j]:
                         obs.lli[k, idx] |= 1
-                    if hf_[j] > 0:
+                    if hf_[idx] > 0:
                         obs.lli[k, idx] |= 3
-
-            self.lock[sat_] = ll_
+                    lock_[j] = ll_[idx]
 
         return i, obs
 
-- 
2.43.0


From 86b03b603d695b0739cd5eefd947f33e0ce7ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 090/215] fix: epoch of MSM observations was not set in obs.t

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 502ce80..4dc4387 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2392,6 +2392,7 @@ class rtcm(cssr, rtcmUtil):
 
         obs = Obs()
         obs.time = self.time
+        obs.t = self.time
 
         obs.P = np.zeros((self.nsat, self.nsig), dtype=np.float64)
         obs.L = np.zeros((self.nsat, self.nsig), dtype=np.float64)
-- 
2.43.0


From 6ec7247b65d7829da7dd9659beecda4c39d2da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 091/215] fix: width of the Cus field of RTCM BDS ephemerides

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4dc4387..8dc34c9 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2817,8 +2817,8 @@ class rtcm(cssr, rtcmUtil):
         i += 5+17+11+22+24
         aodc, crs, deln, M0, cuc = bs.unpack_from('u5s18s16s32s18', msg, i)
         i += 5+18+16+32+18
-        e, cus, Asq, toe, cic = bs.unpack_from('u32s16u32u17s18', msg, i)
-        i += 32+16+32+17+18
+        e, cus, Asq, toe, cic = bs.unpack_from('u32s18u32u17s18', msg, i)
+        i += 32+18+32+17+18
         Omg0, cis, i0, crc, omg = bs.unpack_from('s32s18s32s18s32', msg, i)
         i += 32+18+32+18+32
         OMGd, tgd1, tgd2, svh = bs.unpack_from('s24s10s10u1', msg, i)
-- 
2.43.0


From 5e2ccd56fe4c37cb99dba711ee7b24c4bf61930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 092/215] fix: incomplete RTCM frames at the end of a buffer
 raised an exception

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 8dc34c9..c5f1a30 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -970,6 +970,8 @@ class rtcm(cssr, rtcmUtil):
 
     def checksum(self, msg, k, maxlen=0):
         """ check the checksum of the message """
+        if len(msg) < k+6:
+            return False
         len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff
         if len_ < 6:
             return False
-- 
2.43.0


From a164a9b0fef80c582535ef6d8058ea4b2e6230bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 093/215] fix: GLONASS MSM epochs in a week with a leap second

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c5f1a30..68802d5 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -2268,8 +2268,8 @@ class rtcm(cssr, rtcmUtil):
         if sys == uGNSS.GLO:
             dow = (t >> 27) & 0x1f
             tow = (t & 0x7ffffff)*1e-3
-            time = gpst2time(week, tow+dow*86400.0)
-            time = utc2gpst(timeadd(time, -10800.0))
+            time = gpst2time(week, (tow+dow*86400.0-10800.0) % 604800.0)
+            time = utc2gpst(time)
             time = gpst2time(week, time2gpst(time)[1])
         elif sys == uGNSS.BDS:
             tow = t*1e-3
-- 
2.43.0


From 0b07703cbb63a0a547dde54f4d212afbe0608cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 094/215] fix: resolution of the RTCM SSR clock drift terms
 (DF377, DF378)

---
 src/cssrlib/rtcm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 68802d5..09e696a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1084,8 +1084,8 @@ class rtcm(cssr, rtcmUtil):
         dclk, ddclk, dddclk = bs.unpack_from('s22s21s27', msg, i)
         i += 70
         self.dclk_n[k] = self.sval(dclk, 22, 0.1e-3)
-        self.ddclk_n[k] = self.sval(ddclk, 21, 0.4e-3)
-        self.dddclk_n[k] = self.sval(dddclk, 27, 4e-6)
+        self.ddclk_n[k] = self.sval(ddclk, 21, 1e-6)
+        self.dddclk_n[k] = self.sval(dddclk, 27, 2e-8)
         return i
 
     def decode_hclk_sat(self, msg, i, k, inet=0):
@@ -4638,8 +4638,8 @@ class rtcme(cssre, rtcmUtil):
         dclk = self.ival(self.lc[inet].dclk[sat], 22, 0.1e-3)
 
         if self.lc[inet].ddclk is not None:
-            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 0.4e-3)
-            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 4e-6)
+            ddclk = self.ival(self.lc[inet].ddclk[sat], 21, 1e-6)
+            dddclk = self.ival(self.lc[inet].dddclk[sat], 27, 2e-8)
         else:
             ddclk, dddclk = 0, 0
 
-- 
2.43.0


From bf4e6e245747c631dc0d9b97a22c9cc46052dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 095/215] fix: RTCM SSR biases were keyed by string instead of
 the signal

---
 src/cssrlib/rtcm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 09e696a..38e1de6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1206,7 +1206,7 @@ class rtcm(cssr, rtcmUtil):
                 sig, cb = bs.unpack_from('u5s14', msg, i)
                 i += 19
 
-                rsig = self.ssig2rsig(sys, uTYP.C, sig).str()
+                rsig = self.ssig2rsig(sys, uTYP.C, sig)
                 self.lc[inet].cbias[sat_][rsig] = self.sval(cb, 14, 0.01)
 
         self.iodssr_c[sCType.CBIAS] = v['iodssr']
@@ -1271,7 +1271,7 @@ class rtcm(cssr, rtcmUtil):
                 sig, si = bs.unpack_from('u5b1', msg, i)
                 i += 6
 
-                rsig = self.ssig2rsig(sys, uTYP.L, sig).str()
+                rsig = self.ssig2rsig(sys, uTYP.L, sig)
                 if self.subtype != sRTCM.SSR_PBIAS:  # IGS-SSR
                     wl = bs.unpack_from('u2', msg, i)[0]
                     i += 2
@@ -1742,7 +1742,8 @@ class rtcm(cssr, rtcmUtil):
                 self.fh.write(" {:s}\t".format(sat2id(sat_)))
                 for sig in self.lc[0].cbias[sat_].keys():
                     self.fh.write("{:s}\t{:5.2f}\t"
-                                  .format(sig, self.lc[0].cbias[sat_][sig]))
+                                  .format(sig.str(),
+                                          self.lc[0].cbias[sat_][sig]))
                 self.fh.write("\n")
 
         if self.subtype in [sCSSR.PBIAS, sCSSR.BIAS, sRTCM.SSR_PBIAS]:
@@ -1769,7 +1770,8 @@ class rtcm(cssr, rtcmUtil):
 
                 for sig in self.lc[inet].pbias[sat_].keys():
                     self.fh.write("{:s}\t{:7.4f}\t{:1d}\t{:2d}\t"
-                                  .format(sig, self.lc[inet].pbias[sat_][sig],
+                                  .format(sig.str(),
+                                          self.lc[inet].pbias[sat_][sig],
                                           self.lc[inet].si[sat_][sig],
                                           self.lc[inet].di[sat_][sig]))
                 self.fh.write("\n")
-- 
2.43.0


From 52e22c558b0d59715f722c8754d66d0e227a53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 096/215] fix: RTCM SSR signal 2 of QZSS is L1C (P)

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 38e1de6..d2844e0 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -570,7 +570,7 @@ class rtcmUtil:
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
@@ -923,7 +923,7 @@ class rtcm(cssr, rtcmUtil):
         qzs_tbl = {
             0: uSIG.L1C,
             1: uSIG.L1S,
-            2: uSIG.L1C,
+            2: uSIG.L1L,
             3: uSIG.L2S,
             4: uSIG.L2L,
             5: uSIG.L2X,
-- 
2.43.0


From 655defce37fe7c8ee6750c64aa6ad0fe0cea120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 097/215] fix: work array of RTCM SSR high-rate clock was not
 allocated

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d2844e0..b94a698 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1381,6 +1381,7 @@ class rtcm(cssr, rtcmUtil):
         i, v = self.decode_head(msg, i, sys)
         # if self.iodssr != v['iodssr']:
         #    return -1
+        self.dclk_n = np.zeros(v['nsat'])
 
         if timediff(self.time, self.lc[inet].t0s[sCType.HCLOCK]) > 0:
             self.lc[inet].hclk = {}
-- 
2.43.0


From aed13540521a3050bc1bf0c42e6679e0df79ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 098/215] fix: outdated phase biases of a network were kept
 (RTCM SSR)

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index b94a698..ae1e18e 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1224,6 +1224,8 @@ class rtcm(cssr, rtcmUtil):
         # if self.iodssr != v['iodssr']:
         #    return -1
 
+        inet = self.inet
+
         if timediff(self.time, self.lc[inet].t0s[sCType.PBIAS]) > 0:
             self.sat_b = []
             self.lc[inet].pbias = {}
@@ -1236,8 +1238,6 @@ class rtcm(cssr, rtcmUtil):
         self.mi = v['mi']
         self.iyaw = v['iyaw'] if 'iyaw' in v.keys() else True
 
-        inet = self.inet
-
         for k in range(nsat):
             i, sat_ = self.decode_sat(msg, i, sys)
             self.set_t0(inet, sat_, sCType.PBIAS, self.time)
-- 
2.43.0


From effd0ca2ca3bc85b24bed09cfb4bc4cb021200c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 099/215] fix: position of the datum flag in the IGS SSR header

---
 src/cssrlib/rtcm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ae1e18e..d29d1c2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1004,13 +1004,20 @@ class rtcm(cssr, rtcmUtil):
             i += 5
             v = {'udi': udi, 'mi': mi}
 
-        if self.subtype in (sCSSR.ORBIT, sCSSR.COMBINED):
+        # in IGS-SSR, datum (IDF006) follows the solution ID (IDF009)
+        flg_datum = self.subtype in (sCSSR.ORBIT, sCSSR.COMBINED)
+
+        if flg_datum and self.msgtype != 4076:
             self.datum = bs.unpack_from('u1', msg, i)[0]
             i += 1
 
         iodssr, pid, sid = bs.unpack_from('u4u16u4', msg, i)
         i += 24
 
+        if flg_datum and self.msgtype == 4076:
+            self.datum = bs.unpack_from('u1', msg, i)[0]
+            i += 1
+
         v['iodssr'] = iodssr
         self.pid = pid
         self.sid = sid
-- 
2.43.0


From 8e17106f7d76e762f503d6cb475678cab78dba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 100/215] fix: epoch of IGS SSR messages in decode_time

---
 src/cssrlib/rtcm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index d29d1c2..47e6179 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1536,6 +1536,8 @@ class rtcm(cssr, rtcmUtil):
         sys, ssr = self.ssrtype(self.msgtype)
         if ssr > 0 or self.msgtype == 4076:
             sz = 20 if self.msgtype == 4076 or sys != uGNSS.GLO else 17
+            if self.msgtype == 4076:  # skip version, subtype
+                i += 11
             tow = bs.unpack_from('u'+str(sz), msg, i)[0]
             if sys == uGNSS.GLO:
                 t = glo2time(self.time, tow)
-- 
2.43.0


From cbcfe6d1471388866c3ba2c065953088b374e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 101/215] fix: extended phase bias messages raised an
 exception, applied to all systems

---
 src/cssrlib/rtcm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 47e6179..31f8fba 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -999,6 +999,7 @@ class rtcm(cssr, rtcmUtil):
             i += 20               
             self.time = gpst2time(self.week, self.tow)
 
+        v = {}
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             udi, mi = bs.unpack_from('u4b1', msg, i)
             i += 5
@@ -3213,8 +3214,10 @@ class rtcm(cssr, rtcmUtil):
         if iexpb != self.iexpb:
             return -1
 
-        self.lc[inet].wl = {}
+        inet = self.inet
         for sat_ in self.lc[inet].pbias.keys():
+            if sat2prn(sat_)[0] != sys:
+                continue
             self.lc[inet].wl[sat_] = {}
             for rsig in self.lc[inet].pbias[sat_].keys():
                 wl = bs.unpack_from('u2', msg, i)[0]
-- 
2.43.0


From 7ffdbd15e34e3f411a77ca2ba0d1ef529287b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 102/215] fix: IGS SSR VTEC messages with coefficients raised
 an exception

---
 src/cssrlib/rtcm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 31f8fba..4a971b2 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1428,19 +1428,18 @@ class rtcm(cssr, rtcmUtil):
             s = np.zeros((n+1, m+1))
             for j in range(m+1):
                 for l_ in range(j, n+1):
-                    c_ = bs.unpack_from('s16', msg, i)
+                    c_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     c[l_, j] = self.sval(c_, 16, 5e-3)
 
             for j in range(1, m+1):
                 for l_ in range(j, n+1):
-                    s_ = bs.unpack_from('s16', msg, i)
+                    s_ = bs.unpack_from('s16', msg, i)[0]
                     i += 16
                     s[l_, j] = self.sval(s_, 16, 5e-3)
 
         self.iodssr_c[sCType.VTEC] = v['iodssr']
         self.lc[inet].cstat |= (1 << sCType.VTEC)
-        self.lc[inet].t0[sCType.VTEC] = self.time
         self.set_t0(ctype=sCType.VTEC, t=self.time)
 
         return i
-- 
2.43.0


From 2ba2c5e8acecd63a992d6a79ce725920692934ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 103/215] fix: BDS SSR orbit test message was decoded as
 ephemeris

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4a971b2..1b3432f 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4061,7 +4061,7 @@ class rtcm(cssr, rtcmUtil):
         elif self.msgtype == 1041:
             self.subtype = sRTCM.IRN_EPH
             i, eph = self.decode_irn_eph(msg, i)
-        elif self.msgtype == 1042 or self.msgtype == 63:
+        elif self.msgtype == 1042:
             self.subtype = sRTCM.BDS_EPH
             i, eph = self.decode_bds_eph(msg, i)
         elif self.msgtype == 1043:
-- 
2.43.0


From e474ead58b00eed3d618b08d31ec5079ab5892aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 104/215] fix: SSR tropospheric message without residuals
 raised an exception

---
 src/cssrlib/rtcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 1b3432f..c43fd75 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3268,6 +3268,9 @@ class rtcm(cssr, rtcmUtil):
         # west-east gradient c10 [m/deg]
         ct[1, 2] = self.sval(ct10w, 15, 0.01e-3)
 
+        rh, rw = None, None
+        ofst, ng = 0, 0
+
         if rmi:  # residual information part
             ofst, ng, n, m = bs.unpack_from('u12u12u4u4', msg, i)
             i += 32
-- 
2.43.0


From f5a6b376a48cb53eece3a9dd2acadc9559e3c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 105/215] fix: SSR ionospheric message of a system removed the
 STEC of the other systems

---
 src/cssrlib/rtcm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c43fd75..c2fdf17 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3324,14 +3324,17 @@ class rtcm(cssr, rtcmUtil):
             sat[k] = self.svid2sat(sys, svid[k])
 
         inet = self.gid
-        self.lc[inet].sat_n = sat
+        # corrections of the other systems on this grid remain valid
+        lc = self.lc[inet]
+        lc.sat_n = [s for s in lc.sat_n if sat2prn(s)[0] != sys]+list(sat)
 
         if self.pmi:  # polynomial model information part
             self.pgi = bs.unpack_from('b1', msg, i)[0]
             i += 1
             sz = 3 if self.pgi else 1
-            self.lc[inet].ci = {}
-            self.lc[inet].stype = {}
+            ci = lc.ci if lc.ci is not None else {}
+            lc.ci = {s: v for s, v in ci.items() if sat2prn(s)[0] != sys}
+            lc.stype = {s: lc.stype[s] for s in lc.ci}
             for k in range(nsat):
                 sat_ = sat[k]
                 self.lc[inet].ci[sat_] = np.zeros(sz)
@@ -3360,7 +3363,9 @@ class rtcm(cssr, rtcmUtil):
             else:
                 scl = 1.0
 
-            self.lc[inet].dstec = {}
+            dstec = getattr(lc, 'dstec', None) or {}
+            lc.dstec = {s: v for s, v in dstec.items()
+                        if sat2prn(s)[0] != sys}
             fmt = 's'+str(rlen)
 
             for k in range(nsat):
-- 
2.43.0


From 7edd3f37ad3f0494180a962ab8a9ea72603ae0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 106/215] fix: numbering of the points of SSR grids without
 height

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c2fdf17..294c67c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3137,14 +3137,14 @@ class rtcm(cssr, rtcmUtil):
             self.pos0 = np.array([lat, lon, 0])
             self.ofst = ofst
 
-            for k in range(npnt):
+            for k in range(ofst, ofst+npnt):
                 dlat, dlon = bs.unpack_from('s13s14', msg, i)
                 i += 27
                 dlat_s = self.sval(dlat, 13, 1e-3)
                 dlon_s = self.sval(dlon, 14, 1e-3)
                 lat += dlat_s
                 lon += dlon_s
-                d = np.array([(gid, k, lat, lon, 0)], dtype=dtype0)
+                d = np.array([(gid, k+1, lat, lon, 0)], dtype=dtype0)
                 self.grid = np.append(self.grid, d)
                 self.dpos[k-ofst, :] = (dlat_s, dlon_s, 0)
 
-- 
2.43.0


From bb0b3b418b9afa4fc74f11a72b2b1087ab6f6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 107/215] fix: outdated clock corrections with combined SSR
 messages

---
 src/cssrlib/rtcm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 294c67c..60f9e63 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1312,13 +1312,15 @@ class rtcm(cssr, rtcmUtil):
         self.ddclk_n = np.zeros(nsat)
         self.dddclk_n = np.zeros(nsat)
 
+        if timediff(self.time, self.lc[inet].t0s[sCType.CLOCK]) > 0:
+            self.lc[inet].dclk = {}
+            self.lc[inet].ddclk = {}
+            self.lc[inet].dddclk = {}
+
         if timediff(self.time, self.lc[inet].t0s[sCType.ORBIT]) > 0:
             self.nsat_n = 0
             self.sys_n = []
             self.sat_n = []
-            self.lc[inet].dclk = {}
-            self.lc[inet].ddclk = {}
-            self.lc[inet].dddclk = {}
             self.lc[inet].iode = {}
             self.lc[inet].dorb = {}
             self.lc[inet].ddorb = {}
@@ -1354,6 +1356,7 @@ class rtcm(cssr, rtcmUtil):
         self.lc[inet].cstat |= (1 << sCType.ORBIT)
         self.lc[inet].cstat |= (1 << sCType.CLOCK)
         self.lc[inet].t0s[sCType.ORBIT] = self.time
+        self.lc[inet].t0s[sCType.CLOCK] = self.time
 
         return i
 
-- 
2.43.0


From aafdc2eb7043b9b0a7d864ce033d78b5e61f216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 108/215] fix: logging of high-rate clock and antenna SSR
 messages raised an exception

---
 src/cssrlib/rtcm.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 60f9e63..755331c 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -315,6 +315,7 @@ class rtcmUtil:
     sc_t = {sCSSR.ORBIT: sCType.ORBIT, sCSSR.CLOCK: sCType.CLOCK,
             sCSSR.MASK: sCType.MASK, sCSSR.CBIAS: sCType.CBIAS,
             sCSSR.PBIAS: sCType.PBIAS, sCSSR.URA: sCType.URA,
+            sCSSR.HCLOCK: sCType.HCLOCK,
             sCSSR.GRID: sCType.TROP, sCSSR.STEC: sCType.STEC,
             sCSSR.COMBINED: sCType.OC,
             sRTCM.SSR_PBIAS: sCType.PBIAS,
@@ -1653,7 +1654,7 @@ class rtcm(cssr, rtcmUtil):
         if self.msgtype == 4076: # IGS-SSR
             self.fh.write(f" Message Type: IGS-SSR {self.igsssrt_t[self.subtype]} {sys2str(self.sysref)}\n")
 
-        if sys > 0 and self.subtype not in [None, sRTCM.SSR_META, sRTCM.SSR_GRID]:
+        if sys > 0 and self.subtype in self.sc_t:
             j = self.sc_t[self.subtype]
             self.fh.write(f" Update Interval: {self.udint_t[self.udi[j]]}[s]")
             self.fh.write(f" MultiMsg: {self.mi}\n")
@@ -1661,6 +1662,16 @@ class rtcm(cssr, rtcmUtil):
         if self.subtype == sCSSR.CLOCK:
             self.out_log_ssr_clk(sys)
 
+        if self.subtype == sCSSR.HCLOCK:
+            self.fh.write(f" IODSSR:{self.iodssr} ProvID:{self.pid} " +
+                          f"SolID:{self.sid}\n")
+            self.fh.write(" {:s}\t{:s}\n".format("SatID", "hclk [m]"))
+            for sat_ in self.lc[0].hclk:
+                sys_, _ = sat2prn(sat_)
+                if sys_ == sys:
+                    self.fh.write(" {:s}\t{:8.4f}\n".format(
+                        sat2id(sat_), self.lc[0].hclk[sat_]))
+
         if self.subtype == sCSSR.ORBIT:
             self.out_log_ssr_orb(sys)
 
@@ -4044,7 +4055,7 @@ class rtcm(cssr, rtcmUtil):
             self.subtype = sCSSR.URA
             i = self.decode_cssr_ura(msg, i)
         elif self.msgtype in (1062, 1068, 1245, 1251, 1257, 1263):
-            self.subtype = sCSSR.CLOCK
+            self.subtype = sCSSR.HCLOCK
             i = self.decode_cssr_hclk(msg, i)
         elif self.msgtype == 4076:  # IGS SSR
             i = self.decode_igsssr(msg, i)
@@ -4107,7 +4118,7 @@ class rtcm(cssr, rtcmUtil):
             self.subtype = sCSSR.URA
             i = self.decode_cssr_ura(msg, i)
         elif self.msgtype in [1062, 46, 77, 78, 79]:
-            self.subtype = sCSSR.CLOCK
+            self.subtype = sCSSR.HCLOCK
             i = self.decode_cssr_hclk(msg, i)
         elif self.msgtype in [1059, 43, 68, 69, 70]:
             self.subtype = sCSSR.CBIAS
-- 
2.43.0


From 1cb76c8cbe2069b5b141ed634dc55e53555e5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 109/215] fix: satellite ID of GLONASS and SBAS in encoded SSR
 messages

---
 src/cssrlib/rtcm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 755331c..6165eab 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4616,15 +4616,16 @@ class rtcme(cssre, rtcmUtil):
     def encode_sat(self, msg, i, sat):
         """ encode satellite id """
 
-        sys, prn = sat2prn(sat)
-        svid = prn
+        sys, _ = sat2prn(sat)
+        svid = self.sat2svid(sat)
 
         if self.msgtype == 4076:
             blen = 6
         else:
-            if sys == uGNSS.QZS:
+            if sys == uGNSS.GLO:
+                blen = 5
+            elif sys == uGNSS.QZS:
                 blen = 4
-                svid = prn-192
             else:
                 blen = 6
 
-- 
2.43.0


From af7267f84386bc6542d4efeda35df124c0aa37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 110/215] fix: epoch of encoded GLONASS SSR messages

---
 src/cssrlib/rtcm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 6165eab..250a9ff 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4204,6 +4204,7 @@ class rtcme(cssre, rtcmUtil):
         self.pid = 0  # SSR Provider ID
         self.sid = 0  # SSR Solution Type
 
+        self.week = 0  # GPS week number
         self.mi = False  # multiple message bit
         self.iods = 0  # issue of data station
         self.refid = 0  # reference station ID
@@ -4571,11 +4572,14 @@ class rtcme(cssre, rtcmUtil):
     def encode_head(self, msg, i, sys=uGNSS.NONE):
         """ encode the header of ssr message """
         if self.msgtype == 4076 or sys != uGNSS.GLO:
-            blen = 20
+            bs.pack_into('u20', msg, i, self.tow)
+            i += 20
         else:
-            blen = 17
-        bs.pack_into('u'+str(blen), msg, i, self.tow)
-        i += blen
+            # GLONASS epoch: time of day in UTC(SU)+3h
+            time = gpst2utc(gpst2time(self.week, self.tow))
+            _, tow = time2gpst(timeadd(time, 10800.0))
+            bs.pack_into('u17', msg, i, self.round_i(tow) % 86400)
+            i += 17
 
         if self.subtype not in [sRTCM.SSR_PBIAS_EX]:
             bs.pack_into('u4b1', msg, i, self.udi[self.sc_t[self.subtype]],
-- 
2.43.0


From 319f1a9d768ed057af060a0338f58e69d0edbf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 111/215] fix: number of satellites in encoded SSR code bias
 and URA messages

---
 src/cssrlib/rtcm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 250a9ff..0d725fa 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4604,8 +4604,14 @@ class rtcme(cssre, rtcmUtil):
 
         if self.subtype not in [sCSSR.VTEC, sRTCM.SSR_PBIAS, sRTCM.SSR_STEC,
                                 sRTCM.SSR_TROP]:
+            if self.subtype == sCSSR.CBIAS:
+                sat_n = self.lc[0].cbias
+            elif self.subtype == sCSSR.URA:
+                sat_n = self.lc[0].ura
+            else:
+                sat_n = self.sat_n
             nsat = 0
-            for sat in self.sat_n:
+            for sat in sat_n:
                 sys_, _ = sat2prn(sat)
                 if sys_ != sys:
                     continue
-- 
2.43.0


From 4b7a50a754396c7d6e869f25c3140540abc77868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 112/215] fix: encoded SSR code biases and yaw angles were
 truncated instead of rounded

---
 src/cssrlib/rtcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0d725fa..ec9e7fe 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4769,7 +4769,7 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             for rsig_ in cbias:
-                cb = int(cbias[rsig_]/0.01)
+                cb = self.ival(cbias[rsig_], 14, 0.01)
                 code = self.rsig2code(rsig_)
                 bs.pack_into('u5s14', msg, i, code, cb)
                 i += 19
@@ -4802,8 +4802,8 @@ class rtcme(cssre, rtcmUtil):
             i += 5
 
             if sat in self.lc[inet].yaw:
-                yaw = int(self.lc[inet].yaw[sat]*256.0)
-                dyaw = int(self.lc[inet].dyaw[sat]*8192.0)
+                yaw = round(self.lc[inet].yaw[sat]*256.0) % 512
+                dyaw = self.ival(self.lc[inet].dyaw[sat], 8, 1.0/8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
                 i += 17
 
-- 
2.43.0


From eac3b02516886b6fa2b12bce3cf90c365e72332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 113/215] fix: yaw fields of encoded SSR phase bias messages
 did not follow the indicator

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index ec9e7fe..dcbc213 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4801,7 +4801,7 @@ class rtcme(cssre, rtcmUtil):
             bs.pack_into('u5', msg, i, nsig)
             i += 5
 
-            if sat in self.lc[inet].yaw:
+            if self.subtype != sRTCM.SSR_PBIAS or self.iyaw:
                 yaw = round(self.lc[inet].yaw[sat]*256.0) % 512
                 dyaw = self.ival(self.lc[inet].dyaw[sat], 8, 1.0/8192.0)
                 bs.pack_into('u9s8', msg, i, yaw, dyaw)
-- 
2.43.0


From 021abfa190a2044bcda758af3e6593ef1bc63876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 114/215] fix: encoded SSR STEC residuals were truncated
 instead of rounded

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index dcbc213..c465f38 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4967,7 +4967,7 @@ class rtcme(cssre, rtcmUtil):
             if rlen > 0:
                 # Zenith-mapped STEC Grid Point Residual
                 # Resolution Scale Factor Exponent
-                sf = np.log(scl/1e-3)/np.log(2)
+                sf = round(np.log2(scl/1e-3))
                 bs.pack_into('u3', msg, i, sf)  # DF+073
                 i += 3
 
@@ -4981,7 +4981,7 @@ class rtcme(cssre, rtcmUtil):
                         dlon = grid[j]['lon']-lon0
                         dstec += [dlat*dlon, dlat**2, dlon**2]@ci[3:]
 
-                    res = int(dstec/scl)
+                    res = self.ival(dstec, rlen, scl)
                     bs.pack_into(fmt, msg, i, res)
                     i += rlen
 
-- 
2.43.0


From 5bcfe0e35b473d4a1e78fe6643568a7466106aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 115/215] fix: encoder of combined and high-rate clock SSR
 messages was missing

---
 src/cssrlib/rtcm.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index c465f38..292c848 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4733,6 +4733,35 @@ class rtcme(cssre, rtcmUtil):
 
         return i
 
+    def encode_cssr_comb(self, msg, i, inet=0):
+        """ encode RTCM SSR Combined Orbit and Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_orb_sat(msg, i, sat)
+            i = self.encode_clk_sat(msg, i, sat)
+
+        return i
+
+    def encode_cssr_hclk(self, msg, i, inet=0):
+        """ encode RTCM SSR High-rate Clock Correction message """
+        sys = self.get_ssr_sys(self.msgtype)
+        i = self.encode_head(msg, i, sys)
+
+        for sat in self.sat_n:
+            sys_, _ = sat2prn(sat)
+            if sys_ != sys:
+                continue
+            i = self.encode_sat(msg, i, sat)
+            i = self.encode_hclk_sat(msg, i, sat)
+
+        return i
+
     def encode_cssr_ura(self, msg, i, inet=0):
         """ encode RTCM SSR URA message """
         sys = self.get_ssr_sys(self.msgtype)
-- 
2.43.0


From 32541361bbe7b25446f4e92f84e366df642a19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 116/215] fix: encoded SSR grid points accumulated truncation
 errors

---
 src/cssrlib/rtcm.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 292c848..8e592e8 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -4492,9 +4492,9 @@ class rtcme(cssre, rtcmUtil):
         if self.gtype == 0:  # grid type 0
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
-            alt_i = int((alt+1000)/12.5)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
+            alt_i = round((alt+1000)/12.5)
 
             # Latitude of Reference Point DF+024
             # Longitude of Reference Point DF+025
@@ -4506,16 +4506,13 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, alt_ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                dalt = alt_-alt
-                lat = lat_
-                lon = lon_
-                alt = alt_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
-                dalt_i = int(dalt/12.5)
+                # difference of rounded values to avoid error accumulation
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                dalt_i = round((alt_+1000)/12.5)-alt_i
+                lat_i += dlat_i
+                lon_i += dlon_i
+                alt_i += dalt_i
 
                 bs.pack_into('s13s14s9', msg, i, dlat_i, dlon_i, dalt_i)
                 i += 36
@@ -4523,8 +4520,8 @@ class rtcme(cssre, rtcmUtil):
         elif self.gtype == 1:  # grid type 1
             gid, ofst, lat, lon, alt = grid[0]
 
-            lat_i = int(lat/1e-3)
-            lon_i = int(lon/1e-3)
+            lat_i = round(lat/1e-3)
+            lon_i = round(lon/1e-3)
 
             bs.pack_into('s18s19u12u8', msg, i, lat_i, lon_i,
                          self.ofst, self.ng-1)
@@ -4532,13 +4529,10 @@ class rtcme(cssre, rtcmUtil):
 
             for k in range(1, self.ng):
                 gid, ofst, lat_, lon_, _ = grid[k]
-                dlat = lat_-lat
-                dlon = lon_-lon
-                lat = lat_
-                lon = lon_
-
-                dlat_i = int(dlat/1e-3)
-                dlon_i = int(dlon/1e-3)
+                dlat_i = round(lat_/1e-3)-lat_i
+                dlon_i = round(lon_/1e-3)-lon_i
+                lat_i += dlat_i
+                lon_i += dlon_i
                 bs.pack_into('s13s14', msg, i, dlat_i, dlon_i)
                 i += 27
 
-- 
2.43.0


From 901fc94d683aeef8fe0c6369a6a5e0a2c9cd4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 117/215] fix: logging of phase biases of satellites without
 yaw angle

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 8e592e8..0c73a3a 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -1787,7 +1787,7 @@ class rtcm(cssr, rtcmUtil):
                     continue
                 self.fh.write(" {:s}\t".format(sat2id(sat_)))
 
-                if self.iyaw:
+                if self.iyaw and sat_ in self.lc[inet].yaw:
                     self.fh.write("{:7.4f}\t{:7.4f}\t"
                                   .format(self.lc[inet].yaw[sat_],
                                           self.lc[inet].dyaw[sat_]))
-- 
2.43.0


From 9ef25398597107e21a5f6c01125cb4c374fb0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 118/215] fix: OSNMA receivers shared their message buffers

---
 src/cssrlib/osnma.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 57592c8..03419fd 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -257,6 +257,12 @@ class osnma():
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
         self.cnt = np.zeros(self.GALMAX, dtype=int)
+        self.dsm = {}
+        self.nb = {}
+        self.hk = []
+        self.mack = []
+        self.mack_p = bytearray(60*self.GALMAX)
+        self.mack_c = bytearray(60*self.GALMAX)
         for prn in range(self.GALMAX):
             self.hk.append(bytearray(15))
             self.mack.append(bytearray(60))
-- 
2.43.0


From a4a11d660ad426fffbd7608188f5f88df7ed0bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 119/215] fix: PRN of the satellite was not set in osnma.decode

---
 src/cssrlib/osnma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 03419fd..1de7065 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -838,6 +838,7 @@ class osnma():
             PRN number
         """
         status = False
+        self.prn_a = prn
         ki = (tow % 30)//2
         if ki == 0:  # reset counter
             self.cnt[prn-1] = 0
-- 
2.43.0


From c09b0928f0c9c6a8bda2899f838ea851ae3c543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 120/215] fix: second half of the OSNMA MAC look-up table with
 other than 6 tags

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 1de7065..6368ab3 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -570,7 +570,7 @@ class osnma():
         if self.nt*2 != len(adkd_t):
             return False
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
         for k in range(self.nt-1):
             tag, prn_d, adkd, cop = self.decode_tags_info(k+1)
             i = k + ofst + 1
@@ -599,7 +599,7 @@ class osnma():
             return False
         mode_t = self.mode_t[self.maclt]
         gst_wn, gst_tow_p = bs.unpack_from('u12u20', self.gst_sf_p, 0)
-        ofst = 0 if gst_tow_p % 60 == 0 else 6
+        ofst = 0 if gst_tow_p % 60 == 0 else self.nt
 
         ltag_b = self.tag_len_t[self.ts]//8+2
         for k in range(self.nt):  # add FLEX taginfo
-- 
2.43.0


From 60ed5fd41e08de714342495d6d36bb24bec1c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 121/215] fix: OSNMA key chain and tags across the week
 rollover

---
 src/cssrlib/osnma.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 6368ab3..6a97d1b 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -356,12 +356,10 @@ class osnma():
         """ return next key from key chanin """
         # k_l=trunc(lk,hash(k_l+1||GST_SF_l||alp))
         klen_b = self.klen_t[self.ks]//8
+        t0 = gst_wn*604800 + gst_tow0
         for k in range(ki):
-            gst_tow = gst_tow0 - 30*(k+1)
-            if gst_tow < 0:
-                gst_tow += 86400*7
-                gst_wn -= 1
-            gst = bs.pack('u12u20', gst_wn, gst_tow)
+            wn, tow = divmod(t0-30*(k+1), 604800)
+            gst = bs.pack('u12u20', wn, tow)
             msg = key + gst + self.alp
             key = self.process_hash(msg)[0:klen_b]
         return key
@@ -902,8 +900,9 @@ class osnma():
                 return status
 
             # 6.5 MAC Look-up Table Verification
-            self.gst_tow_p = self.gst_tow-30
-            self.gst_sf_p = self.set_gst_sf(gst_wn, self.gst_tow_p)
+            wn_p, self.gst_tow_p = divmod(
+                gst_wn*604800+self.gst_tow-30, 604800)
+            self.gst_sf_p = self.set_gst_sf(wn_p, self.gst_tow_p)
             result = self.verify_maclt()
             if self.monlevel > 0:
                 s = f"on {wn:4d}/{tow:6d} prn={prn}"\
-- 
2.43.0


From 0d5db0951dacade94dfbda276e3a6e78b1caf9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 122/215] fix: OSNMA keys were accepted if they were consistent
 with an unverified key

---
 src/cssrlib/osnma.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 6a97d1b..887f460 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -368,14 +368,18 @@ class osnma():
         """ verify key chaning """
         if not self.status & uOSNMA.ROOTKEY_VERIFIED:  # root-key verified
             return False
+        # number of sub-frames from the last verified key
+        ki = 0
         if self.status & uOSNMA.KEYCHAIN_VERIFIED:
-            key = self.update_key_chain(key, gst_wn, gst_tow0, 1)
-            result = (key == self.key_p)
+            ki = self.difftime(self.gst_sf, self.gst_sf_c)//30
+        if ki > 0:
+            key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
+            result = (key == self.key)
         else:
             ki = ((gst_wn-self.wn)*86400*7 +
                   (self.gst_tow-self.towh*3600))//30+1
             key = self.update_key_chain(key, gst_wn, gst_tow0, ki)
-            result = (key == self.kroot)
+            result = (ki > 0 and key == self.kroot)
         if result:
             self.status |= uOSNMA.KEYCHAIN_VERIFIED  # key-chain verified
         else:
-- 
2.43.0


From ab9cce2bd7ffca4e4b6c8f095a5114f0e8f7a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 123/215] fix: OSNMA root keys without valid signature replaced
 the verified root key

---
 src/cssrlib/osnma.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 887f460..f64f0a5 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -170,6 +170,7 @@ class osnma():
     alp = bytearray(6)  # seed
     ds = bytearray(64)  # digital signature
     kroot = bytearray(16)  # root key
+    msg_kroot = bytearray(0)  # signed part of DSM-KROOT
     key = bytearray(16)  # key used for authentication
     key_p = bytearray(16)  # previous key
     key_c = bytearray(16)  # current key
@@ -315,11 +316,9 @@ class osnma():
 
     def verify_root_key(self):
         """ verify root key """
-        did = self.did0
         if not self.status & uOSNMA.ROOTKEY_LOADED:  # root key loaded
             return False
-        lk_b = self.klen_t[self.ks]//8
-        msg = bytearray([self.nma_header]) + self.dsm[did][1:13+lk_b]
+        msg = self.msg_kroot
 
         result = False
         hash_func = self.hash_table[self.hf]
@@ -389,7 +388,28 @@ class osnma():
         return result
 
     def decode_dsm_kroot(self, did):
-        """ decode DSM-KROOT """
+        """ decode DSM-KROOT
+
+        a new root key replaces the verified one only if its signature is valid
+        """
+        par = ('pkid', 'cidkr', 'hf', 'mf', 'ks', 'ts', 'maclt', 'wn', 'towh',
+               'alp', 'kroot', 'ds', 'did0', 'msg_kroot', 'status')
+        old = [copy.copy(getattr(self, p)) for p in par]
+        result = self.load_dsm_kroot(did)
+        if result and self.status & uOSNMA.ROOTKEY_VERIFIED:
+            if self.msg_kroot[1:] == old[par.index('msg_kroot')][1:]:
+                self.msg_kroot = old[par.index('msg_kroot')]
+                self.ds = old[par.index('ds')]
+                return True
+            result = self.verify_root_key()
+            self.status &= ~uOSNMA.KEYCHAIN_VERIFIED
+        if not result:
+            for p, v in zip(par, old):
+                setattr(self, p, v)
+        return result
+
+    def load_dsm_kroot(self, did):
+        """ load parameters of DSM-KROOT """
         v = bs.unpack_from('u4u4u2u2u2u2u4u4u8u4u12u8', self.dsm[did], 0)
         nb = v[0]+6   # number of blocks
         self.pkid = v[1]  # Public Key ID
@@ -403,6 +423,9 @@ class osnma():
         self.wn = v[10]  # KROOT week number, tow[h]
         self.towh = v[11]
         self.alp = self.dsm[did][7:13]  # random pattern alpha
+        if self.hf not in self.hash_table or self.mf > 1 or \
+                self.ks >= len(self.klen_t) or self.tag_len_t[self.ts] == 0:
+            return False
         l_dk = nb*104
         l_ds = 512  # P-256/SHA-256
         l_k = self.klen_t[self.ks]
@@ -420,6 +443,8 @@ class osnma():
                 print("p_dk verification error.")
             return False
         self.status |= uOSNMA.ROOTKEY_LOADED  # KROOT loaded
+        self.msg_kroot = bytearray([self.nma_header]) + \
+            self.dsm[did][1:13+l_k//8]
         self.did0 = did
         return True
 
-- 
2.43.0


From c7fc2624f1b0ac9333e740ac2f87ea970f5e9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 124/215] fix: ID of OSNMA public keys loaded from file

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index f64f0a5..d80d91d 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -311,7 +311,7 @@ class osnma():
         pk = load_pubkey(self.pubk_bdir+pubk_path)
         if pk is None:
             return False
-        self.pk_list[self.pkid] = pk
+        self.pk_list[pkid] = pk
         return True
 
     def verify_root_key(self):
-- 
2.43.0


From 67f8831c1b39c9af4138538e3df38aa93e012a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 125/215] fix: OSNMA public key renewal uses SHA-256, needs no
 root key

---
 src/cssrlib/osnma.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index d80d91d..c21fe71 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -294,9 +294,11 @@ class osnma():
                 return
             self.load_mt(self.pubk_bdir + mt_file)
 
-    def process_hash(self, msg):
+    def process_hash(self, msg, hf=None):
         """ calculate hash """
-        digest = hashes.Hash(self.hash_table[self.hf]())
+        if hf is None:
+            hf = self.hf
+        digest = hashes.Hash(self.hash_table[hf]())
         digest.update(msg)
         h = digest.finalize()
         return h
@@ -347,7 +349,7 @@ class osnma():
     def verify_pdp(self, mi, p_dp):
         """ verify P_DP """
         msg = self.root_mt + mi
-        h = self.process_hash(msg)
+        h = self.process_hash(msg, 0)
         l_pdp = len(p_dp)
         return h[0:l_pdp] == p_dp
 
@@ -458,6 +460,8 @@ class osnma():
         # new public key type 1:ECDSA P-256, 3: ECDSA P-521, 4: OAM
         if npkt > 4 or npkt == 0 or npkt == 2:
             return False
+        if self.root_mt == -1:  # root of Merkle tree is not available
+            return False
         l_dp = (nb+6)*104
         if npkt == 4:
             l_npk = 104*(nb+6)-1040
@@ -477,14 +481,14 @@ class osnma():
             return False
 
         # 6.2 DSM-PKR Verification
-        x = self.process_hash(mi)  # Eq.12
+        x = self.process_hash(mi, 0)  # Eq.12
         for k in range(4):
             itn_b = itn[k*32:(k+1)*32]
             if mid % 2 == 0:
                 msg = x+itn_b
             else:
                 msg = itn_b+x
-            x = self.process_hash(msg)  # Eq.13
+            x = self.process_hash(msg, 0)  # Eq.13
             mid >>= 1
 
         result = (x == self.root_mt)
-- 
2.43.0


From 347797f1dcc09ddfca37501706c0051fe7db4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 126/215] fix: OSNMA alert message was stored as public key

---
 src/cssrlib/osnma.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index c21fe71..651649c 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -239,7 +239,8 @@ class osnma():
                 pkt_ = 0
 
             pk_ = self.pubkey_decompress(pkt_, pnt_)
-            self.pk_list[pkid_] = pk_
+            if pk_ is not False:
+                self.pk_list[pkid_] = pk_
 
         for h_tn in h.findall('TreeNode'):
             j_ = int(h_tn.find('j').text)
@@ -497,8 +498,9 @@ class osnma():
 
         self.npkid = npkid
         if result:
-            pk_ = self.pubkey_decompress(npkt, npk)
-            self.pk_list[npkid] = pk_
+            if npkt != 4:  # other than OSNMA alert message
+                pk_ = self.pubkey_decompress(npkt, npk)
+                self.pk_list[npkid] = pk_
             self.status |= uOSNMA.PKR_UPDATED  # PKR updated
         return result
 
-- 
2.43.0


From e154625adce9707c1a3835ee24d27a6efb63438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 127/215] fix: slow-MAC tags of OSNMA were verified repeatedly
 or skipped

---
 src/cssrlib/osnma.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 651649c..54cf288 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -1012,8 +1012,10 @@ class osnma():
                         print(f"{s} tag not verified")
             # slow MAC
             if self.flg_slowmac:
-                for tag_ in self.tag_list:
+                for tag_ in list(self.tag_list):
                     dt = self.difftime(self.gst_sf_p, tag_.gst_sf)
+                    if dt >= 300:
+                        self.tag_list.remove(tag_)
                     if dt == 300:
                         self.prn_a = tag_.prn_a
                         result = self.verify_navmsg(tag_)
@@ -1025,8 +1027,7 @@ class osnma():
                                 print(f"Slow-MAC {s} verified")
                             else:
                                 print(f"{s} not verified")
-                    elif dt > 300:
-                        self.tag_list.remove(tag_)
+                self.prn_a = prn
 
             self.nsat = self.count_valid_sat()
             self.cnt[prn-1] = 0
-- 
2.43.0


From 62b76abb9ce66a6b2692b8adacda3ce571620f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 128/215] fix: message of OSNMA flex tags for
 self-authentication

---
 src/cssrlib/osnma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 54cf288..7d0dd1a 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -776,7 +776,7 @@ class osnma():
         mlen = 141 if adkd == 4 else 549
         rem_ = mlen-mlen//8*8  # number of remaining bit
         j = 0
-        if adkd == 0 and self.prn_a == prn_d:
+        if ctr == 1:  # Tag0
             mlen += 8+42
             mlen_b = (mlen+7)//8
             m = bytearray(mlen_b)
-- 
2.43.0


From 433bd6d5c2a38837166be8864de7d8f4b1a6d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 129/215] fix: a DSM block with an excess ID blocked the
 decoding of OSNMA DSM

---
 src/cssrlib/osnma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 7d0dd1a..c0b9e7f 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -552,8 +552,8 @@ class osnma():
         if self.monlevel > 1:
             print(f"flg_dsm[did={did}]={self.flg_dsm[did]:2x} "
                   f"nb={self.nb[did]:2d} bid={bid} prn={prn}")
-        if did in self.nb.keys() and self.nb[did] > 0 and \
-                self.flg_dsm[did] == (1 << self.nb[did])-1:
+        mask = (1 << self.nb[did])-1
+        if self.nb[did] > 0 and (self.flg_dsm[did] & mask) == mask:
             if did <= 11:  # DSM-KROOT
                 result = self.decode_dsm_kroot(did)
             else:  # DSM-PKR
-- 
2.43.0


From 0c61627606580d567b55499f900ab454d4779755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 130/215] fix: OSNMA root keys of chains with SHA3-256 were not
 verified (ECDSA P-256/SHA-256)

---
 src/cssrlib/osnma.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index c0b9e7f..56767e6 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -324,14 +324,13 @@ class osnma():
         msg = self.msg_kroot
 
         result = False
-        hash_func = self.hash_table[self.hf]
         ds_der = raw2der(self.ds)
         if self.pkid not in self.pk_list.keys():
             return False
         pk = self.pk_list[self.pkid]
 
         try:
-            pk.verify(ds_der, bytes(msg), ec.ECDSA(hash_func()))
+            pk.verify(ds_der, bytes(msg), ec.ECDSA(hashes.SHA256()))
             result = True
         except InvalidSignature:
             return False
-- 
2.43.0


From c945df514c4c690958d26834869e74fc1de27748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 131/215] fix: OSNMA pages of different sub-frames were
 combined after a loss of page

---
 src/cssrlib/osnma.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/osnma.py b/src/cssrlib/osnma.py
index 56767e6..2062de0 100644
--- a/src/cssrlib/osnma.py
+++ b/src/cssrlib/osnma.py
@@ -259,6 +259,7 @@ class osnma():
         # 'OSNMA_MerkleTree_20240115100000_newPKID_1.xml'
 
         self.cnt = np.zeros(self.GALMAX, dtype=int)
+        self.gst_sf_n = [None]*self.GALMAX  # sub-frame in reception
         self.dsm = {}
         self.nb = {}
         self.hk = []
@@ -872,18 +873,18 @@ class osnma():
         status = False
         self.prn_a = prn
         ki = (tow % 30)//2
-        if ki == 0:  # reset counter
-            self.cnt[prn-1] = 0
-            self.hk[prn-1] = bytearray(15)
-            self.mack[prn-1][0] = 0
-        elif ki < 0:
-            return status
 
         # convert GPS time to Galileo standard time (GST)
         gst_wn, gst_tow = time2gst(gpst2time(wn, tow))
         self.gst_tow = (gst_tow//30)*30  # current subframe-time
         self.gst_sf = self.set_gst_sf(gst_wn, self.gst_tow)
 
+        if self.gst_sf != self.gst_sf_n[prn-1]:  # new sub-frame
+            self.gst_sf_n[prn-1] = self.gst_sf
+            self.cnt[prn-1] = 0
+            self.hk[prn-1] = bytearray(15)
+            self.mack[prn-1][0] = 0
+
         # store sub-frame for NMA
         self.hk[prn-1][ki] = nma_b[0]              # HK-ROOT message
         self.mack[prn-1][ki*4:ki*4+4] = nma_b[1:5]  # MACK message
-- 
2.43.0


From e87a24ab1a968aa84f272d8394857ddadb3a9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 132/215] fix: qznma: RDS of a satellite number out of range
 stopped the decoder

---
 src/cssrlib/qznma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7652cf9..94bf129 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -415,6 +415,8 @@ class qznma():
             sat = prn2sat(uGNSS.SBS, svid)
         elif svid <= 202:
             sat = prn2sat(uGNSS.QZS, svid)
+        else:
+            sat = 0
 
         return sat
 
@@ -445,9 +447,8 @@ class qznma():
         i += 16
 
         sat = self.svid2sat(svid)
-        sys, prn = sat2prn(sat)
 
-        if svid == 0 or sat not in self.navmsg.keys() or \
+        if sat <= 0 or sat not in self.navmsg.keys() or \
                 iode1 not in self.navmsg[sat].keys() or \
                 mt not in self.navmsg[sat][iode1].keys():
             return None, None
-- 
2.43.0


From b68eaad3ac0f0ecda91777140d7d356c30160448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 133/215] fix: qznma: the key of the first signature was used
 for all key IDs, missing key stopped the decoder

---
 src/cssrlib/qznma.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 94bf129..4f972d4 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -13,6 +13,7 @@ Note:
 """
 
 import copy
+import os
 from binascii import unhexlify, hexlify
 import numpy as np
 import bitstruct.c as bs
@@ -91,7 +92,7 @@ class qznma():
 
     def __init__(self):
         self.navmsg = {}
-        self.pk = None
+        self.pk = {}
         self.rds = {}
         self.flag_e = {}
         self.mask = {}
@@ -501,6 +502,15 @@ class qznma():
 
         return npr, mnav
 
+    def get_pubkey(self, keyid):
+        """ get public key of the key ID """
+        if keyid not in self.pk.keys():
+            pubk_path = self.pubk_bdir + f"/{keyid:03d}.der"
+            if not os.path.exists(pubk_path):
+                return None
+            self.pk[keyid] = load_pubkey(pubk_path)
+        return self.pk[keyid]
+
     def verify_gnss_nav(self, npr, mnav):
         """ verifify the navigation message in MNAV using DS """
         if npr.mt == uNavId.GPS_LNAV:
@@ -526,18 +536,16 @@ class qznma():
         sat = self.svid2sat(npr.svid)
         sys, prn = sat2prn(sat)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        pk = self.get_pubkey(npr.keyid)
+        if pk is None:
+            if self.monlevel > 0:
+                print(f"loading public key {npr.keyid} was faild.")
+            return False
 
         ds_der = raw2der(npr.ds)
         status = False
         try:
-            self.pk.verify(ds_der, bytes(rand_), ec.ECDSA(hashes.SHA256()))
+            pk.verify(ds_der, bytes(rand_), ec.ECDSA(hashes.SHA256()))
             status = True
         except InvalidSignature:
             status = False
@@ -720,17 +728,15 @@ class qznma():
         rand_[1:k1+1] = msg
         bs.pack_into('u16', rand_, 8+mlen, npr.salt)
 
-        if self.pk is None:
-            pubk_path = self.pubk_bdir + f"/{npr.keyid:03d}.der"
-            self.pk = load_pubkey(pubk_path)
-            if self.pk is None:
-                if self.monlevel > 0:
-                    print(f"loading public key {npr.keyid} was faild.")
-                return False
+        pk = self.get_pubkey(npr.keyid)
+        if pk is None:
+            if self.monlevel > 0:
+                print(f"loading public key {npr.keyid} was faild.")
+            return False
 
         status = False
         try:
-            self.pk.verify(raw2der(npr.ds), bytes(rand_),
+            pk.verify(raw2der(npr.ds), bytes(rand_),
                            ec.ECDSA(hashes.SHA256()))
             status = True
         except InvalidSignature:
-- 
2.43.0


From 98ea9fb5256e3f3dfef8d605b5876ba78fe954b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 134/215] fix: qznma: LNAV or CNAV was not stored when the
 other had the same IOD

---
 src/cssrlib/qznma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 4f972d4..ff2762d 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -140,6 +140,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_LNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_LNAV] = navmsg
 
     def load_navmsg_cnav(self, navfile):
@@ -174,6 +175,7 @@ class qznma():
                     iodn = navmsg.iodn
                     if iodn not in self.navmsg[sat].keys():
                         self.navmsg[sat][iodn] = {}
+                    if uNavId.GPS_CNAV not in self.navmsg[sat][iodn].keys():
                         self.navmsg[sat][iodn][uNavId.GPS_CNAV] = navmsg
 
     def load_navmsg_fnav(self, navfile):
@@ -710,6 +712,7 @@ class qznma():
             iodn = navmsg.iodn
             if iodn not in self.navmsg[sat].keys():
                 self.navmsg[sat][iodn] = {}
+            if mode not in self.navmsg[sat][iodn].keys():
                 self.navmsg[sat][iodn][mode] = navmsg
 
     def verify_qzss_nav(self, sat, npr, msg, mode):
-- 
2.43.0


From 369f8ca7e56ddeea02a977cf284398cf64ee1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 135/215] fix: qznma: loaded navigation messages were lost when
 messages of the satellite were received

---
 src/cssrlib/qznma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index ff2762d..78ceb9b 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -694,6 +694,7 @@ class qznma():
 
         if sat not in self.buff.keys():
             self.buff[sat] = bytearray(120)
+        if sat not in self.navmsg.keys():
             self.navmsg[sat] = {}
 
         self.buff[sat][(i0-1)*blen:(i0-1)*blen+blen] = msg[0:blen]
-- 
2.43.0


From c5ff2c8a46b199773161d05afe4abf5a3094ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 136/215] fix: qznma: QZSS messages were not verified around
 the week boundary, decoder stopped at its start

---
 src/cssrlib/qznma.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 78ceb9b..7b461c2 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -805,7 +805,9 @@ class qznma():
                 sid = bs.unpack_from('u3', msg, 53)[0]
                 tow_ = bs.unpack_from('u17', msg, 32+2)[0]*6
                 _, prn = sat2prn(sat)
-                ki = (tow_-self.tow_p[sat])//6
+                ki = 0
+                if self.npr[sat] is not None:
+                    ki = (tow_-self.tow_p[sat]) % 604800//6
 
                 if sid == 4 or sid == 5:
                     data_id, svid = bs.unpack_from('u2u6', msg, 32*2+2)
@@ -835,7 +837,9 @@ class qznma():
                 prn_, msgid, tow_, alert = bs.unpack_from('u6u6u17u1', msg, 8)
                 prn = prn_ + 192
                 tow_ *= 6
-                ki = (tow_-self.tow_p[sat])//6
+                ki = 0
+                if self.npr[sat] is not None:
+                    ki = (tow_-self.tow_p[sat]) % 604800//6
 
                 if msgid == 60:
                     self.npr[sat] = self.gen_rds(sat, uNavId.GPS_CNAV, msg)
@@ -871,7 +875,8 @@ class qznma():
                     if self.mask[sat] == 7:
                         self.tow_p[sat], self.mask[sat] = tow_, 0
 
-                elif tow_ == self.tow_p[sat]+18:
+                elif self.npr[sat] is not None and \
+                        (tow_-self.tow_p[sat]) % 604800 == 18:
                     mnav = self.cnav2_to_mnav(toi, msg)
                     status = self.verify_qzss_nav(
                         sat, self.npr[sat], mnav, uNavId.GPS_CNAV2)
-- 
2.43.0


From 853a95aa755239816ed64375b24c4fd13c5a8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 137/215] fix: qznma: RDS was assembled from parts of different
 signatures after a loss or at start-up

---
 src/cssrlib/qznma.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index 7b461c2..e39c2d8 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -577,6 +577,14 @@ class qznma():
 
         return status
 
+    def add_rds_part(self, sat, sid):
+        """ mark part of RDS received, the parts come in order """
+        prev = (1 << (sid-1))-1
+        if sid > 1 and self.mask[sat] & prev != prev:
+            self.mask[sat] = 0
+            return
+        self.mask[sat] = prev | (1 << (sid-1))
+
     def gen_rds(self, sat, mode, msg):
         """ prepare RDS from navigation message and parameters  """
 
@@ -590,19 +598,19 @@ class qznma():
                     d = bs.unpack_from('u24', msg, 32*(k+3)+2)[0]
                     bs.pack_into('u24', self.rds[sat], i0+14+24*k, d)
 
-                self.mask[sat] |= (1 << (sid-1))
+                self.add_rds_part(sat, sid)
 
         elif mode == uNavId.GPS_CNAV:  # 708bits (236bits*3)
             sid = bs.unpack_from('u2', msg, 38)[0]
             if sid > 0:
                 copy_buff(msg, self.rds[sat], 40, (sid-1)*236, 236)
-                self.mask[sat] |= (1 << (sid-1))
+                self.add_rds_part(sat, sid)
 
         elif mode == uNavId.GPS_CNAV2:  # 702bits (234bits*3)
             sid = bs.unpack_from('u2', msg, 1266)[0]
             if sid > 0:
                 copy_buff(msg, self.rds[sat], 1268, (sid-1)*234, 234)
-                self.mask[sat] |= (1 << (sid-1))
+                self.add_rds_part(sat, sid)
 
         # key ID (8bits), DS (512bits), SALT (16bits)
         if self.mask[sat] == 7:
-- 
2.43.0


From 8abbb952ec64e42a6535859464fb4fdefce7f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 138/215] fix: qznma: RDS with time out of range stopped the
 decoder

---
 src/cssrlib/qznma.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cssrlib/qznma.py b/src/cssrlib/qznma.py
index e39c2d8..1632a8d 100644
--- a/src/cssrlib/qznma.py
+++ b/src/cssrlib/qznma.py
@@ -456,6 +456,11 @@ class qznma():
                 mt not in self.navmsg[sat][iode1].keys():
             return None, None
 
+        # time out of range
+        if mt in (uNavId.GPS_LNAV, uNavId.GPS_CNAV) and rtow >= 100800 or \
+                mt in (uNavId.GAL_FNAV, uNavId.GAL_INAV) and rtow >= 604800:
+            return None, None
+
         npr = NavParam(keyid, ds, salt, mt, nid,
                        rtow, svid, iode1, iode2, iodc)
         tow_ = self.navmsg[sat][iode1][mt].tow
-- 
2.43.0


From 8c64eee0e4c7094b72823a2d2fa5e623ad85d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 139/215] fix: sbas: fast corrections were applied with the
 wrong sign

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 625aa4b..0572c00 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -440,7 +440,7 @@ class sbasDec(cssr):
             j = type_*13+k
             if j >= len(self.sat):
                 break
-            self.lc[0].hclk[self.sat[j]] = -self.sval(fc, 12, 0.125)
+            self.lc[0].hclk[self.sat[j]] = self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
-- 
2.43.0


From c468ee7ccda1287fbd84711579284aeb596dc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 140/215] fix: sbas: UDREI after the end of the mask and
 long-term half of mixed corrections were misread

---
 src/cssrlib/sbas.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 0572c00..626b62e 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -439,14 +439,14 @@ class sbasDec(cssr):
             i += 12
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.lc[0].hclk[self.sat[j]] = self.sval(fc, 12, 0.125)
         for k in range(n):
             udrei = bs.unpack_from('u4', msg, i)[0]
             i += 4
             j = type_*13+k
             if j >= len(self.sat):
-                break
+                continue
             self.obad.udrei[self.sat[j]] = udrei
             self.set_t0(sat=self.sat[j], ctype=sCType.HCLOCK, t=self.time)
 
@@ -684,7 +684,8 @@ class sbasDec(cssr):
             i += 208
             return i
 
-        i = self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        self.decode_sbas_fast_corr_blk(msg, i, 6, type_)
+        i += 106
         i = self.decode_sbas_lcorr_half(msg, i)  # MT25 half-msg(106bits)
         return i
 
-- 
2.43.0


From 1d577f5b01c1d100a88831f7732f899c1d374174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 141/215] fix: sbas: long-term corrections of wrong satellite,
 at wrong position or reference time

---
 src/cssrlib/sbas.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 626b62e..eed6595 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -614,9 +614,11 @@ class sbasDec(cssr):
         return i
 
     def add_sbas_corr(self, slot, iodn, dx, dy, dz, db,
-                      dxd=0, dyd=0, dzd=0, dbd=0):
-        """ add SBAS long-term correction """
-        sat = self.slot2sat(slot)
+                      dxd=0, dyd=0, dzd=0, dbd=0, t0=None):
+        """ add SBAS long-term correction (slot: number in PRN mask) """
+        sat = self.sat[slot-1]
+        if t0 is None:
+            t0 = self.time
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
@@ -636,8 +638,8 @@ class sbasDec(cssr):
 
         self.lc[0].cstat |= (1 << sCType.CLOCK) | (1 << sCType.ORBIT)
 
-        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=self.time)
-        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=self.time)
+        self.set_t0(sat=sat, ctype=sCType.CLOCK, t=t0)
+        self.set_t0(sat=sat, ctype=sCType.ORBIT, t=t0)
         return sat
 
     def decode_sbas_lcorr_half(self, msg, i):
@@ -648,14 +650,14 @@ class sbasDec(cssr):
         ofst = 102 if vc == 0 else 103
         iodp = bs.unpack_from('u2', msg, i+ofst)[0]
         if iodp != self.iodp:
-            return i
+            return i+105
 
         if vc == 0:
             for k in range(2):
                 slot, iodn, dx, dy, dz, db = bs.unpack_from(
                     'u6u8s9s9s9s10', msg, i)
                 i += 51
-                if slot > 0:
+                if slot > 0 and slot <= len(self.sat):
                     self.add_sbas_corr(slot, iodn, dx, dy, dz, db)
 
             # iodp = bs.unpack_from('u2', msg, i)[0]
@@ -664,11 +666,14 @@ class sbasDec(cssr):
             slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd = bs.unpack_from(
                 'u6u8s11s11s11s11s8s8s8s8', msg, i)
             i += 90
-            self.add_sbas_corr(slot, iodn, dx, dy, dz, db, dxd, dyd, dzd, dbd)
-
             toa = bs.unpack_from('u13', msg, i)[0]
             i += 15
 
+            if slot > 0 and slot <= len(self.sat):
+                self.add_sbas_corr(slot, iodn, dx, dy, dz, db,
+                                   dxd, dyd, dzd, dbd,
+                                   t0=tod2tow(toa*16.0, self.time))
+
         self.iodssr_c[sCType.CLOCK] = iodp
         self.iodssr_c[sCType.ORBIT] = iodp
 
-- 
2.43.0


From 66522c0974d2c4a62bddcb37a3d32ae3452fddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 142/215] fix: sbas: time of GEO almanac was misread

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index eed6595..436c6a2 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -561,7 +561,7 @@ class sbasDec(cssr):
     def decode_sbas_almanac(self, msg, i):
         """ Type 17 GEO almanac message """
 
-        ta = bs.unpack_from('u11', msg, 201)[0]*64.0
+        ta = bs.unpack_from('u11', msg, i+201)[0]*64.0
         t0 = tod2tow(ta, self.time)
 
         for k in range(3):
-- 
2.43.0


From d1a43969c34f3d2a3cae68122fb291c568022152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 143/215] fix: sbas: unit of degradation parameter Cltc_v1

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 436c6a2..7ff2d6d 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -541,7 +541,7 @@ class sbasDec(cssr):
         i += 90
 
         self.deg_prm = np.array(
-            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-4, Iltc_v1*1.0,
+            [Brrc*2e-3, Cltc_lsb*2e-3, Cltc_v1*5e-5, Iltc_v1*1.0,
              Cltc_v0*2e-3, Iltc_v0*1.0, Cgeo_lsb*5e-4, Cgeo_v*5e-5,
              Igeo*1.0, Cer*0.5, Ciono_s*1e-3, Iiono*1.0,
              Ciono_r*5e-6, RSS_udre, RSS_iono, Ccov*0.1])
-- 
2.43.0


From 24bdae7ef30fec9b8608d933584a92523c173f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 144/215] fix: sbas: ionospheric grid of an old mask, and
 points not received or not monitored were used

---
 src/cssrlib/sbas.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 7ff2d6d..2fdb9bc 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -132,7 +132,7 @@ def searchIGP(t, posp, cs):
             if len(idx) == 0:
                 continue
             k = idx[0]
-            if len(cs.givei[band]) < k or cs.givei[band][k] <= 0:
+            if cs.givei[band][k] == 15 or np.isnan(cs.vtec[band][k]):
                 continue
             igp[i] = [cs.vtec[band][k], cs.givei[band][k]]
             cs.inet = band+1
@@ -271,6 +271,7 @@ class sbasDec(cssr):
 
         # iono
         self.igp_idx = {}
+        self.iodi_b = {}
         self.vtec = {}
         self.givei = {}
         self.t0_igp = gtime_t()
@@ -601,15 +602,16 @@ class sbasDec(cssr):
             if bs.unpack_from('u1', msg, i+k)[0] == 1:
                 idx.append(k)
         i += 201+1
-        self.igp_idx[band] = idx
-        self.iodi = iodi
         ngp = len(idx)
 
-        if band not in self.vtec:
-            self.vtec[band] = np.zeros(ngp)
+        if band not in self.vtec or self.iodi_b[band] != iodi or \
+                self.igp_idx[band] != idx:  # 15: not monitored
+            self.vtec[band] = np.full(ngp, np.nan)
+            self.givei[band] = np.full(ngp, 15)
 
-        if band not in self.givei:
-            self.givei[band] = np.zeros(ngp, dtype=int)
+        self.igp_idx[band] = idx
+        self.iodi = iodi
+        self.iodi_b[band] = iodi
 
         return i
 
@@ -703,12 +705,9 @@ class sbasDec(cssr):
     def decode_sbas_iono(self, msg, i):
         """ Type 26 Ionospheric delay message """
         iodi = bs.unpack_from('u2', msg, i+203)[0]
-        if iodi != self.iodi:
-            i += 212
-            return i
         band, bid = bs.unpack_from('u4u4', msg, i)
         i += 8
-        if band not in self.vtec:
+        if band not in self.vtec or iodi != self.iodi_b[band]:
             i += 204
             return i
 
-- 
2.43.0


From bbf57dc296cdbd0a83247092cdcfa524941ff0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 145/215] fix: sbas: latitude of polar grid points and
 longitude beyond 180 degrees

---
 src/cssrlib/sbas.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 2fdb9bc..46d9754 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -119,9 +119,7 @@ def searchIGP(t, posp, cs):
     latp[2] = latp[0]
     latp[3] = latp[1]
 
-    for i in range(4):
-        if lonp[i] == 180:
-            lonp[i] = -180
+    lonp = (lonp+180) % 360-180
     for band in range(MAXBAND):
         if band not in cs.vtec or band not in cs.givei:
             continue
@@ -364,7 +362,7 @@ class sbasDec(cssr):
                     n = 36
                     self.igp_t[band][i0:i0+n, 1] = np.arange(-180, 180, 10)
 
-                self.igp_t[band][i0:i0+n, 0] = lat
+                self.igp_t[band][i0:i0+n, 0] = lat if k < 4 else lat0/60*85
                 i0 += n
 
     def sval(self, u, n, scl):
-- 
2.43.0


From 8d0d5b2ee82d228af80c690ea408941bb454ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 146/215] fix: sbas: ionospheric delay below the horizon
 stopped the positioning

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 46d9754..5bdf01b 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -151,7 +151,7 @@ def ionoSBAS(t, pos, az, el, cs):
     idx_t = [[1, 2, 0], [0, 3, 2], [0, 3, 1], [1, 2, 3]]
 
     if pos[2] < -100.0 or el <= 0.0:
-        return None
+        return diono, var
 
     # ipp (ionospheric pierce point) position and slant factor
     sf, posp = ionppp(pos, az, el, re, hion)
-- 
2.43.0


From 8c689629cde4f02b7825e173ef092b68a5e868af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 147/215] fix: sbas: service regions after the first were
 misread

---
 src/cssrlib/sbas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 5bdf01b..91bd88d 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -52,7 +52,7 @@ class SBASService():
         self.lon1 = np.zeros(5)
         self.lat2 = np.zeros(5)
         self.lon2 = np.zeros(5)
-        self.shape = 0
+        self.shape = np.zeros(5, dtype=int)
 
 
 class paramOBAD():
@@ -744,15 +744,16 @@ class sbasDec(cssr):
         self.sinfo.dUDRE_out = dudre2
 
         for k in range(5):
-            lat1, lon1, lat2, lon2 = bs.unpack_from('s8s9s8s9', msg, i)
-            i += 34
+            lat1, lon1, lat2, lon2, shape = bs.unpack_from(
+                's8s9s8s9u1', msg, i)
+            i += 35
             self.sinfo.lat1[k] = lat1
             self.sinfo.lon1[k] = lon1
             self.sinfo.lat2[k] = lat2
             self.sinfo.lon2[k] = lon2
+            self.sinfo.shape[k] = shape
 
-        self.sinfo.shape = bs.unpack_from('u1', msg, i)[0]
-        i += 16
+        i += 15
 
         return i
 
-- 
2.43.0


From 2851612feb44db2008c96f583aa3bc22e7d1133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 148/215] fix: sbas: element of covariance matrix

---
 src/cssrlib/sbas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 91bd88d..8b9604f 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -765,7 +765,7 @@ class sbasDec(cssr):
 
         scl = 2**(scale-5)
         R = np.array([[E11, E12, E13, E14],
-                      [0, E22, E23, E23],
+                      [0, E22, E23, E24],
                       [0,   0, E33, E34],
                       [0,   0,   0, E44]])*scl
         C = R.T@R
-- 
2.43.0


From 36a485578cb36936fdca67db902bd4981879aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 149/215] fix: sbas: covariance of the next satellite, or
 beyond the mask

---
 src/cssrlib/sbas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 8b9604f..ee1fea8 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -783,7 +783,9 @@ class sbasDec(cssr):
             slot = bs.unpack_from('u6', msg, i)[0]
             i += 6
             i, C, scl = self.decode_cov(msg, i)
-            sat = self.sat[slot]
+            if slot == 0 or slot > len(self.sat):
+                continue
+            sat = self.sat[slot-1]
             self.obad.cov[sat] = C
             self.obad.scl[sat] = scl
 
-- 
2.43.0


From 3ccc3c25d8ee47453c761d31e95bc19dc696deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 150/215] fix: sbas: DFMC integrity messages stopped the
 decoder

---
 src/cssrlib/sbas.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index ee1fea8..abf7e99 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -845,7 +845,7 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt34(self, msg, i):
         """ Types 34 integrity message (indexed) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
@@ -865,27 +865,28 @@ class sbasDec(cssr):
             sat = self.sat_n[j]
             if dfreci[j] == 1:
                 if k < 7:
-                    self.dfrei[sat] = dfrei[k]
+                    self.obad.dfrei[sat] = int(dfrei[k])
                     k += 1
             elif dfreci[j] == 2:
-                self.dfrei[sat] += 1
-                if self.dfrei[sat] > 14:
-                    self.dfrei[sat] = 14
+                if sat in self.obad.dfrei:
+                    self.obad.dfrei[sat] = min(self.obad.dfrei[sat]+1, 14)
             elif dfreci[j] == 3:  # DNU
-                self.dfrei[sat] = 15
+                self.obad.dfrei[sat] = 15
 
         i += 4
         return i
 
     def decode_dfmc_integrity_mt35(self, msg, i):
         """ Types 35 integrity message (for #1-53) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(53):
-            self.dfrei[k] = bs.unpack_from('u4', msg, i)[0]
+            if k < self.nsat:
+                self.obad.dfrei[self.sat_n[k]] = bs.unpack_from(
+                    'u4', msg, i)[0]
             i += 4
 
         i += 4
@@ -893,13 +894,15 @@ class sbasDec(cssr):
 
     def decode_dfmc_integrity_mt36(self, msg, i):
         """ Types 36 integrity message (for #54-92) """
-        iodm = bs.unpack_from('u2', msg, 214)[0]
+        iodm = bs.unpack_from('u2', msg, i+214)[0]
         if iodm != self.iodm:
             i += 216
             return i
 
         for k in range(39):
-            self.dfrei[k+53] = bs.unpack_from('u4', msg, i)[0]
+            if k+53 < self.nsat:
+                self.obad.dfrei[self.sat_n[k+53]] = bs.unpack_from(
+                    'u4', msg, i)[0]
             i += 4
         i += 60
         return i
-- 
2.43.0


From 447ab014d297c040e6ad81f4b7b9a68cd0c8b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 151/215] fix: sbas: satellite, semi-major axis and node of
 SBAS ephemeris, node rate of almanac

---
 src/cssrlib/sbas.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index abf7e99..b749894 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -861,7 +861,7 @@ class sbasDec(cssr):
             i += 4
 
         k = 0
-        for j in range(self.nsat):
+        for j in range(min(self.nsat, 92)):
             sat = self.sat_n[j]
             if dfreci[j] == 1:
                 if k < 7:
@@ -955,13 +955,13 @@ class sbasDec(cssr):
         i += 41
         self.iodg = iodg
 
-        sat = self.slot2sat(slotd)
+        sat = self.slot2sat(slotd+119)
         eph = Eph(sat)
         eph.cuc = self.sval(cuc, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.cus = self.sval(cus, 19, rCST.SC2RAD*rCST.P2_19*1e-4)
         eph.idot = self.sval(idot, 22, 7/6*rCST.SC2RAD*rCST.P2_21*1e-6)
         eph.omg = self.sval(omg, 34, rCST.SC2RAD*rCST.P2_33)
-        eph.Omg0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
+        eph.OMG0 = self.sval(Omg0, 34, rCST.SC2RAD*rCST.P2_33)
         eph.M0 = self.sval(M0, 34, rCST.SC2RAD*rCST.P2_33)
 
         eph.af0 = self.sval(af0, 25, 0.02/rCST.CLIGHT)  # [m] -> [s]
@@ -985,7 +985,7 @@ class sbasDec(cssr):
         eph = self.Eph
         eph.i0 = i0*rCST.SC2RAD*rCST.P2_33
         eph.e = e*rCST.P2_30
-        eph.a = a*0.02
+        eph.A = a*0.02
 
         eph.toe = tod2tow(te*16.0, self.time)
         eph.toc = eph.toe
@@ -1021,7 +1021,7 @@ class sbasDec(cssr):
             alm.i0 = i0*rCST.SC2RAD*rCST.P2_13
             alm.omg = omg*rCST.SC2RAD*rCST.P2_13
             alm.OMG0 = OMG0*rCST.SC2RAD*rCST.P2_13
-            alm.OMDd = OMGd*1e-9
+            alm.OMGd = OMGd*1e-9
             alm.M0 = M0*rCST.SC2RAD*rCST.P2_14
             alm.toa = tod2tow(ta*1800.0, self.time)
             self.Alm[sat] = alm
-- 
2.43.0


From 1700a12b48e41ad38ae8eb91c76a491c5a9e7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 152/215] fix: sbas: corrections of an invalid slot were stored

---
 src/cssrlib/sbas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index b749894..66ecd10 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -1033,6 +1033,8 @@ class sbasDec(cssr):
     def add_dfmc_corr(self, slot, iodn, dx, dy, dz, db,
                       dxd=0, dyd=0, dzd=0, dbd=0):
         sat = self.slot2sat(slot)
+        if sat == 0:
+            return sat
         if sat not in self.sat_n:
             self.sat_n.append(sat)
 
-- 
2.43.0


From 6f15ed16f1b56cd257bf1601400b22569ae29922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 153/215] fix: sbas: validity check stopped for satellites
 without corrections

---
 src/cssrlib/sbas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 66ecd10..c075a4d 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -396,6 +396,8 @@ class sbasDec(cssr):
 
     def check_validity(self, time):
         for sat in self.sat_n:
+            if sat not in self.lc[0].t0 or sat not in self.lc[0].dclk:
+                continue
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-- 
2.43.0


From 3742c30da75723838729af475f00ca050541ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 154/215] fix: sbas: corrections of satellites removed from the
 mask were used

---
 src/cssrlib/sbas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index c075a4d..7925949 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -428,6 +428,9 @@ class sbasDec(cssr):
         for k in range(nsat):
             self.sat.append(prn2sat(uGNSS.SBS, prn[k]))
 
+        # satellites removed from the mask
+        self.sat_n = [sat for sat in self.sat_n if sat in self.sat]
+
         self.iodp = bs.unpack_from('u2', msg, i)[0]
         self.iodssr = self.iodp
         i += 2
-- 
2.43.0


From f2fedf4372a935aa957916ec1600684287b3c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 155/215] fix: pntpos: clock reset discarded the current clock
 bias

---
 src/cssrlib/pntpos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 6793ae8..2fd20ed 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -565,8 +565,9 @@ class stdpos(pppos):
         if abs(np.mean(v)) > self.nav.th_clk_rst:  # clock bias initialize/reset
             ic = self.ICB()
             idx_ = np.where(v != 0.0)[0]
-            xp[ic] = np.mean(v[idx_])
-            v[idx_] -= xp[ic]
+            dclk = np.mean(v[idx_])
+            xp[ic] += dclk
+            v[idx_] -= dclk
             if self.monlevel > 0:
                 print("{:s} clock reset.".format(time2str(obs.t)))
 
-- 
2.43.0


From 7a65739c26b3d569c906e4d70a8ad89a35e24b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 156/215] fix: pntpos: group delay was not applied in the first
 epoch

---
 src/cssrlib/pntpos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 2fd20ed..b0efa3b 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -69,6 +69,7 @@ class stdpos(pppos):
 
         self.nav.csmooth = csmooth  # carrier-smoothing is enabled/disabled
         self.nav.rmode = rmode  # PR measurement mode
+        self.nav.smode = 1  # standalone positioning
 
         self.cs_cnt = {}
         self.Lp_ = {}
-- 
2.43.0


From 0a646711702432d8f4ee1e549ff1552760d48dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 157/215] fix: pntpos: ionosphere-free combination used GPS
 frequencies for all systems

---
 src/cssrlib/pntpos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index b0efa3b..81a7d86 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -356,10 +356,7 @@ class stdpos(pppos):
                 CP = lam[0]*obs.L[i, 0]
             else:  # iono-free combination
                 iono = 0.0
-                if self.nav.rmode == 1:  # L1/L2 iono free combination
-                    gam = (rCST.FREQ_G1/rCST.FREQ_G2)**2
-                if self.nav.rmode == 2:  # L1/L5 iono free combination
-                    gam = (rCST.FREQ_S1/rCST.FREQ_S5)**2
+                gam = (lam[1]/lam[0])**2
                 PR = (obs.P[i, 1]-gam*obs.P[i, 0])/(1-gam)
                 CP = (lam[1]*obs.L[i, 1]-gam*lam[0]*obs.L[i, 0])/(1-gam)
 
-- 
2.43.0


From 37114dec803104ec8e4436965fe10b63ec7bbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 158/215] fix: pntpos: carrier smoothing stopped after an epoch
 without carrier phase

---
 src/cssrlib/pntpos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 81a7d86..82ed08b 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -191,7 +191,7 @@ class stdpos(pppos):
             self.cs_cnt[sat] = 1
             return Pm
 
-        if sat not in self.cs_cnt or timediff(obs.t, self.cs_t0[sat]) > dt_th:
+        if sat not in self.cs_t0 or timediff(obs.t, self.cs_t0[sat]) > dt_th:
             self.cs_cnt[sat] = 1
 
         if self.cs_cnt[sat] == 1:
-- 
2.43.0


From f01947991ca2a5e3657401cf282ba4c0d9766e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 159/215] fix: pntpos: ionosphere model delay at L1 was used
 for all frequencies

---
 src/cssrlib/pntpos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cssrlib/pntpos.py b/src/cssrlib/pntpos.py
index 82ed08b..88a74d0 100644
--- a/src/cssrlib/pntpos.py
+++ b/src/cssrlib/pntpos.py
@@ -351,6 +351,9 @@ class stdpos(pppos):
             else:
                 lam = np.array([s.wavelength() for s in sigsCP])
 
+            # model delay is given at L1
+            iono *= (lam[0]*rCST.FREQ_G1/_c)**2
+
             if self.nav.rmode == 0:
                 PR = obs.P[i, 0]
                 CP = lam[0]*obs.L[i, 0]
-- 
2.43.0


From 810c7abdc44c93b7397b60340861776fa619d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 160/215] fix: HAS: pages of a message of another size were
 mixed in

---
 src/cssrlib/cssr_has.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/cssr_has.py b/src/cssrlib/cssr_has.py
index beebbfe..401d0c7 100644
--- a/src/cssrlib/cssr_has.py
+++ b/src/cssrlib/cssr_has.py
@@ -218,7 +218,8 @@ class cnav_msg():
             if self.mid_ == -1 and mid not in self.mid_decoded:
                 self.mid_ = mid
                 self.ms_ = ms
-            if mid == self.mid_ and pid-1 not in self.rec:
+            if mid == self.mid_ and ms == self.ms_ and \
+                    pid-1 not in self.rec:
                 page = bs.unpack_from('u8'*53, buff, i)
                 self.rec += [pid-1]
                 self.has_pages[pid-1, :] = page
-- 
2.43.0


From 4078dace33cda736a6fd2681476f123b8221458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 161/215] fix: peph: antenna correction was NaN in the zenith
 by rounding

---
 src/cssrlib/peph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 2cd7775..42cacbe 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -807,7 +807,7 @@ def antModelTx(nav, e, sigs, sat, time, rs, sig0=None):
 
     # Zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(np.dot(ez, -e)))
+    za = np.rad2deg(np.arccos(np.clip(np.dot(ez, -e), -1.0, 1.0)))
     za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
 
     # CoM offset of reference signals
@@ -907,7 +907,7 @@ def antModelRx(nav, pos, e, sigs, rtype=1):
 
     # Elevation angle, zenith angle and zenith angle grid
     #
-    za = np.rad2deg(np.arccos(e[2]))
+    za = np.rad2deg(np.arccos(np.clip(e[2], -1.0, 1.0)))
     za_t = np.arange(ant.zen[0], ant.zen[1]+ant.zen[2], ant.zen[2])
 
     # Loop over signals
-- 
2.43.0


From 630a0249df29d25cc81d23a1c3ddf14612ea601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 162/215] fix: dgps: an empty entry of MT47 was read again for
 all the following entries

---
 src/cssrlib/dgps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index e7b9179..4f50aeb 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -138,6 +138,7 @@ class dgpsDec(cssr):
         i = 14
         for k in range(5):
             code, lat, lon, alt = bs.unpack_from('u6s15s15u6', msg, i)
+            i += 42
             if code == 63:
                 continue
             self.posr[code, 0] = lat*0.005
@@ -145,8 +146,6 @@ class dgpsDec(cssr):
             self.posr[code, 2] = alt*50.0-100
 
             self.posr[code, 0:2] *= rCST.D2R
-
-            i += 42
         return 0
 
     def decode_mt48(self, msg, i):
-- 
2.43.0


From 5328a7f38560d1d4236f6c53a3497fd070170ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 163/215] fix: dgps: MT51 (satellite health) raised
 AttributeError

---
 src/cssrlib/dgps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 4f50aeb..c26aaf6 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -74,6 +74,7 @@ class dgpsDec(cssr):
 
         self.iodssr = -1
         self.iodp_c = {}
+        self.svh = {}
 
         self.baselen = 0  # baseline length [km]
 
-- 
2.43.0


From 3198d8ea3066b01591c190f1d5dbb0f28eb9ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 164/215] fix: dgps: corrections of reference stations with
 code > 31 raised IndexError

---
 src/cssrlib/dgps.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index c26aaf6..3c5ce6d 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -8,7 +8,8 @@ DGPS (QZSS SLAS) correction data decoder
 
 import numpy as np
 import bitstruct as bs
-from cssrlib.cssrlib import cssr, sCSSRTYPE, prn2sat, sCType
+from cssrlib.cssrlib import cssr, sCSSRTYPE, prn2sat, sCType, \
+    local_corr
 from cssrlib.gnss import uGNSS, rCST, timediff, time2str, \
     ecef2pos, sat2prn, timediff
 
@@ -61,6 +62,14 @@ class dgpsDec(cssr):
         self.lc[0].iode = {}
         self.lc[0].t0 = {}
 
+        # corrections per reference station: index is station code + 1
+        for inet in range(len(self.lc), self.MAX_ST+1):
+            self.lc.append(local_corr())
+            self.lc[inet].inet = inet
+            self.lc[inet].flg_trop = 0
+            self.lc[inet].flg_stec = 0
+            self.lc[inet].nsat_n = 0
+
         self.tmax = {sCType.CLOCK: 120.0, sCType.ORBIT: 120.0}
 
         # GPS/QZS LNAV, Galileo F/NAV
-- 
2.43.0


From 713e5a3b1959bf7cc6b6112ca43d0d49629a2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 165/215] fix: dgps: correction of a satellite without issue of
 data raised KeyError

---
 src/cssrlib/dgps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 3c5ce6d..fcfa3a6 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -83,6 +83,7 @@ class dgpsDec(cssr):
 
         self.iodssr = -1
         self.iodp_c = {}
+        self.iodn = {}
         self.svh = {}
 
         self.baselen = 0  # baseline length [km]
@@ -237,6 +238,9 @@ class dgpsDec(cssr):
             prc = bs.unpack_from('s12', msg, i)[0]*0.04
             i += 12
 
+            if sat not in self.iodn:  # no issue of data received (MT49)
+                continue
+
             self.lc[inet].sat_n.append(sat)
             self.lc[inet].iode[sat] = self.iodn[sat]
             self.lc[inet].dclk[sat] = prc
-- 
2.43.0


From 6abc7804880b7ec90b9cb8a206eb93bb7d3da97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 166/215] fix: dgps: check_validity raised KeyError for
 satellites without correction

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index fcfa3a6..896b55b 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -121,6 +121,8 @@ class dgpsDec(cssr):
 
     def check_validity(self, time):
         for sat in self.sat_n:
+            if sat not in self.lc[0].t0 or sat not in self.lc[0].dclk:
+                continue
             if timediff(time, self.lc[0].t0[sat][sCType.CLOCK]) > \
                     self.tmax[sCType.CLOCK]:
                 self.lc[0].dclk[sat] = 0.0
-- 
2.43.0


From 20db51ec386316dcada2d0a61f06a0115cebd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 167/215] fix: ewss: epicentre code was overwritten by the
 calendar time

---
 src/cssrlib/ewss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 5e9e65f..f6c3414 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -331,9 +331,9 @@ class jmaDec(ewsDec):
                 s_ += self.pre_t[reg]+" "
             print(s_)
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
+        ep_ = time2epoch(self.time)
+        self.year = ep_[0]
+        self.month = ep_[1]
         self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
         self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
 
@@ -390,9 +390,9 @@ class jmaDec(ewsDec):
             print(f"depth={de}km mag={ma:.1f}")
             print(f"epicenter:{self.ep_t[ep]} lat {lat:.4f} lon {lon:.4f}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
+        ep_ = time2epoch(self.time)
+        self.year = ep_[0]
+        self.month = ep_[1]
         self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
 
         self.pos = [lat, lon]
-- 
2.43.0


From b7ed6e0a9c5429aebea0dc8c0520253b6baacec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 168/215] fix: ewss: day flag of the tsunami arrival time was
 used as day of month

---
 src/cssrlib/ewss.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index f6c3414..52bfc0f 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -535,7 +535,9 @@ class jmaDec(ewsDec):
             if d == 0 and h == 0 and m == 0 and th == 0 and reg == 0:
                 continue
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            # d: 0: day of report, 1: next day
+            tb = timeadd(epoch2time([self.year, month, day, h, m, 0.0]),
+                         d*86400.0)
             self.tb.append(tb)
 
             self.params.append([th, reg])
@@ -565,7 +567,9 @@ class jmaDec(ewsDec):
             th, reg = bs.unpack_from('u9u7', msg, i)
             i += 16
 
-            tb = epoch2time([self.year, month, d, h, m, 0.0])
+            # d: 0: day of report, 1: next day
+            tb = timeadd(epoch2time([self.year, month, day, h, m, 0.0]),
+                         d*86400.0)
             self.tb.append(tb)
             self.params.append([th, reg])
 
-- 
2.43.0


From 8b9f0e1568511601b67dff3ac2cc0258f819068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 169/215] fix: ewss: arrival time of NW Pacific tsunami used a
 stale year

---
 src/cssrlib/ewss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 52bfc0f..373e5d6 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -557,6 +557,10 @@ class jmaDec(ewsDec):
         self.it, _, tp = bs.unpack_from('u2u10u3', msg, i)
         i += 15
 
+        ep = time2epoch(self.time)
+        self.year = ep[0]
+        self.month = ep[1]
+
         self.tb = []
         self.params = []
         self.params.append(tp)
@@ -582,9 +586,6 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        ep = time2epoch(self.time)
-        self.year = ep[0]
-        self.month = ep[1]
         self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
 
         return i
-- 
2.43.0


From 4ff5e4deea542a175444255437d678cb1a226db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 170/215] fix: ewss: pages of different Nankai Trough messages
 were mixed

---
 src/cssrlib/ewss.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 373e5d6..9ab622d 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -262,7 +262,8 @@ class jmaDec(ewsDec):
         self.reg_m_t = self.load_msg('tab4_1_2_53.txt')
 
         self.pidx = 0
-        self.msg = bytearray(512)
+        self.pkey = None  # message which the pages belong to
+        self.msg = bytearray(18*63)
 
         self.te = gtime_t()
         self.pos = np.array([])
@@ -463,6 +464,12 @@ class jmaDec(ewsDec):
         pn, pm = bs.unpack_from('u6u6', msg, i)
         i += 13
 
+        pkey = (month, day, hour, minute, self.it, is_, pm)
+        if pkey != self.pkey:  # page of another message
+            self.pkey = pkey
+            self.pidx = 0
+            self.msg[:] = bytes(len(self.msg))
+
         self.pidx |= 1 << (pn-1)
         self.msg[(pn-1)*18:pn*18] = txt
 
-- 
2.43.0


From 516ad3e61177ee9c5acce95e4bf13442c1a389a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 171/215] fix: ewss: details of most hazards raised
 AttributeError

---
 src/cssrlib/ewss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 9ab622d..48b05f2 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1584,7 +1584,7 @@ class camfDec(ewsDec):
                 d16i = bs.unpack_from('u3', msg, i)[0]
                 self.d16 = self.d16_t[d16i]
 
-            elif hcat == THazard.WINDCHILL:  # Wind chill/frost
+            elif hcat == THazard.WIND_CHILL:  # Wind chill/frost
                 d8i, d6i = bs.unpack_from('u4u4', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d6 = self.d6_t[d6i]
@@ -1601,7 +1601,7 @@ class camfDec(ewsDec):
                 self.d17 = self.d17_t[d17i]
                 self.d13 = self.d13_t[d13i]
 
-            elif hcat == THazard.SNOWSTORM:  # Snow storm/blizzard
+            elif hcat == THazard.SNOW_STORM:  # Snow storm/blizzard
                 d13i, d8i = bs.unpack_from('u4u4', msg, i)
                 self.d13 = self.d13_t[d13i]
                 self.d8 = self.d8_t[d8i]
@@ -1615,7 +1615,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.ASH_FALL:  # Ash fall
                 d20i = bs.unpack_from('u3', msg, i)[0]
                 self.d20 = self.d20_t[d20i]
-            elif hcat == THazard.WINDSURGE:  # Wind/wave/storm surge
+            elif hcat == THazard.WIND_SURGE:  # Wind/wave/storm surge
                 d8i, d5i = bs.unpack_from('u4u3', msg, i)
                 self.d8 = self.d8_t[d8i]
                 self.d5 = self.d5_t[d5i]
@@ -1625,7 +1625,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.TERRORISM:  # Terrorism
                 d22i = bs.unpack_from('u3', msg, i)[0]
                 self.d22 = self.d22_t[d22i]
-            elif hcat == THazard.FOREST_FIRE:  # Forest fire / risk of fire
+            elif hcat == THazard.RISK_OF_FIRE:  # Forest fire / risk of fire
                 d23i = bs.unpack_from('u3', msg, i)[0]
                 self.d23 = self.d23_t[d23i]
             elif hcat == THazard.CONTAMINATED_WATER:
-- 
2.43.0


From 06a49210867c068da459974f2b90110f40b3d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 172/215] fix: ewss: details of hazards sharing a format were
 ignored

---
 src/cssrlib/ewss.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 48b05f2..d0bc3ab 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1635,7 +1635,7 @@ class camfDec(ewsDec):
             elif hcat == THazard.UV_RADIATION:  # UV radiation
                 d25i = bs.unpack_from('u4', msg, i)[0]
                 self.d25 = self.d25_t[d25i]
-            elif hcat == THazard.PANDEMIC:  # Risk of infection / pandemic
+            elif hcat in (THazard.PANDEMIC, THazard.RISK_OF_INFECTION):  # Risk of infection / pandemic
                 d26i, d35i = bs.unpack_from('u5u6', msg, i)
                 self.d26 = self.d26_t[d26i]
                 self.d35 = self.d35_t[d35i]
@@ -1645,15 +1645,21 @@ class camfDec(ewsDec):
             elif hcat == THazard.AIR_POLLUTION:  # Air pollution
                 d28i = bs.unpack_from('u3', msg, i)[0]
                 self.d28 = self.d28_t[d28i]
-            elif hcat == THazard.MARINE_POLLUTION:  # Marine/river pollution
+            elif hcat in (THazard.MARINE_POLLUTION,
+                          THazard.RIVER_POLLUTION):  # Marine/river pollution
                 d24i = bs.unpack_from('u3', msg, i)[0]
                 self.d24 = self.d24_t[d24i]
-            elif hcat == THazard.OUTAGE_OF_IT:
+            elif hcat in (THazard.OUTAGE_OF_IT, THazard.GAS_SUPPLY_OUTAGE,
+                          THazard.POWER_OUTAGE,
+                          THazard.EMERGENCY_NUMBER_OUTAGE,
+                          THazard.TELEPHONE_LINE_OUTAGE):
                 # outage of gas supply/IT systems/power systems/
                 # emergency number/telephone line
                 d29i = bs.unpack_from('u5', msg, i)[0]
                 self.d29 = self.d29_t[d29i]
-            elif hcat == THazard.NUCLEAR_HAZARD:
+            elif hcat in (THazard.NUCLEAR_HAZARD,
+                          THazard.RADIOLOGICAL_HAZARD,
+                          THazard.NUCLEAR_POWER_ACCIDENT):
                 # Radiological hazard, nuclear hazard and nuclear
                 # power station accident
                 d30i = bs.unpack_from('u4', msg, i)[0]
-- 
2.43.0


From b2aa3ece0743e43c1a01962794233c18c3c17d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 173/215] fix: ewss: printing a message with international
 guidance raised UnboundLocalError

---
 src/cssrlib/ewss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index d0bc3ab..2497abd 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1429,6 +1429,8 @@ class camfDec(ewsDec):
             # List B: Monitoring + Required action
             self.gmsg_a = self.list_a[ia]
             self.gmsg_b = self.list_b[ib]
+            inst, info = ia, ib
+            s = '{:s} {:s}'.format(self.gmsg_a, self.gmsg_b)
         else:  # 1:country/region (Japan..)
             if self.regi == 0b001101111:  # Japan
                 inst, info = bs.unpack_from('u2u8', msg, i)
-- 
2.43.0


From 0d800515a4c86d9a3b96b13ee8114baace9394cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 174/215] fix: ewss: hazard onset was a week late for messages
 received on Sundays

---
 src/cssrlib/ewss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 2497abd..416d8ed 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -1402,7 +1402,8 @@ class camfDec(ewsDec):
         # wn: 0:current week, 1: next week
         # tow: 1:mon 00:00, 2:mon 00:01, 3:mon 00:02
         # .. sun 23:59
-        week, _ = time2gpst(self.time)
+        # NOTE: the week of A6, A7 begins on Monday
+        week, _ = time2gpst(timeadd(self.time, -86400.0))
         week += wn
 
         tow = (tow-1)*60+86400  # sec from sun
-- 
2.43.0


From a2b1cb39ff32c34cdaa9e1164403dcfbfdf10bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 175/215] fix: dgps: disaster reports were dated without the
 current time

---
 src/cssrlib/dgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/dgps.py b/src/cssrlib/dgps.py
index 896b55b..7e63838 100644
--- a/src/cssrlib/dgps.py
+++ b/src/cssrlib/dgps.py
@@ -133,6 +133,7 @@ class dgpsDec(cssr):
 
     def decode_mt43(self, msg, i):
         """ decode DC report by JMA (TBD) """
+        self.dcr.time = self.time
         i = self.dcr.decode(msg, i)
         return i
 
@@ -142,6 +143,7 @@ class dgpsDec(cssr):
         i += 10
         if self.monlevel >= 1:
             print(f"MT44 DCX sd={sdmt} {sdm}")
+        self.dcx.time = self.time
         i = self.dcx.decode(msg, i)
         i = self.dcx.decode_ext(msg, i)
         return i
-- 
2.43.0


From a491a3bc91d36bc2b814d830896ed259c2f9de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 176/215] fix: ewss: year of reports and month of events were
 wrong around the turn of year and month

---
 src/cssrlib/ewss.py | 63 +++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/cssrlib/ewss.py b/src/cssrlib/ewss.py
index 416d8ed..5fe5884 100644
--- a/src/cssrlib/ewss.py
+++ b/src/cssrlib/ewss.py
@@ -16,7 +16,7 @@ Emergency Warning Satellite Service (EWSS) Decoder
 
 import bitstruct as bs
 from cssrlib.gnss import time2str, epoch2time, time2epoch, timeadd, \
-    time2gpst, gpst2time, utc2gpst, gtime_t
+    timediff, time2gpst, gpst2time, utc2gpst, gtime_t
 from enum import IntEnum
 import json
 import numpy as np
@@ -191,6 +191,27 @@ class ewsDec():
         ep = time2epoch(t1)
         return ep[1], ep[2]
 
+    def report_time(self, month, day, hour, minute):
+        """ time of report, year is the one closest to current time """
+        year = time2epoch(self.time)[0]
+        t = [epoch2time([year+k, month, day, hour, minute, 0.0])
+             for k in (-1, 0, 1)]
+        return min(t, key=lambda t_: abs(timediff(t_, self.time)))
+
+    def event_time(self, t0, day, hour, minute):
+        """ time given by the day of month, closest to t0 """
+        ep = time2epoch(t0)
+        t = []
+        for k in (-1, 0, 1):
+            month = ep[1]-1+k
+            t_ = epoch2time([ep[0]+month//12, month % 12+1, day, hour, minute,
+                             0.0])
+            if time2epoch(t_)[2] == day:  # skip e.g. 31st of June
+                t.append(t_)
+        if len(t) == 0:
+            return epoch2time([ep[0], ep[1], day, hour, minute, 0.0])
+        return min(t, key=lambda t_: abs(timediff(t_, t0)))
+
     def draw_ellipse(self, ax, lat, lon, LM, lm, az):
         """ draw ellipse (TBD) """
         None
@@ -335,8 +356,8 @@ class jmaDec(ewsDec):
         ep_ = time2epoch(self.time)
         self.year = ep_[0]
         self.month = ep_[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(self.ta, d1, h1, m1)
 
         self.params = []
         self.params.append(reg_)
@@ -394,7 +415,7 @@ class jmaDec(ewsDec):
         ep_ = time2epoch(self.time)
         self.year = ep_[0]
         self.month = ep_[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.pos = [lat, lon]
 
@@ -440,8 +461,8 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(self.ta, d1, h1, m1)
 
         self.params = []
         self.params.append(es_)
@@ -486,7 +507,7 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.params = []
         self.params.append(txt)
@@ -526,7 +547,7 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.tb = []
         self.params = []
@@ -543,8 +564,7 @@ class jmaDec(ewsDec):
                 continue
 
             # d: 0: day of report, 1: next day
-            tb = timeadd(epoch2time([self.year, month, day, h, m, 0.0]),
-                         d*86400.0)
+            tb = timeadd(self.report_time(month, day, h, m), d*86400.0)
             self.tb.append(tb)
 
             self.params.append([th, reg])
@@ -579,8 +599,7 @@ class jmaDec(ewsDec):
             i += 16
 
             # d: 0: day of report, 1: next day
-            tb = timeadd(epoch2time([self.year, month, day, h, m, 0.0]),
-                         d*86400.0)
+            tb = timeadd(self.report_time(month, day, h, m), d*86400.0)
             self.tb.append(tb)
             self.params.append([th, reg])
 
@@ -593,7 +612,7 @@ class jmaDec(ewsDec):
                 f"NP Tsunami ({self.it}) {month:2d}/{day:02d} " +
                 f"{hour:2d}:{minute:02d}")
 
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         return i
 
@@ -631,8 +650,8 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(self.ta, d1, h1, m1)
 
         self.params = [du, dw, vo]
         self.params.append(reg_)
@@ -673,8 +692,8 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(self.ta, d1, h1, m1)
 
         i += 15
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -710,7 +729,7 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         i += 14  # spare 2
         self.vn = bs.unpack_from('u6', msg, i)[0]
@@ -746,7 +765,7 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = ep[1]
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         self.vn = bs.unpack_from('u6', msg, i)[0]
         i += 12
@@ -801,8 +820,8 @@ class jmaDec(ewsDec):
         self.year = ep[0]
         self.month = month
 
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
-        self.tb = epoch2time([self.year, month, d1, h1, m1, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
+        self.tb = self.event_time(self.ta, d1, h1, m1)
 
         self.pos = np.array([lat, lon])
         self.params = [dt, du, tn, sr, ic, pr, w1, w2]
@@ -821,7 +840,7 @@ class jmaDec(ewsDec):
         ep = time2epoch(self.time)
         self.year = ep[0]
         self.month = month
-        self.ta = epoch2time([self.year, month, day, hour, minute, 0.0])
+        self.ta = self.report_time(month, day, hour, minute)
 
         if self.monlevel > 0:
             print(f"Manine ({self.itype_t[self.it]}) " +
-- 
2.43.0


From 663ecc1ebbc1302e8e202110191c344c4d9be956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 177/215] fix: ppp, peph: sun and moon positions were precessed
 twice and rotated by UTC taken as GPST

---
 src/cssrlib/peph.py | 4 +++-
 src/cssrlib/ppp.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/peph.py b/src/cssrlib/peph.py
index 42cacbe..cbc00a7 100644
--- a/src/cssrlib/peph.py
+++ b/src/cssrlib/peph.py
@@ -1237,7 +1237,9 @@ def sunmoonpos_eci(tut, rsun=False, rmoon=False):
 def sunmoonpos(tutc, erpv, rsun=False, rmoon=False, gmst=False):
     tut = timeadd(tutc, erpv[2])
     rs, rm = sunmoonpos_eci(tut, rsun, rmoon)
-    U, gmst_ = eci2ecef(tutc, erpv)
+    # the positions refer to the equinox of date
+    gmst_ = utc2gmst(tutc, erpv[2])
+    U = Ry(-erpv[0])@Rx(-erpv[1])@Rz(gmst_)
     if rsun:
         rsun = U@rs
     if rmoon:
diff --git a/src/cssrlib/ppp.py b/src/cssrlib/ppp.py
index 35ee99e..e489479 100644
--- a/src/cssrlib/ppp.py
+++ b/src/cssrlib/ppp.py
@@ -258,7 +258,9 @@ def sunmoonpos(tutc, erpv=np.zeros(5)):
     rmoon_eci = rm*np.array([c_p*c_l, c_e*c_p*s_l-s_e*s_p,
                              s_e*c_p*s_l+c_e*s_p])
 
-    U, gmst = eci2ecef(tutc, erpv)
+    # the positions refer to the equinox of date
+    gmst = utc2gmst(tutc, erpv[2])
+    U = Ry(-erpv[0])@Rx(-erpv[1])@Rz(gmst)
     rsun = U@rsun_eci
     rmoon = U@rmoon_eci
 
-- 
2.43.0


From d0a36f9910113cbdfba83faa60f8f195d406780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 178/215] fix: pppssr: editing added the tide to the base
 station position in every epoch

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4c7bc59..08a4395 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1195,7 +1195,7 @@ class pppos():
             if self.nav.pmode > 0:
                 rr_ += self.nav.x[3:6]*tt
         else:
-            rr_ = rr
+            rr_ = np.array(rr, dtype=float)
 
         # Solid Earth tide corrections
         #
-- 
2.43.0


From a33b50d541b11f80ee3544c7165895f62399b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 179/215] fix: pppssr: residuals of GLONASS ambiguities ignored
 the wavelength of the second satellite

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 08a4395..48fa466 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -960,7 +960,7 @@ class pppos():
 
                         H[nv, idx_i] = +lami
                         H[nv, idx_j] = -lamj
-                        v[nv] -= lami*(x[idx_i] - x[idx_j])
+                        v[nv] -= lami*x[idx_i] - lamj*x[idx_j]
 
                         # measurement variance
                         Ri[nv] = self.varerr(self.nav, el[i], f)
-- 
2.43.0


From 00b2e1535d79226f99a763ff65f9fc54e18cda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 180/215] fix: rtk: cycle slips of the base station and those
 found by the geometry-free combination were lost

---
 src/cssrlib/rtk.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/rtk.py b/src/cssrlib/rtk.py
index 2949f78..2838454 100644
--- a/src/cssrlib/rtk.py
+++ b/src/cssrlib/rtk.py
@@ -29,12 +29,16 @@ class rtkpos(pppos):
     def base_process(self, obs, obsb, rs, dts, svh):
         """ processing for base station in RTK """
         rsb, vsb, dtsb, svhb, _ = satposs(obsb, self.nav)
-        yr, er, elr = self.zdres(
-            obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
 
-        # Editing observations (base/rover)
+        # Editing observations of the base
+        # (those of the rover have been edited in process())
+        edt_u = self.nav.edt
+        sat_ed_u = np.where(np.all(edt_u == 0, axis=1))[0]+1
         sat_ed_r = self.qcedit(obsb, rsb, dtsb, svhb, rr=self.nav.rb)
-        sat_ed_u = self.qcedit(obs, rs, dts, svh)
+        self.nav.edt = self.nav.edt | edt_u
+
+        yr, er, elr = self.zdres(
+            obsb, None, None, rsb, vsb, dtsb, self.nav.rb, 0)
 
         # define common satellite between base and rover
         sat_ed = np.intersect1d(sat_ed_u, sat_ed_r, True)
-- 
2.43.0


From 05e3180fee6743d61c0e088a99e7a5f9079711c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 181/215] fix: pppssr: index of the tropospheric delay was
 wrong without ionosphere states

---
 src/cssrlib/pppssr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 48fa466..fb151f8 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -259,7 +259,7 @@ class pppos():
 
     def IT(self, na):
         """ return index of zenith tropospheric delay estimate """
-        return na-uGNSS.MAXSAT-1
+        return na-self.nav.niono-1
 
     def varerr(self, nav, el, f):
         """ variation of measurement """
-- 
2.43.0


From 6af28eb46eb4e716e504b782a0d7289cf15495a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 182/215] fix: pppssr: process noise of the ionosphere was
 shifted without troposphere state

---
 src/cssrlib/pppssr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index fb151f8..93825d0 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -204,10 +204,9 @@ class pppos():
 
         if self.nav.iono_opt == 1:  # iono is estimated
             # Iono delay
-            if self.nav.pmode >= 1:  # kinematic
-                self.nav.q[7:7+uGNSS.MAXSAT] = self.nav.sig_qion**2
-            else:
-                self.nav.q[4:4+uGNSS.MAXSAT] = self.nav.sig_qion**2
+            #
+            self.nav.q[self.nav.na-uGNSS.MAXSAT:self.nav.na] = \
+                self.nav.sig_qion**2
 
         # ambiguity
         if self.nav.pmode >= 1:  # kinematic
-- 
2.43.0


From 9bf6046a7c2d3ef8ecdf322c9240a8ab008d175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 183/215] fix: pppssr: options of an instance were written into
 the default configuration

---
 src/cssrlib/pppssr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 93825d0..706110e 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -2,6 +2,7 @@
 module for standard PPP positioning
 """
 
+from copy import deepcopy
 import numpy as np
 
 from cssrlib.ephemeris import satposs
@@ -37,6 +38,7 @@ class pppos():
 
         if config is None:
             config = default_config
+        config = deepcopy(config)
 
         if trop_opt > 0:
             config['nav']['trop_opt'] = trop_opt
-- 
2.43.0


From 09fc9735cdb7f46c159c660df224ef7bbbc04ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 184/215] fix: gnss: misspelled option in the default
 configuration

---
 src/cssrlib/gnss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/gnss.py b/src/cssrlib/gnss.py
index 24bfedc..e6e70ef 100644
--- a/src/cssrlib/gnss.py
+++ b/src/cssrlib/gnss.py
@@ -1774,7 +1774,7 @@ default_config = {
         "trop_opt": 1,
         "iono_opt": 1,
         "phw_opt": 1,
-        "cmooth": False,
+        "csmooth": False,
         "trop_model": "SAAST",
         "iono_model": "KLOBUCHAR",
 
-- 
2.43.0


From e1b25a5a316a61d90e25b4936c96d7a0838519b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 185/215] fix: pppssr: a reference satellite without
 corrections disabled the signal of all others

---
 src/cssrlib/pppssr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 706110e..b9eaf48 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -841,8 +841,13 @@ class pppos():
                     continue
 
                 # Select reference satellite with highest elevation
+                # among those with valid measurements
                 #
-                i = idx[np.argmax(el[idx])]
+                idr = [k for k in idx if y[k, f] != 0.0 and
+                       not np.any(self.nav.edt[sat[k]-1, :] > 0)]
+                if len(idr) == 0:
+                    continue
+                i = idr[np.argmax(el[idr])]
 
                 # Loop over satellites
                 #
-- 
2.43.0


From 9504f059a0cf53a5df6e7f5c7e1cc3a1babfb4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 186/215] fix: pppssr: cycle slips in epochs with too few
 satellites were forgotten

---
 src/cssrlib/pppssr.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index b9eaf48..4ed00cf 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1414,10 +1414,6 @@ class pppos():
 
         self.nav.nsat[1] = nsat
 
-        if nsat < 6:
-            print(" too few satellites < 6: nsat={:d}".format(nsat))
-            return
-
         # Editing of observations
         #
         sat_ed = self.qcedit(obs, rs, dts, svh)
@@ -1440,6 +1436,15 @@ class pppos():
 
         if ns < 6:
             print(" too few satellites < 6: ns={:d}".format(ns))
+            # ambiguities of edited satellites must not be continued
+            for i in np.where(np.any(self.nav.edt > 0, axis=1))[0]:
+                idx = [self.IB(i+1, f, self.nav.na)
+                       for f in range(self.nav.nf)]
+                if self.nav.niono > 0:
+                    idx.append(self.II(i+1, self.nav.na))
+                for j in idx:
+                    if self.nav.x[j] != 0.0:
+                        self.initx(0.0, 0.0, j)
             return
 
         # Kalman filter time propagation, initialization of ambiguities
-- 
2.43.0


From 78692758854509aed6256650bdc70838d36a21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 187/215] fix: pppssr: geometry-free slip detection raised
 IndexError for I14

---
 src/cssrlib/pppssr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4ed00cf..8494337 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -1356,14 +1356,14 @@ class pppos():
                 if L1R != 0.0 and L2R != 0.0:
                     gf1 = (L1R*lam1-L2R*lam2)
                     if rr is None:  # rover
-                        gf0 = self.nav.gf[sat_i]
+                        gf0 = self.nav.gf[sat_i-1]
                     else:  # base
-                        gf0 = self.nav.gf_r[sat_i]
+                        gf0 = self.nav.gf_r[sat_i-1]
                     if gf1 != 0.0:
                         if rr is None:  # rover
-                            self.nav.gf[sat_i] = gf1
+                            self.nav.gf[sat_i-1] = gf1
                         else:  # base
-                            self.nav.gf_r[sat_i] = gf1
+                            self.nav.gf_r[sat_i-1] = gf1
                     if gf0 != 0.0 and gf1 != 0.0 and \
                             abs(gf1-gf0) > self.nav.thresslip:
                         self.nav.edt[i, 0:2] = 1
-- 
2.43.0


From c205a61c9028de7c49a4577f68fc07a810e7b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 188/215] fix: ppprtk: ppprtkpos without configuration or with
 one lacking elmin raised an exception

---
 src/cssrlib/ppprtk.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/cssrlib/ppprtk.py b/src/cssrlib/ppprtk.py
index 013db03..5afbf89 100644
--- a/src/cssrlib/ppprtk.py
+++ b/src/cssrlib/ppprtk.py
@@ -14,12 +14,5 @@ class ppprtkpos(pppos):
 
         # trop, iono from cssr
         # phase windup model is local/regional
+        # (options of the configuration are set by pppos)
         super().__init__(nav=nav, pos0=pos0, logfile=logfile, config=config)
-        
-        self.nav.eratio = config['nav']['eratio']
-        self.nav.err = config['nav']['err']
-        self.nav.sig_p0 = config['nav']['sig_p0']
-        self.nav.thresar = config['nav']['thresar']  # AR acceptance threshold
-        self.nav.armode = config['nav']['armode']     # AR is enabled
-        self.nav.elmaskar = np.deg2rad(config['nav']['elmaskar'])  # elevation mask for AR
-        self.nav.elmin = np.deg2rad(config['nav']['elmin'])
\ No newline at end of file
-- 
2.43.0


From 2e735e5f9987ac3506b35ef53013159772bbf32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 189/215] fix: pppssr: satellites without antenna calibration
 raised TypeError with SSR corrections

---
 src/cssrlib/pppssr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 8494337..4b6fe0a 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -746,8 +746,8 @@ class pppos():
                 
                 ants = antModelTx(self.nav, e[i, :], (sigsPR + sigsCP),
                                   sat, obs.t, rs[i, :], sig0)                
-                antsPR = ants[0:len(sigsPR)]
-                antsCP = ants[len(sigsPR):]
+                antsPR = ants[0:len(sigsPR)] if ants is not None else None
+                antsCP = ants[len(sigsPR):] if ants is not None else None
 
             else:
 
-- 
2.43.0


From 9f61d34575190388f9d25f2df7ac709780f64e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 190/215] fix: cssrlib: STEC interpolation raised KeyError for
 satellites in the network mask without STEC

---
 src/cssrlib/cssrlib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/cssrlib.py b/src/cssrlib/cssrlib.py
index 6912080..da21cd5 100644
--- a/src/cssrlib/cssrlib.py
+++ b/src/cssrlib/cssrlib.py
@@ -1384,12 +1384,18 @@ class cssr:
         for i in range(nsat):
             sat = self.lc[inet].sat_n[i]
             if self.lc[inet].flg_stec & 2:  # functional term
-                ci = self.lc[inet].ci[sat]
-                if len(ci) == 3:
+                # not every satellite of the network has STEC corrections
+                ci = self.lc[inet].ci.get(sat)
+                if ci is None:
+                    stec[i] = np.nan
+                elif len(ci) == 3:
                     stec[i] = [1, dlat, dlon]@ci
                 else:
                     stec[i] = [1, dlat, dlon, dlat*dlon, dlat**2, dlon**2]@ci
             if self.lc[inet].flg_stec & 1:  # residual term
+                if sat not in self.lc[inet].dstec:
+                    stec[i] = np.nan
+                    continue
                 dstec = self.lc[inet].dstec[sat][self.grid_index-1] \
                     @ self.grid_weight
                 stec[i] += dstec
-- 
2.43.0


From 02fe2bba86d5ba3e945e880e4c8863ade30aedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 191/215] fix: pppssr: unavailable STEC or tropospheric
 corrections turned the solution into NaN

---
 src/cssrlib/pppssr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cssrlib/pppssr.py b/src/cssrlib/pppssr.py
index 4b6fe0a..75f0b9c 100644
--- a/src/cssrlib/pppssr.py
+++ b/src/cssrlib/pppssr.py
@@ -655,6 +655,11 @@ class pppos():
             else:
                 iono = np.zeros(nf)
 
+            # Check for invalid atmospheric corrections
+            #
+            if np.isnan(trop) or np.isnan(iono).any():
+                continue
+
             # Phase wind-up effect
             #
             if self.nav.phw_opt > 0:
-- 
2.43.0


From 2ecc572ebb9eb8b2ef6d9154a4114a8ca0b6a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 192/215] fix: transmission time of GPS LNAV is in GPS time

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 079c240..e7aa5b1 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -463,7 +463,7 @@ class RawNav():
         eph.idot = idot*rCST.P2_43*rCST.SC2RAD
         eph.mode = 0  # LNAV
 
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = gpst2time(eph.week, tow)
         if toc < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
         elif toc > tow + rCST.HALFWEEK_SEC:
-- 
2.43.0


From 83f691dbcf392c2d02a62f0afb0ab51171525f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 193/215] fix: week of CNAV-2 reference time from seconds

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index e7aa5b1..324c667 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -762,9 +762,9 @@ class RawNav():
 
         eph.mode = 2  # CNAV/2
         eph.tot = gpst2time(eph.week, tow)
-        if toe < tow - rCST.HALFWEEK_SEC:
+        if eph.toes < tow - rCST.HALFWEEK_SEC:
             eph.week += 1
-        elif toe > tow + rCST.HALFWEEK_SEC:
+        elif eph.toes > tow + rCST.HALFWEEK_SEC:
             eph.week -= 1
         eph.toe = gpst2time(eph.week, eph.toes)
         eph.toc = eph.toe
-- 
2.43.0


From b69f3e70e67144b901ff51a00412478197b93a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 194/215] fix: week of the propagation time of CNAV when the
 8-bit week rolls over

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 324c667..da5ac98 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -632,7 +632,7 @@ class RawNav():
         eph.omg = omg*rCST.P2_32*rCST.SC2RAD
         eph.integ = (alert << 2) | (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn+(wn_op-wn+128) % 256-128
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
@@ -745,7 +745,7 @@ class RawNav():
         else:
             eph.integ = (esf << 1) | isf
 
-        eph.wn_op = wn//256*256 + wn_op
+        eph.wn_op = wn+(wn_op-wn+128) % 256-128
 
         eph.toes = toe*300.0
         eph.OMG0 = OMG0*rCST.P2_32*rCST.SC2RAD
-- 
2.43.0


From b933681a2c9c1e87ddcf1bc902f9b767ad5f48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 195/215] fix: BeiDou D1/D2 reference times are in GPS time, of
 the nearest week

---
 src/cssrlib/rawnav.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index da5ac98..8033327 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -57,6 +57,15 @@ def gep2time(N4, Nt, sod):
     return utc2gpst(timeadd(time, -10800.0))
 
 
+def adjweek(week, tow, t):
+    """ week of the time of week t which is nearest to week, tow """
+    if t < tow - rCST.HALFWEEK_SEC:
+        return week+1
+    elif t > tow + rCST.HALFWEEK_SEC:
+        return week-1
+    return week
+
+
 class RawNav():
     """ Raw Navigation Message decoder """
 
@@ -1151,12 +1160,9 @@ class RawNav():
 
         eph.toes = ((toe1 << 15)+toe2)*8.0
         eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
-        if eph.toes > sow1+rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif eph.toes < sow1-rCST.HALFWEEK_SEC:
-            eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        eph.toc = bdt2gpst(bdt2time(adjweek(eph.week, sow1, toc), toc))
+        eph.week = adjweek(eph.week, sow1, eph.toes)
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 1  # IGSO/MEO
         eph.mode = 0
@@ -1269,13 +1275,11 @@ class RawNav():
         eph.OMGd = ((OMGdp8 << 5)+OMGdp9)*rCST.P2_43*rCST.SC2RAD
         eph.omg = ((omgp9 << 5)+omgp10)*rCST.P2_31*rCST.SC2RAD
 
-        eph.tot = bdt2gpst(bdt2time(eph.week, sow_[0]))
-        if eph.toes > sow_[0]+302400.0:
-            eph.week += 1
-        elif eph.toes < sow_[0]-302400.0:
-            eph.week -= 1
-        eph.toc = bdt2time(eph.week, toc)
-        eph.toe = bdt2time(eph.week, eph.toes)
+        sow1 = int(sow_[0])
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
+        eph.toc = bdt2gpst(bdt2time(adjweek(eph.week, sow1, toc), toc))
+        eph.week = adjweek(eph.week, sow1, eph.toes)
+        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
 
         eph.flag = 2  # GEO
         eph.mode = 0
-- 
2.43.0


From c9df416448617a53ce045c70a60b9f37fd190a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 196/215] fix: M0 and the semi-major axis of BeiDou D2

---
 src/cssrlib/rawnav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 8033327..61dbf74 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1226,7 +1226,7 @@ class RawNav():
         # page 5
         i = 160*4
         cucp5 = bs.unpack_from('u4', buff, i+46)[0]
-        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 12, i+90, 8) * \
+        eph.M0 = self.getbits3(buff, i+50, 2, i+60, 22, i+90, 8) * \
             rCST.P2_31*rCST.SC2RAD
         eph.cus = self.getbits2(buff, i+98, 14, i+120, 4)*rCST.P2_31
         ep5 = bs.unpack_from('s10', buff, i+124)[0]
@@ -1234,7 +1234,7 @@ class RawNav():
         # page 6
         i = 160*5
         ep6 = self.getbitu2(buff, i+46, 6, i+60, 16)
-        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, 120, 4)*rCST.P2_19
+        sqrtA = self.getbitu3(buff, i+76, 6, i+90, 22, i+120, 4)*rCST.P2_19
         eph.A = sqrtA**2
         cicp6 = bs.unpack_from('s10', buff, i+124)[0]
 
-- 
2.43.0


From b4500a3767cdbb8b9013208c6f1fbf6e6722a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 197/215] fix: BeiDou D1/D2 mixed subframes of different frames

---
 src/cssrlib/rawnav.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 61dbf74..804b4b2 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1109,8 +1109,8 @@ class RawNav():
         if id1 != 1 or id2 != 2 or id3 != 3:
             return None
 
-        # if sow2 != sow1+6 or sow3 != sow2+6:
-        #    return None
+        if sow2 != sow1+6 or sow3 != sow2+6:
+            return None
 
         eph = Eph(sat)
 
@@ -1196,7 +1196,8 @@ class RawNav():
                 return None
             sow_[k] = self.getbitu2(buff, 160*k+18, 8, 160*k+30, 12)
             if k == 2:
-                sow_[k] != sow_[k-2]+6
+                if sow_[k] != sow_[k-2]+6:
+                    return None
             elif k > 0 and sow_[k] != sow_[k-1]+3:
                 return None
 
-- 
2.43.0


From 1ef019027945af7d67f94140607f0bb5164316af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 198/215] fix: times of BeiDou B-CNAV1/2/3: GPS time, nearest
 week, week of message 30

---
 src/cssrlib/rawnav.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 804b4b2..820b9fc 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -781,7 +781,7 @@ class RawNav():
 
         return eph
 
-    def decode_bds_cnav_eph1(self, msg, eph, i):
+    def decode_bds_cnav_eph1(self, msg, eph, i, tow):
         """ BDS CNAV message decoder for Ephemeris I """
         toe, sattype, dA, Adot, deln, delnd, M0, ecc, omg = \
             bs.unpack_from('u11u2s26s25s17s23s33u33s33', msg, i)
@@ -797,7 +797,8 @@ class RawNav():
 
         Aref = 27906100.0 if eph.sattype == 3 else 42162200.0
         eph.A = Aref + dA*2**-9
-        eph.toe = bdt2gpst(bdt2time(eph.week, eph.toes))
+        week = adjweek(eph.week, tow, eph.toes)
+        eph.toe = bdt2gpst(bdt2time(week, eph.toes))
         return i
 
     def decode_bds_cnav_eph2(self, msg, eph, i):
@@ -818,7 +819,7 @@ class RawNav():
 
         return i
 
-    def decode_bds_cnav_clk(self, msg, eph, i):
+    def decode_bds_cnav_clk(self, msg, eph, i, tow):
         """ BDS CNAV message decoder for Clock """
         toc, a0, a1, a2 = \
             bs.unpack_from('u11s25s22s11', msg, i)
@@ -827,7 +828,8 @@ class RawNav():
         eph.af0 = a0*rCST.P2_34
         eph.af1 = a1*rCST.P2_50
         eph.af2 = a2*rCST.P2_66
-        eph.toc = bdt2gpst(bdt2time(eph.week, tocs))
+        week = adjweek(eph.week, tow, tocs)
+        eph.toc = bdt2gpst(bdt2time(week, tocs))
         return i
 
     def decode_bds_cnav_iono(self, msg, i):
@@ -902,11 +904,11 @@ class RawNav():
             return None
 
         tow = how*3600+soh
-        eph.tot = bdt2time(eph.week, tow)
+        eph.tot = bdt2gpst(bdt2time(eph.week, tow))
 
-        i = self.decode_bds_cnav_eph1(msg, eph, i)
+        i = self.decode_bds_cnav_eph1(msg, eph, i, tow)
         i = self.decode_bds_cnav_eph2(msg, eph, i)
-        i = self.decode_bds_cnav_clk(msg, eph, i)
+        i = self.decode_bds_cnav_clk(msg, eph, i, tow)
         tgd_b2ap, isc_b1cd, tgd_b1cp = bs.unpack_from('s12s12s12', msg, i)
         eph.tgd = tgd_b1cp*rCST.P2_34
         eph.isc[0] = isc_b1cd*rCST.P2_34
@@ -992,7 +994,7 @@ class RawNav():
         eph.week, ib2a, eph.sismai, ib1c, eph.iode = bs.unpack_from(
             'u13u3s4u3u8', buff, i)
         i += 31
-        i = self.decode_bds_cnav_eph1(buff, eph, i)
+        i = self.decode_bds_cnav_eph1(buff, eph, i, sow1)
         eph.integ = (ib2a << 3)+ib1c
 
         # decode MT11
@@ -1003,7 +1005,7 @@ class RawNav():
 
         # decode MT30
         i = 320*2+42
-        i = self.decode_bds_cnav_clk(buff, eph, i)
+        i = self.decode_bds_cnav_clk(buff, eph, i, sow1)
 
         eph.iodc, tgd_b2ap, isc_b2ad = bs.unpack_from('u10s12s12', buff, i)
         i += 34
@@ -1019,7 +1021,7 @@ class RawNav():
         eph.tgd_b = tgd_b2ap*rCST.P2_34
 
         eph.svh = hs
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 2  # B-CNAV2
 
         return eph
@@ -1055,8 +1057,9 @@ class RawNav():
         eph.isc = np.zeros(6)
 
         # decode MT10
+        eph.week = bs.unpack_from('u13', buff, 512+ofst+26)[0]
         i = ofst+30
-        i = self.decode_bds_cnav_eph1(buff, eph, i)
+        i = self.decode_bds_cnav_eph1(buff, eph, i, sow1)
         i = self.decode_bds_cnav_eph2(buff, eph, i)
 
         eph.integ, eph.sismai = bs.unpack_from('u3s4', buff, i)
@@ -1064,9 +1067,8 @@ class RawNav():
 
         # decode MT30
         i = 512+ofst+26
-        eph.week = bs.unpack_from('u13', buff, i)[0]
         i += 13+4
-        i = self.decode_bds_cnav_clk(buff, eph, i)
+        i = self.decode_bds_cnav_clk(buff, eph, i, sow1)
         eph.tgd = bs.unpack_from('s12', buff, i)[0]*rCST.P2_34  # tgd-B2bI
         i += 12
         i = self.decode_bds_cnav_iono(buff, i)
@@ -1076,7 +1078,7 @@ class RawNav():
         eph.sisai[0], eph.svh = bs.unpack_from('u5u2', buff, i)
         i += 7
 
-        eph.tot = bdt2time(eph.week, sow1)
+        eph.tot = bdt2gpst(bdt2time(eph.week, sow1))
         eph.mode = 3  # B-CNAV3
 
         return eph
-- 
2.43.0


From 99baefaa743dcb2fac890e05229c831e370e59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 199/215] fix: week of the reference times of NavIC

---
 src/cssrlib/rawnav.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 820b9fc..5840b57 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -1366,15 +1366,11 @@ class RawNav():
         eph.OMGd = OMGd*rCST.P2_41*rCST.SC2RAD
         eph.i0 = i0*rCST.P2_31*rCST.SC2RAD
 
-        eph.toc = gpst2time(eph.week, toc)
+        eph.tot = gpst2time(eph.week, tow1)
+        eph.toc = gpst2time(adjweek(eph.week, tow1, toc), toc)
+        eph.week = adjweek(eph.week, tow1, eph.toes)
         eph.toe = gpst2time(eph.week, eph.toes)
 
-        if eph.toes > tow1+302400.0:
-            week += 1
-        elif eph.toes < tow1-302400.0:
-            week -= 1
-        eph.tot = gpst2time(week, tow1)
-
         eph.mode = 0
         return eph
 
@@ -1552,9 +1548,9 @@ class RawNav():
         eph.cuc = cuc*rCST.P2_30
 
         eph.mode = 2  # L1NAV
-        eph.toe = gst2time(eph.week, eph.toes)
-        eph.toc = eph.toe
         eph.tot = gst2time(eph.week, tow)
+        eph.toe = gst2time(adjweek(eph.week, tow, eph.toes), eph.toes)
+        eph.toc = eph.toe
 
         return eph
 
-- 
2.43.0


From 7d91be362c78298f5238430ea8c65b0836492238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 200/215] fix: Galileo F/NAV compared issue number bits with
 the satellite number

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 5840b57..cf5e49c 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -306,7 +306,7 @@ class RawNav():
         sid3, iodnav3 = bs.unpack_from('u6u10', buff, 248*2)
         sid4, iodnav4 = bs.unpack_from('u6u10', buff, 248*3)
 
-        if svid != svid1 or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
+        if svid1 != prn or sid1 != 1 or sid2 != 2 or sid3 != 3 or sid4 != 4:
             return None
         if iodnav1 != iodnav2 or iodnav1 != iodnav3 or iodnav1 != iodnav4:
             return None
-- 
2.43.0


From 4f59155cb7574c41021e09cf2a2aacdd41ca1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 201/215] fix: Galileo alert pages overwrote navigation words

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index cf5e49c..ed3e541 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -192,7 +192,7 @@ class RawNav():
         # odd_, page_ = bs.unpack_from('u1u1', msg, 120)
         sid, iodnav = bs.unpack_from('u6u10', msg, 2)
 
-        if sid == 0 or sid > 5:
+        if page != 0 or sid == 0 or sid > 5:  # alert page, other words
             return None
 
         buff = self.gal_inav[prn-1]
-- 
2.43.0


From 9ca18f777e1168a1f6872837f83ad0954645f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 202/215] fix: week of Galileo ephemerides is that of toe

---
 src/cssrlib/rawnav.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index ed3e541..7561c78 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -268,12 +268,10 @@ class RawNav():
             eph.code |= (1 << 8)  # toc/af0-2, SISA are for E5a, E1
 
         eph.tot = gst2time(week_gst, tow)
-        if toc < tow - rCST.HALFWEEK_SEC:
-            week_gst += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            week_gst -= 1
+        eph.toc = gst2time(adjweek(week_gst, tow, toc), toc)
+        week_gst = adjweek(week_gst, tow, eph.toes)
+        eph.week = week_gst + 1024
         eph.toe = gst2time(week_gst, eph.toes)
-        eph.toc = gst2time(week_gst, toc)
 
         # I/NAV clock refers to (E1, E5b)
         eph.tgd = bgdb*rCST.P2_32    # TGD (E1, E5b)
@@ -355,13 +353,10 @@ class RawNav():
 
         eph.tot = gst2time(week_gst, tow)
 
-        if toc < tow - rCST.HALFWEEK_SEC:
-            week_gst += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            week_gst -= 1
-
+        eph.toc = gst2time(adjweek(week_gst, tow, toc), toc)
+        week_gst = adjweek(week_gst, tow, eph.toes)
+        eph.week = week_gst + 1024
         eph.toe = gst2time(week_gst, eph.toes)
-        eph.toc = gst2time(week_gst, toc)
 
         eph.tgd = bgda*rCST.P2_32    # TGD (E1, E5a)
         eph.tgd_b = 0.0
-- 
2.43.0


From b7b3381039388b24c408ceaf1ce390050d75f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 203/215] fix: week of GPS LNAV is that of toe

---
 src/cssrlib/rawnav.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 7561c78..ce749c0 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -468,12 +468,8 @@ class RawNav():
         eph.mode = 0  # LNAV
 
         eph.tot = gpst2time(eph.week, tow)
-        if toc < tow - rCST.HALFWEEK_SEC:
-            eph.week += 1
-        elif toc > tow + rCST.HALFWEEK_SEC:
-            eph.week -= 1
-
-        eph.toc = gpst2time(eph.week, toc)
+        eph.toc = gpst2time(adjweek(eph.week, tow, toc), toc)
+        eph.week = adjweek(eph.week, tow, eph.toes)
         eph.toe = gpst2time(eph.week, eph.toes)
 
         return eph
-- 
2.43.0


From 4ac0d495e2f612643d2c7ce23f059551968945a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 204/215] fix: Galileo E5b C/N0 in the receiver signal table

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index ce749c0..2fe7f04 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -2028,7 +2028,7 @@ class rcvDec():
                          rSigRnx('EL8Q'), rSigRnx('EL6C')],
                 uTYP.D: [rSigRnx('ED1C'), rSigRnx('ED5Q'), rSigRnx('ED7Q'),
                          rSigRnx('ED8Q'), rSigRnx('ED6C')],
-                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('GS7Q'),
+                uTYP.S: [rSigRnx('ES1C'), rSigRnx('ES5Q'), rSigRnx('ES7Q'),
                          rSigRnx('ES8Q'), rSigRnx('ES6C')],
             }
 
-- 
2.43.0


From 90e0f1b57df12cd027b884bda8fa707143a91892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 205/215] fix: NavIC subframe 1 never received was taken as
 received

---
 src/cssrlib/rawnav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rawnav.py b/src/cssrlib/rawnav.py
index 2fe7f04..b456bdc 100644
--- a/src/cssrlib/rawnav.py
+++ b/src/cssrlib/rawnav.py
@@ -115,7 +115,7 @@ class RawNav():
 
         self.irn_nav = {}
         for k in range(uGNSS.IRNMAX):
-            self.irn_nav[k] = bytearray(200)
+            self.irn_nav[k] = bytearray(b'\xff'*200)  # 0 is a valid id
 
     def u2s(self, u, blen):
         if u & (1 << (blen-1)):
-- 
2.43.0


From 0856be8c3e229a61da4e5bee71c61542180c42b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 206/215] fix: signal accuracy of ephemerides read from RINEX
 was truncated to metres

---
 src/cssrlib/rinex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index f248f3c..1bd87bc 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -642,7 +642,7 @@ class rnxdec:
                 else:
                     eph.tgd = self.flt(line, 2)
             else:
-                eph.sva = int(self.flt(line, 0))
+                eph.sva = self.flt(line, 0)
                 eph.svh = int(self.flt(line, 1))
                 eph.tgd = float(self.flt(line, 2))
                 if sys == uGNSS.GPS or sys == uGNSS.QZS:
@@ -650,7 +650,7 @@ class rnxdec:
                         eph.iodc = int(self.flt(line, 3))
                     else:
                         eph.urai[2] = int(self.flt(line, 3))  # URAI_NED2
-                        eph.urai[3] = eph.sva  # URAI_ED
+                        eph.urai[3] = int(eph.sva)  # URAI_ED
                 elif sys == uGNSS.GAL:
                     tgd_b = float(self.flt(line, 3))
                     if (eph.code >> 9) & 1:  # E5b,E1
-- 
2.43.0


From 3ae82a438966c5326d5bd1cece07156557c1e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 207/215] fix: age of GLONASS CDMA data was truncated to days

---
 src/cssrlib/rinex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 1bd87bc..1adcb98 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -453,8 +453,8 @@ class rnxdec:
                     else:  # L1OC,L3OC
                         geph.sattype = int(self.flt(line, 0))
                         geph.src = int(self.flt(line, 1))
-                        geph.aode = int(self.flt(line, 2))
-                        geph.aodc = int(self.flt(line, 3))
+                        geph.aode = self.flt(line, 2)
+                        geph.aodc = self.flt(line, 3)
 
                         line = fnav.readline()  # line #5
                         geph.flag = int(self.flt(line, 0))  # attitude flag
-- 
2.43.0


From 05ffd914ba21002a97670166062b3a92546199a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 208/215] fix: RINEX navigation output: transmission time
 refers to the reported week

---
 src/cssrlib/rinex.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 1adcb98..8c719aa 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -1197,9 +1197,16 @@ class rnxenc:
         if sys == uGNSS.BDS:
             ep = time2epoch(gpst2bdt(eph.toc))
             week, tot_ = time2bdt(gpst2bdt(eph.tot))
+            week_ref, _ = time2bdt(gpst2bdt(
+                eph.toe if eph.mode == 0 else eph.toc))
         else:
             ep = time2epoch(eph.toc)
             week, tot_ = time2gpst(eph.tot)
+            week_ref, _ = time2gpst(
+                eph.toe if eph.mode == 0 or sys == uGNSS.GAL else eph.toc)
+
+        # refer the transmission time to the week of the record
+        tot_ += (week-week_ref)*604800.0
 
         if sys == uGNSS.BDS:
             if eph.mode == 0:  # D1/D2
-- 
2.43.0


From d1b6a8cfa4f4c0d26341c1b963f7e8b5f7774397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 209/215] fix: transmission time of SBAS ephemerides near the
 end of the week

---
 src/cssrlib/rinex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rinex.py b/src/cssrlib/rinex.py
index 8c719aa..bc17dbb 100644
--- a/src/cssrlib/rinex.py
+++ b/src/cssrlib/rinex.py
@@ -13,7 +13,7 @@ from cssrlib.gnss import gpst2time, bdt2time, epoch2time, timediff, gtime_t
 from cssrlib.gnss import prn2sat, char2sys, timeget, utc2gpst, time2epoch
 from cssrlib.gnss import Eph, Geph, Obs, Nav, sat2id, sat2prn, gpst2bdt, time2gpst
 from cssrlib.gnss import timeadd, id2sat, gpst2utc, Seph, STOParam, EOPParam
-from cssrlib.gnss import IONParam
+from cssrlib.gnss import IONParam, adjtime
 
 
 class pclk_t:
@@ -507,7 +507,7 @@ class rnxdec:
                 seph.tot = self.flt(line, 3)
                 seph.t0 = seph.toc
                 week, _ = time2gpst(seph.toc)
-                seph.tof = gpst2time(week, seph.tot)
+                seph.tof = adjtime(gpst2time(week, seph.tot), seph.toc)
 
                 line = fnav.readline()  # line #1
                 pos[0] = self.flt(line, 0)*1e3
-- 
2.43.0


From 2d2124e39f59aa80566ed2f482f1778cb4f69cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 210/215] fix: select the SBAS grid points of 85 deg south
 enclosing the pierce point

---
 src/cssrlib/sbas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/sbas.py b/src/cssrlib/sbas.py
index 7925949..da67770 100644
--- a/src/cssrlib/sbas.py
+++ b/src/cssrlib/sbas.py
@@ -109,12 +109,12 @@ def searchIGP(t, posp, cs):
             lonp[1] = lon//90*90
             lonp[3] = lonp[1]+90
         elif lat >= -85.0 and lat < -75.0:
-            lonp[0] = (lon-50.0)//90*90+40
+            lonp[0] = (lon-40.0)//90*90+40
             lonp[2] = lonp[0] + 90
         elif lat >= 85.0:
             lonp[0:4] = lon//90*90
         elif lat < -85.0:
-            lonp[0:4] = (lon-50)//90*90+40
+            lonp[0:4] = (lon-40)//90*90+40
 
     latp[2] = latp[0]
     latp[3] = latp[1]
-- 
2.43.0


From 09ac6357c64833a6dd2003afa09ee354cc42dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 211/215] fix: skip only the decoded fields in the extended
 integrity message MT2005

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 0c73a3a..4755cd6 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3503,7 +3503,7 @@ class rtcm(cssr, rtcmUtil):
         # TTTcomm DFi050
         # Service Provider Solution Type DFi004
         ilvl, ttt, stype = bs.unpack_from('u8u7u15', msg, i)
-        i += 82
+        i += 30
 
         self.integ.ilvl = ilvl
         self.integ.ttt = (ttt+1)*0.1
-- 
2.43.0


From 0e4d53b68d3549e4b28602733ce7cd757b50ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 212/215] fix: decode the integrity message MT2006 instead of
 raising TypeError

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 4755cd6..06f7c67 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3636,7 +3636,7 @@ class rtcm(cssr, rtcmUtil):
         # integrity parameter IOD DFi006
         # GNSS Constellation Mask DFi013
         # Time correlation integrity/continuity flag DFi137
-        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)[0]
+        iod_ip, mask_sys, fc = bs.unpack_from('u6u16u1', msg, i)
         i += 23
 
         self.integ.iod_ip = iod_ip
-- 
2.43.0


From 1635086ff3394256f6009353bac6af00b76e7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 213/215] fix: do not swap pseudorange and phase error rate
 bounds of MT2006

---
 src/cssrlib/rtcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 06f7c67..43f097b 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -3683,7 +3683,7 @@ class rtcm(cssr, rtcmUtil):
                 # Nominal pseudorange bias rate of change DFi125
                 # Bounding sigma on phase-range-rate error DFi122
                 # Phase-range-rate error rate integrity index DFi123
-                sig_pd, sig_cd, cbr, sig_dp, idx_dp = bs.unpack_from(
+                sig_cd, sig_pd, cbr, sig_dp, idx_dp = bs.unpack_from(
                     'u4u4u3u4u4', msg, i)
                 i += 19
 
-- 
2.43.0


From aa6ecf3679c6c64691e285dd32c70e97ffb90322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 214/215] fix: C/N0 indicator 0 of MT2091 means not available

---
 src/cssrlib/rtcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 43f097b..259aac8 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -270,9 +270,9 @@ class Integrity():
         cnr = -1
         if idx>0 and idx<20:
             cnr = idx-1
-        elif idx<245:
+        elif idx>=20 and idx<245:
             cnr = 19+(idx-20)*0.2
-        else:
+        elif idx>=245:
             cnr = 64+(idx-245)
         
         return cnr
-- 
2.43.0


From 87cb5e3b1aa18945d2b7216488e9df0e09e64df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 215/215] fix: log integrity message MT2000 received before any
 service area id

---
 src/cssrlib/rtcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cssrlib/rtcm.py b/src/cssrlib/rtcm.py
index 259aac8..3d321cd 100644
--- a/src/cssrlib/rtcm.py
+++ b/src/cssrlib/rtcm.py
@@ -199,6 +199,7 @@ class Integrity():
         self.pid = 0  # augmentation provider id DFi027 (0-4095)
         self.vp = 0  # validity period DFi065 (0-15)
         self.udi = 0  # update rate interval DFi067 (b16)
+        self.aid = 0  # service area id DFi075
 
         # placeholder for RTCM SSR
         self.pidssr = 0  # SSR provider ID
-- 
2.43.0

