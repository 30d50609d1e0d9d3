From b3a295aaa7e6af2027646b11c7fccf0ee70e88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 01/14] fix: dipole_k uses ab_calc for angle factor and J2
 scaling of magnetic receivers

---
 empymod/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..09cd5dd 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1439,7 +1439,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
 
     # Get angle-dependent factor
     off, angle = get_off_ang(src, rec, nsrc, nrec, verb)
-    ang_fact = kernel.angle_factor(angle, ab, msrc, mrec)
+    ang_fact = kernel.angle_factor(angle, ab_calc, msrc, mrec)
 
     # Get layer number in which src and rec reside (lsrc/lrec)
     lsrc, zsrc = get_layer_nr(src, depth)
@@ -1473,7 +1473,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
         # Collect output
         if J1 is not None:
             PJ1 += ang_fact[:, np.newaxis]*J1
-            if ab in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
+            if ab_calc in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
                 # J2(kr) = 2/(kr)*J1(kr) - J0(kr)
                 PJ1 /= off[:, None]
         if J0 is not None:
-- 
2.43.0


From 54ff8e716367c793879a758f6278c8fe0488fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 02/14] fix: gpr applies no gain if gain=None, as documented

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 09cd5dd..e1ff3e6 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1281,7 +1281,8 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     conv_warning(conv, ftarg, 'Fourier', verb)
 
     # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From 8f53769acbbbfb66fe2042c7abcd859a413af550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 03/14] fix: analytical diffusive solution accepts list-like
 freqtime

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index e1ff3e6..efd989d 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1157,7 +1157,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.array(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From 01435d7af4a016356907412657f5c30064642f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 04/14] fix: check_hankel rejects substrings of 'quad'

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..f41dcc9 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -657,7 +657,7 @@ def check_hankel(ht, htarg, verb):
             if targ['limit']:
                 print(f"     > limit (quad):  {targ['limit']}")
 
-    elif ht in 'quad':  # QUAD
+    elif ht == 'quad':  # QUAD
 
         # rtol : 1e-12
         targ['rtol'] = _check_var(
-- 
2.43.0


From abe175f33e71c6855d95833199449db042a46dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 05/14] fix: tmtemod du-correction is relative to the upper
 interface of the layer

---
 empymod/scripts/tmtemod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 1c9a3b6..bab8177 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -537,7 +537,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTE[0] += npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTE[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTE[3] += npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # TM modes TM[uu, ud, du, dd]
@@ -545,7 +545,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTM[0] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTM[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lrec]))
     PTM[3] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # 3.5 Reshape for number of sources
-- 
2.43.0


From f6feee3d8bb3e849b954a8b1bb686168914354d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 06/14] fix: load_filter restores a full filter with a single
 shift value

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 8738c5f..ed8bf21 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -557,7 +557,7 @@ def load_filter(name, full=False, path='filters', filter_coeff=None):
                                     '_full.txt' + suffix)
 
             # Read data
-            out = np.loadtxt(fullfile)
+            out = np.loadtxt(fullfile, ndmin=2)
 
         except IOError:
             return filt
-- 
2.43.0


From 5c916a615d5b084e818457ece4ee3f5ddf6aea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 07/14] fix: negative source strength is applied, as documented
 (!= 0)

---
 empymod/model.py | 2 +-
 empymod/utils.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index efd989d..1aa252c 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -606,7 +606,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
 
             # Scale signal for src-strength and src/rec-lengths
             src_rec_w = 1
-            if strength > 0:
+            if strength != 0:
                 src_rec_w *= np.repeat(src_w, irec)
                 src_rec_w *= np.tile(rec_w, isrc)
             sEM *= src_rec_w
diff --git a/empymod/utils.py b/empymod/utils.py
index f41dcc9..d14cf7a 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1859,9 +1859,9 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
         # If dipole, g_w are ones
         g_w = np.ones(tinp[0].size)
 
-        # If dipole, inp_w are ones, unless strength > 0
+        # If dipole, inp_w are ones, unless strength != 0
         inp_w = np.ones(tinp[0].size)
-        if name == 'src' and strength > 0:
+        if name == 'src' and strength != 0:
             inp_w *= strength
 
         # Collect output
@@ -1918,7 +1918,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # Scaling
         inp_w = np.ones(dl.size)
-        if strength > 0:  # If strength > 0, we scale it by dipole-length
+        if strength != 0:  # If strength != 0, scale it by dipole-length
             inp_w *= dl
             if name == 'src':  # If source, additionally by source strength
                 inp_w *= strength
-- 
2.43.0


From 68be94d63e52cff61065dc1bcc0265a4a3a78f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 08/14] fix: fullspace for horizontal magnetic-magnetic pairs
 in the Laplace domain

---
 empymod/kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index df13c48..af703f3 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -831,11 +831,11 @@ def fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH, zetaV, ab, msrc,
 
         term3 = -zetaH[:, None]*coo1*coo2/(off*off)*(uGamTM - uGamTE)
 
-        term4 = -np.sqrt(zetaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
-        if np.any(zetaH.imag < 0):  # We need the sqrt where Im > 0.
-            term4 *= -1     # This if-statement corrects for it.
+        # (sqrt(zetaH/etaH) written such that it is also valid for MM, where
+        # eta and zeta are switched and negative, in the Laplace domain.)
+        term4 = -zetaH[:, None]*(2*coo1*coo2/(off*off) - delta)
         term4 *= np.exp(-lGamTM[:, None]*RTM) - np.exp(-lGamTE[:, None]*RTE)
-        term4 /= 4*np.pi*np.sqrt(etaH)[:, None]*off*off
+        term4 /= 4*np.pi*np.sqrt(zetaH*etaH)[:, None]*off*off
 
         gin = term1 + term2 + term3 + term4
 
-- 
2.43.0


From da67e7ffa5688773db10658f4d3b2f8cb7e34f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 09/14] fix: FFTLog transform of the highest mode (odd n;
 biased, even n)

---
 empymod/transform.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..a9e2ceb 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -750,13 +750,13 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     a = sp.fftpack.rfft(a)
 
     # 4.b
-    m = np.arange(1, n//2, dtype=np.int64)  # index variable
+    m = np.arange(1, (n+1)//2, dtype=np.int64)  # index variable
     if q == 0:  # unbiased (q = 0) transform
         # multiply by (kr)^[- i 2 m pi/(n dlnr)] U_mu[i 2 m pi/(n dlnr)]
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[:m.size] - ai*argsin[:m.size]
+        a[2*m] = ar*argsin[:m.size] + ai*argcos[:m.size]
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
             ar = argcos[-1]
@@ -767,17 +767,16 @@ def fourier_fftlog(fEM, time, freq, ftarg):
         # phase
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[:m.size] - ai*argsin[:m.size]
+        a[2*m] = ar*argsin[:m.size] + ai*argcos[:m.size]
 
         a[0] *= argcos1
-        a[2*m-1] *= argamp[:-1]
-        a[2*m] *= argamp[:-1]
+        a[2*m-1] *= argamp[:m.size]
+        a[2*m] *= argamp[:m.size]
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-            m = int(n/2)-3
-            ar = argcos[m-1]*argamp[m-1]
+            ar = argcos[-1]*argamp[-1]
             a[-1] *= ar
 
     # 4.c normal FFT back
-- 
2.43.0


From cb886f0aaf455e7f28ca5c1302a3f83451f96ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 10/14] fix: do not modify the input of the FFTLog cosine
 transform

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index a9e2ceb..d2c5594 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -699,7 +699,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     if mu > 0:  # Sine
         a = -fEM.imag
     else:       # Cosine
-        a = fEM.real
+        a = fEM.real.copy()
     n = a.size
 
     # 1. Amplitude and Argument of kr^(-2 i y) U_mu(q + 2 i y)
-- 
2.43.0


From e31383c2c8cc97799586bc442b89afb42209c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 11/14] fix: Fourier QWE sums the quadrature nodes per interval
 before the extrapolation

---
 empymod/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index d2c5594..33eadfe 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -647,6 +647,7 @@ def fourier_qwe(fEM, time, freq, ftarg):
     # Carry out QWE for 'well-behaved' intervals
     if np.any(doqwe):
         sEM = tEM_int(np.log(Bx/time[doqwe, None]))*SS
+        sEM = sEM.reshape(-1, maxint, nquad).sum(2)  # Sum per interval
         tEM[doqwe], _, tc = qwe(rtol, atol, maxint, sEM, intervals[doqwe, :])
         conv *= tc
 
-- 
2.43.0


From 8c96330dc89c037f5736a07df8005dbd282268fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 12/14] fix: qwe returned the previous (or no) extrapolation
 for converged rows

---
 empymod/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 33eadfe..6f6a896 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1110,12 +1110,12 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
             relErr[om, i-1] = np.abs(rErr)
             abserr = atol/np.abs(extrap[om, i-1])
 
+            # Store in EM (before updating om: incl. the ones that converged now)
+            EM[om] = extrap[om, i-1]
+
             # Update booleans
             om[om] *= relErr[om, i-1] >= rtol + abserr
 
-            # Store in EM
-            EM[om] = extrap[om, i-1]
-
         if (~om).all():
             break
 
-- 
2.43.0


From e18479dc11d016321cde1dc96b2dcd3dc7d2c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 13/14] fix: ip_and_q picks the co-planar primary also for ab
 given as string

---
 empymod/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/model.py b/empymod/model.py
index 1aa252c..f09cb41 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1570,6 +1570,7 @@ def ip_and_q(**kwargs):
     new = copy.deepcopy(kwargs)
 
     # For the primary field, use the co-planar field of source configuration.
+    new['ab'] = int(new['ab'])
     if new['ab'] in [44, 54, 64]:
         new['ab'] = 44
     elif new['ab'] in [45, 55, 65]:
-- 
2.43.0


From 96db2aafb307211053d12c5b4d7688172eb4da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 14/14] fix: invalid signals and inconsistent waveforms are
 rejected

Non-integer signals (e.g. 0.5) and the base signal of a waveform were not
checked and computed as impulse response; amplitudes of different length
than the nodes were silently broadcast.
---
 empymod/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index d14cf7a..1e77e58 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1329,7 +1329,7 @@ def check_time_only(time, signal, verb, new=False):
         if verb > 2:
             print(f"   signal          :  {signal['signal']}")
 
-    elif int(signal) not in [-1, 0, 1]:
+    elif signal not in [-1, 0, 1]:
         raise ValueError("<signal> must be one of: [None, -1, 0, 1, dict]; "
                          f"<signal> provided: {signal}")
     elif verb > 2:
@@ -1393,6 +1393,13 @@ def check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):
     """
     global _min_time
 
+    # Check signal and waveform.
+    if signal not in [-1, 0, 1]:
+        raise ValueError("<signal> of the waveform must be one of: [-1, 0, "
+                         f"1]; <signal> provided: {signal}")
+    nodes = _check_var(nodes, float, 1, 'nodes')
+    amplitudes = _check_var(amplitudes, float, 1, 'amplitudes', nodes.shape)
+
     # Waveform segments.
     dt = np.diff(nodes)
     dI = np.diff(amplitudes)
-- 
2.43.0

