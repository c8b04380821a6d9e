From 23fabf70ea79016309af31ea49454c015263c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 01/93] fix: fmconst no longer rescales by a sample that may be
 missing or off the unit circle

---
 tftb/generators/frequency_modulated.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 6857a66..ae08f12 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -32,7 +32,6 @@ def fmconst(n_points, fnorm=0.25, t0=None):
     else:
         tmt0 = np.arange(n_points) - t0
         y = np.exp(1j * 2.0 * np.pi * fnorm * tmt0)
-        y = y / np.real(y[int(t0)])
         iflaw = fnorm * np.ones((n_points,))
         return y, iflaw
 
-- 
2.43.0


From ab0cc9106fd6eeb094cb476fb4f14fe817ca20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 02/93] fix: fmpar phase is the integral of its frequency law

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index ae08f12..918018e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -165,7 +165,7 @@ def fmpar(n_points, coefficients):
     """
     a0, a1, a2 = coefficients
     t = np.arange(n_points)
-    phi = 2 * np.pi * (a0 * t + (a1 / 2 * t) ** 2 + (a2 / 3 * t) ** 3)
+    phi = 2 * np.pi * (a0 * t + a1 / 2 * t ** 2 + a2 / 3 * t ** 3)
     iflaw = a0 + a1 * t + a2 * (t ** 2)
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From 9ec4df3bad24454e6f697062e64c08d3d5f15a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:40 +0000
Subject: [PATCH 03/93] fix: fmpower time axis starts at 1 so the law is finite

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 918018e..bfed0db 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(n_points)
+    t = np.arange(1, n_points + 1)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From 8732819bf7a744a0514bfe315dfeab1d5b585e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:58 +0000
Subject: [PATCH 04/93] fix: fmodany accepts exactly t0 in 1..len(iflaw) and
 checks column vectors too

---
 tftb/generators/frequency_modulated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index bfed0db..7511708 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -136,14 +136,14 @@ def fmodany(iflaw, t0=1):
         if iflaw.shape[1] != 1:
             raise TypeError("iflaw should be a column vector.")
 
-    elif np.amax(np.abs(iflaw)) > 0.5:
+    if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
-    if (t0 > iflaw.shape[0]) or (t0 == 0):
+    if (t0 > iflaw.shape[0]) or (t0 < 1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-    y = y * np.conjugate(y[t0])
+    y = y * np.conjugate(y[int(t0) - 1])
     return y
 
 
-- 
2.43.0


From e820611e2c83e05d7755c4c647ad40cde7224453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 05/93] fix: fmlin of a single point no longer divides by zero

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 7511708..72d0cca 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -103,7 +103,7 @@ def fmlin(n_points, fnormi=0.0, fnormf=0.5, t0=None):
 
     else:
         y = np.arange(1, n_points + 1)
-        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * (n_points - 1))) * \
+        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * max(n_points - 1, 1))) * \
             ((y - 1) ** 2 - (t0 - 1) ** 2)
         y = np.exp(1j * 2.0 * np.pi * y)
         y = y / y[int(t0) - 1]
-- 
2.43.0


From ca8eb0a1b43642fd572742b80cf1da287691bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 06/93] fix: keying generators keep at least one point per
 component by default

---
 tftb/generators/analytic_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..2fb01f4 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -23,7 +23,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaask.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 2.0)
+        n_comp = max(round(n_points / 2.0), 1)
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -53,7 +53,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anabpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(round(n_points / 5.0), 1)
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -82,7 +82,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     .. plot:: docstring_plots/generators/analytic_signals/anafsk.py
     """
     if n_comp is None:
-        n_comp = int(round(n_points / 5.0))
+        n_comp = max(int(round(n_points / 5.0)), 1)
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
@@ -134,7 +134,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaqpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(round(n_points / 5.0), 1)
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
-- 
2.43.0


From 8e3c0eb5e8762231d4509d8509e7f6d484a0fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 07/93] fix: anafsk and anaqpsk return n_points samples when
 n_comp does not divide n_points

---
 tftb/generators/analytic_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 2fb01f4..3d4a2b3 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From c06df2e5baab21b24d1b6d8910adab8fd095f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:27 +0000
Subject: [PATCH 08/93] fix: keying generators accept the integral float n_comp
 of their own examples

---
 tftb/generators/analytic_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 3d4a2b3..79f8dd5 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -28,7 +28,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
     jumps = np.random.rand(m)
-    am = np.repeat(jumps, n_comp)[:n_points]
+    am = np.repeat(jumps, int(n_comp))[:n_points]
     fm, _ = fmconst(n_points, f0, 1)
     y = am * fm
     return y, am
@@ -58,7 +58,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
     jumps = 2.0 * np.round(np.random.rand(m)) - 1
-    am = np.repeat(jumps, n_comp)[:n_points]
+    am = np.repeat(jumps, int(n_comp))[:n_points]
     y = am * fmconst(n_points, f0, 1)[0]
     return y, am
 
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
+    iflaw = np.repeat(freqs, int(n_comp)).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
+    pm0 = (np.pi * np.repeat(jumps, int(n_comp)) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From f572da602ba3518a6b04063a1f88c64a1f2b186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 09/93] fix: anasing samples the spectrum on the DFT bins for
 every n_points

---
 tftb/generators/analytic_signals.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 79f8dd5..86d857e 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -168,9 +168,7 @@ def anasing(n_points, t0=None, h=0.0):
     if t0 is None:
         t0 = n_points / 2.0
     if h <= 0:
-        start, end = 1.0 / n_points, 0.5 - 1.0 / n_points
-        N = int(end / start)
-        f = np.linspace(start, end, N)
+        f = np.arange(1, int(n_points / 2)) / n_points
         y = np.zeros((int(n_points / 2.0),), dtype=complex)
         y[1:int(n_points / 2)] = (f ** (-1 - h)) * np.exp(-1j * 2 * pi * f * (t0 - 1))
         x = np.real(np.fft.ifft(y, n_points))
-- 
2.43.0


From 7f54628869e3b4de4b94ece1bc0400e6bbbcfbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 10/93] fix: klauder returns n_points samples for odd n_points

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 16e9532..5296c8c 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -141,11 +141,11 @@ def klauder(n_points, attenuation=10.0, f0=0.2):
     assert n_points > 0
     assert ((f0 < 0.5) and (f0 > 0))
 
-    f = np.linspace(0., 0.5, int(n_points / 2 + 1))
+    f = np.arange(n_points // 2 + 1) / n_points
     mod = np.exp(-2. * np.pi * attenuation * f) * f ** (2. * np.pi * attenuation * f0 - 0.5)
     wave = mod
     wave[0] = 0
-    a, b = wave[:int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
+    a, b = wave[:(n_points + 1) // 2], wave[1:int(n_points / 2 + 1)][::-1]
     wave = np.hstack((a, b))
     wavet = np.fft.ifft(wave)
     wavet = np.fft.fftshift(wavet)
-- 
2.43.0


From 03b45ea723454cbd376fe2a0e0186a3ca5a5a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 11/93] fix: gdpower of degree 1 returns a unit-energy pulse
 and one delay per frequency bin

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 5296c8c..fd7d43b 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -215,7 +215,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     elif degree == 1.:
         from tftb.generators.analytic_signals import anapulse
         t0 = n_points
-        x = anapulse(n_points, t0)
+        x = anapulse(n_points, t0 - 1)
     elif degree > 1.:
         d = n_points * 2. ** (degree - 1.) * rate
         tfx[:lnu] = np.exp(-1.0j * 2.0 * pi * (t0 * nu + d * nu ** degree / degree)) * am
@@ -229,7 +229,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     if degree != 1.0:
         gpd = t0 + np.abs(np.sign(rate) - 1.0) / 2.0 * (n_points + 1.0) + d * nu ** (degree - 1.0)
     else:
-        gpd = t0 * np.ones((n_points / 2.0,))
+        gpd = t0 * np.ones((lnu,))
 
     x = x - x.mean()
     x = x / np.linalg.norm(x)
-- 
2.43.0


From 88241f3fdd36261f5409cb1b644773df959747b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 12/93] fix: doppler amplitude law has n_points samples when f0
 is zero

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index fd7d43b..0b6a014 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -113,7 +113,7 @@ def doppler(n_points, s_freq, f0, distance, v_target, t0=None, v_wave=340.0):
     dist = np.sqrt(distance ** 2 + (v_target * tmt0) ** 2)
     fm = np.exp(1j * 2 * pi * f0 * (tmt0 - dist / v_wave))
     if np.abs(f0) < np.spacing(1):
-        am = 0
+        am = np.zeros((n_points,))
     else:
         am = 1. / np.sqrt(dist)
     iflaw = (1 - v_target ** 2 * tmt0 / dist / v_wave) * f0 / s_freq
-- 
2.43.0


From 8ba131b4c50fdf43a36a0f34173f87181540ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 13/93] fix: noisecg and noisecu return 1-D noise for one and
 two points

---
 tftb/generators/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..c696852 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -25,7 +25,7 @@ def noisecu(n_points):
     .. plot:: docstring_plots/generators/noise/noisecu.py
     """
     if n_points <= 2:
-        noise = (np.random.rand(n_points, 1) - 0.5 + 1j * (np.random.rand(n_points, 1) - 0.5)) * \
+        noise = (np.random.rand(n_points) - 0.5 + 1j * (np.random.rand(n_points) - 0.5)) * \
             np.sqrt(6)
     else:
         noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points) + 1j * np.random.randn(n_points)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
-- 
2.43.0


From 7381f8cfd82fc263133c67bdfde457ebc5025784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 14/93] fix: dopnoise returns n_points samples instead of
 n_points - 1

---
 tftb/generators/noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index c696852..4732250 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -117,10 +117,10 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points: (2 * n_points)]) /\
+        np.sqrt(dist[n_points: (2 * n_points)])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:(2 * n_points)]
     return y, iflaw
 
 
-- 
2.43.0


From 3ad006d60a8c99828dca62414b526cd64bc96797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:25 +0000
Subject: [PATCH 15/93] fix: scale works for any signal length and number of
 voices

---
 tftb/generators/utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 7ecea4c..779c14a 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -45,7 +45,7 @@ def scale(X, a, fmin, fmax, N):
     """
     Z = hilbert(np.real(X))
     T = X.shape[0]
-    M = (T + np.remainder(T, 2)) / 2
+    M = (T + np.remainder(T, 2)) // 2
 
     # B = fmax - fmin
     # R = B / ((fmin + fmax) / 2)
@@ -54,11 +54,11 @@ def scale(X, a, fmin, fmax, N):
     # Ndflt = 2 ** nextpow2(Nmin)
 
     # Geometric sampling of the analyzed spectrum
-    k = np.arange(N)
+    k = np.arange(1, N + 1)
     q = (fmax / float(fmin)) ** (1.0 / (N - 1.0))
     geo_f = fmin * np.exp((k - 1) * np.log(q))
     t = np.arange(X.shape[0]) - M - 1
-    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(128, 1), geo_f.reshape(1, 128)) * np.pi)
+    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(-1, 1), geo_f.reshape(1, -1)) * np.pi)
     ZS = np.dot(Z, tfmatx)
     ZS = np.hstack((ZS, np.zeros((N,))))
 
@@ -68,7 +68,7 @@ def scale(X, a, fmin, fmax, N):
     beta = (p / float(N) - 1.0) / (2 * np.log(q))
 
     # Inverse mellin and fourier transform.
-    Mmax = np.amax(np.ceil(X.shape[0] / 2.0 * a))
+    Mmax = int(np.amax(np.ceil(X.shape[0] / 2.0 * a)))
     if isinstance(a, np.ndarray):
         S = np.zeros((2 * Mmax, a.shape[0]), dtype=complex)
     else:
@@ -76,12 +76,12 @@ def scale(X, a, fmin, fmax, N):
         ptr = 0
         DMS = np.exp(-2 * np.pi * 1j * beta * np.log(a)) * MS
         DS = np.fft.fft(np.fft.fftshift(DMS), axis=0)
-        Mcurrent = np.ceil(a * X.shape[0] / 2)
+        Mcurrent = int(np.ceil(a * X.shape[0] / 2))
         t = np.arange(-Mcurrent, Mcurrent) - 1
-        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((256, 1)),
-                                                 geo_f.reshape((1, 128))))
+        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((-1, 1)),
+                                                 geo_f.reshape((1, -1))))
         dilate_sig = np.zeros((2 * Mcurrent,), dtype=complex)
-        for kk in range(2 * int(Mcurrent)):
+        for kk in range(2 * Mcurrent):
             dilate_sig[kk] = trapezoid(itfmatx[kk, :] * DS[:N], geo_f)
         S[(Mmax - Mcurrent):(Mmax + Mcurrent)] = dilate_sig
         ptr += 1
-- 
2.43.0


From 674fae47d41b0ad7811335c75c0c2ef953baab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 16/93] fix: locfreq labels the DFT bins correctly for odd
 lengths

---
 tftb/processing/freq_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 33f7c72..ad4e256 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -25,12 +25,12 @@ def locfreq(signal):
             raise TypeError
         else:
             signal = signal.ravel()
-    no2r = np.round(signal.shape[0] / 2.0)
+    no2r = np.ceil(signal.shape[0] / 2.0)
     no2f = np.floor(signal.shape[0] / 2.0)
     sig = np.fft.fft(signal)
     sig = np.abs(sig) ** 2
     sig = sig / sig.mean()
-    freqs = np.hstack((np.arange(no2f), np.arange(-no2r, 0))) / signal.shape[0]
+    freqs = np.hstack((np.arange(no2r), np.arange(-no2f, 0))) / signal.shape[0]
     fm = np.mean(freqs * sig)
     bw = 2 * np.sqrt(np.pi * np.mean(((freqs - fm) ** 2) * sig))
     return fm, bw
-- 
2.43.0


From a92605062bed68297c76dcd0fb175fd41cead896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 17/93] fix: odd n_fbins get one frequency label per row

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..009ae43 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -44,7 +44,7 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange(self.n_fbins / 2),
                           np.arange(-self.n_fbins / 2, 0)]
         else:
-            freqs = np.r_[np.arange((self.n_fbins - 1) / 2),
+            freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
-- 
2.43.0


From 85380eac4567564ad3f998c92436bee42bf5d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 18/93] fix: STFT columns are centred on their own sample and
 long windows no longer collide

---
 tftb/processing/linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..a4f8d4b 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -56,12 +56,12 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
 
         Where :math:`w` is a Hamming window."""
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0), lh])
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                               np.arange(self.ts.shape[0]) - 1],
+                               np.arange(self.ts.shape[0])],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                            self.signal.shape[0] - np.arange(self.ts.shape[0])],
+                            self.signal.shape[0] - 1 - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
@@ -69,7 +69,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             index = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
+            self.tfr[index, icol] = self.signal[(icol + tau).astype(int)] * \
                 conj_fwindow[(lh + tau).astype(int)]
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From 02e8a88b9d3ca96a53ba6d34267bd5ecdfbc0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:19 +0000
Subject: [PATCH 19/93] fix: Spectrogram columns are centred on their own
 sample

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..39507cd 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -21,11 +21,11 @@ class Spectrogram(ShortTimeFourierTransform):
 
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
-        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
+        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                      self.signal.shape[0] - self.ts], axis=1).astype(int)
+                      self.signal.shape[0] - 1 - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
             ti = self.ts[icol]
@@ -33,7 +33,7 @@ class Spectrogram(ShortTimeFourierTransform):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
+            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \
                 conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])
         self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From 236ec5a9268611223f5e4b0383ae645e069c82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 20/93] fix: run() starts from a clean matrix every time it is
 called

---
 tftb/processing/affine.py | 2 +-
 tftb/processing/cohen.py  | 7 +++++++
 tftb/processing/linear.py | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..56b69ec 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -170,7 +170,6 @@ class Scalogram(AffineDistribution):
         self.waveparams = waveparams
         s_centered = np.real(self.signal) - np.real(self.signal).mean()
         self.z = hilbert(s_centered)
-        self.tfr = self.tfr.astype(complex)
 
     def run(self):
         f = np.logspace(np.log10(self.fmin), np.log10(self.fmax), self.n_voices)
@@ -178,6 +177,7 @@ class Scalogram(AffineDistribution):
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
+        self.tfr = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
                 nha = self.waveparams * a[ptr]
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 39507cd..d7573d0 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -27,6 +27,7 @@ class Spectrogram(ShortTimeFourierTransform):
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
                       self.signal.shape[0] - 1 - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.tfr.shape[1]):
             ti = self.ts[icol]
             start = starts[icol]
@@ -49,6 +50,7 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
@@ -82,6 +84,7 @@ class PseudoPageRepresentation(PageRepresentation):
 
     def run(self):
         lh = (self.fwindow.shape[0] - 1) / 2
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
@@ -96,6 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
@@ -133,6 +137,7 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
             end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
@@ -155,6 +160,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
                          winlength * np.ones(self.ts.shape)], axis=1)
         conj_signal = np.conj(self.signal)
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             taumax = taulens[icol]
             tau = np.arange(-taumax, taumax + 1).astype(int)
@@ -193,6 +199,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
 
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
                           np.round(self.n_fbins / 2.0), lh)
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index a4f8d4b..817fcde 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -64,6 +64,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
                             self.signal.shape[0] - 1 - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.tfr.shape[1]):
             start = starts[icol]
             end = ends[icol]
-- 
2.43.0


From 78e482ede7bc1c57a474fe53ce559f7016aaad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 21/93] fix: plot() leaves the computed representation and
 returned arrays untouched

---
 tftb/processing/affine.py | 11 ++++++++---
 tftb/processing/cohen.py  | 24 ++++++++++++++++++------
 tftb/processing/linear.py | 12 ++++++++----
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 56b69ec..54a0778 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -107,15 +107,20 @@ class AffineDistribution(BaseTFRepresentation):
         return beta, mellin1, mellin2
 
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
+        tfr = self.tfr
+        self.tfr = self.tfr.copy()
         _thresh = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _thresh] = 0
         freq_y = kwargs.pop(
             "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
         )
 
-        super(AffineDistribution, self).plot(
-            kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
-        )
+        try:
+            super(AffineDistribution, self).plot(
+                kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
+            )
+        finally:
+            self.tfr = tfr
 
     def _get_interpolated_tf(self, tffr):
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index d7573d0..8b2621b 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -62,11 +62,15 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
+        tfr = self.tfr
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        super(PageRepresentation, self).plot(kind=kind, **kwargs)
+        try:
+            super(PageRepresentation, self).plot(kind=kind, **kwargs)
+        finally:
+            self.tfr = tfr
 
 
 class PseudoPageRepresentation(PageRepresentation):
@@ -112,13 +116,17 @@ class MargenauHillDistribution(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
+        tfr = self.tfr
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :].copy()
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         extent = [0, self.ts.max(), 0, 0.5]
-        super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        try:
+            super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        finally:
+            self.tfr = tfr
 
 
 class PseudoMargenauHillDistribution(MargenauHillDistribution):
@@ -183,14 +191,18 @@ class WignerVilleDistribution(BaseTFRepresentation):
             mini = max(np.amin(self.tfr), maxi * threshold)
             levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
             kwargs['levels'] = levels
+        tfr = self.tfr
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         else:
             self.tfr = np.abs(self.tfr)
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
-                                                  **kwargs)
+        try:
+            super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
+                                                      **kwargs)
+        finally:
+            self.tfr = tfr
 
 
 class PseudoWignerVilleDistribution(WignerVilleDistribution):
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 817fcde..2b2a05d 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -93,15 +93,19 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         :return: None
         :rtype: None
         """
-        self.tfr = self.tfr[:int(self.n_fbins / 2.0), :]
+        tfr, freqs = self.tfr, self.freqs
+        self.tfr = self.tfr[:int(self.n_fbins / 2.0), :].copy()
         self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
-                                                    threshold=threshold,
-                                                    **kwargs)
+        try:
+            super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
+                                                        threshold=threshold,
+                                                        **kwargs)
+        finally:
+            self.tfr, self.freqs = tfr, freqs
 
 
 def gabor(signal, n_coeff=None, q_oversample=None, window=None):
-- 
2.43.0


From f085b6be9c672e4a0dc905158f2a269d05a8ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 22/93] fix: Wigner-Ville works for odd lengths and fewer
 frequency bins than samples

---
 tftb/processing/cohen.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 8b2621b..a55fb81 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -162,8 +162,8 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
-        tausec = round(self.n_fbins / 2.0)
-        winlength = tausec - 1
+        tausec = self.n_fbins // 2
+        winlength = (self.n_fbins - 1) // 2
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
                          winlength * np.ones(self.ts.shape)], axis=1)
@@ -175,10 +175,11 @@ class WignerVilleDistribution(BaseTFRepresentation):
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
-            if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
-                    np.conj(self.signal[icol - tausec, 0]) + \
-                    self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
+            if (self.n_fbins % 2 == 0) and \
+                    (icol < self.signal.shape[0] - tausec) and (icol >= tausec):
+                self.tfr[tausec, icol] = 0.5 * (
+                    self.signal[icol + tausec] * conj_signal[icol - tausec] +
+                    self.signal[icol - tausec] * conj_signal[icol + tausec])
         self.tfr = np.fft.fft(self.tfr, axis=0)
         self.tfr = np.real(self.tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
-- 
2.43.0


From 9aaa7188b0df34537af327140d766a5bd8d1bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 23/93] fix: pseudo Wigner-Ville labels its own frequency grid
 and handles windows as long as n_fbins

---
 tftb/processing/cohen.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index a55fb81..e046b77 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -215,22 +215,24 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
-                          np.round(self.n_fbins / 2.0), lh)
+                          (self.n_fbins - 1) // 2, lh)
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
-            tau = np.round(self.n_fbins / 2.0)
-            if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
+            tau = self.n_fbins // 2
+            if (self.n_fbins % 2 == 0) and (icol < self.signal.shape[0] - tau) and \
+                    (icol >= tau) and (tau <= lh):
                 self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
-                    self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
-                    self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
-                    np.conj(self.signal[icol + tau, 0])
+                    self.signal[icol + tau] * np.conj(self.signal[icol - tau]) + \
+                    self.fwindow[lh - tau] * self.signal[icol - tau] * \
+                    np.conj(self.signal[icol + tau])
                 self.tfr[int(tau), icol] *= 0.5
 
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        return np.real(self.tfr), self.ts, self.freqs
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
+        self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
+        return self.tfr, self.ts, self.freqs
 
     def plot(self, **kwargs):
         if "kind" not in kwargs:
-- 
2.43.0


From 8dd9d6c520baf97b55f99b15cbbc69e0f4f5855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:05 +0000
Subject: [PATCH 24/93] fix: Margenau-Hill includes the lag that reaches the
 first sample

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index e046b77..84b7e0d 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -107,7 +107,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
-                                  self.signal.shape[0] - ti)) + 1, ti)
+                                  self.signal.shape[0] - ti)) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
-- 
2.43.0


From 60cb13704b53f9353b3fbc7a1b7499988ff8341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 25/93] fix: pseudo Margenau-Hill runs and pairs each sample
 with its own lags

---
 tftb/processing/cohen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 84b7e0d..bfb1d40 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -147,13 +147,14 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         xrow = self.signal.shape[0]
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
-            start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
-            end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
+            ti = self.ts[icol]
+            start = min([(self.n_fbins - 1) // 2, lh, xrow - 1 - ti])
+            end = min([(self.n_fbins - 1) // 2, lh, ti])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
-                np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
+            self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[ti] * \
+                np.conj(self.signal[ti - tau])
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
 
-- 
2.43.0


From 3f580e24c5f683a20f7488715554619fb443285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 26/93] fix: pseudo Page runs and stores lag tau at row tau

---
 tftb/processing/cohen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index bfb1d40..fac89dd 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -83,17 +83,18 @@ class PseudoPageRepresentation(PageRepresentation):
             hlength += 1
         from scipy.signal.windows import hamming
         fwindow = hamming(hlength)
-        lh = (fwindow.shape[0] - 1) / 2
+        lh = (fwindow.shape[0] - 1) // 2
         return fwindow / fwindow[lh]
 
     def run(self):
-        lh = (self.fwindow.shape[0] - 1) / 2
+        lh = (self.fwindow.shape[0] - 1) // 2
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
-            tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
-            indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
+            ti = self.ts[icol]
+            tau = np.arange(min([self.n_fbins - 1, lh, ti]) + 1)
+            indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * \
-                self.signal[icol] * np.conj(self.signal[icol - tau])
+                self.signal[ti] * np.conj(self.signal[ti - tau])
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
-- 
2.43.0


From 502b303671a6c34e5b18c335c4ec85fb15a07dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:16 +0000
Subject: [PATCH 27/93] fix: smoothed pseudo Wigner-Ville stores lag tau at row
 tau with its own window sample

---
 tftb/processing/cohen.py | 42 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index fac89dd..1d91af8 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -284,40 +284,42 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     lh = (fwindow.shape[0] - 1) // 2
     for icol in range(timestamps.shape[0]):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, signal.shape[0] - ti + lg,
-                      round(freq_bins / 2.0) - 1, lh])
-        points = np.arange(-min([lg, signal.shape[0] - ti]),
-                           min([lg, ti - 1]) + 1).astype(int)
+        taumax = min([ti + lg, signal.shape[0] - 1 - ti + lg,
+                      (freq_bins - 1) // 2, lh])
+        points = np.arange(-min([lg, signal.shape[0] - 1 - ti]),
+                           min([lg, ti]) + 1).astype(int)
         lg_points = (lg + points).astype(int)
         g2 = twindow[lg_points]
         g2 = g2 / np.sum(g2)
-        signal_idx = (ti - points - 1).astype(int)
-        tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
+        signal_idx = (ti - points).astype(int)
+        tfr[0, icol] = fwindow[lh] * \
+            np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
             lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
-            idx1 = (ti + tau - points - 1).astype(int)
-            idx2 = (ti - tau - points - 1).astype(int)
+            idx1 = (ti + tau - points).astype(int)
+            idx2 = (ti - tau - points).astype(int)
             R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            tfr[1 + tau, icol] = fwindow[lh + tau + 1] * R
+            tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            tfr[freq_bins - tau - 1, icol] = fwindow[lh - tau + 1] * R
-        tau = np.round(freq_bins / 2.0)
-        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
-            lg_points = (lg + 1 + points).astype(int)
+            tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
+        tau = freq_bins // 2
+        if (freq_bins % 2 == 0) and (ti < signal.shape[0] - tau) and (ti >= tau) and \
+                (tau <= lh):
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
+            lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
             idx1 = (ti + tau - points).astype(int)
             idx2 = (ti - tau - points).astype(int)
             _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            _x *= fwindow[(lh + tau + 1).astype(int)]
+            _x *= fwindow[lh + tau]
             _y = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            _y *= fwindow[(lh - tau + 1).astype(int)]
+            _y *= fwindow[lh - tau]
             tfr[tau, icol] = (_x + _y) * 0.5
     tfr = np.fft.fft(tfr, axis=0)
     return np.real(tfr)
-- 
2.43.0


From 537b1902b4d0d2fe040470bb8c5f45942b2e89c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:04 +0000
Subject: [PATCH 28/93] fix: reassigned representations find their default
 window in current SciPy

---
 tftb/processing/reassigned.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 252f8ce..396d0ab 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -38,7 +38,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(int(hlength))
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) // 2
@@ -119,10 +119,10 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -194,10 +194,10 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -385,18 +385,18 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if fwindow is None:
         hlength = np.floor(n_fbins / 4.0)
         hlength += 1 - (hlength % 2)
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
 
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
         glength += 1 - (glength % 2)
-        twindow = ssig.hamming(glength)
+        twindow = ssig.windows.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lg = (twindow.shape[0] - 1) / 2
+    lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
@@ -493,7 +493,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     if window is None:
         wlength = int(np.floor(signal.shape[0] / 4.0))
         wlength += 1 - np.remainder(wlength, 2)
-        window = ssig.hamming(wlength)
+        window = ssig.windows.hamming(wlength)
     elif window.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
 
@@ -553,7 +553,7 @@ if __name__ == '__main__':
     import matplotlib.pyplot as plt
     ts = np.arange(128, step=2)
     sig = fmlin(128, 0.1, 0.4)[0]
-    fwindow = ssig.kaiser(17, beta=3 * np.pi)
+    fwindow = ssig.windows.kaiser(17, beta=3 * np.pi)
     _, rtfr, _ = pseudo_wigner_ville(sig, timestamps=ts, n_fbins=64,
                                      fwindow=fwindow)
     rtfr = np.abs(rtfr) ** 2
-- 
2.43.0


From 5ab3371b21d884a388686b9f3763685ae5385b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 29/93] fix: reassigned spectrogram is centred on its samples
 and moves energy to the reported cell

---
 tftb/processing/reassigned.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 396d0ab..47938fc 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -497,6 +497,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     elif window.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
 
+    dt = time_samples[1] - time_samples[0] if time_samples.shape[0] > 1 else 1
     tfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
     tf2 = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
     tf3 = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
@@ -506,21 +507,21 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
 
     for icol in range(time_samples.shape[0]):
         ti = time_samples[icol]
-        tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti]),
-                        np.min([np.round(n_fbins / 2) - 1, lh,
-                                signal.shape[0] - ti]) + 1).astype(int)
+        tau = np.arange(-np.min([(n_fbins - 1) // 2, lh, ti]),
+                        np.min([(n_fbins - 1) // 2, lh,
+                                signal.shape[0] - 1 - ti]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
         norm_h = np.linalg.norm(window[lh + tau], ord=2)
-        tfr[indices, icol] = signal[ti + tau - 1] * np.conj(window[lh + tau]) / norm_h
-        tf2[indices, icol] = signal[ti + tau - 1] * np.conj(th[lh + tau]) / norm_h
-        tf3[indices, icol] = signal[ti + tau - 1] * np.conj(dwin[lh + tau]) / norm_h
+        tfr[indices, icol] = signal[ti + tau] * np.conj(window[lh + tau]) / norm_h
+        tf2[indices, icol] = signal[ti + tau] * np.conj(th[lh + tau]) / norm_h
+        tf3[indices, icol] = signal[ti + tau] * np.conj(dwin[lh + tau]) / norm_h
 
     tfr = np.fft.fft(tfr, axis=0).ravel()
     tf2 = np.fft.fft(tf2, axis=0).ravel()
     tf3 = np.fft.fft(tf3, axis=0).ravel()
 
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask]))
+    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask] / dt))
     tf3[no_warn_mask] = np.round(
         np.imag(n_fbins * tf3[no_warn_mask] / tfr[no_warn_mask] / (2 * np.pi)))
 
@@ -531,16 +532,16 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.real(tf3)
 
     rtfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
-    ix = np.arange(time_samples.min(), time_samples.max() + 1) - 1
+    ix = np.arange(time_samples.min(), time_samples.max() + 1)
     threshold = 1e-6 * np.mean(np.abs(signal[ix])**2)
     for icol in range(time_samples.shape[0]):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 icolhat = icol + tf2[jcol, icol]
-                icolhat = np.min([np.max([icolhat, 1]), time_samples.shape[0]])
+                icolhat = np.min([np.max([np.real(icolhat), 0]), time_samples.shape[0] - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                rtfr[int(jcolhat), int(icolhat) - 1] += tfr[jcol, icol]
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[int(jcolhat), int(icolhat)] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 3bd9c928ab73f7fe322b1ce8d2e25acf691f2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:35 +0000
Subject: [PATCH 30/93] fix: reassigned pseudo Wigner-Ville is centred on its
 samples and reports 0-based target rows

---
 tftb/processing/reassigned.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 47938fc..de7de7b 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -49,21 +49,21 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti - 1, xrow - ti, np.round(n_fbins / 2.0) - 1, lh])
+        taumax = min([ti, xrow - 1 - ti, (n_fbins - 1) // 2, lh])
         tau = np.arange(-taumax, taumax + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices - 1, icol] = fwindow[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices - 1, icol] = dh[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tau = np.round(n_fbins / 2)
-        if (ti <= (xrow - tau)) and (ti > (tau + 1)) and (tau <= lh):
-            _x = fwindow[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = fwindow[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tfr[tau + 1, icol] = (_x + _y) * 0.5
-            _x = dh[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = dh[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tf2[tau + 1, icol] = (_x + _y) * 0.5
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tau = n_fbins // 2
+        if (n_fbins % 2 == 0) and (ti < (xrow - tau)) and (ti >= tau) and (tau <= lh):
+            _x = fwindow[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = fwindow[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tfr[tau, icol] = (_x + _y) * 0.5
+            _x = dh[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = dh[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tf2[tau, icol] = (_x + _y) * 0.5
     tfr = np.real(np.fft.fft(tfr, axis=0))
     tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
@@ -83,9 +83,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 jcolhat = jcol - int(tf2[jcol, icol])
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 994da55a4770e64ab602afe84ccb121f0007590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 31/93] fix: reassigned pseudo_margenau_hill runs with 0-based
 indices and moves energy to the reported cell

---
 tftb/processing/reassigned.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index de7de7b..7bbee1c 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -130,14 +130,14 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     for icol in range(tcol):
         ti = timestamps[icol]
-        start = min([np.round(n_fbins / 2.0) - 1, lh, xrow - ti])
-        end = min([np.round(n_fbins / 2.0) - 1, lh, ti - 1])
+        start = min([(n_fbins - 1) // 2, lh, xrow - 1 - ti])
+        end = min([(n_fbins - 1) // 2, lh, ti])
         tau = np.arange(-start, end + 1)
         indices = np.remainder(n_fbins + tau, n_fbins)
-        tfr[indices, icol] = fwindow[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices, icol] = dh[lh + tau] * signal[ti - 1] * \
-            np.conj(signal[ti - tau - 1])
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
 
     tfr = np.fft.fft(tfr, axis=0)
     tf2 = np.fft.fft(tf2, axis=0)
@@ -157,10 +157,9 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From ba867e04557d8deb75e799b10a4814d41e03b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:16 +0000
Subject: [PATCH 32/93] fix: reassigned pseudo_page runs with 0-based indices
 and moves energy to the reported cell

---
 tftb/processing/reassigned.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 7bbee1c..05c75f1 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -203,13 +203,14 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
 
     for icol in range(tcol):
-        tau = np.arange(min([n_fbins - 1, lh, icol - 1]) + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices, icol] = fwindow[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[indices, icol] = dh[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[0, icol] += signal[icol] * np.conj(signal[icol])
+        ti = timestamps[icol]
+        tau = np.arange(min([n_fbins - 1, lh, ti]) + 1)
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[0, icol] += signal[ti] * np.conj(signal[ti])
 
     tfr = np.fft.fft(tfr, axis=0)
     tf2 = np.fft.fft(tf2, axis=0)
@@ -229,10 +230,9 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 18e56403b6f4d1673fd564631558fa5fe1fcbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:20 +0000
Subject: [PATCH 33/93] fix: reassigned smoothed_pseudo_wigner_ville runs with
 0-based indices and moves energy to the reported cell

---
 tftb/processing/reassigned.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 05c75f1..552164a 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -410,30 +410,30 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, xrow - ti + lg, np.round(n_fbins / 2.0) - 1,
+        taumax = min([ti + lg, xrow - 1 - ti + lg, (n_fbins - 1) // 2,
                       lh])
-        points = np.arange(-min([lg, xrow - ti]), min([lg, ti - 1]) + 1)
+        points = np.arange(-min([lg, xrow - 1 - ti]), min([lg, ti]) + 1)
         g2 = twindow[lg + points]
         g2 = g2 / g2.sum()
         tg2 = g2 * points
-        xx = signal[ti - 1 - points] * np.conj(signal[ti - 1 - points])
-        tfr[0, icol] = (g2 * xx).sum()
-        tf2[0, icol] = (tg2 * xx).sum()
-        tf3[0, icol] = dh[lh + 1] * tfr[0, icol]
-
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, xrow - ti - tau]),
-                               min([lg, ti - tau - 1]) + 1)
+        xx = signal[ti - points] * np.conj(signal[ti - points])
+        tfr[0, icol] = (g2 * xx).sum() * fwindow[lh]
+        tf2[0, icol] = fwindow[lh] * (tg2 * xx).sum()
+        tf3[0, icol] = dh[lh] * (g2 * xx).sum()
+
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, xrow - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
             g2 = twindow[lg + points]
             g2 = g2 / g2.sum()
             tg2 = g2 * points
-            xx = signal[ti + tau - 1 - points] * np.conj(signal[ti - tau - 1 - points])
+            xx = signal[ti + tau - points] * np.conj(signal[ti - tau - points])
             tfr[tau, icol] = (g2 * xx).sum() * fwindow[lh + tau]
             tf2[tau, icol] = fwindow[lh + tau] * (tg2 * xx).sum()
             tf3[tau, icol] = dh[lh + tau] * (g2 * xx).sum()
-            tfr[n_fbins - tau - 1, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf2[n_fbins - tau - 1, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf3[n_fbins - tau - 1, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
+            tfr[n_fbins - tau, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf2[n_fbins - tau, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf3[n_fbins - tau, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
 
     tfr = np.real(np.fft.fft(tfr, axis=0)).ravel()
     tf2 = np.real(np.fft.fft(tf2, axis=0)).ravel()
@@ -453,10 +453,10 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                icolhat = min(max([icol - tf2[jcol, icol], 1]), tcol)
+                icolhat = min([max([icol - int(np.real(tf2[jcol, icol])), 0]), tcol - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((int(jcolhat) - 1) % n_fbins) + n_fbins) % n_fbins + 1
-                rtfr[jcol, icol] += tfr[jcol, icol]
+                jcolhat = ((int(jcolhat) % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From dd71660d9a08a39c14dc241b7afcb3acf80a8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 34/93] fix: reassigned morlet_scalogram runs with 0-based
 indices and moves energy to the reported cell

---
 tftb/processing/reassigned.py | 40 ++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 552164a..55a59c5 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -280,23 +280,23 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         factor = np.sqrt(m / (tbp * n_fbins))
         for icol in range(tcol):
             ti = timestamps[icol]
-            tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-            tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
+            tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+            tau_pos = np.arange(min([np.ceil(M / m), xrow - 1 - ti]) + 1).astype(int)
             # positive frequencies
-            tfr[m, icol] = np.dot(hstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
-            tf2[m, icol] = np.dot(thstar[m * tau_pos - 1],
-                                  signal[ti + tau_pos - 1])
+            tfr[m, icol] = np.dot(hstar[m * tau_pos],
+                                  signal[ti + tau_pos])
+            tf2[m, icol] = np.dot(thstar[m * tau_pos],
+                                  signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
                                        signal[ti - tau_neg])
                 tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
                                        signal[ti - tau_neg])
             # negative frequencies
-            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
-            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m - 1]),
-                                            signal[ti + tau_pos - 1])
+            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
+            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m]),
+                                            signal[ti + tau_pos])
             if tau_neg.shape[0] > 0:
                 tfr[n_fbins - m, icol] += np.dot(hstar[tau_neg * m],
                                                  signal[ti - tau_neg])
@@ -311,10 +311,8 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     factor = np.sqrt(m / (tbp * n_fbins))
     for icol in range(tcol):
         ti = timestamps[icol]
-        tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
-        tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
-        tau_pos -= 1
-        tau_neg -= 1
+        tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+        tau_pos = np.arange(min([np.ceil(M / m), xrow - 1 - ti]) + 1).astype(int)
 
         tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
         tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
@@ -340,14 +338,12 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if tfr[jcol, icol] > threshold:
-                icolhat = icol + np.round(np.real(tf2[jcol, icol] / dt))
-                icolhat = min([max([icolhat, 1]), tcol])
-                m = np.remainder(jcol + np.round(n_fbins / 2.0) - 2,
-                                 n_fbins)
-                m -= np.round(n_fbins / 2.0) + 1
-                jcolhat = jcol + np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor))
-                jcolhat = ((((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins) + 1
-                rtfr[jcolhat - 1, icolhat - 1] += tfr[jcol, icol]
+                icolhat = icol + int(np.round(np.real(tf2[jcol, icol] / dt)))
+                icolhat = min([max([icolhat, 0]), tcol - 1])
+                m = min(jcol, n_fbins - jcol)
+                jcolhat = jcol + int(np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor)))
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From 233bac953fe1a5dd7e7d5ef92d5aa4713b9ba18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:10 +0000
Subject: [PATCH 35/93] fix: renyi_information leaves the caller's timestamps
 and freq arrays alone

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From 7f7d79492c61bf873c39b4d8e51dc4c86f55b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 36/93] fix: hough_transform returns one rho label per row

---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2276f38..ff51719 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -62,7 +62,7 @@ def hough_transform(image, m=None, n=None):
                         ht[int(np.round(rho / deltar)),
                            int(np.round(theta / deltat))] += image[x + xc - 1,
                                                                    y + yc - 1]
-    rho = np.linspace(0, rhomax, n)
+    rho = np.linspace(0, rhomax, m)
     theta = np.linspace(0, 2 * np.pi - deltat, n)
     return ht, rho, theta
 
-- 
2.43.0


From 502681ee9dcaaf2d69c5d8af22338e46b338afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 37/93] fix: ridges returns the points of every column above
 the threshold

---
 tftb/processing/postprocessing.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index ff51719..f1c8ec7 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -184,6 +184,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
     n_fbins = tfrrow
     freqs = np.arange(n_fbins)
     threshold = np.sum(np.sum(tfr)) * 0.5 / tfr.size
+    time_points, freq_points = np.empty((0,)), np.empty((0,))
 
     if method in ('rpwv', 'rpmh'):
         for icol in range(tfrcol):
@@ -191,28 +192,31 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             indices = np.logical_and(tfr[:, icol] > threshold,
                                      re_mat[:, icol] - freqs == 0)
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method == "rspwv":
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method in ("rsp", "type1"):
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / n_fbins
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / n_fbins]
     else:
         raise ValueError("Unknown time frequency representation.")
     return time_points, freq_points
-- 
2.43.0


From f5d0d4913af8dc2914df88488e86c9e04d50b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 38/93] fix: ideal_tfr draws nothing where a frequency law is
 undefined

---
 tftb/processing/postprocessing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index f1c8ec7..849a457 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -124,9 +124,7 @@ def ideal_tfr(iflaws, timestamps=None, n_fbins=None):
     for icol in range(tcol):
         ti = timestamps[icol]
         for fi in range(ifrow):
-            if np.isnan(iflaws[fi, ti]):
-                tfr[ti, fi] = np.nan
-            else:
+            if not np.isnan(iflaws[fi, ti]):
                 tfr[int(np.round(iflaws[fi, ti] * 2 * (n_fbins - 1))), icol] = 1
     freqs = np.arange(n_fbins, dtype=float) / n_fbins * 0.5
     return tfr, timestamps, freqs
-- 
2.43.0


From f45b99bf4587c1ceb43760a9eacded0325c787d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 39/93] fix: wide_band estimates its default band from the
 spectrum

---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index ea9f52d..6c53550 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -35,7 +35,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
 
     # determine default values for fmin, fmax
     if (fmin is None) or (fmax is None):
-        STF = np.fft.fftshift(s_ana)
+        STF = np.fft.fft(np.fft.fftshift(s_ana))
         sp = np.abs(STF[:m]) ** 2
         maxsp = np.amax(sp)
         f = np.linspace(0, 0.5, m + 1)
-- 
2.43.0


From f016aa7a0b69f10062c9c9246d63d71d2bd74b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:42 +0000
Subject: [PATCH 40/93] fix: affine distributions derive the default number of
 voices for narrow bands too

---
 tftb/processing/affine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 54a0778..5ad25a0 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -280,6 +280,7 @@ class UnterbergerDistribution(AffineDistribution):
         else:
             m0 = 0
             m1 = self.m
+            self.T = 2 * m1 - 1
         self.m1 = int(np.round(m1))
         if n_voices is None:
             self._get_nvoices()
@@ -360,6 +361,7 @@ class DFlandrinDistribution(AffineDistribution):
             self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
+            self.T = 2 * self.m - 1
         self.m1 = int(np.round(self.m + m0))
         if n_voices is None:
             self._get_nvoices()
@@ -420,6 +422,7 @@ class BertrandDistribution(AffineDistribution):
         else:
             m0 = 0
             m1 = self.m
+            self.T = 2 * m1 - 1
         self.m1 = m1
         if n_voices is None:
             self._get_nvoices()
-- 
2.43.0


From e45a7bcd76cce1c00fd04e7e83bbad91fd941327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:46 +0000
Subject: [PATCH 41/93] fix: passive Unterberger form weights each lag with its
 own u

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 5ad25a0..c17ea9b 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -302,7 +302,7 @@ class UnterbergerDistribution(AffineDistribution):
             fx2 = np.fft.fft(np.fft.fftshift(mx2))[: self.n_voices]
             waf[n - 1, :] = fx1 * np.conj(fx2)
             if self.form != "A":
-                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n] / 2) ** 2)
+                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n - 1] / 2) ** 2)
         waf = np.vstack((waf[self.m1: (2 * self.m1), :], waf[: self.m1, :]))
         waf *= np.repeat(
             self.geo_f.reshape((1, self.geo_f.shape[0])), 2 * self.m1, axis=0
-- 
2.43.0


From a1572814ccddcaabf75dac304268a0886027b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:49 +0000
Subject: [PATCH 42/93] fix: Unterberger distribution is evaluated at the
 requested instants

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index c17ea9b..507d176 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -329,7 +329,7 @@ class UnterbergerDistribution(AffineDistribution):
             ind = np.nonzero(np.ravel(condition))[0]
             x = gamma[ind]
             y = tffr[i, ind].ravel()
-            xi = (self.ts - ts2 - 1) * self.geo_f[i]
+            xi = (self.ts - ts2) * self.geo_f[i]
             tck = splrep(x, y)
             tfr[i, :] = splev(xi, tck).ravel()
         t = self.ts
-- 
2.43.0


From 9e20288c36b64854cd2aa61d511d5e7a7199f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 43/93] fix: Scalogram wavelet coefficients are aligned with
 their instants

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 507d176..b9ab56c 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -196,8 +196,8 @@ class Scalogram(AffineDistribution):
                     detail.shape[0] - int(np.round(nha)) + 1,
                     dtype=int,
                 )
-                wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
+                wt[ptr, :] = detail[self.ts]
                 self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
@@ -205,7 +205,7 @@ class Scalogram(AffineDistribution):
                 nha = (ha.shape[0] - 1) / 2
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
-                    int(np.round(nha)) + 1, detail.shape[0] - int(np.round(nha)) + 1
+                    int(np.round(nha)), detail.shape[0] - int(np.round(nha)) + 1
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-- 
2.43.0


From 9ba2b5930a9023c4ff343e7ca5045fbcff28cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 44/93] fix: Scalogram honours timestamps

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index b9ab56c..339f8a2 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -166,7 +166,7 @@ class Scalogram(AffineDistribution):
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
     ):
-        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax)
+        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
             waveparams = np.sqrt(signal.shape[0])
         if n_voices is None:
-- 
2.43.0


From d026cc060dc885e4d09a86f2428c8453726ce927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:30 +0000
Subject: [PATCH 45/93] fix: affine distributions no longer lose a lag to float
 rounding

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 339f8a2..966f101 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -100,7 +100,7 @@ class AffineDistribution(BaseTFRepresentation):
         mellin2 = np.fft.fftshift(np.fft.ifft(S2))
         umin = -self.umax
         du = np.abs(self.umax - umin) / (2 * self.m1)
-        u = np.linspace(umin, self.umax - du, int((self.umax - umin) / du))
+        u = np.linspace(umin, self.umax - du, 2 * int(self.m1))
         u[int(self.m1)] = 0
         self.u = u
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
-- 
2.43.0


From 44b57c3ad8f8a1fd8049657280efdbc74b898b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 46/93] fix: gabor builds its dual window on the time-shift
 lattice for every n_coeff

---
 tftb/processing/linear.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 2b2a05d..52e4205 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -143,12 +143,12 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
     hn1[np.arange(start - 1, end).astype(int)] = window
 
-    msig = hn1.reshape(int(nb), int(m), order='F')
-    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, mb))
-    x = np.arange(1, m + 1, dtype=float)
+    msig = hn1.reshape(mb, n_coeff, order='F')
+    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(n_coeff)
+    mzh = np.zeros((n_coeff, mb))
+    x = np.arange(1, n_coeff + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
-        mod = modulo(x - l * m / q_oversample, m).astype(int)
+        mod = modulo(x - l * n_coeff / q_oversample, n_coeff).astype(int)
         mzh += np.abs(dzth[mod - 1, :]) ** 2
 
     mzh[mzh < np.spacing(1)] = 1
-- 
2.43.0


From 895148b27f365d37c691d1570044f0db4de5ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 47/93] fix: gabor wraps long windows around instead of
 indexing past the signal

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 52e4205..10a6de4 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -141,7 +141,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     hn1 = np.zeros((signal.shape[0],))
     start = np.round(((signal.shape[0] - (nh - 1))) / 2) - alpha
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
-    hn1[np.arange(start - 1, end).astype(int)] = window
+    hn1[np.arange(start - 1, end).astype(int) % signal.shape[0]] = window
 
     msig = hn1.reshape(mb, n_coeff, order='F')
     dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(n_coeff)
-- 
2.43.0


From 9cfdac3b87384a77df901e3da2c839374675508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 48/93] fix: wide_band correlates the whole Mellin transform so
 it peaks at the origin

---
 tftb/processing/ambiguity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 6c53550..42d2c3f 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -82,9 +82,9 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     theta = np.log(scale)
     mellinSSb = mellinS * np.conj(mellinSb)
 
-    waf = np.fft.ifft(mellinSSb, N, axis=0)
-    no2 = int((N + N % 2) / 2.0)
-    waf = np.r_[waf[no2:(N + 1), :], waf[:no2, :]]
+    # the dilation theta of each row is an integer multiple of log(q)
+    corr = np.fft.ifft(np.fft.ifftshift(mellinSSb, axes=0), axis=0)
+    waf = corr[2 * np.arange(N) - (N - 1), :]
 
     # normalization
     s = np.real(s_ana)
@@ -92,7 +92,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     indmin = int(1 + np.round(fmin * (nx - 2)))
     indmax = int(1 + np.round(fmax * (nx - 2)))
     sp_ana = SP[(indmin - 1):indmax]
-    waf *= (np.linalg.norm(sp_ana) ** 2) / waf[no2 - 1, m - 1] / N
+    waf *= (np.linalg.norm(sp_ana) ** 2) / corr[0, m] / N
 
     return waf, tau, theta
 
-- 
2.43.0


From 57d4718db9c39c784a0deb137ebfde4fa2e748a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:49 +0000
Subject: [PATCH 49/93] fix: fmpower accepts integer degrees of the power law

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 72d0cca..d1d8093 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(1, n_points + 1)
+    t = np.arange(1, n_points + 1, dtype=float)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From a60b8d46ab3bea20042a3bc4655c01c042863dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:52 +0000
Subject: [PATCH 50/93] fix: fmsin is finite when fnorm0 is one of its extreme
 frequencies

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index d1d8093..e91da16 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -250,7 +250,7 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
 
     fnormid = 0.5 * (fnormax + fnormin)
     delta = 0.5 * (fnormax - fnormin)
-    phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
+    phi = -pm1 * np.arccos(np.clip((fnorm0 - fnormid) / delta, -1, 1))
     t = np.arange(n_points) - t0
     phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi)) -\
         np.sin(phi)
-- 
2.43.0


From f0fce3b68efac1a631b89ae0ad0851cb2b860f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:56 +0000
Subject: [PATCH 51/93] fix: unilateral amexpos is 0, not NaN, far before t0

---
 tftb/generators/amplitude_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/amplitude_modulated.py b/tftb/generators/amplitude_modulated.py
index 51bddc5..1a502ff 100644
--- a/tftb/generators/amplitude_modulated.py
+++ b/tftb/generators/amplitude_modulated.py
@@ -76,7 +76,7 @@ def amexpos(n_points, t0=None, spread=None, kind="bilateral"):
         if kind == "bilateral":
             y = np.exp(-sqrt(2 * np.pi) * np.abs(tmt0) / spread)
         else:
-            y = np.exp(-sqrt(np.pi) * tmt0 / spread) * (tmt0 >= 0.0)
+            y = np.exp(-sqrt(np.pi) * np.maximum(tmt0, 0) / spread) * (tmt0 >= 0.0)
         return y
 
 
-- 
2.43.0


From d526586face0a243c7caeda4d5f63553725e21a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:14 +0000
Subject: [PATCH 52/93] fix: affine distributions sample t*f on the grid dual
 to u

The grid was assumed to span fmax times the record, which only holds for
wide bands: for narrow ones the time axis was compressed about the middle
of the record, and all were about one sample early.
---
 tftb/processing/affine.py | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 966f101..eeceb61 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -124,21 +124,11 @@ class AffineDistribution(BaseTFRepresentation):
 
     def _get_interpolated_tf(self, tffr):
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
-        ts2 = (self.signal.shape[0] - 1) / 2
-        gamma = np.linspace(
-            -self.geo_f[self.n_voices - 1] * ts2,
-            self.geo_f[self.n_voices - 1] * ts2,
-            2 * self.m1,
-        )
+        # tffr is sampled in t * f at the grid dual to u, with t = 0 at sample m
+        gamma = np.arange(1 - self.m1, self.m1 + 1) / (2.0 * self.umax)
         for i in range(self.n_voices):
-            condition = np.logical_and(
-                gamma >= -self.geo_f[i] * ts2, gamma <= self.geo_f[i] * ts2
-            )
-            ind = np.nonzero(np.ravel(condition))[0]
-            x = gamma[ind]
-            y = tffr[i, ind].ravel()
-            xi = (self.ts - ts2) * self.geo_f[i]
-            tck = splrep(x, y)
+            xi = (self.ts - self.m) * self.geo_f[i]
+            tck = splrep(gamma, tffr[i, :])
             tfr[i, :] = splev(xi, tck).ravel()
         t = self.ts
         f = self.geo_f.ravel()
@@ -316,21 +306,11 @@ class UnterbergerDistribution(AffineDistribution):
         )
         # conversion from tff to tf using 1d interpolation
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
-        ts2 = (self.signal.shape[0] - 1) / 2
-        gamma = np.linspace(
-            -self.geo_f[self.n_voices - 1] * ts2,
-            self.geo_f[self.n_voices - 1] * ts2,
-            2 * self.m1,
-        )
+        # tffr is sampled in t * f at the grid dual to u, with t = 0 at sample m
+        gamma = np.arange(1 - self.m1, self.m1 + 1) / (2.0 * self.umax)
         for i in range(self.n_voices):
-            condition = np.logical_and(
-                gamma >= -self.geo_f[i] * ts2, gamma <= self.geo_f[i] * ts2
-            )
-            ind = np.nonzero(np.ravel(condition))[0]
-            x = gamma[ind]
-            y = tffr[i, ind].ravel()
-            xi = (self.ts - ts2) * self.geo_f[i]
-            tck = splrep(x, y)
+            xi = (self.ts - self.m) * self.geo_f[i]
+            tck = splrep(gamma, tffr[i, :])
             tfr[i, :] = splev(xi, tck).ravel()
         t = self.ts
         f = self.freqs = self.geo_f[: self.n_voices].ravel()
-- 
2.43.0


From fcf9b3e14457ee48e0bf9b9d79ae1001cf543eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:17 +0000
Subject: [PATCH 53/93] fix: D-Flandrin distribution weights by 1-(u/4)^2

The weight was applied inverted, so the time marginal was not |x(t)|^2.
---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index eeceb61..40bf570 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -356,13 +356,13 @@ class DFlandrinDistribution(AffineDistribution):
         for n in range(1, 2 * self.m1 + 1):
             mx1 = (
                 np.exp(
-                    -(2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 - self.u[n - 1] / 4)
+                    (-2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 - self.u[n - 1] / 4)
                 )
                 * mellin1
             )
             mx2 = (
                 np.exp(
-                    -(2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 + self.u[n - 1] / 4)
+                    (-2 * 1j * np.pi * beta + 0.5) * 2 * np.log(1 + self.u[n - 1] / 4)
                 )
                 * mellin2
             )
-- 
2.43.0


From e88c960c0542b6d5485d11ce3e71a81da572e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 54/93] fix: affine normalisation picks its band from the
 spectrum's length

The band indices were scaled by the number of timestamps, so a timestamp
selection was normalised to the energy of some other band.
---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 40bf570..4b4ce24 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -75,8 +75,8 @@ class AffineDistribution(BaseTFRepresentation):
     def _normalize(self):
         SP1 = np.fft.fft(hilbert(self.s1), axis=0)
         SP2 = np.fft.fft(hilbert(self.s2), axis=0)
-        indmin = 1 + int(np.round(self.fmin * (self.ts.shape[0] - 2)))
-        indmax = 1 + int(np.round(self.fmax * (self.ts.shape[0] - 2)))
+        indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
+        indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
         sp1_ana = SP1[(indmin - 1): indmax]
         sp2_ana = SP2[(indmin - 1): indmax]
         return sp1_ana, sp2_ana
-- 
2.43.0


From cc11a5fde8d61542f67768e843a04575a8ebe01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:06 +0000
Subject: [PATCH 55/93] fix: contour plots with show_tf need one frequency
 label per row of the representation

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 009ae43..cc9b925 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -83,7 +83,7 @@ class BaseTFRepresentation(object):
                     if self.isaffine:
                         contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
                     else:
-                        contour_y = np.linspace(0, 0.5, self.signal.shape[0])
+                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
                 else:
                     contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
-- 
2.43.0


From 54bd34e0eec2be591f561c2c1a2e27cb04bab7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:39 +0000
Subject: [PATCH 56/93] fix: the Page plots show the positive frequencies,
 label them as such

---
 tftb/processing/cohen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 1d91af8..b5a55e4 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -62,15 +62,16 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        tfr = self.tfr
+        tfr, freqs = self.tfr, self.freqs
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
+        self.freqs = self.freqs[:self.tfr.shape[0]]
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         try:
             super(PageRepresentation, self).plot(kind=kind, **kwargs)
         finally:
-            self.tfr = tfr
+            self.tfr, self.freqs = tfr, freqs
 
 
 class PseudoPageRepresentation(PageRepresentation):
-- 
2.43.0


From f3b986b921275d62be35b516c736a4bf95fc7b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:42 +0000
Subject: [PATCH 57/93] fix: the time axis of Margenau-Hill plots starts at the
 first timestamp

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index b5a55e4..f32d14a 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -124,7 +124,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        extent = [0, self.ts.max(), 0, 0.5]
+        extent = [self.ts.min(), self.ts.max(), 0, 0.5]
         try:
             super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
         finally:
-- 
2.43.0


From 2a019a0f7ad12c75abce3762d153ac4464f73759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:46 +0000
Subject: [PATCH 58/93] fix: honour sqmod=False in the Page plots

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index f32d14a..b81f664 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -65,7 +65,7 @@ class PageRepresentation(BaseTFRepresentation):
         tfr, freqs = self.tfr, self.freqs
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         self.freqs = self.freqs[:self.tfr.shape[0]]
-        self.tfr = np.abs(self.tfr) ** 2
+        self.tfr = np.abs(self.tfr) ** 2 if sqmod else self.tfr.copy()
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         try:
-- 
2.43.0


From 00108c078ceec6001201371ce4e0439226b8e2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:49 +0000
Subject: [PATCH 59/93] fix: draw on the axes given to plot(), as documented

---
 tftb/processing/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index cc9b925..e47e526 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -191,9 +191,11 @@ class BaseTFRepresentation(object):
                 self._annotate_signal(axTime)
                 self._annotate_spectrum(axSpec)
         else:
-            fig = plt.figure()
+            if ax is None or kind in ("surf", "wireframe"):
+                fig = plt.figure()
+                if kind not in ("surf", "wireframe"):
+                    ax = fig.add_subplot(111)
             if kind == "cmap":
-                ax = fig.add_subplot(111)
                 ax.imshow(self.tfr,
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
@@ -217,7 +219,6 @@ class BaseTFRepresentation(object):
                                   rstride=3, cstride=3)
             else:
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
-                ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From cb73e47676a3a958737e78656f093e4698d70ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:41 +0000
Subject: [PATCH 60/93] fix: derive_window had the sign of its linear ramp
 flipped, so the end points of asymmetric windows were wrong

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index d69690e..1ba973a 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -67,7 +67,7 @@ def derive_window(window):
     """
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[0] - window[-1]) / (window.shape[0] - 1)
+    ramp = (window[-1] - window[0]) / (window.shape[0] - 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From e0f1826485ba3a7f3773b0c0a0e9445dd59e3a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:45 +0000
Subject: [PATCH 61/93] fix: reassigned pseudo Wigner-Ville, Margenau-Hill and
 Page crashed on segments of denormal energy

---
 tftb/processing/reassigned.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 55a59c5..33a51fb 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -69,7 +69,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = tfr.ravel()
     tf2 = tf2.ravel()
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] *= n_fbins / tfr[no_warn_mask] / (2 * np.pi)
+    tf2[no_warn_mask] *= n_fbins / (2 * np.pi)
+    tf2[no_warn_mask] /= tfr[no_warn_mask]
     tf2[no_warn_mask] = np.round(tf2[no_warn_mask])
     tfr = tfr.reshape(n_fbins, tcol)
     tf2 = tf2.reshape(n_fbins, tcol)
@@ -144,7 +145,8 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = tfr.ravel()
     tf2 = tf2.ravel()
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] *= n_fbins / tfr[no_warn_mask] / (2 * np.pi)
+    tf2[no_warn_mask] *= n_fbins / (2 * np.pi)
+    tf2[no_warn_mask] /= tfr[no_warn_mask]
     tf2[no_warn_mask] = np.round(tf2[no_warn_mask])
     tfr = np.real(tfr)
     tf2 = np.imag(tf2)
@@ -217,7 +219,8 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     tfr = tfr.ravel()
     tf2 = tf2.ravel()
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] *= n_fbins / tfr[no_warn_mask] / (2 * np.pi)
+    tf2[no_warn_mask] *= n_fbins / (2 * np.pi)
+    tf2[no_warn_mask] /= tfr[no_warn_mask]
     tf2[no_warn_mask] = np.round(tf2[no_warn_mask])
     tfr = np.real(tfr)
     tf2 = np.imag(tf2)
-- 
2.43.0


From 28d15f44fc91a05a716ad5410f9cf1612e287045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:59 +0000
Subject: [PATCH 62/93] fix: nextpow2 crashed on arrays, its documented
 argument

---
 tftb/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0045717..ca61a28 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -56,6 +56,8 @@ def nextpow2(n):
     >>> print(nextpow2(x))
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
+    if np.ndim(n) > 0:
+        return np.ceil(np.log2(n))
     return math.ceil(math.log2(n))
 
 
-- 
2.43.0


From a34c952846152cbd9c85803349e533831be9a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 63/93] fix: nearest_odd crashed on ranges and tuples, its
 documented arguments

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index ca61a28..81fe485 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -106,7 +106,7 @@ def nearest_odd(N):
     >>> nearest_odd(3)
     3.0
     """
-    if isinstance(N, (list, np.ndarray)):
+    if np.ndim(N) > 0:
         y = np.floor(N)
         y[np.remainder(y, 2) == 0] += 1
         return y.astype(int)
-- 
2.43.0


From 21bd96d2f45c363aec00c89dde8dfae42b2a1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:05 +0000
Subject: [PATCH 64/93] fix: modulo crashed on complex arrays with a real
 element

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 81fe485..1a5ac89 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -131,7 +131,7 @@ def modulo(x, N):
     >>> print(modulo(range(1, 11), 2))
     [1 2 1 2 1 2 1 2 1 2]
     """
-    if any(np.isreal(x)):
+    if np.isrealobj(x):
         y = np.mod(x, N)
         y[y == 0] = N
     else:
-- 
2.43.0


From 11294a780ec183cb5bb739dbf7f49970a3bd4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 65/93] fix: the Page representation stored lag tau+1 at row
 tau and included future samples

---
 tftb/processing/cohen.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index b81f664..79fe693 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -53,11 +53,10 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
-            tau = np.arange(-min([self.n_fbins - ti,
-                                  self.signal.shape[0] - ti]), ti)
+            tau = np.arange(min([self.n_fbins - 1, ti]) + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = np.dot(self.signal[ti],
-                                             np.conj(self.signal[ti - tau - 1]))
+                                             np.conj(self.signal[ti - tau]))
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
-- 
2.43.0


From 153b7926e5cf67c4f4332812b2c5cbc06490f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:35 +0000
Subject: [PATCH 66/93] fix: morlet_scalogram left a voice next to Nyquist
 empty for odd n_fbins

---
 tftb/processing/reassigned.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 33a51fb..532c51b 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -279,7 +279,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         np.exp(-1j * 2 * np.pi * tau / n_fbins)
     thstar = tau * hstar
 
-    for m in range(1, n_fbins // 2):
+    for m in range(1, (n_fbins + 1) // 2):
         factor = np.sqrt(m / (tbp * n_fbins))
         for icol in range(tcol):
             ti = timestamps[icol]
@@ -310,22 +310,23 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         tfr[n_fbins - m, :] *= factor
         tf2[n_fbins - m, :] *= factor / m
 
-    m = int(np.round(n_fbins / 2.0))
-    factor = np.sqrt(m / (tbp * n_fbins))
-    for icol in range(tcol):
-        ti = timestamps[icol]
-        tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
-        tau_pos = np.arange(min([np.ceil(M / m), xrow - 1 - ti]) + 1).astype(int)
-
-        tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
-        tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
-        if tau_neg.shape[0] > 0:
-            tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
-                                   signal[ti - tau_neg])
-            tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
-                                   signal[ti - tau_neg])
-    tfr[m, :] *= factor
-    tf2[m, :] *= factor / m
+    if n_fbins % 2 == 0:
+        m = n_fbins // 2
+        factor = np.sqrt(m / (tbp * n_fbins))
+        for icol in range(tcol):
+            ti = timestamps[icol]
+            tau_neg = np.arange(1, min([np.ceil(M / m), ti]) + 1).astype(int)
+            tau_pos = np.arange(min([np.ceil(M / m), xrow - 1 - ti]) + 1).astype(int)
+
+            tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
+            tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
+            if tau_neg.shape[0] > 0:
+                tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
+                                       signal[ti - tau_neg])
+                tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
+                                       signal[ti - tau_neg])
+        tfr[m, :] *= factor
+        tf2[m, :] *= factor / m
 
     tfr, tf2 = tfr.ravel(), tf2.ravel()
     no_warn_mask = tfr != 0
-- 
2.43.0


From a60eda4dec61625f5f34975c6de7c65b173c62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:15 +0000
Subject: [PATCH 67/93] fix: integer (and half precision) samples overflowed in
 products and powers

---
 tftb/generators/utils.py       | 2 ++
 tftb/processing/ambiguity.py   | 3 ++-
 tftb/processing/base.py        | 2 ++
 tftb/processing/cohen.py       | 2 ++
 tftb/processing/freq_domain.py | 2 ++
 tftb/processing/reassigned.py  | 7 +++++++
 tftb/processing/time_domain.py | 2 ++
 tftb/processing/utils.py       | 2 ++
 tftb/utils.py                  | 6 ++++++
 9 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 779c14a..d065b81 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.signal import hilbert
 from scipy.integrate import trapezoid
+from tftb.utils import to_inexact
 # from tftb.utils import nextpow2
 
 
@@ -20,6 +21,7 @@ def sigmerge(x1, x2, ratio=0.0):
     assert x1.ndim == 1
     assert x2.ndim == 1
     assert type(ratio) in (float, int)
+    x1, x2 = to_inexact(x1), to_inexact(x2)
     ex1 = np.mean(np.abs(x1) ** 2)
     ex2 = np.mean(np.abs(x2) ** 2)
     h = np.sqrt(ex1 / (ex2 * 10 ** (ratio / 10.0)))
diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 42d2c3f..2d509c5 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -12,7 +12,7 @@ Ambiguity functions.
 
 import numpy as np
 from scipy.signal import hilbert
-from tftb.utils import nextpow2
+from tftb.utils import nextpow2, to_inexact
 
 
 def _find(condt):
@@ -110,6 +110,7 @@ def narrow_band(signal, lag=None, n_fbins=None):
     :rtype: array-like
     """
 
+    signal = to_inexact(signal)
     n = signal.shape[0]
     if lag is None:
         if n % 2 == 0:
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e47e526..ddf7a13 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -13,6 +13,7 @@ Base time-frequency representation class.
 import numpy as np
 from scipy.signal.windows import hamming
 import matplotlib.pyplot as plt
+from tftb.utils import to_inexact
 
 
 class BaseTFRepresentation(object):
@@ -28,6 +29,7 @@ class BaseTFRepresentation(object):
         :return: BaseTFRepresentation object
         :rtype:
         """
+        signal = to_inexact(signal)
         if signal.ndim > 1:
             signal = signal.ravel()
         self.signal = signal
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 79fe693..89d0ee3 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -13,6 +13,7 @@ Bilinear Time-Frequency Processing in the Cohen’s Class.
 import numpy as np
 from tftb.processing.linear import ShortTimeFourierTransform
 from tftb.processing.base import BaseTFRepresentation
+from tftb.utils import to_inexact
 
 
 class Spectrogram(ShortTimeFourierTransform):
@@ -258,6 +259,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     :return: Smoothed pseudo Wigner Ville distribution
     :rtype: array-like
     """
+    signal = to_inexact(signal)
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
     if freq_bins is None:
diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index ad4e256..59c9ed4 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -1,4 +1,5 @@
 import numpy as np
+from tftb.utils import to_inexact
 
 
 def locfreq(signal):
@@ -77,6 +78,7 @@ def inst_freq(x, t=None, L=1):
     else:
         t = np.arange(2, len(x))
 
+    x = to_inexact(x)
     fnorm = 0.5 * (np.angle(-x[t] * np.conj(x[t - 2])) + np.pi) / (2 * np.pi)
     return fnorm, t
 
diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 532c51b..ef2e1f4 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -11,6 +11,7 @@
 import numpy as np
 import scipy.signal as ssig
 from tftb.processing.utils import derive_window
+from tftb.utils import to_inexact
 
 
 def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
@@ -27,6 +28,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = to_inexact(signal)
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -108,6 +110,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = to_inexact(signal)
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -184,6 +187,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = to_inexact(signal)
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
     if n_fbins is None:
@@ -258,6 +262,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
 :return:
 :rtype:
     """
+    signal = to_inexact(signal)
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -374,6 +379,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     :return:
     :rtype:
     """
+    signal = to_inexact(signal)
     xrow = signal.shape[0]
 
     if timestamps is None:
@@ -482,6 +488,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         vectors
     :rtype: tuple(array-like)
     """
+    signal = to_inexact(signal)
     if time_samples is None:
         time_samples = np.arange(signal.shape[0])
     elif np.unique(np.diff(time_samples)).shape[0] > 1:
diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index 24b0dd1..2c2ae0a 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -1,4 +1,5 @@
 import numpy as np
+from tftb.utils import to_inexact
 
 
 def loctime(sig):
@@ -23,6 +24,7 @@ def loctime(sig):
             raise TypeError
         else:
             sig = sig.ravel()
+    sig = to_inexact(sig)
     sig2 = np.abs(sig**2)
     sig2 = sig2 / sig2.mean()
     t = np.arange(len(sig))
diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index 1ba973a..894f8a9 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -9,6 +9,7 @@
 """Miscellaneous processing utilities."""
 
 import numpy as np
+from tftb.utils import to_inexact
 
 
 def get_spectrum(signal):
@@ -65,6 +66,7 @@ def derive_window(window):
 
     .. plot:: docstring_plots/processing/utils/derive_window.py
     """
+    window = to_inexact(window)
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
     ramp = (window[-1] - window[0]) / (window.shape[0] - 1)
diff --git a/tftb/utils.py b/tftb/utils.py
index 1a5ac89..8e571a5 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -6,6 +6,12 @@ import math
 import numpy as np
 
 
+def to_inexact(x):
+    """Return ``x`` in at least double precision: products and powers of
+    integer (or half and single precision) samples would overflow."""
+    return np.asarray(x, dtype=np.result_type(x, np.float64))
+
+
 def is_linear(x, decimals=5):
     """
     Check if an array is linear.
-- 
2.43.0


From 0fc407a505192bd8419b7f5048d41fe274d9a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 68/93] fix: loctime returned garbage for a single row or
 column

---
 tftb/processing/time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index 2c2ae0a..3bdcedf 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -19,7 +19,7 @@ def loctime(sig):
     >>> print("%.2f" % T)
     50.00
     """
-    if sig.ndim > 2:
+    if sig.ndim > 1:
         if 1 not in sig.shape:
             raise TypeError
         else:
-- 
2.43.0


From 69e9133f7ac0ae3029a44ce51be65ba6d504a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:02 +0000
Subject: [PATCH 69/93] fix: unsigned sample indices wrapped around in time
 differences

---
 tftb/processing/base.py       | 3 ++-
 tftb/processing/cohen.py      | 3 ++-
 tftb/processing/reassigned.py | 8 +++++++-
 tftb/utils.py                 | 7 +++++++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index ddf7a13..cbd9927 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -13,7 +13,7 @@ Base time-frequency representation class.
 import numpy as np
 from scipy.signal.windows import hamming
 import matplotlib.pyplot as plt
-from tftb.utils import to_inexact
+from tftb.utils import to_inexact, to_signed
 
 
 class BaseTFRepresentation(object):
@@ -35,6 +35,7 @@ class BaseTFRepresentation(object):
         self.signal = signal
         if timestamps is None:
             timestamps = np.arange(signal.shape[0])
+        timestamps = to_signed(timestamps)
         self.ts = self.timestamps = timestamps
         if n_fbins is None:
             n_fbins = signal.shape[0]
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 89d0ee3..9714a52 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -13,7 +13,7 @@ Bilinear Time-Frequency Processing in the Cohen’s Class.
 import numpy as np
 from tftb.processing.linear import ShortTimeFourierTransform
 from tftb.processing.base import BaseTFRepresentation
-from tftb.utils import to_inexact
+from tftb.utils import to_inexact, to_signed
 
 
 class Spectrogram(ShortTimeFourierTransform):
@@ -262,6 +262,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     signal = to_inexact(signal)
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
+    timestamps = to_signed(timestamps)
     if freq_bins is None:
         freq_bins = signal.shape[0]
 
diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index ef2e1f4..d625dfa 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -11,7 +11,7 @@
 import numpy as np
 import scipy.signal as ssig
 from tftb.processing.utils import derive_window
-from tftb.utils import to_inexact
+from tftb.utils import to_inexact, to_signed
 
 
 def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
@@ -32,6 +32,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
+    timestamps = to_signed(timestamps)
     if n_fbins is None:
         n_fbins = signal.shape[0]
     tcol = timestamps.shape[0]
@@ -114,6 +115,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
+    timestamps = to_signed(timestamps)
     if n_fbins is None:
         n_fbins = signal.shape[0]
     tcol = timestamps.shape[0]
@@ -190,6 +192,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     signal = to_inexact(signal)
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
+    timestamps = to_signed(timestamps)
     if n_fbins is None:
         n_fbins = signal.shape[0]
     tcol = timestamps.shape[0]
@@ -266,6 +269,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
+    timestamps = to_signed(timestamps)
     if n_fbins is None:
         n_fbins = signal.shape[0]
     k = 0.001
@@ -384,6 +388,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
+    timestamps = to_signed(timestamps)
     if n_fbins is None:
         n_fbins = signal.shape[0]
     if fwindow is None:
@@ -493,6 +498,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         time_samples = np.arange(signal.shape[0])
     elif np.unique(np.diff(time_samples)).shape[0] > 1:
         raise ValueError('Time instants must be regularly sampled.')
+    time_samples = to_signed(time_samples)
     if n_fbins is None:
         n_fbins = signal.shape[0]
     if window is None:
diff --git a/tftb/utils.py b/tftb/utils.py
index 8e571a5..873ccee 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -12,6 +12,13 @@ def to_inexact(x):
     return np.asarray(x, dtype=np.result_type(x, np.float64))
 
 
+def to_signed(t):
+    """Return ``t`` in a signed type: differences of unsigned sample indices
+    would wrap around."""
+    t = np.asarray(t)
+    return t.astype(int) if t.dtype.kind == "u" else t
+
+
 def is_linear(x, decimals=5):
     """
     Check if an array is linear.
-- 
2.43.0


From ba6dfbce4617be9e0e6624d0f06f9d87496d098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:49 +0000
Subject: [PATCH 70/93] fix: integrate_2d and is_linear wrapped around on
 unsigned or narrow integers

---
 tftb/processing/postprocessing.py | 2 ++
 tftb/processing/utils.py          | 1 +
 tftb/utils.py                     | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 849a457..5d5fdd1 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -12,6 +12,7 @@ Postprocessing functions.
 
 import numpy as np
 from tftb.processing.utils import integrate_2d
+from tftb.utils import to_inexact
 
 
 def hough_transform(image, m=None, n=None):
@@ -83,6 +84,7 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     """
     if alpha == 1 and tfr.min().min() < 0:
         raise ValueError("Distribution with negative values not allowed.")
+    tfr = to_inexact(tfr)
     m, n = tfr.shape
     if timestamps is None:
         timestamps = np.arange(n) + 1
diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index 894f8a9..54a762a 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -42,6 +42,7 @@ def integrate_2d(mat, x=None, y=None):
     if y is None:
         y = np.arange(m)
 
+    mat, x, y = to_inexact(mat), to_inexact(x), to_inexact(y)
     mat = (mat.sum(1) - mat[:, 0] / 2.0 - mat[:, n - 1] / 2.0) * (x[1] - x[0])
     dmat = mat[:(m - 1)] + mat[1:]
     dy = (y[1:] - y[:(m - 1)]) / 2.0
diff --git a/tftb/utils.py b/tftb/utils.py
index 873ccee..d083359 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -38,7 +38,7 @@ def is_linear(x, decimals=5):
     >>> is_linear(np.sin(x))
     False
     """
-    derivative = np.diff(x)
+    derivative = np.diff(to_inexact(x))
     derivative = np.around(derivative, decimals)
     return np.unique(derivative).shape[0] == 1
 
-- 
2.43.0


From bfa7c9d3f5e0556f5a08b1ad97998e9b006c42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 71/93] fix: atoms accepts one atom given as a one-dimensional
 row

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 0b6a014..6380c45 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -56,7 +56,7 @@ def atoms(n_points, coordinates):
     .. plot:: docstring_plots/generators/misc/atoms.py
     """
     if coordinates.ndim == 1:
-        coordinates = coordinates.reshape((coordinates.shape[0], 1))
+        coordinates = coordinates.reshape((1, coordinates.shape[0]))
     signal = np.zeros((n_points,), dtype=complex)
     n_atoms = coordinates.shape[0]
     for k in range(n_atoms):
-- 
2.43.0


From a09b16dbf2302214f6505e2da0675ab413192cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:02 +0000
Subject: [PATCH 72/93] fix: izak accepts a one-dimensional transform

---
 tftb/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index d083359..3744b67 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -49,6 +49,7 @@ def izak(x):
         n, m = x.shape
     else:
         n, m = x.shape[0], 1
+        x = x.reshape(n, m)
     sig = np.zeros((n * m, ), dtype=complex)
     for im in range(m):
         sig[im + np.arange(n) * m] = np.sqrt(n) * np.fft.ifft(x[:, im], axis=0)
-- 
2.43.0


From fdec083eb30228fb56518ec058912d91bfd9574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:16 +0000
Subject: [PATCH 73/93] fix: reassigned scalogram and smoothed pseudo
 Wigner-Ville accept a single instant

---
 tftb/processing/reassigned.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index d625dfa..43115df 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -275,7 +275,9 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
     k = 0.001
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
-    if deltat.min() != deltat.max():
+    if deltat.shape[0] == 0:
+        dt = 1
+    elif deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
         dt = deltat.min()
@@ -409,7 +411,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
-    if deltat.min() != deltat.max():
+    if deltat.shape[0] == 0:
+        dt = 1
+    elif deltat.min() != deltat.max():
         raise ValueError("Time instants must be regularly sampled.")
     else:
         dt = deltat.min()
-- 
2.43.0


From 8130066dc58636af4d5167ad9d4e8ce4aa40091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 74/93] fix: derive_window of a one-point window was NaN and
 broke the reassigned methods

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index 54a762a..8035ae1 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -70,7 +70,7 @@ def derive_window(window):
     window = to_inexact(window)
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[-1] - window[0]) / (window.shape[0] - 1)
+    ramp = (window[-1] - window[0]) / max(window.shape[0] - 1, 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From fad1a7e77b4ea51ed46186f771d8fca2aff25f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:22 +0000
Subject: [PATCH 75/93] fix: affine plots use the frequencies of the voices,
 not evenly spaced or two-sided ones

---
 tftb/processing/affine.py | 1 +
 tftb/processing/base.py   | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 4b4ce24..f17b57c 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -243,6 +243,7 @@ class Scalogram(AffineDistribution):
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
+        self.freqs = f
         return self.tfr, self.ts, f, wt
 
 
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index cbd9927..f1ce82f 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -84,7 +84,7 @@ class BaseTFRepresentation(object):
             if contour_y is None:
                 if show_tf:
                     if self.isaffine:
-                        contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
+                        contour_y = self.freqs
                     else:
                         contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
                 else:
@@ -221,7 +221,8 @@ class BaseTFRepresentation(object):
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                f = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
+                t, f = np.meshgrid(self.ts, f)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From a5210561e359e7b700cf2b476663d200f7d25a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 76/93] fix: surf and wireframe plots when the matrix is not as
 large as the signal is long

---
 tftb/processing/base.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index f1ce82f..fef060c 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -203,21 +203,18 @@ class BaseTFRepresentation(object):
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
             elif kind == "surf":
-                from mpl_toolkits.mplot3d import Axes3D
-                fig = plt.figure()
+                from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
-                X, Y = np.meshgrid(x, y)
+                y = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
+                X, Y = np.meshgrid(self.ts, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
                     ax.set_zlabel("Amplitude")
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
-                X, Y = np.meshgrid(x, y)
+                y = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
+                X, Y = np.meshgrid(self.ts, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-- 
2.43.0


From 2aa9fb18ad320b8ceb88d24097f7ff3524225eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:59 +0000
Subject: [PATCH 77/93] fix: contour plots without show_tf ignored the levels
 and coordinates given

---
 tftb/processing/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index fef060c..88aeb42 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -218,9 +218,12 @@ class BaseTFRepresentation(object):
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                f = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
-                t, f = np.meshgrid(self.ts, f)
-                ax.contour(t, f, self.tfr, **kwargs)
+                t = self.ts if contour_x is None else contour_x
+                f = contour_y
+                if f is None:
+                    f = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
+                t, f = np.meshgrid(t, f)
+                ax.contour(t, f, self.tfr, levels=levels, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
                 ax.grid(grid)
-- 
2.43.0


From 4cb5b776c7dc1418d27c2898160d14b68b1aef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:23 +0000
Subject: [PATCH 78/93] fix: the scalogram's contours use its own frequencies
 as well

---
 tftb/processing/affine.py |  3 +++
 tftb/processing/base.py   | 17 +++++++----------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index f17b57c..603205f 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -106,6 +106,9 @@ class AffineDistribution(BaseTFRepresentation):
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
         return beta, mellin1, mellin2
 
+    def _plot_freqs(self):
+        return self.freqs
+
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         tfr = self.tfr
         self.tfr = self.tfr.copy()
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 88aeb42..dc2a79b 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -73,6 +73,9 @@ class BaseTFRepresentation(object):
         h += 1 - (h % 2)
         return hamming(h)
 
+    def _plot_freqs(self):
+        return np.linspace(0, 0.5, self.tfr.shape[0])
+
     def _plot_tfr(self, ax, kind, extent, contour_x=None, contour_y=None,
                   levels=None, show_tf=True, cmap=plt.cm.gray):
         if kind == "cmap":
@@ -82,13 +85,7 @@ class BaseTFRepresentation(object):
             if contour_x is None:
                 contour_x = self.ts
             if contour_y is None:
-                if show_tf:
-                    if self.isaffine:
-                        contour_y = self.freqs
-                    else:
-                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
-                else:
-                    contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
+                contour_y = self._plot_freqs()
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
             if levels is not None:
                 ax.contour(contour_x, contour_y, self.tfr, levels)
@@ -205,7 +202,7 @@ class BaseTFRepresentation(object):
             elif kind == "surf":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                y = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
+                y = self._plot_freqs()
                 X, Y = np.meshgrid(self.ts, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
@@ -213,7 +210,7 @@ class BaseTFRepresentation(object):
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                y = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
+                y = self._plot_freqs()
                 X, Y = np.meshgrid(self.ts, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
@@ -221,7 +218,7 @@ class BaseTFRepresentation(object):
                 t = self.ts if contour_x is None else contour_x
                 f = contour_y
                 if f is None:
-                    f = self.freqs if self.isaffine else np.linspace(0, 0.5, self.tfr.shape[0])
+                    f = self._plot_freqs()
                 t, f = np.meshgrid(t, f)
                 ax.contour(t, f, self.tfr, levels=levels, **kwargs)
             if default_annotation:
-- 
2.43.0


From 4ce31018640689042dfb86ece1ecce40d44f5818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:21 +0000
Subject: [PATCH 79/93] fix: the spectrum beside an affine plot is drawn at its
 own frequencies, for any number of voices

---
 tftb/processing/affine.py |  7 +------
 tftb/processing/base.py   | 14 ++++++++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 603205f..5c2670f 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -114,13 +114,9 @@ class AffineDistribution(BaseTFRepresentation):
         self.tfr = self.tfr.copy()
         _thresh = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _thresh] = 0
-        freq_y = kwargs.pop(
-            "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
-        )
-
         try:
             super(AffineDistribution, self).plot(
-                kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
+                kind=kind, show_tf=show_tf, **kwargs
             )
         finally:
             self.tfr = tfr
@@ -154,7 +150,6 @@ class Scalogram(AffineDistribution):
     """
 
     name = "scalogram"
-    isaffine = False
 
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index dc2a79b..e603906 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -55,9 +55,9 @@ class BaseTFRepresentation(object):
     def _get_spectrum(self):
         if not self.isaffine:
             return np.fft.fftshift(np.abs(np.fft.fft(self.signal)) ** 2)
-        nf2 = self.tfr.shape[0]
-        spec = np.abs(np.fft.fft(self.signal[self.ts.min():(self.ts.max() + 1)],
-                                 2 * nf2)) ** 2
+        signal = self.signal[self.ts.min():(self.ts.max() + 1)]
+        nf2 = max(self.tfr.shape[0], (signal.shape[0] + 1) // 2)
+        spec = np.abs(np.fft.fft(signal, 2 * nf2)) ** 2
         return spec[:nf2]
 
     def _make_window(self):
@@ -118,17 +118,19 @@ class BaseTFRepresentation(object):
     def _plot_spectrum(self, ax, freq_x, freq_y):
         k = int(np.floor(self.signal.shape[0] / 2.0))
         if freq_x is None:
-            freq_x = self._get_spectrum()[::-1][:k]
+            freq_x = self._get_spectrum()
+            if not self.isaffine:
+                freq_x = freq_x[::-1][:k]
         if freq_y is None:
             if self.isaffine:
-                freq_y = self.freqs
+                freq_y = np.linspace(0, 0.5, len(freq_x), endpoint=False)
             else:
                 freq_y = np.arange(k)
         ax.plot(freq_x, freq_y)
         if not self.isaffine:
             ax.set_ylim(0, freq_y.shape[0] - 1)
         else:
-            ax.set_ylim(freq_y[0], freq_y[-1])
+            ax.set_ylim(self.freqs[0], self.freqs[-1])
 
     def _annotate_spectrum(self, ax):
         ax.set_ylabel('Spectrum')
-- 
2.43.0


From 8e71866e6b193d6f08f22dc163d88778f9c8f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:49 +0000
Subject: [PATCH 80/93] fix: fmpower of degree 1 has a logarithmic phase
 instead of NaN

---
 tftb/generators/frequency_modulated.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index e91da16..8497e9c 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -203,7 +203,10 @@ def fmpower(n_points, k, coefficients):
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
     t = np.arange(1, n_points + 1, dtype=float)
-    phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
+    if k == 1:
+        phi = 2 * np.pi * (f0 * t + c * np.log(np.abs(t)))
+    else:
+        phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From eb4e08acbea27d93b626f0a87c007a10b359cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:33 +0000
Subject: [PATCH 81/93] fix: logarithmic contour levels follow the values
 drawn, also with threshold 0

---
 tftb/processing/cohen.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 9714a52..7b510e7 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -190,11 +190,6 @@ class WignerVilleDistribution(BaseTFRepresentation):
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=False, **kwargs):
         scale = kwargs.pop("scale", "linear")
-        if scale == "log":
-            maxi = np.amax(self.tfr)
-            mini = max(np.amin(self.tfr), maxi * threshold)
-            levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
-            kwargs['levels'] = levels
         tfr = self.tfr
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
@@ -202,6 +197,14 @@ class WignerVilleDistribution(BaseTFRepresentation):
             self.tfr = np.abs(self.tfr)
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
+        if scale == "log":
+            maxi = np.amax(self.tfr)
+            mini = max(np.amin(self.tfr), maxi * threshold)
+            if mini == 0 and maxi > 0:
+                mini = np.amin(self.tfr[self.tfr > 0])
+            if mini < maxi:
+                levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
+                kwargs['levels'] = levels
         try:
             super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
                                                       **kwargs)
-- 
2.43.0


From ef230711800b3702b4bfe46d4889097ba081f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:37 +0000
Subject: [PATCH 82/93] fix: Margenau-Hill plots accept an extent like the
 other representations

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 7b510e7..83d0b7b 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -124,7 +124,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        extent = [self.ts.min(), self.ts.max(), 0, 0.5]
+        extent = kwargs.pop('extent', [self.ts.min(), self.ts.max(), 0, 0.5])
         try:
             super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
         finally:
-- 
2.43.0


From 0015c57c020b1d59ca39436383a362705f776ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 83/93] fix: plot of the STFT with sqmod=False draws the
 modulus instead of failing

---
 tftb/processing/linear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 10a6de4..3125cd6 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -98,6 +98,8 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
+        elif np.iscomplexobj(self.tfr):
+            self.tfr = np.abs(self.tfr)
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         try:
-- 
2.43.0


From bc64af29edb034d26247ede71da42025a29c97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:35 +0000
Subject: [PATCH 84/93] fix: Renyi information of order other than 1 has no
 floor on the integral (it hid large entropies)

---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 5d5fdd1..8bbc0db 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -97,7 +97,7 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
     else:
-        R = np.log2(integrate_2d(tfr ** alpha, timestamps, freq) + np.spacing(1))
+        R = np.log2(integrate_2d(tfr ** alpha, timestamps, freq))
         R = R / (1 - alpha)
     return R
 
-- 
2.43.0


From edafd738119954ed396a348af29cc79ba39f1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:28 +0000
Subject: [PATCH 85/93] fix: group delay is 0, not NaN, at frequencies where
 the spectrum vanishes

---
 tftb/processing/freq_domain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 59c9ed4..1ccf678 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -125,4 +125,5 @@ def group_delay(x, fnorm=None):
         window = np.real(numerator / denominator) >= 1
         ratio = np.real(numerator / denominator) * window.astype(int)
         gd = ratio * (np.real(numerator / denominator) <= (len(x) + 3)).astype(int)
+    gd[np.isnan(gd)] = 0  # no delay where the spectrum vanishes
     return gd
-- 
2.43.0


From 0fa2a6be592bd1a545f1b3afa28829594ddb766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 86/93] fix: nextpow2 must not fall short just above a large
 power of two

---
 tftb/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 3744b67..2ebd465 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -71,8 +71,10 @@ def nextpow2(n):
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
     if np.ndim(n) > 0:
-        return np.ceil(np.log2(n))
-    return math.ceil(math.log2(n))
+        k = np.ceil(np.log2(n))
+        return k + (2.0 ** k < n)
+    k = math.ceil(math.log2(n))
+    return k + int(2 ** k < n)
 
 
 def divider(N):
-- 
2.43.0


From 66c1ba2af9a66d048240e1d6c067937d7bafd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 87/93] fix: divider must take the integer square root exactly

---
 tftb/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 2ebd465..4f74ed9 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -95,12 +95,10 @@ def divider(N):
     >>> print(divider(101))
     (1, 101)
     """
-    s = math.sqrt(N)
-    if s % 1 == 0:
-        s = int(s)
+    s = math.isqrt(int(N))
+    if s * s == N:
         return s, s
-    s = math.ceil(s)
-    for i in range(s, 0, -1):
+    for i in range(s + 1, 0, -1):
         factor = N // i
         if N % i == 0:
             break
-- 
2.43.0


From 65dca1041fe64a388a32a06e0308448727af5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:41 +0000
Subject: [PATCH 88/93] fix: lambdak is 1 at u = 0 for every kernel, and takes
 arrays

---
 tftb/processing/affine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 5c2670f..5f3715a 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -460,16 +460,16 @@ class BertrandDistribution(AffineDistribution):
 def lambdak(u, k):
     method_lookup = {"bertrand": 0, "unterberger": -1, "d_flandrin": 0.5, "aspwv": 2}
     k = method_lookup[k]
+    zero = np.equal(u, 0)
+    u = np.where(zero, 1.0, u)
     if k not in (0, 1):
         y = k * (np.exp(-u) - 1) / (np.exp(-k * u) - 1)
         y = y ** (1 / (k - 1))
     elif k == 1:
         y = np.exp(1 + u * np.exp(-u) / (np.exp(-u) - 1))
     elif k == 0:
-        if u == 0:
-            return 1
         y = -u / (np.exp(-u) - 1)
-    return y
+    return np.where(zero, 1.0, y)[()]
 
 
 def smoothed_pseudo_wigner(
-- 
2.43.0


From d46bda03925749808c0e10fa49086e57d64edabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 89/93] fix: the default number of voices is at least two for
 narrow bands

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 5f3715a..c1da204 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -68,7 +68,7 @@ class AffineDistribution(BaseTFRepresentation):
             * np.log((1 + self.R / 2) / (1 - self.R / 2))
         )
         nq = np.ceil(q / 2)
-        nmin = nq - nq % 2
+        nmin = max(nq - nq % 2, 2)
         ndflt = 2 ** nextpow2(nmin)
         self.n_voices = int(ndflt)
 
-- 
2.43.0


From 1fc908232dbfbef5c9b4fb0cb3b3a60181313b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 90/93] fix: wide_band takes at least two samples by default
 for narrow bands

---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 2d509c5..0667cd5 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -49,7 +49,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
     B = fmax - fmin
     R = B / ((fmin + fmax) / 2.0)
     nq = np.ceil((B * T * (1 + 2.0 / R) * np.log((1 + R / 2.0) / (1 - R / 2.0))) / 2.0)  # NOQA
-    nmin = nq - (nq % 2)
+    nmin = max(nq - (nq % 2), 2)
     if N is None:
         N = int(2 ** (nextpow2(nmin)))
 
-- 
2.43.0


From dc4f7dc71751ebe17a3bc5a1b90c29aef47e590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:28 +0000
Subject: [PATCH 91/93] fix: Bertrand distribution over bands wider than e^4
 (umax was searched below 4 only)

---
 tftb/processing/affine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index c1da204..051eab3 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -12,7 +12,7 @@ Bilinear Time-Frequency Processing in the Affine Class.
 
 import numpy as np
 from scipy.signal import hilbert
-from scipy.optimize import brenth, newton
+from scipy.optimize import newton
 from scipy.interpolate import splrep, splev
 from tftb.generators import mexhat, scale
 from tftb.processing.utils import integrate_2d
@@ -391,8 +391,7 @@ class BertrandDistribution(AffineDistribution):
         super(BertrandDistribution, self).__init__(
             signal, fmin=fmin, fmax=fmax, n_voices=n_voices, **kwargs
         )
-        umaxbert = lambda x: np.exp(x) - self.fmax / self.fmin
-        self.umax = brenth(umaxbert, 0, 4)
+        self.umax = np.log(self.fmax / self.fmin)
         teq = self.m / (self.fmax * self.umax)
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
-- 
2.43.0


From 0cb9d0212ebae3074be226506d26c9b68e6bd668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 92/93] fix: gabor takes its dual window's nulls relative to
 the window's own scale

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 3125cd6..6db7849 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -153,7 +153,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
         mod = modulo(x - l * n_coeff / q_oversample, n_coeff).astype(int)
         mzh += np.abs(dzth[mod - 1, :]) ** 2
 
-    mzh[mzh < np.spacing(1)] = 1
+    mzh[mzh < np.spacing(np.amax(mzh))] = 1
 
     # Za transform of biorthogonal dual frame window gam
     dztgam = dzth / mzh
-- 
2.43.0


From 7466ea9842a26b0687d26d6d35c2d68853c92d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 93/93] fix: gabor keeps the imaginary part of a complex
 synthesis window

---
 tftb/processing/linear.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 6db7849..0ee922b 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -140,7 +140,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     if nh % 2 == 0:
         raise ValueError("The window function should have an odd length.")
     alpha = np.round((2 * signal.shape[0] / float(n_coeff) - 1 - nh) / (2 * q_oversample))
-    hn1 = np.zeros((signal.shape[0],))
+    hn1 = np.zeros((signal.shape[0],), dtype=np.result_type(window, float))
     start = np.round(((signal.shape[0] - (nh - 1))) / 2) - alpha
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
     hn1[np.arange(start - 1, end).astype(int) % signal.shape[0]] = window
@@ -157,14 +157,16 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
 
     # Za transform of biorthogonal dual frame window gam
     dztgam = dzth / mzh
-    gam = np.real(izak(dztgam)) / signal.shape[0]
+    gam = izak(dztgam) / signal.shape[0]
+    if not np.iscomplexobj(hn1):
+        gam = np.real(gam)
 
     # Computation of Gabor coefficient of dual frame window.
     dgrn1 = np.zeros((signal.shape[0], n_coeff), dtype=complex)
     k = np.arange(1, signal.shape[0] + 1)
     for n in range(n_coeff):
         index = modulo(k - n * m / q_oversample, signal.shape[0]).astype(int) - 1
-        dgrn1[:, n] = np.fft.fft(signal * np.fft.fftshift(gam[index]), axis=0)
+        dgrn1[:, n] = np.fft.fft(signal * np.conj(np.fft.fftshift(gam[index])), axis=0)
     dgr = dgrn1[np.arange(signal.shape[0], step=nb).astype(int), :]
     tfr = np.abs(dgr) ** 2
     return tfr, dgr, gam
-- 
2.43.0

