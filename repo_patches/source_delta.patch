From 2c09c961f860761b738d3aabfdf39457f745247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 01/36] fix: IV.rfit_err holds the error of the fit resistance,
 not its value

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..ed3a0dc 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -297,7 +297,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From 59ebc5cb6647e53d358e6ca7ac5ab3c79b412d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 02/36] fix: IV stores a three-dimensional rload

---
 qetpy/core/_iv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index ed3a0dc..392fbc8 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From a5163193ec66cbe2ffe187abaefa421bda0c25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 03/36] fix: IBIS stores a three-dimensional rp_guess

---
 qetpy/core/_ibis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..76a213d 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps,nch,niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
-- 
2.43.0


From 88165bcbd2fcef407d5b0b56de6f51c7c1bf94de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 04/36] fix: IBIS with a scalar rp_guess accepts one- and
 two-dimensional data

---
 qetpy/core/_ibis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 76a213d..1ba3ded 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.ones_like(self.dites)*rp_guess
+            self.rp_err_guess = np.ones_like(self.dites)*rp_err_guess
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
-- 
2.43.0


From aaa0459aac96a8a3ff0ac2184324b02f3bd97509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 05/36] fix: IBIS fit resistance errors use the standard
 deviation of the slope, not its variance

---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 1ba3ded..1ebb9fb 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -478,7 +478,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -511,9 +511,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From 2c491216e214c842411c4080a678d6662c5efd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 06/36] fix: derivative of the IBIS crossing point with respect
 to the normal slope

---
 qetpy/core/_ibis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 1ebb9fb..9976c7b 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -577,7 +577,7 @@ class IBIS(object):
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     slope_sc[t, ch, 0] - slope_n[t, ch, 0]
-                ) + (
+                ) + slope_n[t, ch, 0] * (
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     (slope_sc[t, ch, 0] - slope_n[t, ch, 0])**2
-- 
2.43.0


From 31fe8ff04d892cbb6ba971d6e1add326e40a77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 07/36] fix: misspelled ValueError in the cut functions

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..619097f 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.ones(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
-- 
2.43.0


From 4df89d48d788850c5b6e7d7f8d4e273b230acb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 08/36] fix: pileupcut does not subtract the means from the
 caller's traces

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 619097f..12335b2 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From f577effc02949b6e16a822467b4422a4d6542f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 09/36] fix: undefined name in get_muon_cut

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 12335b2..fae6bb8 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < trace.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From 8daac3e12330d369d546683293bb7fa6d299ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 10/36] fix: gen_noise does not modify the caller's psd

---
 qetpy/core/_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..b118cff 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,7 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        psd = np.array(psd, dtype=float)
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From 8a0782c37bf34e561d1901ba6e87a1e46d63ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 11/36] fix: slope subtracts the mean of y from y

---
 qetpy/utils/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 627b0e4..4cdd826 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -321,8 +321,9 @@ def slope(x, y, removemeans=True):
     """
 
     x_mean = np.mean(x) if removemeans else 0
+    y_mean = np.mean(y) if removemeans else 0
 
-    return np.sum((x - x_mean) * (y - x_mean)) / np.sum((x - x_mean) ** 2)
+    return np.sum((x - x_mean) * (y - y_mean)) / np.sum((x - x_mean) ** 2)
 
 def fill_negatives(arr):
     """
-- 
2.43.0


From 09f6297fdb816a47216f8096502a7db2ededc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 12/36] fix: of_nsmb wraps a copy of the window indices, not
 the caller's array

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..60697e4 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -567,7 +567,7 @@ def of_nsmb(pulset, phi, sbtemplatef, sbtemplate, iPt, psddnu, fs, indwindow_nsm
 
     """
 
-    indwindow = indwindow_nsmb[0]
+    indwindow = np.array(indwindow_nsmb[0])
 
     # === Input Dimensions ===
     pulset = np.expand_dims(pulset,1)
-- 
2.43.0


From 56dc90447f7d727182d8ebfc19f36349547914a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 13/36] fix: amplitudes of two coincident pulses in
 ofamp_pileup_stationary

---
 qetpy/core/_fitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..edf2781 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -827,8 +827,8 @@ class OptimumFilter(object):
         ) / denom[1:]
 
         # calculate the zero freq bins to avoid divide by zero
-        a1s[0] = self.signalfilt_td[0] / (2 * self.norm)
-        a2s[0] = self.signalfilt_td[0] / (2 * self.norm)
+        a1s[0] = self.signalfilt_td[0] / 2
+        a2s[0] = self.signalfilt_td[0] / 2
 
         # signal part of chi^2
         if self.chi0 is None:
@@ -1425,8 +1425,8 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     ) / denom[1:]
 
     # calculate the zero freq bins to avoid divide by zero
-    a1s[0] = signalfilt_td[0] / (2 * norm**2)
-    a2s[0] = signalfilt_td[0] / (2 * norm**2)
+    a1s[0] = signalfilt_td[0] / (2 * norm)
+    a2s[0] = signalfilt_td[0] / (2 * norm)
 
     # signal part of chi^2
     chi0 = np.real(np.dot(v.conjugate() / psd, v)) * df
-- 
2.43.0


From 0e8614cc9d084e2e8e9973d8faf1758cd6f31490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 14/36] fix: pileup fit evaluates the first pulse at the
 nearest time bin

---
 qetpy/core/_fitting.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index edf2781..120cead 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -687,10 +687,7 @@ class OptimumFilter(object):
 
         a2s = self.signalfilt_td - a1 * templatefilt_td / self.norm
 
-        if t1<0:
-            t1ind = int(t1 * self.fs + self.nbins)
-        else:
-            t1ind = int(t1 * self.fs)
+        t1ind = int(np.rint(t1 * self.fs)) % self.nbins
 
         # do a1 part of chi2
         chit = (
@@ -1294,10 +1291,7 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     # first fitting part of chi2
     chit = (a1**2 + a2s**2) * norm + 2 * a1 * a2s * templatefilt_td
 
-    if t1<0:
-        t1ind = int(t1 * fs + nbins)
-    else:
-        t1ind = int(t1 * fs)
+    t1ind = int(np.rint(t1 * fs)) % nbins
 
     # last part of chi2
     chil = (
-- 
2.43.0


From 7038c3b97855be7e79a31a67b497c072806cf85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 15/36] fix: apply the add180phase time offset of the DIDV
 classes exactly once

---
 qetpy/core/didv/_base_didv.py   | 9 ++++-----
 qetpy/core/didv/_didv_priors.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..8918043 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -475,6 +475,10 @@ class _BaseDIDV(object):
         self._dutycycle = dutycycle
         self._add180phase = add180phase
         self._dt0 = dt0
+        # add half a period of the square wave frequency to the
+        # initial offset if add180phase is True
+        if self._add180phase:
+            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
 
         self._freq = None
         self._time = None
@@ -948,11 +952,6 @@ class _BaseDIDV(object):
         nbinsraw = len(self._rawtraces[0])
         bins = np.arange(0, nbinsraw)
 
-        # add half a period of the square wave frequency to the
-        # initial offset if add180phase is True
-        if (self._add180phase):
-            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
-
         self._time = bins*dt - self._dt0
 
         # figure out how many didv periods are in the trace, including
diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..25e49f2 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,7 +255,7 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
+            add180phase=False, # already included in self._dt0
             dt0=self._dt0,
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
-- 
2.43.0


From e2e19c7d9eb01572f954ab15d562d99a57015358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 16/36] fix: symmetrizedist flips the sign of mostly positive
 values

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index fae6bb8..d5fb815 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
-- 
2.43.0


From d5359aa933f4303be56e81d48f45da86c60b5cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 17/36] fix: slopecut rejects the traces that do not pass the
 cut

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index d5fb815..87d1362 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From 15b0a4dcc32a2a9ed0e3636559844dac42a0c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 18/36] fix: align_traces uses its cut_off_freq and fs
 arguments

---
 qetpy/utils/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 4cdd826..fddbaab 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -423,7 +423,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
 
     # Filter and truncate all traces to speed up.
     traces_filt = lowpassfilter(
-        traces[:, :n_cut], cut_off_freq=5000, fs=625e3,
+        traces[:, :n_cut], cut_off_freq=cut_off_freq, fs=fs,
     )
     traces_temp = traces_filt - np.mean(traces_filt, axis=-1, keepdims=True)
     traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))
-- 
2.43.0


From 10a1986f217277f720c6c6373b79351815271f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 19/36] fix: Noise.plot_reim_psd passes on its save options

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index b118cff..ab217d3 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -437,7 +437,7 @@ class Noise(object):
 
         """
         
-        utils.plot_reim_psd(self, lgcsave = False, savepath = None)
+        utils.plot_reim_psd(self, lgcsave, savepath)
         
     def plot_corrcoeff(self, lgcsmooth = True, nwindow = 7,lgcsave = False, savepath = None):
         """
-- 
2.43.0


From 9bd94053cc376ab60b86721ef685757e94ae0241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 20/36] fix: compare noisetype by value in loadfromdidv

---
 qetpy/sim/_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..02a7381 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,7 +112,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
+    elif noisetype == "normal":
         raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
@@ -128,7 +128,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From 52bffaf866e3d6aa2949f1d025647e6b79e47454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 21/36] fix: loadfromdidv accepts a normal noise type when
 rnormal is given

---
 qetpy/sim/_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 02a7381..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -113,7 +113,8 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         tau0 = 0
         G = 0
     elif noisetype == "normal":
-        raise ValueError('Please specify rnormal.')
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From 0e7e1dfd11727788f2ef30f123cabf88a4d7b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 22/36] fix: compare istype by value in plot_noise_sim

---
 qetpy/plotting/_noise_plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 6861f85..219c3a1 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -545,25 +545,25 @@ def plot_noise_sim(f, psd, noise_sim, istype, qetbias, lgcsave=False, figsavepat
 
     """
 
-    if istype is 'current':
+    if istype == 'current':
         fig, ax = _plot_ti_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'current_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'power':
+    elif istype == 'power':
         fig, ax = _plot_tp_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'power_noise_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'sc':
+    elif istype == 'sc':
         fig, ax = _plot_sc_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}SC_noise_qetbias{qetbias*1e6:.3f}muA.png')
         else:
             return fig, ax 
-    elif istype is 'normal':
+    elif istype == 'normal':
         fig, ax = _plot_n_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}normal_noise_qetbias{qetbias*1e6:.3f}muA.png')
-- 
2.43.0


From a875c327a860dac63fe7aaca01f147ca55edfac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 23/36] fix: compare_noise looks channels up in Noise.channames

---
 qetpy/plotting/_noise_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 219c3a1..7763ef2 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -474,8 +474,8 @@ def compare_noise(arr, channels, lgcdecorrelatednoise=False, lgcsave=False, save
                 plt.ylabel(r'Input Referenced Noise [A/$\sqrt{\mathrm{Hz}}$]')
                 plt.grid(which = 'both')
                 for ii in range(len(arr)):
-                    if chan in arr[ii].chann_dict:
-                        chan_index = arr[ii].chann_dict[chan] #check that the channel is in the noise object before plotting
+                    if chan in arr[ii].channames:
+                        chan_index = list(arr[ii].channames).index(chan) #check that the channel is in the noise object before plotting
                         #plot the de correlated noise if desired
                         if lgcdecorrelatednoise:
                             #check that de correlated noise has been calculated
-- 
2.43.0


From 2da5437c1841b98bb81785d3ec617f44b7543506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 24/36] fix: importing qetpy does not reset the process-wide
 warning filters

---
 qetpy/core/_iv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 392fbc8..1a912d2 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -9,7 +9,6 @@ import numpy as np
 from scipy.optimize import curve_fit
 import qetpy.plotting as utils
 import warnings
-warnings.simplefilter('default')
 
 __all__ = ["IV"]
 
@@ -176,7 +175,8 @@ class IV(object):
             "qetpy.IV class is deprecated, use qetpy.IBIS instead.\n"
             "The error propagation in qetpy.IV does not correctly take into account the shunt resistance"
             "qetpy.IV will be removed in futer versions of QETpy",
-            DeprecationWarning
+            DeprecationWarning,
+            stacklevel=2,
         )
 
 
-- 
2.43.0


From e4fdb8193ed343c872a0202cb538a538fd58d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 25/36] fix: IBIS offset errors without a superconducting fit

---
 qetpy/core/_ibis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 9976c7b..de03c96 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -600,6 +600,11 @@ class IBIS(object):
                 covout = jac_int.dot(cov_int.dot(jac_int.transpose()))
                 ioff_err[t,ch] = np.sqrt(np.sum(covout))
 
+        # without the SC fit the offset is the intercept of the normal fit
+        if not self.fitsc:
+            ioff_err = int_n_err
+            ibias_off_err = np.zeros_like(int_n)
+
         # if yoff and xoff are specified, use these instead of the
         # calculated values
         if yoff is None:
-- 
2.43.0


From c7688ea41fc84b27335ea04908a445eae8993855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 26/36] fix: interpolate the delay periodically when the best
 bin is the last one

_interpolate_parabola read vals[bestind + 1], which raised an IndexError
whenever the smallest chi-square was in the last bin, while the neighbour
of the first bin was already taken periodically.
---
 qetpy/core/_fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 120cead..97f91b4 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -294,8 +294,11 @@ class OptimumFilter(object):
 
         sf = 1 / (2 * delta**2)
 
-        a = sf * (vals[bestind + 1] - 2 * vals[bestind] + vals[bestind - 1])
-        b = sf * delta * (vals[bestind + 1] - vals[bestind - 1])
+        # the delay is periodic, so the neighbor of the last bin is the first
+        nextind = (bestind + 1) % len(vals)
+
+        a = sf * (vals[nextind] - 2 * vals[bestind] + vals[bestind - 1])
+        b = sf * delta * (vals[nextind] - vals[bestind - 1])
         c = sf * 2 * delta**2 * vals[bestind]
 
         if t_interp is None:
-- 
2.43.0


From 43ad3bc1523ffe789d672f9c51bf167c46becfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 27/36] fix: Noise.calculate_psd counts the zero-frequency and
 Nyquist bins once

---
 qetpy/core/_noise.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index ab217d3..dec754d 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -305,10 +305,15 @@ class Noise(object):
         real_psd_chan = np.real(fft)**2
         imag_psd_chan = np.imag(fft)**2
         # take the average of the psd's for each trace, normalize, and fold over the 
-        # negative frequencies since they are symmetric
-        psd = np.mean(psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs) 
-        real_psd = np.mean(real_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)
-        imag_psd = np.mean(imag_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)  
+        # negative frequencies since they are symmetric (the zero frequency bin and, 
+        # for even lengths, the Nyquist bin have no negative counterpart)
+        fold = np.full(lenpsd, 2.0)
+        fold[0] = 1.0
+        if traceshape[2] % 2 == 0:
+            fold[-1] = 1.0
+        psd = np.mean(psd_chan, axis = 0)*fold/(traceshape[2]*self.fs) 
+        real_psd = np.mean(real_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)
+        imag_psd = np.mean(imag_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)  
       
         self.psd = psd
         self.real_psd = real_psd
-- 
2.43.0


From dc888ba2ce85c9bccebf7fecfc0d716598a34d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 28/36] fix: OFnonlin.twopole has the sign of twopoletime when
 the rise time is the longer one

With scale_amplitude the amplitude normalisation already carries the sign of
tau_r - tau_f, so taking its absolute value turned the pulse upside down for
tau_r > tau_f.
---
 qetpy/core/_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 97f91b4..1caaf67 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1912,8 +1912,8 @@ class OFnonlin(object):
             delta = tau_r - tau_f
             rat = tau_r / tau_f
             amp = A / (rat**(-tau_r / delta) - rat**(-tau_f / delta))
-            pulse = amp * np.abs(
-                tau_r-tau_f
+            pulse = amp * (
+                tau_f - tau_r
             ) / (
                 1 + omega * tau_f * 1j
             ) / (
-- 
2.43.0


From 11a0bb1414a9d59c2cdb47a4d3094c42912c2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 29/36] fix: of_nsmb_setup works with a single background
 template

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 60697e4..e69563b 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -284,7 +284,7 @@ def of_nsmb_setup(stemplatet, btemplatet, psd, fs):
                 P[jr,jc,:] = P[jc,jr,:]
    
     # invert the background-background matrix
-    B = np.squeeze(B)
+    B = B[:,:,0]
     iB = np.linalg.pinv(B)
     
     bitcomb = [list(i) for i in itertools.product([0,1],repeat=nsb)]
-- 
2.43.0


From fe4ea29fb24a3b64b9fd2a74c2a4410c45526fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 30/36] fix: polarity constrained NSMB fits with a single
 template left to fit

---
 qetpy/core/_of_nsmb.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index e69563b..74e9f5f 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -149,7 +149,7 @@ def of_nsmb_getPt(Pfs, P, combind=2**20, bindelay=0, bitcomb=None, bitmask=None)
     nsbmask = np.sum(bitmask)
     
     # get indices of the nonzero elements in the mask
-    indexbitmask = np.squeeze(np.nonzero(bitmask)) 
+    indexbitmask = np.flatnonzero(bitmask)
         
     try:
         Pmask = P[np.ix_(indexbitmask[0:ns], indexbitmask[0:nsbmask])]
@@ -449,7 +449,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     bitcombfitBackground = 1 - bitcomb_forcezero
 
     numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.squeeze(np.nonzero(bitcombfitBackground))
+    indexBitMaskBackground = np.flatnonzero(bitcombfitBackground)
 
     tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
 
@@ -849,7 +849,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         a_tset_boundary = np.copy(a_tset)
 
         # set the elements in disallowed region to boundary (0.0)
-        index_forcezero = np.squeeze(np.nonzero(bitcomb_forcezero))
+        index_forcezero = np.flatnonzero(bitcomb_forcezero)
         a_tset_boundary[index_forcezero] = 0.0
 
         # calculate vector from absolute minimum to closest allowed point
@@ -875,7 +875,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it1)
         # select the elements that are not zero
-        indexBitMask = np.squeeze(np.nonzero(bitcombfit_it1))
+        indexBitMask = np.flatnonzero(bitcombfit_it1)
         
         qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
         # redo fit in collapsed space
@@ -895,7 +895,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         a_tset_boundary = np.expand_dims(np.copy(a_tsetnew[:,ii]), axis=1)
 
         # set the elements in disallowed region to boundary (0.0)
-        index_forcezero = np.squeeze(np.nonzero(bitcomb_forcezero))
+        index_forcezero = np.flatnonzero(bitcomb_forcezero)
         a_tset_boundary[index_forcezero] = 0.0
         vecfromabsmin = a_tset_boundary - a_tset
 
@@ -913,7 +913,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                             bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it2)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it2))
+            indexBitMask = np.flatnonzero(bitcombfit_it2)
             
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -939,7 +939,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it3)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it3))
+            indexBitMask = np.flatnonzero(bitcombfit_it3)
 
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
-- 
2.43.0


From aa22812b20ada5d86e9d66cfbd9c02d11fefc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 31/36] fix: of_nsmb_con does not interpolate chi-square past
 the ends of the trace

---
 qetpy/core/_of_nsmb.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 74e9f5f..fbba6ad 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -971,7 +971,14 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     tdelmin = ((ind_tdel_New) - nt*(ind_tdel_New>nt/2))*dt
     bitcombfitFinal = np.squeeze(bitcombfitVec[:,ind_tdel_New])
     timearray_chi2 = np.arange(nt)*dt 
-    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(ind_tdel_New,
+    ind_tdel_interp = int(ind_tdel_New_nowindow) % nt
+    if (ind_tdel_interp==0 or ind_tdel_interp==(nt - 1)):
+        # skip interpolation since min index is at edge
+        time_chi2min_interp = timearray_chi2[ind_tdel_interp]
+        chi2min_interp = chi2new[ind_tdel_interp]
+        amincon_int = a_tsetnew[0,ind_tdel_interp]
+    else:
+        time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(ind_tdel_interp,
                                                                        chi2new,
                                                                        a_tsetnew[0,:],
                                                                        timearray_chi2)
-- 
2.43.0


From 41b324ef214fcfaec855c6201fa07055d6501906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 32/36] fix: NSMB slope templates have one value per bin for
 every trace length

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index fbba6ad..d7bc050 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1199,7 +1199,7 @@ def get_slope_dc_template_nsmb(nbin):
     backgroundtemplates = np.ones((nbin,2))
     
     # construct the sloped background
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
     
     backgroundtemplatesshifts = np.empty((2))
     backgroundtemplatesshifts[:] = np.nan
@@ -1297,7 +1297,7 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                 backgroundpolarityconstraint[ii] = -1
             
     # construct the sloped background for the second to last template
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-- 
2.43.0


From df5b6946d08d4e8677e0a54887170039eed270ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 33/36] fix: shift rounds the interpolated values of integer
 arrays

---
 qetpy/utils/_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index fddbaab..63b6147 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -62,7 +62,12 @@ def shift(arr, num, fill_value=0):
             result[:] = arr
     else:
         result = ndimage.shift(
-            arr, num, order=1, mode='constant', cval=fill_value,
+            arr,
+            num,
+            output=np.result_type(result, float),
+            order=1,
+            mode='constant',
+            cval=fill_value,
         )
 
     return result
-- 
2.43.0


From e834a8b6ba8d3eaa777a903d163ecba4e0b7aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 34/36] fix: align_traces masks the shifted ends of integer
 traces

---
 qetpy/utils/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 63b6147..3ad7e93 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -439,7 +439,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
     orig = np.argmax(signal.fftconvolve(t1,t1[::-1],mode = 'full'))
 
     # initialize empty array to store the aligned traces
-    traces_aligned = np.zeros_like(traces)
+    traces_aligned = np.zeros_like(traces, dtype=float)
     shifts = np.zeros(traces.shape[0])
 
     for ii in range(traces.shape[0]):
@@ -452,7 +452,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
         shifts[ii] = t2_shift
         if not lgcjustshifts:
             traces_aligned[ii] = ndimage.shift(
-                traces[ii], t2_shift, cval=np.nan,
+                traces[ii], t2_shift, output=float, cval=np.nan,
             )
 
     if lgcjustshifts:
-- 
2.43.0


From 740f4bc5587928ab03490acb4c6614d79e7eaf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 35/36] fix: default lgcoutsidewindow of
 ofamp_pileup_stationary as documented

The docstring (and OptimumFilter.ofamp_pileup_stationary) say that the bins
outside the constrained window are searched by default.
---
 qetpy/core/_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 1caaf67..73e294a 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1322,7 +1322,7 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     return a1, t1, a2, t2, chi2
 
 def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
-                            nconstrain=None, lgcoutsidewindow=False):
+                            nconstrain=None, lgcoutsidewindow=True):
     """
     Function for calculating the optimum amplitude of a pileup pulse in
     data, with the assumption that the triggered pulse is centered in
-- 
2.43.0


From 4033c21eff80cadc7d7dda9548e28bf72e336018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:01 +0000
Subject: [PATCH 36/36] fix: no shift (nan) for the slope and offset templates
 of maketemplate_ttlfit_nsmb

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index d7bc050..ff3bb74 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1301,8 +1301,8 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-    backgroundtemplateshifts[-1] = 0
-    backgroundtemplateshifts[-2] = 0
+    backgroundtemplateshifts[-1] = np.nan
+    backgroundtemplateshifts[-2] = np.nan
 
 
     # construct index window
-- 
2.43.0

