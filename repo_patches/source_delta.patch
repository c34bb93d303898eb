From 16417c584dfeb3bc56da6d155c9c386967d7bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 01/19] fix: paths_generator with i0=-len(timeline) runs a
 spurious backwards pass

The start index -len(timeline) designates the first point, as 0 does, but
triggered a backwards pass over the start point alone, which raised
StopIteration for depth > 2. Normalize negative indices.
---
 sdepy/integration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..1dcd20f 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -522,6 +522,7 @@ class paths_generator:
                 'i0 should be an integer indexing an element of the '
                 'integration timeline, but {} was given'
                 .format(i0))
+        i0 = i0 % tt.size  # handle negative indices
         # NOTE:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
-- 
2.43.0


From 29072174e3098442c32bf0939029bc1d22d38b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 02/19] fix: SDEs with log=True exponentiate results twice

SDE.exit already applies exp to the integration output before calling
result; SDEs.result applied it once more.
---
 sdepy/integration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 1dcd20f..89fd488 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1830,8 +1830,6 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From 3eb90c2a040702c4b85809e9db8a41a7ee1c230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 03/19] fix: three-operand ufuncs accept processes with
 incompatible timelines

Compatibility was checked only against the operand in charge of the
operation: if it is constant, two other operands with different timelines
went undetected, and were combined element by element.
---
 sdepy/infrastructure.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..308ce19 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -497,11 +497,14 @@ class process(np.ndarray):
                         'cannot operate on a process without a timeline. '
                         'if this results from array operations on processes, '
                         'try using their array views instead (x attribute)')
-                if not a._is_compatible(self):
-                    raise ValueError(
-                        'processes could not be broadcast '
-                        'together due to incompatible shapes {}, {} and/or '
-                        'timelines'.format(a.shape, self.shape))
+                # check all pairs, not only versus self: in case
+                # self is constant, it is compatible with any timeline
+                for b in inputs:
+                    if isinstance(b, process) and not a._is_compatible(b):
+                        raise ValueError(
+                            'processes could not be broadcast together '
+                            'due to incompatible shapes {}, {} and/or '
+                            'timelines'.format(a.shape, b.shape))
         return out_array
 
     def __array_wrap__(self, out_array, context=None):
-- 
2.43.0


From 1b199fd9e9f9e5331c7afed2e914b3e480b94142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 04/19] fix: summaries and time calculus of integer processes

pmean, tmean and tint truncated their result to the integer data-type of the
process; pvar, pstd, tvar, tstd, tder and tdiff with dt_exp raised a
UFuncTypeError. Let numpy select a float data-type in such cases (results
of float processes are unchanged).
---
 sdepy/infrastructure.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 308ce19..09cf8d0 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -866,7 +866,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the mean of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.mean(axis=-1, dtype=dtype, out=out,
                                    keepdims=True))
@@ -876,7 +875,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the variance of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.var(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -886,7 +884,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the standard deviation of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.std(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1004,7 +1001,6 @@ class process(np.ndarray):
         Constant process exposing for each path the mean of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.mean(axis=0, dtype=dtype, out=out,
                                    keepdims=True))
@@ -1014,7 +1010,6 @@ class process(np.ndarray):
         Constant process exposing for each path the variance of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.var(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1024,7 +1019,6 @@ class process(np.ndarray):
         Constant process exposing for each path the standard
         deviation of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.std(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1079,7 +1073,8 @@ class process(np.ndarray):
         t = self.t[:-1] if fwd else self.t[1:]
         x = np.diff(self, axis=0)
         if dt_exp:
-            np.divide(x, self.dtx**dt_exp, out=x)
+            out = x if x.dtype.kind in 'fc' else None
+            x = np.divide(x, self.dtx**dt_exp, out=out)
         return process(t=t, x=x)
 
     def tder(self):
@@ -1116,7 +1111,9 @@ class process(np.ndarray):
         ``p.tin().tder()`` equals, within rounding errors,
         ``p['t', :-1]``
         """
-        x = np.empty(self.shape, dtype=self.dtype)
+        dtype = (self.dtype if self.dtype.kind in 'fc' else
+                 np.result_type(self.dtype, self.dt.dtype))
+        x = np.empty(self.shape, dtype=dtype)
         x[0] = 0
         x[1:] = self[:-1]*self.dtx
         return process(t=self.t,
-- 
2.43.0


From de74e699c067a04dac121f7682ba56e2a73f3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 05/19] fix: double_exp_rv exp_mean fails for array parameters

The condition on parameter a was evaluated as a scalar.
---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 09cf8d0..b2abce9 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1788,7 +1788,7 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return (pa/(1 - a) if a < 1 else np.inf) + pb/(1 + b) + 0
+        return np.where(a < 1, pa/(1 - a), np.inf) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From d4a34f4c1deec09d0dee79c455920382a35125ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 06/19] fix: indexed true sources fail for array times

The values index was applied to the leading axes of the result, which
enumerate time points if an array of times is given.
---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b2abce9..f09fdf7 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2168,7 +2168,9 @@ class _indexed_true_source:
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        # the index applies to values, leading axes enumerate time points
+        tdim = np.ndim(t) if dt is None else np.broadcast(t, dt).ndim
+        return self._source(t, dt)[(slice(None),)*tdim + self._index]
 
     @property
     def size(self):
-- 
2.43.0


From b8de2a3fdd1df3f46f991f21e51f543c53b22dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 07/19] fix: true sources tolerate coincident times on one side
 only

The rtol tolerance on the coincidence of a time with a stored one was
checked versus the preceding stored time, not versus the following one.
---
 sdepy/infrastructure.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index f09fdf7..7e5c9e7 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2275,9 +2275,11 @@ class true_source(source):
 
         def f(s):
             k = bisect.bisect_right(t, s)
-            if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
-                return getvalue(z[k-1])
-            elif k == len(t):
+            for h in (k-1, k):
+                if 0 <= h < len(t) and \
+                   np.isclose(s, t[h], rtol=rtol, atol=0.):
+                    return getvalue(z[h])
+            if k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
                 return getvalue(z[-1])
-- 
2.43.0


From d5e3a1a5cec7e2790cd4d92a708a0110c8cf3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 08/19] fix: true_wiener_source fails for correlations with a
 paths axis

A process, or a callable returning an array with a trailing paths axis of
size 1, is accepted as corr, but bridging between stored times failed
(LinAlgError).
---
 sdepy/infrastructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 7e5c9e7..b733160 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2489,7 +2489,10 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         # (avoid instantiating a new wiener_source at each call)
         if callable(corr):
             a, b = (s - t1), (t2 - s)
-            A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
+            A, B = corr((t1+s)/2), corr((s+t2)/2)
+            if A.ndim == 3:  # remove paths axis if present
+                A, B = A[..., 0], B[..., 0]
+            A, B = A*a, B*b
             Z = B @ np.linalg.inv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
-- 
2.43.0


From 4195f333ca27709f00dd4dab97858a02c3e22b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 09/19] fix: true_cpoisson_source with zero or cancelling jumps

Jumps of size zero triggered an AssertionError when splitting an interval,
and an interval with jumps summing up to zero was treated as if no jumps
occurred in it, making values inconsistent with the underlying
Poisson source.
---
 sdepy/infrastructure.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b733160..92ad209 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2647,8 +2647,6 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
-
         y_value = []
         for i in range(1, nmax + 1):
             index = (dn_value == i)
@@ -2672,11 +2670,11 @@ class true_cpoisson_source(true_source):
         j1, y1_value = z1
         j2, _ = z2  # y2_value not needed
 
-        if (j1 == j2).all():
-            return None
-
         dn = self._dj.dn
-        n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
+        n1, n2 = dn(t1), dn(t2)  # use memory of dn
+        if (n1 == n2).all():
+            return None
+        ns = dn(s)
 
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
-- 
2.43.0


From 109b3b0c0fa6b61faf2c870193e8abb28871d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 10/19] fix: montecarlo.update does not broadcast subsequent
 samples

As documented, subsequent samples should broadcast to the shape of the data
points of the first one.
---
 sdepy/infrastructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 92ad209..1bce7e1 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2921,6 +2921,10 @@ class montecarlo:
         # set flag to identify first run
         isfirst = (self.paths == 0)
 
+        # subsequent samples should broadcast to the shape of the first
+        if not isfirst:
+            sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
+
         # compute/cumulate value, error and stats
         self._update_moments(isfirst, sample)
         self._update_histogram(isfirst, sample)
-- 
2.43.0


From 673aaba75d7db14b4f5d23c98cc90322a93b7ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 11/19] fix: a rejected first montecarlo update spoils the
 instance

If the first sample was rejected (e.g. not matching the shape of the bins,
or not finite), the given bins were lost and subsequent valid updates failed;
moments of the rejected sample were retained.
---
 sdepy/infrastructure.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 1bce7e1..f82aa3c 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2926,8 +2926,9 @@ class montecarlo:
             sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
 
         # compute/cumulate value, error and stats
-        self._update_moments(isfirst, sample)
+        # (histogram first - if it fails, nothing should change)
         self._update_histogram(isfirst, sample)
+        self._update_moments(isfirst, sample)
         self._paths[0] += sample_paths
 
     def _update_moments(self, isfirst, sample, max_moment=4):
@@ -2976,7 +2977,7 @@ class montecarlo:
         N, M = self.paths, sample.shape[-1]
         # shape of values (one histogram is computed
         # for each index in vshape)
-        vshape = self.vshape
+        vshape = sample.shape[:-1]
 
         if isfirst:
             # initializations and computations for the first sample:
@@ -2984,9 +2985,9 @@ class montecarlo:
             #   np.histogram unless explicitly
             #   given as an appropriately shaped array-like object
             mybins = self._bins
-            self._bins = np.empty(vshape, dtype=object)
-            self._counts = np.empty(vshape, dtype=object)
-            self._paths_outside = np.zeros(vshape, dtype=self.ctype)
+            new_bins = np.empty(vshape, dtype=object)
+            new_counts = np.empty(vshape, dtype=object)
+            new_paths_outside = np.zeros(vshape, dtype=self.ctype)
             args = np.empty(vshape, dtype=object)
             if isinstance(mybins, (int, str)):
                 # setup if no bins are provided
@@ -2997,7 +2998,6 @@ class montecarlo:
                 if (mybins.shape[:-1] == vshape) or \
                    (mybins.dtype == object and mybins.shape == vshape):
                     for i in np.ndindex(vshape):
-                        self._bins[i] = mybins[i]
                         args[i] = dict(bins=mybins[i])
                 else:
                     raise ValueError(
@@ -3006,11 +3006,13 @@ class montecarlo:
                         .format(mybins.shape, vshape)
                         )
             for i in np.ndindex(vshape):
-                self._counts[i], self._bins[i] = \
+                new_counts[i], new_bins[i] = \
                         np.histogram(sample[i], **args[i])
-                self._counts[i] = self._counts[i].astype(self.ctype,
-                                                         copy=False)
-                self._paths_outside[i] = (N + M - self._counts[i].sum())
+                new_counts[i] = new_counts[i].astype(self.ctype,
+                                                     copy=False)
+                new_paths_outside[i] = (N + M - new_counts[i].sum())
+            self._bins, self._counts = new_bins, new_counts
+            self._paths_outside = new_paths_outside
 
         else:
             # computations for subsequent samples:
-- 
2.43.0


From 2405ce240676662198922706ef795d3c9dc6a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 12/19] fix: indexing of montecarlo instances

Indexing an instance with bins=None failed; single values were copied, so
that after updating the indexed instance stale statistics were reported,
combined with an updated number of paths; use, dtype and ctype were lost.
---
 sdepy/infrastructure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index f82aa3c..d03e711 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3035,7 +3035,7 @@ class montecarlo:
     # ------------------------------
     def __getitem__(self, i):
         """See montecarlo class documentation"""
-        a = montecarlo()
+        a = montecarlo(use=self._use, dtype=self.dtype, ctype=self.ctype)
         a._paths = self._paths
         if (self._bins is None) or isinstance(self._bins, (int, str)):
             a._bins = self._bins
@@ -3043,10 +3043,16 @@ class montecarlo:
         else:
             a._bins = self._bins[i]
         if self.paths != 0:
+            # get array views, not scalars, in case a single value is selected
+            i = i if isinstance(i, tuple) else (i,)
+            if not any(k is Ellipsis for k in i):
+                i = i + (Ellipsis,)
             a._mean = self._mean[i]
             a._moments = tuple(moment[i] for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+            if self._bins is not None:
+                a._bins = self._bins[i]
+                a._counts = self._counts[i]
+                a._paths_outside = self._paths_outside[i]
         return a
 
     # user access to statistics
-- 
2.43.0


From 670b67c0dbfca4217feff1e7aaba0d8ca15540a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 13/19] fix: cir_pdf overflows to nan for small t or xi

---
 sdepy/analytical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 118949a..a95eff7 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -547,9 +547,11 @@ def cir_pdf(t, x, *, x0=1., theta=1., k=1., xi=1.):
     alpha = exp(-k*t)
     c = 2*k / (1 - alpha) / (xi*xi)
     q = 2*k * theta / (xi*xi) - 1
-    return c*exp(-c * (x0*alpha + x)) * \
+    # the exponentially scaled Bessel function avoids overflows
+    # in case of small t or xi
+    return c*exp(-c * (sqrt(x0*alpha) - sqrt(x))**2) * \
         (x / (x0*alpha))**(q/2) * \
-        scipy.special.iv(q, 2*c * sqrt(x*x0*alpha))
+        scipy.special.ive(q, 2*c * sqrt(x*x0*alpha))
 
 
 # --------------------
-- 
2.43.0


From ea9a8108bfc483358dd9481f9d94bd471467b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 14/19] fix: Black-Scholes formulae fail with a list of times
 and integer rates

---
 sdepy/analytical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index a95eff7..67f880b 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -982,7 +982,7 @@ def bscall(k, t, *, x0=1., r=0., q=0., sigma=1.):
 
         d2 = d1 - sigma*sqrt(t)
     """
-    r, q = np.asarray(r), np.asarray(q)
+    t, r, q = np.asarray(t), np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return x0 * exp(-q*t) * scipy.stats.norm.cdf(d1) - \
         k * exp(-r*t) * scipy.stats.norm.cdf(d2)
@@ -999,7 +999,7 @@ def bscall_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    t, r, q = np.asarray(t), np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return exp(-q*t) * scipy.stats.norm.cdf(d1)
 
@@ -1015,7 +1015,7 @@ def bsput(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    t, r, q = np.asarray(t), np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return k * exp(-r*t) * scipy.stats.norm.cdf(-d2) - \
         x0 * exp(-q*t) * scipy.stats.norm.cdf(-d1)
@@ -1032,6 +1032,6 @@ def bsput_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
-    r, q = np.asarray(r), np.asarray(q)
+    t, r, q = np.asarray(t), np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return -exp(-q*t) * scipy.stats.norm.cdf(-d1)
-- 
2.43.0


From 1d20295b4e65ed9f58772439fe55d178527b9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 15/19] fix: heston_log_std at t=0 is nan due to rounding
 errors

---
 sdepy/analytical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 67f880b..7c36e65 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -610,7 +610,9 @@ def heston_log_var(t, *, x0=1., mu=0., sigma=1.,
         4*rho*k*sigma*xi + \
         4*k*k
 
-    return sigma*sigma*(theta*omega1/2 + y0*omega2) / (4*k**3)
+    # rounding errors should not make a vanishing variance negative
+    return np.maximum(
+        sigma*sigma*(theta*omega1/2 + y0*omega2) / (4*k**3), 0.)
 
 
 # @kfunc(nvar=1)
-- 
2.43.0


From 6bf7efd8f28e826f943c2dea49cbfe1dc1286a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 16/19] fix: unsigned integer timelines are integrated as
 floats, as signed ones are

---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 89fd488..5e73eb5 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -527,7 +527,7 @@ class paths_generator:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
         #   to be set as the timeline of the returned process
-        ttype = float if tt.dtype.kind == 'i' else tt.dtype
+        ttype = float if tt.dtype.kind in 'iu' else tt.dtype
         tt, tt_asis = tt.astype(ttype), tt
 
         # built the integration steps
-- 
2.43.0


From 956b4d473d76da950cb55b79b62dc835289d8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 17/19] fix: true_poisson_source with a float dtype splits its
 counts

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d03e711..b3e3766 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2558,7 +2558,7 @@ class true_poisson_source(true_source):
         if (n1 == n2).all():
             return None
         p = (s - t1)/(t2 - t1)
-        n = n2 - n1
+        n = (n2 - n1).astype(int)
         return n1 + self.rng.binomial(n, p, n.shape)
 
 
-- 
2.43.0


From c6c3e0f1ce33c6eabd9eca267af502f4681c75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 18/19] fix: time and path indexing of processes with numpy
 integers

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b3e3766..b61676d 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -693,7 +693,7 @@ class process(np.ndarray):
             return cls(self.t, x=x[colon + key + colon])
         # 't' and 'p' modes - timeline an paths indexing
         assert len(key) <= 1  # only one index is expected
-        if len(key) == 1 and isinstance(key[0], int):
+        if len(key) == 1 and isinstance(key[0], (int, np.integer)):
             # an integer index is treated as a slice of 1
             i = key[0]
             key = (slice(i, None, None),) if i == -1 else \
-- 
2.43.0


From 841111c9a52476bd481a78670fc6ecb553338372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 19/19] fix: true_wiener_source bridges perfectly correlated
 components

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b61676d..67273e9 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2493,7 +2493,7 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
             if A.ndim == 3:  # remove paths axis if present
                 A, B = A[..., 0], B[..., 0]
             A, B = A*a, B*b
-            Z = B @ np.linalg.inv(A + B)
+            Z = B @ np.linalg.pinv(A + B)  # may be singular
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
             ws = self._mult(Z, w1) + self._mult((Id - Z), w2) + dw(0, 1)
-- 
2.43.0

