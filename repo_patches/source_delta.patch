From b991b5e9cdb2b621ba0c2e9e08bbae2fbb2b6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 01/14] fix: circular_prefix_sum() binding must allocate nsum
 output elements

---
 riptide/cpp/python_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..b8d161f 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From d9a6a3630f0561dd43bbf8905053f7b6202d4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 02/14] fix: in-place TimeSeries.normalise() must keep the data
 in float32

---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..ed91d6f 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 5f18fc5b2632f53c876169a870b0bdf8b25a6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 03/14] fix: in-place TimeSeries.downsample() must update
 'tobs' in metadata

---
 riptide/time_series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ed91d6f..a7edef7 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -141,6 +141,7 @@ class TimeSeries(object):
         if inplace:
             self._data = downsample(self.data, factor)
             self._tsamp *= factor
+            self.metadata['tobs'] = self.length
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From e3818fa54dd8288bff0b5178f140473cc70c8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 04/14] fix: rseek --rmed_minpts must be an integer

---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From 4cc520128d83a3cef19cea1820d6558f3a4d44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 05/14] fix: stop the periodogram search once no period fits in
 the data, instead of raising an error

---
 riptide/cpp/periodogram.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index bcea0ea..c241b0e 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -157,6 +157,11 @@ void periodogram(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Maximum allowable trial period reached: no full period fits in the
+        // data anymore at this and further downsampling factors
+        if (n < bins_min)
+            break;
+
         // downsample() requires f > 1, but we still allow searching the data at their
         // original resolution.
         if (f == 1) {
-- 
2.43.0


From 22ff946580a86227c91ca81e406a39e1a135ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 06/14] fix: boxcar S/N of a large profile must not overflow
 the stack

---
 riptide/cpp/snr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..537ec8c 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <memory>
 
 #include "block.hpp"
 #include "kernels.hpp"
@@ -37,7 +38,9 @@ output must have capacity for num_widths elements.
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
     const size_t wmax = *std::max_element(widths, widths + num_widths);
-    float cpfsum[size + wmax];
+    // NOTE: must be on the heap, a large profile does not fit on the stack
+    std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);
+    float* cpfsum = cpfsum_mem.get();
     circular_prefix_sum(arr, size, size + wmax, cpfsum);
     const float sum = cpfsum[size - 1]; // sum of input array
 
-- 
2.43.0


From 3415c6153948180612c16ac913628dddfa12326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 07/14] fix: fold() must return the requested number of
 sub-integrations

---
 riptide/folding.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptide/folding.py b/riptide/folding.py
index 78c8f08..3092cf3 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -64,6 +64,9 @@ def fold(ts, period, bins, subints=None):
     factor = tbin / ts.tsamp
     tsdown = ts.downsample(factor)
     m = tsdown.nsamp // bins
+    if subints is not None and subints > m:
+        raise ValueError(f"subints ({subints}) exceeds the number of full signal periods in the data ({m})")
+
     nsamp_eff = m * bins
     
     folded = tsdown.data[:nsamp_eff].reshape(m, bins)
@@ -78,4 +81,8 @@ def fold(ts, period, bins, subints=None):
     else:
         # vertical downsampling factor
         vf = m / subints
+        # Due to floating-point rounding, m / vf may be just under 'subints',
+        # in which case the last sub-integration would be lost
+        if m / vf < subints:
+            vf = np.nextafter(vf, 0.0)
         return downsample_vertical(folded, vf)
-- 
2.43.0


From 0d5c128ec8eb770bd6c726c00ce8cc247633872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 08/14] fix: reject empty or invalid trial widths in
 periodogram() instead of crashing

---
 riptide/cpp/python_bindings.cpp | 3 +++
 riptide/cpp/snr.hpp             | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index b8d161f..2f1345f 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -193,6 +193,9 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     auto widths = arr_widths.unchecked<1>();
     size_t num_widths = widths.size();
 
+    // Every trial width must be valid for all bin numbers, i.e. valid for the smallest
+    riptide::check_trial_widths(widths.data(0), num_widths, bins_min);
+
     size_t length = riptide::periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max);
 
     auto periods = new_cstyle_array<double>({length});
diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 537ec8c..9924354 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -18,7 +18,8 @@ void check_stdnoise(float stdnoise)
         throw std::invalid_argument("stdnoise must be > 0");
     }
 
-// Check that all trial widths are > 0 and < bins; throw std::invalid_argument if that is not the case
+// Check that there is at least one trial width, and that all trial widths are > 0 and < bins;
+// throw std::invalid_argument if that is not the case
 void check_trial_widths(const size_t* widths, size_t num_widths, size_t bins)
     {
     bool b = std::all_of(
@@ -27,7 +28,7 @@ void check_trial_widths(const size_t* widths, size_t num_widths, size_t bins)
         [bins](size_t w){return (w > 0) & (w < bins);}
         );
 
-    if (!b)
+    if (!num_widths || !b)
         throw std::invalid_argument("trial widths must be all > 0 and < columns");
     }
 
-- 
2.43.0


From a7a054325392d2447ed3034f0bd4863f63e009ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:12 +0000
Subject: [PATCH 09/14] fix: circular_prefix_sum() of an empty array must raise
 an error instead of crashing

---
 riptide/cpp/python_bindings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index 2f1345f..32ac5f8 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,6 +75,10 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
+    if (!size)
+    {
+        throw std::invalid_argument("Input array must not be empty");
+    }
     auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
-- 
2.43.0


From 332f7348315f830e2573624d7c7cd5b7cdf9ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 10/14] fix: variance of downsampled noise must grow linearly
 with a nearly integer factor

---
 riptide/cpp/downsample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index f0d780d..541aa53 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -34,7 +34,7 @@ double downsampled_variance(size_t num_samples, double f)
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return pow(k-1, 2) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return (k - 1.0) + 2.0/3.0 * pow(x, 2) - x + 1.0;
     }
 
 
-- 
2.43.0


From d7db645093e16f2c0ff16e38866d973f45356905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 11/14] fix: fold data of exactly one period when rounding
 leaves fewer samples than bins

---
 riptide/folding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/folding.py b/riptide/folding.py
index 3092cf3..0a73026 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -62,6 +62,10 @@ def fold(ts, period, bins, subints=None):
             raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
 
     factor = tbin / ts.tsamp
+    # Due to floating-point rounding, nsamp / factor may be just under 'bins'
+    # when the data contain exactly one period
+    while ts.nsamp / factor < bins:
+        factor = np.nextafter(factor, 0.0)
     tsdown = ts.downsample(factor)
     m = tsdown.nsamp // bins
     if subints is not None and subints > m:
-- 
2.43.0


From b6ee92aec61f7d3569ebe2e2d669282e69366d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 12/14] fix: ffa_search honours fpmin by capping the longest
 trial period

---
 riptide/search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptide/search.py b/riptide/search.py
index c6d00ef..a83a897 100644
--- a/riptide/search.py
+++ b/riptide/search.py
@@ -73,6 +73,9 @@ def ffa_search(tseries, period_min=1.0, period_max=30.0, fpmin=8, bins_min=240,
     if not already_normalised:
         tseries = tseries.normalise()
 
+    # At least fpmin signal periods must fit in the data
+    period_max = min(period_max, tseries.length / fpmin)
+
     widths = generate_width_trials(bins_min, ducy_max=ducy_max, wtsp=wtsp)
     periods, foldbins, snrs = libcpp.periodogram(
         tseries.data, tseries.tsamp, widths, 
-- 
2.43.0


From 3e56ac74fa2b18daed0cbddb77f46c3796d94754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 13/14] fix: accept the documented null value of
 candidates.subints in the pipeline configuration

---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d0a298..6f79692 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -48,7 +48,9 @@ SEARCH_RANGE_SCHEMA = Schema({
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-        'subints': And(int, strictly_positive, error="candidates.subints must be an int > 0"),
+        'subints': Or(
+            And(int, strictly_positive), None,
+            error="candidates.subints must be an int > 0 or null/blank"),
         },
 })
 
-- 
2.43.0


From b9a76be0418a7d61eba0ca656fda3c211b68676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 14/14] fix: row indices must stay within the half-transforms
 of blocks with 2^24 rows or more

---
 riptide/cpp/transforms.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptide/cpp/transforms.hpp b/riptide/cpp/transforms.hpp
index e093242..d276a36 100644
--- a/riptide/cpp/transforms.hpp
+++ b/riptide/cpp/transforms.hpp
@@ -1,6 +1,7 @@
 #ifndef TRANSFORMS_HPP
 #define TRANSFORMS_HPP
 
+#include <algorithm> // min()
 #include <cstddef> // size_t
 #include <cstring> // memcpy()
 
@@ -19,8 +20,10 @@ void merge(ConstBlock thead, ConstBlock ttail, Block out)
 
     for (size_t s = 0; s < m; ++s)
         {
-        const size_t h = kh * s + 0.5f;
-        const size_t t = kt * s + 0.5f;
+        // NOTE: these are calculated in single precision, and would round up
+        // past the last row of the half-transforms of very large blocks
+        const size_t h = std::min<size_t>(kh * s + 0.5f, thead.rows - 1);
+        const size_t t = std::min<size_t>(kt * s + 0.5f, ttail.rows - 1);
         const size_t b = s - (h + t);
         fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));
         }
-- 
2.43.0

