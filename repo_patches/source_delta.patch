From dec411d4b71d2babc516b7728bb109ca46e2d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 01/28] fix: divide by zero when hardware_concurrency() reports
 0

---
 src/votess.ipp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index e5ccd99..a350df0 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -361,6 +361,18 @@ __gpu__tesellate(
 /// CPU Tesellate                                                           ///
 ///////////////////////////////////////////////////////////////////////////////
 
+static inline size_t
+get_nthreads(const class vtargs& args) {
+
+  const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
+                          args["cpu_nthreads"] : 
+                          std::thread::hardware_concurrency(); 
+
+  // hardware_concurrency() is allowed to return 0 when it does not know
+  return nthreads != 0 ? nthreads : 1;
+
+}
+
 template <typename Ti, typename Tf, typename Tu>
 static void
 __cpu__tesellate(
@@ -380,9 +392,7 @@ __cpu__tesellate(
   const Ti xyzsize = xyzset.size();
   const Ti refsize = refset.size();
 
-  const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
-                          args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+  const size_t nthreads = get_nthreads(args);
 
   const int chunksize = args["use_chunking"].get<bool>() ? 
                         args["chunksize"] : refsize + 1;
@@ -504,9 +514,7 @@ __cpu__recompute(
   const Ti xyzsize = xyzset.size();
   const Ti refsize = refset.size();
 
-  const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
-                          args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+  const size_t nthreads = get_nthreads(args);
 
   Ti subsize = 0;
   for (auto& s : states) {
-- 
2.43.0


From f08af9cba5c98d388a5580d3082d93db7db3ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 02/28] fix: terminate() when a worker thread cannot be created

---
 src/votess.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index a350df0..023cb6a 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -373,6 +373,14 @@ get_nthreads(const class vtargs& args) {
 
 }
 
+// Joins the threads that were started if starting a later one throws.
+struct thread_joiner {
+  std::vector<std::thread>& threads;
+  ~thread_joiner() {
+    for (auto& thread : threads) if (thread.joinable()) thread.join();
+  }
+};
+
 template <typename Ti, typename Tf, typename Tu>
 static void
 __cpu__tesellate(
@@ -445,6 +453,7 @@ __cpu__tesellate(
     const auto args_cc  = args.get_cc();
 
     std::vector<std::thread> threads(nthreads);
+    const thread_joiner joiner{threads};
     for (size_t i = 0; i < nthreads; i++) {
 
       const size_t _tstart = i * threadsize;
@@ -598,6 +607,7 @@ __cpu__recompute(
     const auto args_cc  = args.get_cc();
 
     std::vector<std::thread> threads(nthreads);
+    const thread_joiner joiner{threads};
     for (size_t i = 0; i < nthreads; i++) {
 
       const size_t _tstart = i * threadsize;
-- 
2.43.0


From bea2913ef8c950bd3bb9f130a45bde7341416d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 03/28] fix: spurious neighbors when k exceeds the number of
 other points

---
 src/votess.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 023cb6a..f94018b 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -578,7 +578,7 @@ __cpu__recompute(
       break;
     }
 
-    k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
+    k = (k * 2) > (refsize - 1) ? std::max<int>(refsize - 1, 1) : k * 2;
     p_maxsize *= update_p_maxsize ? 2 : 1;
     t_maxsize *= update_t_maxsize ? 2 : 1;
 
@@ -699,6 +699,12 @@ tesellate(
   const auto& refset = xyzset;
   const size_t refsize = refset.size();
 
+  // A point has at most refsize - 1 neighbors; more would be read as index 0.
+  const int k_max = refsize > 2 ? refsize - 1 : 1;
+  if (args["k"].get<int>() > k_max) {
+    args["k"] = k_max;
+  }
+
   std::vector<std::vector<Ti>>  tmpnn(refsize);
   std::vector<struct cc::state> states(refsize);
 
-- 
2.43.0


From 6a7a24c80b68f6781f0608978ed3a999be6d30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:41 +0000
Subject: [PATCH 04/28] fix: recompute leaves overflowed cells unresolved once
 k covers all points

---
 src/votess.ipp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index f94018b..3c4d154 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -539,6 +539,8 @@ __cpu__recompute(
     }
   } indices.resize(subsize);
 
+  const int p_limit = std::numeric_limits<Tu>::max();
+
   int k = args["k"];
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
@@ -560,15 +562,22 @@ __cpu__recompute(
     Ti cur = 0;
     for (Ti i = 0; i < subsize; i++) {
       const auto index = indices[i];
-      if (!states[index].get(cc::security_radius_reached)) {
-        indices[cur++] = index;
-      } 
-      if (states[index].get(cc::error_p_overflow)) {
-        update_p_maxsize = true;
-      } 
-      if (states[index].get(cc::error_t_overflow)) {
-        update_t_maxsize = true;
-      } 
+      const bool p_overflow = states[index].get(cc::error_p_overflow);
+      const bool t_overflow = states[index].get(cc::error_t_overflow);
+      if (states[index].get(cc::security_radius_reached)) {
+        continue;
+      }
+      // complete: every other point has been considered
+      if (k >= (refsize - 1) && !p_overflow && !t_overflow) {
+        continue;
+      }
+      // a cell with more planes than Tu can index cannot be represented
+      if (p_overflow && p_maxsize >= p_limit) {
+        continue;
+      }
+      indices[cur++] = index;
+      update_p_maxsize |= p_overflow;
+      update_t_maxsize |= t_overflow;
     } 
 
     subsize = cur;
@@ -580,6 +589,7 @@ __cpu__recompute(
 
     k = (k * 2) > (refsize - 1) ? std::max<int>(refsize - 1, 1) : k * 2;
     p_maxsize *= update_p_maxsize ? 2 : 1;
+    p_maxsize = std::min(p_maxsize, p_limit);
     t_maxsize *= update_t_maxsize ? 2 : 1;
 
     args["k"] = k;
@@ -640,10 +650,6 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
-    if (k >= (refsize - 1)) {
-      break;
-    }
-
   }
 
 }
-- 
2.43.0


From 4ccc1e01f0af1d5bf44cc6c4c23d5f744aff74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:41 +0000
Subject: [PATCH 05/28] fix: endless loop when cc_p_maxsize exceeds 255

---
 src/votess.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index 3c4d154..08cb9f9 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -711,6 +711,11 @@ tesellate(
     args["k"] = k_max;
   }
 
+  // Planes are indexed with uint8_t, 0xff is boundary::bstatus::undefined.
+  if (args["cc_p_maxsize"].get<int>() > 0xff) {
+    args["cc_p_maxsize"] = 0xff;
+  }
+
   std::vector<std::vector<Ti>>  tmpnn(refsize);
   std::vector<struct cc::state> states(refsize);
 
-- 
2.43.0


From 9b57e65f2e2981af709610f5a480511be7acd8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 06/28] fix: overlapping or failing calls corrupt std::cout
 when suppressing stdout

---
 src/votess.ipp | 84 ++++++++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 08cb9f9..ccd96ca 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -21,71 +21,69 @@
 #define FP_INFINITY 128.00f
 
 namespace suppress {
+  // The stream a call reports to: std::cout, or nowhere when suppressed. 
+  // std::cout itself is shared by all threads and must stay untouched.
   class stdout {
     public:
-      stdout() : buf(std::cout.rdbuf()) {
-        std::cout.rdbuf(__tmp__buf.rdbuf());
-      }
-      ~stdout() {
-        std::cout.rdbuf(buf);
-      }
+      stdout(const bool enabled) : null(nullptr), enabled(enabled) {}
+      std::ostream& stream() { return enabled ? null : std::cout; }
     private:
-      std::streambuf* buf;
-      std::stringstream __tmp__buf;
+      std::ostream null;
+      const bool enabled;
   };
 }
 
 static inline void 
-print_device(const sycl::queue& queue) {
+print_device(std::ostream& out, const sycl::queue& queue) {
 
   const auto d = queue.get_device();
   
   const size_t gibibyte = std::pow(2,30);
   const size_t kibibyte = std::pow(2,10);
 
-  std::cout << " :: DEVICE INFO :: " << "\n";
+  out << " :: DEVICE INFO :: " << "\n";
 
-  std::cout << " :: Using Device: " 
+  out << " :: Using Device: " 
             << d.get_info<sycl::info::device::name>() << "\n";
   
-  std::cout << " :: Device Info: \n";
+  out << " :: Device Info: \n";
 
-  std::cout << "    -- Vendor: "  
+  out << "    -- Vendor: "  
             << d.get_info<sycl::info::device::vendor>() 
             << "\n";
 
-  std::cout << "    -- Device Type: " 
+  out << "    -- Device Type: " 
             << (d.is_cpu() ? "CPU" : (d.is_gpu() ? "GPU" : "Other")) 
             << "\n";
 
-  std::cout << "    -- Maximum Work Group Size: " 
+  out << "    -- Maximum Work Group Size: " 
             << d.get_info<sycl::info::device::max_work_group_size>() 
             << "\n";
 
-  std::cout << "    -- Preferred Vector Width for Double: " 
+  out << "    -- Preferred Vector Width for Double: " 
             << d.get_info<sycl::info::device::preferred_vector_width_double>() 
             << "\n";
 
-  std::cout << "    -- Max Compute Units: " 
+  out << "    -- Max Compute Units: " 
             << d.get_info<sycl::info::device::max_compute_units>() 
             << "\n";
 
-  std::cout << "    -- Max Memory Allocation Size: " 
+  out << "    -- Max Memory Allocation Size: " 
             << d.get_info<sycl::info::device::max_mem_alloc_size>() / gibibyte
             << " GiB"
             << "\n";
 
-  std::cout << "    -- Global Memory Size: " 
+  out << "    -- Global Memory Size: " 
             << d.get_info<sycl::info::device::global_mem_size>() / gibibyte
             << " GiB"
             << "\n";
  
-  std::cout << "    -- Local Memory Size: " 
+  out << "    -- Local Memory Size: " 
             << d.get_info<sycl::info::device::local_mem_size>() / kibibyte
             << " KiB"
             << "\n";
   
-  std::cout << " :: INFO END :: " << std::endl;
+  out << " :: INFO END :: " << std::endl;
 
 }
 
@@ -181,7 +179,8 @@ __gpu__tesellate(
   std::vector<std::vector<Ti>>& tmpnn,
   std::vector<cc::state>& states, 
 
-  const class vtargs& args
+  const class vtargs& args,
+  std::ostream& out
 
 ) {
 
@@ -218,7 +217,7 @@ __gpu__tesellate(
   (void) refset;
 
   sycl::queue queue;
-  print_device(queue);
+  print_device(out, queue);
 
   sycl::buffer<Ti, 1> bindices((sycl::range<1>(subsize)));
 
@@ -236,7 +235,7 @@ __gpu__tesellate(
 
   for (int run = 0; run < nruns; run++) {
     
-    std::cout << "[chunking] run : " << run << "/" << nruns << std::endl;
+    out << "[chunking] run : " << run << "/" << nruns << std::endl;
 
     const size_t _cstart = run * chunksize;
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
@@ -393,7 +392,8 @@ __cpu__tesellate(
   std::vector<std::vector<Ti>>& tmpnn,
   std::vector<cc::state>& states, 
 
-  const class vtargs& args
+  const class vtargs& args,
+  std::ostream& out
 
 ) {
   
@@ -413,9 +413,9 @@ __cpu__tesellate(
                (chunksize < refsize) ?
                chunksize : refsize;
 
-  std::cout << "nthread = " << nthreads << std::endl; 
-  std::cout << "chunksize = " << chunksize << std::endl; 
-  std::cout << "nruns = " << nruns << std::endl; 
+  out << "nthread = " << nthreads << std::endl; 
+  out << "chunksize = " << chunksize << std::endl; 
+  out << "nruns = " << nruns << std::endl; 
 
   const int k = args["k"];
   const int p_maxsize = args["cc_p_maxsize"];
@@ -676,10 +676,8 @@ tesellate(
 ) {
   
   // DEVELOPER FUNCTIONALITY. Must remove in final build
-  std::unique_ptr<suppress::stdout> stdout_suppressor;
-  if (args["dev_suppress_stdout"].get<bool>()) {
-    stdout_suppressor = std::make_unique<suppress::stdout>();
-  }
+  suppress::stdout stdout_suppressor(args["dev_suppress_stdout"].get<bool>());
+  std::ostream& out = stdout_suppressor.stream();
  
   static_assert(std::is_integral<Ti>::value && std::is_signed<Ti>::value,
     "Template type Ti must be a signed integer type."
@@ -728,7 +726,7 @@ tesellate(
       if (device_found()) {
 
         __gpu__tesellate<Ti, Tf, uint8_t>(xyzset, id, offset, refset, 
-                                          tmpnn, states, args);
+                                          tmpnn, states, args, out);
 
         break;
 
@@ -739,14 +737,14 @@ tesellate(
                 << "\033[0m\n";
       
       __cpu__tesellate<Ti, Tf, uint8_t>(xyzset, id, offset, refset, 
-                                        tmpnn, states, args);
+                                        tmpnn, states, args, out);
 
       break;
 
     case (device::cpu): 
 
       __cpu__tesellate<Ti, Tf, uint8_t>(xyzset, id, offset, refset, 
-                                        tmpnn, states, args);
+                                        tmpnn, states, args, out);
 
       break;
 
@@ -777,14 +775,14 @@ tesellate(
     if (s.get(cc::error_occurred)) n_error++;
   }
 
-  std::cout << "[fail] " << "sradius : " << n_sr_nreached << "\n";
-  std::cout << "       " << "p overflow: " << n_p_overflow << "\n";
-  std::cout << "       " << "t overflow: " << n_t_overflow << "\n";
-  std::cout << "       " << "inf boundary: " << n_inf_boundary << "\n";
-  std::cout << "       " << "nvalid vertice: " << n_nvalid_vertices << "\n";
-  std::cout << "       " << "nvalid neighbor: " << n_nvalid_neighbor << "\n";
-  std::cout << "       " << "nerrors : " << n_error << "\n";
-  std::cout << std::endl;
+  out << "[fail] " << "sradius : " << n_sr_nreached << "\n";
+  out << "       " << "p overflow: " << n_p_overflow << "\n";
+  out << "       " << "t overflow: " << n_t_overflow << "\n";
+  out << "       " << "inf boundary: " << n_inf_boundary << "\n";
+  out << "       " << "nvalid vertice: " << n_nvalid_vertices << "\n";
+  out << "       " << "nvalid neighbor: " << n_nvalid_neighbor << "\n";
+  out << "       " << "nerrors : " << n_error << "\n";
+  out << std::endl;
 
   return tmpnn_getdnn(tmpnn);
 
-- 
2.43.0


From fbd34550eead73e3b3593d4062d15bb0c72c5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 07/28] fix: empty trailing chunk when chunksize divides the
 number of points

---
 src/votess.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index ccd96ca..cc4779d 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -199,7 +199,7 @@ __gpu__tesellate(
 
   const int nruns = (chunksize > 0) && 
                     (chunksize < refsize) ? 
-                    refsize / chunksize + 1: 1;
+                    (refsize - 1) / chunksize + 1 : 1;
 
   Ti subsize = (chunksize > 0) && 
                (chunksize < refsize) ? 
@@ -407,7 +407,7 @@ __cpu__tesellate(
 
   const int nruns = (chunksize > 0) && 
                     (chunksize < refsize) ? 
-                    refsize / chunksize + 1: 1;
+                    (refsize - 1) / chunksize + 1 : 1;
 
   Ti subsize = (chunksize > 0) && 
                (chunksize < refsize) ?
-- 
2.43.0


From bba30019cc8c77806cb8a9b2d71d2e42d1ff9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 08/28] fix: device path reads coordinates with the chunk size
 as stride

---
 src/cc.ipp     | 40 ++++++++++++++++++++--------------------
 src/votess.ipp |  4 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index ad3da13..813f9bc 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -499,10 +499,10 @@ void cci::compute(
   const Tf pz = refset[refsize * 2 + index];
   
   for (Ti j = 0; j < p_initsize; j++) {
-    P[4 * refsize * j + refsize * 0 + i] = p_init[4 * j + 0];
-    P[4 * refsize * j + refsize * 1 + i] = p_init[4 * j + 1];
-    P[4 * refsize * j + refsize * 2 + i] = p_init[4 * j + 2];
-    P[4 * refsize * j + refsize * 3 + i] = p_init[4 * j + 3];
+    P[4 * koffs * j + koffs * 0 + i] = p_init[4 * j + 0];
+    P[4 * koffs * j + koffs * 1 + i] = p_init[4 * j + 1];
+    P[4 * koffs * j + koffs * 2 + i] = p_init[4 * j + 2];
+    P[4 * koffs * j + koffs * 3 + i] = p_init[4 * j + 3];
   }
 
   for (Ti j = 0; j < t_initsize; j++) {
@@ -532,20 +532,20 @@ void cci::compute(
       const Tu& t1 = T[3 * t_maxsize * i + t_index * 3 + 1];
       const Tu& t2 = T[3 * t_maxsize * i + t_index * 3 + 2];
   
-      const Tf& plane_00 = P[4 * refsize * t0 + refsize * 0 + i];
-      const Tf& plane_01 = P[4 * refsize * t0 + refsize * 1 + i];
-      const Tf& plane_02 = P[4 * refsize * t0 + refsize * 2 + i];
-      const Tf& plane_03 = P[4 * refsize * t0 + refsize * 3 + i];
+      const Tf& plane_00 = P[4 * koffs * t0 + koffs * 0 + i];
+      const Tf& plane_01 = P[4 * koffs * t0 + koffs * 1 + i];
+      const Tf& plane_02 = P[4 * koffs * t0 + koffs * 2 + i];
+      const Tf& plane_03 = P[4 * koffs * t0 + koffs * 3 + i];
 
-      const Tf& plane_10 = P[4 * refsize * t1 + refsize * 0 + i];
-      const Tf& plane_11 = P[4 * refsize * t1 + refsize * 1 + i];
-      const Tf& plane_12 = P[4 * refsize * t1 + refsize * 2 + i];
-      const Tf& plane_13 = P[4 * refsize * t1 + refsize * 3 + i];
+      const Tf& plane_10 = P[4 * koffs * t1 + koffs * 0 + i];
+      const Tf& plane_11 = P[4 * koffs * t1 + koffs * 1 + i];
+      const Tf& plane_12 = P[4 * koffs * t1 + koffs * 2 + i];
+      const Tf& plane_13 = P[4 * koffs * t1 + koffs * 3 + i];
 
-      const Tf& plane_20 = P[4 * refsize * t2 + refsize * 0 + i];
-      const Tf& plane_21 = P[4 * refsize * t2 + refsize * 1 + i];
-      const Tf& plane_22 = P[4 * refsize * t2 + refsize * 2 + i];
-      const Tf& plane_23 = P[4 * refsize * t2 + refsize * 3 + i];
+      const Tf& plane_20 = P[4 * koffs * t2 + koffs * 0 + i];
+      const Tf& plane_21 = P[4 * koffs * t2 + koffs * 1 + i];
+      const Tf& plane_22 = P[4 * koffs * t2 + koffs * 2 + i];
+      const Tf& plane_23 = P[4 * koffs * t2 + koffs * 3 + i];
   
       // TODO : implement exception handling
       planes::intersect<Tf>(
@@ -590,10 +590,10 @@ void cci::compute(
         return;
       }
 
-      P[4 * refsize * p_size + refsize * 0 + i] = bisector[0];
-      P[4 * refsize * p_size + refsize * 1 + i] = bisector[1];
-      P[4 * refsize * p_size + refsize * 2 + i] = bisector[2];
-      P[4 * refsize * p_size + refsize * 3 + i] = bisector[3];
+      P[4 * koffs * p_size + koffs * 0 + i] = bisector[0];
+      P[4 * koffs * p_size + koffs * 1 + i] = bisector[1];
+      P[4 * koffs * p_size + koffs * 2 + i] = bisector[2];
+      P[4 * koffs * p_size + koffs * 3 + i] = bisector[3];
       dknn[koffs * neighbor + i] = p_size;
       p_size += 1;
   
diff --git a/src/votess.ipp b/src/votess.ipp
index cc4779d..7e33dd6 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -312,7 +312,7 @@ __gpu__tesellate(
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aheap_id, aheap_pq, subsize,
           aargs_knn
         );
@@ -325,7 +325,7 @@ __gpu__tesellate(
           aheap_id, subsize,
           adknn,
           axyzset, xyzsize,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aargs_cc
         );
         #endif
-- 
2.43.0


From 42b48ee08ec1e5c43c57d5a2f27c1466ed81c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 09/28] fix: device path starts from uninitialised cell states

---
 src/votess.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 7e33dd6..fecf4f2 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -228,7 +228,7 @@ __gpu__tesellate(
   sycl::buffer<Ti,1> bheap_id(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1> bheap_pq(sycl::range<1>(subsize * k));
 
-  sycl::buffer<cc::state,1> bstates((sycl::range<1>(xyzsize)));
+  sycl::buffer<cc::state,1> bstates(states.begin(), states.end());
   sycl::buffer<Ti,1>      bdknn(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1>      bP(sycl::range<1>(subsize * p_maxsize * 4));
   sycl::buffer<Tu,1> bT(sycl::range<1>(subsize * t_maxsize * 3));
@@ -294,7 +294,7 @@ __gpu__tesellate(
 
       auto aP  = sycl::accessor(bP,  cgh, read_write, property::no_init());
       auto aT  = sycl::accessor(bT,  cgh, read_write, property::no_init());
-      auto astates = accessor(bstates, cgh, read_write, property::no_init());
+      auto astates = accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
       ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
-- 
2.43.0


From a4327e3f5ada532e18d22bc4a193f9234a63daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 10/28] fix: device path throws when gpu_ndsize does not divide
 the chunk

---
 src/votess.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index fecf4f2..b891353 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -241,6 +241,9 @@ __gpu__tesellate(
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
 
+    // the global range must be a multiple of the work group size
+    const size_t ndrange = (subsize + ndsize - 1) / ndsize * ndsize;
+
     queue.submit([&](sycl::handler& cgh) {
       auto a = sycl::accessor(bheap_id, cgh, sycl::write_only, sycl::no_init);
       cgh.parallel_for<class fill_heap_id>
@@ -303,12 +306,14 @@ __gpu__tesellate(
       auto aargs_cc = args_cc;
 
       cgh.parallel_for<class __sycl__tessellate>
-      (sycl::nd_range<1>(sycl::range<1>(subsize), sycl::range<1>(ndsize)),
+      (sycl::nd_range<1>(sycl::range<1>(ndrange), sycl::range<1>(ndsize)),
       [=](sycl::nd_item<1> it) {
 
         const size_t g_index = it.get_global_linear_id();
         const size_t l_index = it.get_local_linear_id();
 
+        if (g_index >= static_cast<size_t>(subsize)) return;
+
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-- 
2.43.0


From ec138ebb993dff8ec4d1c14649706935881c727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 11/28] fix: device path truncates grid resolutions above 255

---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index 3137d57..8b205e6 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -247,7 +247,7 @@ void knni::compute(
   const Tf q2 = refset[refsize * 2 + index];
 
   const uint16_t k = args.k;
-  const uint8_t gr = args.grid_resolution;
+  const uint16_t gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
   const uint16_t px = (id[index]) % gr;
@@ -263,7 +263,7 @@ void knni::compute(
   const Tf min_dz = dz * (dz <= gl2) + (gl - dz) * (dz > gl2);
   const Tf min = utils::bmin(min_dx, min_dy, min_dz);
 
-  for (uint8_t r = 0; r < gr; r++) {
+  for (uint16_t r = 0; r < gr; r++) {
 
     const uint16_t beg_z = utils::bmax(pz - r, 0);
     const uint16_t beg_y = utils::bmax(py - r, 0);
-- 
2.43.0


From 643d4b9c22fdc6db33bfce34776e943e8974899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 12/28] fix: points just below 1 are sorted into a cell outside
 the grid

---
 src/xyzset.ipp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 9bf22a4..45079f5 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -26,9 +26,13 @@ sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
   
   // init
   for (size_t i = 0; i < xyzset.size(); i++) {
-    id[i] = static_cast<T1>(std::floor(xyzset[i][0] / gl))
-          + static_cast<T1>(std::floor(xyzset[i][1] / gl)) * gr  
-          + static_cast<T1>(std::floor(xyzset[i][2] / gl)) * gr * gr; 
+    // x / gl can be rounded up to gr for x just below 1
+    const auto cell = [&](const T2 x) -> T1 {
+      return std::min<T1>(std::floor(x / gl), gr > 0 ? gr - 1 : 0);
+    };
+    id[i] = cell(xyzset[i][0])
+          + cell(xyzset[i][1]) * gr  
+          + cell(xyzset[i][2]) * gr * gr; 
   };
   
   // sort
-- 
2.43.0


From b006229656ff1df2c1aa079abf7c32aefe45399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 13/28] fix: points outside (0,1) corrupt memory instead of
 being rejected

---
 src/votess.ipp | 8 +++++---
 src/xyzset.ipp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index b891353..925af58 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -692,12 +692,14 @@ tesellate(
   "Template type Tf must be a floating-point type."
   );
 
+  // must precede the sort, which indexes the grid with the coordinates
+  if (!xyzset::validate_xyzset<Tf>(xyzset)) {
+    throw std::invalid_argument("coordinates must be within (0,1)");
+  }
+
   const auto [id,offset] = xyzset::sort<Ti,Tf>(xyzset, args.get_xyzset());
 
   // TODO : Make errors actually good
-  if (!xyzset::validate_xyzset<Tf>(xyzset)) {
-    std::cerr<<"oops1"<<std::endl;
-  }
   if (!xyzset::validate_id<Ti>(id)) {
     std::cerr<<"oops2"<<std::endl;
   }
diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 45079f5..982a92c 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -78,7 +78,7 @@ bool
 validate_xyzset(const std::vector<std::array<T2,3>>& xyzset) {
   for (size_t i = 0; i < xyzset.size(); i++) {
     for (size_t j = 0; j < xyzset[0].size(); j++) {
-      if (xyzset[i][j] >= 1.0f || xyzset[i][j] <= 0.0f) {
+      if (!(xyzset[i][j] < 1.0f && xyzset[i][j] > 0.0f)) {
         return false;
       }
     }
-- 
2.43.0


From a2f73c19a1ef17ab4630d2a051989c638f9b854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 14/28] fix: print and savetxt drop rows without neighbors

---
 src/dnn.ipp | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 5121dc0..d7aabc5 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -87,21 +87,15 @@ void votess::dnn<Ti>::print() const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  std::cout<<"{\n  {";
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      std::cout << "}\n  {";
+  std::cout<<"{\n";
+  for (size_t row = 0; row + 1 < this->offs.size(); row++) {
+    std::cout << "  {";
+    for (Ti index = this->offs[row]; index < this->offs[row + 1]; index++) {
+      std::cout<<std::setw(1)<<this->list[index]<<", ";
     }
-
-    std::cout<<std::setw(1)<<i<<", ";
-    index += 1;
+    std::cout << "}\n";
   }
-  std::cout << "}\n}" << std::endl;
+  std::cout << "}" << std::endl;
 
 }
 
@@ -113,19 +107,12 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      fp<<"\n";
+  for (size_t row = 0; row + 1 < this->offs.size(); row++) {
+    for (Ti index = this->offs[row]; index < this->offs[row + 1]; index++) {
+      fp<<std::setw(1)<<this->list[index]<<" ";
     }
-    fp<<std::setw(1)<<i<<" ";
-    index += 1;
+    fp<<"\n";
   }
-  fp<<"\n";
   fp.close();
 }
 
-- 
2.43.0


From b33418310e5c72d0e992817f951a003394fd8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 15/28] fix: savetxt does not report write failures

---
 src/dnn.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index d7aabc5..8e8d4b6 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -114,6 +114,9 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     fp<<"\n";
   }
   fp.close();
+  if (!fp) {
+    std::cerr<<"Failed to write file: "<<fname<<std::endl;
+  }
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 7fbbd2892fb56d1dafce63542afc980344f769ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 16/28] fix: clvotess tessellates partial input after a read
 error

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 85a3ccb..d064d21 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -214,6 +214,11 @@ main(int argc, char* argv[]) {
     xyzset.push_back(point);
 
   }
+
+  if (file.bad()) {
+    std::cerr << "Error: Could not read file: " << infile << std::endl;
+    return 1;
+  }
   
   if (vtargs["k"].get<int>() == 0) {
 
-- 
2.43.0


From 801129e6c0e27d349440a6daef79f592c685da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 17/28] fix: clvotess exits 0 when its output could not be
 written

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index d064d21..310279b 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -231,6 +231,11 @@ main(int argc, char* argv[]) {
 
   dnn.print();
 
+  if (!std::cout.flush()) {
+    std::cerr << "Error: Could not write to standard output" << std::endl;
+    return 1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From a1706d8228fca002489382a07b81ff20b2dbcd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 18/28] fix: clvotess ignores --use-device

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 310279b..a7ff78d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -227,7 +227,7 @@ main(int argc, char* argv[]) {
 
   }
 
-  auto dnn = votess::tesellate<int, float>(xyzset, vtargs);
+  auto dnn = votess::tesellate<int, float>(xyzset, vtargs, device);
 
   dnn.print();
 
-- 
2.43.0


From 00df6e211b7b41fb29e84a1ce1218b7197f9d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 19/28] fix: python rows dangle once their result object is
 released

---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index dff77cc..d5dc521 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -63,7 +63,7 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
     return instance[i];
-  }, pybind11::return_value_policy::reference_internal)
+  }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
   .def("savetxt", &votess::dnn<int>::savetxt);
 
-- 
2.43.0


From c9eaa68fae3c6bd17e7bea86c03cd662258a44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 20/28] fix: clvotess aborts instead of reporting an error

---
 src/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index a7ff78d..f6e66a1 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -177,7 +177,7 @@ parse_args(int argc, char* argv[]) {
 }
 
 int 
-main(int argc, char* argv[]) {
+main(int argc, char* argv[]) try {
 
   if (argc == 0) {
     print_usage(argv[0]);
@@ -237,6 +237,10 @@ main(int argc, char* argv[]) {
   }
 
   return 0;
+
+} catch (const std::exception& e) {
+  std::cerr << "Error: " << e.what() << std::endl;
+  return 1;
 }
 
 #else
-- 
2.43.0


From 4a4209e931de479630b3ace3033af61cebcf5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 21/28] fix: k and capacities from 65536 on are cut to 16 bits

---
 src/cc.ipp  | 18 +++++++++---------
 src/knn.ipp |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 813f9bc..aacfc07 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -31,9 +31,9 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int k = args.k;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
@@ -254,9 +254,9 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int k = args.k;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
@@ -481,9 +481,9 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
-  const unsigned short int p_maxsize = args.p_maxsize;
-  const unsigned short int t_maxsize = args.t_maxsize;
+  const int k = args.k;
+  const int p_maxsize = args.p_maxsize;
+  const int t_maxsize = args.t_maxsize;
 
   unsigned short int p_size = p_initsize;
   unsigned short int t_size = t_initsize; 
diff --git a/src/knn.ipp b/src/knn.ipp
index 8b205e6..0fa1e4f 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -246,7 +246,7 @@ void knni::compute(
   const Tf q1 = refset[refsize * 1 + index];
   const Tf q2 = refset[refsize * 2 + index];
 
-  const uint16_t k = args.k;
+  const int k = args.k;
   const uint16_t gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
-- 
2.43.0


From fcf492617b81684fa297d3e16fac00855895f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 22/28] fix: parameters read wrong when the global locale
 groups digits

---
 include/arguments.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index a4e86fd..a973fe4 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -41,6 +41,7 @@
 #define ARGS_DEFAULT_T_MAXSIZE 32
 #endif
 
+#include <locale>
 #include <string>
 #include <unordered_map>
 #include <sstream>
@@ -80,6 +81,7 @@ class vtargref {
     template <typename T>
     std::string to_str(const T v) const {
       std::ostringstream oss;
+      oss.imbue(std::locale::classic());
       oss << v;
       return oss.str();
     }
@@ -87,6 +89,7 @@ class vtargref {
     template <typename T>
     T from_str(const std::string& s) const {
       std::istringstream iss(s); 
+      iss.imbue(std::locale::classic());
       T v;
       iss >> v;
       if (iss.fail()) {
-- 
2.43.0


From 7d0118f17fea15849de11e607273513b46038928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 23/28] fix: a parameter is cut short when memory runs out
 while it is set

---
 include/arguments.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index a973fe4..db5c6fc 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -82,6 +82,7 @@ class vtargref {
     std::string to_str(const T v) const {
       std::ostringstream oss;
       oss.imbue(std::locale::classic());
+      oss.exceptions(std::ios::badbit | std::ios::failbit);
       oss << v;
       return oss.str();
     }
-- 
2.43.0


From e8060b21edb567ec35878cb09ffb1520fe5f01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 24/28] fix: savetxt groups digits when the global locale does

---
 src/dnn.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 8e8d4b6..d76ad4c 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <locale>
 #include <vector>
 #include <type_traits>
 
@@ -102,6 +103,7 @@ void votess::dnn<Ti>::print() const {
 template <typename Ti>
 void votess::dnn<Ti>::savetxt(const std::string& fname) const {
   std::ofstream fp(fname);
+  fp.imbue(std::locale::classic()); // no digit grouping
   if (!fp) {
     std::cerr<<"Failed to open file: "<<fname<<std::endl;
     return;
-- 
2.43.0


From 9348d1ea78468cf630cdd25185c401328a4fdbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 25/28] fix: Python indexing past the end of a result or row
 reads foreign memory

---
 src/dnn.ipp               | 2 +-
 src/pybind11/pyvotess.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index d76ad4c..2f60e41 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -77,7 +77,7 @@ votess::dnn<Ti>::operator[](const int i) {
 
 template<typename Ti>
 size_t votess::dnn<Ti>::size() const {
-  return offs.size() - 1;
+  return offs.empty() ? 0 : offs.size() - 1;
 }
 
 template <typename Ti>
diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index d5dc521..345a532 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -52,6 +52,9 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
 
 pybind11::class_<votess::dnn<int>::proxy>(module, "Proxy")
   .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int & {
+    if (i < 0 || static_cast<size_t>(i) >= self.size()) {
+      throw pybind11::index_error();
+    }
     return self[i];
   }, pybind11::return_value_policy::reference_internal)
   .def("size", &votess::dnn<int>::proxy::size);
@@ -62,6 +65,9 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("size", &votess::dnn<int>::size)
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
+    if (i < 0 || static_cast<size_t>(i) >= instance.size()) {
+      throw pybind11::index_error();
+    }
     return instance[i];
   }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
-- 
2.43.0


From 1389af902fd084b83b57f21b9c7498499ed2645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 26/28] fix: working arrays whose size does not fit the index
 type are overrun

---
 src/votess.ipp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index 925af58..476889f 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -131,6 +131,20 @@ tmpnn_fill(
 
 }
 
+// The working arrays of a chunk are sized and indexed with Ti.
+template <typename Ti>
+static void
+check_worksize(
+  const Ti subsize, const int k, const int p_maxsize, const int t_maxsize
+) {
+  const double size = static_cast<double>(subsize) *
+                      std::max({1.0 * k, 4.0 * p_maxsize, 3.0 * t_maxsize});
+  if (size > static_cast<double>(std::numeric_limits<Ti>::max())) {
+    throw std::length_error("too many points to process at once: "
+                            "use a smaller chunksize or capacity");
+  }
+}
+
 template <typename Ti>
 static class dnn<Ti>
 tmpnn_getdnn(std::vector<std::vector<Ti>>& tmpnn) {
@@ -216,6 +230,8 @@ __gpu__tesellate(
   auto& refset = _refset;
   (void) refset;
 
+  check_worksize<Ti>(subsize, k, p_maxsize, t_maxsize);
+
   sycl::queue queue;
   print_device(out, queue);
 
@@ -426,6 +442,8 @@ __cpu__tesellate(
   const int p_maxsize = args["cc_p_maxsize"];
   const int t_maxsize = args["cc_t_maxsize"];
 
+  check_worksize<Ti>(subsize, k, p_maxsize, t_maxsize);
+
   std::vector<Ti> indices(subsize);
 
   std::vector<Ti> heap_id(subsize * k);
@@ -550,6 +568,8 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
+  check_worksize<Ti>(subsize, k, p_maxsize, t_maxsize);
+
   std::vector<Ti> heap_id(subsize * k, 0);
   std::vector<Tf> heap_pq(subsize * k, std::numeric_limits<Tf>::infinity());
   std::vector<Ti> dknn(subsize * k, __INTERNAL__K_UNDEFINED);
@@ -601,6 +621,8 @@ __cpu__recompute(
     args["cc_p_maxsize"] = p_maxsize;
     args["cc_t_maxsize"] = t_maxsize;
 
+    check_worksize<Ti>(subsize, k, p_maxsize, t_maxsize);
+
     heap_id.clear();
     heap_pq.clear();
     dknn.clear();
-- 
2.43.0


From 730ce43e26421ba31768e43c0e929c8820dc64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:18 +0000
Subject: [PATCH 27/28] fix: unusable parameters corrupt memory instead of
 being rejected

---
 src/votess.ipp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index 476889f..6ddc0a2 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -690,6 +690,28 @@ static bool device_found(void) {
          false : true;
 }
 
+// Rejects parameters that no cell can be computed with.
+template <typename Ti>
+static void validate_args(const class vtargs& args, const size_t refsize) {
+
+  const int gr = args["knn_grid_resolution"];
+
+  if (args["k"].get<int>() < 1 && refsize > 0) {
+    throw std::invalid_argument("k must be positive");
+  }
+  if (gr < 1 || 1.0 * gr * gr * gr >= std::numeric_limits<Ti>::max()) {
+    throw std::invalid_argument("knn_grid_resolution out of range");
+  }
+  // a cell starts as a cube
+  if (args["cc_p_maxsize"].get<int>() < 6) {
+    throw std::invalid_argument("cc_p_maxsize must be at least 6");
+  }
+  if (args["cc_t_maxsize"].get<int>() < 8) {
+    throw std::invalid_argument("cc_t_maxsize must be at least 8");
+  }
+
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 /// Tesellate End Function                                                  ///
 ///////////////////////////////////////////////////////////////////////////////
@@ -719,6 +741,8 @@ tesellate(
     throw std::invalid_argument("coordinates must be within (0,1)");
   }
 
+  validate_args<Ti>(args, xyzset.size());
+
   const auto [id,offset] = xyzset::sort<Ti,Tf>(xyzset, args.get_xyzset());
 
   // TODO : Make errors actually good
-- 
2.43.0


From d595b69d62c8c3b9388f095aa9af759440af4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:03 +0000
Subject: [PATCH 28/28] fix: refuse grids and capacities that int cannot count
 when Ti is wider

Cell numbers and triangle offsets are partly computed with int, so with
long indices a grid of more than 2^31 cells or a cc_t_maxsize above
2^31 / 3 overflowed and indexed outside the arrays.
---
 src/votess.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 6ddc0a2..cf81ba6 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -695,11 +695,14 @@ template <typename Ti>
 static void validate_args(const class vtargs& args, const size_t refsize) {
 
   const int gr = args["knn_grid_resolution"];
+  const int imax = std::numeric_limits<int>::max();
 
   if (args["k"].get<int>() < 1 && refsize > 0) {
     throw std::invalid_argument("k must be positive");
   }
-  if (gr < 1 || 1.0 * gr * gr * gr >= std::numeric_limits<Ti>::max()) {
+  // cells are numbered with both int and Ti
+  if (gr < 1 || 1.0 * gr * gr * gr >= 
+                std::min<double>(imax, std::numeric_limits<Ti>::max())) {
     throw std::invalid_argument("knn_grid_resolution out of range");
   }
   // a cell starts as a cube
@@ -709,6 +712,10 @@ static void validate_args(const class vtargs& args, const size_t refsize) {
   if (args["cc_t_maxsize"].get<int>() < 8) {
     throw std::invalid_argument("cc_t_maxsize must be at least 8");
   }
+  // three indices per triangle, counted with int
+  if (args["cc_t_maxsize"].get<int>() > imax / 3) {
+    throw std::invalid_argument("cc_t_maxsize out of range");
+  }
 
 }
 
-- 
2.43.0

