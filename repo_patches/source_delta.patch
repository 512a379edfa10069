From 2ba32f60fa3409129ad7f76c5352d6b1813f56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 01/78] fix: report compressed saves that fail when the file is
 flushed or closed

ofstream::write and ofstream::close set failbit, which bad() does not report,
so a save that lost its data (full disk, I/O error at flush or close) returned
normally.
---
 src/arc_utilities/zlib_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index b7222ad..0f45583 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -186,7 +186,7 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
   }
   output_file.write(reinterpret_cast<const char*>(compressed.data()), (std::streamsize)compressed.size());
   output_file.close();
-  if (output_file.bad()) {
+  if (!output_file) {
     throw_arc_exception(std::runtime_error, "Error writing to file");
   }
 }
-- 
2.43.0


From c376c2abc45376c60581f6b3e21a5df29e66d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 02/78] Add guarded simulation hook for the slice size of
 compressed saves

---
 src/arc_utilities/zlib_helpers.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index 0f45583..b391e2e 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -16,6 +16,11 @@
 
 #include "arc_utilities/arc_exceptions.hpp"
 
+#ifdef ARC_UTILITIES_SIMULATION
+// Simulation only: lets a test harness use slices that are small enough to exercise multi-file saves.
+extern "C" size_t arc_utilities_sim_max_slice_bytes();
+#endif
+
 namespace ZlibHelpers {
 // MAKE SURE THE INPUT BUFFER IS LESS THAN 4GB IN SIZE
 std::vector<uint8_t> DecompressBytes(const std::vector<uint8_t>& compressed) {
@@ -156,7 +161,11 @@ std::vector<uint8_t> LoadFromFileAndDecompress(const std::string& path) {
 }
 
 void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std::string& path) {
+#ifdef ARC_UTILITIES_SIMULATION
+  const size_t max_bytes = arc_utilities_sim_max_slice_bytes();
+#else
   constexpr size_t max_bytes = std::numeric_limits<decltype(z_stream_s::avail_in)>::max();
+#endif
   if (uncompressed.size() > max_bytes) {
     std::cerr << "ZLibHelpers::CompressAndWriteToFile(): Input buffer too large for single compression. Splitting into "
                  "multiple files"
-- 
2.43.0


From 995b7176bc88fb1c6cf638af50a14aa14f826957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 03/78] fix: multi-file compressed saves must not be mixed with
 earlier saves

A plain file or higher-numbered slices left by an earlier save to the same path
took precedence over, or were appended to, the new slices when loading, and an
interrupted save could be loaded as a mixture of two saves. Remove what an
earlier save left and write slice 0 last, as the load starts from it.
---
 src/arc_utilities/zlib_helpers.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index b391e2e..ff5e5fd 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -170,8 +170,17 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
     std::cerr << "ZLibHelpers::CompressAndWriteToFile(): Input buffer too large for single compression. Splitting into "
                  "multiple files"
               << std::endl;
-    int file_idx = 0;
-    do {
+    const size_t num_slices = (uncompressed.size() + max_bytes - 1) / max_bytes;
+    const auto remove_stale_file = [](const std::string& stale_path) {
+      return boost::filesystem::is_regular_file(stale_path) && boost::filesystem::remove(stale_path);
+    };
+    // Anything left at this path by an earlier save would take precedence over, or be appended to, the new slices.
+    // Slice 0 is removed first and written last, so that an interrupted save is never mistaken for a complete one.
+    remove_stale_file(path + "." + std::to_string(0));
+    remove_stale_file(path);
+    for (size_t stale_idx = num_slices; remove_stale_file(path + "." + std::to_string(stale_idx)); ++stale_idx) {
+    }
+    for (size_t file_idx = num_slices; file_idx-- > 0;) {
       const size_t start_idx = file_idx * max_bytes;
       const size_t end_idx = std::min<size_t>((file_idx + 1) * max_bytes, uncompressed.size());
       const auto first = uncompressed.cbegin() + start_idx;
@@ -182,9 +191,7 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
 
       std::cerr << "Writing bytes [" << start_idx << ", " << end_idx << ") to " << slice_path << std::endl;
       CompressAndWriteToFile(slice, slice_path);
-
-      ++file_idx;
-    } while (file_idx * max_bytes < uncompressed.size());
+    }
     return;
   }
 
-- 
2.43.0


From 619a57bc18db706f094b2bb2b7491e6d86ba1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 04/78] fix: do not crash when a profiler report file cannot be
 opened

fopen returned NULL, which was passed on to fprintf.
---
 src/arc_utilities/timing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index cce5239..01717cf 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -210,6 +210,10 @@ void addHeader(FILE* outfile) {
 void Profiler::writeGroupSummary(const std::string& filename, const std::vector<std::string>& names) {
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == NULL) {
+    std::cerr << "Profiler unable to open " << filename << " for writing\n";
+    return;
+  }
 
   addHeader(outfile);
 
@@ -286,6 +290,10 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == NULL) {
+    std::cerr << "Profiler unable to open " << filename << " for writing\n";
+    return;
+  }
 
   addHeader(outfile);
 
-- 
2.43.0


From fd4a77489f7c859a7298fc6b59de54072e2e73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 05/78] fix: profiler reports without any names dereferenced an
 end iterator

---
 src/arc_utilities/timing.cpp | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 01717cf..6c4e5ba 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -126,19 +126,22 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "\n";
 }
 
+/// Width of the label column, also when there are no names
+static std::size_t labelLength(const std::vector<std::string>& names) {
+  std::size_t label_len = 8;
+  for (const auto& name : names) {
+    label_len = std::max(label_len, name.length() + 2);
+  }
+  return label_len;
+}
+
 void Profiler::printGroupSummary(const std::vector<std::string>& names) {
   Profiler* m = getInstance();
   std::cout << " .=======================. \n";
   std::cout << "||    Profile Summary    ||\n";
   std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = labelLength(names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -222,13 +225,7 @@ void Profiler::writeGroupSummary(const std::string& filename, const std::vector<
   // std::cout << "||    Profile Summary    ||\n";
   // std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = labelLength(names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -307,13 +304,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   std::sort(all_names.begin(), all_names.end());
 
-  std::size_t label_len =
-      max_element(all_names.begin(), all_names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = labelLength(all_names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
   fprintf(outfile, label_format.c_str(), "Label");
-- 
2.43.0


From b74c54ff643832c001be3640f940b7c99a58c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 06/78] fix: printing the profiler summary of a name without
 samples crashed

After a reset the name has no samples, and reading the data of an unknown name
added an empty entry; the minimum and maximum of no samples were dereferenced.
---
 src/arc_utilities/timing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 6c4e5ba..56c465c 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -93,7 +93,8 @@ double Profiler::recordDouble(std::string timer_name, double datum) {
 
 std::vector<double> Profiler::getData(std::string name) {
   Profiler* m = getInstance();
-  return m->data[name];
+  const auto it = m->data.find(name);
+  return it == m->data.end() ? std::vector<double>() : it->second;
 }
 
 void Profiler::printSingleSummary(std::string name) {
@@ -104,7 +105,7 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "|| " << name << " || Summary :\n";
   std::cout << " '" << box << "' "
             << "\n";
-  if (m->data.find(name) == m->data.end()) {
+  if (m->getData(name).empty()) {
     std::cout << name << " never called\n\n";
     return;
   }
-- 
2.43.0


From 2ed4f7ebdf8cc19aca42d5bd97eeb60c199a970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 07/78] fix: log files in the current directory could not be
 opened

---
 include/arc_utilities/log.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index c6dc7b3..f28041b 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -32,7 +32,9 @@ class Log {
   Log(const std::string& filename, bool add_header = false) : filename_(filename) {
     // Create the parent folder if needed
     boost::filesystem::path p(filename_);
-    arc_utilities::CreateDirectory(p.parent_path());
+    if (!p.parent_path().empty()) {
+      arc_utilities::CreateDirectory(p.parent_path());
+    }
 
     out_file_.open(filename, std::ios_base::out | std::ios_base::trunc);
     // check if we've succesfully opened the file
-- 
2.43.0


From 94713589e82c04baeb09e37b115d556f0340ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 08/78] fix: lines logged through a copy of a logger were
 overwritten by the original

---
 include/arc_utilities/log.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index f28041b..fb47886 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -43,6 +43,13 @@ class Log {
       throw std::invalid_argument("filename must be write-openable");
     }
 
+    // Reopen in append mode, as copies do, so that loggers sharing a file never overwrite each other's lines
+    out_file_.close();
+    out_file_.open(filename, std::ios_base::out | std::ios_base::app);
+    if (!out_file_.is_open()) {
+      throw std::invalid_argument("filename must be write-openable");
+    }
+
     if (add_header) {
       time_t rawtime;
       tm* timeinfo;
-- 
2.43.0


From 1f7a89220a449d6ca196f04c6c9d623c6c24c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 09/78] fix: distance matrices between two datasets had the
 wrong shape and mirrored entries

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 379e1a4..65ca776 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -509,7 +509,7 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
 #if defined(_OPENMP)
 #pragma omp parallel for
 #endif
@@ -517,7 +517,6 @@ inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
@@ -548,12 +547,11 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixSerial(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
   for (size_t idx = 0; idx < data1.size(); idx++) {
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
-- 
2.43.0


From 01699b8992f22421848374902e6d4df64a62fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 10/78] fix: k-nearest-neighbour storage could be smaller than
 the team that uses it

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 65ca776..84185ad 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -472,10 +472,8 @@ inline ColorType InterpolateColor(const ColorType& c1, const ColorType& c2, cons
 
 inline int GetNumOMPThreads() {
 #if defined(_OPENMP)
-  int num_threads = 0;
-#pragma omp parallel
-  { num_threads = omp_get_num_threads(); }
-  return num_threads;
+  // The size of one team is no bound for the next one if team sizes are adjusted dynamically
+  return omp_get_max_threads();
 #else
   return 1;
 #endif
-- 
2.43.0


From e4361a4d9c1f003fc954dc3161d7e2a41818c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 11/78] fix: Hausdorff distance storage could be smaller than
 the team that uses it

---
 include/arc_utilities/simple_hausdorff_distance.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/simple_hausdorff_distance.hpp b/include/arc_utilities/simple_hausdorff_distance.hpp
index 99dbb80..2e42144 100644
--- a/include/arc_utilities/simple_hausdorff_distance.hpp
+++ b/include/arc_utilities/simple_hausdorff_distance.hpp
@@ -25,10 +25,8 @@ class SimpleHausdorffDistance {
   static inline size_t GetNumOMPThreads(void) {
 #ifdef ENABLE_PARALLEL_HAUSDORFF_DISTANCE
 #if defined(_OPENMP)
-    size_t num_threads = 0;
-#pragma omp parallel
-    { num_threads = (size_t)omp_get_num_threads(); }
-    return num_threads;
+    // The size of one team is no bound for the next one if team sizes are adjusted dynamically
+    return (size_t)omp_get_max_threads();
 #else
     return 1;
 #endif
-- 
2.43.0


From 424c2b4404aceba9e081956ab592cbed8a36116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 12/78] fix: clustering storage could be smaller than the team
 that uses it

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 945960a..9e9c0ff 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -26,10 +26,8 @@ class SimpleHierarchicalClustering {
 
   static inline size_t GetNumOMPThreads() {
 #ifdef ENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING
-    size_t num_threads = 0;
-#pragma omp parallel
-    { num_threads = (size_t)omp_get_num_threads(); }
-    return num_threads;
+    // The size of one team is no bound for the next one if team sizes are adjusted dynamically
+    return (size_t)omp_get_max_threads();
 #else
     return 1;
 #endif
-- 
2.43.0


From 6f67482e3e922acce2ed0ab8cdd30c6213141e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 13/78] fix: clustering with an infinite threshold failed once
 one cluster was left

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 9e9c0ff..254ba38 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -257,7 +257,8 @@ class SimpleHierarchicalClustering {
           closest_element_pair.first;
       closest_distance = closest_element_pair.second;
       // std::cout << "Element pair: " << PrettyPrint::PrettyPrint(closest_element_pair, true) << std::endl;
-      if (closest_distance <= max_cluster_distance) {
+      // With an infinite threshold we stop once there is no pair left to merge
+      if ((closest_distance <= max_cluster_distance) && (closest_elements.second.second >= 0)) {
         const std::pair<bool, int64_t>& first_element = closest_elements.first;
         const std::pair<bool, int64_t>& second_element = closest_elements.second;
         // If both elements are points, create a new cluster
-- 
2.43.0


From bb21a1a1c1751d2c18fc7984cbb2f415163bca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 14/78] fix: the PRM planner header did not compile once used

---
 include/arc_utilities/simple_prm_planner.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 95834d5..6c78acc 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -3,6 +3,7 @@
 
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/dijkstras.hpp>
+#include <arc_utilities/math_helpers.hpp>
 #include <chrono>
 #include <functional>
 #include <random>
@@ -142,7 +143,7 @@ class SimpleGeometricPrmPlanner {
   static void UpdateRoadMapEdges(arc_dijkstras::Graph<T, Allocator>& roadmap,
                                  const std::function<bool(const T&, const T&)>& edge_validity_check_fn,
                                  const std::function<double(const T&, const T&)>& distance_fn) {
-    if (roadmap.CheckGraphLinkage() == false) {
+    if (roadmap.checkGraphLinkage() == false) {
       throw std::invalid_argument("Provided roadmap has invalid linkage");
     }
 #ifdef ENABLE_PARALLEL_ROADMAP
-- 
2.43.0


From 74df1c284392b0f4aa2a48cc9fc38494dd2171a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 15/78] fix: start states added with an asymmetric distance got
 no or wrong edge weights

---
 include/arc_utilities/simple_prm_planner.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 6c78acc..e75ac78 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -69,10 +69,12 @@ class SimpleGeometricPrmPlanner {
         if (distance_is_symmetric) {
           nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, nearest_neighbor_distance);
         } else {
-          const double reverse_graph_distance = distance_fn(state, roadmap.getNode(nearest_neighbor_index).getValue());
+          // The first distance is from the roadmap to the new state, the second one from the new state to the roadmap
           if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+            const double reverse_graph_distance = distance_fn(state, nearest_neighbor_state);
             nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, reverse_graph_distance);
-          } else if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+          } else if (nn_distance_direction == NEW_STATE_TO_ROADMAP) {
+            const double reverse_graph_distance = distance_fn(nearest_neighbor_state, state);
             nearest_neighbors_distances[idx] = std::make_pair(reverse_graph_distance, nearest_neighbor_distance);
           } else {
             assert(false && "This code should not be reachable");
-- 
2.43.0


From 02b7cba91401c7416de867eb21e835f5aca111a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 16/78] fix: reseeding XorShift1024StarPRNG did not restart its
 stream

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 84185ad..c9bd1a3 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -900,10 +900,7 @@ class XorShift1024StarPRNG {
   }
 
  public:
-  inline XorShift1024StarPRNG(const uint64_t seed_val) {
-    seed(seed_val);
-    p = 0;
-  }
+  inline XorShift1024StarPRNG(const uint64_t seed_val) { seed(seed_val); }
 
   static constexpr uint64_t min(void) { return 0u; }
 
@@ -914,6 +911,7 @@ class XorShift1024StarPRNG {
     for (size_t idx = 0u; idx < state_.size(); idx++) {
       state_[idx] = temp_seed_gen();
     }
+    p = 0;
   }
 
   inline void discard(const unsigned long long z) {
-- 
2.43.0


From 62212d87f993a45a0913a60446025f6642351bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 17/78] fix: truncated normal samples with both bounds on one
 side of the mean left their bounds or hung

---
 include/arc_utilities/arc_helpers.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index c9bd1a3..3244b5b 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1100,7 +1100,7 @@ class TruncatedNormalDistribution {
   inline TruncatedNormalDistribution(const double mean, const double stddev, const double lower_bound,
                                      const double upper_bound)
       : uniform_unit_dist_(0.0, 1.0),
-        uniform_range_dist_(lower_bound, upper_bound),
+        uniform_range_dist_(0.0, 1.0),
         exponential_dist_(1.0),
         normal_dist_(0.0, 1.0) {
     // Set operating parameters
@@ -1134,6 +1134,10 @@ class TruncatedNormalDistribution {
           case_ = TYPE_4;
         }
       }
+      // The uniform proposals of TYPE_4 are drawn between the standardized bounds
+      if (case_ == TYPE_4) {
+        uniform_range_dist_ = std::uniform_real_distribution<double>(std_lower_bound_, std_upper_bound_);
+      }
       assert((case_ == TYPE_1) || (case_ == TYPE_2) || (case_ == TYPE_3) || (case_ == TYPE_4));
     }
   }
-- 
2.43.0


From e0241e2637a2d6eb4a1359526be4531c75f93552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 18/78] fix: truncated normal sampling never ended with bounds
 close around the mean

---
 include/arc_utilities/arc_helpers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 3244b5b..a133400 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1060,7 +1060,7 @@ class TruncatedNormalDistribution {
         rho = exp((pow(lower_bound, 2) - pow(z, 2)) / 2);
       } else if (upper_bound < 0) {
         rho = exp((pow(upper_bound, 2) - pow(z, 2)) / 2);
-      } else if (0 < upper_bound && lower_bound < 0) {
+      } else if (0 <= upper_bound && lower_bound <= 0) {
         rho = exp(-pow(z, 2) / 2);
       }
       const double u = uniform_unit_dist_(
@@ -1115,7 +1115,8 @@ class TruncatedNormalDistribution {
       // Set the operating case - i.e. which sampling method we will use
       case_ = NONE;
       if (0.0 <= std_upper_bound_ && 0.0 >= std_lower_bound_) {
-        case_ = TYPE_1;
+        // Almost no draw of the untruncated distribution would be accepted between bounds this close together
+        case_ = ((std_upper_bound_ - std_lower_bound_) < std::sqrt(2.0 * M_PI)) ? TYPE_4 : TYPE_1;
       }
       if (0.0 < std_lower_bound_ && std_upper_bound_ == INFINITY) {
         case_ = TYPE_2;
-- 
2.43.0


From 9e2a3bd7da7a69d0fbc79ee2da5b7e5f0c241a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 19/78] fix: rounding could move a truncated normal sample out
 of its bounds

---
 include/arc_utilities/arc_helpers.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index a133400..6d1ab88 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1004,6 +1004,8 @@ class TruncatedNormalDistribution {
   double stddev_;
   double std_lower_bound_;
   double std_upper_bound_;
+  double lower_bound_;
+  double upper_bound_;
 
   enum CASES { TYPE_1, TYPE_2, TYPE_3, TYPE_4, NONE };
   CASES case_;
@@ -1071,25 +1073,30 @@ class TruncatedNormalDistribution {
     }
   }
 
+  // Scaling a draw back may round it to a value just outside of the bounds
+  inline double Unstandardize(const double draw) const {
+    return std::min(std::max(mean_ + stddev_ * draw, lower_bound_), upper_bound_);
+  }
+
   template <typename Generator>
   inline double Sample(Generator& prng) {
     if (case_ == TYPE_1) {
       const double draw = NaiveAcceptReject(std_lower_bound_, std_upper_bound_, prng);
-      return mean_ + stddev_ * draw;
+      return Unstandardize(draw);
     } else if (case_ == TYPE_2) {
       const double draw = SimpleAcceptReject(std_lower_bound_, prng);
-      return mean_ + stddev_ * draw;
+      return Unstandardize(draw);
     } else if (case_ == TYPE_3) {
       while (true) {
         const double draw =
             SimpleAcceptReject(std_lower_bound_, prng);  // use the simple algorithm if it is more efficient
         if (draw <= std_upper_bound_) {
-          return mean_ + stddev_ * draw;
+          return Unstandardize(draw);
         }
       }
     } else if (case_ == TYPE_4) {
       const double draw = ComplexAcceptReject(std_lower_bound_, std_upper_bound_, prng);
-      return mean_ + stddev_ * draw;
+      return Unstandardize(draw);
     } else {
       assert(case_ == NONE);
       return mean_;
@@ -1106,6 +1113,8 @@ class TruncatedNormalDistribution {
     // Set operating parameters
     mean_ = mean;
     stddev_ = stddev;
+    lower_bound_ = lower_bound;
+    upper_bound_ = upper_bound;
     if (fabs(stddev_) == 0.0) {
       case_ = NONE;
     } else {
-- 
2.43.0


From 60f8b56a60f47c8252dc5a208a01ed4418486b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 20/78] fix: weighted preliminary k-means clustering used the
 weights of other elements

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index fd90f64..3459897 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -299,20 +299,23 @@ class SimpleKMeansClustering {
       }
       std::vector<Datatype, Allocator> random_subset;
       random_subset.reserve(subset_size);
+      std::vector<double> random_subset_weights;
+      random_subset_weights.reserve(subset_size);
       for (auto itr = index_map.begin(); itr != index_map.end(); ++itr) {
         if (itr->second == 1u) {
           const size_t random_index = itr->first;
           const Datatype& random_element = data[random_index];
           random_subset.push_back(random_element);
+          random_subset_weights.push_back(weights[random_index]);
         }
       }
       assert(random_subset.size() == subset_size);
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels =
-          ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
+          ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
       cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, num_clusters);
+          ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels, average_fn, num_clusters);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 0de46a43ca78526f50ea8f04221fc09967d1a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 21/78] fix: k-means computed centers of clusters that had lost
 all elements

---
 .../simple_kmeans_clustering.hpp              | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index 3459897..fd0a956 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -55,8 +55,10 @@ class SimpleKMeansClustering {
   template <typename Datatype, typename Allocator = std::allocator<Datatype>>
   static std::vector<Datatype, Allocator> ComputeClusterCenters(
       const std::vector<Datatype, Allocator>& data, const std::vector<uint32_t>& cluster_labels,
-      const std::function<Datatype(const std::vector<Datatype, Allocator>&)>& average_fn, const uint32_t num_clusters) {
+      const std::function<Datatype(const std::vector<Datatype, Allocator>&)>& average_fn, const uint32_t num_clusters,
+      const std::vector<Datatype, Allocator>& previous_centers) {
     assert(data.size() == cluster_labels.size());
+    assert(previous_centers.size() >= num_clusters);
     // Separate the datapoints into their clusters
     std::vector<std::vector<Datatype, Allocator>> clustered_data(num_clusters);
     for (size_t idx = 0; idx < data.size(); idx++) {
@@ -68,7 +70,8 @@ class SimpleKMeansClustering {
     std::vector<Datatype, Allocator> cluster_centers(num_clusters);
     for (uint32_t cluster = 0; cluster < num_clusters; cluster++) {
       const std::vector<Datatype, Allocator>& cluster_data = clustered_data[cluster];
-      cluster_centers[cluster] = average_fn(cluster_data);
+      // A cluster that lost all of its elements keeps its center
+      cluster_centers[cluster] = cluster_data.empty() ? previous_centers[cluster] : average_fn(cluster_data);
     }
     return cluster_centers;
   }
@@ -78,8 +81,9 @@ class SimpleKMeansClustering {
       const std::vector<Datatype, Allocator>& data, const std::vector<double>& weights,
       const std::vector<uint32_t>& cluster_labels,
       const std::function<Datatype(const std::vector<Datatype, Allocator>&, const std::vector<double>&)>& average_fn,
-      const uint32_t num_clusters) {
+      const uint32_t num_clusters, const std::vector<Datatype, Allocator>& previous_centers) {
     assert(data.size() == cluster_labels.size());
+    assert(previous_centers.size() >= num_clusters);
 
     // Separate the datapoints into their clusters
     std::vector<std::vector<Datatype, Allocator>> clustered_data(num_clusters);
@@ -98,7 +102,9 @@ class SimpleKMeansClustering {
     for (uint32_t cluster = 0; cluster < num_clusters; cluster++) {
       const std::vector<Datatype, Allocator>& cluster_data = clustered_data[cluster];
       const std::vector<double>& cluster_weights = clustered_weights[cluster];
-      cluster_centers[cluster] = average_fn(cluster_data, cluster_weights);
+      // A cluster that lost all of its elements keeps its center
+      cluster_centers[cluster] =
+          cluster_data.empty() ? previous_centers[cluster] : average_fn(cluster_data, cluster_weights);
     }
     return cluster_centers;
   }
@@ -133,7 +139,7 @@ class SimpleKMeansClustering {
     uint32_t iteration = 1u;
     while (!converged) {
       // Update cluster centers
-      cluster_centers = ComputeClusterCenters(data, cluster_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCenters(data, cluster_labels, average_fn, num_clusters, cluster_centers);
       // Cluster with the new centers
       std::vector<uint32_t> new_cluster_labels = PerformSingleClusteringIteration(data, distance_fn, cluster_centers);
       // Check for convergence
@@ -201,7 +207,8 @@ class SimpleKMeansClustering {
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels = Cluster(random_subset, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
-      cluster_centers = ComputeClusterCenters(random_subset, random_subset_labels, average_fn, num_clusters);
+      cluster_centers =
+          ComputeClusterCenters(random_subset, random_subset_labels, average_fn, num_clusters, random_subset);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
@@ -238,7 +245,8 @@ class SimpleKMeansClustering {
     uint32_t iteration = 1u;
     while (!converged) {
       // Update cluster centers
-      cluster_centers = ComputeClusterCentersWeighted(data, weights, cluster_labels, average_fn, num_clusters);
+      cluster_centers =
+          ComputeClusterCentersWeighted(data, weights, cluster_labels, average_fn, num_clusters, cluster_centers);
       // Cluster with the new centers
       std::vector<uint32_t> new_cluster_labels = PerformSingleClusteringIteration(data, distance_fn, cluster_centers);
       // Check for convergence
@@ -315,7 +323,8 @@ class SimpleKMeansClustering {
           ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
       cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels, average_fn, num_clusters);
+          ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels, average_fn,
+                                        num_clusters, random_subset);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 41a29ea6b111026986b1b16dd565d193b2f12624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:04 +0000
Subject: [PATCH 22/78] fix: truncated normal sampling hardly ever ended with
 distant bounds below the mean

---
 include/arc_utilities/arc_helpers.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 6d1ab88..a536185 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1121,6 +1121,13 @@ class TruncatedNormalDistribution {
       // Standardize the lower and upper bounds
       std_lower_bound_ = (lower_bound - mean_) / stddev_;
       std_upper_bound_ = (upper_bound - mean_) / stddev_;
+      // Both bounds are below the mean - mirror them, as the accept-reject algorithms are only efficient above it
+      if (0.0 > std_upper_bound_) {
+        std::swap(std_lower_bound_, std_upper_bound_);
+        std_lower_bound_ = -1 * std_lower_bound_;
+        std_upper_bound_ = -1 * std_upper_bound_;
+        stddev_ = -1 * stddev_;
+      }
       // Set the operating case - i.e. which sampling method we will use
       case_ = NONE;
       if (0.0 <= std_upper_bound_ && 0.0 >= std_lower_bound_) {
@@ -1130,14 +1137,7 @@ class TruncatedNormalDistribution {
       if (0.0 < std_lower_bound_ && std_upper_bound_ == INFINITY) {
         case_ = TYPE_2;
       }
-      if (0.0 > std_upper_bound_ && std_lower_bound_ == -INFINITY) {
-        std_lower_bound_ = -1 * std_upper_bound_;
-        std_upper_bound_ = INFINITY;
-        stddev_ = -1 * stddev_;
-        case_ = TYPE_2;
-      }
-      if ((0.0 > std_upper_bound_ || 0.0 < std_lower_bound_) &&
-          !(std_upper_bound_ == INFINITY || std_lower_bound_ == -INFINITY)) {
+      if (0.0 < std_lower_bound_ && std_upper_bound_ != INFINITY) {
         if (CheckSimple(std_lower_bound_, std_upper_bound_)) {
           case_ = TYPE_3;
         } else {
-- 
2.43.0


From 3be53dfe74bafdd620bbd3d67196fd0256c2549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 23/78] fix: every check for a debugger leaked a descriptor and
 trusted partial reads

---
 include/arc_utilities/arc_helpers.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index a536185..be74b25 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -66,7 +66,17 @@ inline bool IsDebuggerPresent() {
     return false;
   }
   char buf[1024];
-  const ssize_t num_read = read(status_fd, buf, sizeof(buf) - 1);
+  // A single read may be interrupted or return only a part
+  ssize_t num_read = 0;
+  while (num_read < (ssize_t)sizeof(buf) - 1) {
+    const ssize_t num_new = read(status_fd, buf + num_read, sizeof(buf) - 1 - (size_t)num_read);
+    if (num_new > 0) {
+      num_read += num_new;
+    } else if (num_new == 0 || errno != EINTR) {
+      break;
+    }
+  }
+  close(status_fd);
   if (num_read > 0) {
     static const char TracerPid[] = "TracerPid:";
     char* tracer_pid;
-- 
2.43.0


From 682555aa7a7186555b3a5a219215df3e13c0dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 24/78] fix: reading a key set uninitialised terminal
 attributes when they could not be read

---
 include/arc_utilities/arc_helpers.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index be74b25..2e18c54 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -107,11 +107,13 @@ inline void InteractiveWaitToContinue() {
  */
 inline int GetChar() {
   // Disable buffered input on the terminal
-  termios t;
-  tcgetattr(STDIN_FILENO, &t);
-  const auto c_lflag_start = t.c_lflag;
+  termios t = termios();
+  const bool is_terminal = (tcgetattr(STDIN_FILENO, &t) == 0);
+  const auto c_lflag_start = is_terminal ? t.c_lflag : 0;
   t.c_lflag &= ~ICANON;
-  tcsetattr(STDIN_FILENO, TCSANOW, &t);
+  if (is_terminal) {
+    tcsetattr(STDIN_FILENO, TCSANOW, &t);
+  }
 
   // Get the next single character, removing it from the buffer and
   // clearing any flags that result
@@ -121,7 +123,9 @@ inline int GetChar() {
 
   // Re-enable buffered input if needed
   t.c_lflag = c_lflag_start;
-  tcsetattr(STDIN_FILENO, TCSANOW, &t);
+  if (is_terminal) {
+    tcsetattr(STDIN_FILENO, TCSANOW, &t);
+  }
 
   return c;
 }
-- 
2.43.0


From 1094406a3bc6d314eaee3ccbb1f36df2c22f3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 25/78] fix: a listener destroyed its message and lock while
 its callback could still run

---
 include/arc_utilities/listener.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/listener.hpp b/include/arc_utilities/listener.hpp
index 27811ed..370f0bb 100644
--- a/include/arc_utilities/listener.hpp
+++ b/include/arc_utilities/listener.hpp
@@ -10,11 +10,12 @@ template <class T>
 class Listener {
  protected:
   std::string topic_;
+  // Used by the callback, hence destroyed only after the subscriber
+  std::mutex mtx_;
+  typename T::ConstPtr msg_;
   ros::CallbackQueue queue_;
   ros::AsyncSpinner spinner_;
   ros::Subscriber sub_;
-  std::mutex mtx_;
-  typename T::ConstPtr msg_;
 
   void callback(typename T::ConstPtr const& msg) {
     std::lock_guard<std::mutex> lock(mtx_);
@@ -23,7 +24,7 @@ class Listener {
 
  public:
   Listener(ros::NodeHandle& nh, std::string const& topic, bool const autostart = true)
-      : topic_(topic), queue_(), spinner_(1, &queue_), msg_(nullptr) {
+      : topic_(topic), msg_(nullptr), queue_(), spinner_(1, &queue_) {
     auto options =
         ros::SubscribeOptions::create<T>(topic, 1, boost::bind(&Listener::callback, this, _1), ros::VoidPtr(), &queue_);
     sub_ = nh.subscribe(options);
-- 
2.43.0


From b3bed116f03eb317fa99abfbec34ac9a45ada72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 26/78] fix: waiting for a new message hid the current message
 from other readers and waiters

---
 include/arc_utilities/listener.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/arc_utilities/listener.hpp b/include/arc_utilities/listener.hpp
index 370f0bb..b85f9c5 100644
--- a/include/arc_utilities/listener.hpp
+++ b/include/arc_utilities/listener.hpp
@@ -13,6 +13,7 @@ class Listener {
   // Used by the callback, hence destroyed only after the subscriber
   std::mutex mtx_;
   typename T::ConstPtr msg_;
+  uint64_t num_received_;
   ros::CallbackQueue queue_;
   ros::AsyncSpinner spinner_;
   ros::Subscriber sub_;
@@ -20,11 +21,12 @@ class Listener {
   void callback(typename T::ConstPtr const& msg) {
     std::lock_guard<std::mutex> lock(mtx_);
     msg_ = msg;
+    ++num_received_;
   }
 
  public:
   Listener(ros::NodeHandle& nh, std::string const& topic, bool const autostart = true)
-      : topic_(topic), msg_(nullptr), queue_(), spinner_(1, &queue_) {
+      : topic_(topic), msg_(nullptr), num_received_(0), queue_(), spinner_(1, &queue_) {
     auto options =
         ros::SubscribeOptions::create<T>(topic, 1, boost::bind(&Listener::callback, this, _1), ros::VoidPtr(), &queue_);
     sub_ = nh.subscribe(options);
@@ -43,16 +45,19 @@ class Listener {
   }
 
   typename T::ConstPtr waitForNew(double const loop_freq) {
-    // Clear any existing message
+    // Only accept messages from now on; clearing the existing one would hide it from other readers and waiters
+    uint64_t num_old;
     {
       std::lock_guard<std::mutex> lock(mtx_);
-      msg_ = nullptr;
+      num_old = num_received_;
     }
     ros::Rate r(loop_freq);
     while (ros::ok()) {
-      auto const msg = get();
-      if (msg) {
-        return msg;
+      {
+        std::lock_guard<std::mutex> lock(mtx_);
+        if (num_received_ != num_old && msg_) {
+          return msg_;
+        }
       }
       r.sleep();
     }
-- 
2.43.0


From 48790ced958d11206ed41b64c6b409a465b69515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 27/78] fix: a listener's callback missed messages that arrived
 while it subscribed

---
 src/arc_utilities/listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/listener.py b/src/arc_utilities/listener.py
index de32672..024c6e8 100644
--- a/src/arc_utilities/listener.py
+++ b/src/arc_utilities/listener.py
@@ -25,8 +25,8 @@ class Listener:
         self.lock = Lock()
 
         self.topic_name = topic_name
-        self.subscriber = rospy.Subscriber(topic_name, topic_type, self.callback, queue_size=queue_size)
         self.custom_callback = callback
+        self.subscriber = rospy.Subscriber(topic_name, topic_type, self.callback, queue_size=queue_size)
         self.get(wait_for_data)
 
     def callback(self, msg):
-- 
2.43.0


From 99365eb88836b4e751b659e7a94c1a7ad28374cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 28/78] fix: a listener deadlocked when its callback read the
 listener

---
 src/arc_utilities/listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/listener.py b/src/arc_utilities/listener.py
index 024c6e8..282bc01 100644
--- a/src/arc_utilities/listener.py
+++ b/src/arc_utilities/listener.py
@@ -1,5 +1,5 @@
 from copy import deepcopy
-from threading import Lock
+from threading import RLock
 
 import rospy
 from arc_utilities.ros_helpers import wait_for
@@ -22,7 +22,7 @@ class Listener:
         """
 
         self.data = None
-        self.lock = Lock()
+        self.lock = RLock()  # reentrant, so that the callback can call get()
 
         self.topic_name = topic_name
         self.custom_callback = callback
-- 
2.43.0


From a15948b834607f61bc427da31550bd2793191658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 29/78] fix: waiting for a controller button raised when ROS
 was shut down first

---
 src/arc_utilities/xbox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/xbox.py b/src/arc_utilities/xbox.py
index 38c9ecb..09fb295 100644
--- a/src/arc_utilities/xbox.py
+++ b/src/arc_utilities/xbox.py
@@ -49,7 +49,12 @@ class Xbox():
         if message:
             rospy.loginfo("Waiting for xbox button: " + button)
 
-        wait_for(lambda: not self.get_button(button) == 0)
+        def _pressed():
+            joy = self.xbox_listener.get()
+            # there is no message if ROS was shut down before the first one
+            return joy is not None and not getattr(joy_to_xbox(joy, self.xpad), button) == 0
+
+        wait_for(_pressed)
 
     def x_clicked(self, event: InputEvent):
         return event.ev_type == 'Key' and event.code == 'BTN_NORTH' and event.state == 0
-- 
2.43.0


From 23b0faf7e25ef6f580a9c705f211204f0fac9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 30/78] fix: the controller's 3D motion mixed axes of different
 messages

---
 src/arc_utilities/xbox.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/xbox.py b/src/arc_utilities/xbox.py
index 09fb295..7b95a3c 100644
--- a/src/arc_utilities/xbox.py
+++ b/src/arc_utilities/xbox.py
@@ -60,7 +60,10 @@ class Xbox():
         return event.ev_type == 'Key' and event.code == 'BTN_NORTH' and event.state == 0
 
     def get_axis_normalized(self, axis: int):
-        joy_msg = self.xbox_listener.get()
+        return self._axis_normalized(self.xbox_listener.get(), axis)
+
+    @staticmethod
+    def _axis_normalized(joy_msg, axis: int):
         if axis == 0:
             return deadzone(-joy_msg.axes[axis])
         elif axis == 1:
@@ -84,6 +87,7 @@ class Xbox():
             the [x, y, z], in the interval [-1.0, 1.0]
 
         """
-        return np.array([self.get_axis_normalized(0),
-                         self.get_axis_normalized(1),
-                         self.get_axis_normalized(4)])
+        joy_msg = self.xbox_listener.get()
+        return np.array([self._axis_normalized(joy_msg, 0),
+                         self._axis_normalized(joy_msg, 1),
+                         self._axis_normalized(joy_msg, 4)])
-- 
2.43.0


From 7577b6349ced6c4129a6b41fd54abba854ba37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 31/78] fix: changing a pose after sending it changed the
 static transform sent later

---
 src/arc_utilities/tf2wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 3a293e8..2a77be7 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -99,7 +99,10 @@ class TF2Wrapper:
         t.transform.translation.x = pose.position.x
         t.transform.translation.y = pose.position.y
         t.transform.translation.z = pose.position.z
-        t.transform.rotation = pose.orientation
+        t.transform.rotation.x = pose.orientation.x
+        t.transform.rotation.y = pose.orientation.y
+        t.transform.rotation.z = pose.orientation.z
+        t.transform.rotation.w = pose.orientation.w
 
         if is_static:
             self.static_tfs.append(t)
-- 
2.43.0


From 4bfd0353783717d15b2fc1b0b787564847ceaac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 32/78] fix: replaced static transforms were published again
 with every later one

---
 src/arc_utilities/tf2wrapper.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 2a77be7..07b9584 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -1,5 +1,7 @@
 #! /usr/bin/env python
 
+from threading import Lock
+
 import geometry_msgs.msg
 import rospy
 import tf2_ros
@@ -21,7 +23,8 @@ class TF2Wrapper:
             self.tf_listener = listener
         self.tf_broadcaster = tf2_ros.TransformBroadcaster()
         self.static_tf_broadcaster = tf2_ros.StaticTransformBroadcaster()
-        self.static_tfs = []
+        self.static_tfs = {}  # the latest static transform of each child frame
+        self.static_tfs_lock = Lock()
 
     def get_transform(self,
                       parent,
@@ -73,6 +76,11 @@ class TF2Wrapper:
         transform = self.tf_buffer.lookup_transform(target_frame=parent, source_frame=child, time=time)
         return transform
 
+    def _send_static(self, t):
+        with self.static_tfs_lock:
+            self.static_tfs[t.child_frame_id] = t
+            self.static_tf_broadcaster.sendTransform(list(self.static_tfs.values()))  # send all at once.
+
     def send_transform_matrix(self, transform, parent, child, is_static=False, time=None):
         """
         :param parent: frame name for the parent (see below)
@@ -105,8 +113,7 @@ class TF2Wrapper:
         t.transform.rotation.w = pose.orientation.w
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs)  # send all at once.
+            self._send_static(t)
         else:
             self.tf_broadcaster.sendTransform(t)
 
@@ -139,8 +146,7 @@ class TF2Wrapper:
         t.transform.rotation.w = quaternion[3]
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs) # send all at once.
+            self._send_static(t)
         else:
             self.tf_broadcaster.sendTransform(t)
 
-- 
2.43.0


From 757db42caa9bea037fd9c47ae154396eb6579da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 33/78] fix: managed transforms changed when the caller reused
 its arguments

---
 src/arc_utilities/reliable_tf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index c8349c1..0d42ba6 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from functools import partial
 from threading import Thread, Event
 from typing import Callable
@@ -58,6 +59,7 @@ class ReliableTF(TF2Wrapper):
             self.stop_send(parent, child)
 
     def start_send_transform_matrix(self, transform, parent, child, is_static=False):
+        transform = np.array(transform)  # the caller may change its own later
         send_transform_partial = partial(send_transform_matrix, tfw=self.shared_tfw, transform=transform, parent=parent,
                                          child=child, is_static=is_static)
 
@@ -67,6 +69,7 @@ class ReliableTF(TF2Wrapper):
         self.start_send(parent, child, _is_close_func, send_transform_partial)
 
     def start_send_transform_from_pose_msg(self, pose: Pose, parent, child, is_static=False):
+        pose = deepcopy(pose)  # the caller may change its own later
         send_transform_partial = partial(send_transform_from_pose_msg, tfw=self.shared_tfw, pose=pose, parent=parent,
                                          child=child, is_static=is_static)
 
@@ -76,6 +79,9 @@ class ReliableTF(TF2Wrapper):
         self.start_send(parent, child, _is_close_func, send_transform_partial)
 
     def start_send_transform(self, translation, quaternion, parent, child, is_static=False):
+        # the caller may change its own later
+        translation = list(translation)
+        quaternion = list(quaternion)
         send_transform_partial = partial(send_transform, tfw=self.shared_tfw, translation=translation,
                                          quaternion=quaternion, parent=parent,
                                          child=child, is_static=is_static)
-- 
2.43.0


From 4169d4d76e0d3a0b4f9f6f8ec202f953c2b2d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 34/78] fix: starting a managed transform crashed on failed
 lookups and never ended on shutdown

---
 src/arc_utilities/reliable_tf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index 0d42ba6..04c1a0d 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -111,8 +111,11 @@ class ReliableTF(TF2Wrapper):
         # block until the correct transform is received
         while True:
             received_transform = self.get_transform(parent, child, verbose=False)
-            if is_close_func(received_transform):
+            # there is no transform if looking it up failed
+            if received_transform is not None and is_close_func(received_transform):
                 break
+            if rospy.is_shutdown():
+                raise KeyboardInterrupt("ROS has shutdown")
 
     def stop_send(self, parent, child):
         k = tfkey(parent=parent, child=child)
-- 
2.43.0


From 5ef00442062e1258c3d1d5a113e95c3dbde89d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 35/78] fix: threads sending managed transforms kept running
 after ROS was shut down

---
 src/arc_utilities/reliable_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index 04c1a0d..0a99d48 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -20,7 +20,7 @@ def tfkey(*, parent, child):
 
 def send_at_rate(exit_event, sender: Callable):
     r = Rate(10)
-    while not exit_event.is_set():
+    while not exit_event.is_set() and not rospy.is_shutdown():
         sender()
         r.sleep()
 
-- 
2.43.0


From 6cf250492b87bfb1a07c196a69f94a163a23cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 36/78] fix: stopped static transforms were still published
 along with others

---
 src/arc_utilities/reliable_tf.py | 1 +
 src/arc_utilities/tf2wrapper.py  | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index 0a99d48..ac70145 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -123,3 +123,4 @@ class ReliableTF(TF2Wrapper):
             thread, exit_event = self.managed_tfs.pop(k)
             exit_event.set()
             thread.join()
+            self.shared_tfw.forget_static_transform(child)
diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 07b9584..8e7c9bb 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -81,6 +81,11 @@ class TF2Wrapper:
             self.static_tfs[t.child_frame_id] = t
             self.static_tf_broadcaster.sendTransform(list(self.static_tfs.values()))  # send all at once.
 
+    def forget_static_transform(self, child):
+        """ no longer send the static transform of this child frame along with later ones """
+        with self.static_tfs_lock:
+            self.static_tfs.pop(child, None)
+
     def send_transform_matrix(self, transform, parent, child, is_static=False, time=None):
         """
         :param parent: frame name for the parent (see below)
-- 
2.43.0


From fbace369b35b4c75f83a77330ff2a564b6b31916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 37/78] fix: managed transforms were no longer sent once
 simulated time had moved backwards

---
 src/arc_utilities/reliable_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index ac70145..57aeb43 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -19,7 +19,7 @@ def tfkey(*, parent, child):
 
 
 def send_at_rate(exit_event, sender: Callable):
-    r = Rate(10)
+    r = Rate(10, reset=True)  # go on when time moves backwards
     while not exit_event.is_set() and not rospy.is_shutdown():
         sender()
         r.sleep()
-- 
2.43.0


From a94556f13173abaaf73add067b07b744ffa28481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:47 +0000
Subject: [PATCH 38/78] fix: a timeout could be reported for calls that had
 ended, or for their own timeout errors

---
 src/arc_utilities/catches.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/arc_utilities/catches.py b/src/arc_utilities/catches.py
index 70dbc66..3979a9a 100644
--- a/src/arc_utilities/catches.py
+++ b/src/arc_utilities/catches.py
@@ -2,20 +2,28 @@ import signal
 from typing import Callable, Optional
 
 
-def _handle_timeout(_, __):
-    raise TimeoutError()
+def catch_timeout(seconds, func: Callable, *func_args, **func_kwargs):
+    timeout = TimeoutError()
+    running = True
 
+    def _handle_timeout(_, __):
+        # the alarm can also arrive when func has ended but the alarm is not off yet
+        if running:
+            raise timeout
 
-def catch_timeout(seconds, func: Callable, *func_args, **func_kwargs):
     try:
         signal.signal(signal.SIGALRM, _handle_timeout)
-        signal.alarm(seconds)
         try:
+            signal.alarm(seconds)
             result = func(*func_args, **func_kwargs)
+            running = False
             return result, False
         finally:
+            running = False
             signal.alarm(0)
-    except TimeoutError:
+    except TimeoutError as e:
+        if e is not timeout:
+            raise  # func's own
         print("Caught timeout!")
         return None, True
 
-- 
2.43.0


From 77773ba32cbb38746836fadbf62124b1d0e52b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 39/78] fix: nodes were left running when initialisation or
 shutdown was interrupted

---
 src/arc_utilities/ros_init.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/ros_init.py b/src/arc_utilities/ros_init.py
index 2b072e0..8b37342 100644
--- a/src/arc_utilities/ros_init.py
+++ b/src/arc_utilities/ros_init.py
@@ -18,15 +18,21 @@ def rospy_and_cpp_init(name):
     Returns:
 
     """
-    roscpp_initializer.init_node("cpp_" + name, [], disable_signals=True)
-    rospy.init_node(name)
+    try:
+        roscpp_initializer.init_node("cpp_" + name, [], disable_signals=True)
+        rospy.init_node(name)
+    except BaseException:
+        shutdown()  # do not leave one of them running
+        raise
 
 
 def shutdown():
     """ ensures the C++ node handle is shut down cleanly. It's good to call this a the end of any program
       where you called rospy_and_cpp_init """
-    rospy.signal_shutdown('ros_init shutdown')
-    roscpp_initializer.shutdown()
+    try:
+        rospy.signal_shutdown('ros_init shutdown')
+    finally:
+        roscpp_initializer.shutdown()
 
 
 class RosContext:
-- 
2.43.0


From b2cc048c9f785cf7e3d9d6daf7f11a99833ea907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 40/78] fix: subscribers of remapped and private topics were
 not waited for

---
 src/arc_utilities/ros_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/ros_helpers.py b/src/arc_utilities/ros_helpers.py
index 272029e..d49d389 100644
--- a/src/arc_utilities/ros_helpers.py
+++ b/src/arc_utilities/ros_helpers.py
@@ -64,7 +64,7 @@ def logfatal(exception_class, msg):
 
 def get_connected_publisher(topic_path: str, data_class: Type, *args, **kwargs):
     pub = rospy.Publisher(topic_path, data_class, *args, **kwargs)
-    num_subs = len(_get_subscribers(topic_path))
+    num_subs = len(_get_subscribers(pub.name))  # the resolved name
     for i in range(5):
         num_cons = pub.get_num_connections()
         if num_cons == num_subs:
-- 
2.43.0


From 5da0783ed48cd9b935cea3e2b7b294fd6370921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 41/78] fix: getting a connected publisher failed when
 subscribers came or left meanwhile

---
 src/arc_utilities/ros_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/ros_helpers.py b/src/arc_utilities/ros_helpers.py
index d49d389..1cd745d 100644
--- a/src/arc_utilities/ros_helpers.py
+++ b/src/arc_utilities/ros_helpers.py
@@ -64,8 +64,8 @@ def logfatal(exception_class, msg):
 
 def get_connected_publisher(topic_path: str, data_class: Type, *args, **kwargs):
     pub = rospy.Publisher(topic_path, data_class, *args, **kwargs)
-    num_subs = len(_get_subscribers(pub.name))  # the resolved name
     for i in range(5):
+        num_subs = len(_get_subscribers(pub.name))  # the resolved name
         num_cons = pub.get_num_connections()
         if num_cons == num_subs:
             return pub
-- 
2.43.0


From dc02cabc8baad8e40ab52e187a47ead076a8cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 42/78] fix: names taken by dangling links were called free,
 hidden names were lost

---
 src/arc_utilities/filesystem_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index fa341d9..c75eaad 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -94,10 +94,10 @@ def no_overwrite_path(path):
     new_path = path
     n = 1
     while True:
-        if not new_path.exists():
+        if not new_path.exists() and not new_path.is_symlink():
             return new_path
 
-        no_extensions = path.stem.split('.')[0]
         extensions = ''.join(path.suffixes)
+        no_extensions = path.name[:len(path.name) - len(extensions)]
         new_path = path.parent / f"{no_extensions}_v{n}{extensions}"
         n += 1
-- 
2.43.0


From 015b7ce2bf96f2b892fde8439fc7fd6dd6ee92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 43/78] fix: files and removed directories were reported as
 reusable directories

---
 src/arc_utilities/filesystem_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index c75eaad..347b811 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -9,13 +9,13 @@ def mkdir_and_ask(path, parents: bool, yes: Optional[bool] = False):
         msg = f"Path {path} exists, do you want to reuse it? [Y/n]"
         if yes:
             print(f"{msg} answering yes")
-            return True
         else:
             response = input(msg)
-            if response == 'y' or response == 'Y' or response == '':
-                return True
-            else:
+            if response != 'y' and response != 'Y' and response != '':
                 return False
+        # fails for anything but a directory, and makes one that was removed meanwhile
+        path.mkdir(parents=parents, exist_ok=True)
+        return True
 
     path.mkdir(parents=parents, exist_ok=False)
     return True
-- 
2.43.0


From 4c00d26cb09714ffbe0281320d213bbec82e9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 44/78] fix: removing a tree deleted the contents of
 directories that links in it point to

---
 src/arc_utilities/filesystem_utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 347b811..d4dfa4d 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -1,4 +1,5 @@
 import pathlib
+import shutil
 from typing import Optional, Iterable
 
 from colorama import Fore
@@ -73,13 +74,8 @@ def count_files_recursive(path):
 
 
 def rm_tree(path):
-    path = pathlib.Path(path)
-    for child in path.glob('*'):
-        if child.is_file():
-            child.unlink()
-        else:
-            rm_tree(child)
-    path.rmdir()
+    # does not follow symbolic links, not even ones put in place meanwhile
+    shutil.rmtree(path)
 
 
 def no_overwrite_path(path):
-- 
2.43.0


From 872ec549ab3c9c313c764ee604da31bd4f30a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 45/78] fix: directories with unreadable parts were measured
 too small and offered for deletion

---
 src/arc_utilities/filesystem_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index d4dfa4d..a124de3 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -39,7 +39,14 @@ def get_all_subdirs(directories: Iterable[pathlib.Path]):
 
 
 def directory_size(dir: pathlib.Path):
-    return sum(f.stat().st_size for f in dir.glob('**/*') if f.is_file())
+    # unlike glob this raises when something cannot be read, which must not count as empty
+    size = 0
+    for child in dir.iterdir():
+        if child.is_dir() and not child.is_symlink():
+            size += directory_size(child)
+        elif child.is_file():
+            size += child.stat().st_size
+    return size
 
 
 def append_str_to_path(p: pathlib.Path, s: str):
-- 
2.43.0


From 8046f8165ac22b8cb3fe68a56acf8eee61668c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 46/78] fix: the clean-up tools counted and offered what
 symbolic links point to

---
 scripts/remove_directories_with_few_files.py | 2 +-
 scripts/remove_small_directories.py          | 2 +-
 src/arc_utilities/filesystem_utils.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/remove_directories_with_few_files.py b/scripts/remove_directories_with_few_files.py
index beba89a..80be2ee 100755
--- a/scripts/remove_directories_with_few_files.py
+++ b/scripts/remove_directories_with_few_files.py
@@ -18,7 +18,7 @@ def main():
     directories_to_remove = []
     for root in args.root:
         for d in root.iterdir():
-            if d.is_dir():
+            if d.is_dir() and not d.is_symlink():
                 n = count_files_recursive(d)
                 if n < args.count:
                     directories_to_remove.append(d)
diff --git a/scripts/remove_small_directories.py b/scripts/remove_small_directories.py
index d8b3be1..58f6078 100755
--- a/scripts/remove_small_directories.py
+++ b/scripts/remove_small_directories.py
@@ -21,7 +21,7 @@ def main():
     directories_to_remove = []
     for root in args.root:
         for d in root.iterdir():
-            if d.is_dir():
+            if d.is_dir() and not d.is_symlink():
                 size_bytes = directory_size(d)
                 if size_bytes < size_threshold_bytes:
                     directories_to_remove.append(d)
diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index a124de3..76f6eea 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -73,7 +73,7 @@ def count_files_recursive(path):
     count = 0
     path = pathlib.Path(path)
     for child in path.iterdir():
-        if child.is_dir():
+        if child.is_dir() and not child.is_symlink():
             count += count_files_recursive(child)
         else:
             count += 1
-- 
2.43.0


From 88f09b8f1b77a496ee70cc46a83ab3f6c4e33b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 47/78] fix: confirmed directories from an iterator were not
 deleted, ones listed twice stopped the deletion

---
 src/arc_utilities/filesystem_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 76f6eea..91945d1 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -54,6 +54,7 @@ def append_str_to_path(p: pathlib.Path, s: str):
 
 
 def ask_to_remove_directories(directories_to_remove: Iterable[pathlib.Path]):
+    directories_to_remove = list(directories_to_remove)
     print("Ok to delete these directories?")
     for d in directories_to_remove:
         print(d.as_posix())
@@ -61,7 +62,9 @@ def ask_to_remove_directories(directories_to_remove: Iterable[pathlib.Path]):
     if k == '' or k == 'y' or k == 'Y':
         print(Fore.GREEN + "Deleting.")
         for d in directories_to_remove:
-            rm_tree(d)
+            # it may have been listed twice or have been inside another one
+            if d.exists():
+                rm_tree(d)
 
         return
 
-- 
2.43.0


From 529504dd72b346b78b287c37c6c3f18c247354a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 48/78] fix: make the tree planners compile

Complete the StateType/SampleType template parameters of the single-tree
PlanMultiPath, add the missing RNG parameter and allocator of the
bidirectional one, and include what the header uses.
---
 include/arc_utilities/simple_rrt_planner.hpp | 32 +++++++++++---------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 1aa7a55..476689d 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -1,9 +1,13 @@
 #include <stdlib.h>
 
 #include <Eigen/Dense>
+#include <algorithm>
+#include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/serialization.hpp>
 #include <chrono>
 #include <functional>
+#include <iostream>
+#include <map>
 #include <memory>
 #include <random>
 #include <stdexcept>
@@ -501,8 +505,8 @@ class SimpleHybridRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename StateType, typename StateAllocator, typename SampleType>
+  static std::pair<std::vector<std::vector<StateType, StateAllocator>>, std::map<std::string, double>> PlanMultiPath(
       std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>& tree,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&,
                                   const SampleType&)>& nearest_neighbor_fn,
@@ -543,13 +547,13 @@ class SimpleHybridRRTPlanner {
     // Plan
     while (!termination_check_fn()) {
       // Sample a random goal
-      const StateType random_target = sampling_fn();
+      const SampleType random_target = sampling_fn();
       // Get the nearest neighbor
-      const int64_t nearest_neighbor_index = nearest_neighbor_fn(nodes, random_target);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      const int64_t nearest_neighbor_index = nearest_neighbor_fn(tree, random_target);
+      if (arc_unlikely(nearest_neighbor_index < 0)) {
         break;
       }
-      const T& nearest_neighbor = nodes.at(nearest_neighbor_index).GetValueImmutable();
+      const StateType& nearest_neighbor = tree.at(nearest_neighbor_index).GetValueImmutable();
       // Forward propagate towards the goal
       std::vector<std::pair<StateType, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
       if (!propagated.empty()) {
@@ -578,12 +582,12 @@ class SimpleHybridRRTPlanner {
                                                          // nearest neighbor index
           }
           // Build the new state
-          const T& current_propagated = current_propagation.first;
-          const SimpleRRTPlannerState<T, Allocator> new_state(current_propagated, node_parent_index);
+          const StateType& current_propagated = current_propagation.first;
+          const SimpleRRTPlannerState<StateType, StateAllocator> new_state(current_propagated, node_parent_index);
           // Add the state to the tree
-          nodes.push_back(new_state);
-          const int64_t new_node_index = (int64_t)nodes.size() - 1;
-          nodes[node_parent_index].AddChildIndex(new_node_index);
+          tree.push_back(new_state);
+          const int64_t new_node_index = (int64_t)tree.size() - 1;
+          tree[node_parent_index].AddChildIndex(new_node_index);
           // Call the state added callback
           state_added_fn(tree, new_node_index);
           // Check if we've reached the goal
@@ -817,8 +821,8 @@ class SimpleHybridBiRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename RNG, typename T, typename Allocator = std::allocator<T>>
+  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
       const T& start, const T& goal,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&, const T&)>&
           nearest_neighbor_fn,
@@ -915,7 +919,7 @@ class SimpleHybridBiRRTPlanner {
           (sample_from_tree) ? target_tree.at(target_tree_node_index).GetValueImmutable() : state_sampling_fn();
       // Get the nearest neighbor
       const int64_t nearest_neighbor_index = nearest_neighbor_fn(active_tree, target_state);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      if (arc_unlikely(nearest_neighbor_index < 0)) {
         break;
       }
       const StateType& nearest_neighbor = active_tree.at(nearest_neighbor_index).GetValueImmutable();
-- 
2.43.0


From db977f82d25ef47bafe664d58ce8e892050b0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 49/78] fix: refuse planner trees whose parent index lies
 beyond the tree

---
 include/arc_utilities/simple_rrt_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 476689d..37e7a94 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -652,7 +652,7 @@ class SimpleHybridRRTPlanner {
                     << " [Indices can't be the same]" << std::endl;
           return false;
         }
-      } else if (parent_index < -1) {
+      } else if (parent_index != -1) {
         std::cerr << "Invalid parent index " << parent_index << " for state " << current_index << std::endl;
         return false;
       }
-- 
2.43.0


From 9517491e2af3ab78a00b2a1d61f3aff9b381a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 50/78] fix: time warping took a dearer path on ties and
 depended on earlier calls for empty sequences

---
 include/arc_utilities/simple_dtw.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index f4f021c..3c37ceb 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -24,13 +24,11 @@ class SimpleDTW {
     const ssize_t cols = (ssize_t)second_sequence_size + 1;
     if (dtw_matrix_.rows() < rows || dtw_matrix_.cols() < cols) {
       dtw_matrix_ = Eigen::MatrixXd::Zero(rows, cols);
-      if (rows > 1 && cols > 1) {
-        for (ssize_t row = 1; row < rows; row++) {
-          dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
-        }
-        for (ssize_t col = 1; col < cols; col++) {
-          dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
-        }
+      for (ssize_t row = 1; row < rows; row++) {
+        dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
+      }
+      for (ssize_t col = 1; col < cols; col++) {
+        dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
       }
     }
   }
@@ -60,9 +58,9 @@ class SimpleDTW {
         double im1jm1 = dtw_matrix_(i - 1, j - 1);
         double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1) {
+        if (im1j <= im1jm1 && im1j <= ijm1) {
           prev_cost = im1j;
-        } else if (ijm1 < im1j && ijm1 < im1jm1) {
+        } else if (ijm1 <= im1j && ijm1 <= im1jm1) {
           prev_cost = ijm1;
         } else {
           prev_cost = im1jm1;
-- 
2.43.0


From f8e72dc2f4679c09c3c6ff23b006f5b30defa420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 51/78] fix: copies of queried trajectories used the cache of
 their source, assigned paths shared their segments

---
 .../time_optimal_trajectory_parametrization.hpp |  5 +++++
 .../time_optimal_trajectory_parametrization.cpp | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index 3ef54ab..f5f4386 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -41,6 +41,8 @@ class Path {
 
   Path(const Path& path);
 
+  Path& operator=(const Path& path);
+
   ~Path();
 
   double Length() const;
@@ -74,6 +76,9 @@ class Trajectory {
   Trajectory(const Path& path_, const Eigen::VectorXd& max_velocity_, const Eigen::VectorXd& max_acceleration_,
              double timestep = 0.001);
 
+  // The copy gets its own cache, the cached segment of the source belongs to the source
+  Trajectory(const Trajectory& trajectory);
+
   ~Trajectory(void);
 
   // Returns the optimal duration of the trajectory
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index ab1ee4b..6a2bf02 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -161,6 +161,14 @@ Path::Path(const Path& path) : length_(path.length_), switching_points_(path.swi
   }
 }
 
+Path& Path::operator=(const Path& path) {
+  Path copy(path);
+  length_ = copy.length_;
+  switching_points_.swap(copy.switching_points_);
+  path_segments_.swap(copy.path_segments_);
+  return *this;
+}
+
 Path::~Path() {
   for (std::list<PathSegment*>::iterator it = path_segments_.begin(); it != path_segments_.end(); it++) {
     delete *it;
@@ -281,6 +289,15 @@ Trajectory::Trajectory(const Path& path, const Eigen::VectorXd& max_velocity, co
   }
 }
 
+Trajectory::Trajectory(const Trajectory& trajectory)
+    : path_(trajectory.path_),
+      max_velocity_(trajectory.max_velocity_),
+      max_acceleration_(trajectory.max_acceleration_),
+      n_(trajectory.n_),
+      trajectory_(trajectory.trajectory_),
+      time_step_(trajectory.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
 Trajectory::~Trajectory(void) {}
 
 void Trajectory::OutputPhasePlaneTrajectory() const {
-- 
2.43.0


From 779590c5917a8fe291625630af690f58028fd321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 52/78] fix: options asked for when starting the C++ node from
 Python were ignored

---
 src/roscpp_initializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roscpp_initializer.cpp b/src/roscpp_initializer.cpp
index d436cdb..426a193 100644
--- a/src/roscpp_initializer.cpp
+++ b/src/roscpp_initializer.cpp
@@ -55,7 +55,7 @@ void init_node(std::string const &name, std::vector<std::string> argv = {}, int
     return pc;
   };
   std::transform(argv.begin(), argv.end(), std::back_inserter(argv_pointers), convert);
-  ros::init(argc, argv_pointers.data(), name);
+  ros::init(argc, argv_pointers.data(), name, options);
 
   spinner = std::make_unique<ros::AsyncSpinner>(1);
   spinner->start();
-- 
2.43.0


From 7c2cc04517923cc1e3c5164824cb37fea68d32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 53/78] fix: parameters could not be asked for with a variable
 as the default

---
 include/arc_utilities/ros_helpers.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/ros_helpers.hpp b/include/arc_utilities/ros_helpers.hpp
index fab5c58..0861160 100644
--- a/include/arc_utilities/ros_helpers.hpp
+++ b/include/arc_utilities/ros_helpers.hpp
@@ -1,6 +1,8 @@
 #include <ros/callback_queue.h>
 #include <ros/ros.h>
 
+#include <type_traits>
+
 #include "arc_utilities/maybe.hpp"
 
 #ifndef ROS_HELPERS_HPP
@@ -29,7 +31,8 @@ inline T GetParam(const ros::NodeHandle& nh, const std::string& param_name, cons
   return param_val;
 }
 
-template <typename T>
+// Temporaries only: T would be a reference for variables
+template <typename T, typename = typename std::enable_if<!std::is_reference<T>::value>::type>
 inline T GetParam(const ros::NodeHandle& nh, const std::string& param_name, T&& default_val) {
   T param_val;
   if (nh.getParam(param_name, param_val)) {
@@ -57,7 +60,8 @@ inline T GetParamDebugLog(const ros::NodeHandle& nh, const std::string& param_na
   return param_val;
 }
 
-template <typename T>
+// Temporaries only: T would be a reference for variables
+template <typename T, typename = typename std::enable_if<!std::is_reference<T>::value>::type>
 inline T GetParamDebugLog(const ros::NodeHandle& nh, const std::string& param_name, T&& default_val) {
   T param_val;
   if (nh.getParam(param_name, param_val)) {
-- 
2.43.0


From 696554126443910101dfa48181a0cb2b1274c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 54/78] fix: the SE2 and SE3 robot models did not compile
 (serialisation moved, missing include)

---
 include/arc_utilities/simple_robot_models.hpp    | 1 +
 include/arc_utilities/simple_se2_robot_model.hpp | 5 +++--
 include/arc_utilities/simple_se3_robot_model.hpp | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/simple_robot_models.hpp b/include/arc_utilities/simple_robot_models.hpp
index 71f50ed..a7c4234 100644
--- a/include/arc_utilities/simple_robot_models.hpp
+++ b/include/arc_utilities/simple_robot_models.hpp
@@ -9,6 +9,7 @@
 #include <arc_utilities/simple_se2_robot_model.hpp>
 #include <arc_utilities/simple_se3_robot_model.hpp>
 #include <map>
+#include <memory>
 #include <random>
 #include <vector>
 
diff --git a/include/arc_utilities/simple_se2_robot_model.hpp b/include/arc_utilities/simple_se2_robot_model.hpp
index 4640fea..e350bde 100644
--- a/include/arc_utilities/simple_se2_robot_model.hpp
+++ b/include/arc_utilities/simple_se2_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE2ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenMatrixD31Serializer"); }
 
   static inline uint64_t Serialize(const SimpleSE2Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE2Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Matrix<double, 3, 1>>(buffer, current);
+    return arc_utilities::DeserializeEigen<SimpleSE2Configuration>(buffer, current);
   }
 };
 
diff --git a/include/arc_utilities/simple_se3_robot_model.hpp b/include/arc_utilities/simple_se3_robot_model.hpp
index ae153ad..c5e3578 100644
--- a/include/arc_utilities/simple_se3_robot_model.hpp
+++ b/include/arc_utilities/simple_se3_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE3ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenIsometry3dSerializer"); }
 
   static inline uint64_t Serialize(const SimpleSE3Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE3Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Isometry3d>(buffer, current);
+    return arc_utilities::DeserializeEigen<SimpleSE3Configuration>(buffer, current);
   }
 };
 
-- 
2.43.0


From 682e466dbe746aef74af764e5fe44a410b40762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 55/78] fix: the inverse base transform of a robot was not
 updated with the base transform

---
 include/arc_utilities/simple_linked_robot_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 89097c0..8c2e39f 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -617,6 +617,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void UpdateBaseTransform(const Eigen::Isometry3d& base_transform) {
     base_transform_ = base_transform;
+    inverse_base_transform_ = base_transform_.inverse();
     UpdateTransforms();
   }
 
-- 
2.43.0


From 9172cff7a699010b42b457a82c9743c6a7ef5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 56/78] fix: Jacobian columns of prismatic joints contained the
 position of the joint

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 8c2e39f..65d4a31 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -834,7 +834,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis.cross(world_point - joint_transform.translation());
         jacobian.block<3, 1>(3, active_joint_index) = joint_axis;
       } else if (parent_joint.JointModel().IsPrismatic()) {
-        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform * parent_joint.JointAxis());
+        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform.rotation() * parent_joint.JointAxis());
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis;
       } else {
         // We do nothing for fixed joints
-- 
2.43.0


From 9f1571d1361c453ec9a968646a8e9205047205a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 57/78] fix: links were misplaced when joints were not listed
 from the root outwards

---
 .../simple_linked_robot_model.hpp             | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 65d4a31..cc674df 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -326,6 +326,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
   std::vector<RobotJoint> joints_;
   std::vector<KinematicSkeletonElement> kinematic_skeleton_;
   std::map<int64_t, int64_t> active_joint_index_map_;
+  std::vector<size_t> joint_update_order_;
   std::vector<double> joint_distance_weights_;
   size_t num_active_joints_;
 
@@ -333,9 +334,9 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
     // Update the transform for the first link
     links_[0].UpdateLinkTransform(base_transform_);
     // Go out the kinematic chain
-    for (size_t idx = 0; idx < joints_.size(); idx++) {
+    for (size_t idx = 0; idx < joint_update_order_.size(); idx++) {
       // Get the current joint
-      const RobotJoint& current_joint = joints_[idx];
+      const RobotJoint& current_joint = joints_[joint_update_order_[idx]];
       // Get the parent link
       const RobotLink& parent_link = links_[(size_t)current_joint.ParentLinkIndex()];
       // Get the child link
@@ -410,6 +411,21 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
     return std::make_pair(num_active_joints, active_joint_index_map);
   }
 
+  // The joints may be given in any order, but every parent link must be placed before its child links
+  static inline std::vector<size_t> MakeJointUpdateOrder(
+      const std::vector<KinematicSkeletonElement>& kinematic_skeleton) {
+    std::vector<size_t> joint_update_order;
+    std::vector<int64_t> link_indices(1, 0);
+    for (size_t idx = 0; idx < link_indices.size(); idx++) {
+      const KinematicSkeletonElement& element = kinematic_skeleton[(size_t)link_indices[idx]];
+      for (size_t child_idx = 0; child_idx < element.child_link_indices_.size(); child_idx++) {
+        joint_update_order.push_back((size_t)element.child_joint_indices_[child_idx]);
+        link_indices.push_back(element.child_link_indices_[child_idx]);
+      }
+    }
+    return joint_update_order;
+  }
+
   static bool ExploreChildren(const std::vector<KinematicSkeletonElement>& kinematic_skeleton,
                               const int64_t current_index, std::map<int64_t, uint8_t>& cycle_detection_map) {
     // Check if we've been here before
@@ -580,6 +596,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       throw std::invalid_argument("Attempted to construct a SimpleLinkedRobot with an invalid robot model");
     }
     kinematic_skeleton_ = model_validity_check.first;
+    joint_update_order_ = MakeJointUpdateOrder(kinematic_skeleton_);
     // Get information about the active joints
     const auto active_joint_query = MakeActiveJointIndexMap(joints_);
     num_active_joints_ = active_joint_query.first;
-- 
2.43.0


From 370b7392a8343af42ea14555f5e842bb27251396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 58/78] fix: refused positions left a robot half moved, and its
 own position was refused

---
 .../simple_linked_robot_model.hpp             | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index cc674df..42ef91b 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -369,24 +369,33 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void SetConfig(const SimpleLinkedConfiguration& new_config) {
     if (new_config.size() == num_active_joints_) {
-      config_.clear();
-      size_t config_idx = 0u;
+      // Work on a copy, so that a configuration that is refused changes nothing, and new_config may be our own config_
+      SimpleLinkedConfiguration updated_config;
+      updated_config.reserve(num_active_joints_);
       for (size_t idx = 0; idx < joints_.size(); idx++) {
-        RobotJoint& current_joint = joints_[idx];
+        const RobotJoint& current_joint = joints_[idx];
         // Skip fixed joints
         if (current_joint.JointModel().IsFixed()) {
           continue;
         } else {
-          if (config_idx < new_config.size()) {
-            const SimpleJointModel& new_joint = new_config[config_idx];
-            current_joint.JointModel().SetValue(new_joint.GetValue());
-            config_.push_back(current_joint.JointModel());
-            config_idx++;
+          if (updated_config.size() < new_config.size()) {
+            SimpleJointModel updated_joint = current_joint.JointModel();
+            updated_joint.SetValue(new_config[updated_config.size()].GetValue());
+            updated_config.push_back(updated_joint);
           } else {
             throw std::runtime_error("config_idx out of range");
           }
         }
       }
+      size_t config_idx = 0u;
+      for (size_t idx = 0; idx < joints_.size(); idx++) {
+        RobotJoint& current_joint = joints_[idx];
+        if (!current_joint.JointModel().IsFixed()) {
+          current_joint.JointModel() = updated_config[config_idx];
+          config_idx++;
+        }
+      }
+      config_.swap(updated_config);
       // Update forward kinematics
       UpdateTransforms();
     } else {
-- 
2.43.0


From 4bf0eb7dc131c4dfb341b4b220ccbc599e2063a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 59/78] fix: robot joints that lead to links that do not exist
 wrote outside the kinematic skeleton

---
 include/arc_utilities/simple_linked_robot_model.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 42ef91b..1c7a7cc 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -574,6 +574,11 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Add the edge into the kinematic skeleton
       const int64_t parent_link_index = current_joint.ParentLinkIndex();
       const int64_t child_link_index = current_joint.ChildLinkIndex();
+      if ((parent_link_index < 0) || (parent_link_index >= (int64_t)links.size()) || (child_link_index < 0) ||
+          (child_link_index >= (int64_t)links.size())) {
+        std::cerr << "Joint " << current_joint.JointName() << " does not connect two existing links" << std::endl;
+        return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
+      }
       // Set the child->parent relationship
       kinematic_skeleton[(size_t)child_link_index].parent_link_index_ = parent_link_index;
       kinematic_skeleton[(size_t)child_link_index].parent_joint_index_ = joint_idx;
-- 
2.43.0


From 13e0e47ce7371e05694153ff42204f0e25fd9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 60/78] fix: dynamic voxel grids with their own allocator
 compile

---
 .../arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1220884..5e27c2b 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -568,7 +568,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      const DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      const DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         // Get the data
         std::pair<const T&, bool> found_in_cell = chunk.GetCellImmutable(grid_location);
@@ -593,7 +593,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         // Get the data
         std::pair<T&, bool> found_in_cell = chunk.GetCellMutable(grid_location);
@@ -618,7 +618,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         if (chunk.SetCellValue(grid_location, value)) {
           return SET_CELL;
@@ -803,7 +803,8 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline Eigen::Isometry3d GetOriginTransform() const { return origin_transform_; }
 
-  inline const std::unordered_map<CHUNK_REGION, DynamicSpatialHashedVoxelGridChunk<T>>& GetInternalChunks() const {
+  inline const std::unordered_map<CHUNK_REGION, DynamicSpatialHashedVoxelGridChunk<T, Allocator>>& GetInternalChunks()
+      const {
     return chunks_;
   }
 };
-- 
2.43.0


From 0a5b78865b66866eb4cadd29d2aedbed26997b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 61/78] fix: a default constructed dynamic voxel grid is not
 initialized

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 5e27c2b..abe0905 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -489,7 +489,7 @@ class DynamicSpatialHashedVoxelGrid {
     chunk_z_size_ = cell_z_size_ * (double)chunk_num_z_cells_;
     chunk_stride1_ = chunk_num_y_cells_ * chunk_num_z_cells_;
     chunk_stride2_ = chunk_num_z_cells_;
-    initialized_ = true;
+    initialized_ = false;
   }
 
   inline void Initialize(const Eigen::Isometry3d& origin_transform, const double cell_x_size, const double cell_y_size,
-- 
2.43.0


From df371794b15c2eb1d360fcc02cd2c750824b554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 62/78] fix: points just below a voxel grid are not in its
 first cells

---
 include/arc_utilities/voxel_grid.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 64f13f7..238a155 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -757,23 +757,23 @@ class VoxelGrid {
   }
 
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(z * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)floor(x * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)floor(y * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)floor(z * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From bf175ac7e772cc64c6397713bb7521b96ea60276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 63/78] fix: SetChunkValue by coordinates sets the whole chunk

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index abe0905..8d0b5e7 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -538,12 +538,12 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, const T& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, T&& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline CHUNK_REGION GetContainingChunkRegion(const Eigen::Vector3d& grid_location) const {
-- 
2.43.0


From 217d771f9437ffe1b7db2b77b97c3c8ad22d7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 64/78] fix: a voxel grid can be reset to the value of one of
 its cells

---
 include/arc_utilities/voxel_grid.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 238a155..68a3c4b 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -524,7 +524,11 @@ class VoxelGrid {
 
   inline void ResetWithDefault() { SetContents(default_value_); }
 
-  inline void ResetWithNewValue(const T& new_value) { SetContents(new_value); }
+  inline void ResetWithNewValue(const T& new_value) {
+    // The new value may be one of our own cells, which do not survive the reset
+    const T value = new_value;
+    SetContents(value);
+  }
 
   inline void ResetWithNewDefault(const T& new_default) {
     default_value_ = new_default;
-- 
2.43.0


From 71fb3f20701b20c8a6f4d20a88828d9f6361279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 65/78] fix: connected components mark the node they start from

---
 include/arc_utilities/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index e2209ba..7508572 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -276,6 +276,7 @@ class Graph {
     // avoid duplication, unlike what is used in CollisionMapGrid::MarkConnectedComponent
     std::queue<int64_t> working_queue;
     working_queue.push(starting_node_idx);
+    components[starting_node_idx] = component_id;
     size_t num_marked = 1;
 
     while (working_queue.size() > 0) {
-- 
2.43.0


From adef995d0133f1faeceeb93b88d9b381724c8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 66/78] fix: a failed addEdgeBetweenNodes leaves no half edge

---
 include/arc_utilities/graph.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index 7508572..c1b5a15 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -482,7 +482,13 @@ class Graph {
     }
     const GraphEdge new_edge(from_index, to_index, edge_weight);
     from_node.addOutEdge(new_edge);
-    to_node.addInEdge(new_edge);
+    try {
+      to_node.addInEdge(new_edge);
+    } catch (...) {
+      // Do not leave an edge that is only known at one end
+      from_node.getOutEdges().pop_back();
+      throw;
+    }
     return from_node.getEdgeTo(to_index);
   }
 
-- 
2.43.0


From 36f2137c10cef3fb25a8eee8cba632682683cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 67/78] fix: addEdgeBetweenNodes returns the edge it added

---
 include/arc_utilities/graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index c1b5a15..733e2cd 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -489,7 +489,8 @@ class Graph {
       from_node.getOutEdges().pop_back();
       throw;
     }
-    return from_node.getEdgeTo(to_index);
+    // With parallel edges, getEdgeTo would find the first one
+    return from_node.getOutEdges().back();
   }
 
   std::pair<const GraphEdge, const GraphEdge> addEdgesBetweenNodes(const int64_t first_index,
-- 
2.43.0


From 88b6572dc001ff3b7195cdba4b235d91e602f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 68/78] fix: addEdgesBetweenNodes adds both edges or none

---
 include/arc_utilities/graph.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index 733e2cd..1f299d0 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -497,8 +497,15 @@ class Graph {
                                                                    const int64_t second_index,
                                                                    const double edge_weight) {
     GraphEdge& e1 = addEdgeBetweenNodes(first_index, second_index, edge_weight);
-    GraphEdge& e2 = addEdgeBetweenNodes(second_index, first_index, edge_weight);
-    return std::make_pair(e1, e2);
+    try {
+      GraphEdge& e2 = addEdgeBetweenNodes(second_index, first_index, edge_weight);
+      return std::make_pair(e1, e2);
+    } catch (...) {
+      // Add both edges or none
+      getNode(first_index).getOutEdges().pop_back();
+      getNode(second_index).getInEdges().pop_back();
+      throw;
+    }
   }
 
   /**
-- 
2.43.0


From d5b2c7a3a7b720c205725ec72145dbe07531cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 69/78] fix: Dijkstra results can be stored

---
 include/arc_utilities/dijkstras.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/arc_utilities/dijkstras.hpp b/include/arc_utilities/dijkstras.hpp
index 8295751..355f144 100644
--- a/include/arc_utilities/dijkstras.hpp
+++ b/include/arc_utilities/dijkstras.hpp
@@ -94,15 +94,11 @@ class SimpleDijkstrasAlgorithm {
       const std::function<uint64_t(const NodeValueType&, std::vector<uint8_t>&)>& value_serializer) {
     const uint64_t start_buffer_size = buffer.size();
     // Serialize the graph
-    result.first.SerializeSelf(buffer, value_serializer);
+    result.first.serializeSelf(buffer, value_serializer);
     // Serialize the previous index
-    const auto index_serializer =
-        std::bind(arc_utilities::SerializeFixedSizePOD<int64_t>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.first, index_serializer);
+    arc_utilities::SerializeVector<int64_t>(result.second.first, buffer, arc_utilities::SerializeFixedSizePOD<int64_t>);
     // Serialze the distances
-    const auto distance_serializer =
-        std::bind(arc_utilities::SerializeFixedSizePOD<double>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.second, distance_serializer);
+    arc_utilities::SerializeVector<double>(result.second.second, buffer, arc_utilities::SerializeFixedSizePOD<double>);
     // Figure out how many bytes were written
     const uint64_t end_buffer_size = buffer.size();
     const uint64_t bytes_written = end_buffer_size - start_buffer_size;
-- 
2.43.0


From 359b81905565c3eb510bc8b6b209e427b0bfc8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 70/78] fix: strings of char can be serialised in network order

---
 include/arc_utilities/serialization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/serialization.hpp b/include/arc_utilities/serialization.hpp
index f512686..883e9bc 100644
--- a/include/arc_utilities/serialization.hpp
+++ b/include/arc_utilities/serialization.hpp
@@ -348,7 +348,7 @@ inline const std::pair<std::pair<First, Second>, uint64_t> DeserializePair(
 
 template <typename T>
 inline uint64_t SerializeNetworkFixedSizePOD(const T& item_to_serialize, std::vector<uint8_t>& buffer) {
-  static_assert((std::is_same<T, uint8_t>::value || std::is_same<T, uint16_t>::value ||
+  static_assert((std::is_same<T, char>::value || std::is_same<T, uint8_t>::value || std::is_same<T, uint16_t>::value ||
                  std::is_same<T, uint32_t>::value || std::is_same<T, uint64_t>::value ||
                  std::is_same<T, int8_t>::value || std::is_same<T, int16_t>::value || std::is_same<T, int32_t>::value ||
                  std::is_same<T, int64_t>::value || std::is_same<T, float>::value || std::is_same<T, double>::value),
@@ -386,7 +386,7 @@ inline uint64_t SerializeNetworkFixedSizePOD(const T& item_to_serialize, std::ve
 template <typename T>
 inline std::pair<T, uint64_t> DeserializeNetworkFixedSizePOD(const std::vector<uint8_t>& buffer,
                                                              const uint64_t current) {
-  static_assert((std::is_same<T, uint8_t>::value || std::is_same<T, uint16_t>::value ||
+  static_assert((std::is_same<T, char>::value || std::is_same<T, uint8_t>::value || std::is_same<T, uint16_t>::value ||
                  std::is_same<T, uint32_t>::value || std::is_same<T, uint64_t>::value ||
                  std::is_same<T, int8_t>::value || std::is_same<T, int16_t>::value || std::is_same<T, int32_t>::value ||
                  std::is_same<T, int64_t>::value || std::is_same<T, float>::value || std::is_same<T, double>::value),
-- 
2.43.0


From e574ad3cb4e7a73df498b0c976adbe72223c9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 71/78] fix: base64 text with characters above 127 is decoded
 inside the table

---
 src/arc_utilities/base64_helpers.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/base64_helpers.cpp b/src/arc_utilities/base64_helpers.cpp
index 90d0f82..5ece9db 100644
--- a/src/arc_utilities/base64_helpers.cpp
+++ b/src/arc_utilities/base64_helpers.cpp
@@ -24,23 +24,26 @@ static const std::array<int32_t, 256> B64IndexTable = {
     10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 0,  0,  0,  0,  63, 0,  26, 27, 28,
     29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51};
 
+// char may be signed: damaged text must not index outside of the table
+static int32_t IndexOf(const char c) { return B64IndexTable[(uint8_t)c]; }
+
 std::vector<uint8_t> Decode(const std::string& encoded) {
   const size_t encoded_length = encoded.size();
   const size_t pad = encoded_length > 0 && (encoded_length % 4 || encoded[encoded_length - 1] == '=');
   const size_t L = ((encoded_length + 3) / 4 - pad) * 4;
   std::vector<uint8_t> buffer(L / 4 * 3 + pad, 0x00);
   for (size_t i = 0, j = 0; i < L; i += 4) {
-    const int32_t n = B64IndexTable[encoded[i]] << 18 | B64IndexTable[encoded[i + 1]] << 12 |
-                      B64IndexTable[encoded[i + 2]] << 6 | B64IndexTable[encoded[i + 3]];
+    const int32_t n = IndexOf(encoded[i]) << 18 | IndexOf(encoded[i + 1]) << 12 | IndexOf(encoded[i + 2]) << 6 |
+                      IndexOf(encoded[i + 3]);
     buffer[j++] = (uint8_t)(n >> 16);
     buffer[j++] = (uint8_t)(n >> 8 & 0xFF);
     buffer[j++] = (uint8_t)(n & 0xFF);
   }
   if (pad > 0) {
-    int32_t n = B64IndexTable[encoded[L]] << 18 | B64IndexTable[encoded[L + 1]] << 12;
+    int32_t n = IndexOf(encoded[L]) << 18 | IndexOf(encoded[L + 1]) << 12;
     buffer[buffer.size() - 1] = (uint8_t)(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=') {
-      n |= B64IndexTable[encoded[L + 2]] << 6;
+      n |= IndexOf(encoded[L + 2]) << 6;
       buffer.push_back((uint8_t)(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From c4a0b991d04959f9a606f18996b0e7b042e28898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 72/78] fix: an empty Eigen value at the end of a buffer is not
 read past the end

---
 include/arc_utilities/serialization_eigen.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/arc_utilities/serialization_eigen.hpp b/include/arc_utilities/serialization_eigen.hpp
index dcfe645..6f59705 100644
--- a/include/arc_utilities/serialization_eigen.hpp
+++ b/include/arc_utilities/serialization_eigen.hpp
@@ -116,7 +116,7 @@ inline std::pair<Eigen::VectorXd, uint64_t> DeserializeEigen<Eigen::VectorXd>(co
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + sizeof(size_header)], (serialized_size - sizeof(size_header)));
+  memcpy(temp_value.data(), buffer.data() + current + sizeof(size_header), (serialized_size - sizeof(size_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -136,7 +136,7 @@ inline std::pair<Eigen::MatrixXd, uint64_t> DeserializeEigen<Eigen::MatrixXd>(co
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + 2 * sizeof(rows_header)], (serialized_size - 2 * sizeof(rows_header)));
+  memcpy(temp_value.data(), buffer.data() + current + 2 * sizeof(rows_header), (serialized_size - 2 * sizeof(rows_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -154,7 +154,7 @@ inline std::pair<Eigen::Matrix3Xd, uint64_t> DeserializeEigen<Eigen::Matrix3Xd>(
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + sizeof(cols_header)], (serialized_size - sizeof(cols_header)));
+  memcpy(temp_value.data(), buffer.data() + current + sizeof(cols_header), (serialized_size - sizeof(cols_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -172,7 +172,7 @@ inline std::pair<Eigen::Matrix3Xf, uint64_t> DeserializeEigen<Eigen::Matrix3Xf>(
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + sizeof(cols_header)], (serialized_size - sizeof(cols_header)));
+  memcpy(temp_value.data(), buffer.data() + current + sizeof(cols_header), (serialized_size - sizeof(cols_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -192,7 +192,7 @@ inline std::pair<Eigen::MatrixXf, uint64_t> DeserializeEigen<Eigen::MatrixXf>(co
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + 2 * sizeof(rows_header)], (serialized_size - 2 * sizeof(rows_header)));
+  memcpy(temp_value.data(), buffer.data() + current + 2 * sizeof(rows_header), (serialized_size - 2 * sizeof(rows_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
-- 
2.43.0


From 4f08734a8d31c9e0e4de0f3a99c4e754b5db9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 73/78] fix: wrapping a ROS message does not read past its
 buffer

---
 include/arc_utilities/serialization_ros.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/serialization_ros.hpp b/include/arc_utilities/serialization_ros.hpp
index abfdfd2..ef450cf 100644
--- a/include/arc_utilities/serialization_ros.hpp
+++ b/include/arc_utilities/serialization_ros.hpp
@@ -201,8 +201,10 @@ inline std::pair<geometry_msgs::TransformStamped, uint64_t> DeserializeTransform
 template <typename MessageType>
 inline uint64_t RosMessageSerializationWrapper(const MessageType& message, std::vector<uint8_t>& buffer) {
   const ros::SerializedMessage serialized_message = ros::serialization::serializeMessage(message);
-  buffer.insert(buffer.end(), serialized_message.message_start,
-                serialized_message.message_start + serialized_message.num_bytes);
+  // num_bytes also counts the length marker in front of message_start: the message is followed by as many zeros instead
+  const uint8_t* const message_end = serialized_message.buf.get() + serialized_message.num_bytes;
+  buffer.insert(buffer.end(), (const uint8_t*)serialized_message.message_start, message_end);
+  buffer.insert(buffer.end(), (size_t)(serialized_message.message_start - serialized_message.buf.get()), 0x00);
   return serialized_message.num_bytes;
 }
 
@@ -212,7 +214,7 @@ inline std::pair<MessageType, uint64_t> RosMessageDeserializationWrapper(const s
   // Convert the input buffer into the ROS/Boost format
   const auto size_left = buffer.size() - current;
   boost::shared_array<uint8_t> boost_buffer(new uint8_t[size_left]);
-  std::memcpy(boost_buffer.get(), &buffer[current], size_left);
+  std::memcpy(boost_buffer.get(), buffer.data() + current, size_left);
   const ros::SerializedMessage serialize_message(boost_buffer, size_left);
 
   // Perform the actual deserialization
-- 
2.43.0


From 7efe1304523d43f2e36e9d24de3da15842ebad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 74/78] fix: texts that begin with a dash are spoken

---
 scripts/tts_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tts_node.py b/scripts/tts_node.py
index 088d345..8947906 100755
--- a/scripts/tts_node.py
+++ b/scripts/tts_node.py
@@ -6,7 +6,7 @@ from std_msgs.msg import String
 
 
 def cb(msg: String):
-    args = ["espeak", msg.data]
+    args = ["espeak", "--", msg.data]  # the text may begin with a dash
     subprocess.run(args)
 
 
-- 
2.43.0


From 01637997ff498458a923f0324c107825299dad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 75/78] fix: a failed copy does not leave a Maybe with a value
 it was never given

---
 include/arc_utilities/maybe.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/arc_utilities/maybe.hpp b/include/arc_utilities/maybe.hpp
index 31722c2..a06e968 100644
--- a/include/arc_utilities/maybe.hpp
+++ b/include/arc_utilities/maybe.hpp
@@ -23,15 +23,16 @@ namespace Maybe {
 template <typename T>
 class Maybe {
  protected:
-  bool maybe_;
+  // Assigned in this order, also by the implicit operators: there is no value before it has been copied
   T value_;
+  bool maybe_;
 
  public:
   Maybe() : maybe_(false) {}
 
-  Maybe(const T& value) : maybe_(true), value_(value) {}
+  Maybe(const T& value) : value_(value), maybe_(true) {}
 
-  Maybe(T&& value) : maybe_(true), value_(value) {}
+  Maybe(T&& value) : value_(value), maybe_(true) {}
 
   bool Valid() const { return maybe_; }
 
@@ -50,24 +51,24 @@ class Maybe {
   }
 
   void Set(const T& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
   }
 
   void Set(T&& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
   }
 
   Maybe& operator=(const T& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
     return *this;
   }
 
   Maybe& operator=(T&& value) {
-    maybe_ = true;
     value_ = value;
+    maybe_ = true;
     return *this;
   }
 };
-- 
2.43.0


From 183b3054672c3d84699388cba1e65c3cd7e00f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 76/78] fix: upsampling a part of a path never returns the
 whole path

---
 include/arc_utilities/path_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/path_utils.hpp b/include/arc_utilities/path_utils.hpp
index b31fa13..f38181c 100644
--- a/include/arc_utilities/path_utils.hpp
+++ b/include/arc_utilities/path_utils.hpp
@@ -167,7 +167,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
 
   // Return early with no message if the number of points already matches
   if (end_ind - start_ind == num_points) {
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   }
   // Abort with a warning if the number of points is already too many
   else if (end_ind - start_ind > num_points) {
@@ -175,7 +175,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
                  "number of points\n"
               << "Start ind: " << start_ind << "    End ind: " << end_ind << "    Num points: " << num_points
               << std::endl;
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   } else {
     const ssize_t num_segments = end_ind - start_ind - 1;
     assert(num_segments > 0);
-- 
2.43.0


From b338d833412a312d2f9957cc4b93c6c026f93371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 77/78] fix: trajectories with fewer or more joints are not
 appended

---
 src/arc_utilities/trajectory_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index f8feefd..ed6f702 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -7,8 +7,7 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
   // first check they have the same joint names
   if (trajectory1.joint_names.empty()) {
     trajectory1.joint_names = trajectory2.joint_names;
-  } else if (not std::equal(trajectory1.joint_names.cbegin(), trajectory1.joint_names.cend(),
-                            trajectory2.joint_names.cbegin())) {
+  } else if (trajectory1.joint_names != trajectory2.joint_names) {
     ROS_ERROR_STREAM("Tried to append trajectory but the joint names differ");
     ROS_ERROR_STREAM("joint 1 names:");
     for (auto const &name1 : trajectory1.joint_names) {
-- 
2.43.0


From aab426b954d55adad30ea91febc03c5e92e34ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 78/78] fix: a failed append leaves a trajectory as it was, and
 appending to itself works

---
 src/arc_utilities/trajectory_utils.cpp | 27 ++++++++++++--------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index ed6f702..378b45f 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -5,9 +5,7 @@ namespace trajectory_utils {
 
 void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::JointTrajectory const &trajectory2) {
   // first check they have the same joint names
-  if (trajectory1.joint_names.empty()) {
-    trajectory1.joint_names = trajectory2.joint_names;
-  } else if (trajectory1.joint_names != trajectory2.joint_names) {
+  if (not trajectory1.joint_names.empty() and trajectory1.joint_names != trajectory2.joint_names) {
     ROS_ERROR_STREAM("Tried to append trajectory but the joint names differ");
     ROS_ERROR_STREAM("joint 1 names:");
     for (auto const &name1 : trajectory1.joint_names) {
@@ -20,21 +18,20 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
     throw std::runtime_error("Tried to append trajectory but the joint names differ");
   }
 
-  if (trajectory1.header.frame_id.empty()) {
-    trajectory1.header.frame_id = trajectory2.header.frame_id;
-  }
+  // Everything that can fail happens on copies, so that a failure leaves trajectory1 as it was
+  auto joint_names = trajectory1.joint_names.empty() ? trajectory2.joint_names : trajectory1.joint_names;
+  auto frame_id = trajectory1.header.frame_id.empty() ? trajectory2.header.frame_id : trajectory1.header.frame_id;
+  auto points = trajectory1.points;
 
-  auto const last_trajectory1_time = [trajectory1]() {
-    if (not trajectory1.points.empty()) {
-      return trajectory1.points.back().time_from_start;
-    }
-    return ros::Duration(0);
-  }();
+  auto const last_trajectory1_time = points.empty() ? ros::Duration(0) : points.back().time_from_start;
   for (auto const &point2 : trajectory2.points) {
-    auto point2_retimed = point2;
-    point2_retimed.time_from_start = last_trajectory1_time + point2.time_from_start;
-    trajectory1.points.emplace_back(point2_retimed);
+    points.emplace_back(point2);
+    points.back().time_from_start = last_trajectory1_time + point2.time_from_start;
   }
+
+  trajectory1.joint_names.swap(joint_names);
+  trajectory1.header.frame_id.swap(frame_id);
+  trajectory1.points.swap(points);
 }
 
 }  // namespace trajectory_utils
\ No newline at end of file
-- 
2.43.0

