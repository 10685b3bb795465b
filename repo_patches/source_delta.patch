From 7ac529cc11ad7a710baffa2545e1f0eadfb1797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 01/36] fix: do not lose requests made while a trajectory is
 being generated

---
 src/dynamic_trajectory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..3deee8f 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -240,13 +240,14 @@ namespace dynamic_traj_generator
     {
       if (generate_new_traj_ && checkIfTrajectoryCanBeGenerated())
       {
+        computing_new_trajectory_ = true;
         next_trajectory_waypoint_ = generateWaypointsForTheNextTrajectory();
         if (next_trajectory_waypoint_.size() == 0)
         // ||
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
+          computing_new_trajectory_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -274,7 +275,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -580,6 +580,8 @@ namespace dynamic_traj_generator
   {
     DYNAMIC_LOG("Generating waypoints for the next trajectory");
     const std::lock_guard<std::mutex> lock(todo_mutex);
+    // every request made up to now is handled below; later ones set the flag again
+    generate_new_traj_ = false;
     DynamicWaypoint::Deque next_trajectory_waypoints;
     if (waypoints_to_be_set_.size() == 0)
     {
@@ -676,7 +678,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From 0995fea9e5e05ad01596906e4255cd029158a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 02/36] fix: a modification without regeneration must not
 cancel a pending regeneration

---
 src/dynamic_trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 3deee8f..d3ac2e8 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,7 +98,9 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    if (generate_new_traj) {
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
-- 
2.43.0


From e5657628aa34bb4cc758c3c05e2228e9caef0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 03/36] fix: wait for a running computation before destroying
 what it uses

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..ac088ad 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,9 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    if (future_traj_.valid()) {
+      future_traj_.wait();  // the computation uses this object
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From 12dfbaf2316655dac730110394fef15ede057ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 04/36] fix: a waypoint reached at the last evaluated time has
 been passed

---
 src/dynamic_trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index d3ac2e8..943693c 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -566,7 +566,7 @@ namespace dynamic_traj_generator
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
-      if (it->getTime() < last_t_eval) // && it->getTime() != 0.0f)
+      if (it->getTime() <= last_t_eval) // && it->getTime() != 0.0f)
       {
         DYNAMIC_LOG("Removing waypoint ");
         it = waypoints.erase(it);
-- 
2.43.0


From e63bd973b2a28154ec8e8afa722b772f824c523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 05/36] fix: read and clear the regeneration notice atomically

---
 src/dynamic_trajectory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 943693c..bd57b82 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -212,9 +212,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
-- 
2.43.0


From 67039024924267570d0feaf79a98514167c1fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 06/36] fix: second derivative of the Gaussian modifier

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..e9ae819 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From ce4a9e9b50d3c03995f9e44ed1d180f94ff1cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 07/36] fix: serialise the consumers that may install a new
 trajectory

---
 src/dynamic_trajectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index bd57b82..a7f49b9 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -119,6 +119,7 @@ namespace dynamic_traj_generator
   {
     // if (!checkIfTrajectoryIsAlreadyGenerated()) return false;
     // DYNAMIC_LOG("Evaluating trajectory");
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     checkTrajectoryGenerated();
 
     double global_time = t;
@@ -161,6 +162,7 @@ namespace dynamic_traj_generator
 
   double DynamicTrajectory::getMaxTime()
   {
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     if (!checkIfTrajectoryIsAlreadyGenerated())
     {
       waitUntilTrajectoryIsGenerated();
@@ -170,6 +172,7 @@ namespace dynamic_traj_generator
 
   double DynamicTrajectory::getMinTime()
   {
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     if (!checkIfTrajectoryIsAlreadyGenerated())
     {
       waitUntilTrajectoryIsGenerated();
@@ -179,6 +182,7 @@ namespace dynamic_traj_generator
 
   DynamicWaypoint::Deque DynamicTrajectory::getDynamicWaypoints()
   {
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     checkTrajectoryGenerated();
     std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     return dynamic_waypoints_;
-- 
2.43.0


From 973442ae26365102b18fb81576555011e989282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 08/36] fix: security zone must cover what the stitching
 horizon removes

---
 src/dynamic_trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index a7f49b9..97f2f0f 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -705,12 +705,13 @@ namespace dynamic_traj_generator
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
     double last_t_eval = parameters_.last_global_time_evaluated;
+    double t_offset = parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
       if (waypoint.getName() != "" && waypoint.getTime() > last_t_eval)
       {
-        if (waypoint.getTime() - last_t_eval > SECURITY_TIME_BEFORE_WAYPOINT)
+        if (waypoint.getTime() - (last_t_eval + t_offset) > SECURITY_TIME_BEFORE_WAYPOINT)
         {
           return false;
         }
-- 
2.43.0


From eaf277c3a72ea8ff02c33861e44f795121fa0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 09/36] fix: apply modifications to waypoints that are still
 waiting to be planned

---
 src/dynamic_trajectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 97f2f0f..28bfa3c 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -288,6 +288,10 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
+          for (auto *pending : {&waypoints_to_be_set_, &waypoints_to_be_added_})
+            for (auto &waypoint : *pending)
+              if (modification.first != "" && waypoint.getName() == modification.first)
+                waypoint.resetWaypoint(modification.second);
         }
         waypoints_to_be_modified_.clear();
       }
-- 
2.43.0


From effc2625aef1e21b92d5e3b471840804636ced95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 10/36] fix: installing a trajectory must not move the
 evaluation clock back

---
 src/dynamic_trajectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 28bfa3c..34908e4 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -409,6 +409,10 @@ namespace dynamic_traj_generator
     }
 
     parameters_mutex_.lock();
+    // the evaluation clock may have advanced since the generation was started
+    new_parameters_.last_global_time_evaluated = parameters_.last_global_time_evaluated;
+    new_parameters_.last_local_time_evaluated = new_parameters_.last_global_time_evaluated -
+                                                new_parameters_.global_time_last_trajectory_generated;
     parameters_ = new_parameters_;
     parameters_mutex_.unlock();
 
-- 
2.43.0


From 595960a1da468887f45412cbfdde50e1fb7e4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 11/36] fix: coincident waypoints must not yield a segment of
 zero duration

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index a46cdaf..0c35a64 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -258,6 +258,9 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
   CHECK_GE(vertices.size(), 2);
   std::vector<double> segment_times;
   segment_times.reserve(vertices.size() - 1);
+
+  constexpr double kMinSegmentTime = 0.1;
+
   for (size_t i = 0; i < vertices.size() - 1; ++i) {
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
@@ -283,6 +286,7 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
     } else {
       t = distance / v_max;
     }
+    t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
   return segment_times;
-- 
2.43.0


From 6957201dd9d3300bb621684946971a31f45081af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 12/36] fix: keep the segment times when a single dimension is
 extracted

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 22d6dd7..b39dc41 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -150,6 +150,7 @@ Trajectory Trajectory::getTrajectoryWithSingleDimension(int dimension) const {
   for (size_t k = 0; k < segments_.size(); ++k) {
     Segment segment(N_, 1);
     segment[0] = (segments_[k])[dimension];
+    segment.setTime(segments_[k].getTime());
     segments.push_back(segment);
   }
 
-- 
2.43.0


From 7fa841acc4b6b2f180cc751b01b7395b128b9de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 13/36] fix: evaluateRange must report and respect the
 requested range

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index b39dc41..5213689 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -112,10 +112,14 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
     LOG(ERROR) << "Start time out of range of the trajectory!";
     return;
   }
+  if (i >= segments_.size()) {
+    return;  // t_start is the end of the trajectory: the range is empty.
+  }
 
   // Go back to the start of this segment.
   accumulated_time -= segments_[i].getTime();
   double time_in_segment = t_start - accumulated_time;
+  accumulated_time = t_start;
 
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
-- 
2.43.0


From b4be7e4c43723501e2e73e7b2569c62afddd04a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 14/36] fix: append the time-scaled polynomials when the orders
 differ, too

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8aa578e..d6c3a32 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -243,12 +243,12 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     for (int i = 0; i < new_D; i++) {
       Polynomial polynomial_to_append(new_N);
       if (i < D_) {
-        if (!polynomials_[i].getPolynomialWithAppendedCoefficients(
+        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
       } else {
-        if (!segment_to_append[i - D_].getPolynomialWithAppendedCoefficients(
+        if (!segment_to_append_temp[i - D_].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
-- 
2.43.0


From 0d807e03b57aefbd847637b8fe92c09081e95d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 15/36] fix: reject trajectories whose declared and actual
 sizes differ

---
 subpackages/mav_trajectory_generation/src/io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..87bf4e1 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -89,10 +89,13 @@ bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
 
   *segment =
       Segment(node[kNumCoefficientsKey].as<int>(), node[kDimKey].as<int>());
+  if (node[kCoefficientsKey].size() != static_cast<size_t>(segment->D()))
+    return false;
 
   for (size_t i = 0; i < segment->D(); ++i) {
     Eigen::VectorXd coeffs;
     if (!coefficientsFromYaml(node[kCoefficientsKey][i], &coeffs)) return false;
+    if (coeffs.size() != segment->N()) return false;
     (*segment)[i] = coeffs;
   }
 
@@ -118,6 +121,12 @@ bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
 
   Segment::Vector segments;
   if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
+  if (segments.empty()) return false;
+  for (const Segment& segment : segments) {
+    if (segment.N() != segments.front().N() ||
+        segment.D() != segments.front().D())
+      return false;
+  }
   trajectory->setSegments(segments);
 
   return true;
-- 
2.43.0


From 1fe947a0356f0998fea54255777289ed7d6cdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 16/36] fix: a segment time must survive the conversion to
 nanoseconds and back

---
 .../include/mav_trajectory_generation/segment.h                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
index ccd5645..05d2b0b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
@@ -24,6 +24,7 @@
 #include <glog/logging.h>
 #include <Eigen/Core>
 #include <chrono>
+#include <cmath>
 #include <map>
 #include <vector>
 
@@ -56,7 +57,7 @@ class Segment {
   int N() const { return N_; }
   double getTime() const { return time_; }
   uint64_t getTimeNSec() const {
-    return static_cast<uint64_t>(kNumNSecPerSec * time_);
+    return static_cast<uint64_t>(std::llround(kNumNSecPerSec * time_));
   }
 
   void setTime(double time_sec) { time_ = time_sec; }
-- 
2.43.0


From 47dc3729bed04ff2900a3201a102db8553ef3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 17/36] fix: loading an unreadable trajectory file returns
 false instead of aborting

---
 .../include/mav_trajectory_generation/io.h      | 17 ++++++++++++++---
 .../mav_trajectory_generation/src/io.cpp        | 10 +---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..69818dc 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -37,6 +37,18 @@ bool coefficientsFromYaml(const YAML::Node& node,
                           Eigen::VectorXd* coefficients);
 bool segmentFromYaml(const YAML::Node& node, Segment* segment);
 bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments);
+// Returns false if the segments can not form a trajectory.
+inline bool trajectoryFromSegments(const Segment::Vector& segments,
+                                   Trajectory* trajectory) {
+  if (segments.empty()) return false;
+  for (const Segment& segment : segments) {
+    if (segment.N() != segments.front().N() ||
+        segment.D() != segments.front().D())
+      return false;
+  }
+  trajectory->setSegments(segments);
+  return true;
+}
 bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory);
 
 bool segmentsToFile(const std::string& filename,
@@ -57,9 +69,8 @@ inline bool trajectoryFromFile(
     const std::string& filename,
     mav_trajectory_generation::Trajectory* trajectory) {
   mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
-  trajectory->setSegments(segments);
-  return success;
+  if (!segmentsFromFile(filename, &segments)) return false;
+  return trajectoryFromSegments(segments, trajectory);
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 87bf4e1..a9fc9ff 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -121,15 +121,7 @@ bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
 
   Segment::Vector segments;
   if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
-  if (segments.empty()) return false;
-  for (const Segment& segment : segments) {
-    if (segment.N() != segments.front().N() ||
-        segment.D() != segments.front().D())
-      return false;
-  }
-  trajectory->setSegments(segments);
-
-  return true;
+  return trajectoryFromSegments(segments, trajectory);
 }
 
 bool segmentsToFile(
-- 
2.43.0


From 09dee700cfe3f21e613346bc99a63d611053ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 18/36] fix: a move must not apply to a waypoint that is
 appended later

---
 src/dynamic_trajectory.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 34908e4..2c36a54 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,6 +98,14 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
+    // waypoints that are still waiting to be planned are moved at once, later ones are not meant
+    for (auto * pending : {&waypoints_to_be_set_, &waypoints_to_be_added_}) {
+      for (auto & waypoint : *pending) {
+        if (name != "" && waypoint.getName() == name) {
+          waypoint.resetWaypoint(position);
+        }
+      }
+    }
     if (generate_new_traj) {
       generate_new_traj_ = true;
     }
@@ -288,10 +296,6 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
-          for (auto *pending : {&waypoints_to_be_set_, &waypoints_to_be_added_})
-            for (auto &waypoint : *pending)
-              if (modification.first != "" && waypoint.getName() == modification.first)
-                waypoint.resetWaypoint(modification.second);
         }
         waypoints_to_be_modified_.clear();
       }
@@ -611,14 +615,14 @@ namespace dynamic_traj_generator
       for (auto &waypoint : waypoints_to_be_set_)
         next_trajectory_waypoints.emplace_back(waypoint);
     }
-    for (auto &waypoint : waypoints_to_be_added_)
-    {
-      next_trajectory_waypoints.emplace_back(waypoint);
-    }
     for (auto &waypoint : waypoints_to_be_modified_)
     {
       resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
     }
+    for (auto &waypoint : waypoints_to_be_added_)
+    {
+      next_trajectory_waypoints.emplace_back(waypoint);
+    }
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
-- 
2.43.0


From 1ec99852fa93aec173dc352c8a8056de9d5d04bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 19/36] fix: stitching must not drop waypoints beyond its last
 point

---
 src/dynamic_trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 2c36a54..f994e1e 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -530,7 +530,8 @@ namespace dynamic_traj_generator
       //                 computeSecurityTime(n_waypoints, new_parameters_.algorithm_time_constant);
       //
       // local_eval_t += 0.5f;  // FIXME: hardcoded
-      local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
+      if (i_waypoints_appended < N_WAYPOINTS_TO_APPEND - 1)
+        local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
     }
     // append the rest of the waypoints
 
-- 
2.43.0


From b10fabd8627ff84f3572c8b1de89f1bdad9ae92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 20/36] fix: the security zone is decided with the state the
 stitching starts from

---
 src/dynamic_trajectory.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index f994e1e..67e24cc 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -262,12 +262,6 @@ namespace dynamic_traj_generator
           computing_new_trajectory_ = false;
           continue;
         }
-        parameters_mutex_.lock();
-        new_parameters_ = parameters_;
-        new_parameters_.global_time_last_trajectory_generated =
-            parameters_.last_global_time_evaluated;
-        parameters_mutex_.unlock();
-
         DYNAMIC_LOG("generate new trajectory");
         time_measure_mutex_.lock();
         inital_time_traj_generation_ = std::chrono::steady_clock::now();
@@ -717,8 +711,8 @@ namespace dynamic_traj_generator
       return false;
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
-    double t_offset = parameters_.t_offset;
+    double last_t_eval = new_parameters_.last_global_time_evaluated;
+    double t_offset = new_parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
@@ -740,7 +734,14 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::checkIfTrajectoryCanBeGenerated()
   {
-    return !checkInSecurityZone() && !computing_new_trajectory_;
+    if (computing_new_trajectory_)
+      return false;
+    // the new trajectory starts from the state that is found outside the security zone here
+    parameters_mutex_.lock();
+    new_parameters_ = parameters_;
+    new_parameters_.global_time_last_trajectory_generated = parameters_.last_global_time_evaluated;
+    parameters_mutex_.unlock();
+    return !checkInSecurityZone();
   }
 
   void DynamicTrajectory::timeFittingWithVehiclePosition(ThreadSafeTrajectory &traj, const Eigen::Vector3d vehicle_position)
-- 
2.43.0


From 8f7d645159c49fdab21c5f3d3143976cbedebc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 21/36] fix: a locally moved last waypoint is held after the
 end of the trajectory

---
 src/dynamic_trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 67e24cc..adfa201 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -436,13 +436,15 @@ namespace dynamic_traj_generator
     Eigen::Vector3d refs;
     if (local_time < 0.0f)
     {
+      global_time -= local_time;
       local_time = 0.0f;
       DYNAMIC_LOG("[WARN] Time out of bounds");
     }
     if (local_time > traj.getMaxTime())
     {
+      global_time -= local_time - traj.getMaxTime();
       local_time = traj.getMaxTime();
-      // if (order > 0) return Eigen::Vector3d::Zero();
+      if (order > 0) return Eigen::Vector3d::Zero();
     }
 
     refs = traj.evaluate(local_time, order);
-- 
2.43.0


From 48c7c29aa0dec9321fc9233fc56ed6b78cd3e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 22/36] fix: align a new trajectory without the modifications
 of the previous one

---
 src/dynamic_trajectory.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index adfa201..557fbf1 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -755,16 +755,14 @@ namespace dynamic_traj_generator
     const double max_eval_time = 1.5 * TRAJECTORY_COMPUTATION_TIME;
 
     double min_time = 0.0f;
-    double global_time = min_time + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_time, min_time, 0);
+    // the modifications of the waypoints in use belong to the previous trajectory
+    Eigen::Vector3d pos = traj.evaluate(min_time, 0);
 
     double min_distance = (pos - vehicle_position).norm();
 
     for (double t = step; t < max_eval_time; t += step)
     {
-    double global_t = t + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
-      // pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
+      pos = traj.evaluate(std::min(t, traj.getMaxTime()), 0);
       double distance = (pos - vehicle_position).norm();
       if (distance <= min_distance)
       {
-- 
2.43.0


From b5ee8a99801a299b4cf2b30100509a9ccdda217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 23/36] fix: stopping a timer that is not running records
 nothing

---
 subpackages/mav_trajectory_generation/src/timing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 479ad7d..2daec44 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -93,6 +93,7 @@ void Timer::Start() {
 }
 
 void Timer::Stop() {
+  if (!timing_) return;
   std::chrono::time_point<std::chrono::system_clock> now =
       std::chrono::system_clock::now();
   double dt = std::chrono::duration<double>(now - time_).count();
-- 
2.43.0


From 9529e50280d2dc15452c82aeded8d8b60cb24997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 24/36] fix: the maximum of an accumulator starts at the lowest
 value

---
 .../include/mav_trajectory_generation/timing.h                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..651b1cd 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -42,7 +42,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits<T>::max()),
-        max_(std::numeric_limits<T>::min()) {}
+        max_(std::numeric_limits<T>::lowest()) {}
 
   void Add(T sample) {
     if (window_samples_ < N) {
-- 
2.43.0


From b918f82bf4ac85b14227f82519a0fee6f7f2f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 25/36] fix: sampling a range takes the right segment at a
 vertex, like evaluate

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 5213689..fe1e7ac 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -123,7 +123,10 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
 
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
-    if (time_in_segment > segments_[i].getTime()) {
+    // As in evaluate(), a vertex belongs to the segment on its right.
+    if (time_in_segment > segments_[i].getTime() ||
+        (time_in_segment == segments_[i].getTime() &&
+         i + 1 < segments_.size())) {
       time_in_segment = time_in_segment - segments_[i].getTime();
       i++;
       // Make sure we don't access segments that don't exist!
-- 
2.43.0


From b3c1edddeceaa2a528182a6425c1f62d0d1f6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 26/36] fix: an optimizer that is set up again forgets the free
 constraints of the previous problem

---
 .../impl/polynomial_optimization_linear_impl.h                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 4f7c6f9..5e35d23 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -232,6 +232,8 @@ void PolynomialOptimization<_N>::setupConstraintReorderingMatrix() {
 
   for (Eigen::VectorXd& df : fixed_constraints_compact_)
     df.resize(n_fixed_constraints_, Eigen::NoChange);
+  for (Eigen::VectorXd& dp : free_constraints_compact_)
+    dp.setZero(n_free_constraints_);
 
   int row = 0;
   int col = 0;
-- 
2.43.0


From 17b00089e06101771d1b72ff2721078b0da88d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 27/36] fix: extrema of invalid dimensions, derivatives or
 intervals are refused

---
 .../mav_trajectory_generation/src/segment.cpp | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index d6c3a32..5225f2d 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -90,7 +90,21 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   if (dimensions.empty()) {
     LOG(WARNING) << "No dimensions specified." << std::endl;
     return false;
-  } else if (dimensions.size() > 1) {
+  }
+  for (int dim : dimensions) {
+    if (dim < 0 || dim >= D_) {
+      LOG(WARNING) << "Specified dimensions " << dim
+                   << " are out of bounds [0.." << D_ - 1 << "]."
+                   << std::endl;
+      return false;
+    }
+  }
+  if (derivative < 0 || derivative >= N_) {
+    LOG(WARNING) << "Specified derivative " << derivative
+                 << " is out of bounds [0.." << N_ - 1 << "]." << std::endl;
+    return false;
+  }
+  if (dimensions.size() > 1) {
     const int n_d = N_ - derivative;
     const int n_dd = n_d - 1;
     const int convolved_coefficients_length =
@@ -98,12 +112,6 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
     Eigen::VectorXd convolved_coefficients(convolved_coefficients_length);
     convolved_coefficients.setZero();
     for (int dim : dimensions) {
-      if (dim < 0 || dim >= D_) {
-        LOG(WARNING) << "Specified dimensions " << dim
-                     << " are out of bounds [0.." << D_ - 1 << "]."
-                     << std::endl;
-        return false;
-      }
       // Our coefficients are INCREASING, so when you take the derivative,
       // only the lower powers of t have non-zero coefficients.
       // So we take the head.
@@ -140,8 +148,10 @@ bool Segment::computeMinMaxMagnitudeCandidates(
   CHECK_NOTNULL(candidates);
   // Find candidate times (roots + start + end).
   std::vector<double> candidate_times;
-  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end, dimensions,
-                                       &candidate_times);
+  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,
+                                            dimensions, &candidate_times)) {
+    return false;
+  }
 
   // Evaluate candidate times.
   candidates->resize(candidate_times.size());
-- 
2.43.0


From d38dd787416d79fb323fc417514878e37bb218f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 28/36] fix: the magnitude of one dimension is minimal at its
 zero crossings

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 5225f2d..29e293a 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -137,6 +137,15 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
             t_start, t_end, derivative, candidate_times)) {
       return false;
     }
+    // The magnitude is also minimal where the value changes its sign.
+    Eigen::VectorXcd roots;
+    std::vector<double> zeros;
+    if (polynomials_[dimensions[0]].getRoots(derivative, &roots) &&
+        Polynomial::selectMinMaxCandidatesFromRoots(t_start, t_end, roots,
+                                                    &zeros)) {
+      candidate_times->insert(candidate_times->end(), zeros.begin(),
+                              zeros.end());
+    }
   }
   return true;
 }
-- 
2.43.0


From 7dc54e06d57b8dcbe696cf92b5a24a75c7405adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 29/36] fix: malformed trajectory files are refused instead of
 throwing or aborting

---
 .../mav_trajectory_generation/src/io.cpp      | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index a9fc9ff..b43ed11 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -78,7 +78,7 @@ bool coefficientsFromYaml(const YAML::Node& node,
   return true;
 }
 
-bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
+bool segmentFromYaml(const YAML::Node& node, Segment* segment) try {
   CHECK_NOTNULL(segment);
 
   if (!node[kNumCoefficientsKey]) return false;
@@ -87,10 +87,12 @@ bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
   if (!node[kCoefficientsKey]) return false;
   if (!node[kCoefficientsKey].IsSequence()) return false;
 
-  *segment =
-      Segment(node[kNumCoefficientsKey].as<int>(), node[kDimKey].as<int>());
-  if (node[kCoefficientsKey].size() != static_cast<size_t>(segment->D()))
-    return false;
+  const int N = node[kNumCoefficientsKey].as<int>();
+  const int D = node[kDimKey].as<int>();
+  if (N < 1 || D < 1) return false;
+  if (node[kCoefficientsKey].size() != static_cast<size_t>(D)) return false;
+  if (node[kCoefficientsKey][0].size() != static_cast<size_t>(N)) return false;
+  *segment = Segment(N, D);
 
   for (size_t i = 0; i < segment->D(); ++i) {
     Eigen::VectorXd coeffs;
@@ -102,6 +104,8 @@ bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
   segment->setTimeNSec(node[kSegmentTimeKey].as<uint64_t>());
 
   return true;
+} catch (const YAML::Exception&) {
+  return false;  // A part has the wrong type.
 }
 
 bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments) {
@@ -116,12 +120,14 @@ bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments) {
   return true;
 }
 
-bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
+bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) try {
   CHECK_NOTNULL(trajectory);
 
   Segment::Vector segments;
   if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
   return trajectoryFromSegments(segments, trajectory);
+} catch (const YAML::Exception&) {
+  return false;  // A part has the wrong type.
 }
 
 bool segmentsToFile(
@@ -168,7 +174,7 @@ bool segmentsToFile(
 }
 
 bool segmentsFromFile(const std::string& filename,
-                      mav_trajectory_generation::Segment::Vector* segments) {
+                      mav_trajectory_generation::Segment::Vector* segments) try {
   CHECK_NOTNULL(segments);
 
   // Check file exists and is readable.
@@ -190,6 +196,11 @@ bool segmentsFromFile(const std::string& filename,
         // Header.
         int N = segments_yaml[i][kNumCoefficientsKey].as<int>();
         int D = segments_yaml[i][kDimKey].as<int>();
+        if (N < 1 || D < 1 ||
+            segments_yaml[i][kCoefficientsKey].size() != D ||
+            segments_yaml[i][kCoefficientsKey][0].size() != N) {
+          return false;  // Coefficients and header do not coincide.
+        }
         mav_trajectory_generation::Segment segment(N, D);
         uint64_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>();
         segment.setTimeNSec(t);
@@ -217,6 +228,8 @@ bool segmentsFromFile(const std::string& filename,
   }
 
   return true;
+} catch (const YAML::Exception&) {
+  return false;  // Not a YAML file, or a part has the wrong type.
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
-- 
2.43.0


From 79353feb0f7965dfb77dba352733f35d15416829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 30/36] fix: evaluateRange of a reversed range is empty instead
 of throwing

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index fe1e7ac..e22ebfe 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -82,7 +82,9 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
                                int derivative_order,
                                std::vector<Eigen::VectorXd>* result,
                                std::vector<double>* sampling_times) const {
-  const size_t expected_number_of_samples = (t_end - t_start) / dt + 1;
+  // A range that ends before it starts is empty.
+  const size_t expected_number_of_samples =
+      t_end < t_start ? 0 : (t_end - t_start) / dt + 1;
 
   result->clear();
   result->reserve(expected_number_of_samples);
-- 
2.43.0


From dd6d39042399d2688aab66ab277f2822e41460bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 31/36] fix: comparing polynomials of different order aborted

---
 .../include/mav_trajectory_generation/polynomial.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index 6534a6f..a2b505b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -63,7 +63,7 @@ class Polynomial {
   int N() const { return N_; }
 
   inline bool operator==(const Polynomial& rhs) const {
-    return coefficients_ == rhs.coefficients_;
+    return N_ == rhs.N_ && coefficients_ == rhs.coefficients_;
   }
   inline bool operator!=(const Polynomial& rhs) const {
     return !operator==(rhs);
-- 
2.43.0


From 49f58a0a51cb0e2bfb708d80368495884af6fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:11 +0000
Subject: [PATCH 32/36] fix: a bend without extent adds nothing

A move requested at exactly the waypoint's time gave sigma 0, and the
displacement at that time was 0/0.
---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index e9ae819..2a4b5d6 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -48,7 +48,7 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) >= max_reaction_time)
     {
       return 0;
     }
-- 
2.43.0


From 1ae33afdf007757a9016f05cfbd1212b69b309e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 33/36] fix: a reflection is not a rotation matrix

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index be02f20..6c83556 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -178,7 +178,7 @@ inline bool isRotationMatrix(const Eigen::Matrix3d& mat){
     return false;
   }  
   // Check that det(R) = 1
-  if (mat.determinant() - 1.0 > kSmallValueCheck){
+  if (std::abs(mat.determinant() - 1.0) > kSmallValueCheck){
     std::cerr << "[mav_msgs::common] Rotation matrix requirement violated (det(R) = 1)" << std::endl;
     return false;
   }  
-- 
2.43.0


From 02abe730aecaf71d0784445eb05a0853aa7bd961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 34/36] fix: the pitch of a vehicle pointing straight up or
 down is a number

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index 6c83556..bc0edb1 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -145,7 +145,8 @@ inline void getEulerAnglesFromQuaternion(const Eigen::Quaternion<double>& q,
 
     *euler_angles << std::atan2(2.0 * (q.w() * q.x() + q.y() * q.z()),
                            1.0 - 2.0 * (q.x() * q.x() + q.y() * q.y())),
-        std::asin(2.0 * (q.w() * q.y() - q.z() * q.x())),
+        // rounding may lead just beyond a quarter turn
+        std::asin(std::max(-1.0, std::min(1.0, 2.0 * (q.w() * q.y() - q.z() * q.x())))),
         std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()),
               1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z()));
   }
-- 
2.43.0


From a7b8f72a2ecdb2f2b78745f75811f929379eb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 35/36] fix: the rotation vector of a half turn

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index bc0edb1..95ca869 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -234,6 +234,10 @@ inline bool vectorFromRotationMatrix(const Eigen::Matrix3d& mat,
   
   if (phi < kSmallValueCheck){
     *vec = Eigen::Vector3d::Zero();
+  } else if (M_PI - phi < 1.0e-3) {
+    // R - R^T vanishes close to a half turn
+    const Eigen::AngleAxisd rotation(mat);
+    *vec = rotation.angle() * rotation.axis();
   } else{
     Eigen::Matrix3d vec_skew = (mat - mat.transpose()) * phi / (2.0 * std::sin(phi));
     Eigen::Vector3d vec_unskewed;
-- 
2.43.0


From 51736e81ba5a722a11339433a8f53975406a3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:20 +0000
Subject: [PATCH 36/36] fix: a file of sampled states holds every segment, also
 of those shorter than a sample

---
 subpackages/mav_trajectory_generation/src/io.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index b43ed11..bb21a98 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -19,6 +19,8 @@
  */
 
 #include "mav_trajectory_generation/io.h"
+
+#include <algorithm>
 #include "mav_trajectory_generation/trajectory_sampling.h"
 
 #include <yaml-cpp/yaml.h>
@@ -246,7 +248,9 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   // Layout: [t, x, y, z, vx, vy, vz, jx, jy, jz, sx, sy, sz, qw, qx, qy, qz,
   // wx, wy, wz, ax, ay, az, tm]
   const unsigned int dim = 3;
-  Eigen::MatrixXd output(trajectory_points.size(), 8 * dim + 3);
+  // a row per sample, and per segment for the last column
+  Eigen::MatrixXd output(
+      std::max<size_t>(trajectory_points.size(), trajectory.K()), 8 * dim + 3);
   output.setZero();
   for (int i = 0; i < trajectory_points.size(); ++i) {
     const mav_msgs::EigenTrajectoryPoint state = trajectory_points[i];
-- 
2.43.0

