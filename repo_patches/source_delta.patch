From eb21736989d058cd6ecdf42f5eb19869f021e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 01/39] fix: timing maximum of non-positive samples

The running maximum started at the smallest positive value, so the maximum of
samples that are all zero or negative (clock stepping back) was wrong.
---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..e7e7ec1 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
-- 
2.43.0


From f30179cf270b9634b48e9c7e8a3cc01489f00dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 02/39] fix: timing counters overflow after 2^31 samples

The int sample counters overflowed and then indexed the sample window with a
negative number.
---
 msf_timing/include/msf_timing/Timer.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index e7e7ec1..fb221e4 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -60,7 +60,7 @@ class Accumulator {
     }
   }
 
-  int TotalSamples() const {
+  size_t TotalSamples() const {
     return totalsamples_;
   }
 
@@ -73,7 +73,7 @@ class Accumulator {
   }
 
   double RollingMean() const {
-    return window_sum_ / std::min(window_samples_, N);
+    return window_sum_ / WindowSize();
   }
 
   double Max() const {
@@ -90,16 +90,20 @@ class Accumulator {
     }
     double var = 0;
     double mean = RollingMean();
-    for (int i = 0; i < std::min(window_samples_, N); ++i) {
+    for (size_t i = 0; i < WindowSize(); ++i) {
       var += (samples_[i] - mean) * (samples_[i] - mean);
     }
-    var /= std::min(window_samples_, N);
+    var /= WindowSize();
     return var;
   }
 
  private:
-  int window_samples_;
-  int totalsamples_;
+  size_t WindowSize() const {
+    return std::min<size_t>(window_samples_, N);
+  }
+
+  size_t window_samples_;
+  size_t totalsamples_;
   Total window_sum_;
   Total sum_;
   T min_;
-- 
2.43.0


From 7749261fe29f9fe7da1b199906b0030ee6ff8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 03/39] fix: printed durations lose whole minutes

Minutes and hours were cut off a duration although they are printed only when
SM_TIMING_SHOW_MINUTES and SM_TIMING_SHOW_HOURS are set.
---
 msf_timing/src/Timer.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index 7482420..9f057b0 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -160,10 +160,20 @@ double Timing::GetHz(std::string const& tag) {
 }
 
 std::string Timing::SecondsToTimeString(double seconds) {
-  double secs = fmod(seconds, 60);
-  int minutes = (seconds / 60);
+  // Every unit that is not shown separately stays in the next smaller one.
+  double secs = seconds;
+#ifdef SM_TIMING_SHOW_MINUTES
+  int minutes = (secs / 60);
+  secs -= minutes * 60.0;
+#endif
+#ifdef SM_TIMING_SHOW_HOURS
   int hours = (seconds / 3600);
-  minutes = minutes - (hours * 60);
+#ifdef SM_TIMING_SHOW_MINUTES
+  minutes -= hours * 60;
+#else
+  secs -= hours * 3600.0;
+#endif
+#endif
 
   char buffer[256];
   snprintf(buffer, sizeof(buffer),
-- 
2.43.0


From dd7fa56aa0285735b6a2c9de0584bf28b6fb3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:22 +0000
Subject: [PATCH 04/39] fix: sorted container queries before its first element
 are undefined

---
 .../include/msf_core/msf_sortedContainer.h     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..968f4c0 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -106,11 +106,12 @@ class SortedContainer {
   }
 
   /**
-   * \brief Returns the iterator before the beginning of the internal container.
+   * \brief Returns the iterator which signals that there is no element before
+   * the beginning of the internal container. A map iterator must not be
+   * decremented past begin(), so this is the end iterator.
    */
   inline typename ListT::iterator GetIteratorBeforeBegin() {
-    typename ListT::iterator it = stateList.begin();
-    return --it;
+    return stateList.end();
   }
 
   /**
@@ -160,12 +161,16 @@ class SortedContainer {
 
   /**
    * \brief Returns the iterator closest before a specific time instant
+   * or the before-begin iterator if there is no element before this time.
    * \param time The time where we want to get an iterator at.
    * \returns iterator.
    */
   inline typename ListT::iterator GetIteratorClosestBefore(
       const double& statetime) {
     typename ListT::iterator it = stateList.lower_bound(statetime);
+    if (it == stateList.begin()) {
+      return GetIteratorBeforeBegin();
+    }
     --it;
     return it;
   }
@@ -201,14 +206,11 @@ class SortedContainer {
     typename ListT::iterator it_end = GetIteratorEnd();
 
     // If we were asking for some iterator before or at the time at begin()
-    // tauMinus will be one element before begin(), so the best we can do is
-    // to return begin(), which would be closest in that case.
+    // there is no tauMinus, so the best we can do is to return begin(), which
+    // would be closest in that case.
     if (tauMinus == GetIteratorBeforeBegin()) {
       return GetIteratorBegin();
     }
-    if (tauMinus == it_end) {
-      return tauPlus;
-    }
     if (tauPlus == it_end) {
       return tauMinus;
     }
-- 
2.43.0


From 7fdea3ed665881978e396fe68cab95f3c79e9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:22 +0000
Subject: [PATCH 05/39] fix: previous measurement search walks past the first
 measurement

---
 .../msf_core/implementation/msf_core_inl.h     | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..a62d9f6 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -720,22 +720,18 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     double time, int sensorID) {
   typename measurementBufferT::iterator_T it = MeasurementBuffer_
       .GetIteratorAtValue(time);
-  if (it->second->time != time) {
+  if (it == MeasurementBuffer_.GetIteratorEnd() || it->second->time != time) {
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  while (it != MeasurementBuffer_.GetIteratorBegin()) {
     --it;
+    if (it->second->sensorID_ == sensorID) {
+      return it->second;
+    }
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From 558eb8d2e1217b3f71ec3657fee49d8d1314fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:24 +0000
Subject: [PATCH 06/39] fix: powers in the series of the attitude increment

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index a62d9f6..dee578a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -362,10 +362,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaMeanPower = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaMeanPower / div;
+    OmegaMeanPower *= OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0


From ce48500651e96e8dbe7b142194e25107d94ed8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:23 +0000
Subject: [PATCH 07/39] fix: covariances symmetrised in place were not
 symmetric (transpose aliasing)

---
 msf_core/include/msf_core/implementation/msf_core_inl.h     | 2 +-
 .../include/msf_core/implementation/msf_measurement_inl.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index dee578a..7c23bb4 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = (0.5 * (P_core + P_core.transpose())).eval();
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..8db94b8 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = (0.5 * (P + P.transpose())).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = (0.5 * (P + P.transpose())).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P = (0.5 * (state_new->P + state_new->P.transpose())).eval();
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From c73dde7067eb3ae5f510473ada0f7c3113f5d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 08/39] fix: the configured fuzzy tracking threshold was
 ignored

---
 .../msf_core/implementation/msf_measurement_inl.h        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 8db94b8..0f5d808 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -76,7 +76,8 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   // Make sure P stays symmetric.
   P = (0.5 * (P + P.transpose())).eval();
 
-  core.ApplyCorrection(state, correction_);
+  core.ApplyCorrection(state, correction_,
+                       core.GetUserCalc().GetParamFuzzyTrackingThreshold());
 }
 
 template<typename EKFState_T>
@@ -120,7 +121,8 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   // Make sure P stays symmetric.
   P = (0.5 * (P + P.transpose())).eval();
 
-  core.ApplyCorrection(state, correction_);
+  core.ApplyCorrection(state, correction_,
+                       core.GetUserCalc().GetParamFuzzyTrackingThreshold());
 }
 
 template<typename EKFState_T>
@@ -194,7 +196,8 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
   state_new->P = (0.5 * (state_new->P + state_new->P.transpose())).eval();
 
-  core.ApplyCorrection(state_new, correction_);
+  core.ApplyCorrection(state_new, correction_,
+                       core.GetUserCalc().GetParamFuzzyTrackingThreshold());
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From fde3ba33e905abab3692b3c5805ac9431971f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 09/39] fix: iterator to the last state dangled after re-timing
 it or clearing the buffer

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7c23bb4..ed975fc 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -167,6 +167,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // Updating the time has invalidated the iterator to the last state.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
@@ -254,6 +256,9 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     if (fabs(currentState->time - lastState->time) > 5) {
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // Updating the time has invalidated the iterator to the last state.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
+      time_P_propagated = tmp->time;
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
           << msf_core::timehuman(tmp->time));
@@ -295,7 +300,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 002a3d86d31e83a65d09db9fcc9b287a2c181db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 10/39] fix: an acceleration spike was replaced by the reading
 before the last accepted one

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ed975fc..71f3e0d 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -154,7 +154,7 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           "buffer to take cleaner measurements from");
       return;
     }
-    last_am = lastState->a_m;
+    last_am = currentState->a_m;
   }
   if (!predictionMade_) {
     if (lastState->time == constants::INVALID_TIME) {
-- 
2.43.0


From a04580ac71478d6a4118638280af892e99a18764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 11/39] fix: a non-numeric externally predicted position was
 taken over

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 71f3e0d..fab249b 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -266,9 +266,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  bool isnumeric = CheckForNumeric(
-      currentState->template Get<StateDefinition_T::p>(),
-      "before prediction p");
+  bool isnumeric = CheckForNumeric(p, "before prediction p");
 
   // State propagation is made externally, so we read the actual state.
   if (is_already_propagated && isnumeric) {
-- 
2.43.0


From 785b41f4b4b2add17e2f617163b6f6c8d8c7d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 12/39] fix: accumulated state transition multiplied the steps
 in reverse order

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index fab249b..68da6c6 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -439,7 +439,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;  // Later steps act on the result of earlier ones.
   }
 }
 
-- 
2.43.0


From 7a8db9e752423c69bf01a84c20f447da306621ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 13/39] fix: pose measurement Jacobian with respect to p_wv
 lacked rotation and scale

---
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..e251d9e 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -247,12 +247,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
 
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From 26a4b8c9888b56455e908cd11b9805574c2e9e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 14/39] fix: disabled yaw row of the pose measurement rejected
 correct readings as outliers

---
 .../pose_sensor_handler/pose_measurement.h       | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index e251d9e..4338635 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -312,11 +312,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: its row of H is disabled (see CalculateH), so it
+      // must not contribute to the Mahalanobis distance either.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
@@ -425,11 +423,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state_new.Get<StateQwvIdx>();
-
-      r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: its row of H is disabled (see CalculateH), so it
+      // must not contribute to the Mahalanobis distance either.
+      r_new(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
-- 
2.43.0


From 6cd30fa7fded0d2c58f4549b4b8d02cce1f2e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 15/39] fix: attitude residual of relative pose measurements
 had the opposite sign of its Jacobian

---
 .../pose_sensor_handler/pose_measurement.h    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 4338635..286e599 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -410,14 +410,21 @@ struct PoseMeasurement : public PoseMeasurementBase {
       r_new.block<3, 1>(0, 0) = diffmeaspos - diffprobpos;
 
       // Attitude:
-      Eigen::Quaternion<double> diffprobatt = (state_new.Get<StateQwvIdx>()
-          * state_new.Get<StateDefinition_T::q>()
-          * state_new.Get<StateQicIdx>()).conjugate()
-          * (state_old.Get<StateQwvIdx>()
-              * state_old.Get<StateDefinition_T::q>()
-              * state_old.Get<StateQicIdx>());
-
-      Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
+      Eigen::Quaternion<double> diffprobatt = (state_old.Get<StateQwvIdx>()
+          * state_old.Get<StateDefinition_T::q>()
+          * state_old.Get<StateQicIdx>()).conjugate()
+          * (state_new.Get<StateQwvIdx>()
+              * state_new.Get<StateDefinition_T::q>()
+              * state_new.Get<StateQicIdx>());
+
+      Eigen::Quaternion<double> diffmeasatt = prevmeas->z_q_.conjugate() * z_q_;
+
+      // The error of the old attitude, seen from the new one.
+      H_old.block<3, msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime>(
+          3, 0) = (diffprobatt.conjugate().toRotationMatrix()
+          * H_old.block<3,
+              msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime>(3, 0))
+          .eval();
 
       Eigen::Quaternion<double> q_err;
       q_err = diffprobatt.conjugate() * diffmeasatt;
-- 
2.43.0


From 151b2d5b0b781f9e3418210afd05562c483b6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:28 +0000
Subject: [PATCH 16/39] fix: Jacobians of the spherical measurements ignored
 the lever arm and used the inverse attitude

---
 .../spherical_measurement.h                          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..895c0bd 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -121,9 +121,11 @@ struct AngleMeasurement : public AngleMeasurementBase {
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
+        .toRotationMatrix();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // The measured point is the prism, not the IMU.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 2, 3> dz_dp;
     dz_dp(0, 0) = (p_(0, 0) * p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)))
@@ -389,7 +391,7 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
 
     // Get rotation matrices.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
 
     // Preprocess for elements in H matrix.
     // Get indices of states in error vector.
@@ -410,8 +412,10 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // The measured point is the prism, not the IMU.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 1, 3> dz_dp;
     dz_dp(0, 0) = p_(0, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-- 
2.43.0


From f11d983b6fe5f0298d2def20c6769f3846b4d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:28 +0000
Subject: [PATCH 17/39] fix: spherical measurements corrected a lever arm
 configured as fixed

---
 .../spherical_position_sensor/spherical_measurement.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 895c0bd..f941d75 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -243,7 +243,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
         / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
 
   }
 
@@ -463,7 +464,8 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
   }
 
   /**
-- 
2.43.0


From e3bf90811c843c2f03f60fcde5eea662742357da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:28 +0000
Subject: [PATCH 18/39] fix: predicted azimuth was off by pi on the negative x
 axis

---
 .../spherical_position_sensor/spherical_measurement.h  | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index f941d75..c6ae8ab 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -275,14 +275,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
           z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
               + z_carth(2, 0) * z_carth(2, 0));
       double theta_old = acos(z_carth(2, 0) / radius_old);
-      double phi_old = atan(z_carth(1, 0) / z_carth(0, 0));
-      // Handle all exeptions that occur when transforming in spherical coordinates.
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) < 0) {
-        phi_old -= M_PI;
-      }
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) > 0) {
-        phi_old += M_PI;
-      }
+      // Covers all quadrants and the case x == 0.
+      double phi_old = atan2(z_carth(1, 0), z_carth(0, 0));
 
       msf_core::Vector2 z_spherical;
       z_spherical << theta_old, phi_old;
-- 
2.43.0


From 15e1e7dfef6e1786744fa145d88e7e26e34eaf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 19/39] fix: inversely defined poses were not inverted when the
 covariance is fixed

---
 .../pose_sensor_handler/pose_measurement.h    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 286e599..57c200d 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,23 +93,23 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
-      /*************************************************************************************/
-      // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
-      // ethzasl_ptam publishes the camera pose as the world seen from the camera.
-      if (!measurement_world_sensor_) {
-        Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
-        z_q_ = z_q_.conjugate();
-        z_p_ = -C_zq.transpose() * z_p_;
+    /*************************************************************************************/
+    // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
+    // ethzasl_ptam publishes the camera pose as the world seen from the camera.
+    if (!measurement_world_sensor_) {
+      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
+      z_q_ = z_q_.conjugate();
+      z_p_ = -C_zq.transpose() * z_p_;
 
-        Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
-        C_cov.block<3, 3>(0, 0) = C_zq;
-        C_cov.block<3, 3>(3, 3) = C_zq;
+      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
+      C_cov.block<3, 3>(0, 0) = C_zq;
+      C_cov.block<3, 3>(3, 3) = C_zq;
 
-        R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
-      }
-      /*************************************************************************************/
+      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
     }
+    /*************************************************************************************/
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From 49bb5e2e144e90641c623dca6eaa9531165a51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 20/39] fix: pose sensors shared the time of the last distorted
 measurement

---
 msf_updates/include/msf_updates/PoseDistorter.h               | 4 ++++
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/PoseDistorter.h b/msf_updates/include/msf_updates/PoseDistorter.h
index e835521..6c9dee3 100644
--- a/msf_updates/include/msf_updates/PoseDistorter.h
+++ b/msf_updates/include/msf_updates/PoseDistorter.h
@@ -33,6 +33,7 @@ class PoseDistorter {
   Eigen::Vector3d posdrift_;
   Eigen::Quaterniond attdrift_;
   double scaledrift_;
+  double last_time_ = 0;  ///< Time of the last distorted measurement.
 
   std::random_device rd_;
   std::mt19937 gen_;
@@ -49,6 +50,9 @@ class PoseDistorter {
   void Distort(Eigen::Vector3d& pos, Eigen::Quaterniond& att, double dt);
   void Distort(Eigen::Vector3d& pos, double dt);
   void Distort(Eigen::Quaterniond& att, double dt);
+  double& GetLastTime() {
+    return last_time_;
+  }
   virtual ~PoseDistorter();
 };
 
diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 57c200d..e7d4daa 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -64,7 +64,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
                                      msg->pose.pose.orientation.z);
 
     if (distorter_) {
-      static double tlast = 0;
+      double& tlast = distorter_->GetLastTime();
       if (tlast != 0) {
         double dt = time - tlast;
         distorter_->Distort(z_p_, z_q_, dt);
-- 
2.43.0


From 3f95ccf1c8654dac04e063416f820f8db20e78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 21/39] fix: only one position sensor of the process
 initialised its GPS reference

---
 .../implementation/position_sensorhandler.hpp            | 9 +++++----
 .../position_sensor_handler/position_sensorhandler.h     | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 1b08ff1..c48b4d4 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -30,7 +30,8 @@ PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::PositionSensorHandler(
     : SensorHandler<msf_updates::EKFState>(meas, topic_namespace,
                                            parameternamespace),
       n_zp_(1e-6),
-      delay_(0) {
+      delay_(0),
+      gps_reference_initialized_(false) {
   ros::NodeHandle pnh("~/position_sensor");
   pnh.param("position_use_fixed_covariance", use_fixed_covariance_, false);
   bool enable_tcp_no_delay;
@@ -190,14 +191,14 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << " ***");
 
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
-  static bool referenceinit = false;  //TODO (slynen): Dynreconf reset reference.
-  if (!referenceinit) {
+  //TODO (slynen): Dynreconf reset reference.
+  if (!gps_reference_initialized_) {
     gpsConversion_.InitReference(msg->latitude, msg->longitude, msg->altitude);
     MSF_WARN_STREAM(
         "Initialized GPS reference of topic: " << this->topic_namespace_ << "/"
             << subNavSatFix_.getTopic() << " to lat/lon/alt: [" << msg->latitude
             << ", " << msg->longitude << ", " << msg->altitude << "]");
-    referenceinit = true;
+    gps_reference_initialized_ = true;
   }
 
   msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
diff --git a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
index 8ba1970..24afab3 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
+++ b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
@@ -42,6 +42,7 @@ class PositionSensorHandler : public msf_core::SensorHandler<
   ros::Subscriber subTransformStamped_;
   ros::Subscriber subNavSatFix_;
   msf_core::GPSConversion gpsConversion_;
+  bool gps_reference_initialized_;  ///< Has the reference been set by the first fix.
 
   bool use_fixed_covariance_;  ///< Use fixed covariance set by dynamic reconfigure.
   bool provides_absolute_measurements_;  ///< Does this sensor measure relative or absolute values.
-- 
2.43.0


From 405d1bdbf9f05faff9e51d9e7020ab130ca26af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 22/39] fix: overlapping memcpy in the pressure averaging
 buffer

---
 .../implementation/pressure_sensorhandler.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 6077b4d..86faea9 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -79,7 +79,7 @@ void PressureSensorHandler::MeasurementCallback(
   z_p_ = meas->z_p_;  // Store this for the init procedure.
 
   // Make averaged measurement.
-  memcpy(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
+  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
   heightbuff[heightbuffsize - 1] = meas->z_p_(0);
   double sum = 0;
   for (int k = 0; k < heightbuffsize; ++k)
-- 
2.43.0


From 6cdf61528dfeafc4a0f75b2ed12f18e7d208d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 23/39] fix: a height correction of the GPS reference moved it
 along the earth axis

---
 msf_core/src/lib/gps_conversion.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msf_core/src/lib/gps_conversion.cc b/msf_core/src/lib/gps_conversion.cc
index c3ea1ec..dd36d51 100644
--- a/msf_core/src/lib/gps_conversion.cc
+++ b/msf_core/src/lib/gps_conversion.cc
@@ -94,9 +94,11 @@ msf_core::Vector3 GPSConversion::WGS84ToENU(const double latitude,
 
 void GPSConversion::AdjustReference(const double z_correction) {
 
-  MSF_WARN_STREAM("z-ref old: "<< ecef_ref_point_(2));
-  ecef_ref_point_(2) += z_correction;
-  MSF_WARN_STREAM("z-ref new: "<< ecef_ref_point_(2));
+  // The correction is along the local vertical, the reference point in ECEF.
+  MSF_WARN_STREAM("z-ref old: "<< ecef_ref_point_.transpose());
+  ecef_ref_point_ += ecef_ref_orientation_.conjugate()
+      * msf_core::Vector3(0, 0, z_correction);
+  MSF_WARN_STREAM("z-ref new: "<< ecef_ref_point_.transpose());
 }
 
 }
-- 
2.43.0


From 723f6e5595884e25ec64d9318d6d8841a8f19f9a Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 24/39] fix: pose_pressure ignored the pose delay, and all
 noise settings after a refused height initialisation

---
 .../pose_pressure_msf/pose_pressure_sensormanager.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..7b7dcb4 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -86,6 +86,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
    */
   virtual void Config(Config_T &config, uint32_t level) {
     config_ = config;
+    // Pass the noise values to the sensor handlers.
+    pose_handler_->SetNoises(config.pose_noise_meas_p,
+                             config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
+    pressure_handler_->SetNoises(config.press_noise_meas_p);
     // Init call with "init filter" checkbox.
     if ((level & msf_updates::SinglePoseSensor_INIT_FILTER)
         && config.core_init_filter == true) {
@@ -105,11 +110,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
       Init(scale);
       config.core_set_height = false;
     }
-
-    // Pass the noise values to the sensor handlers.
-    pose_handler_->SetNoises(config.pose_noise_meas_p,
-                             config.pose_noise_meas_q);
-    pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
   void Init(double scale) const {
-- 
2.43.0


From d1ca8125ba623e5737490f6d7fefef2dd45b0a0e Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 25/39] fix: pose_pressure ignored the noise of the
 vision-world position drift

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 7b7dcb4..06a9908 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -208,6 +208,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -223,6 +225,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
-- 
2.43.0


From f22da3d57e8ceb9cfcd0d4b21d5bcbde362a08dd Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 26/39] fix: position_pose ignored the noise of the position
 sensor offset

---
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..5ddf975 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -255,6 +255,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
         config_.pose_noise_p_ic);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
 
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From e9a0cf0c6dd6ed6120824c1f18daf35fca161875 Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 27/39] fix: initial pressure bias ignored the position of the
 camera on the vehicle

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 06a9908..d3b3896 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -134,11 +134,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p_vc = pose_handler_->GetPositionMeasurement();
     q_vc = pose_handler_->GetAttitudeMeasurement();
 
-    b_p
-        << pose_handler_->GetPositionMeasurement()(2) / scale
-            - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
-
-            // Check if we have already input from the measurement sensor.
+    // Check if we have already input from the measurement sensor.
     if (!pose_handler_->ReceivedFirstMeasurement())
       MSF_WARN_STREAM(
           "No measurements received yet to initialize position and attitude - "
@@ -165,6 +161,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p = q_wv.conjugate().toRotationMatrix() * p_vc / scale
         - q.toRotationMatrix() * p_ic;
 
+    b_p << p(2) - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
+
     a_m = q.inverse() * g;			/// Initial acceleration.
 
     // Prepare init "measurement".
-- 
2.43.0


From 8bbc2265cdaa6dbef70a5c5ba4c2f58e9b8ab3be Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 28/39] fix: spherical initialisation took the azimuth for the
 inclination and vice versa

---
 msf_updates/src/spherical_msf/spherical_sensormanager.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_updates/src/spherical_msf/spherical_sensormanager.h b/msf_updates/src/spherical_msf/spherical_sensormanager.h
index 5e1c586..77f4afe 100644
--- a/msf_updates/src/spherical_msf/spherical_sensormanager.h
+++ b/msf_updates/src/spherical_msf/spherical_sensormanager.h
@@ -119,10 +119,10 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
 
     msf_core::Vector2 angles = angle_handler_->GetAngleMeasurement();
     msf_core::Vector1 distance = distance_handler_->GetDistanceMeasurement();
-    // Check that angles(0) is theta and angles(1) is phi...
-    p_vc(0, 0) = distance(0) * sin(angles(0)) * cos(angles(1));
-    p_vc(1, 0) = distance(0) * sin(angles(0)) * sin(angles(1));
-    p_vc(2, 0) = distance(0) * cos(angles(0));
+    // angles(0) is the azimuth phi and angles(1) the inclination theta.
+    p_vc(0, 0) = distance(0) * sin(angles(1)) * cos(angles(0));
+    p_vc(1, 0) = distance(0) * sin(angles(1)) * sin(angles(0));
+    p_vc(2, 0) = distance(0) * cos(angles(1));
 
     ROS_INFO_STREAM(
         "initial measurement pos:[" << p_vc.transpose()<<"] orientation: "
-- 
2.43.0


From a1c68008506d16f668efe21c4422927aeaea9f51 Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 00:42:42 +0000
Subject: [PATCH 29/39] fix: pressure kept for the initialisation was
 uninitialised before the first reading

---
 .../implementation/pressure_sensorhandler.hpp                  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 86faea9..463adda 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -46,8 +46,9 @@ PressureSensorHandler::PressureSensorHandler(
       enable_tcp_no_delay ? ros::TransportHints().tcpNoDelay()
                           : ros::TransportHints());
 
+  z_p_.setZero();
+  z_average_p.setZero();
   memset(heightbuff, 0, sizeof(double) * heightbuffsize);
-
 }
 
 void PressureSensorHandler::SetNoises(double n_zp) {
-- 
2.43.0


From 316e4e9c5fb89dadb573003bbe7d59c7fa01d47e Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:00:03 +0000
Subject: [PATCH 30/39] fix: reading a noise block of a constant state did not
 compile

---
 msf_core/include/msf_core/implementation/msf_state_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_state_inl.h b/msf_core/include/msf_core/implementation/msf_state_inl.h
index 9309d20..df0343d 100644
--- a/msf_core/include/msf_core/implementation/msf_state_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_state_inl.h
@@ -105,7 +105,7 @@ template<int INDEX>
 inline const typename msf_tmp::StripReference<
     typename boost::fusion::result_of::at_c<stateVector_T, INDEX>::type>::result_t::Q_T&
 GenericState_T<stateVector_T, StateDefinition_T>::GetQBlock() const {
-  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q_;
+  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q;
 }
 
 /// Assembles a PoseWithCovarianceStamped message from the state
-- 
2.43.0


From 52ec2e29e9560d0f1c5cdc6cc2fbd098a35747af Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:00:03 +0000
Subject: [PATCH 31/39] fix: reading or withdrawing an initial value did not
 compile

---
 msf_core/include/msf_core/msf_measurement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/msf_measurement.h b/msf_core/include/msf_core/msf_measurement.h
index c089072..90a00c6 100644
--- a/msf_core/include/msf_core/msf_measurement.h
+++ b/msf_core/include/msf_core/msf_measurement.h
@@ -213,7 +213,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
    */
   template<int INDEX>
   void ResetStateInitValue() {
-    InitState.template get<INDEX>().hasResetValue = false;
+    InitState.template GetStateVariable<INDEX>().hasResetValue = false;
   }
 
   /**
@@ -224,7 +224,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
   const typename msf_tmp::StripReference<typename boost::fusion::result_of::at_c
   <StateSequence_T, INDEX >::type>::result_t::value_t&
   GetStateInitValue() const {
-    return InitState.template get<INDEX>();
+    return InitState.template Get<INDEX>();
   }
 
   virtual void Apply(shared_ptr<EKFState_T> stateWithCovariance, MSF_Core<EKFState_T>& core);
-- 
2.43.0


From 19962d44ca8bc9d11ad30184d3289048cb3ae2e4 Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 32/39] fix: odometry twist covariance published linear and
 angular velocity as independent

---
 .../msf_core/implementation/msf_state_inl.h     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_state_inl.h b/msf_core/include/msf_core/implementation/msf_state_inl.h
index df0343d..6bb9af2 100644
--- a/msf_core/include/msf_core/implementation/msf_state_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_state_inl.h
@@ -397,9 +397,15 @@ void GenericState_T<stateVector_T, StateDefinition_T>::GetVelocityAttitudeCovari
 template<typename stateVector_T, typename StateDefinition_T>
 void GenericState_T<stateVector_T, StateDefinition_T>::GetTwistCovarianceInImuFrame(
     geometry_msgs::TwistWithCovariance::_covariance_type& cov) {
+  typedef typename msf_tmp::GetEnumStateType<stateVector_T, StateDefinition_T::v>::value v_type;
+  typedef typename msf_tmp::GetEnumStateType<stateVector_T, StateDefinition_T::q>::value q_type;
   typedef typename msf_tmp::GetEnumStateType<stateVector_T, StateDefinition_T::b_w>::value b_w_type;
 
-  // Get index of gyro bias in the covariance matrix.
+  // Get indices of velocity, attitude and gyro bias in the covariance matrix.
+  static const int idxstartcorr_v = msf_tmp::GetStartIndex<stateVector_T,
+      v_type, msf_tmp::CorrectionStateLengthForType>::value;
+  static const int idxstartcorr_q = msf_tmp::GetStartIndex<stateVector_T,
+      q_type, msf_tmp::CorrectionStateLengthForType>::value;
   static const int idxstartcorr_b_w = msf_tmp::GetStartIndex<stateVector_T,
       b_w_type, msf_tmp::CorrectionStateLengthForType>::value;
 
@@ -426,7 +432,16 @@ void GenericState_T<stateVector_T, StateDefinition_T>::GetTwistCovarianceInImuFr
   CHECK_EQ(cov.size(), 6 * 6);
   Eigen::Map<Eigen::Matrix<double,6,6> > covariance_map(cov.data());
 
+  // Cross covariance of the velocity and the gyro bias, which is subtracted from
+  // the angular velocity.
+  Eigen::Matrix<double, 6, 3> cov_velocity_attitude_b_w;
+  cov_velocity_attitude_b_w.block<3,3>(0,0) = P.template block<3,3>(idxstartcorr_v, idxstartcorr_b_w);
+  cov_velocity_attitude_b_w.block<3,3>(3,0) = P.template block<3,3>(idxstartcorr_q, idxstartcorr_b_w);
+  const msf_core::Matrix3 cov_velocity_angular_velocity_I = -(J * cov_velocity_attitude_b_w);
+
   covariance_map.block<3,3>(0,0) = cov_velocity_I;
+  covariance_map.block<3,3>(0,3) = cov_velocity_angular_velocity_I;
+  covariance_map.block<3,3>(3,0) = cov_velocity_angular_velocity_I.transpose();
 
   // Add covariance of gyro measurement and gyro bias to get the covariance of the corrected
   // angular velocity.
-- 
2.43.0


From bbf2b84adcf2b377efc3edcdd9b2ffdbc41dd2f1 Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:20:44 +0000
Subject: [PATCH 33/39] fix: late measurement that was rejected left later
 covariances updated, so later updates counted twice

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 68da6c6..72deed6 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -663,6 +663,11 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     // time.
     it_meas->second->Apply(state, *this);
     timer_meas_apply.Stop();
+    // The states from here on are predicted again below, even if the measurement
+    // was rejected, so their covariances have to be predicted again as well.
+    if (time_P_propagated > state->time) {
+      time_P_propagated = state->time;
+    }
     // Make sure to propagate to next measurement or up to now if no more
     // measurements. Propagate from current state.
     it_curr = stateBuffer_.GetIteratorAtValue(state);
-- 
2.43.0


From daf7ea23a94f733f50bf68ba60dde610e2f93815 Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:20:44 +0000
Subject: [PATCH 34/39] fix: second measurement with the same time stamp was
 dropped and the first applied twice

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 72deed6..0d59d26 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -629,6 +629,13 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     return;  // Reject measurements too far in the past.
   }
 
+  // The buffer holds one measurement per time stamp, so move this one slightly
+  // if another measurement has been taken at exactly the same time.
+  while (MeasurementBuffer_.GetValueAt(measurement->time)
+      != MeasurementBuffer_.GetInvalid()) {
+    measurement->time += 1e-6;
+  }
+
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
-- 
2.43.0


From d2f0d2e3c1b0b6d93e1c74049dd40ae79aa13bd0 Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:20:44 +0000
Subject: [PATCH 35/39] fix: update of a later measurement on the same state
 was counted twice when an earlier one arrived late

---
 .../msf_core/implementation/msf_core_inl.h    | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 0d59d26..274dcd6 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -643,6 +643,33 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
 
+  // If a later measurement has already been applied to the state this
+  // measurement belongs to, predict this state again and apply all the
+  // measurements which belong to it in order.
+  typename StateBuffer_T::iterator_T it_state = stateBuffer_.GetIteratorClosest(
+      measurement->time);
+  typename measurementBufferT::iterator_T it_latermeas = it_meas;
+  ++it_latermeas;
+  if (it_latermeas != it_meas_end
+      && it_state != stateBuffer_.GetIteratorBegin()
+      && fabs(it_latermeas->second->time - it_state->second->time) <= 0.001) {
+    while (it_meas != MeasurementBuffer_.GetIteratorBegin()) {
+      typename measurementBufferT::iterator_T it_prevmeas = it_meas;
+      --it_prevmeas;
+      if (stateBuffer_.GetIteratorClosest(it_prevmeas->second->time)
+          != it_state) {
+        break;
+      }
+      it_meas = it_prevmeas;
+    }
+    typename StateBuffer_T::iterator_T it_prevstate = it_state;
+    --it_prevstate;
+    PropagateState(it_prevstate->second, it_state->second);
+    if (time_P_propagated > it_prevstate->second->time) {
+      time_P_propagated = it_prevstate->second->time;
+    }
+  }
+
   // No propagation if no update is applied.
   typename StateBuffer_T::iterator_T it_curr = stateBuffer_.GetIteratorEnd();
 
-- 
2.43.0


From e9db02e15f7f7e0361160d8602e75475cc69abdd Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:21:54 +0000
Subject: [PATCH 36/39] fix: a measurement without a suitable state stopped the
 re-prediction after an earlier update

---
 .../msf_core/implementation/msf_core_inl.h    | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 274dcd6..fb1e54d 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -689,22 +689,26 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     if (state->time <= 0) {
       MSF_ERROR_STREAM_THROTTLE(
           1, __FUNCTION__<< " GetClosestState returned an invalid state");
-      continue;
-    }
-
-    msf_timing::DebugTimer timer_meas_apply("Apply measurement");
-    // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
-    // time.
-    it_meas->second->Apply(state, *this);
-    timer_meas_apply.Stop();
-    // The states from here on are predicted again below, even if the measurement
-    // was rejected, so their covariances have to be predicted again as well.
-    if (time_P_propagated > state->time) {
-      time_P_propagated = state->time;
+      // Nothing to propagate, if there was no update before this one either.
+      if (!appliedOne)
+        continue;
+    } else {
+      msf_timing::DebugTimer timer_meas_apply("Apply measurement");
+      // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
+      // time.
+      it_meas->second->Apply(state, *this);
+      timer_meas_apply.Stop();
+      // The states from here on are predicted again below, even if the
+      // measurement was rejected, so their covariances have to be predicted
+      // again as well.
+      if (time_P_propagated > state->time) {
+        time_P_propagated = state->time;
+      }
+      // Make sure to propagate to next measurement or up to now if no more
+      // measurements. Propagate from current state.
+      it_curr = stateBuffer_.GetIteratorAtValue(state);
+      appliedOne = true;
     }
-    // Make sure to propagate to next measurement or up to now if no more
-    // measurements. Propagate from current state.
-    it_curr = stateBuffer_.GetIteratorAtValue(state);
 
     typename StateBuffer_T::iterator_T it_end;
     typename measurementBufferT::iterator_T it_nextmeas = it_meas;
@@ -741,7 +745,6 @@ void MSF_Core<EKFState_T>::AddMeasurement(
       PropagateState(it_curr->second, it_next->second);
     }
     timer_prop_state_after_meas.Stop();
-    appliedOne = true;
   }
 
   if (!appliedOne) {
-- 
2.43.0


From 12b51462dbda63808336a30f6b61451095ef3ebb Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 37/39] fix: clean-up of old measurements erased elements still
 used while re-applying

---
 .../include/msf_core/implementation/msf_core_inl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index fb1e54d..ad868cb 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -758,6 +758,14 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   PropPToState(latestState);  // Get the latest covariance.
 
   usercalc_.PublishStateAfterUpdate(latestState);
+
+  // Only clean up here, since the iterators used above have to stay valid.
+  static int janitorRun = 0;
+  if (janitorRun++ > 100) {
+    // Remove very old states and measurements from the buffers.
+    CleanUpBuffers();
+    janitorRun = 0;
+  }
 }
 
 template<typename EKFState_T>
@@ -860,12 +868,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
     return stateBuffer_.GetInvalid();  // Early abort.
   }
 
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From 9b5cc8233da438485e06bb3437c164482a35467e Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 38/39] fix: measurement without a suitable state made later
 ones count twice

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ad868cb..efc9f5d 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -652,12 +652,14 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   ++it_latermeas;
   if (it_latermeas != it_meas_end
       && it_state != stateBuffer_.GetIteratorBegin()
+      && fabs(measurement->time - it_state->second->time) <= 0.1
       && fabs(it_latermeas->second->time - it_state->second->time) <= 0.001) {
     while (it_meas != MeasurementBuffer_.GetIteratorBegin()) {
       typename measurementBufferT::iterator_T it_prevmeas = it_meas;
       --it_prevmeas;
       if (stateBuffer_.GetIteratorClosest(it_prevmeas->second->time)
-          != it_state) {
+          != it_state
+          || fabs(it_prevmeas->second->time - it_state->second->time) > 0.1) {
         break;
       }
       it_meas = it_prevmeas;
@@ -689,9 +691,10 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     if (state->time <= 0) {
       MSF_ERROR_STREAM_THROTTLE(
           1, __FUNCTION__<< " GetClosestState returned an invalid state");
-      // Nothing to propagate, if there was no update before this one either.
+      // Nothing has changed, if there was no update before this one either, and
+      // the later measurements have already been applied.
       if (!appliedOne)
-        continue;
+        break;
     } else {
       msf_timing::DebugTimer timer_meas_apply("Apply measurement");
       // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
-- 
2.43.0


From f3724eaf9988c80f9080beb00707cd7a8b4a9cc0 Mon Sep 17 00:00:00 2001
From: dev <dev@example.com>
Date: Thu, 19 Nov 2026 01:40:02 +0000
Subject: [PATCH 39/39] fix: update could be counted twice when measurements
 fell within a millisecond of a state

---
 .../msf_core/implementation/msf_core_inl.h    | 36 +++++++++++--------
 msf_core/include/msf_core/msf_measurement.h   |  2 ++
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index efc9f5d..b1ca5d2 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -636,6 +636,23 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     measurement->time += 1e-6;
   }
 
+  // Has a later measurement already been applied to the state this measurement
+  // belongs to?
+  typename StateBuffer_T::iterator_T it_state = stateBuffer_.GetIteratorClosest(
+      measurement->time);
+  typename measurementBufferT::iterator_T it_latermeas = MeasurementBuffer_
+      .GetIteratorClosestAfter(measurement->time);
+  bool undoLater = it_latermeas != MeasurementBuffer_.GetIteratorEnd()
+      && fabs(measurement->time - it_state->second->time) <= 0.1
+      && it_latermeas->second->stateTime_ == it_state->second->time;
+  if (undoLater && it_state == stateBuffer_.GetIteratorBegin()) {
+    MSF_WARN_STREAM(
+        "You tried to give me a measurement for the oldest state, to which a "
+        "later measurement has already been applied. [measurement: "
+        <<timehuman(measurement->time)<<" (s)]");
+    return;  // There is no earlier state to predict this one from again.
+  }
+
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
@@ -643,23 +660,13 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
 
-  // If a later measurement has already been applied to the state this
-  // measurement belongs to, predict this state again and apply all the
-  // measurements which belong to it in order.
-  typename StateBuffer_T::iterator_T it_state = stateBuffer_.GetIteratorClosest(
-      measurement->time);
-  typename measurementBufferT::iterator_T it_latermeas = it_meas;
-  ++it_latermeas;
-  if (it_latermeas != it_meas_end
-      && it_state != stateBuffer_.GetIteratorBegin()
-      && fabs(measurement->time - it_state->second->time) <= 0.1
-      && fabs(it_latermeas->second->time - it_state->second->time) <= 0.001) {
+  // If so, predict this state again and apply all the measurements which have
+  // been applied to it in order.
+  if (undoLater) {
     while (it_meas != MeasurementBuffer_.GetIteratorBegin()) {
       typename measurementBufferT::iterator_T it_prevmeas = it_meas;
       --it_prevmeas;
-      if (stateBuffer_.GetIteratorClosest(it_prevmeas->second->time)
-          != it_state
-          || fabs(it_prevmeas->second->time - it_state->second->time) > 0.1) {
+      if (it_prevmeas->second->stateTime_ != it_state->second->time) {
         break;
       }
       it_meas = it_prevmeas;
@@ -700,6 +707,7 @@ void MSF_Core<EKFState_T>::AddMeasurement(
       // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
       // time.
       it_meas->second->Apply(state, *this);
+      it_meas->second->stateTime_ = state->time;
       timer_meas_apply.Stop();
       // The states from here on are predicted again below, even if the
       // measurement was rejected, so their covariances have to be predicted
diff --git a/msf_core/include/msf_core/msf_measurement.h b/msf_core/include/msf_core/msf_measurement.h
index 90a00c6..b12ed58 100644
--- a/msf_core/include/msf_core/msf_measurement.h
+++ b/msf_core/include/msf_core/msf_measurement.h
@@ -47,6 +47,8 @@ class MSF_MeasurementBase {
   int sensorID_;
   bool isabsolute_;
   double time;  ///< The time_ this measurement was taken.
+  /// Time of the state this measurement has been applied to.
+  double stateTime_ = constants::INVALID_TIME;
  protected:
   /**
    * Main update routine called by a given sensor, will apply the measurement to
-- 
2.43.0

