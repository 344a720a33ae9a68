From e0569f7b92a635a2f020dda4ca5daf6ffe9a43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 01/35] fix: start the accumulator maximum at the lowest value,
 so that negative samples are recorded

---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..e7e7ec1 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
-- 
2.43.0


From 7b7d456002498caf91e5d9ec48277269b33c9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 02/35] fix: use consecutive powers in the attitude exponential
 of the state propagation

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..6ca3a53 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -362,10 +362,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaMeanPower = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaMeanPower / div;
+    OmegaMeanPower *= OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0


From 0ce27fefbe1c03235bbd1a5f33c9ec4e246f2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 03/35] fix: accumulate the state transitions of stochastic
 cloning in order of time

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 6ca3a53..2d203b0 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -436,7 +436,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;
   }
 }
 
-- 
2.43.0


From 9e7649820f15dc645ea75a8f9c3f129fef5bedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 04/35] fix: find the closest element without stepping before
 the first one

---
 .../include/msf_core/msf_sortedContainer.h     | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..b1737f9 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -195,21 +195,17 @@ class SortedContainer {
     }
 
     // If not, find the closest one.
-    typename ListT::iterator tauMinus = GetIteratorClosestBefore(statetime);
     typename ListT::iterator tauPlus = GetIteratorClosestAfter(statetime);
 
-    typename ListT::iterator it_end = GetIteratorEnd();
-
-    // If we were asking for some iterator before or at the time at begin()
-    // tauMinus will be one element before begin(), so the best we can do is
-    // to return begin(), which would be closest in that case.
-    if (tauMinus == GetIteratorBeforeBegin()) {
-      return GetIteratorBegin();
-    }
-    if (tauMinus == it_end) {
+    // If we were asking for some iterator before the time at begin() there is
+    // no element before that time, so the best we can do is to return begin(),
+    // which would be closest in that case.
+    if (tauPlus == GetIteratorBegin()) {
       return tauPlus;
     }
-    if (tauPlus == it_end) {
+    typename ListT::iterator tauMinus = GetIteratorClosestBefore(statetime);
+
+    if (tauPlus == GetIteratorEnd()) {
       return tauMinus;
     }
     if (fabs(tauPlus->second->time - statetime)
-- 
2.43.0


From a1cf83c33c67a395fd0de2fb2302cad66ed63484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 05/35] fix: look for the previous measurement inside the
 buffer only

---
 .../msf_core/implementation/msf_core_inl.h     | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 2d203b0..ac30b63 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -721,22 +721,18 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     double time, int sensorID) {
   typename measurementBufferT::iterator_T it = MeasurementBuffer_
       .GetIteratorAtValue(time);
-  if (it->second->time != time) {
+  if (it == MeasurementBuffer_.GetIteratorEnd() || it->second->time != time) {
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  while (it != MeasurementBuffer_.GetIteratorBegin()) {
     --it;
+    if (it->second->sensorID_ == sensorID) {
+      return it->second;
+    }
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From 4f3b9936629bfef0f43b9efb8228d605f0e57ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 06/35] fix: keep the iterator to the last IMU state valid
 after re-timing it

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ac30b63..8657c6a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -167,6 +167,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // Updating the time moves the state inside the buffer.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
-- 
2.43.0


From a2b1acc86d24743c41fb7376694fc03c4de5254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 07/35] fix: do not apply a buffered measurement again when one
 with the same time stamp is discarded

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 8657c6a..1edb1a3 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -631,6 +631,11 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
+  if (it_meas->second != measurement) {
+    // There is already a measurement at this time, which must not be applied
+    // a second time; the buffer has discarded the new one.
+    return;
+  }
   // Get an iterator the the end of the measurement buffer.
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
-- 
2.43.0


From 6d0045b3ebcd3b8191b91c50108db69483b996da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:53 +0000
Subject: [PATCH 08/35] fix: derivative of the pose residual with respect to
 the vision drift position

---
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..e251d9e 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -247,12 +247,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
 
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From 26e3e06d3debb472be038ee943021b83864ba5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 09/35] fix: replace an acceleration spike by the reading of
 the preceding state

---
 .../msf_core/implementation/msf_core_inl.h       | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 1edb1a3..de9d94a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -141,21 +141,9 @@ void MSF_Core<EKFState_T>::ProcessIMU(
   currentState->noise_acc = Vector3::Constant(usercalc_.GetParamNoiseAcc());
 
 
-  // Remove acc spikes (TODO (slynen): find a cleaner way to do this).
-  static Eigen::Matrix<double, 3, 1> last_am =
-      Eigen::Matrix<double, 3, 1>(0, 0, 0);
+  // Remove acc spikes: take the reading of the state before the current time.
   if (currentState->a_m.norm() > 50)
-    currentState->a_m = last_am;
-  else {
-    // Try to get the state before the current time.
-    if (lastState->time == constants::INVALID_TIME) {
-      MSF_WARN_STREAM(
-          "Accelerometer readings had a spike, but no prior state was in the "
-          "buffer to take cleaner measurements from");
-      return;
-    }
-    last_am = lastState->a_m;
-  }
+    currentState->a_m = lastState->a_m;
   if (!predictionMade_) {
     if (lastState->time == constants::INVALID_TIME) {
       MSF_WARN_STREAM("Wanted to compare prediction time offset to last state, "
-- 
2.43.0


From 18166631add69f4f6ab1a6879038a548703a9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 10/35] fix: keep the iterator to the last IMU state valid when
 external states clear or re-time the buffer

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index de9d94a..a81fce1 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -244,6 +244,8 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     if (fabs(currentState->time - lastState->time) > 5) {
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // Updating the time moves the state inside the buffer.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
           << msf_core::timehuman(tmp->time));
@@ -285,7 +287,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 615f832f3a28f285b51c6836efb67c604d3ca922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:36 +0000
Subject: [PATCH 11/35] fix: clean up the buffers only while no iterator into
 them is in use

---
 .../include/msf_core/implementation/msf_core_inl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index a81fce1..b4f1f73 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -601,6 +601,14 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   if (!initialized_ || !predictionMade_)
     return;
 
+  static int janitorRun = 0;
+  if (janitorRun++ > 100) {
+    // Remove very old states and measurements from the buffers, while no
+    // iterator into them is in use.
+    CleanUpBuffers();
+    janitorRun = 0;
+  }
+
   // Check if the measurement is in the future where we don't have imu
   // measurements yet.
   if (measurement->time > stateBuffer_.GetLast()->time) {
@@ -812,12 +820,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
     return stateBuffer_.GetInvalid();  // Early abort.
   }
 
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From 862273b89e378f14f1fcb4aa1c141f17fed1f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 12/35] fix: no innovation for the unmeasured yaw of the vision
 frame in pose updates

The row of the measurement Jacobian for this yaw is zero, but its residual was
still counted in the Mahalanobis distance (so any yaw of q_wv made the outlier
rejection drop every pose), and was infinite for some attitudes, turning the
whole correction into NaN.
---
 .../pose_sensor_handler/pose_measurement.h         | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index e251d9e..ed4748f 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -312,11 +312,8 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: not measured (see CalculateH), so no innovation.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
@@ -425,11 +422,8 @@ struct PoseMeasurement : public PoseMeasurementBase {
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state_new.Get<StateQwvIdx>();
-
-      r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: not measured (see CalculateH), so no innovation.
+      r_new(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
-- 
2.43.0


From 77f2cb26dd69109a11b906bd69ed4283a5bd4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 13/35] fix: invert a world-in-sensor pose also when its
 covariance is fixed

With measurement_world_sensor disabled the pose was inverted only when its
covariance came from the message, otherwise it was used as if it were the pose
of the sensor in the world.
---
 .../pose_sensor_handler/pose_measurement.h    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index ed4748f..54dad53 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,23 +93,23 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
-      /*************************************************************************************/
-      // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
-      // ethzasl_ptam publishes the camera pose as the world seen from the camera.
-      if (!measurement_world_sensor_) {
-        Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
-        z_q_ = z_q_.conjugate();
-        z_p_ = -C_zq.transpose() * z_p_;
+    /*************************************************************************************/
+    // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
+    // ethzasl_ptam publishes the camera pose as the world seen from the camera.
+    if (!measurement_world_sensor_) {
+      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
+      z_q_ = z_q_.conjugate();
+      z_p_ = -C_zq.transpose() * z_p_;
 
-        Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
-        C_cov.block<3, 3>(0, 0) = C_zq;
-        C_cov.block<3, 3>(3, 3) = C_zq;
+      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
+      C_cov.block<3, 3>(0, 0) = C_zq;
+      C_cov.block<3, 3>(3, 3) = C_zq;
 
-        R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
-      }
-      /*************************************************************************************/
+      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
     }
+    /*************************************************************************************/
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From d09bfdd7785c7788a319f3e2fda1ba5f845febf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 14/35] fix: linearise spherical measurements at the prism and
 with the right rotation

The Jacobians used the transposed attitude and the IMU position where the
formulas need the attitude and the position of the prism, and corrected the
prism offset even when it is configured as fixed.
---
 .../spherical_measurement.h                    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..78f9fe8 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -121,9 +121,11 @@ struct AngleMeasurement : public AngleMeasurementBase {
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
+        .toRotationMatrix();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the prism, which is what is measured.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 2, 3> dz_dp;
     dz_dp(0, 0) = (p_(0, 0) * p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)))
@@ -241,7 +243,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
         / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
 
   }
 
@@ -389,7 +392,7 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
 
     // Get rotation matrices.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
 
     // Preprocess for elements in H matrix.
     // Get indices of states in error vector.
@@ -410,8 +413,10 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the prism, which is what is measured.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 1, 3> dz_dp;
     dz_dp(0, 0) = p_(0, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
@@ -459,7 +464,8 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
   }
 
   /**
-- 
2.43.0


From fe0ee04697c3fad9867b34b56e14fff422672e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 15/35] fix: azimuth of a predicted position on the negative x
 axis

atan(y/x) with its quadrant handling gave 0 instead of pi for x < 0, y == 0.
---
 .../spherical_position_sensor/spherical_measurement.h    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 78f9fe8..5ed5b8f 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -275,14 +275,7 @@ struct AngleMeasurement : public AngleMeasurementBase {
           z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
               + z_carth(2, 0) * z_carth(2, 0));
       double theta_old = acos(z_carth(2, 0) / radius_old);
-      double phi_old = atan(z_carth(1, 0) / z_carth(0, 0));
-      // Handle all exeptions that occur when transforming in spherical coordinates.
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) < 0) {
-        phi_old -= M_PI;
-      }
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) > 0) {
-        phi_old += M_PI;
-      }
+      double phi_old = atan2(z_carth(1, 0), z_carth(0, 0));
 
       msf_core::Vector2 z_spherical;
       z_spherical << theta_old, phi_old;
-- 
2.43.0


From febd777e7e457a97f64794d4ed454bde9c7cccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 16/35] fix: sign and frame of the attitude residual of
 relative pose measurements

The predicted and measured rotations were taken from new to old, so that the
correction had the opposite sign of the error described by the Jacobians, and
the Jacobian of the old state was not expressed in the frame of the residual.
---
 .../pose_sensor_handler/pose_measurement.h    | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 54dad53..71e0dbf 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -409,18 +409,24 @@ struct PoseMeasurement : public PoseMeasurementBase {
       r_new.block<3, 1>(0, 0) = diffmeaspos - diffprobpos;
 
       // Attitude:
-      Eigen::Quaternion<double> diffprobatt = (state_new.Get<StateQwvIdx>()
-          * state_new.Get<StateDefinition_T::q>()
-          * state_new.Get<StateQicIdx>()).conjugate()
-          * (state_old.Get<StateQwvIdx>()
-              * state_old.Get<StateDefinition_T::q>()
-              * state_old.Get<StateQicIdx>());
+      Eigen::Quaternion<double> diffprobatt = (state_old.Get<StateQwvIdx>()
+          * state_old.Get<StateDefinition_T::q>()
+          * state_old.Get<StateQicIdx>()).conjugate()
+          * (state_new.Get<StateQwvIdx>()
+              * state_new.Get<StateDefinition_T::q>()
+              * state_new.Get<StateQicIdx>());
 
-      Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
+      Eigen::Quaternion<double> diffmeasatt = prevmeas->z_q_.conjugate() * z_q_;
 
       Eigen::Quaternion<double> q_err;
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
+      // The residual is expressed in the frame of the new sensor pose.
+      H_old.block<3, msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime>(
+          3, 0) = (diffprobatt.conjugate().toRotationMatrix()
+          * H_old.block<3,
+              msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime>(3, 0)).eval();
+
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
       // Vision world yaw drift: not measured (see CalculateH), so no innovation.
       r_new(6, 0) = 0;
-- 
2.43.0


From 3f226e2add67bfaa990fdfc3dcfbdb0764117f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 17/35] fix: check the residual of a relative pose measurement,
 not an uninitialised one

---
 .../msf_updates/pose_sensor_handler/pose_measurement.h      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 71e0dbf..52197ac 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -373,7 +373,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
       Eigen::Matrix<double, nMeasurements,
           msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> H_new,
           H_old;
-      Eigen::Matrix<double, nMeasurements, 1> r_new, r_old;
+      Eigen::Matrix<double, nMeasurements, 1> r_new;
 
       CalculateH(state_nonconst_old, H_old);
 
@@ -431,8 +431,8 @@ struct PoseMeasurement : public PoseMeasurementBase {
       // Vision world yaw drift: not measured (see CalculateH), so no innovation.
       r_new(6, 0) = 0;
 
-      if (!CheckForNumeric(r_old, "r_old")) {
-        MSF_ERROR_STREAM("r_old: "<<r_old);
+      if (!CheckForNumeric(r_new, "r_new")) {
+        MSF_ERROR_STREAM("r_new: "<<r_new);
         MSF_WARN_STREAM(
             "state: "<<const_cast<EKFState_T&>(state_new). ToEigenVector().transpose());
       }
-- 
2.43.0


From d0eca01fa1cfbf9602815dd97c88f0bae4d6e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 18/35] fix: pass the configured pose delay to the handler of
 the pose-pressure filter

---
 msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..62b9ae5 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -109,6 +109,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     // Pass the noise values to the sensor handlers.
     pose_handler_->SetNoises(config.pose_noise_meas_p,
                              config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
     pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
-- 
2.43.0


From d0f35dc83b821ccf1158b01c80df722522e989f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 19/35] fix: apply the configured p_wv noise in the
 pose-pressure filter

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 62b9ae5..48a9c80 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -209,6 +209,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -224,6 +226,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
-- 
2.43.0


From 99d72cef8baee17c7fb4354b381e24f094773038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 20/35] fix: initial pressure bias refers to the height of the
 IMU, not of the camera

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 48a9c80..19402ff 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -135,11 +135,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p_vc = pose_handler_->GetPositionMeasurement();
     q_vc = pose_handler_->GetAttitudeMeasurement();
 
-    b_p
-        << pose_handler_->GetPositionMeasurement()(2) / scale
-            - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
-
-            // Check if we have already input from the measurement sensor.
+    // Check if we have already input from the measurement sensor.
     if (!pose_handler_->ReceivedFirstMeasurement())
       MSF_WARN_STREAM(
           "No measurements received yet to initialize position and attitude - "
@@ -166,6 +162,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p = q_wv.conjugate().toRotationMatrix() * p_vc / scale
         - q.toRotationMatrix() * p_ic;
 
+    b_p << p(2) - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state.
+
     a_m = q.inverse() * g;			/// Initial acceleration.
 
     // Prepare init "measurement".
-- 
2.43.0


From d30e3e0e136091bdf146013c3ac21657ea57e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 21/35] fix: shift the overlapping pressure history with
 memmove

---
 .../implementation/pressure_sensorhandler.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 6077b4d..86faea9 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -79,7 +79,7 @@ void PressureSensorHandler::MeasurementCallback(
   z_p_ = meas->z_p_;  // Store this for the init procedure.
 
   // Make averaged measurement.
-  memcpy(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
+  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
   heightbuff[heightbuffsize - 1] = meas->z_p_(0);
   double sum = 0;
   for (int k = 0; k < heightbuffsize; ++k)
-- 
2.43.0


From d79697002ac492b6955f9859ba6fa5769b2c3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 22/35] fix: pressure readings are zero, not garbage, before
 the first message

---
 .../implementation/pressure_sensorhandler.hpp                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 86faea9..ff2f5b5 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -47,6 +47,8 @@ PressureSensorHandler::PressureSensorHandler(
                           : ros::TransportHints());
 
   memset(heightbuff, 0, sizeof(double) * heightbuffsize);
+  z_p_.setZero();
+  z_average_p.setZero();
 
 }
 
-- 
2.43.0


From e7fe5c4ef1ac253d0d55c89394ab59f6db8986d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 23/35] fix: apply the configured p_ip noise in the
 position-pose filter

---
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..5ddf975 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -255,6 +255,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
         config_.pose_noise_p_ic);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
 
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From 8774f74db93ef09cbad05b0ed4d90e949e893172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 24/35] fix: the spherical position filter receives IMU
 readings

---
 msf_updates/src/spherical_msf/spherical_sensormanager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msf_updates/src/spherical_msf/spherical_sensormanager.h b/msf_updates/src/spherical_msf/spherical_sensormanager.h
index 5e1c586..52808af 100644
--- a/msf_updates/src/spherical_msf/spherical_sensormanager.h
+++ b/msf_updates/src/spherical_msf/spherical_sensormanager.h
@@ -21,6 +21,7 @@
 
 #include <msf_core/msf_core.h>
 #include <msf_core/msf_sensormanagerROS.h>
+#include <msf_core/msf_IMUHandler_ROS.h>
 #include "msf_statedef.hpp"
 #include <msf_updates/spherical_position_sensor/spherical_sensorhandler.h>
 #include <msf_updates/spherical_position_sensor/spherical_measurement.h>
@@ -45,6 +46,10 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
 
   SensorManager(
       ros::NodeHandle pnh = ros::NodeHandle("~/spherical_position_sensor")) {
+    imu_handler_.reset(
+        new msf_core::IMUHandler_ROS<msf_updates::EKFState>(*this, "msf_core",
+                                                            "imu_handler"));
+
     angle_handler_.reset(
         new AngleSensorHandler_T(*this, "", "spherical_position_sensor"));
     AddHandler(angle_handler_);
@@ -65,6 +70,7 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
  private:
+  boost::shared_ptr<msf_core::IMUHandler_ROS<msf_updates::EKFState> > imu_handler_;
   boost::shared_ptr<AngleSensorHandler_T> angle_handler_;
   boost::shared_ptr<DistanceSensorHandler_T> distance_handler_;
 
-- 
2.43.0


From 311702c7e1a22c3f659bed32f9f2c88ad1c71198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:23 +0000
Subject: [PATCH 25/35] fix: adjust the height of the GPS reference along the
 local vertical

---
 msf_core/src/lib/gps_conversion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_core/src/lib/gps_conversion.cc b/msf_core/src/lib/gps_conversion.cc
index c3ea1ec..bbf2bcf 100644
--- a/msf_core/src/lib/gps_conversion.cc
+++ b/msf_core/src/lib/gps_conversion.cc
@@ -95,7 +95,9 @@ msf_core::Vector3 GPSConversion::WGS84ToENU(const double latitude,
 void GPSConversion::AdjustReference(const double z_correction) {
 
   MSF_WARN_STREAM("z-ref old: "<< ecef_ref_point_(2));
-  ecef_ref_point_(2) += z_correction;
+  // The correction is along the local vertical, not along the z-axis of ECEF.
+  ecef_ref_point_ += ecef_ref_orientation_.conjugate()
+      * msf_core::Vector3(0, 0, z_correction);
   MSF_WARN_STREAM("z-ref new: "<< ecef_ref_point_(2));
 }
 
-- 
2.43.0


From 4b7ce050fa502ca0b1ef6edbb2725ba996462003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:05 +0000
Subject: [PATCH 26/35] fix: every position handler sets its own GPS reference

---
 .../implementation/position_sensorhandler.hpp            | 9 +++++----
 .../position_sensor_handler/position_sensorhandler.h     | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 1b08ff1..0537a00 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -30,7 +30,8 @@ PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::PositionSensorHandler(
     : SensorHandler<msf_updates::EKFState>(meas, topic_namespace,
                                            parameternamespace),
       n_zp_(1e-6),
-      delay_(0) {
+      delay_(0),
+      gps_reference_initialized_(false) {
   ros::NodeHandle pnh("~/position_sensor");
   pnh.param("position_use_fixed_covariance", use_fixed_covariance_, false);
   bool enable_tcp_no_delay;
@@ -190,14 +191,14 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << " ***");
 
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
-  static bool referenceinit = false;  //TODO (slynen): Dynreconf reset reference.
-  if (!referenceinit) {
+  // TODO (slynen): Dynreconf reset reference.
+  if (!gps_reference_initialized_) {
     gpsConversion_.InitReference(msg->latitude, msg->longitude, msg->altitude);
     MSF_WARN_STREAM(
         "Initialized GPS reference of topic: " << this->topic_namespace_ << "/"
             << subNavSatFix_.getTopic() << " to lat/lon/alt: [" << msg->latitude
             << ", " << msg->longitude << ", " << msg->altitude << "]");
-    referenceinit = true;
+    gps_reference_initialized_ = true;
   }
 
   msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
diff --git a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
index 8ba1970..092ed10 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
+++ b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
@@ -42,6 +42,7 @@ class PositionSensorHandler : public msf_core::SensorHandler<
   ros::Subscriber subTransformStamped_;
   ros::Subscriber subNavSatFix_;
   msf_core::GPSConversion gpsConversion_;
+  bool gps_reference_initialized_;  ///< Has the first fix set the reference?
 
   bool use_fixed_covariance_;  ///< Use fixed covariance set by dynamic reconfigure.
   bool provides_absolute_measurements_;  ///< Does this sensor measure relative or absolute values.
-- 
2.43.0


From dc21c74703c0eb97938cca809c6e08ce27712f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 27/35] fix: readings that come without an external state do
 not read past its end

---
 .../include/msf_core/msf_IMUHandler_ROS.h     | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index eb27c89..6818393 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -61,8 +61,12 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   virtual ~IMUHandler_ROS() { }
 
   void StateCallback(const sensor_fusion_comm::ExtEkfConstPtr & msg) {
-    static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
-        .SetHLControllerStateBuffer(*msg);
+    // The message may come without a (complete) state.
+    const bool has_state = msg->state.size() >= HLI_EKF_STATE_SIZE;
+    if (has_state) {
+      static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
+          .SetHLControllerStateBuffer(*msg);
+    }
 
     // Get the imu values.
     msf_core::Vector3 linacc;
@@ -75,7 +79,7 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
 
     int32_t flag = msg->flag;
     // Make sure we tell the HL to ignore if data playback is on.
-    if (this->manager_.GetDataPlaybackStatus())
+    if (this->manager_.GetDataPlaybackStatus() || !has_state)
       flag = sensor_fusion_comm::ExtEkf::ignore_state;
 
     bool isnumeric = true;
@@ -86,16 +90,19 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
     }
 
     // Get the propagated states.
-    msf_core::Vector3 p, v;
-    msf_core::Quaternion q;
-
-    p = Eigen::Matrix<double, 3, 1>(msg->state[0], msg->state[1],
-                                    msg->state[2]);
-    v = Eigen::Matrix<double, 3, 1>(msg->state[3], msg->state[4],
-                                    msg->state[5]);
-    q = Eigen::Quaternion<double>(msg->state[6], msg->state[7], msg->state[8],
-                                  msg->state[9]);
-    q.normalize();
+    msf_core::Vector3 p = msf_core::Vector3::Zero();
+    msf_core::Vector3 v = msf_core::Vector3::Zero();
+    msf_core::Quaternion q = msf_core::Quaternion::Identity();
+
+    if (has_state) {
+      p = Eigen::Matrix<double, 3, 1>(msg->state[0], msg->state[1],
+                                      msg->state[2]);
+      v = Eigen::Matrix<double, 3, 1>(msg->state[3], msg->state[4],
+                                      msg->state[5]);
+      q = Eigen::Quaternion<double>(msg->state[6], msg->state[7], msg->state[8],
+                                    msg->state[9]);
+      q.normalize();
+    }
 
     bool is_already_propagated = false;
     if (flag == sensor_fusion_comm::ExtEkf::current_state && isnumeric) {
-- 
2.43.0


From 737069e4d2ca92ec7fdce75330538a1506bfb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 28/35] fix: initial values of a measurement can be read and
 reset

---
 msf_core/include/msf_core/msf_measurement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/msf_measurement.h b/msf_core/include/msf_core/msf_measurement.h
index c089072..90a00c6 100644
--- a/msf_core/include/msf_core/msf_measurement.h
+++ b/msf_core/include/msf_core/msf_measurement.h
@@ -213,7 +213,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
    */
   template<int INDEX>
   void ResetStateInitValue() {
-    InitState.template get<INDEX>().hasResetValue = false;
+    InitState.template GetStateVariable<INDEX>().hasResetValue = false;
   }
 
   /**
@@ -224,7 +224,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
   const typename msf_tmp::StripReference<typename boost::fusion::result_of::at_c
   <StateSequence_T, INDEX >::type>::result_t::value_t&
   GetStateInitValue() const {
-    return InitState.template get<INDEX>();
+    return InitState.template Get<INDEX>();
   }
 
   virtual void Apply(shared_ptr<EKFState_T> stateWithCovariance, MSF_Core<EKFState_T>& core);
-- 
2.43.0


From cfdbad98adb25f4a10722bfa6e4a499678357ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 29/35] fix: the default initial covariance is symmetric

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index b4f1f73..2e05f0e 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = 0.5 * (P_core + P_core.transpose().eval());
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
-- 
2.43.0


From 12a39ec68e20e0d2472e5b4cdb9cb66d131896bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 30/35] fix: rounding errors do not leave the covariance
 asymmetric after an update

---
 .../include/msf_core/implementation/msf_measurement_inl.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..30fa2e0 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose().eval());
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose().eval());
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P = 0.5 * (state_new->P + state_new->P.transpose().eval());
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From c62284a21682db929d1643ad72c1645535c58341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 31/35] fix: matrices sized at run time are checked for finite
 values

---
 msf_core/include/msf_core/eigen_utils.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/msf_core/include/msf_core/eigen_utils.h b/msf_core/include/msf_core/eigen_utils.h
index 5c343ca..7732ff7 100644
--- a/msf_core/include/msf_core/eigen_utils.h
+++ b/msf_core/include/msf_core/eigen_utils.h
@@ -113,13 +113,8 @@ Eigen::Quaternion<typename Derived::Scalar> QuaternionFromSmallAngle(
 template<class D>
 bool CheckForNumeric(const Eigen::MatrixBase<D> & mat,
                      const std::string & info) {
-  enum {
-    rows = Eigen::MatrixBase < D > ::RowsAtCompileTime,
-    cols = Eigen::MatrixBase < D > ::ColsAtCompileTime
-  };
-
-  for (int i = 0; i < rows; ++i) {
-    for (int j = 0; j < cols; ++j) {
+  for (int i = 0; i < mat.rows(); ++i) {
+    for (int j = 0; j < mat.cols(); ++j) {
       if (std::isnan(mat(i, j))) {
         std::cerr << "=== ERROR ===  " << info << ": NAN at index [" << i << ","
             << j << "]" << std::endl;
-- 
2.43.0


From 608d9bfcf39656b18d78b4e01d6f1b936fbfe76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:19 +0000
Subject: [PATCH 32/35] fix: the noise block of a state variable can be read
 from a constant state

---
 msf_core/include/msf_core/implementation/msf_state_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_state_inl.h b/msf_core/include/msf_core/implementation/msf_state_inl.h
index 9309d20..df0343d 100644
--- a/msf_core/include/msf_core/implementation/msf_state_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_state_inl.h
@@ -105,7 +105,7 @@ template<int INDEX>
 inline const typename msf_tmp::StripReference<
     typename boost::fusion::result_of::at_c<stateVector_T, INDEX>::type>::result_t::Q_T&
 GenericState_T<stateVector_T, StateDefinition_T>::GetQBlock() const {
-  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q_;
+  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q;
 }
 
 /// Assembles a PoseWithCovarianceStamped message from the state
-- 
2.43.0


From 1346e805dc0be52838ae015788ae96d5c0678d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:22 +0000
Subject: [PATCH 33/35] fix: a refused height request does not keep the noise
 settings of the pose-pressure filter from being applied

---
 .../pose_pressure_msf/pose_pressure_sensormanager.h   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 19402ff..ccaef6d 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -86,6 +86,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
    */
   virtual void Config(Config_T &config, uint32_t level) {
     config_ = config;
+    // Pass the noise values to the sensor handlers.
+    pose_handler_->SetNoises(config.pose_noise_meas_p,
+                             config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
+    pressure_handler_->SetNoises(config.press_noise_meas_p);
     // Init call with "init filter" checkbox.
     if ((level & msf_updates::SinglePoseSensor_INIT_FILTER)
         && config.core_init_filter == true) {
@@ -105,12 +110,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
       Init(scale);
       config.core_set_height = false;
     }
-
-    // Pass the noise values to the sensor handlers.
-    pose_handler_->SetNoises(config.pose_noise_meas_p,
-                             config.pose_noise_meas_q);
-    pose_handler_->SetDelay(config.pose_delay);
-    pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
   void Init(double scale) const {
-- 
2.43.0


From 33b177a7fbb4b49109027628b1908da395d0c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 34/35] fix: a measurement without a matching state does not
 keep an earlier late one from reaching the newest state

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 2e05f0e..3af7624 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -657,6 +657,14 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     if (state->time <= 0) {
       MSF_ERROR_STREAM_THROTTLE(
           1, __FUNCTION__<< " GetClosestState returned an invalid state");
+      // The measurements before this one have only been propagated up to here.
+      if (it_curr != stateBuffer_.GetIteratorEnd()) {
+        typename StateBuffer_T::iterator_T it_rest = it_curr;
+        for (++it_rest; it_rest != stateBuffer_.GetIteratorEnd();
+            ++it_curr, ++it_rest) {
+          PropagateState(it_curr->second, it_rest->second);
+        }
+      }
       continue;
     }
 
-- 
2.43.0


From f945a3a1d719743984db8b1ff605845eb4c2a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 35/35] fix: a late measurement does not apply later ones twice
 to the state it shares with them

---
 .../msf_core/implementation/msf_core_inl.h    | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 3af7624..ac54c8f 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -641,6 +641,36 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   // No propagation if no update is applied.
   typename StateBuffer_T::iterator_T it_curr = stateBuffer_.GetIteratorEnd();
 
+  // A state serves all the measurements closer to it than a millisecond. If
+  // later ones may have been applied to the state of this one, start over with
+  // the first measurement sharing it, from the state before.
+  const double maxShared = 0.001;
+  typename measurementBufferT::iterator_T it_first = it_meas;
+  ++it_first;
+  if (it_first != it_meas_end
+      && it_first->second->time - measurement->time <= 2 * maxShared) {
+    it_first = it_meas;
+    while (it_first != MeasurementBuffer_.GetIteratorBegin()) {
+      typename measurementBufferT::iterator_T it_before = it_first;
+      --it_before;
+      if (it_first->second->time - it_before->second->time > 2 * maxShared)
+        break;
+      it_first = it_before;
+    }
+    const double restart = it_first->second->time - maxShared;
+    if (stateBuffer_.GetFirst()->time < restart) {
+      it_meas = it_first;
+      it_curr = stateBuffer_.GetIteratorClosestBefore(restart);
+      if (time_P_propagated > it_curr->second->time)
+        time_P_propagated = it_curr->second->time;
+      typename StateBuffer_T::iterator_T it_next = it_curr;
+      for (++it_next; it_next != stateBuffer_.GetIteratorEnd();
+          ++it_curr, ++it_next) {
+        PropagateState(it_curr->second, it_next->second);
+      }
+    }
+  }
+
   bool appliedOne = false;
 
   isfuzzyState_ = false;
-- 
2.43.0

