From 3f392660eb56e91ecb9c1342fd478733f1be2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 01/55] fix: geo: map_projection_reproject returned NaN for
 points at a pole

Rounding can push the asin argument just beyond 1; constrain it as map_projection_project does.
---
 geo/geo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index ec9e671..e928b50 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -142,7 +142,8 @@ int map_projection_reproject(const struct map_projection_reference_s *ref, float
 		const double sin_c = sin(c);
 		const double cos_c = cos(c);
 
-		const double lat_rad = asin(cos_c * ref->sin_lat + (x_rad * sin_c * ref->cos_lat) / c);
+		const double arg = math::constrain(cos_c * ref->sin_lat + (x_rad * sin_c * ref->cos_lat) / c, -1.0, 1.0);
+		const double lat_rad = asin(arg);
 		const double lon_rad = (ref->lon_rad + atan2(y_rad * sin_c, c * ref->cos_lat * cos_c - x_rad * ref->sin_lat * sin_c));
 
 		*lat = math::degrees(lat_rad);
-- 
2.43.0


From a91a4bb66fb278ac7dabaf5df25199b9259b81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 02/55] fix: geo: waypoint_from_heading_and_distance returned
 NaN for targets at a pole

---
 geo/geo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index e928b50..22e44c1 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -193,7 +193,8 @@ void waypoint_from_heading_and_distance(double lat_start, double lon_start, floa
 	double lat_start_rad = math::radians(lat_start);
 	double lon_start_rad = math::radians(lon_start);
 
-	*lat_target = asin(sin(lat_start_rad) * cos(radius_ratio) + cos(lat_start_rad) * sin(radius_ratio) * cos((double)bearing));
+	const double sin_lat_target = sin(lat_start_rad) * cos(radius_ratio) + cos(lat_start_rad) * sin(radius_ratio) * cos((double)bearing);
+	*lat_target = asin(math::constrain(sin_lat_target, -1.0, 1.0));
 	*lon_target = lon_start_rad + atan2(sin((double)bearing) * sin(radius_ratio) * cos(lat_start_rad),
 					    cos(radius_ratio) - sin(lat_start_rad) * sin(*lat_target));
 
-- 
2.43.0


From c26ec02630fbf5424fee31efe116fc6236fbc665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 03/55] fix: geo: distance functions returned NaN for antipodal
 points

Rounding can make the haversine exceed 1.
---
 geo/geo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index 22e44c1..9148579 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -167,7 +167,7 @@ float get_distance_to_next_waypoint(double lat_now, double lon_now, double lat_n
 
 	const double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(lat_now_rad) * cos(lat_next_rad);
 
-	const double c = atan2(sqrt(a), sqrt(1.0 - a));
+	const double c = atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0)));
 
 	return static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * 2.0 * c);
 }
@@ -418,7 +418,7 @@ float get_distance_to_point_global_wgs84(double lat_now, double lon_now, float a
 	double d_lon = y_rad - current_y_rad;
 
 	double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(current_x_rad) * cos(x_rad);
-	double c = 2 * atan2(sqrt(a), sqrt(1 - a));
+	double c = 2 * atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0)));
 
 	const float dxy = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * c);
 	const float dz = static_cast<float>(alt_now - alt_next);
-- 
2.43.0


From c2c51cb1bc737622105ed6813434ebbedb47f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 04/55] fix: geo: get_vector_to_next_waypoint_fast pointed
 around the globe across the date line

---
 geo/geo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index 9148579..fe8f0fa 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -239,7 +239,7 @@ get_vector_to_next_waypoint_fast(double lat_now, double lon_now, double lat_next
 	double lon_next_rad = math::radians(lon_next);
 
 	double d_lat = lat_next_rad - lat_now_rad;
-	double d_lon = lon_next_rad - lon_now_rad;
+	double d_lon = wrap_pi(lon_next_rad - lon_now_rad);
 
 	/* conscious mix of double and float trig function to maximize speed and efficiency */
 	*v_n = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * d_lat);
-- 
2.43.0


From e73a1cf3ca0621ea162526754758e25b5fa0a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 05/55] fix: EKF: magnetometer rejections were flagged one bit
 too low (X axis as vertical position)

---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..ce152b4 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
-- 
2.43.0


From 6e46b6d0006fdd4a8b44cd617fba872af592bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 06/55] fix: EKF: optical flow rejections were flagged one bit
 too low (X axis as height above ground)

---
 EKF/optflow_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..58c0fe3 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -245,10 +245,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From dcae6f775a9b718823149c64dfc3aa3d879c7a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 07/55] fix: EKF: declination error was not wrapped, so fields
 with declination near 180 degrees were pulled away from the reference

---
 EKF/mag_fusion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index ce152b4..70da50c 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -882,7 +882,7 @@ void Ekf::fuseDeclination(float decl_sigma)
 		Kfusion(row) = -HK9*(HK5*P(16,row) - P(17,row));
 	}
 
-	const float innovation = math::constrain(atan2f(magE, magN) - getMagDeclination(), -0.5f, 0.5f);
+	const float innovation = math::constrain(wrap_pi(atan2f(magE, magN) - getMagDeclination()), -0.5f, 0.5f);
 
 	const bool is_fused = measurementUpdate(Kfusion, Hfusion, innovation);
 
@@ -935,11 +935,11 @@ void Ekf::limitDeclination()
 	constexpr float decl_tolerance = 0.5f;
 	const float decl_max = decl_reference + decl_tolerance;
 	const float decl_min = decl_reference - decl_tolerance;
-	const float decl_estimate = atan2f(_state.mag_I(1) , _state.mag_I(0));
-	if (decl_estimate > decl_max)  {
+	const float decl_error = wrap_pi(atan2f(_state.mag_I(1) , _state.mag_I(0)) - decl_reference);
+	if (decl_error > decl_tolerance)  {
 		_state.mag_I(0) = h_field * cosf(decl_max);
 		_state.mag_I(1) = h_field * sinf(decl_max);
-	} else if (decl_estimate < decl_min)  {
+	} else if (decl_error < -decl_tolerance)  {
 		_state.mag_I(0) = h_field * cosf(decl_min);
 		_state.mag_I(1) = h_field * sinf(decl_min);
 	}
-- 
2.43.0


From b9c6e021071371278db6b21c2bf08607d5e90c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 08/55] fix: EKF: optical flow Y axis gains used the covariance
 from before the X axis fusion

---
 EKF/optflow_fusion.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index 58c0fe3..908610f 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -232,7 +232,6 @@ void Ekf::fuseOptFlow()
 		initialiseCovariance();
 		return;
 	}
-	const float HK95 = HK4/_flow_innov_var(1);
 
 
 	// run the innovation consistency check and record result
@@ -299,18 +298,22 @@ void Ekf::fuseOptFlow()
 			Hfusion.at<6>() = -HK4*HK79;
 
 			// Kalman gains - axis 1
-			Kfusion(0) = -HK87*HK95;
-			Kfusion(1) = -HK94*HK95;
-			Kfusion(2) = -HK91*HK95;
-			Kfusion(3) = -HK93*HK95;
-			Kfusion(4) = -HK90*HK95;
-			Kfusion(5) = -HK89*HK95;
-			Kfusion(6) = -HK88*HK95;
+			// The X axis fusion has changed the covariance, so use its current value to keep the gains consistent with it
+			float innov_var = R_LOS;
+			Kfusion.setZero();
+
+			for (unsigned row = 0; row <= 23; row++) {
+				for (unsigned i = 0; i < Hfusion.non_zeros(); i++) {
+					Kfusion(row) += P(Hfusion.index(i), row) * Hfusion.atCompressedIndex(i);
+				}
+			}
 
-			for (unsigned row = 7; row <= 23; row++) {
-				Kfusion(row) = -HK95*(HK80*P(0,row) + HK81*P(1,row) + HK82*P(2,row) + HK83*P(3,row) + HK84*P(4,row) + HK85*P(5,row) + HK86*P(6,row));
+			for (unsigned i = 0; i < Hfusion.non_zeros(); i++) {
+				innov_var += Kfusion(Hfusion.index(i)) * Hfusion.atCompressedIndex(i);
 			}
 
+			Kfusion /= innov_var;
+
 		}
 
 		const bool is_fused = measurementUpdate(Kfusion, Hfusion, _flow_innov(obs_index));
-- 
2.43.0


From 0f49545f0ecf49a8f68244626ccbafc18ca558d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 09/55] fix: EKF: optical flow gyro bias estimate used the
 wrong sign for the reference body rate

---
 EKF/optflow_fusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index 908610f..fc05bf5 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -352,7 +352,8 @@ bool Ekf::calcOptFlowBodyRateComp()
 		    && (_flow_sample_delayed.dt > FLT_EPSILON)
 		    && (fabsf(_delta_time_of - _flow_sample_delayed.dt) < 0.1f)) {
 
-			const Vector3f reference_body_rate(_imu_del_ang_of * (1.0f / _delta_time_of));
+			// the flow sensor gyro data are the negative of the body rotation
+			const Vector3f reference_body_rate(-_imu_del_ang_of * (1.0f / _delta_time_of));
 
 			const Vector3f measured_body_rate(_flow_sample_delayed.gyro_xyz * (1.0f / _flow_sample_delayed.dt));
 
-- 
2.43.0


From 432ea42ad77355aa6d5f395f1300453721cf69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 10/55] fix: decouple inhibited accel bias states after all
 covariances are predicted

---
 EKF/covariance.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index 94bafce..f6e084c 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -576,7 +576,6 @@ void Ekf::predictCovariance()
 		nextP(13,13) = kahanSummation(nextP(13,13), process_noise(13), _delta_vel_bias_var_accum(0));
 
 	} else {
-		nextP.uncorrelateCovarianceSetVariance<1>(13, _prev_dvel_bias_var(0));
 		_delta_vel_bias_var_accum(0) = 0.f;
 
 	}
@@ -605,7 +604,6 @@ void Ekf::predictCovariance()
 		nextP(14,14) = kahanSummation(nextP(14,14), process_noise(14), _delta_vel_bias_var_accum(1));
 
 	} else {
-		nextP.uncorrelateCovarianceSetVariance<1>(14, _prev_dvel_bias_var(1));
 		_delta_vel_bias_var_accum(1) = 0.f;
 
 	}
@@ -635,7 +633,6 @@ void Ekf::predictCovariance()
 		nextP(15,15) = kahanSummation(nextP(15,15), process_noise(15), _delta_vel_bias_var_accum(2));
 
 	} else {
-		nextP.uncorrelateCovarianceSetVariance<1>(15, _prev_dvel_bias_var(2));
 		_delta_vel_bias_var_accum(2) = 0.f;
 
 	}
@@ -838,6 +835,20 @@ void Ekf::predictCovariance()
 		}
 	}
 
+	// decouple inhibited delta velocity bias states, this needs to be done after all the covariances have been calculated
+	// because the blocks above also write the covariances of earlier states
+	if (_accel_bias_inhibit[0]) {
+		nextP.uncorrelateCovarianceSetVariance<1>(13, _prev_dvel_bias_var(0));
+	}
+
+	if (_accel_bias_inhibit[1]) {
+		nextP.uncorrelateCovarianceSetVariance<1>(14, _prev_dvel_bias_var(1));
+	}
+
+	if (_accel_bias_inhibit[2]) {
+		nextP.uncorrelateCovarianceSetVariance<1>(15, _prev_dvel_bias_var(2));
+	}
+
 	// covariance matrix is symmetrical, so copy upper half to lower half
 	for (unsigned row = 1; row < _k_num_states; row++) {
 		for (unsigned column = 0 ; column < row; column++) {
-- 
2.43.0


From 6ff1a0d3e8fc838b83aab4b96e7b49d6450987c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 11/55] fix: EKF: vertical innovation monitoring members were
 not initialised

---
 EKF/ekf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index ade36dd..9d8ec49 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -401,10 +401,10 @@ private:
 	Vector3f _last_vel_obs;			///< last velocity observation (m/s)
 	Vector3f _last_vel_obs_var;		///< last velocity observation variance (m/s)**2
 	Vector2f _last_fail_hvel_innov;		///< last failed horizontal velocity innovation (m/s)**2
-	float _vert_pos_innov_ratio;		///< vertical position innovation divided by estimated standard deviation of innovation
-	uint64_t _vert_pos_fuse_attempt_time_us;	///< last system time in usec vertical position measurement fuson was attempted
-	float _vert_vel_innov_ratio;		///< standard deviation of vertical velocity innovation
-	uint64_t _vert_vel_fuse_time_us;	///< last system time in usec time vertical velocity measurement fuson was attempted
+	float _vert_pos_innov_ratio{0.0f};		///< vertical position innovation divided by estimated standard deviation of innovation
+	uint64_t _vert_pos_fuse_attempt_time_us{0};	///< last system time in usec vertical position measurement fuson was attempted
+	float _vert_vel_innov_ratio{0.0f};		///< standard deviation of vertical velocity innovation
+	uint64_t _vert_vel_fuse_time_us{0};	///< last system time in usec time vertical velocity measurement fuson was attempted
 
 	Vector3f _gps_vel_innov;	///< GPS velocity innovations (m/sec)
 	Vector3f _gps_vel_innov_var;	///< GPS velocity innovation variances ((m/sec)**2)
-- 
2.43.0


From f6e61bb1f8e16576d3c999bf81e321ae146b7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 12/55] fix: EKF: division by zero when all sensor delays are
 shorter than the minimum sensor interval

---
 EKF/estimator_interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..0792c16 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -516,6 +516,9 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
 	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
 
+	// at least two observations are required to calculate the minimum interval between observations
+	_obs_buffer_length = math::max(_obs_buffer_length, (uint8_t)2);
+
 	if (!_imu_buffer.allocate(_imu_buffer_length) || !_output_buffer.allocate(_imu_buffer_length) || !_output_vert_buffer.allocate(_imu_buffer_length)) {
 		printBufferAllocationFailed("IMU and output");
 		return false;
-- 
2.43.0


From 87caed33210954bfc8a574aaf9e0561058b16771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 13/55] fix: EKF: sensor delays were subtracted in float,
 losing sample time resolution at large clock values

---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 0792c16..e423e7a 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<int64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<int64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<int64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<int64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<int64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<int64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<int64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<int64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From a476779d63acd7713e430106f2ec3c6c874f631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 14/55] fix: EKF: with GPS and vision odometry, fused GPS
 positions were not counted and GPS was reset every 14 s

---
 EKF/control.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 2a354f5..ab4c1e7 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -714,6 +714,9 @@ void Ekf::controlGpsFusion()
 			gps_pos_innov_gates(0) = fmaxf(_params.gps_pos_innov_gate, 1.0f);
 			gps_vel_innov_gates(0) = gps_vel_innov_gates(1) = fmaxf(_params.gps_vel_innov_gate, 1.0f);
 
+			// GPS position is absolute, also if vision position is fused as odometry
+			_fuse_hpos_as_odom = false;
+
 			// fuse GPS measurement
 			fuseHorizontalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
 			fuseVerticalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
-- 
2.43.0


From 429cd1dd530c346728acce2941c8dcaba608c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 15/55] fix: EKF: the first vision odometry sample was fused as
 a zero innovation with zero variance

---
 EKF/control.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index ab4c1e7..0c33864 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -229,6 +229,7 @@ void Ekf::controlExternalVisionFusion()
 
 			Vector3f ev_pos_obs_var;
 			Vector2f ev_pos_innov_gates;
+			bool ev_pos_obs_available = true;
 
 			// correct position and height for offset relative to IMU
 			const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
@@ -246,6 +247,7 @@ void Ekf::controlExternalVisionFusion()
 				if (!_hpos_prev_available) {
 					// no previous observation available to calculate position change
 					_hpos_prev_available = true;
+					ev_pos_obs_available = false;
 
 				} else {
 					// calculate the change in position since the last measurement
@@ -298,7 +300,9 @@ void Ekf::controlExternalVisionFusion()
 			// innovation gate size
 			ev_pos_innov_gates(0) = fmaxf(_params.ev_pos_innov_gate, 1.0f);
 
-			fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			if (ev_pos_obs_available) {
+				fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			}
 		}
 
 		// determine if we should use the velocity observations
-- 
2.43.0


From 097a87391e7bf8ff9cda50b678e4d9c3b1b9e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 16/55] fix: fault status word covers all 18 flags (the two
 accelerometer flags were not cleared by reset or seen in the solution status)

---
 EKF/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..37f3c85 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint16_t value;
+	uint32_t value;
 
 };
 
-- 
2.43.0


From 779bcdd4569d597fe044e8416c400eefc9cd10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 17/55] fix: resetting the estimator left the position validity
 and dead reckoning outputs of the previous run

---
 EKF/ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 6ca20cb..7116408 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -89,6 +89,10 @@ void Ekf::reset()
 	_fault_status.value = 0;
 	_innov_check_fail_status.value = 0;
 
+	_is_dead_reckoning = false;
+	_deadreckon_time_exceeded = true;
+	_using_synthetic_position = false;
+
 	_accel_magnitude_filt = 0.0f;
 	_ang_rate_magnitude_filt = 0.0f;
 	_prev_dvel_bias_var.zero();
-- 
2.43.0


From 7743fe85d68304f3a9218a94f1c8139f4487179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 18/55] fix: WindEstimator: initial covariance used the
 Jacobian for a heading with north and east swapped

---
 airdata/WindEstimator.cpp             | 12 ++++++------
 airdata/python/wind_est_derivation.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index f755893..b45b8c7 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -63,16 +63,16 @@ WindEstimator::initialise(const matrix::Vector3f &velI, const matrix::Vector2f &
 	float L1 = v_n * v_n;
 	float L2 = L0 + L1;
 	float L3 = tas_meas / (L2 * sqrtf(L2));
-	float L4 = L3 * v_e * v_n + 1.0f;
+	float L4 = L3 * v_e * v_n;
 	float L5 = 1.0f / sqrtf(L2);
-	float L6 = -L5 * tas_meas;
+	float L6 = 1.0f - L5 * tas_meas;
 
 	matrix::Matrix3f L;
 	L.setZero();
-	L(0, 0) = L4;
-	L(0, 1) = L0 * L3 + L6;
-	L(1, 0) = L1 * L3 + L6;
-	L(1, 1) = L4;
+	L(0, 0) = L1 * L3 + L6;
+	L(0, 1) = L4;
+	L(1, 0) = L4;
+	L(1, 1) = L0 * L3 + L6;
 	L(2, 2) = 1.0f;
 
 	// get an estimate of the state covariance matrix given the estimated variance of ground velocity
diff --git a/airdata/python/wind_est_derivation.py b/airdata/python/wind_est_derivation.py
index e05d580..a51e72e 100644
--- a/airdata/python/wind_est_derivation.py
+++ b/airdata/python/wind_est_derivation.py
@@ -172,7 +172,7 @@ write_simplified(P_m_simple, "beta_fusion.txt", "P_next")
 # wind covariance initialisation via velocity
 
 # estimate heading from ground velocity
-heading_est = atan2(v_n, v_e)
+heading_est = atan2(v_e, v_n)
 
 # calculate wind speed estimate from vehicle ground velocity, heading and
 # airspeed measurement
-- 
2.43.0


From a5573a7d3f03ee1a430de0f96a396a94306d44c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 19/55] fix: WindEstimator: process noise was fully correlated
 between north and east wind, so a wind change towards the north-west or
 south-east was not tracked

---
 airdata/WindEstimator.cpp             | 5 ++---
 airdata/python/wind_est_derivation.py | 9 +++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index b45b8c7..3e7ad28 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -120,14 +120,13 @@ WindEstimator::update(uint64_t time_now)
 
 	float SPP0 = dt * dt;
 	float SPP1 = SPP0 * q_w;
-	float SPP2 = SPP1 + _P(0, 1);
 
 	matrix::Matrix3f P_next;
 
 	P_next(0, 0) = SPP1 + _P(0, 0);
-	P_next(0, 1) = SPP2;
+	P_next(0, 1) = _P(0, 1);
 	P_next(0, 2) = _P(0, 2);
-	P_next(1, 0) = SPP2;
+	P_next(1, 0) = _P(0, 1);
 	P_next(1, 1) = SPP1 + _P(1, 1);
 	P_next(1, 2) = _P(1, 2);
 	P_next(2, 0) = _P(0, 2);
diff --git a/airdata/python/wind_est_derivation.py b/airdata/python/wind_est_derivation.py
index a51e72e..8d77f00 100644
--- a/airdata/python/wind_est_derivation.py
+++ b/airdata/python/wind_est_derivation.py
@@ -61,7 +61,8 @@ k_tas = Symbol("k_tas", real=True) # true airspeed scale factor
 state = Matrix([w_n, w_e, k_tas])
 
 # process noise
-q_w = Symbol("q_w", real=True) # process noise for wind states
+q_wn = Symbol("q_wn", real=True) # process noise for north wind state
+q_we = Symbol("q_we", real=True) # process noise for east wind state
 q_k_tas = Symbol("q_k_tas", real=True) # process noise for airspeed scale state
 
 # airspeed measurement noise
@@ -100,9 +101,9 @@ dt = Symbol("dt", real=True)
 # process model. We only need to provide formula for covariance prediction
 
 # create process noise matrix for covariance prediction
-state_new = state + Matrix([q_w, q_w, q_k_tas]) * dt
-Q = diag(q_w, q_k_tas)
-L = state_new.jacobian([q_w, q_k_tas])
+state_new = state + Matrix([q_wn, q_we, q_k_tas]) * dt
+Q = diag(q_wn, q_we, q_k_tas)
+L = state_new.jacobian([q_wn, q_we, q_k_tas])
 Q = L * Q * Transpose(L)
 
 # define symbolic covariance matrix
-- 
2.43.0


From 4572a5dfbd90385835e6c8d59040a3440e8b2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 20/55] fix: WindEstimator: initialised from NaN or infinite
 samples and reported the estimate valid

---
 airdata/WindEstimator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index 3e7ad28..0f46e89 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -47,6 +47,11 @@ WindEstimator::initialise(const matrix::Vector3f &velI, const matrix::Vector2f &
 		return false;
 	}
 
+	// do not initialise from invalid data
+	if (!ISFINITE(velI(0)) || !ISFINITE(velI(1)) || !ISFINITE(velIvar(0)) || !ISFINITE(velIvar(1)) || !ISFINITE(tas_meas)) {
+		return false;
+	}
+
 	const float v_n = velI(0);
 	const float v_e = velI(1);
 
-- 
2.43.0


From 7c0f208e42fd21832d0fb31df6dff194c7c1fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 21/55] fix: EKFGSF_yaw: tilt alignment with the nose exactly
 vertical gave NaN attitudes

---
 EKF/EKFGSF_yaw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EKF/EKFGSF_yaw.cpp b/EKF/EKFGSF_yaw.cpp
index 99c3133..aa647fd 100644
--- a/EKF/EKFGSF_yaw.cpp
+++ b/EKF/EKFGSF_yaw.cpp
@@ -182,7 +182,8 @@ void EKFGSF_yaw::ahrsAlignTilt()
 	const Vector3f down_in_bf = -_delta_vel.normalized();
 
 	// Calculate earth frame North axis unit vector rotated into body frame, orthogonal to 'down_in_bf'
-	const Vector3f i_vec_bf(1.0f,0.0f,0.0f);
+	// use the body Z axis when the body X axis is close to vertical and has no usable horizontal projection
+	const Vector3f i_vec_bf = (fabsf(down_in_bf(0)) < 0.999f) ? Vector3f(1.0f, 0.0f, 0.0f) : Vector3f(0.0f, 0.0f, 1.0f);
 	Vector3f north_in_bf = i_vec_bf - down_in_bf * (i_vec_bf.dot(down_in_bf));
 	north_in_bf.normalize();
 
-- 
2.43.0


From 9ed7923dacb63808a6af994e4b72c265602e016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 22/55] fix: EKFGSF_yaw: first order attitude update lost
 orthogonality (rotation matrices became singular under sustained rotation)

---
 EKF/EKFGSF_yaw.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/EKF/EKFGSF_yaw.cpp b/EKF/EKFGSF_yaw.cpp
index aa647fd..84f5bed 100644
--- a/EKF/EKFGSF_yaw.cpp
+++ b/EKF/EKFGSF_yaw.cpp
@@ -483,16 +483,8 @@ float EKFGSF_yaw::ahrsCalcAccelGain() const
 
 Matrix3f EKFGSF_yaw::ahrsPredictRotMat(const Matrix3f &R, const Vector3f &g)
 {
-	Matrix3f ret = R;
-	ret(0,0) += R(0,1) * g(2) - R(0,2) * g(1);
-	ret(0,1) += R(0,2) * g(0) - R(0,0) * g(2);
-	ret(0,2) += R(0,0) * g(1) - R(0,1) * g(0);
-	ret(1,0) += R(1,1) * g(2) - R(1,2) * g(1);
-	ret(1,1) += R(1,2) * g(0) - R(1,0) * g(2);
-	ret(1,2) += R(1,0) * g(1) - R(1,1) * g(0);
-	ret(2,0) += R(2,1) * g(2) - R(2,2) * g(1);
-	ret(2,1) += R(2,2) * g(0) - R(2,0) * g(2);
-	ret(2,2) += R(2,0) * g(1) - R(2,1) * g(0);
+	// a first order update would not preserve the orthogonality of the rows, which the renormalisation cannot restore
+	Matrix3f ret = R * Dcmf(AxisAnglef(g));
 
 	// Renormalise rows
 	for (uint8_t r = 0; r < 3; r++) {
-- 
2.43.0


From 4dce6b09791d969d9e4980f8469eb89b4bac92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 23/55] fix: the emergency yaw estimator was given the vertical
 position accuracy of GPS as its speed accuracy

---
 EKF/ekf_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..8f24922 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1654,9 +1654,9 @@ void Ekf::runYawEKFGSF()
 	_yawEstimator.update(_imu_sample_delayed, _control_status.flags.in_air, TAS, imu_gyro_bias);
 
 	// basic sanity check on GPS velocity data
-	if (_gps_data_ready && _gps_sample_delayed.vacc > FLT_EPSILON &&
+	if (_gps_data_ready && _gps_sample_delayed.sacc > FLT_EPSILON &&
 	    ISFINITE(_gps_sample_delayed.vel(0)) && ISFINITE(_gps_sample_delayed.vel(1))) {
-		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.vacc);
+		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.sacc);
 	}
 }
 
-- 
2.43.0


From 1ecb57007ddb1e7e15deb920c3eeebcbe1a74f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 24/55] fix: GPS messages without a 3D fix bypassed the GPS
 checks, so losing the fix neither failed a check nor restarted the required
 period of good data

---
 EKF/estimator_interface.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index e423e7a..add922a 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -187,7 +187,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 	const bool need_gps = (_params.fusion_mode & MASK_USE_GPS) || (_params.vdist_sensor_type == VDIST_SENSOR_GPS);
 
 	// TODO: remove checks that are not timing related
-	if (((gps.time_usec - _time_last_gps) > _min_obs_interval_us) && need_gps && gps.fix_type > 2) {
+	if (((gps.time_usec - _time_last_gps) > _min_obs_interval_us) && need_gps) {
 		_time_last_gps = gps.time_usec;
 
 		gpsSample gps_sample_new;
@@ -226,7 +226,10 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 			gps_sample_new.pos(1) = 0.0f;
 		}
 
-		_gps_buffer.push(gps_sample_new);
+		// messages without a 3D fix are checked, but do not contain usable data
+		if (gps.fix_type > 2) {
+			_gps_buffer.push(gps_sample_new);
+		}
 	}
 }
 
-- 
2.43.0


From 77e439e25a81d5c740050c42b129f999a87bd714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 25/55] fix: GPS height was selected before the origin was set,
 making the height wrong by the GPS altitude

---
 EKF/control.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 0c33864..084da65 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1044,14 +1044,15 @@ void Ekf::controlHeightFusion()
 
 		} else if (_control_status_prev.flags.rng_hgt && !do_range_aid) {
 			// must stop using range finder so find another sensor now
-			if (!_gps_hgt_intermittent && _gps_checks_passed) {
+			if (!_gps_hgt_intermittent && _gps_checks_passed && _NED_origin_initialised) {
 				// GPS quality OK
 				startGpsHgtFusion();
 			} else if (!_baro_hgt_faulty) {
 				// Use baro as a fallback
 				startBaroHgtFusion();
 			}
-		} else if (_control_status.flags.baro_hgt && !do_range_aid && !_gps_hgt_intermittent && _gps_checks_passed) {
+		} else if (_control_status.flags.baro_hgt && !do_range_aid && !_gps_hgt_intermittent && _gps_checks_passed
+			   && _NED_origin_initialised) {
 			// In baro fallback mode and GPS has recovered so start using it
 			startGpsHgtFusion();
 		}
-- 
2.43.0


From 7dddab95087e50dc685cf4cdaba0274d471bd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 26/55] fix: GPS drift check: signed overflow for clock values
 beyond 63 bits

---
 EKF/gps_checks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index c2fdca1..fcea107 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -176,7 +176,7 @@ bool Ekf::gps_is_good(const gps_message &gps)
 
 	// Calculate time lapsed since last update, limit to prevent numerical errors and calculate a lowpass filter coefficient
 	constexpr float filt_time_const = 10.0f;
-	const float dt = math::constrain(float(int64_t(_time_last_imu) - int64_t(_gps_pos_prev.timestamp)) * 1e-6f, 0.001f, filt_time_const);
+	const float dt = math::constrain(float(int64_t(_time_last_imu - _gps_pos_prev.timestamp)) * 1e-6f, 0.001f, filt_time_const);
 	const float filter_coef = dt / filt_time_const;
 
 	// The following checks are only valid when the vehicle is at rest
-- 
2.43.0


From fb4cb446af51ef987dc0fa32bbfda02d3eece2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 27/55] fix: division by zero when 256 magnetometer or baro
 samples arrive between two buffer entries

---
 EKF/estimator_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.h b/EKF/estimator_interface.h
index 843674d..659db10 100644
--- a/EKF/estimator_interface.h
+++ b/EKF/estimator_interface.h
@@ -418,7 +418,7 @@ private:
 	// Used to down sample barometer data
 	uint64_t _baro_timestamp_sum{0};	// summed timestamp to provide the timestamp of the averaged sample
 	float _baro_alt_sum{0.0f};			// summed pressure altitude readings (m)
-	uint8_t _baro_sample_count{0};		// number of barometric altitude measurements summed
+	uint32_t _baro_sample_count{0};		// number of barometric altitude measurements summed
 
 	// Used by the multi-rotor specific drag force fusion
 	uint8_t _drag_sample_count{0};	// number of drag specific force samples assumulated at the filter prediction rate
@@ -427,7 +427,7 @@ private:
 	// Used to downsample magnetometer data
 	uint64_t _mag_timestamp_sum{0};
 	Vector3f _mag_data_sum;
-	uint8_t _mag_sample_count{0};
+	uint32_t _mag_sample_count{0};
 
 	// observation buffer final allocation failed
 	bool _gps_buffer_fail{false};
-- 
2.43.0


From c0d290a3d5fdf3916e2e6dbc1a8758ecf4d52ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 28/55] fix: initialising a used estimator kept filters,
 timers, buffers and flags of the previous run (bad data seen once made it
 unusable for good)

---
 EKF/EKFGSF_yaw.cpp          |  13 +++
 EKF/EKFGSF_yaw.h            |   3 +
 EKF/RingBuffer.h            |  13 +++
 EKF/ekf.cpp                 | 206 +++++++++++++++++++++++++++++++++++-
 EKF/estimator_interface.cpp |  63 ++++++++++-
 EKF/imu_down_sampler.hpp    |   7 ++
 EKF/sensor_range_finder.cpp |  15 +++
 EKF/sensor_range_finder.hpp |   3 +
 8 files changed, 315 insertions(+), 8 deletions(-)

diff --git a/EKF/EKFGSF_yaw.cpp b/EKF/EKFGSF_yaw.cpp
index 84f5bed..f458771 100644
--- a/EKF/EKFGSF_yaw.cpp
+++ b/EKF/EKFGSF_yaw.cpp
@@ -2,6 +2,11 @@
 #include <cstdlib>
 
 EKFGSF_yaw::EKFGSF_yaw()
+{
+	reset();
+}
+
+void EKFGSF_yaw::reset()
 {
 	// this flag must be false when we start
 	_ahrs_ekf_gsf_tilt_aligned = false;
@@ -10,7 +15,15 @@ EKFGSF_yaw::EKFGSF_yaw()
 	memset(&_ahrs_ekf_gsf, 0, sizeof(_ahrs_ekf_gsf));
 	memset(&_ekf_gsf, 0, sizeof(_ekf_gsf));
 	_gsf_yaw = 0.0f;
+	_gsf_yaw_variance = 0.0f;
+	_model_weights.setZero();
 	_ahrs_accel.zero();
+
+	// forget velocity data from before
+	_ekf_gsf_vel_fuse_started = false;
+	_vel_data_updated = false;
+	_vel_NE.setZero();
+	_vel_accuracy = 0.0f;
 }
 
 void EKFGSF_yaw::update(const imuSample& imu_sample,
diff --git a/EKF/EKFGSF_yaw.h b/EKF/EKFGSF_yaw.h
index 3f74e50..fffdf14 100644
--- a/EKF/EKFGSF_yaw.h
+++ b/EKF/EKFGSF_yaw.h
@@ -39,6 +39,9 @@ public:
 	void setVelocity(const Vector2f &velocity, // NE velocity measurement (m/s)
 			float accuracy);	   // 1-sigma accuracy of velocity measurement (m/s)
 
+	// return to the state before the first update
+	void reset();
+
 	// get solution data for logging
 	bool getLogData(float *yaw_composite,
 			float *yaw_composite_variance,
diff --git a/EKF/RingBuffer.h b/EKF/RingBuffer.h
index bc36fcb..e945284 100644
--- a/EKF/RingBuffer.h
+++ b/EKF/RingBuffer.h
@@ -86,6 +86,19 @@ public:
 		return true;
 	}
 
+	// discard the content, keep the size
+	void reset()
+	{
+		for (uint8_t i = 0; i < _size; i++) {
+			_buffer[i] = data_type{};
+		}
+
+		_head = 0;
+		_tail = 0;
+
+		_first_write = true;
+	}
+
 	bool valid() const { return (_buffer != nullptr) && (_size > 0); }
 
 	void push(const data_type &sample)
diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 7116408..d92af20 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -62,12 +62,23 @@ void Ekf::reset()
 	_state.wind_vel.setZero();
 	_state.quat_nominal.setIdentity();
 
-	// TODO: who resets the output buffer content?
-	_output_new.vel.setZero();
-	_output_new.pos.setZero();
-	_output_new.quat_nominal.setIdentity();
+	_output_new = {};
+	_output_vert_new = {};
 
 	_delta_angle_corr.setZero();
+	_vel_err_integ.setZero();
+	_pos_err_integ.setZero();
+	_output_tracking_error.setZero();
+
+	_R_to_earth.setIdentity();
+	_R_to_earth_now.setIdentity();
+	_vel_imu_rel_body_ned.setZero();
+	_vel_deriv.setZero();
+	_earth_rate_NED.setZero();
+
+	P.setZero();
+	_delta_vel_bias_var_accum.setZero();
+	_delta_angle_bias_var_accum.setZero();
 
 	_imu_updated = false;
 	_NED_origin_initialised = false;
@@ -75,6 +86,7 @@ void Ekf::reset()
 
 	_filter_initialised = false;
 	_terrain_initialised = false;
+	_range_sensor.reset();
 	_range_sensor.setPitchOffset(_params.rng_sens_pitch);
 	_range_sensor.setCosMaxTilt(_params.range_cos_max_tilt);
 	_range_sensor.setQualityHysteresis(_params.range_valid_quality_s);
@@ -97,9 +109,193 @@ void Ekf::reset()
 	_ang_rate_magnitude_filt = 0.0f;
 	_prev_dvel_bias_var.zero();
 
-	_gps_alt_ref = 0.0f;
+	_accel_vec_filt.setZero();
+	_accel_bias_inhibit[0] = false;
+	_accel_bias_inhibit[1] = false;
+	_accel_bias_inhibit[2] = false;
+	_time_acc_bias_check = 0;
+	_is_wind_dead_reckoning = false;
 
+	_gps_alt_ref = 0.0f;
+	_last_gps_origin_time_us = 0;
+	_pos_ref = {};
+	_gps_origin_eph = 0.0f;
+	_gps_origin_epv = 0.0f;
+	_gps_yaw_offset = 0.0f;
+	_mag_declination_gps = NAN;
+	_mag_inclination_gps = NAN;
+	_mag_strength_gps = NAN;
+
+	// GPS quality checks
 	resetGpsDriftCheckFilters();
+	_gps_velD_diff_filt = 0.0f;
+	_gps_pos_prev = {};
+	_gps_alt_prev = 0.0f;
+	_gps_drift_metrics[0] = 0.0f;
+	_gps_drift_metrics[1] = 0.0f;
+	_gps_drift_metrics[2] = 0.0f;
+	_gps_drift_updated = false;
+	_last_gps_fail_us = 0;
+	_last_gps_pass_us = 0;
+	_gps_error_norm = 1.0f;
+	_gps_checks_passed = false;
+	_gps_check_fail_status.value = 0;
+
+	// initial alignment
+	_is_first_imu_sample = true;
+	_baro_counter = 0;
+	_mag_counter = 0;
+	_accel_lpf.reset(Vector3f{});
+	_gyro_lpf.reset(Vector3f{});
+	_mag_lpf.reset(Vector3f{});
+
+	// data readiness and fusion times
+	_gps_data_ready = false;
+	_mag_data_ready = false;
+	_baro_data_ready = false;
+	_flow_data_ready = false;
+	_ev_data_ready = false;
+	_tas_data_ready = false;
+	_flow_for_terrain_data_ready = false;
+
+	_time_prev_gps_us = 0;
+	_time_last_aiding = 0;
+	_time_last_hor_pos_fuse = 0;
+	_time_last_hgt_fuse = 0;
+	_time_last_hor_vel_fuse = 0;
+	_time_last_ver_vel_fuse = 0;
+	_time_last_delpos_fuse = 0;
+	_time_last_of_fuse = 0;
+	_time_last_flow_terrain_fuse = 0;
+	_time_last_arsp_fuse = 0;
+	_time_last_beta_fuse = 0;
+	_time_last_fake_pos = 0;
+	_time_last_gps_yaw_fuse = 0;
+	_delta_time_baro_us = 0;
+
+	_vert_pos_innov_ratio = 0.0f;
+	_vert_pos_fuse_attempt_time_us = 0;
+	_vert_vel_innov_ratio = 0.0f;
+	_vert_vel_fuse_time_us = 0;
+	_last_vel_obs.setZero();
+	_last_vel_obs_var.setZero();
+	_last_fail_hvel_innov.setZero();
+	_last_known_posNE.setZero();
+
+	// innovations
+	_gps_vel_innov.setZero();
+	_gps_vel_innov_var.setZero();
+	_gps_pos_innov.setZero();
+	_gps_pos_innov_var.setZero();
+	_ev_vel_innov.setZero();
+	_ev_vel_innov_var.setZero();
+	_ev_pos_innov.setZero();
+	_ev_pos_innov_var.setZero();
+	_baro_hgt_innov.setZero();
+	_baro_hgt_innov_var.setZero();
+	_rng_hgt_innov.setZero();
+	_rng_hgt_innov_var.setZero();
+	_aux_vel_innov.setZero();
+	_aux_vel_innov_var.setZero();
+	_heading_innov = 0.0f;
+	_heading_innov_var = 0.0f;
+	_mag_innov.setZero();
+	_mag_innov_var.setZero();
+	_drag_innov.setZero();
+	_drag_innov_var.setZero();
+	_airspeed_innov = 0.0f;
+	_airspeed_innov_var = 0.0f;
+	_beta_innov = 0.0f;
+	_beta_innov_var = 0.0f;
+	_hagl_innov = 0.0f;
+	_hagl_innov_var = 0.0f;
+	_flow_innov.setZero();
+	_flow_innov_var.setZero();
+	_yaw_test_ratio = 0.0f;
+	_mag_test_ratio.setZero();
+	_gps_vel_test_ratio.setZero();
+	_gps_pos_test_ratio.setZero();
+	_ev_vel_test_ratio.setZero();
+	_ev_pos_test_ratio.setZero();
+	_aux_vel_test_ratio.setZero();
+	_baro_hgt_test_ratio.setZero();
+	_rng_hgt_test_ratio.setZero();
+	_optflow_test_ratio = 0.0f;
+	_tas_test_ratio = 0.0f;
+	_hagl_test_ratio = 0.0f;
+	_beta_test_ratio = 0.0f;
+	_drag_test_ratio.setZero();
+
+	// external vision
+	_fuse_hpos_as_odom = false;
+	_hpos_prev_available = false;
+	_pos_meas_prev.setZero();
+	_hpos_pred_prev.setZero();
+	_R_ev_to_ekf.setIdentity();
+
+	// magnetometer and yaw fusion mode selection
+	_accel_lpf_NE.setZero();
+	_yaw_delta_ef = 0.0f;
+	_yaw_rate_lpf_ef = 0.0f;
+	_mag_bias_observable = false;
+	_yaw_angle_observable = false;
+	_time_yaw_started = 0;
+	_num_bad_flight_yaw_events = 0;
+	_mag_use_not_inhibit_us = 0;
+	_mag_inhibit_yaw_reset_req = false;
+	_last_static_yaw = 0.0f;
+	_mag_yaw_reset_req = false;
+	_mag_decl_cov_reset = false;
+	_synthetic_mag_z_active = false;
+	_non_mag_yaw_aiding_running_prev = false;
+	_is_yaw_fusion_inhibited = false;
+	_flt_mag_align_start_time = 0;
+	_time_last_mov_3d_mag_suitable = 0;
+	_saved_mag_bf_variance[0] = 0.0f;
+	_saved_mag_bf_variance[1] = 0.0f;
+	_saved_mag_bf_variance[2] = 0.0f;
+	_saved_mag_bf_variance[3] = 0.0f;
+	_saved_mag_ef_covmat.setZero();
+	_is_gps_yaw_faulty = false;
+
+	// optical flow
+	_flow_gyro_bias.setZero();
+	_imu_del_ang_of.setZero();
+	_delta_time_of = 0.0f;
+	_time_bad_motion_us = 0;
+	_time_good_motion_us = 0;
+	_inhibit_flow_use = false;
+	_flow_compensated_XY_rad.setZero();
+	_flow_vel_body.setZero();
+	_flow_vel_ne.setZero();
+
+	// height source selection and vertical acceleration checks
+	_hgt_sensor_offset = 0.0f;
+	_baro_hgt_offset = 0.0f;
+	_last_on_ground_posD = 0.0f;
+	_baro_hgt_faulty = false;
+	_gps_hgt_intermittent = false;
+	_velpos_reset_request = false;
+	_time_bad_vert_accel = 0;
+	_time_good_vert_accel = 0;
+	_bad_vert_accel_detected = false;
+	_clip_counter = 0;
+	_is_range_aid_suitable = false;
+	_height_rate_lpf = 0.0f;
+
+	// terrain estimator
+	_terrain_vpos = 0.0f;
+	_terrain_var = 1e4f;
+	_time_last_hagl_fuse = 0;
+	_time_last_fake_hagl_fuse = 0;
+	_hagl_valid = false;
+	_hagl_sensor_status.value = 0;
+
+	// emergency yaw estimator
+	_yawEstimator.reset();
+	_ekfgsf_yaw_reset_time = 0;
+	_do_ekfgsf_yaw_reset = false;
+	_ekfgsf_yaw_reset_count = 0;
 }
 
 bool Ekf::update()
diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index add922a..dfcdca3 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -527,10 +527,67 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 		return false;
 	}
 
+	// discard all data received before
+	_imu_buffer.reset();
+	_output_buffer.reset();
+	_output_vert_buffer.reset();
+	_gps_buffer.reset();
+	_mag_buffer.reset();
+	_baro_buffer.reset();
+	_range_buffer.reset();
+	_airspeed_buffer.reset();
+	_flow_buffer.reset();
+	_ext_vision_buffer.reset();
+	_drag_buffer.reset();
+	_auxvel_buffer.reset();
+
+	_newest_high_rate_imu_sample = {};
+	_imu_sample_delayed = {};
 	_imu_sample_delayed.time_us = timestamp;
-	_imu_sample_delayed.delta_vel_clipping[0] = false;
-	_imu_sample_delayed.delta_vel_clipping[1] = false;
-	_imu_sample_delayed.delta_vel_clipping[2] = false;
+
+	_mag_sample_delayed = {};
+	_baro_sample_delayed = {};
+	_gps_sample_delayed = {};
+	_airspeed_sample_delayed = {};
+	_flow_sample_delayed = {};
+	_ev_sample_delayed = {};
+	_drag_sample_delayed = {};
+	_auxvel_sample_delayed = {};
+
+	_imu_down_sampler.restart();
+
+	_time_last_imu = 0;
+	_time_last_gps = 0;
+	_time_last_mag = 0;
+	_time_last_baro = 0;
+	_time_last_range = 0;
+	_time_last_airspeed = 0;
+	_time_last_ext_vision = 0;
+	_time_last_optflow = 0;
+	_time_last_auxvel = 0;
+	_time_last_gnd_effect_on = 0;
+	_time_last_move_detect_us = 0;
+	_time_last_on_ground_us = 0;
+	_time_last_in_air = 0;
+
+	_dt_imu_avg = 0.0f;
+	_min_obs_interval_us = 0;
+
+	_delta_ang_prev.setZero();
+	_delta_vel_prev.setZero();
+	_vibe_metrics.setZero();
+
+	_baro_timestamp_sum = 0;
+	_baro_alt_sum = 0.0f;
+	_baro_sample_count = 0;
+
+	_mag_timestamp_sum = 0;
+	_mag_data_sum.setZero();
+	_mag_sample_count = 0;
+
+	_drag_down_sampled = {};
+	_drag_sample_count = 0;
+	_drag_sample_time_dt = 0.0f;
 
 	_fault_status.value = 0;
 
diff --git a/EKF/imu_down_sampler.hpp b/EKF/imu_down_sampler.hpp
index 17cdaf2..ca52ce5 100644
--- a/EKF/imu_down_sampler.hpp
+++ b/EKF/imu_down_sampler.hpp
@@ -52,6 +52,13 @@ public:
 
 	bool update(const imuSample &imu_sample_new);
 
+	// discard the samples collected so far and the collection time adjustment
+	void restart()
+	{
+		_do_reset = true;
+		_imu_collection_time_adj = 0.f;
+	}
+
 	imuSample getDownSampledImuAndTriggerReset()
 	{
 		_do_reset = true;
diff --git a/EKF/sensor_range_finder.cpp b/EKF/sensor_range_finder.cpp
index b4ea510..1a37984 100644
--- a/EKF/sensor_range_finder.cpp
+++ b/EKF/sensor_range_finder.cpp
@@ -45,6 +45,21 @@ namespace estimator
 namespace sensor
 {
 
+void SensorRangeFinder::reset()
+{
+	_sample = {};
+	_is_sample_ready = false;
+	_is_sample_valid = false;
+	_is_regularly_sending_data = false;
+	_time_last_valid_us = 0;
+	_is_stuck = false;
+	_stuck_min_val = 0.0f;
+	_stuck_max_val = 0.0f;
+	_dt_data_lpf = 0.0f;
+	_cos_tilt_rng_to_earth = 0.0f;
+	_time_bad_quality_us = 0;
+}
+
 void SensorRangeFinder::runChecks(const uint64_t current_time_us, const Dcmf &R_to_earth)
 {
 	updateSensorToEarthRotation(R_to_earth);
diff --git a/EKF/sensor_range_finder.hpp b/EKF/sensor_range_finder.hpp
index d0aa23e..4842217 100644
--- a/EKF/sensor_range_finder.hpp
+++ b/EKF/sensor_range_finder.hpp
@@ -59,6 +59,9 @@ public:
 	bool isDataHealthy() const override { return _is_sample_ready && _is_sample_valid; }
 	bool isRegularlySendingData() const override { return _is_regularly_sending_data; }
 
+	// discard the data received so far, keep the settings
+	void reset();
+
 	void setSample(const rangeSample &sample) {
 		_sample = sample;
 		_is_sample_ready = true;
-- 
2.43.0


From 5ac92301e3cd5a314ad21f53b54b0faabd73e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:07 +0000
Subject: [PATCH 29/55] fix: magnetic lookup converted NaN positions to an
 integer index (undefined behaviour)

---
 geo_lookup/geo_mag_declination.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geo_lookup/geo_mag_declination.cpp b/geo_lookup/geo_mag_declination.cpp
index 5b3d065..5300a85 100644
--- a/geo_lookup/geo_mag_declination.cpp
+++ b/geo_lookup/geo_mag_declination.cpp
@@ -63,6 +63,11 @@ static constexpr unsigned get_lookup_table_index(float *val, float min, float ma
 	/* limit to (table bounds - 1) because bilinear interpolation requires checking (index + 1) */
 	*val = constrain(*val, min, max - SAMPLING_RES);
 
+	/* NaN passes the limits and converting it to an integer is undefined (the result is NaN for any index) */
+	if (!(*val >= min)) {
+		*val = min;
+	}
+
 	return static_cast<unsigned>((-(min) + *val) / SAMPLING_RES);
 }
 
-- 
2.43.0


From 90749a77702956f29767c4fd51c3c8bab8fa361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 30/55] fix: when a quantity was reset more than once in one
 update, only the last change was reported

---
 EKF/ekf.cpp        | 12 ++++++++++
 EKF/ekf.h          | 12 ++++++++++
 EKF/ekf_helper.cpp | 56 +++++++++++++++++++++++++++++++++++++---------
 3 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index d92af20..9de6f04 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -332,9 +332,21 @@ bool Ekf::update()
 	// Use full rate IMU data at the current time horizon
 	calculateOutputStates(_newest_high_rate_imu_sample);
 
+	// the changes up to here can be read until the next call
+	saveStateResetCounters();
+
 	return updated;
 }
 
+void Ekf::saveStateResetCounters()
+{
+	_state_reset_count_prev.velNE = _state_reset_status.velNE_counter;
+	_state_reset_count_prev.velD = _state_reset_status.velD_counter;
+	_state_reset_count_prev.posNE = _state_reset_status.posNE_counter;
+	_state_reset_count_prev.posD = _state_reset_status.posD_counter;
+	_state_reset_count_prev.quat = _state_reset_status.quat_counter;
+}
+
 bool Ekf::initialiseFilter()
 {
 	// Filter accel for tilt initialization
diff --git a/EKF/ekf.h b/EKF/ekf.h
index 9d8ec49..9ef1e78 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -324,6 +324,15 @@ private:
 		Quatf quat_change;	///< quaternion delta due to last reset - multiply pre-reset quaternion by this to get post-reset quaternion
 	} _state_reset_status{};	///< reset event monitoring structure containing velocity, position, height and yaw reset information
 
+	// reset counters at the end of the previous call of update(), used to report the total change when a quantity is reset more than once
+	struct {
+		uint8_t velNE{0};
+		uint8_t velD{0};
+		uint8_t posNE{0};
+		uint8_t posD{0};
+		uint8_t quat{0};
+	} _state_reset_count_prev{};
+
 	float _dt_ekf_avg{FILTER_UPDATE_PERIOD_S}; ///< average update rate of the ekf
 
 	Vector3f _ang_rate_delayed_raw;	///< uncorrected angular rate vector at fusion time horizon (rad/sec)
@@ -541,6 +550,9 @@ private:
 	// initialise filter states of both the delayed ekf and the real time complementary filter
 	bool initialiseFilter(void);
 
+	// remember the reset counters: the changes reported from then on are relative to the state at that time
+	void saveStateResetCounters();
+
 	// initialise ekf covariance matrix
 	void initialiseCovariance();
 
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 8f24922..2af4281 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -136,7 +136,14 @@ void Ekf::resetHorizontalVelocityTo(const Vector2f &new_horz_vel)
 
 	_output_new.vel.xy() += delta_horz_vel;
 
-	_state_reset_status.velNE_change = delta_horz_vel;
+	if (_state_reset_status.velNE_counter == _state_reset_count_prev.velNE) {
+		_state_reset_status.velNE_change = delta_horz_vel;
+
+	} else {
+		// already reset since the last update, report the total change
+		_state_reset_status.velNE_change += delta_horz_vel;
+	}
+
 	_state_reset_status.velNE_counter++;
 }
 
@@ -153,7 +160,14 @@ void Ekf::resetVerticalVelocityTo(float new_vert_vel)
 	_output_new.vel(2) += delta_vert_vel;
 	_output_vert_new.vert_vel += delta_vert_vel;
 
-	_state_reset_status.velD_change = delta_vert_vel;
+	if (_state_reset_status.velD_counter == _state_reset_count_prev.velD) {
+		_state_reset_status.velD_change = delta_vert_vel;
+
+	} else {
+		// already reset since the last update, report the total change
+		_state_reset_status.velD_change += delta_vert_vel;
+	}
+
 	_state_reset_status.velD_counter++;
 }
 
@@ -227,27 +241,41 @@ void Ekf::resetHorizontalPositionTo(const Vector2f &new_horz_pos)
 
 	_output_new.pos.xy() += delta_horz_pos;
 
-	_state_reset_status.posNE_change = delta_horz_pos;
+	if (_state_reset_status.posNE_counter == _state_reset_count_prev.posNE) {
+		_state_reset_status.posNE_change = delta_horz_pos;
+
+	} else {
+		// already reset since the last update, report the total change
+		_state_reset_status.posNE_change += delta_horz_pos;
+	}
+
 	_state_reset_status.posNE_counter++;
 }
 
 void Ekf::resetVerticalPositionTo(const float &new_vert_pos)
 {
-	const float old_vert_pos = _state.pos(2);
+	const float delta_vert_pos = new_vert_pos - _state.pos(2);
 	_state.pos(2) = new_vert_pos;
 
 	// store the reset amount and time to be published
-	_state_reset_status.posD_change = new_vert_pos - old_vert_pos;
+	if (_state_reset_status.posD_counter == _state_reset_count_prev.posD) {
+		_state_reset_status.posD_change = delta_vert_pos;
+
+	} else {
+		// already reset since the last update, report the total change
+		_state_reset_status.posD_change += delta_vert_pos;
+	}
+
 	_state_reset_status.posD_counter++;
 
 	// apply the change in height / height rate to our newest height / height rate estimate
 	// which have already been taken out from the output buffer
-	_output_new.pos(2) += _state_reset_status.posD_change;
+	_output_new.pos(2) += delta_vert_pos;
 
 	// add the reset amount to the output observer buffered data
 	for (uint8_t i = 0; i < _output_buffer.get_length(); i++) {
-		_output_buffer[i].pos(2) += _state_reset_status.posD_change;
-		_output_vert_buffer[i].vert_vel_integ += _state_reset_status.posD_change;
+		_output_buffer[i].pos(2) += delta_vert_pos;
+		_output_vert_buffer[i].vert_vel_integ += delta_vert_pos;
 	}
 
 	// add the reset amount to the output observer vertical position state
@@ -1566,7 +1594,13 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	uncorrelateQuatFromOtherStates();
 
 	// record the state change
-	_state_reset_status.quat_change = q_error;
+	if (_state_reset_status.quat_counter == _state_reset_count_prev.quat) {
+		_state_reset_status.quat_change = q_error;
+
+	} else {
+		// already reset since the last update, report the total change
+		_state_reset_status.quat_change = (q_error * _state_reset_status.quat_change).normalized();
+	}
 
 	// update the yaw angle variance
 	if (yaw_variance > FLT_EPSILON) {
@@ -1576,12 +1610,12 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	// add the reset amount to the output observer buffered data
 	if (update_buffer) {
 		for (uint8_t i = 0; i < _output_buffer.get_length(); i++) {
-			_output_buffer[i].quat_nominal = _state_reset_status.quat_change * _output_buffer[i].quat_nominal;
+			_output_buffer[i].quat_nominal = q_error * _output_buffer[i].quat_nominal;
 		}
 
 		// apply the change in attitude quaternion to our newest quaternion estimate
 		// which was already taken out from the output buffer
-		_output_new.quat_nominal = _state_reset_status.quat_change * _output_new.quat_nominal;
+		_output_new.quat_nominal = q_error * _output_new.quat_nominal;
 
 	}
 
-- 
2.43.0


From f885f2ced4afe6fdbeed896a3f91f6896b4bce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 31/55] fix: vertical position derivative output was not
 corrected with one-entry buffers (all sensor delays zero)

---
 EKF/ekf.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 9de6f04..28e0a0c 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -689,16 +689,15 @@ void Ekf::applyCorrectionToVerticalOutputBuffer(float vert_vel_correction)
 
 	const uint8_t size = _output_vert_buffer.get_length();
 
+	// correct the velocity of the oldest state (the only one if the buffer has one entry)
+	_output_vert_buffer[index].vert_vel += vert_vel_correction;
+
 	for (uint8_t counter = 0; counter < (size - 1); counter++) {
 		const uint8_t index_next = (index + 1) % size;
-		outputVert &current_state = _output_vert_buffer[index];
+		const outputVert &current_state = _output_vert_buffer[index];
 		outputVert &next_state = _output_vert_buffer[index_next];
 
 		// correct the velocity
-		if (counter == 0) {
-			current_state.vert_vel += vert_vel_correction;
-		}
-
 		next_state.vert_vel += vert_vel_correction;
 
 		// position is propagated forward using the corrected velocity and a trapezoidal integrator
-- 
2.43.0


From 24bd267e1e00d355d46b23fe496947693865ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 32/55] fix: gyro and accelerometer bias variances were divided
 by the filter period instead of its square

---
 EKF/ekf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 9ef1e78..1db359e 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -224,8 +224,8 @@ public:
 	Vector3f getAccelBias() const { return _state.delta_vel_bias / _dt_ekf_avg; } // get the accelerometer bias in m/s**2
 	const Vector3f &getMagBias() const { return _state.mag_B; }
 
-	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / _dt_ekf_avg; } // get the gyroscope bias variance in rad/s
-	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / _dt_ekf_avg; } // get the accelerometer bias variance in m/s**2
+	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / sq(_dt_ekf_avg); } // get the gyroscope bias variance in (rad/s)**2
+	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / sq(_dt_ekf_avg); } // get the accelerometer bias variance in (m/s**2)**2
 	Vector3f getMagBiasVariance() const { return Vector3f{P(19, 19), P(20, 20), P(21, 21)}; }
 
 	// get GPS check status
-- 
2.43.0


From 43894741ad2dfd000535fb8cedb2828ccd627d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 33/55] fix: unused bits of the solution status word were not
 initialised

---
 EKF/ekf_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 2af4281..b5db52b 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -988,7 +988,7 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 // return a bitmask integer that describes which state estimates are valid
 void Ekf::get_ekf_soln_status(uint16_t *status) const
 {
-	ekf_solution_status soln_status;
+	ekf_solution_status soln_status{};
 	// TODO: Is this accurate enough?
 	soln_status.flags.attitude = _control_status.flags.tilt_align && _control_status.flags.yaw_align && (_fault_status.value == 0);
 	soln_status.flags.velocity_horiz = (isHorizontalAidingActive() || (_control_status.flags.fuse_beta && _control_status.flags.fuse_aspd)) && (_fault_status.value == 0);
-- 
2.43.0


From f46fb0fa4162e7d96f9fa13ff0a6f9d28895d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 34/55] fix: the reported height test ratio was not set when no
 height source is in use

---
 EKF/ekf_helper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index b5db52b..4fe23d4 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -975,6 +975,10 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 
 	} else if (_control_status.flags.ev_hgt) {
 		hgt = sqrtf(_ev_pos_test_ratio(1));
+
+	} else {
+		// no height source
+		hgt = NAN;
 	}
 
 	// return the airspeed fusion innovation test ratio
-- 
2.43.0


From 230e7336f166351a569e476711dfc059838a9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 35/55] fix: the heading innovation of a rejected measurement
 was not reported, only its variance and test ratio

---
 EKF/mag_fusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 70da50c..e2099a7 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -633,6 +633,8 @@ void Ekf::updateQuaternion(const float innovation, const float variance, const f
 		}
 	}
 
+	_heading_innov = innovation;
+
 	// innovation test ratio
 	_yaw_test_ratio = sq(innovation) / (sq(gate_sigma) * _heading_innov_var);
 
@@ -659,7 +661,6 @@ void Ekf::updateQuaternion(const float innovation, const float variance, const f
 
 	} else {
 		_innov_check_fail_status.flags.reject_yaw = false;
-		_heading_innov = innovation;
 	}
 
 	// apply covariance correction via P_new = (I -K*H)*P
-- 
2.43.0


From d083c01a43973f09a7fca2b00f1cfd4e850d0cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:02 +0000
Subject: [PATCH 36/55] fix: terrain estimate is valid only from measurements

When the terrain estimator starts in flight from flow data alone, the
guess it starts from was counted as a range measurement: the estimate was
reported valid, supported by the range finder, for 5 s. The flow sensor
was also reported as supporting the estimate for 5 s after the filter
initialised, without any flow data. Record a fusion time only when range
data, ground contact or flow data set the estimate.
---
 EKF/ekf.cpp               |  1 -
 EKF/terrain_estimator.cpp | 12 +++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 28e0a0c..83b954d 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -435,7 +435,6 @@ bool Ekf::initialiseFilter()
 	_time_last_delpos_fuse = _time_last_imu;
 	_time_last_hor_vel_fuse = _time_last_imu;
 	_time_last_hagl_fuse = _time_last_imu;
-	_time_last_flow_terrain_fuse = _time_last_imu;
 	_time_last_of_fuse = _time_last_imu;
 
 	// reset the output predictor state history to match the EKF initial values
diff --git a/EKF/terrain_estimator.cpp b/EKF/terrain_estimator.cpp
index 380fe1f..d565530 100644
--- a/EKF/terrain_estimator.cpp
+++ b/EKF/terrain_estimator.cpp
@@ -53,6 +53,7 @@ bool Ekf::initHagl()
 		// use the ground clearance value as our uncertainty
 		_terrain_var = sq(_params.rng_gnd_clearance);
 		_time_last_fake_hagl_fuse = _time_last_imu;
+		_time_last_hagl_fuse = _time_last_imu;
 		initialized = true;
 
 	} else if (shouldUseRangeFinderForHagl()
@@ -61,12 +62,14 @@ bool Ekf::initHagl()
 		_terrain_vpos = _state.pos(2) + _range_sensor.getDistBottom();
 		// initialise state variance to variance of measurement
 		_terrain_var = sq(_params.range_noise);
-		// success
+		// a valid measurement has been used
+		_time_last_hagl_fuse = _time_last_imu;
 		initialized = true;
 
 	} else if (shouldUseOpticalFlowForHagl()
 		   && _flow_for_terrain_data_ready) {
-		// initialise terrain vertical position to origin as this is the best guess we have
+		// initialise terrain vertical position to origin as this is the best guess we have,
+		// the estimate becomes valid when a flow measurement has been fused
 		_terrain_vpos = fmaxf(0.0f,  _state.pos(2));
 		_terrain_var = 100.0f;
 		initialized = true;
@@ -75,11 +78,6 @@ bool Ekf::initHagl()
 		// no information - cannot initialise
 	}
 
-	if (initialized) {
-		// has initialized with valid data
-		_time_last_hagl_fuse = _time_last_imu;
-	}
-
 	return initialized;
 }
 
-- 
2.43.0


From 9a3c6bfba824c3b91fa1ff0bf27df2da5a455690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 37/55] fix: a request to set the origin to an invalid location
 was accepted

---
 EKF/ekf_helper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 4fe23d4..2917459 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -723,6 +723,13 @@ bool Ekf::getEkfGlobalOrigin(uint64_t &origin_time, double &latitude, double &lo
 
 bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, const float altitude)
 {
+	// refuse a position which does not exist and an altitude outside the range between the deepest ocean and the edge of space
+	if (!ISFINITE(latitude) || (fabs(latitude) > 90.0)
+	    || !ISFINITE(longitude) || (fabs(longitude) > 180.0)
+	    || !ISFINITE(altitude) || (altitude < -12000.f) || (altitude > 100000.f)) {
+		return false;
+	}
+
 	bool current_pos_available = false;
 	double current_lat = static_cast<double>(NAN);
 	double current_lon = static_cast<double>(NAN);
-- 
2.43.0


From 03609a98ec23a5e19f9345fd0e50222121047c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 38/55] fix: the reported time of the origin was not updated
 when the origin is set externally

---
 EKF/ekf_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 2917459..ef7a5ab 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -744,6 +744,8 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 
 	// reinitialize map projection to latitude, longitude, altitude, and reset position
 	if (map_projection_init_timestamped(&_pos_ref, latitude, longitude, _time_last_imu) == 0) {
+		_last_gps_origin_time_us = _time_last_imu;
+
 		if (current_pos_available) {
 			// reset horizontal position
 			Vector2f position;
-- 
2.43.0


From 4bd243dda07a3f27cec60bf18e97b8c2874d165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 39/55] fix: after moving the origin buffered positions still
 referred to the old one

---
 EKF/ekf.h          |  3 +++
 EKF/ekf_helper.cpp | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 1db359e..f9aa63d 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -638,6 +638,9 @@ private:
 
 	inline void resetHorizontalPositionTo(const Vector2f &new_horz_pos);
 
+	// express a horizontal position relative to another origin in the current local frame
+	void changePositionReference(const map_projection_reference_s &pos_ref_prev, Vector2f &pos) const;
+
 	inline void resetVerticalPositionTo(const float &new_vert_pos);
 
 	void resetHeight();
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index ef7a5ab..8004801 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -734,6 +734,7 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 	double current_lat = static_cast<double>(NAN);
 	double current_lon = static_cast<double>(NAN);
 	float current_alt  = 0.f;
+	const map_projection_reference_s pos_ref_prev = _pos_ref;
 
 	// if we are already doing aiding, correct for the change in position since the EKF started navigating
 	if (map_projection_initialized(&_pos_ref) && isHorizontalAidingActive()) {
@@ -746,11 +747,22 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 	if (map_projection_init_timestamped(&_pos_ref, latitude, longitude, _time_last_imu) == 0) {
 		_last_gps_origin_time_us = _time_last_imu;
 
+		// express the GPS positions, which have been received but not used, relative to the new origin
+		if (map_projection_initialized(&pos_ref_prev)) {
+			for (uint8_t i = 0; i < _gps_buffer.get_length(); i++) {
+				changePositionReference(pos_ref_prev, _gps_buffer[i].pos);
+			}
+
+			changePositionReference(pos_ref_prev, _gps_sample_delayed.pos);
+		}
+
 		if (current_pos_available) {
 			// reset horizontal position
 			Vector2f position;
 			map_projection_project(&_pos_ref, current_lat, current_lon, &position(0), &position(1));
 			resetHorizontalPositionTo(position);
+			changePositionReference(pos_ref_prev, _last_known_posNE);
+			changePositionReference(pos_ref_prev, _hpos_pred_prev);
 
 			// reset altitude
 			_gps_alt_ref = altitude;
@@ -766,6 +778,15 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 	return false;
 }
 
+// express a horizontal position relative to another origin in the current local frame
+void Ekf::changePositionReference(const map_projection_reference_s &pos_ref_prev, Vector2f &pos) const
+{
+	double lat;
+	double lon;
+	map_projection_reproject(&pos_ref_prev, pos(0), pos(1), &lat, &lon);
+	map_projection_project(&_pos_ref, lat, lon, &pos(0), &pos(1));
+}
+
 /*
 	First argument returns GPS drift  metrics in the following array locations
 	0 : Horizontal position drift rate (m/s)
-- 
2.43.0


From fb4a3569407d36b6d32872834f7b1673b847e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 40/55] fix: after moving the origin the height references and
 the terrain still referred to the old one

---
 EKF/ekf_helper.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 8004801..0539259 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -765,8 +765,20 @@ bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, cons
 			changePositionReference(pos_ref_prev, _hpos_pred_prev);
 
 			// reset altitude
+			const float vert_pos_prev = _state.pos(2);
 			_gps_alt_ref = altitude;
 			resetVerticalPositionTo(_gps_alt_ref - current_alt);
+
+			// all heights measured from the origin change by the same amount
+			const float delta_vert_pos = _state.pos(2) - vert_pos_prev;
+			_baro_hgt_offset += delta_vert_pos;
+			_terrain_vpos += delta_vert_pos;
+			_last_on_ground_posD += delta_vert_pos;
+
+			if (_control_status.flags.rng_hgt) {
+				_hgt_sensor_offset += delta_vert_pos;
+			}
+
 		} else {
 			// reset altitude
 			_gps_alt_ref = altitude;
-- 
2.43.0


From fd0d8fb493fb4a8f68d9c847fe2396e89dd4fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 41/55] fix: GPS replaced the altitude of an origin set before

---
 EKF/gps_checks.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index fcea107..81f7a0f 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -76,10 +76,11 @@ bool Ekf::collect_gps(const gps_message &gps)
 				map_projection_reproject(&_pos_ref, -_state.pos(0), -_state.pos(1), &est_lat, &est_lon);
 				map_projection_init_timestamped(&_pos_ref, est_lat, est_lon, _time_last_imu);
 			}
+
+			// Take the current GPS height and subtract the filter height above origin to estimate the GPS height of the origin
+			_gps_alt_ref = 1e-3f * (float)gps.alt + _state.pos(2);
 		}
 
-		// Take the current GPS height and subtract the filter height above origin to estimate the GPS height of the origin
-		_gps_alt_ref = 1e-3f * (float)gps.alt + _state.pos(2);
 		_NED_origin_initialised = true;
 		_earth_rate_NED = calcEarthRateNED((float)_pos_ref.lat_rad);
 		_last_gps_origin_time_us = _time_last_imu;
-- 
2.43.0


From ccf9861736fbec3306458c22ffae7602505ad440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 42/55] fix: GPS samples received before the origin was set
 were used as if taken at the origin

---
 EKF/gps_checks.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index 81f7a0f..abeed08 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -85,6 +85,9 @@ bool Ekf::collect_gps(const gps_message &gps)
 		_earth_rate_NED = calcEarthRateNED((float)_pos_ref.lat_rad);
 		_last_gps_origin_time_us = _time_last_imu;
 
+		// the samples received so far do not contain a position relative to the origin
+		_gps_buffer.reset();
+
 		const bool declination_was_valid = ISFINITE(_mag_declination_gps);
 
 		// set the magnetic field data returned by the geo library using the current GPS position
-- 
2.43.0


From d296a31134ca21d3825d6b10d21374ebb7d2b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 43/55] fix: no height source was left when GPS fusion stopped
 while GPS was used for height

---
 EKF/ekf_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 0539259..99194c7 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1512,7 +1512,12 @@ void Ekf::stopGpsFusion()
 void Ekf::stopGpsPosFusion()
 {
 	_control_status.flags.gps = false;
-	_control_status.flags.gps_hgt = false;
+
+	// do not leave the filter without a height source
+	if (_control_status.flags.gps_hgt) {
+		startBaroHgtFusion();
+	}
+
 	_gps_pos_innov.setZero();
 	_gps_pos_innov_var.setZero();
 	_gps_pos_test_ratio.setZero();
-- 
2.43.0


From 0b68dab53e258f391633fe140d838480c88210ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 44/55] fix: vision measurements were still fused after being
 deselected

---
 EKF/control.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 084da65..c3fe192 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -187,6 +187,19 @@ void Ekf::controlFusionModes()
 
 void Ekf::controlExternalVisionFusion()
 {
+	// stop using vision measurements which are no longer selected
+	if (_control_status.flags.ev_pos && !(_params.fusion_mode & MASK_USE_EVPOS)) {
+		stopEvPosFusion();
+	}
+
+	if (_control_status.flags.ev_vel && !(_params.fusion_mode & MASK_USE_EVVEL)) {
+		stopEvVelFusion();
+	}
+
+	if (_control_status.flags.ev_yaw && !(_params.fusion_mode & MASK_USE_EVYAW)) {
+		stopEvYawFusion();
+	}
+
 	// Check for new external vision data
 	if (_ev_data_ready) {
 
-- 
2.43.0


From 454517d6b2e86f21af21ab63fe08d9f559adfde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 45/55] fix: optical flow aiding was not stopped when
 deselected while the data is unusable

---
 EKF/control.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index c3fe192..4a8e242 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -492,7 +492,9 @@ void Ekf::controlOpticalFlowFusion()
 			}
 		}
 
-	} else if (_control_status.flags.opt_flow && (_imu_sample_delayed.time_us >  _flow_sample_delayed.time_us + (uint64_t)10e6)) {
+	} else if (_control_status.flags.opt_flow
+		   && (!(_params.fusion_mode & MASK_USE_OF)
+		       || (_imu_sample_delayed.time_us > _flow_sample_delayed.time_us + (uint64_t)10e6))) {
 		stopFlowFusion();
 	}
 }
-- 
2.43.0


From 6caca9e279f65ac5ba08fc3ed9cc2e27cfe3fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 46/55] fix: GPS yaw aiding was not stopped when data stopped
 while GPS was not used for position

---
 EKF/control.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 4a8e242..4ac3827 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -752,6 +752,10 @@ void Ekf::controlGpsFusion()
 		stopGpsFusion();
 		_warning_events.flags.gps_data_stopped_using_alternate = true;
 		ECL_WARN("GPS data stopped, using only EV, OF or air data" );
+
+	} else if (_control_status.flags.gps_yaw && (_imu_sample_delayed.time_us - _gps_sample_delayed.time_us > (uint64_t)10e6)) {
+		// GPS is used for yaw only
+		stopGpsYawFusion();
 	}
 }
 
-- 
2.43.0


From 3771a9997e314214ce3d1a4a97c3a4aeeec98067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 47/55] fix: the heading was never aligned with indoor
 magnetometer fusion, so GPS and vision were never used

---
 EKF/control.cpp    | 4 ++++
 EKF/ekf_helper.cpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 4ac3827..a11e16b 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -544,6 +544,10 @@ void Ekf::controlGpsFusion()
 								       _mag_inhibit_yaw_reset_req;
 				if (want_to_reset_mag_heading && canResetMagHeading()) {
 					_control_status.flags.ev_yaw = false;
+
+					// the heading relative to true North is required from now on
+					_is_yaw_fusion_inhibited = false;
+
 					_control_status.flags.yaw_align = resetMagHeading(_mag_lpf.getState());
 					// Handle the special case where we have not been constraining yaw drift or learning yaw bias due
 					// to assumed invalid mag field associated with indoor operation with a downwards looking flow sensor.
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 99194c7..8b7c964 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -517,7 +517,8 @@ bool Ekf::resetMagHeading(const Vector3f &mag_init, bool increase_yaw_var, bool
 			yaw_new_variance = fmaxf(_ev_sample_delayed.angVar, sq(1.0e-2f));
 		}
 
-	} else if (_params.mag_fusion_type <= MAG_FUSE_TYPE_3D) {
+	} else if ((_params.mag_fusion_type <= MAG_FUSE_TYPE_3D)
+		   || (_params.mag_fusion_type == MAG_FUSE_TYPE_INDOOR && !_is_yaw_fusion_inhibited)) {
 		// rotate the magnetometer measurements into earth frame using a zero yaw angle
 		const Dcmf R_to_earth = updateYawInRotMat(0.f, _R_to_earth);
 
-- 
2.43.0


From 729016d68ece489be488d8965206f4ca123d5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:47 +0000
Subject: [PATCH 48/55] fix: height was reset to GPS after loss of barometer
 data although GPS had not passed its checks or no origin was set

---
 EKF/control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index a11e16b..84a7636 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -832,7 +832,7 @@ void Ekf::controlHeightSensorTimeouts()
 			const bool prev_bad_vert_accel = isRecent(_time_bad_vert_accel, BADACC_PROBATION);
 
 			// reset to GPS if adequate GPS data is available and the timeout cannot be blamed on IMU data
-			const bool reset_to_gps = !_gps_hgt_intermittent &&
+			const bool reset_to_gps = !_gps_hgt_intermittent && _gps_checks_passed && _NED_origin_initialised &&
 					    ((gps_hgt_accurate && !prev_bad_vert_accel) || _baro_hgt_faulty);
 
 			if (reset_to_gps) {
-- 
2.43.0


From 28170b40e5fcc96d7c02f4bb19f23e5bc64bfeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:55 +0000
Subject: [PATCH 49/55] fix: GPS height used as the last fallback was not fused
 in range and vision height modes, only reset to every 5 s

---
 EKF/control.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 84a7636..8a4c3ad 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1048,6 +1048,10 @@ void Ekf::controlHeightFusion()
 		} else if (_control_status.flags.baro_hgt && _baro_data_ready && !_baro_hgt_faulty) {
 			// fuse baro data if there was a reset to baro
 			fuse_height = true;
+
+		} else if (_control_status.flags.gps_hgt && _gps_data_ready && !_gps_hgt_intermittent) {
+			// fuse gps data if there was a reset to gps
+			fuse_height = true;
 		}
 
 		break;
@@ -1100,6 +1104,10 @@ void Ekf::controlHeightFusion()
 		if (_control_status.flags.baro_hgt && _baro_data_ready && !_baro_hgt_faulty) {
 			// switch to baro if there was a reset to baro
 			fuse_height = true;
+
+		} else if (_control_status.flags.gps_hgt && _gps_data_ready && !_gps_hgt_intermittent) {
+			// switch to gps if there was a reset to gps
+			fuse_height = true;
 		}
 
 		// determine if we should use the vertical position observation
-- 
2.43.0


From 1b0f035b7023a6a9c26e8b334a6330d6d4fdd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:51 +0000
Subject: [PATCH 50/55] fix: delays of range finder and flow data for the
 terrain estimate and of GPS and vision data for height were not covered by
 the fusion delay

---
 EKF/estimator_interface.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index dfcdca3..566e4de 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -490,20 +490,23 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 		max_time_delay_ms = math::max(_params.mag_delay_ms, max_time_delay_ms);
 	}
 
-	// range aid or range height
-	if (_params.range_aid || (_params.vdist_sensor_type == VDIST_SENSOR_RANGE)) {
+	// range aid, range height or terrain estimation
+	if (_params.range_aid || (_params.vdist_sensor_type == VDIST_SENSOR_RANGE)
+	    || (_params.terrain_fusion_mode & TerrainFusionMask::TerrainFuseRangeFinder)) {
 		max_time_delay_ms = math::max(_params.range_delay_ms, max_time_delay_ms);
 	}
 
-	if (_params.fusion_mode & MASK_USE_GPS) {
+	if ((_params.fusion_mode & MASK_USE_GPS) || (_params.vdist_sensor_type == VDIST_SENSOR_GPS)) {
 		max_time_delay_ms = math::max(_params.gps_delay_ms, max_time_delay_ms);
 	}
 
-	if (_params.fusion_mode & MASK_USE_OF) {
+	if ((_params.fusion_mode & MASK_USE_OF)
+	    || (_params.terrain_fusion_mode & TerrainFusionMask::TerrainFuseOpticalFlow)) {
 		max_time_delay_ms = math::max(_params.flow_delay_ms, max_time_delay_ms);
 	}
 
-	if (_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) {
+	if ((_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL))
+	    || (_params.vdist_sensor_type == VDIST_SENSOR_EV)) {
 		max_time_delay_ms = math::max(_params.ev_delay_ms, max_time_delay_ms);
 	}
 
-- 
2.43.0


From 8e6c1dbc4ab2c381a279e2a0ddfae452ce24b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:38 +0000
Subject: [PATCH 51/55] fix: heading from external vision was ignored when
 magnetometer yaw was inhibited

---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index e2099a7..13cef12 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -744,7 +744,7 @@ void Ekf::fuseHeading()
 
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
-		if (_is_yaw_fusion_inhibited) {
+		if (_is_yaw_fusion_inhibited && !_control_status.flags.ev_yaw) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
 			if (!_control_status.flags.vehicle_at_rest) {
@@ -795,7 +795,7 @@ void Ekf::fuseHeading()
 
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
-		if (_is_yaw_fusion_inhibited) {
+		if (_is_yaw_fusion_inhibited && !_control_status.flags.ev_yaw) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
 			if (!_control_status.flags.vehicle_at_rest) {
-- 
2.43.0


From d146ed4555db3ac0ad8908fc9c84f35c5dd590a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:14 +0000
Subject: [PATCH 52/55] fix: quaternion covariance was not rotated with the
 quaternion on a yaw reset

---
 EKF/ekf_helper.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 8b7c964..1c3155d 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1645,6 +1645,19 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	_state.quat_nominal = quat_after_reset;
 	uncorrelateQuatFromOtherStates();
 
+	// rotate the covariances of the quaternion elements with the quaternion, so that the tilt uncertainty
+	// is kept and is not turned into an uncertainty of the quaternion norm
+	const float q_rot_data[16] = {
+		q_error(0), -q_error(1), -q_error(2), -q_error(3),
+		q_error(1),  q_error(0), -q_error(3),  q_error(2),
+		q_error(2),  q_error(3),  q_error(0), -q_error(1),
+		q_error(3), -q_error(2),  q_error(1),  q_error(0)
+	};
+	const matrix::SquareMatrix<float, 4> q_rot(q_rot_data);
+	const matrix::SquareMatrix<float, 4> quat_cov(P.slice<4, 4>(0, 0));
+	P.slice<4, 4>(0, 0) = q_rot * quat_cov * q_rot.transpose();
+	P.makeBlockSymmetric<4>(0);
+
 	// record the state change
 	if (_state_reset_status.quat_counter == _state_reset_count_prev.quat) {
 		_state_reset_status.quat_change = q_error;
-- 
2.43.0


From ba4c2f76359247d33372d669de2fc35df50cf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:30 +0000
Subject: [PATCH 53/55] fix: height from vision was not corrected for the
 sensor position when a sample was first fused or vision position was not in
 use, and kept its variance on a reset

---
 EKF/control.cpp    | 13 ++++++++-----
 EKF/ekf_helper.cpp |  8 +++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 8a4c3ad..add75ce 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -158,6 +158,14 @@ void Ekf::controlFusionModes()
 	}
 
 	_ev_data_ready = _ext_vision_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_ev_sample_delayed);
+
+	if (_ev_data_ready) {
+		// correct position and height for offset relative to IMU
+		const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
+		const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
+		_ev_sample_delayed.pos -= pos_offset_earth;
+	}
+
 	_tas_data_ready = _airspeed_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_airspeed_sample_delayed);
 
 	// check for height sensor timeouts and reset and change sensor if necessary
@@ -244,11 +252,6 @@ void Ekf::controlExternalVisionFusion()
 			Vector2f ev_pos_innov_gates;
 			bool ev_pos_obs_available = true;
 
-			// correct position and height for offset relative to IMU
-			const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
-			const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
-			_ev_sample_delayed.pos -= pos_offset_earth;
-
 			// Use an incremental position fusion method for EV position data if GPS is also used
 			if (_params.fusion_mode & MASK_USE_GPS) {
 				_fuse_hpos_as_odom = true;
diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 1c3155d..5cfa6e3 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -336,10 +336,16 @@ void Ekf::resetHeight()
 
 		// use the most recent data if it's time offset from the fusion time horizon is smaller
 		if (ev_newest.time_us >= _ev_sample_delayed.time_us) {
-			resetVerticalPositionTo(ev_newest.pos(2));
+			// the height of the sensor is not corrected yet for its offset relative to the IMU
+			const Vector3f pos_offset_earth = _R_to_earth * (_params.ev_pos_body - _params.imu_pos_body);
+			resetVerticalPositionTo(ev_newest.pos(2) - pos_offset_earth(2));
+
+			// the state variance is the same as the observation
+			P.uncorrelateCovarianceSetVariance<1>(9, fmaxf(ev_newest.posVar(2), sq(0.01f)));
 
 		} else {
 			resetVerticalPositionTo(_ev_sample_delayed.pos(2));
+			P.uncorrelateCovarianceSetVariance<1>(9, fmaxf(_ev_sample_delayed.posVar(2), sq(0.01f)));
 		}
 	}
 
-- 
2.43.0


From 8638fb1b9f450b69a6379d894d8bf2cd9b4366b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:32 +0000
Subject: [PATCH 54/55] fix: sensor position was subtracted in the wrong frame
 from vision data in a rotated vision frame

---
 EKF/control.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index add75ce..2cf9e78 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -163,7 +163,14 @@ void Ekf::controlFusionModes()
 		// correct position and height for offset relative to IMU
 		const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
 		const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
-		_ev_sample_delayed.pos -= pos_offset_earth;
+
+		if (_params.fusion_mode & MASK_ROTATE_EV) {
+			// the measurement is still in the EV navigation frame
+			_ev_sample_delayed.pos -= _R_ev_to_ekf.transpose() * pos_offset_earth;
+
+		} else {
+			_ev_sample_delayed.pos -= pos_offset_earth;
+		}
 	}
 
 	_tas_data_ready = _airspeed_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_airspeed_sample_delayed);
-- 
2.43.0


From aee7bae505bb423ef2ef9b9079f4b27cef1aee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:15 +0000
Subject: [PATCH 55/55] fix: magnetic heading was fused while its use was
 inhibited in flight, once the heading variance was small

---
 EKF/mag_fusion.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 13cef12..8a54795 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -760,6 +760,11 @@ void Ekf::fuseHeading()
 				}
 				_last_static_yaw = predicted_hdg;
 
+				if (!fuse_zero_innov) {
+					// not necessary and there is no usable measurement
+					return;
+				}
+
 			} else {
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
@@ -811,6 +816,11 @@ void Ekf::fuseHeading()
 				}
 				_last_static_yaw = predicted_hdg;
 
+				if (!fuse_zero_innov) {
+					// not necessary and there is no usable measurement
+					return;
+				}
+
 			} else {
 				// Vehicle is at rest so use the last moving prediction as an observation
 				// to prevent the heading from drifting and to enable yaw gyro bias learning
-- 
2.43.0

