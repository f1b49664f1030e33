#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("G01", "Magnetic field lookup interpolates the model grid everywhere on Earth",
 "For every latitude and longitude the declination, inclination and field strength lookups return the bilinear interpolation of the published 10-degree world magnetic model grid: exact on grid nodes, continuous across cell borders, within the values of the four surrounding nodes, the same for a longitude and that longitude plus or minus 360 degrees, and held at the pole rows for latitudes beyond them. The degree and radian variants and the gauss and tesla variants of one quantity always agree.",
 ["inputs"], "every finite latitude, every longitude in one turn either side of the normal range, each of the public lookup functions",
 "The tests sample nodes of a 5 degree grid between latitudes -50 and 60 with tolerances of one to two degrees and 500 nT, so cell borders, interpolation weights, wrap-around, the polar rows, the last row and column and unit variants are never distinguished.",
 ["geo_lookup/geo_mag_declination.cpp", "geo_lookup/geo_magnetic_tables.hpp"],
 [("get_lookup_table_index / get_table_data bilinear interpolation", "geo_lookup/geo_mag_declination.cpp"), ("declination, inclination and strength tables", "geo_lookup/geo_magnetic_tables.hpp")],
 ["get_mag_declination_degrees/_radians", "get_mag_inclination_degrees/_radians", "get_mag_strength_gauss/_tesla"])

prop("G02", "Local map projection round-trips and preserves distance and direction",
 "For every reference point and every position in its hemisphere, projecting to local north/east metres and back returns the same latitude and longitude (to float resolution of the local coordinates), the reference itself maps to the origin, the distance and direction from the origin equal the great-circle distance and initial bearing, and points to the north/east have positive coordinates. The reference, timestamp and initialised flag read back what was set, and every query on an uninitialised reference reports failure instead of a position.",
 ["inputs", "histories"], "all reference points, all positions up to a quarter of the globe away, local offsets from millimetres to thousands of km, re-initialisation sequences",
 "The tests project a few points near one Zurich reference; poles, the date line, tiny and huge offsets and uninitialised references are unbounded inputs.",
 ["geo/geo.cpp", "geo/geo.h"],
 [("azimuthal equidistant projection", "geo/geo.cpp map_projection_project/map_projection_reproject"), ("init_done flag checks", "geo/geo.cpp")],
 ["map_projection_init*", "map_projection_project", "map_projection_reproject", "map_projection_reference", "map_projection_timestamp", "map_projection_initialized"])

prop("G03", "Great-circle distance, bearing and waypoint functions agree with each other",
 "For all pairs of positions the distance equals the great-circle distance on the reference sphere (zero iff equal, symmetric, never NaN), and the bearing is the initial great-circle course wrapped to [-pi, pi]. Travelling a signed distance from a position along a bearing, along the line through two positions or by a north/east vector lands on the position whose distance, bearing or vector from the start is the one asked for, and the 3-D and local distance helpers return consistent horizontal, vertical and total distances.",
 ["inputs"], "all latitude/longitude pairs incl. date line and near-coincident points, bearings, signed distances and vectors",
 "The tests check a handful of fixed pairs for two functions and most functions here have no test at all.",
 ["geo/geo.cpp", "geo/geo.h"],
 [("haversine distance, bearing, waypoint_from_heading_and_distance, create_waypoint_from_line_and_dist", "geo/geo.cpp"), ("vector helpers", "geo/geo.cpp get_vector_to_next_waypoint*, add_vector_to_global_position"), ("get_distance_to_point_global_wgs84, mavlink_wpm_distance_to_point_local", "geo/geo.cpp")],
 ["the public functions of geo.h"])

prop("G04", "Cross-track error to a path has the documented sign, size and flags",
 "For every line segment and vehicle position the reported cross-track distance is the perpendicular distance to the segment's course, positive right of it and negative left of it, with a bearing at a right angle to the course that leads back to it. Once the end point lies behind the vehicle relative to the course direction the past-end flag is raised and no distance is reported, and a request from less than 0.1 m to the end (or an arc radius below 0.1 m) returns an error with a cleared result. Inside a circular path's sector the distance is the one to the circle, with a bearing towards the nearest point on it.",
 ["inputs"], "all segments from 0.5 m to 100 km in all directions within 70 degrees of latitude, vehicles all around them, arcs of any radius",
 "No test exercises these functions.",
 ["geo/geo.cpp", "geo/geo.h"], [("get_distance_to_line", "geo/geo.cpp"), ("get_distance_to_arc", "geo/geo.cpp")],
 ["get_distance_to_line", "get_distance_to_arc"])

prop("U01", "First-order low-pass filter is a bounded, monotone exponential average",
 "For every sequence of finite inputs the filter output is the exponential average of the reset value and the inputs so far: it always lies between the previous output and the new input, never overshoots a constant input and moves toward it at the rate set by the coefficient, which is the sample interval over the sum of interval and time constant. Reset makes the state equal to the given value, a parameter request whose interval plus time constant is not positive changes nothing, and the update result equals the value read back.",
 ["inputs", "histories"], "all sequences of set-parameter, reset and update calls with finite floats, vectors and matrices as sample type",
 "The tests try a few coefficients on constant inputs; the law is over every history of calls.",
 ["AlphaFilter/AlphaFilter.hpp"], [("update/setParameters/setAlpha/reset", "AlphaFilter/AlphaFilter.hpp")], ["AlphaFilter<T> public interface"])

prop("U02", "Sensor ring buffer returns the newest eligible sample and forgets older ones",
 "For every sequence of allocate, push and pop operations the buffer behaves as a bounded queue that keeps the most recent N samples in order: popping for a time returns the newest stored sample that is not newer than that time and less than 0.1 s older, removes it together with everything before it, and otherwise returns nothing and changes nothing. Oldest and newest accessors of a non-empty buffer, entry count and capacity always agree with that model, a request for size zero is refused without effect, and re-allocation to another size leaves an empty buffer.",
 ["histories"], "all operation sequences, capacities 1..255, timestamps from 0.1 s after clock start on, incl. duplicates, gaps and wrap of head and tail",
 "Tests push three samples into a buffer of three; wrap-around, overwrite, interleaved pops and stale windows are histories.",
 ["EKF/RingBuffer.h"], [("push/pop_first_older_than/reset/allocate", "EKF/RingBuffer.h")], ["RingBuffer<T> public interface"],
 [("_head/_tail/_first_write", "ring indices and empty marker", "EKF/RingBuffer.h")])

prop("U03", "IMU down-sampling conserves time, rotation and velocity change",
 "For every sequence of IMU samples each down-sampled output covers exactly the raw samples since the previous one: its intervals are the sums of theirs, its timestamp the last one, its delta angle the rotation that composes theirs in order, its delta velocity their sum expressed in the body frame at the end of the interval, and a clipping flag is set exactly if one of them clipped. An output is produced once the target interval is reached, no sample is lost or counted twice across consecutive outputs, and the running rate stays near the target for any regular input rate.",
 ["inputs", "histories"], "all sequences of IMU deltas with regular, jittered or dropped timing and any rotation rate",
 "Tests check a few constant rates and one rotation profile.",
 ["EKF/imu_down_sampler.cpp", "EKF/imu_down_sampler.hpp"], [("ImuDownSampler::update/reset", "EKF/imu_down_sampler.cpp")], ["ImuDownSampler::update, getDownSampledImuAndTriggerReset"])

prop("U04", "Rotation and angle helpers agree with exact rotation algebra",
 "For every attitude, heading extraction in either Euler sequence returns the yaw of that sequence, the yaw-setting helper returns an attitude with exactly the requested yaw and unchanged tilt in that sequence, and the sequence choice avoids the one that is singular. Converting a quaternion to its inverse rotation matrix, building a rotation from a 3-1-2 angle set, integer powers, min/max/constrain and degree/radian helpers and compensated summation equal their mathematical definitions for every finite input.",
 ["inputs"], "all unit quaternions / rotation matrices incl. near gimbal lock, all finite scalar arguments",
 "Tests sample a few dozen angles and exponents.",
 ["EKF/utils.cpp", "EKF/utils.hpp", "mathlib/mathlib.h", "mathlib/mathlib.cpp"],
 [("getEuler321Yaw/getEuler312Yaw/updateEuler*YawInRotMat/updateYawInRotMat/taitBryan312ToRotMat/quatToInverseRotMat/ecl::powf/kahanSummation", "EKF/utils.*"), ("math::constrain/min/max/radians/degrees", "mathlib/mathlib.h")],
 ["utils.hpp and mathlib.h functions"])

prop("U05", "Range finder readings are used only when plausible and fresh",
 "For every history of range samples, attitudes and limits a reading is reported healthy only if it arrived recently, within the configured minimum and maximum (inclusive), with non-zero quality since longer than the hysteresis time, while tilt is inside the allowed cone and the sensor is not stuck after a period of invalid data; under those conditions it is always reported healthy, and the bottom distance then equals range times the cosine of the beam's angle to the vertical. The reported direction cosine follows the attitude and the configured sensor pitch offset.",
 ["histories"], "all interleavings of samples, sensor limits, quality values, attitudes and time steps",
 "Tests cover one defect at a time from one starting point; stuck detection and hysteresis are history properties.",
 ["EKF/sensor_range_finder.cpp", "EKF/sensor_range_finder.hpp"],
 [("runChecks/updateValidity/updateStuckCheck/updateSensorToEarthRotation", "EKF/sensor_range_finder.cpp")], ["SensorRangeFinder public interface"])

prop("E01", "State covariance stays symmetric, finite and inside its limits",
 "After every estimator update, for any history of finite, physically possible sensor data, aiding configuration and vehicle status, the full covariance matrix is finite and symmetric, all variances are non-negative and below their documented limits, and rows and columns of states that are not being estimated (magnetic field, wind) are zero from the next update on. With consistent sensors, correlations among velocity, position, IMU bias and wind states never exceed one beyond rounding.",
 ["histories", "configurations", "fault_sequences"], "all sensor histories (dropouts, outliers, steps, clipping, resets) and aiding configurations",
 "Replay tests check covariances only on two logged flights and one simulation sets variances at a few points.",
 ["EKF/covariance.cpp", "EKF/ekf.h", "EKF/ekf_helper.cpp", "EKF/vel_pos_fusion.cpp", "EKF/mag_fusion.cpp", "EKF/airspeed_fusion.cpp", "EKF/sideslip_fusion.cpp", "EKF/drag_fusion.cpp", "EKF/optflow_fusion.cpp", "EKF/gps_yaw_fusion.cpp"],
 [("fixCovarianceErrors, checkAndFixCovarianceUpdate, measurementUpdate, reset*Cov", "EKF/covariance.cpp, EKF/ekf.h, EKF/ekf_helper.cpp")],
 ["covariances()", "covariances_diagonal()"], [("P", "24x24 state covariance", "EKF/ekf.h")])

prop("E02", "Estimated state and published attitude remain finite, bounded and normalised",
 "After every update, for any history of finite sensor data, the attitude quaternions at the fusion horizon and at the current time have unit length, and velocity, position, IMU bias, magnetic and wind states are finite and brought inside their documented limits by every prediction step. Published velocity, position, velocity derivative and attitude are finite whenever the filter reports it is initialised.",
 ["histories", "fault_sequences"], "all histories of finite sensor data incl. saturated, stepped and inconsistent sensors",
 "Tests look at final states of short nominal runs.",
 ["EKF/ekf_helper.cpp", "EKF/ekf.cpp", "EKF/covariance.cpp"], [("constrainStates, fuse, predictState normalisation, calculateOutputStates", "EKF/ekf_helper.cpp, EKF/ekf.cpp")],
 ["getStateAtFusionHorizonAsVector()", "getQuaternion()", "getVelocity()", "getPosition()"])

prop("E03", "No call sequence or data, however bad, crashes or corrupts the estimator",
 "For every sequence of public API calls, in any order, before and after initialisation, with arbitrary parameter settings in range and arbitrary sample contents including NaN, infinity, zero or jumping timestamps, the library performs no out-of-bounds access, undefined behaviour, division trap or endless loop. After such an episode, re-initialising with good data gives a healthy estimator again.",
 ["histories", "fault_sequences"], "all API call sequences and sample contents",
 "Tests call the API in one sensible order with sensible data.",
 ["EKF/estimator_interface.cpp", "EKF/ekf.cpp", "EKF/control.cpp", "EKF/RingBuffer.h", "EKF/EKFGSF_yaw.cpp", "airdata/WindEstimator.cpp"],
 [("buffer allocation and timestamps checks", "EKF/estimator_interface.cpp"), ("finite checks", "EKF/*.cpp")], ["whole public API"])

prop("E04", "State prediction follows strapdown inertial navigation equations",
 "Each filter step propagates attitude, velocity and position with the bias-corrected IMU increments at the fusion horizon, earth rotation and gravity exactly as the strapdown equations state (trapezoidal position), leaves bias, magnetic and wind states unchanged, and does so for every attitude, rate, bias and step length. The reported average step length tracks the true one and the earth-rate vector matches the latitude of the origin.",
 ["inputs", "histories"], "all attitudes, rates, accelerations, biases, time steps and latitudes",
 "Tests run prediction near level and at rest.",
 ["EKF/ekf.cpp", "EKF/ekf_helper.cpp"], [("predictState, calcEarthRateNED", "EKF/ekf.cpp, EKF/ekf_helper.cpp")], ["getStateAtFusionHorizonAsVector() before/after update()"])

prop("E05", "Covariance prediction equals first-order propagation of the state model",
 "For every state, covariance, IMU increment and step, the predicted covariance equals F P F' + G Q G' + process noise, where F and G are the Jacobians of the state prediction with respect to state and IMU noise, with the configured noise densities; increments for states that are inhibited or unused are zero. Uncertainty of unobserved states never shrinks by prediction alone.",
 ["inputs"], "all states, positive semi-definite covariances, IMU increments and parameter values",
 "Tests cannot see an individual wrong term among several hundred generated expressions; replay traces change only in low digits.",
 ["EKF/covariance.cpp", "EKF/python/ekf_derivation/generated/covariance_generated.cpp"], [("predictCovariance auto-generated expressions", "EKF/covariance.cpp")], ["covariances() across an update without measurements"])

prop("E06", "Velocity, position and height fusion is the Kalman update of the named state",
 "For every state and covariance, fusing a velocity, position or height observation with a given variance changes state and covariance exactly as the scalar Kalman update for that state component does, once per component, with the innovation and innovation variance evaluated before the update. If the squared innovation exceeds the gate the state and covariance stay unchanged and the rejection is flagged; innovation, innovation variance and test ratio reported for the source are those of that observation. For GPS, vision, height, auxiliary and synthetic observations the observation is the sample with the sensor offset and frame corrected, and its variance and gate are those reported or configured within their limits.",
 ["inputs"], "all states, covariances, observations, variances and gates; GPS, vision, baro, range, auxiliary-velocity and synthetic sources",
 "Tests only see that aiding starts and errors shrink.",
 ["EKF/vel_pos_fusion.cpp", "EKF/control.cpp", "EKF/ekf.h"], [("fuseHorizontalVelocity/fuseVerticalVelocity/fuseHorizontalPosition/fuseVerticalPosition/fuseVelPosHeight", "EKF/vel_pos_fusion.cpp"), ("measurementUpdate", "EKF/ekf.h")],
 ["state, covariance, innovation getters"])

prop("E07", "Magnetometer and declination fusion is the Kalman update of the field model",
 "For every attitude, earth field, sensor bias and covariance, three-axis magnetometer fusion computes innovations and variances of the model 'body field = rotated earth field + bias' and changes state and covariance as sequential Kalman updates with that model's Jacobian (restricted to the states being corrected); declination fusion and limiting do the same for the horizontal field direction. If any axis fails its gate none of the axes is fused and the failing axes are flagged.",
 ["inputs"], "all states, covariances, field vectors and measurements",
 "Tests never check the magnitude of magnetometer corrections.",
 ["EKF/mag_fusion.cpp", "EKF/mag_control.cpp"], [("fuseMag, fuseDeclination, limitDeclination", "EKF/mag_fusion.cpp")], ["state, covariance, getMagInnov*"])

prop("E08", "Yaw fusion corrects heading as the Kalman update in either Euler sequence",
 "For every attitude and covariance, fusing a yaw angle from magnetometer, vision or GPS antennas computes the wrapped innovation against the heading of the non-singular Euler sequence (or of the antenna baseline) and applies the Kalman update for its Jacobian, so that fusing the current heading changes nothing, and a precise observation makes the heading equal to it with tilt unchanged to first order. Gate, on-ground clamping and variance floor act as documented.",
 ["inputs"], "all attitudes incl. steep pitch/roll and the +-180 degree wrap, all covariances, observations and antenna offsets",
 "Tests use a handful of headings with small tilt.",
 ["EKF/mag_fusion.cpp", "EKF/gps_yaw_fusion.cpp", "EKF/ekf_helper.cpp"], [("fuseHeading/fuseYaw321/fuseYaw312/updateQuaternion, fuseGpsYaw", "EKF/mag_fusion.cpp, EKF/gps_yaw_fusion.cpp")], ["state, covariance, heading innovation getters"])

prop("E09", "Airspeed, sideslip and drag fusion are Kalman updates of the air-data models",
 "For every velocity, wind, attitude and covariance, airspeed, synthetic sideslip and drag specific-force fusion compute the innovation, its variance and the state correction of their measurement models (airspeed magnitude, zero sideslip angle, ballistic and momentum drag) from the true Jacobian, within the set of states they are allowed to correct. Samples outside the gate or below the minimum speed change nothing.",
 ["inputs"], "all velocities, winds, attitudes, covariances, observations and drag coefficients",
 "Tests check the sign of wind after a fixed airspeed scenario.",
 ["EKF/airspeed_fusion.cpp", "EKF/sideslip_fusion.cpp", "EKF/drag_fusion.cpp"], [("fuseAirspeed, fuseSideslip, fuseDrag", "EKF/*_fusion.cpp")], ["state, covariance, innovation getters"])

prop("E10", "Optical flow fusion is the Kalman update of the line-of-sight rate model",
 "For every attitude, velocity, height above ground, body rate, sensor offset and covariance, optical flow fusion computes predicted line-of-sight rates, innovations and their variances, and corrects the state with the model's Jacobian; body-rate compensation removes exactly the rotation seen by the sensor. Either both axes pass the gate or neither is fused; observation noise follows the quality metric between its configured bounds.",
 ["inputs"], "all attitudes within the tilt limit, velocities, heights, gyro data and quality values",
 "Tests run a single descent profile.",
 ["EKF/optflow_fusion.cpp", "EKF/control.cpp"], [("fuseOptFlow, calcOptFlowBodyRateComp, calcOptFlowMeasVar", "EKF/optflow_fusion.cpp")], ["state, covariance, flow innovation getters"])

prop("E11", "A single gross outlier from an aiding sensor does not move the estimate",
 "In established flight, for every aiding sensor in use and any moment, replacing one sample by one far outside its innovation gate (heights: downwards, an upward one is by design evidence of accelerometer clipping) leaves the subsequent states, variances, terrain height, published position and velocity and control status the same as if that sample had been missing or had been another such outlier, is reported as rejected, and does not stop the use of the sensor.",
 ["histories", "fault_sequences"], "all single-outlier insertions over sensors, components, sizes beyond the gate and times",
 "Tests inject a bad sample in one or two sensors at one time.",
 ["EKF/vel_pos_fusion.cpp", "EKF/mag_fusion.cpp", "EKF/airspeed_fusion.cpp", "EKF/optflow_fusion.cpp", "EKF/control.cpp"], [("innovation gates", "all fusion functions")], ["states with and without the outlier, innov_check_fail_status()"])

prop("E12", "Every state reset is announced with the exact change applied",
 "For every history, whenever attitude, horizontal or vertical velocity or position is reset, the matching reset counter increases and the reported change maps the value before the reset to the value after it, both at the fusion horizon and in the published output; when no reset occurs the counter and reported change stay as they are. Announced changes let a consumer keep a continuous trajectory: published value minus accumulated changes never jumps by more than motion and small corrections explain.",
 ["histories", "fault_sequences"], "all histories that trigger resets: aiding start, timeouts, height source change, yaw resets, external origin, sensor steps",
 "Tests check one or two resets from one state each.",
 ["EKF/ekf_helper.cpp", "EKF/control.cpp", "EKF/mag_control.cpp"], [("resetVelocityTo/resetHorizontalPositionTo/resetVerticalPositionTo/resetQuatStateYaw/alignOutputFilter", "EKF/ekf_helper.cpp")], ["get_*_reset, getPosition, getVelocity, getQuaternion"])

prop("E13", "Published output follows the estimate without delay or steady error",
 "At every update the published attitude, velocity and position equal the delayed estimate propagated with the IMU data received since, up to a tracking correction that converges to zero: for any IMU history the published attitude changes by exactly the bias-corrected rotation plus that small correction, body-origin velocity and position differ from the IMU's by the configured lever arm, and the vertical derivative outputs are consistent. The fusion horizon lags the newest IMU data by the configured maximum sensor delay.",
 ["histories", "configurations"], "all IMU histories, sensor delays and lever arms",
 "Tests only compare output with truth at rest.",
 ["EKF/ekf.cpp", "EKF/estimator_interface.cpp"], [("calculateOutputStates, applyCorrectionToOutputBuffer, calculate_quaternion", "EKF/ekf.cpp")], ["getQuaternion/getVelocity/getPosition/getVelocityDerivative/getVerticalPositionDerivative, getOutputTrackingError"])

prop("E14", "With consistent sensors the estimate converges to the true motion",
 "For every smooth vehicle motion, initial heading and place, sensor selection, sensor delay, lever arm and constant sensor bias within the configured uncertainty, if the sensors report the motion with noise no larger than configured, then attitude, velocity, position, wind and observable biases converge to the truth within a few reported standard deviations plus a small margin and stay there, without spurious resets or rejected sensors. This holds for GPS, vision, optical flow and air-data aiding.",
 ["histories", "configurations"], "all smooth trajectories, sensor suites, delays, offsets and biases",
 "Tests use hover or constant velocity with noise-free sensors at a fixed heading.",
 ["EKF/ekf.cpp", "EKF/control.cpp", "EKF/covariance.cpp", "EKF/vel_pos_fusion.cpp", "EKF/mag_fusion.cpp", "EKF/estimator_interface.cpp"], [("whole filter", "EKF/")], ["published attitude, velocity, position, wind, biases against simulated truth"])

prop("E15", "Estimation is invariant to clock origin, location and compass heading",
 "Running the same sensor data with all timestamps shifted gives the same estimates at the shifted times, anywhere in the clock's range from 20 s after its zero on (a zero stamp stands for 'never'). Moving the whole scenario to another place with the same magnetic field and latitude, or rotating the whole scenario (motion, wind and field, the heading coming from the field or the GPS antennas) about the vertical, moves or rotates the estimated trajectory accordingly and leaves tilt, height, biases and reported status unchanged up to rounding and earth rotation.",
 ["histories", "inputs"], "all scenarios, shifts, places and rotation angles",
 "Tests use one start time, one place and one heading.",
 ["EKF/estimator_interface.cpp", "EKF/ekf.cpp", "EKF/control.cpp", "EKF/mag_fusion.cpp"], [("timestamp differences, frame conventions", "EKF/")], ["two runs compared"])

prop("E16", "Results depend only on the data since initialisation",
 "Feeding the same parameters and calls to two estimator objects gives bit-identical outputs at every step, regardless of other estimator objects used in between and of calls to any read-only getter. Initialising a used estimator again clears all states, status and fault flags, validity outputs and the origin, so that from then on it behaves exactly like a newly constructed one apart from reset counters and event flags, whatever happened before.",
 ["histories"], "all call histories before re-initialisation, all interleavings of two instances",
 "Tests reset the filter once or never.",
 ["EKF/ekf.cpp", "EKF/estimator_interface.cpp", "EKF/ekf.h"], [("init/reset and static state", "EKF/ekf.cpp")], ["all getters of two instances"])

prop("E17", "Aiding status tells truthfully which sensors hold up the solution",
 "For every history of sensor availability, an aiding flag is set only while data of that source has been arriving and the configuration selects it, and is cleared within its timeout after the data stops; exactly one height source is active after alignment and losing it switches to a configured fallback with data; dead-reckoning and validity outputs become false positives never: after all horizontal aiding has stopped for the configured time, local position is reported invalid. Restored data brings the source back. The wind estimate is kept while airspeed or sideslip measures it, and dropped 10 s after both have stopped.",
 ["histories", "fault_sequences", "configurations"], "all schedules of starting, stopping and resuming each sensor, in air and on ground, for all fusion masks and height modes",
 "Tests switch one sensor on and off once.",
 ["EKF/control.cpp", "EKF/ekf_helper.cpp", "EKF/mag_control.cpp"], [("controlFusionModes and per-source controllers, update_deadreckoning_status", "EKF/control.cpp, EKF/ekf_helper.cpp")], ["control_status_flags(), local_position_is_valid(), inertial_dead_reckoning()"])

prop("E18", "GPS is accepted only after its quality checks pass long enough",
 "For every sequence of GPS messages, each enabled quality check fails exactly when its metric violates its configured limit, no GPS data aids the filter nor sets the origin before a 3-D fix has passed all enabled checks without interruption for the configured time, and the drift metrics are the filtered rates of the reported motion. Disabled checks never block acceptance.",
 ["histories", "configurations"], "all GPS message sequences and check masks and limits",
 "Tests disturb one metric once.",
 ["EKF/gps_checks.cpp"], [("collect_gps, gps_is_good", "EKF/gps_checks.cpp")], ["get_gps_check_status, get_gps_drift_metrics, global_origin_valid, control_status.gps"])

prop("E19", "Geographic origin is reported, settable and consistent with local position",
 "Once set by GPS or externally, the origin read back is the one set, with altitude, and re-setting it in flight shifts the local position so that the geographic position of the vehicle stays the same; invalid requests are refused without effect. Position projected through the reported origin matches the GPS position fused. (Without horizontal aiding setting an origin does not move the local position; an absolute vision position is relative to the vision frame and does not follow.)",
 ["histories", "inputs"], "all origins, altitudes, times of setting and vehicle positions",
 "One test sets one origin.",
 ["EKF/ekf_helper.cpp", "EKF/gps_checks.cpp"], [("setEkfGlobalOrigin/getEkfGlobalOrigin/setEkfGlobalOriginAltitude", "EKF/ekf_helper.cpp")], ["getEkfGlobalOrigin, getPosition, global_position_is_valid"])

prop("E20", "Reported accuracies, test ratios and status bits match the filter's state",
 "At every update the reported accuracies are consistent with the covariance (and inflated by innovations when dead reckoning), the bias and wind values and variances are those of the state in the documented units, the solution-status and innovation-test bit fields reflect the aiding and rejection flags, every test ratio is the squared innovation over its variance and squared gate and a ratio above one coincides with its rejection flag (zero: not tested since the fusion stopped), reset and start events come with the reset or start they name, and the control limits follow the sensor limits when the flow sensor is the only aid. True airspeed, earth-frame wind and vector getters agree with the full state vector.",
 ["histories"], "all histories and aiding modes",
 "Tests hardly read these outputs.",
 ["EKF/ekf_helper.cpp", "EKF/ekf.h"], [("get_ekf_*_accuracy, get_innovation_test_status, get_ekf_soln_status, get_ekf_ctrl_limits, getters", "EKF/ekf_helper.cpp, EKF/ekf.h")], ["the getters"])

prop("E21", "Terrain estimate follows range and flow data and reports its validity truthfully",
 "For every history the terrain height and variance follow the scalar Kalman filter of the range and flow measurement models, vehicle height above terrain never falls below the configured ground clearance, the variance is positive and bounded, on the ground the terrain is at the clearance below the vehicle, and validity is reported only while valid measurements were fused in the last seconds. Persistently rejected range data resets the estimate to the measurement.",
 ["histories", "inputs"], "all motions, terrain profiles, range/flow availability patterns",
 "Tests use flat ground with one or the other sensor.",
 ["EKF/terrain_estimator.cpp"], [("initHagl, runTerrainEstimator, fuseHagl, fuseFlowForTerrain, updateTerrainValidity", "EKF/terrain_estimator.cpp")], ["getTerrainVertPos, get_terrain_var, isTerrainEstimateValid"])

prop("E22", "Emergency yaw estimator is a normalised filter bank that finds the heading",
 "For every history of IMU, GPS velocity and airspeed data the model weights are non-negative and sum to one, each model's covariance is finite, symmetric and positive, and the composite yaw and variance are the weighted circular mean and spread of the models. With consistent velocity data and horizontal acceleration the composite yaw converges to the true heading from any initial heading, and an estimator that has not converged is not used to reset the heading. Resets to its heading in flight are at least 5 s apart and, while GPS is in use, no more than the configured limit.",
 ["histories"], "all IMU/GPS velocity histories, headings and manoeuvres",
 "Tests use one manoeuvre on one log.",
 ["EKF/EKFGSF_yaw.cpp", "EKF/EKFGSF_yaw.h"], [("update, predictEKF, updateEKF, ahrs*", "EKF/EKFGSF_yaw.cpp")], ["EKFGSF_yaw::getYawData, getLogData"])

prop("E23", "Each measurement is fused at the time it was taken",
 "For every sensor, configured delay, sample rate and jitter, a measurement pushed to the estimator is fused once, against the state at its measurement time (arrival time minus configured delay, to within one filter period, two where the IMU interval does not divide it), in time order; samples arriving faster than the buffers can hold are averaged (magnetometer, barometer) or dropped without losing time order, and samples older than the fusion horizon are not fused. A sensor that was never pushed is never fused.",
 ["histories", "configurations"], "all sample rates, jitters, delays and interleavings of sensors",
 "Tests check one rate per sensor and that some data arrives.",
 ["EKF/estimator_interface.cpp", "EKF/RingBuffer.h", "EKF/ekf.cpp"], [("set*Data, _min_obs_interval_us, buffers", "EKF/estimator_interface.cpp")], ["get_*_sample_delayed(), innovations"])

prop("E24", "The magnetometer is used the way it was selected, and not while disturbed",
 "For every history of data, at most one of heading and three-axis fusion is active, neither while another source gives the heading, after a magnetometer fault, before alignment, or when no magnetometer is selected; the selected kind is used, and the automatic choice uses three axes only after the alignment in flight and while turning or accelerating. Declination is fused only with three axes, and then whenever GPS is not used or the user selects it. With the strength check on, a field outside the accepted strength is reported disturbed, and only then; while heading fusion is inhibited (disturbed field, or indoor mode without a source needing north) in flight, the magnetometer data have no effect on the estimate. The alignment in flight is made once the vehicle is clear of the ground and forgotten on the ground.",
 ["histories", "configurations"], "all aiding modes, magnetometer selections, manoeuvres and field disturbances",
 "Tests set one flag by one sequence.",
 ["EKF/mag_control.cpp", "EKF/mag_fusion.cpp"], [("controlMagFusion and helpers", "EKF/mag_control.cpp"), ("fuseHeading", "EKF/mag_fusion.cpp")], ["control_status_flags()", "getStateAtFusionHorizonAsVector()"])

prop("E25", "Vibration metrics and rest detection follow the IMU data",
 "For every IMU history the coning, gyro and accelerometer vibration metrics are the exponential averages (weight 0.01 per sample) of the size of consecutive samples' cross product and differences, and the vehicle is reported at rest exactly when it is on the ground and neither vibration metric nor rotation rate has exceeded its scaled threshold within the last second.",
 ["histories"], "all IMU rates, vibration and rotation levels, gaps, take-offs, landings and threshold scalers",
 "Tests check one resting and one moving vehicle.",
 ["EKF/estimator_interface.cpp"], [("computeVibrationMetric, checkIfVehicleAtRest", "EKF/estimator_interface.cpp")], ["getImuVibrationMetrics()", "isVehicleAtRest()"])

prop("W01", "Wind estimator fuses airspeed and sideslip as a Kalman filter of its models",
 "For every state, covariance and input, prediction and the airspeed and sideslip corrections of the stand-alone wind and airspeed-scale estimator equal the Kalman filter for their measurement models at the configured noise and at most the documented rate; samples outside the gate are not fused, and persistent rejection causes a re-initialisation. Initialisation sets wind and variances to the values implied by ground velocity, airspeed and heading.",
 ["inputs", "histories"], "all ground velocities, airspeeds, attitudes, parameters and call schedules",
 "No test exercises this estimator.",
 ["airdata/WindEstimator.cpp", "airdata/WindEstimator.hpp"], [("initialise, update, fuse_airspeed, fuse_beta, run_sanity_checks", "airdata/WindEstimator.cpp")], ["WindEstimator getters"])

prop("W02", "Wind estimate stays sane and converges to the true wind in turning flight",
 "For every history of inputs the published wind estimate has finite state, non-negative bounded variances and symmetric covariance or is reported invalid. With consistent airspeed, ground velocity and attitude in turning flight, and wind below a third of the airspeed, wind and airspeed scale converge to the truth, and invalidity is reported while no valid data has arrived.",
 ["histories", "fault_sequences"], "all input histories incl. NaN samples, outliers and pauses; all winds, scales and turning trajectories",
 "No test exercises this estimator.",
 ["airdata/WindEstimator.cpp", "airdata/WindEstimator.hpp"], [("run_sanity_checks, update, is_estimate_valid", "airdata/WindEstimator.cpp")], ["WindEstimator getters"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
