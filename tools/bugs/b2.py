exec(open(__file__.replace('b2.py', 'b1.py')).read().split('BUGS = {')[0]) if '__file__' in globals() else None
COMMON = ''
WB = r'''
#include <cstdio>
#include <cmath>
#include <memory>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <matrix/math.hpp>
#define private public
#define protected public
#include <EKF/ekf.h>
#undef private
#undef protected
static int bad(const char *m, double a, double b) { printf("FAIL %s: %.9g vs %.9g\n", m, a, b); return 1; }
'''
BUGS = {
'e12-vert-buffer': dict(prop='E12', file='EKF/ekf_helper.cpp',
  edits=[("		_output_vert_buffer[index].vert_vel += delta_vert_vel;\n", "")],
  needs='a vertical velocity reset in flight with more than one entry in the output history', breaks='the published vertical position derivative does not follow a reset which is announced',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._control_status.flags.baro_hgt = true; e._state.vel(2) = 3.f; e.resetHeight(); for (int i = 0; i < e._output_vert_buffer.get_length(); i++) { if (std::fabs(e._output_vert_buffer[i].vert_vel + 3.f) > 1e-6f) { return bad("vertical velocity in the history", e._output_vert_buffer[i].vert_vel, -3); } } return e._output_vert_buffer.get_length() > 1 ? 0 : 2; }
'''),
'e12-height-integral': dict(prop='E12', file='EKF/ekf_helper.cpp',
  edits=[("		_output_vert_buffer[i].vert_vel_integ += delta_vert_pos;\n", "")],
  needs='a height reset in flight', breaks='the vertical derivative output moves by metres per second after an announced height reset, without an announced velocity reset',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._control_status.flags.baro_hgt = true; e._state.pos(2) = 0.f; e._baro_hgt_offset = -30.f; estimator::baroSample bs{}; e._baro_buffer.push(bs); e.resetHeight(); for (int i = 0; i < e._output_vert_buffer.get_length(); i++) { if (std::fabs(e._output_vert_buffer[i].vert_vel_integ + 30.f) > 1e-5f) { return bad("height in the history", e._output_vert_buffer[i].vert_vel_integ, -30); } } return e._output_vert_buffer.get_length() > 1 ? 0 : 2; }
'''),
'e13-predicted-attitude': dict(prop='E13', file='EKF/ekf.cpp',
  edits=[("_state.delta_ang_bias * (_dt_imu_avg / _dt_ekf_avg) + _delta_angle_corr};", "_state.delta_ang_bias + _delta_angle_corr};")],
  needs='an IMU interval shorter than the filter step and an estimated gyro bias, read between the IMU data and the update', breaks='the attitude predicted with the newest IMU data is corrected with the bias of a whole filter step',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._dt_imu_avg = 0.0025f; e._dt_ekf_avg = 0.01f; e._state.delta_ang_bias(2) = 0.001f; e._newest_high_rate_imu_sample = {}; e._output_new.quat_nominal = matrix::Quatf(); const float y = 2 * e.calculate_quaternion()(3); return std::fabs(y + 0.00025f) < 1e-6f ? 0 : bad("yaw", y, -0.00025); }
'''),
'e14-gps-lever': dict(prop='E14', file='EKF/control.cpp',
  edits=[("const Vector3f pos_offset_body = _params.gps_pos_body - _params.imu_pos_body;", "const Vector3f pos_offset_body = _params.gps_pos_body;")],
  needs='an IMU mounted away from the body origin and a rotation of the vehicle', breaks='position and velocity of the GPS antenna are corrected by the wrong offset, the estimate is off by the position of the IMU',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._control_status.flags.gps = true; e._control_status.flags.tilt_align = e._control_status.flags.yaw_align = true; e._gps_data_ready = true; e._NED_origin_initialised = true; e._params.imu_pos_body = matrix::Vector3f(0.5f, -0.3f, 0.2f); e._params.gps_pos_body = matrix::Vector3f(1.f, 0, 0); e._R_to_earth.setIdentity();
	e._gps_sample_delayed.pos = matrix::Vector2f(0.f, 0.f); e._gps_sample_delayed.hgt = 0; e._gps_sample_delayed.sacc = e._gps_sample_delayed.hacc = 1; e._gps_sample_delayed.yaw = NAN; e.controlGpsFusion(); const auto p = e._gps_sample_delayed.pos; return std::fabs(p(0) + 0.5f) > 1e-5f ? bad("north", p(0), -0.5) : std::fabs(p(1) - -0.3f) > 1e-5f ? bad("east", p(1), -0.3) : 0; }
'''),
'e17-flow-kept': dict(prop='E17', file='EKF/control.cpp',
  edits=[("		       || (_imu_sample_delayed.time_us > _flow_sample_delayed.time_us + (uint64_t)10e6))) {", "		       || (_imu_sample_delayed.time_us > _flow_sample_delayed.time_us + (uint64_t)10e6 && !_control_status.flags.gps))) {")],
  needs='optical flow and GPS in use, then no flow data for more than ten seconds', breaks='flow use goes on being reported although its data stopped',
  demo=WB + r'''
int main() { for (int gps = 0; gps < 2; gps++) { Ekf e; e.init(1000000); e._params.fusion_mode |= MASK_USE_OF; e._control_status.flags.gps = gps; e._control_status.flags.opt_flow = true; e._control_status.flags.tilt_align = true; e._flow_data_ready = false; e._imu_sample_delayed.time_us = 50000000; e._flow_sample_delayed.time_us = 38000000; e._time_last_imu = 50000000; e.controlOpticalFlowFusion(); if (e._control_status.flags.opt_flow) { return bad("flow in use 12 s after its last data, gps", gps, gps); } } return 0; }
'''),
'e18-drift-forgotten': dict(prop='E18', file='EKF/gps_checks.cpp',
  edits=[("		// This is the case where the vehicle is on ground and IMU movement is blocking the drift calculation\n", "		// This is the case where the vehicle is on ground and IMU movement is blocking the drift calculation\n		_gps_check_fail_status.flags.hdrift = false;\n")],
  needs='drifting GPS seen at rest, then movement on the ground', breaks='moving the vehicle on the ground clears the failed drift check',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._gps_check_fail_status.flags.hdrift = true; e._control_status.flags.in_air = false; e._control_status.flags.vehicle_at_rest = false; estimator::gps_message m{}; m.fix_type = 3; m.lat = 470000000; e.gps_is_good(m); return e._gps_check_fail_status.flags.hdrift ? 0 : bad("drift check", 0, 1); }
'''),
'e19-published-height': dict(prop='E19', file='EKF/ekf_helper.cpp',
  edits=[("		current_alt = -_state.pos(2) + _gps_alt_ref;", "		current_alt = -_output_new.pos(2) + _gps_alt_ref;")],
  needs='moving the origin while climbing, so that the delayed and the published height differ', breaks='the height at the fusion horizon changes by the climb within the delay whenever the origin is moved',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); if (!e.setEkfGlobalOrigin(47, 8, 400)) { return 2; } e._NED_origin_initialised = true; e._control_status.flags.gps = true; e._state.pos(2) = -10; e._output_new.pos(2) = -12; e.setEkfGlobalOrigin(47, 8, 450); return std::fabs(e._state.pos(2) - 40) < 1e-3f ? 0 : bad("height", e._state.pos(2), 40); }
'''),
'e20-velocity-accuracy': dict(prop='E20', file='EKF/ekf_helper.cpp',
  edits=[("		if (_control_status.flags.ev_vel) {\n			vel_err", "		if (_control_status.flags.ev_vel && !_control_status.flags.gps) {\n			vel_err")],
  needs='GPS and vision velocity in use and both rejected for so long that dead reckoning timed out', breaks='the reported velocity accuracy ignores the larger vision innovation',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._deadreckon_time_exceeded = true; e._control_status.flags.gps = e._control_status.flags.ev_vel = true; e._ev_vel_innov(0) = 30; e._gps_pos_innov(0) = 3; float h = 0, v = 0; e.get_ekf_vel_accuracy(&h, &v); return std::fabs(h - 30) < 1e-3f ? 0 : bad("accuracy", h, 30); }
'''),
'e21-reset-early': dict(prop='E21', file='EKF/terrain_estimator.cpp',
  edits=[("		if (isTimedOut(_time_last_hagl_fuse, (uint64_t)10E6)) {", "		if (isTimedOut(_time_last_hagl_fuse, (uint64_t)1E6)) {")],
  needs='range measurements rejected for between one and ten seconds', breaks='the terrain estimate jumps to rejected range data after one second',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._time_last_imu = 60000000; e._time_last_hagl_fuse = 55000000; e._terrain_var = 0.01f; e._terrain_vpos = 5; e._state.pos(2) = 0; estimator::rangeSample s{}; s.rng = 40; s.time_us = 60000000; e._range_sensor.setSample(s); e.fuseHagl(); return std::fabs(e._terrain_vpos - 5) < 1e-6f ? 0 : bad("terrain", e._terrain_vpos, 5); }
'''),
'e22-composite-wrap': dict(prop='E22', file='EKF/EKFGSF_yaw.cpp',
  edits=[("const float yaw_delta = wrap_pi(_ekf_gsf[model_index].X(2) - _gsf_yaw);", "const float yaw_delta = _ekf_gsf[model_index].X(2) - _gsf_yaw;")],
  needs='models on both sides of south', breaks='the composite yaw variance is huge when the models agree on a heading near plus or minus 180 degrees, so the yaw recovery is refused',
  demo=WB + r'''
int main() { EKFGSF_yaw g; estimator::imuSample u{}; u.delta_ang_dt = u.delta_vel_dt = 0.01f; u.delta_vel(2) = -0.0980665f; for (int i = 0; i < 3; i++) { g.update(u, false, 0.f, matrix::Vector3f()); } g._ekf_gsf_vel_fuse_started = false; for (int i = 0; i < N_MODELS_EKFGSF; i++) { g._ekf_gsf[i].X(2) = i % 2 ? 3.1f : -3.1f; g._ekf_gsf[i].P(2, 2) = 0.01f; g._model_weights(i) = 1.f / N_MODELS_EKFGSF; }
	g.update(u, false, 0.f, matrix::Vector3f()); return g._gsf_yaw_variance < 0.05f ? 0 : bad("variance", g._gsf_yaw_variance, 0.0117); }
'''),
'e02-field-limit': dict(prop='E02', file='EKF/ekf_helper.cpp',
  edits=[("	_state.mag_I = matrix::constrain(_state.mag_I, -1.0f, 1.0f);\n", "	_state.mag_I(0) = math::constrain(_state.mag_I(0), -1.0f, 1.0f);\n	_state.mag_I(2) = math::constrain(_state.mag_I(2), -1.0f, 1.0f);\n")],
  needs='a strong magnetic disturbance along east when the field states are set', breaks='the east field state is not limited',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); e._state.mag_I = matrix::Vector3f(4, 4, -4); e.constrainStates(); for (int i = 0; i < 3; i++) { if (std::fabs(e._state.mag_I(i)) > 1.f) { return bad("field", e._state.mag_I(i), 1); } } return 0; }
'''),
'e09-drag-bias': dict(prop='E09', file='EKF/drag_fusion.cpp',
  edits=[("_state.delta_vel_bias(axis_index) / _dt_ekf_avg", "_state.delta_vel_bias(axis_index)")],
  needs='drag fusion with an estimated accelerometer bias', breaks='the drag acceleration is not corrected for the accelerometer bias',
  demo=WB + r'''
int main() { float d[2]; for (int i = 0; i < 2; i++) { Ekf e; e.init(1000000); e._filter_initialised = true; e._params.bcoef_x = e._params.bcoef_y = 25; e._dt_ekf_avg = 0.01f; for (int k = 0; k < 24; k++) { e.P(k, k) = 0.01f; } e._state.vel(0) = 8; e._state.delta_vel_bias(0) = i * 0.002f; e._drag_sample_delayed.accelXY(0) = -1.5f + i * 0.2f; e.fuseDrag(); d[i] = e._drag_innov(0); } return std::fabs(d[0] - d[1]) < 1e-4f ? 0 : bad("innovation with bias", d[1], d[0]); }
'''),
'e10-flow-offset': dict(prop='E10', file='EKF/optflow_fusion.cpp',
  edits=[("const Vector3f pos_offset_body = _params.flow_pos_body - _params.imu_pos_body;", "const Vector3f pos_offset_body = _params.flow_pos_body;")],
  needs='an IMU away from the body origin while turning', breaks='the motion of the flow sensor relative to the IMU is wrong',
  demo=WB + r'''
int main() { float d[2]; for (int i = 0; i < 2; i++) { Ekf e; e.init(1000000); e._filter_initialised = true; for (int k = 0; k < 24; k++) { e.P(k, k) = 0.01f; } e._terrain_vpos = 10; const matrix::Vector3f o = matrix::Vector3f(0.5f, 0.4f, 0) * (float)i; e._params.imu_pos_body = o; e._params.flow_pos_body = o + matrix::Vector3f(0.1f, 0, 0); e._flow_sample_delayed.dt = 0.02f; e._flow_sample_delayed.quality = 200; e._flow_sample_delayed.gyro_xyz = matrix::Vector3f(0, 0, 0.04f); e._flow_compensated_XY_rad.setZero(); e.fuseOptFlow(); d[i] = std::fabs(e._flow_innov(0)) + 10 * std::fabs(e._flow_innov(1)); } return std::fabs(d[0] - d[1]) < 1e-5f ? 0 : bad("innovation with the same relative position", d[1], d[0]); }
'''),
'w01-initial-correlation': dict(prop='W01', file='airdata/WindEstimator.cpp', libs='airdata/WindEstimator.cpp', shim=True,
  edits=[("L(0, 1) = L4;\n	L(1, 0) = L4;", "L(0, 1) = -L4;\n	L(1, 0) = -L4;")],
  needs='starting the wind estimator in flight on a diagonal course', breaks='the initial wind uncertainty is oriented across instead of along the course',
  demo=WB.split('#define private')[0].replace('#include <functional>', '') + r'''
#define private public
#include <airdata/WindEstimator.hpp>
int main() { WindEstimator w; w.fuse_airspeed(1000000, 12.f, matrix::Vector3f(10, 10, 0), matrix::Vector2f(0.25f, 0.25f)); const float p = w._P(0, 1); if (!(p > 0)) { printf("FAIL covariance %g\n", p); return 1; } return 0; }
'''),
}
