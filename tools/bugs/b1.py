WB = r'''
#include <cstdio>
#include <cmath>
#include <memory>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <matrix/math.hpp>
#define private public
#define protected public
#include <EKF/ekf.h>
#undef private
#undef protected
static int bad(const char *m, double a, double b) { printf("FAIL %s: %.9g vs %.9g\n", m, a, b); return 1; }
'''
BUGS = {
'u02-stale-tail': dict(prop='U02', file='EKF/RingBuffer.h', libs='', shim=True,
  edits=[("""				if (index == _head) {
					_tail = _head;
""", """				if (index == _head) {
					_tail = _size - 1 - _head;
""")],
  needs='popping the newest entry of a partly filled buffer, then popping for a time an older, already discarded entry would match',
  breaks='entries discarded by a pop come back, so old data is returned after newer data',
  demo=r'''
#include <cstdint>
#include <EKF/RingBuffer.h>
struct S { uint64_t time_us{0}; int v{0}; };
int main() { RingBuffer<S> b(6); S s; for (int i = 0; i < 4; i++) { s.time_us = 1000000 + 10000 * i; s.v = i; b.push(s); }
	S o; if (!b.pop_first_older_than(1030000, &o) || o.v != 3) { return 2; }
	if (b.pop_first_older_than(1035000, &o)) { printf("FAIL stale %d\n", o.v); return 1; } return 0; }
'''.replace('#include <cstdint>', '#include <cstdint>\n#include <cstdio>')),
'u03-clip-z-sticks': dict(prop='U03', file='EKF/imu_down_sampler.cpp', libs='EKF/imu_down_sampler.cpp', shim=True,
  edits=[("	_imu_down_sampled.delta_vel_clipping[2] = false;\n", "")],
  needs='a sample with Z-axis clipping followed by later intervals without clipping',
  breaks='Z-axis clipping is reported for every later interval',
  demo=r'''
#include <cstdio>
#include <matrix/math.hpp>
#include <EKF/imu_down_sampler.hpp>
using namespace estimator;
int main() { ImuDownSampler d(0.01f); int out = 0; for (int i = 0; i < 40; i++) { imuSample s{}; s.time_us = 1000 + i * 4000; s.delta_ang_dt = s.delta_vel_dt = 0.004f; s.delta_vel_clipping[2] = i == 4;
	if (d.update(s)) { imuSample o = d.getDownSampledImuAndTriggerReset(); out++; if (o.delta_vel_clipping[2] != (i >= 4 && i < 8 && o.time_us >= 17000 && out == 2)) { printf("FAIL clipping %d at %d\n", o.delta_vel_clipping[2], i); return 1; } } } return out > 5 ? 0 : 2; }
'''),
'u05-stuck-min-kept': dict(prop='U05', file='EKF/sensor_range_finder.cpp', libs='EKF/sensor_range_finder.cpp', shim=True,
  edits=[("""			_stuck_min_val = 0.0f;
			_stuck_max_val = 0.0f;
			_is_stuck = false;""", """			_stuck_max_val = 0.0f;
			_is_stuck = false;""")],
  needs='two separate outages of more than ten seconds, the second ending with a constant (stuck) reading larger than the lowest of the first',
  breaks='after the second outage a stuck sensor is declared healthy',
  demo=r'''
#include <cstdio>
#include <matrix/math.hpp>
#include <EKF/sensor_range_finder.hpp>
using namespace estimator::sensor;
int main() { SensorRangeFinder r; r.setLimits(0.2f, 20); r.setPitchOffset(0); r.setCosMaxTilt(0.7f); matrix::Dcmf R; R.setIdentity(); uint64_t t = 30000000; int late = 0;
	for (int k = 0; k < 2000; k++) { t += 20000; float v = 5 + 0.2f * (k % 5); if ((k > 300 && k < 900) || (k > 1200 && k < 1800)) { v = 100; } if (k >= 1800) { v = 6; } estimator::rangeSample s{}; s.time_us = t; s.rng = v; s.quality = 100; r.setSample(s); r.runChecks(t, R); if (k == 1190 && !r.isHealthy()) { return 2; } if (k >= 1800 && r.isHealthy()) { late++; } }
	if (late) { printf("FAIL stuck sensor healthy %d times\n", late); return 1; } return 0; }
'''),
'e04-earth-rate-south': dict(prop='E04', file='EKF/ekf_helper.cpp',
  edits=[("			-CONSTANTS_EARTH_SPIN_RATE * sinf(lat_rad));", "			-CONSTANTS_EARTH_SPIN_RATE * sqrtf(1.0f - sq(cosf(lat_rad))));")],
  needs='an origin south of the equator', breaks='the vertical earth rotation rate has the wrong sign in the southern hemisphere',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); for (float la : {0.9f, -0.9f, -0.1f}) { matrix::Vector3f w = e.calcEarthRateNED(la); double s = 7.2921150e-5; if (std::fabs(w(2) + s * std::sin(la)) > 1e-9) { return bad("down rate", w(2), -s * std::sin(la)); } } return 0; }
'''),
'e05-clip-y': dict(prop='E05', file='EKF/covariance.cpp',
  edits=[("""	if (_imu_sample_delayed.delta_vel_clipping[1]) {
		dvyVar =""", """	if (_imu_sample_delayed.delta_vel_clipping[1] && _control_status.flags.in_air) {
		dvyVar =""")],
  needs='a sample with Y-axis accelerometer clipping while on the ground', breaks='the process noise of the clipped axis is not raised',
  demo=WB + r'''
int main() { for (int air = 0; air < 2; air++) { Ekf e; e.init(1000000); e._filter_initialised = true; e._control_status.flags.in_air = air; for (int i = 0; i < 24; i++) { e.P(i, i) = 1e-6f; } e._imu_sample_delayed.delta_ang_dt = e._imu_sample_delayed.delta_vel_dt = 0.01f; e._imu_sample_delayed.delta_vel(2) = -0.0981f; e._imu_sample_delayed.delta_vel_clipping[1] = true;
	e._state.quat_nominal = matrix::Quatf(); e.predictCovariance(); if (std::fabs(e.P(5, 5) - 0.0024) > 5e-4) { return bad("velocity variance", e.P(5, 5), 0.0024); } } return 0; }
'''),
'e06-badacc-limit': dict(prop='E06', file='EKF/vel_pos_fusion.cpp',
  edits=[("""	_vert_vel_innov_ratio = innov(2) / sqrtf(innov_var(2));""", """	_vert_vel_innov_ratio = innov(2) / sqrtf(obs_var(2));""")],
  needs='a vertical velocity observation whose variance is not much larger than the state variance', breaks='the normalised vertical velocity innovation is computed with the observation variance only',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); for (int i = 0; i < 24; i++) { e.P(i, i) = 1; } matrix::Vector3f in(0, 0, 1), ov(1, 1, 3), iv; matrix::Vector2f g(5, 5), tr; e.fuseVerticalVelocity(in, g, ov, iv, tr); if (std::fabs(e._vert_vel_innov_ratio - 0.5) > 1e-5) { return bad("ratio", e._vert_vel_innov_ratio, 0.5); } return 0; }
'''),
'e06-hvel-gate-east': dict(prop='E06', file='EKF/vel_pos_fusion.cpp',
  edits=[("""	innov_var(0) = P(7, 7) + obs_var(0);
	innov_var(1) = P(8, 8) + obs_var(1);""", """	innov_var(0) = P(7, 7) + obs_var(0);
	innov_var(1) = P(8, 8) + obs_var(0);""")],
  needs='a horizontal position observation with different north and east variances', breaks='the east position is fused and gated with the north variance',
  demo=WB + r'''
int main() { Ekf e; e.init(1000000); for (int i = 0; i < 24; i++) { e.P(i, i) = 1; } matrix::Vector3f in(0, 1, 0), ov(1, 3, 1), iv; matrix::Vector2f g(5, 5), tr; e.fuseHorizontalPosition(in, g, ov, iv, tr); if (std::fabs(iv(1) - 4) > 1e-5) { return bad("variance", iv(1), 4); } if (std::fabs(e._state.pos(1) + 0.25) > 1e-5) { return bad("east", e._state.pos(1), -0.25); } return 0; }
'''),
'g04-past-end-west': dict(prop='G04', file='geo/geo.cpp', libs='geo/geo.cpp', shim=True,
  edits=[("""	float bearing_diff = wrap_pi(bearing_track - bearing_end);

	// Return past_end = true if past end point of line
	if (bearing_diff > M_PI_2_F""", """	float bearing_diff = bearing_track - bearing_end;

	// Return past_end = true if past end point of line
	if (bearing_diff > M_PI_2_F""")],
  needs='a track heading close to south, with the vehicle on the side where track and end bearings wrap differently', breaks='the vehicle is reported past the end of a southbound track it is still flying',
  demo=r'''
#include <cstdio>
#include <cmath>
#include <geo/geo.h>
int main() { for (int k = -1; k <= 1; k += 2) { crosstrack_error_s e; int r = get_distance_to_line(&e, 47.0, 8.0 + k * 1e-4, 47.01, 8.0 - 1e-6 * k, 46.99, 8.0); if (r != 0 || e.past_end || std::fabs(std::fabs(e.distance) - 7.58) > 0.2) { printf("FAIL %d past %d distance %g\n", k, e.past_end, e.distance); return 1; } } return 0; }
'''),
}
