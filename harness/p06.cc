// Out-of-order and delayed measurements: see p06.h
#include "p06.h"
static const int grid[] = {14000, 20000, 20400, 20700, 27000, 33000};
static std::string tag(const std::vector<int>& t, const std::vector<int>& s, int rej) { std::string n; for (size_t i = 0; i < t.size(); ++i) n += std::to_string(t[i]) + "@" + std::to_string(s[i]) + (rej >> i & 1 ? "r " : " "); return n; }
static void history(const std::vector<int>& t, const std::vector<int>& slot, int rejected) { Run r; for (int k = 1; k <= 7; ++k) { r.imu(10000 * k); for (size_t j = 0; j < t.size(); ++j) if (slot[j] == k) r.meas(t[j], rejected >> j & 1); } for (int k = 8; k <= 10; ++k) r.imu(10000 * k); r.check(tag(t, slot, rejected)); }
VC_CASE_BOUNDED(two) { for (int a : grid) for (int b : grid) for (int s = 4; s < 7; ++s) for (int u = s; u < 7; ++u) for (int rej = 0; rej < 4; ++rej) history({a, b}, {s, u}, rej); }
// a gap in the readings: measurements in the middle of it (no state within 0.1 s) are ignored, the others count
VC_CASE_BOUNDED(gap) { static const int at[] = {14000, 30000, 52000, 180000, 300000, 366000, 375000}; for (int a : at) for (int b : at) for (int c : at) if (a != b && b != c && a != c) for (int s = 0; s < 8; ++s) { int t[3] = {a, b, c}, slot[3] = {s & 1 ? 4 : 8, s & 2 ? 6 : 8, s & 4 ? 7 : 8}; Run r; for (int k = 1; k <= 8; ++k) { r.imu(k <= 5 ? 10000 * k : 300000 + 10000 * k); for (int j = 0; j < 3; ++j) if (slot[j] == k) r.meas(t[j], false); } for (int k = 9; k <= 11; ++k) r.imu(300000 + 10000 * k); r.check(tag({a, b, c}, {slot[0], slot[1], slot[2]}, 0)); } }
// three measurements, some of them ahead of the readings when delivered (equal time stamps only when none waits: the order they count in is that of arrival)
VC_CASE_BOUNDED(three) { static const int t3[] = {14000, 20700, 33000, 42000}, s3[] = {3, 4, 5, 7}; for (int a : t3) for (int b : t3) for (int c : t3) for (int s : s3) for (int u : s3) for (int v : s3) { if ((a == b || b == c || a == c) && (s < 5 || u < 5 || v < 5)) continue; history({a, b, c}, {s, u, v}, 0); } }
VC_CASE_BOUNDED(three_rejected) { static const int t3[] = {14000, 20400, 27000}; for (int a : t3) for (int b : t3) for (int c : t3) for (int u = 5; u < 7; ++u) for (int v = 5; v < 7; ++v) for (int rej = 1; rej < 8; ++rej) history({a, b, c}, {4, u, v}, rej); }
// closer together than one millisecond: each counts once, in order of time, on the state closest to it
VC_CASE_BOUNDED(cluster) { static const int tc[] = {13500, 14000, 14600, 15300, 20000, 20800, 21200, 21100}; for (int a : tc) for (int b : tc) for (int c : tc) for (int d : tc) if (a != b && a != c && b != c && d != a && d != b && d != c && (a < 16000 || b < 16000 || c > 16000) && (a > 14500 || b < 20500)) for (int s = 4; s < 6; ++s) for (int v = s; v < 6; ++v) history({a, b, c, d}, {4, s, s, v}, 0); }
// four measurements over the whole history
VC_CASE_BOUNDED(four) { int t[4] = {14000, 25000, 25600, 42000}; do { for (int s = 0; s < 81; ++s) { int x = s; std::vector<int> sl; for (int i = 0; i < 4; ++i, x /= 3) sl.push_back(3 + 2 * (x % 3)); history({t[0], t[1], t[2], t[3]}, sl, 0); } } while (std::next_permutation(t, t + 4)); }
// without effect: too old; before the filter is initialised; before its first prediction
VC_CASE_BOUNDED(ignored) { for (int t : {14000, 20000}) for (int k = 1; k <= 6; ++k) { Run r; for (int i = 1; i <= 7; ++i) { r.imu(10000 * i); if (i == 4) r.meas(t, false); if (i == k) r.meas(-5000, false); } r.check("too old @" + std::to_string(k) + " "); ensure("too old: not stored", r.c.MeasurementBuffer_.Size() == 1); }
  for (int k = 0; k < 2; ++k) { Run r; if (k) r.imu(10000); r.c.initialized_ = false; std::vector<Ref> none; r.meas(0, false); r.meas(10000, false); r.meas(20000, false); r.all.clear(); r.c.initialized_ = true; for (int i = 1 + k; i <= 5; ++i) r.imu(10000 * i); r.check("not initialised "); ensure("not initialised: not stored", r.c.MeasurementBuffer_.Size() == 0); }
  { Run r; r.meas(0, false); r.meas(20000, false); r.all.clear(); for (int i = 1; i <= 5; ++i) r.imu(10000 * i); r.check("no prediction yet "); ensure("no prediction yet: not stored", r.c.MeasurementBuffer_.Size() == 0); } }
// ahead of the readings: applied with the first reading after them (one waiting measurement per reading, in order of arrival)
// the oldest state cannot be predicted again
VC_CASE_BOUNDED(oldest) { for (int a : {300, 600, 900, 1300, 0}) for (int b : {300, 600, 900, 1300, 0}) for (int c : {300, 500, 1200, 0}) if (a != b && b != c && a != c) history({a, b, c}, {4, 5, 5}, 0); }
VC_CASE_BOUNDED(waiting) { Run r; r.imu(10000); r.imu(20000); r.imu(30000); r.meas(44000, false); r.meas(37000, false); r.meas(51000, true); ensure("waits", r.c.queueFutureMeasurements_.size() == 3 && r.c.MeasurementBuffer_.Size() == 0); X b = get(*r.c.stateBuffer_.GetLast()), w = batch(r.x0, r.in, {}); ensure_eq("waiting has no effect", b.p, w.p);
  r.imu(35000); ensure("still ahead: waits", r.c.queueFutureMeasurements_.size() == 3 && r.c.MeasurementBuffer_.Size() == 0); r.imu(40000); ensure("applied once caught up", r.c.MeasurementBuffer_.Size() == 1); for (int i = 5; i <= 9; ++i) r.imu(10000 * i); r.check("waiting "); }
// any times: readings any time apart (the measurements before the last of four), delivered after the fourth or later ones
static Real later(int k) { Real d = pos_var("dt" + std::to_string(k), 0.002, 0.08); assume(d <= Real(1) / Real(10)); return d; }
static void any_times(int n, int extra) { Run r; Real t = sec(0), first = t; for (int k = 1; k <= 3; ++k) { t += later(k); r.imu(t); }
  for (int j = 0; j < n; ++j) { if (extra && j == n - 1) { t += later(4); r.imu(t); } Real s = var("time" + std::to_string(j), 10, 10.2); assume(s >= first); assume(s <= t); for (auto& o : r.all) assume(o.t != s); r.meas(s, choose("rejected " + std::to_string(j)) != 0); cover("delivered"); }
  r.check(""); }
VC_CASE_BOUNDED(any_one) { any_times(1, 0); }
VC_CASE_BOUNDED(any_one_late) { any_times(1, 1); }
VC_CASE_BOUNDED(any_two) { any_times(2, 0); }
VC_CASE_BOUNDED(any_two_late) { any_times(2, 1); }
VC_MAIN
