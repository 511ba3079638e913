EU="msf_core/include/msf_core/eigen_utils.h"; GPS="msf_core/src/lib/gps_conversion.cc"; ST="msf_core/src/similaritytransform.cc"
STH="msf_core/include/msf_core/similaritytransform.h"; TL="msf_core/src/lib/msf_tools.cc"; TH="msf_core/include/msf_core/msf_tools.h"
TM="msf_timing/src/Timer.cc"; TMH="msf_timing/include/msf_timing/Timer.h"; PD="msf_updates/src/msf_distort/PoseDistorter.cc"
FZ="msf_core/include/msf_core/msf_checkFuzzyTracking.h"; FC="msf_core/src/lib/falsecolor.cc"
R={}
R["eigenutils"]=(["P20","P04"],[
 (EU,'''  return (Eigen::Matrix<typename Derived::Scalar, 3, 3>() << 0.0, -vec[2], vec[1],
      vec[2], 0.0, -vec[0], -vec[1], vec[0], 0.0).finished();''','''  typedef typename Derived::Scalar Scalar;
  Eigen::Matrix<Scalar, 3, 3> skew = Eigen::Matrix<Scalar, 3, 3>::Zero();
  skew(2, 1) = vec[0];
  skew(0, 2) = vec[1];
  skew(1, 0) = vec[2];
  return skew - skew.transpose().eval();'''),
 (EU,'''  if (q_squared < 1) {
    return Eigen::Quaternion < Scalar
        > (sqrt(1 - q_squared), theta[0] * 0.5, theta[1] * 0.5, theta[2] * 0.5);
  } else {
    const Scalar w = 1.0 / sqrt(1 + q_squared);
    const Scalar f = w * 0.5;
    return Eigen::Quaternion < Scalar
        > (w, theta[0] * f, theta[1] * f, theta[2] * f);
  }''','''  Eigen::Quaternion<Scalar> q;
  q.vec() = theta / 2;
  if (q_squared < 1) {
    q.w() = std::sqrt(Scalar(1) - q_squared);
    return q;
  }
  const Scalar w = Scalar(1) / std::sqrt(q_squared + Scalar(1));
  q.w() = w;
  q.vec() *= w;
  return q;'''),
 (EU,'''      if (std::isnan(mat(i, j))) {
        std::cerr << "=== ERROR ===  " << info << ": NAN at index [" << i << ","
            << j << "]" << std::endl;
        return false;
      }
      if (std::isinf(mat(i, j))) {
        std::cerr << "=== ERROR ===  " << info << ": INF at index [" << i << ","
            << j << "]" << std::endl;
        return false;
      }''','''      if (!std::isfinite(mat(i, j))) {
        std::cerr << "=== ERROR ===  " << info << ": "
            << (std::isnan(mat(i, j)) ? "NAN" : "INF") << " at index [" << i
            << "," << j << "]" << std::endl;
        return false;
      }'''),
])
R["gps"]=(["P18"],[
 (GPS,'''  R(0, 0) = -s_long;
  R(0, 1) = c_long;
  R(0, 2) = 0;

  R(1, 0) = -s_lat * c_long;
  R(1, 1) = -s_lat * s_long;
  R(1, 2) = c_lat;

  R(2, 0) = c_lat * c_long;
  R(2, 1) = c_lat * s_long;
  R(2, 2) = s_lat;
''','''  const Vector3 east(-s_long, c_long, 0);
  const Vector3 up(c_lat * c_long, c_lat * s_long, s_lat);
  R.row(0) = east;
  R.row(1) = up.cross(east);
  R.row(2) = up;
'''),
 (GPS,'''  double s_long, s_lat, c_long, c_lat;
  sincos(latitude * DEG2RAD, &s_lat, &c_lat);
  sincos(longitude * DEG2RAD, &s_long, &c_long);

  const double N''','''  const double lat = latitude * DEG2RAD, lon = longitude * DEG2RAD;
  const double s_lat = std::sin(lat), c_lat = std::cos(lat);
  const double s_long = std::sin(lon), c_long = std::cos(lon);

  const double N'''),
 (GPS,'''  ecef[0] = (N + altitude) * c_lat * c_long;
  ecef[1] = (N + altitude) * c_lat * s_long;
  ecef[2]''','''  const double rho = (N + altitude) * c_lat;
  ecef[0] = rho * c_long;
  ecef[1] = rho * s_long;
  ecef[2]'''),
 (GPS,'''  ecef_ref_point_ += ecef_ref_orientation_.conjugate()
      * msf_core::Vector3(0, 0, z_correction);''','''  const Vector3 up = ecef_ref_orientation_.inverse() * Vector3::UnitZ();
  ecef_ref_point_ += z_correction * up;'''),
])
R["sim"]=(["P17"],[
 (ST,'''    Eigen::Quaterniond q(q1.inverse() * q2);''','''    const Eigen::Quaterniond q = q1.conjugate() * q2;'''),
 (ST,'''    if (svd.singularValues()[i] < eps)
      S_hat(i, i) = 0;
    else
      S_hat(i, i) = 1 / svd.singularValues()[i];''','''    const double sigma = svd.singularValues()(i);
    S_hat(i, i) = sigma < eps ? 0.0 : 1.0 / sigma;'''),
 (ST,'''  Vector4 x = svd.matrixV() * S_hat * svd.matrixU().transpose() * b_hat;''','''  const Vector4 projected = svd.matrixU().transpose() * b_hat;
  const Vector4 x = svd.matrixV() * (S_hat * projected);'''),
 (ST,'''    A.block<3, 3>(i * 3, 0) = Eigen::Matrix<double, 3, 3>::Identity() * -1;
    A.block<3, 1>(i * 3, 3) = q1.inverse() * t2;
    b.block<3, 1>(i * 3, 0) = q1.inverse() * t1;''','''    const Matrix3 C1 = q1.conjugate().toRotationMatrix();
    b.segment<3>(i * 3) = C1 * t1;
    A.block<3, 1>(i * 3, 3) = C1 * t2;
    A.block<3, 3>(i * 3, 0) = -Matrix3::Identity();'''),
 (STH,'''  return (Vector3() << p.x, p.y, p.z).finished();''','''  return Vector3(p.x, p.y, p.z);'''),
])
R["tools"]=(["P21","P08"],[
 (TL,'''  return val - floor(val / 10000.) * 10000.;''','''  const double period = 1e4;
  return val - period * std::floor(val / period);'''),
 (TL,'#include <msf_core/msf_tools.h>','#include <msf_core/msf_tools.h>\n#include <cmath>'),
 (TH,'''    double * begin = m.data();
    double * end = m.data() + m.SizeAtCompileTime;
    double * middle = begin + static_cast<int>(std::floor((end - begin) / 2));
    std::nth_element(begin, middle, end);
    return *middle;''','''    const int half = m.size() / 2;
    std::nth_element(m.data(), m.data() + half, m.data() + m.size());
    return m(half);'''),
 (FZ,'''      if (std::max(errq.vec().maxCoeff(), -errq.vec().minCoeff()) /
          fabs(errq.w()) * 2 > fuzzythres) {  // Fuzzy tracking (small angle approx).
        MSF_WARN_STREAM("Fuzzy tracking triggered: " <<
            std::max(errq.vec().maxCoeff(), -errq.vec().minCoeff()) /
            fabs(errq.w())*2 << " limit: " << fuzzythres <<"\\n");
''','''      const double jump = 2 * errq.vec().cwiseAbs().maxCoeff() / std::abs(errq.w());
      if (jump > fuzzythres) {  // Fuzzy tracking (small angle approx).
        MSF_WARN_STREAM("Fuzzy tracking triggered: " << jump << " limit: "
            << fuzzythres <<"\\n");
'''),
 (FZ,'''        qbuff_.template block<1, 4>(nontemporaldrifting_inittimer_ - nBuff_ - 1, 0) =
            Eigen::Matrix<double, 1, 4>(
                const_cast<const EKFState_T&>(*delaystate).
                template Get<indexOfStateWithoutTemporalDrift>().coeffs());
         nontemporaldrifting_inittimer_ = (nontemporaldrifting_inittimer_) % nBuff_ + nBuff_ + 1;''','''        qbuff_.row(nontemporaldrifting_inittimer_ - nBuff_ - 1) =
            const_cast<const EKFState_T&>(*delaystate).
                template Get<indexOfStateWithoutTemporalDrift>().coeffs().transpose();
        if (++nontemporaldrifting_inittimer_ > 2 * nBuff_)
          nontemporaldrifting_inittimer_ = nBuff_ + 1;'''),
])
R["timer"]=(["P23"],[
 (TMH,'''    if (window_samples_ < N) {
      samples_[window_samples_++] = sample;
      window_sum_ += sample;
    } else {
      T& oldest = samples_[window_samples_++ % N];
      window_sum_ += sample - oldest;
      oldest = sample;
    }
    sum_ += sample;
    ++totalsamples_;
    if (sample > max_) {
      max_ = sample;
    }
    if (sample < min_) {
      min_ = sample;
    }''','''    const size_t slot = window_samples_ % N;
    if (window_samples_ >= N) {
      window_sum_ -= samples_[slot];
    }
    samples_[slot] = sample;
    window_sum_ += sample;
    ++window_samples_;
    ++totalsamples_;
    sum_ += sample;
    min_ = std::min(min_, sample);
    max_ = std::max(max_, sample);'''),
 (TMH,'''    for (size_t i = 0; i < WindowSize(); ++i) {
      var += (samples_[i] - mean) * (samples_[i] - mean);
    }
    var /= WindowSize();
    return var;''','''    const size_t n = WindowSize();
    for (const T* s = samples_; s != samples_ + n; ++s) {
      const double d = *s - mean;
      var += d * d;
    }
    return var / n;'''),
 (TM,'''    size_t handle = Instance().timers_.size();
    Instance().tagMap_[tag] = handle;
    Instance().timers_.push_back(TimerMapValue());
    // Track the maximum tag length to help printing a table of timing values
    // later.
    Instance().maxTagLength_ = std::max(Instance().maxTagLength_, tag.size());
    return handle;''','''    Timing& self = Instance();
    const size_t handle = self.timers_.size();
    self.timers_.emplace_back();
    self.tagMap_.insert(std::make_pair(tag, handle));
    if (tag.size() > self.maxTagLength_)
      self.maxTagLength_ = tag.size();
    return handle;'''),
 (TM,'''  std::string tag;

  // Perform a linear search for the tag.
  for (typename map_t::value_type current_tag : Instance().tagMap_) {
    if (current_tag.second == handle) {
      return current_tag.first;
    }
  }
  return tag;''','''  const map_t& tags = Instance().tagMap_;
  const auto found = std::find_if(tags.begin(), tags.end(),
      [handle](const map_t::value_type& t) { return t.second == handle; });
  return found == tags.end() ? std::string() : found->first;'''),
 (TM,'''  double dt = static_cast<double>(std::chrono::duration_cast
      < std::chrono::nanoseconds > (now - time_).count())
      * kNumSecondsPerNanosecond;

  Timing::Instance().AddTime(handle_, dt);
  timing_ = false;''','''  timing_ = false;
  const auto elapsed = std::chrono::duration_cast<std::chrono::nanoseconds>(now - time_);
  Timing::Instance().AddTime(handle_, elapsed.count() * kNumSecondsPerNanosecond);'''),
])
R["distorter"]=(["P19","P14"],[
 (PD,'''  Eigen::Vector3d deltapos;
  deltapos << d_pos_[0](gen_) * dt, d_pos_[1](gen_) * dt, d_pos_[2](gen_) * dt;

  double deltascale = d_scale(gen_) * dt;

  //add to rand walk
  posdrift_ += deltapos;
  scaledrift_ += deltascale;
''','''  for (int i = 0; i < 3; ++i) {
    posdrift_(i) += d_pos_[i](gen_) * dt;
  }
  scaledrift_ += d_scale(gen_) * dt;
'''),
 (PD,'''  pos += posdrift_;
  pos *= scaledrift_;''','''  pos = (scaledrift_ * (pos + posdrift_)).eval();'''),
 (PD,'''  att *= attdrift_;''','''  att = att * attdrift_;'''),
 (PD,'''  Eigen::Quaterniond deltaquat = QuaternionFromSmallAngle(rpydist);

  deltaquat.normalize();
''','''  const Eigen::Quaterniond deltaquat = QuaternionFromSmallAngle(rpydist).normalized();
'''),
])
R["palette"]=(["P22"],[
 (FC,'''      for (i = 0; i < 256; i++) {
        r = (sin((i / 255.0 * 360.0 + 120.0) * DEG2RAD) * 0.5 + 0.5) * 255.0;
        g = (sin((i / 255.0 * 360.0 + 240.0) * DEG2RAD) * 0.5 + 0.5) * 255.0;
        b = (sin((i / 255.0 * 360.0 + 0.0) * DEG2RAD) * 0.5 + 0.5) * 255.0;
        ret.colors[i].rgbBlue = b;
        ret.colors[i].rgbGreen = g;
        ret.colors[i].rgbRed = r;
      }''','''      for (i = 0; i < 256; i++) {
        const double angle = i / 255.0 * 360.0;
        auto channel = [angle](double phase) {
          return static_cast<unsigned char>((sin((angle + phase) * DEG2RAD) * 0.5 + 0.5) * 255.0);
        };
        ret.colors[i].rgbRed = channel(120.0);
        ret.colors[i].rgbGreen = channel(240.0);
        ret.colors[i].rgbBlue = channel(0.0);
      }'''),
])
