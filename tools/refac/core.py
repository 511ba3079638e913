INL="msf_core/include/msf_core/implementation/msf_core_inl.h"
COREH="msf_core/include/msf_core/msf_core.h"
MEAS="msf_core/include/msf_core/implementation/msf_measurement_inl.h"
SC="msf_core/include/msf_core/msf_sortedContainer.h"
FZ="msf_core/include/msf_core/msf_checkFuzzyTracking.h"
R={}
# spike removal extracted into a free function, static shared through a lambda
R["imu-helper"]=(["P10","P06"],[
 (INL,'''template<typename EKFState_T>
void MSF_Core<EKFState_T>::ProcessIMU(''','''namespace detail {
inline bool IsAccelerationSpike(const Vector3& a) {
  constexpr double kMaxAcceleration = 50;
  return a.norm() > kMaxAcceleration;
}
template<typename State>
void FillInputs(State& state, const Vector3& a_m, const Vector3& w_m,
                double noise_gyr, double noise_acc) {
  state.w_m = w_m;
  state.a_m = a_m;
  state.noise_acc = Vector3::Constant(noise_acc);
  state.noise_gyr = Vector3::Constant(noise_gyr);
}
}  // namespace detail

template<typename EKFState_T>
void MSF_Core<EKFState_T>::ProcessIMU('''),
 (INL,'''  currentState->a_m = linear_acceleration;
  currentState->w_m = angular_velocity;
  currentState->noise_gyr = Vector3::Constant(usercalc_.GetParamNoiseGyr());
  currentState->noise_acc = Vector3::Constant(usercalc_.GetParamNoiseAcc());


''','''  detail::FillInputs(*currentState, linear_acceleration, angular_velocity,
                     usercalc_.GetParamNoiseGyr(), usercalc_.GetParamNoiseAcc());

'''),
 (INL,'''  if (currentState->a_m.norm() > 50)
    currentState->a_m = last_am;
  else {
    // Try''','''  if (detail::IsAccelerationSpike(currentState->a_m)) {
    currentState->a_m = last_am;
  } else {
    // Try'''),
 (INL,'''    if (fabs(currentState->time - lastState->time) > 0.1) {''','''    const double gap = std::abs(lastState->time - currentState->time);
    if (gap > 0.1) {'''),
 (INL,'''  if (!initialized_)
    return;

  msf_timing::DebugTimer timer_PropGet''','''  if (!initialized_) {
    MSF_WARN_STREAM_THROTTLE(10, "not initialized");
    return;
  }

  msf_timing::DebugTimer timer_PropGet'''),
])
R["addmeas-helper"]=(["P06"],[
 (COREH,'''  void CleanUpBuffers();''','''  void CleanUpBuffers();

  /// Re-applies everything from a measurement on; false if nothing was applied.
  bool IsTooOld(double time) {
    return time < stateBuffer_.GetFirst()->time;
  }
  void MoveToFreeTime(shared_ptr<MSF_MeasurementBase<EKFState_T> >& m) {
    bool occupied = true;
    do {
      occupied = MeasurementBuffer_.GetValueAt(m->time)
          != MeasurementBuffer_.GetInvalid();
      if (occupied)
        m->time += 1e-6;
    } while (occupied);
  }
  bool RunsFreely() const { return initialized_ && predictionMade_; }'''),
 (INL,'''  while (MeasurementBuffer_.GetValueAt(measurement->time)
      != MeasurementBuffer_.GetInvalid()) {
    measurement->time += 1e-6;
  }''','''  MoveToFreeTime(measurement);'''),
 (INL,'''  if (measurement->time < stateBuffer_.GetFirst()->time) {''','''  if (IsTooOld(measurement->time)) {'''),
 (INL,'''  if (!initialized_ || !predictionMade_)
    return;

  // Check if the measurement is in''','''  if (!RunsFreely())
    return;

  // Check if the measurement is in'''),
 (INL,'''  for (; it_meas != it_meas_end; ++it_meas) {

    if (it_meas->second->time <= 0)  // Valid?
      continue;''','''  while (it_meas != it_meas_end) {

    if (it_meas->second->time <= 0) {  // Valid?
      ++it_meas;
      continue;
    }'''),
 (INL,'''    timer_prop_state_after_meas.Stop();
  }''','''    timer_prop_state_after_meas.Stop();
    ++it_meas;
  }'''),
 (INL,'''      if (time_P_propagated > state->time) {
        time_P_propagated = state->time;
      }''','''      time_P_propagated = std::min(time_P_propagated, state->time);'''),
])
R["closest-state"]=(["P06","P15"],[
 (INL,'''      currentState->a_m = lastState->a_m
          + (nextState->a_m - lastState->a_m)
              / (nextState->time - lastState->time)
              * (timenow - lastState->time);
      currentState->w_m = lastState->w_m
          + (nextState->w_m - lastState->w_m)
              / (nextState->time - lastState->time)
              * (timenow - lastState->time);
''','''      const double ratio = (timenow - lastState->time)
          / (nextState->time - lastState->time);
      currentState->a_m = (1.0 - ratio) * lastState->a_m + ratio * nextState->a_m;
      currentState->w_m = (1.0 - ratio) * lastState->w_m + ratio * nextState->w_m;
'''),
 (INL,'''  double tdiff = fabs(closestState->time - timenow);  // Timediff to closest state.
  // If time diff too large, insert new state and do state interpolation.
  if (tdiff > 0.001) {''','''  // If time diff too large, insert new state and do state interpolation.
  constexpr double kMaxTimeDiff = 1e-3;
  if (std::fabs(timenow - closestState->time) > kMaxTimeDiff) {'''),
 (INL,'''  for (; it != stateBuffer_.GetIteratorEnd() && it->second->time <= state->time;
      ++it, ++itMinus) {
    PredictProcessCovariance(itMinus->second, it->second);
  }''','''  while (it != stateBuffer_.GetIteratorEnd()) {
    if (it->second->time > state->time)
      break;
    PredictProcessCovariance(itMinus->second, it->second);
    itMinus = it++;
  }'''),
 (INL,'''  while (it != MeasurementBuffer_.GetIteratorBegin()) {
    --it;
    if (it->second->sensorID_ == sensorID) {
      return it->second;
    }
  }''','''  for (; it != MeasurementBuffer_.GetIteratorBegin();) {
    if ((--it)->second->sensorID_ == sensorID)
      return it->second;
  }'''),
])
R["propagate"]=(["P01","P10","P06"],[
 (INL,'''  int div = 1;
  Matrix4 MatExp;
  MatExp.setIdentity();
  OmegaMean *= 0.5 * dt;
  Matrix4 OmegaMeanPower = OmegaMean;
  for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
    div *= i;
    MatExp = MatExp + OmegaMeanPower / div;
    OmegaMeanPower *= OmegaMean;
  }''','''  OmegaMean *= 0.5 * dt;
  Matrix4 MatExp = Matrix4::Identity();
  Matrix4 term = Matrix4::Identity();
  for (int i = 1; i <= 4; ++i) {  // Can be made fourth order or less to save cycles.
    term = (term * OmegaMean / i).eval();
    MatExp += term;
  }'''),
 (INL,'''  dv = (state_new->template Get<StateDefinition_T::q>().toRotationMatrix() *
       ea + state_old->template Get<StateDefinition_T::q>().toRotationMatrix() *
       eaold) / 2;
  state_new->template Get<StateDefinition_T::v>() =
      state_old->template Get<StateDefinition_T::v>()
      + (dv - constants::GRAVITY) * dt;''','''  const Vector3 acc_new = state_new->template Get<StateDefinition_T::q>() * ea;
  const Vector3 acc_old = state_old->template Get<StateDefinition_T::q>() * eaold;
  dv = 0.5 * (acc_new + acc_old) - constants::GRAVITY;
  state_new->template Get<StateDefinition_T::v>() =
      state_old->template Get<StateDefinition_T::v>() + dt * dv;'''),
])
R["covpred"]=(["P02","P10"],[
 (INL,'''  state_new->P = Fd * state_old->P * Fd.transpose() + Qd;

  // Set time for best cov prop to now.
  time_P_propagated = state_new->time;
''','''  // Set time for best cov prop to now.
  time_P_propagated = state_new->time;
  const typename EKFState_T::F_type FP = Fd * state_old->P;
  state_new->P.noalias() = FP * Fd.transpose();
  state_new->P += Qd;
'''),
 (INL,'''  const Matrix3 A = Ca3
      * (-dt_p2_2 * eye3 + dt_p3_6 * w_sk - dt_p4_24 * w_sk * w_sk);
  const Matrix3 B = Ca3
      * (dt_p3_6 * eye3 - dt_p4_24 * w_sk + dt_p5_120 * w_sk * w_sk);
  const Matrix3 D = -A;
  const Matrix3 E = eye3 - dt * w_sk + dt_p2_2 * w_sk * w_sk;''','''  const Matrix3 w_sk2 = w_sk * w_sk;
  const Matrix3 D = Ca3
      * (dt_p2_2 * eye3 - dt_p3_6 * w_sk + dt_p4_24 * w_sk2);
  const Matrix3 A = -D;
  const Matrix3 B = Ca3
      * (dt_p3_6 * eye3 - dt_p4_24 * w_sk + dt_p5_120 * w_sk2);
  const Matrix3 E = eye3 - dt * w_sk + dt_p2_2 * w_sk2;'''),
 (INL,'''  const double dt_p3_6 = dt_p2_2 * dt / 3.0;
  const double dt_p4_24 = dt_p3_6 * dt * 0.25;
  const double dt_p5_120 = dt_p4_24 * dt * 0.2;''','''  const double dt_p3_6 = dt * dt * dt / 6.0;
  const double dt_p4_24 = std::pow(dt, 4) / 24.0;
  const double dt_p5_120 = dt_p4_24 * dt / 5.0;'''),
])
R["kalman"]=(["P03"],[
 (MEAS,'''  if(enable_mah_outlier_rejection_){
    //calculate mahalanobis distance
    Eigen::MatrixXd mah_dist_squared_temp = res_delayed.transpose() * S_inverse * res_delayed;
    double mah_dist_squared = mah_dist_squared_temp(0,0);

    //reject point as outlier if distance above threshold
    if (sqrt(mah_dist_squared) > mah_threshold_){
      MSF_WARN_STREAM_THROTTLE(1,"rejecting reading as outlier");
      return;
    }
  }
''','''  if (enable_mah_outlier_rejection_
      && detail::MahalanobisDistance(res_delayed, S_inverse) > mah_threshold_) {
    MSF_WARN_STREAM_THROTTLE(1,"rejecting reading as outlier");
    return;
  }
''',2),
 (MEAS,'''template<typename EKFState_T>
template<class H_type, class Res_type, class R_type>
void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(''','''namespace detail {
template<typename Res, typename Inv>
double MahalanobisDistance(const Res& res, const Inv& S_inverse) {
  const double d2 = (res.transpose() * S_inverse * res).value();
  return std::sqrt(d2);
}
}  // namespace detail

template<typename EKFState_T>
template<class H_type, class Res_type, class R_type>
void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection('''),
 (MEAS,'''  S_inverse = S.inverse();
  K = P * H_delayed.transpose() * S_inverse;

''','''  S_inverse = S.inverse();

''',2),
 (MEAS,'''  correction_ = K * res_delayed;
  const typename''','''  K = P * H_delayed.transpose() * S_inverse;
  correction_ = K * res_delayed;
  const typename''',2),
])
R["joint"]=(["P15","P08"],[
 (MEAS,'''  K_SC = P_SC * H_SC.transpose() * S_SC.inverse();

  Eigen::Matrix<double, MSF_Core<EKFState_T>::nErrorStatesAtCompileTime,
      R_type::RowsAtCompileTime> K;
  K = K_SC
      .template block<MSF_Core<EKFState_T>::nErrorStatesAtCompileTime,
          R_type::RowsAtCompileTime>(
      MSF_Core<EKFState_T>::nErrorStatesAtCompileTime, 0);
''','''  K_SC = P_SC * H_SC.transpose() * S_SC.inverse();

  const Eigen::Matrix<double, MSF_Core<EKFState_T>::nErrorStatesAtCompileTime,
      R_type::RowsAtCompileTime> K = K_SC.template bottomRows<Pdim>();
'''),
 (MEAS,'''  P_SC.template block<Pdim, Pdim>(0, 0) = state_old->P;
  // According to TRO paper, ICRA paper has a mistake here.
  P_SC.template block<Pdim, Pdim>(0, Pdim) = state_old->P * F_accum.transpose();
  P_SC.template block<Pdim, Pdim>(Pdim, 0) = F_accum * state_old->P;
  P_SC.template block<Pdim, Pdim>(Pdim, Pdim) = state_new->P;
''','''  P_SC << state_old->P, state_old->P * F_accum.transpose(),
      F_accum * state_old->P, state_new->P;
'''),
 (INL,'''  F = F_type::Identity();
  for (; it != itend; ++it) {
    F = it->second->Fd * F;  // Later steps act on the result of earlier ones.
  }''','''  F.setIdentity();
  while (it != itend) {
    const F_type step = it->second->Fd * F;  // Later steps act on the result of earlier ones.
    F = step;
    ++it;
  }'''),
])
R["container"]=(["P05","P06","P10","P09"],[
 (SC,'''    if (stateList.empty()) {
      MSF_WARN_STREAM("Requested the last object in the sorted container, but "
      "the container is empty");
      return GetInvalid();
    }
    typename ListT::iterator end = stateList.end();
    return (--end)->second;''','''    if (stateList.empty()) {
      MSF_WARN_STREAM("Requested the last object in the sorted container, but "
      "the container is empty");
      return GetInvalid();
    }
    return stateList.rbegin()->second;'''),
 (SC,'''  inline typename ListT::iterator GetIteratorAtValue(
      const shared_ptr<T>& value, bool warnIfNotExistant = true) {
    typename ListT::iterator it = stateList.find(value->time);
    if (it == stateList.end()) {  // There is no value in the map with this time.
      if (warnIfNotExistant)
        MSF_WARN_STREAM(
            "getIteratorAtValue(state): Could not find value for time " <<
            std::fixed << std::setprecision(9) << value->time);
      it = stateList.lower_bound(value->time);
    }
    return it;
  }''','''  inline typename ListT::iterator GetIteratorAtValue(
      const shared_ptr<T>& value, bool warnIfNotExistant = true) {
    return GetIteratorAtValue(value->time, warnIfNotExistant);
  }'''),
 (SC,'''    typename ListT::iterator it = stateList.upper_bound(statetime);
    if (it == stateList.end()) {
      return GetInvalid();
    }
    return it->second;''','''    auto it = GetIteratorClosestAfter(statetime);
    return it == stateList.end() ? GetInvalid() : it->second;'''),
 (SC,'''    if (tauPlus == it_end) {
      return tauMinus;
    }
    if (fabs(tauPlus->second->time - statetime)
        < fabs(tauMinus->second->time - statetime)) {
      return tauPlus;
    } else {
      return tauMinus;
    }''','''    if (tauPlus == it_end) {
      return tauMinus;
    }
    const double gapBefore = statetime - tauMinus->second->time;
    const double gapAfter = tauPlus->second->time - statetime;
    return gapAfter < gapBefore ? tauPlus : tauMinus;'''),
 (SC,'''    std::pair<typename ListT::iterator, bool> itpr = stateList.insert(
        std::pair<double, shared_ptr<T> >(value->time, value));''','''    auto itpr = stateList.emplace(value->time, value);'''),
 (SC,'''    stateList.erase(it->first);
    copy->time''','''    stateList.erase(it);
    copy->time'''),
 (SC,'''  inline void ClearOlderThan(double age) {
    double newest = GetLast()->time;
    double oldest = GetFirst()->time;
    if (newest - oldest < age)
      return;  //there is no state older than time
    iterator_T it = GetIteratorClosest(newest - age);
    if (it->second->time > stateList.begin()->second->time)
      stateList.erase(stateList.begin(), it);''','''  inline void ClearOlderThan(double age) {
    const double horizon = GetLast()->time - age;
    if (GetFirst()->time > horizon)
      return;  //there is no state older than time
    const iterator_T keepFrom = GetIteratorClosest(horizon);
    while (stateList.begin() != keepFrom)
      stateList.erase(stateList.begin());'''),
])
R["applycorr"]=(["P07","P08"],[
 (INL,'''    for (int i = 0;
        i < msf_tmp::StripConstReference<b_a_type>::result_t::sizeInCorrection_;
        ++i) {
      correction(indexOfState_b_a + i) = 0;  // Acc bias x,y,z.
    }
    for (int i = 0;
        i < msf_tmp::StripConstReference<b_w_type>::result_t::sizeInCorrection_;
        ++i) {
      correction(indexOfState_b_w + i) = 0;  // Gyro bias x,y,z.
    }''','''    correction.template segment<3>(indexOfState_b_w).setZero();  // Gyro bias x,y,z.
    correction.template segment<3>(indexOfState_b_a).setZero();  // Acc bias x,y,z.'''),
 (INL,'''  isfuzzyState_ |= fuzzyTracker_.Check(delaystate, buffstate, fuzzythres);
''','''  const bool isfuzzy = fuzzyTracker_.Check(delaystate, buffstate, fuzzythres);
  isfuzzyState_ = isfuzzyState_ || isfuzzy;
'''),
 (INL,'''  EKFState_T buffstate = *delaystate;
''','''  EKFState_T buffstate(*delaystate);
'''),
])
