C="msf_core/include/msf_core/implementation/msf_core_inl.h"; M="msf_core/include/msf_core/implementation/msf_measurement_inl.h"
CH="msf_core/include/msf_core/msf_core.h"; MH="msf_core/include/msf_core/msf_measurement.h"; SC="msf_core/include/msf_core/msf_sortedContainer.h"
FZ="msf_core/include/msf_core/msf_checkFuzzyTracking.h"; T="msf_core/include/msf_core/msf_tmp.h"; IR="msf_core/include/msf_core/msf_IMUHandler_ROS.h"; IH="msf_core/include/msf_core/msf_IMUHandler.h"
R={}
# P02: cached parameters
R["p02-static-noise"]=(["P02"],[(C,"  const Vector3 nbwv = Vector3::Constant(usercalc_.GetParamNoiseGyrbias());","  static const Vector3 nbwv = Vector3::Constant(usercalc_.GetParamNoiseGyrbias());")])
R["p02-fd-new"]=(["P02"],[(C,"  typename EKFState_T::F_type& Fd = state_old->Fd;","  typename EKFState_T::F_type& Fd = state_new->Fd;")])
R["p03-runtime-mah"]=(["P03"],[(M,"    if (sqrt(mah_dist_squared) > mah_threshold_){","    if (mah_dist_squared > mah_threshold_){",2)])
R["p03-reject-late"]=(["P03"],[(M,'''  correction_ = K * res_delayed;
  const typename MSF_Core<EKFState_T>::ErrorStateCov KH =''','''  correction_ = K * res_delayed;
  if (enable_mah_outlier_rejection_ && correction_.squaredNorm() > 100 * mah_threshold_)
    return;
  const typename MSF_Core<EKFState_T>::ErrorStateCov KH =''',2)])
R["p04-mult"]=(["P04"],[(T,"    t.state_ = t.state_ * qbuff_q;","    t.state_ = qbuff_q * t.state_;")])
R["p04-skipsmall"]=(["P04"],[(T,"    t.state_ = t.state_ * qbuff_q;","    if (qbuff_q.vec().squaredNorm() > 1e-18)\n      t.state_ = t.state_ * qbuff_q;")])
R["p05-update-key"]=(["P05","P10"],[(SC,"    copy->time = timeNew;\n    typename ListT::iterator inserted = Insert(copy);","    typename ListT::iterator inserted = stateList.insert(std::make_pair(timeNew, copy)).first;\n    inserted->second->time = timeNew;")])
R["p05-getclosest-tie"]=(["P05"],[(SC,"    if (fabs(tauPlus->time - statetime) < fabs(tauMinus->time - statetime)) {","    if (fabs(tauPlus->time - statetime) <= fabs(tauMinus->time - statetime)) {")])
R["p06-eq-newest"]=(["P06"],[(C,"  if (measurement->time > stateBuffer_.GetLast()->time) {","  if (measurement->time >= stateBuffer_.GetLast()->time) {")])
R["p06-noise-interp"]=(["P06","P16"],[(C,'''      currentState->noise_gyr = Vector3::Constant(usercalc_.GetParamNoiseGyr());
      currentState->noise_acc''','''      currentState->noise_acc''')])
R["p06-interp-am"]=(["P06"],[(C,"              * (timenow - lastState->time);\n      currentState->w_m","              * (nextState->time - timenow);\n      currentState->w_m")])
R["p06-ptime-strict"]=(["P06"],[(C,'''      if (time_P_propagated > lastState->time) {
        time_P_propagated = lastState->time;
      }''','''      if (time_P_propagated > nextState->time) {
        time_P_propagated = lastState->time;
      }''')])
R["p06-clean-10"]=(["P06"],[(C,"  double timeold = 60;","  double timeold = 10;")])
R["p06-clean-order"]=(["P06"],[(C,"  stateBuffer_.ClearOlderThan(timeold);\n  MeasurementBuffer_.ClearOlderThan(timeold);","  stateBuffer_.ClearOlderThan(timeold);\n  MeasurementBuffer_.Clear();")])
R["p06-end-nointerp"]=(["P06"],[(C,'''      if (it_end != stateBuffer_.GetIteratorEnd()) {
        // Propagate to state closest after the measurement so we can interpolate.
        ++it_end;
      }''','')])
R["p06-undo-dist"]=(["P06"],[(C,"      && fabs(measurement->time - it_state->second->time) <= 0.1\n","")])
R["p07-fuzzy-overwrite"]=(["P07"],[(C,"  isfuzzyState_ |= fuzzyTracker_","  isfuzzyState_ = fuzzyTracker_")])
R["p07-propagated-if-fuzzy"]=(["P07"],[(C,"  // Set time latest propagated, we need to repropagate at least from here.\n  time_P_propagated = delaystate->time;","  if (!isfuzzyState_)\n    time_P_propagated = delaystate->time;")])
R["p07-augment-late"]=(["P07"],[(C,"  usercalc_.AugmentCorrectionVector(correction);\n",""),(C,"  EKFState_T buffstate = *delaystate;\n","  EKFState_T buffstate = *delaystate;\n  if (!usercalc_.GetParamFixedBias())\n    usercalc_.AugmentCorrectionVector(correction);\n")])
R["p07-sanity-args"]=(["P07"],[(C,"  EKFState_T buffstate = *delaystate;\n\n  // Call correction function for every state.\n  delaystate->Correct(correction);","  delaystate->Correct(correction);\n  EKFState_T buffstate = *delaystate;\n")])
R["p08-window"]=(["P08"],[(FZ,"(nontemporaldrifting_inittimer_) % nBuff_ + nBuff_ + 1;","(nontemporaldrifting_inittimer_ + 1) % nBuff_ + nBuff_ + 1;")])
R["p08-median-w"]=(["P08"],[(FZ,"          GetMedian(qbuff_.template block<nBuff_, 1> (0, 3)),","          GetMedian(qbuff_.template block<nBuff_ - 1, 1> (1, 3)),")])
R["p08-wabs"]=(["P08"],[(FZ,'''          fabs(errq.w()) * 2 > fuzzythres) {''','''          errq.w() * 2 > fuzzythres) {''')])
R["p09-fuzzy-noreset"]=(["P09"],[(C,"  fuzzyTracker_.Reset();\n","")])
R["p09-queue"]=(["P09"],[(C,"  while (!queueFutureMeasurements_.empty())\n    queueFutureMeasurements_.pop();\n\n  // Push one","  if (!queueFutureMeasurements_.empty())\n    queueFutureMeasurements_.pop();\n\n  // Push one")])
R["p09-userp"]=(["P09"],[(M,"  if (!(InitState.P.minCoeff() == 0 && InitState.P.maxCoeff() == 0)) {","  if (InitState.P.minCoeff() > 0) {")])
R["p09-sensorreadings"]=(["P09"],[(M,"    stateWithCovariance->w_m = InitState.w_m;\n","    stateWithCovariance->w_m = InitState.a_m;\n")])
R["p10-spike-store"]=(["P10"],[(C,"    last_am = currentState->a_m;\n  }","    last_am = linear_acceleration.cwiseMin(49);\n  }")])
R["p10-gap-noabs"]=(["P10"],[(C,"    if (fabs(currentState->time - lastState->time) > 0.1) {","    if (currentState->time - lastState->time > 0.1) {")])
R["p10-gap-time"]=(["P10"],[(C,"      time_P_propagated = currentState->time;\n      return;  // // early","      return;  // // early")])
R["p10-ext-q"]=(["P10"],[(C,"    currentState->template Get<StateDefinition_T::q>() = q;\n\n","    currentState->template Get<StateDefinition_T::q>() = is_already_propagated && predictionMade_ ? q : lastState->template Get<StateDefinition_T::q>();\n\n")])
R["p10-ext-meas"]=(["P10"],[(C,"    stateBuffer_.Clear();\n    MeasurementBuffer_.Clear();\n    while","    stateBuffer_.Clear();\n    while")])
R["p10-numeric9"]=(["P10"],[(IR,"Eigen::Map<const Eigen::Matrix<float, 10, 1> >","Eigen::Map<const Eigen::Matrix<float, 6, 1> >")])
R["p10-imuz"]=(["P10"],[(IH,"    core_->ProcessExternallyPropagatedState(linear_acceleration,\n                                            angular_velocity,","    core_->ProcessExternallyPropagatedState(linear_acceleration,\n                                            linear_acceleration,")])
R["p15-prev-sensor"]=(["P15"],[(C,"    if (it->second->sensorID_ == sensorID) {","    if (it->second->sensorID_ <= sensorID) {")])
R["p15-pold"]=(["P15"],[(M,"  P_SC.template block<Pdim, Pdim>(0, 0) = state_old->P;","  P_SC.template block<Pdim, Pdim>(0, 0) = state_new->P;")])
