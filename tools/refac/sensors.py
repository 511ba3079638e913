U="msf_updates/include/msf_updates/"
PM=U+"pose_sensor_handler/pose_measurement.h"; PH=U+"pose_sensor_handler/implementation/pose_sensorhandler.hpp"
OM=U+"position_sensor_handler/position_measurement.h"; OH=U+"position_sensor_handler/implementation/position_sensorhandler.hpp"
SM=U+"spherical_position_sensor/spherical_measurement.h"; SH=U+"spherical_position_sensor/implementation/spherical_sensorhandler.hpp"
BM=U+"pressure_sensor_handler/pressure_measurement.h"; BH=U+"pressure_sensor_handler/implementation/pressure_sensorhandler.hpp"
MG="msf_updates/src/pose_msf/pose_sensormanager.h"; RS="msf_core/include/msf_core/msf_sensormanagerROS.h"
SI="msf_core/include/msf_core/implementation/msf_state_inl.h"
R={}
R["pose-h"]=(["P11","P14"],[
 (PM,'''    // Read the fixed states flags.
    bool scalefix = (fixedstates_ & 1 << StateLIdx);
    bool calibposfix = (fixedstates_ & 1 << StatePicIdx);
    bool calibattfix = (fixedstates_ & 1 << StateQicIdx);
    bool driftwvattfix = (fixedstates_ & 1 << StateQwvIdx);
    bool driftwvposfix = (fixedstates_ & 1 << StatePwvIdx);

    // Set crosscov to zero for fixed states.
    if (scalefix)
      state_in->ClearCrossCov<StateLIdx>();
    if (calibposfix)
      state_in->ClearCrossCov<StatePicIdx>();
    if (calibattfix)
      state_in->ClearCrossCov<StateQicIdx>();
    if (driftwvattfix)
      state_in->ClearCrossCov<StateQwvIdx>();
    if (driftwvposfix)
      state_in->ClearCrossCov<StatePwvIdx>();
''','''    const bool scalefix = IsFixed<StateLIdx>();
    const bool calibposfix = IsFixed<StatePicIdx>();
    const bool calibattfix = IsFixed<StateQicIdx>();
    const bool driftwvattfix = IsFixed<StateQwvIdx>();
    const bool driftwvposfix = IsFixed<StatePwvIdx>();
    ClearIfFixed<StatePwvIdx>(*state_in);
    ClearIfFixed<StateQwvIdx>(*state_in);
    ClearIfFixed<StateQicIdx>(*state_in);
    ClearIfFixed<StatePicIdx>(*state_in);
    ClearIfFixed<StateLIdx>(*state_in);
'''),
 (PM,'''  virtual ~PoseMeasurement() {}
''','''  template<int IDX>
  bool IsFixed() const {
    return ((fixedstates_ >> IDX) & 1) != 0;
  }
  template<int IDX>
  void ClearIfFixed(EKFState_T& state) const {
    if (IsFixed<IDX>()) {
      state.template ClearCrossCov<IDX>();
    }
  }

  virtual ~PoseMeasurement() {}
'''),
 (PM,'''    H.block<3, 3>(0, kIdxstartcorr_p) = C_wv
        * state.Get<StateLIdx>()(0);  // p

    H.block<3, 3>(0, kIdxstartcorr_q) = -C_wv * C_q * pci_sk
        * state.Get<StateLIdx>()(0);  // q

    H.block<3, 1>(0, kIdxstartcorr_L) =
        scalefix ?
            Eigen::Matrix<double, 3, 1>::Zero() :
            (C_wv * C_q * state.Get<StatePicIdx>() + C_wv
                    * (-state.Get<StatePwvIdx>()
                        + state.Get<StateDefinition_T::p>())).eval();  // L

    H.block<3, 3>(0, kIdxstartcorr_qwv) =
        driftwvattfix ?
            Eigen::Matrix<double, 3, 3>::Zero() : (-C_wv * skewold).eval();  // q_wv
''','''    const double scale = state.Get<StateLIdx>()(0);
    const Eigen::Matrix<double, 3, 3> C_vi = C_wv * C_q;
    H.template block<3, 3>(0, kIdxstartcorr_q).noalias() = -scale * C_vi * pci_sk;
    H.template block<3, 3>(0, kIdxstartcorr_p) = scale * C_wv;
    if (!scalefix) {
      H.template block<3, 1>(0, kIdxstartcorr_L) = C_wv
          * (state.Get<StateDefinition_T::p>() - state.Get<StatePwvIdx>())
          + C_vi * state.Get<StatePicIdx>();
    }
    if (!driftwvattfix) {
      H.template block<3, 3>(0, kIdxstartcorr_qwv) = -(C_wv * skewold);
    }
'''),
 (PM,'''      r_old.block<3, 1>(0, 0) = z_p_
          - (C_wv.transpose()
              * (-state.Get<StatePwvIdx>()
                  + state.Get<StateDefinition_T::p>()
                  + C_q.transpose() * state.Get<StatePicIdx>()))
              * state.Get<StateLIdx>();
''','''      const Eigen::Matrix<double, 3, 1> p_sensor = state.Get<StateDefinition_T::p>()
          + state.Get<StateDefinition_T::q>() * state.Get<StatePicIdx>();
      r_old.template head<3>() = z_p_ - state.Get<StateLIdx>()(0)
          * (state.Get<StateQwvIdx>() * (p_sensor - state.Get<StatePwvIdx>()));
'''),
 (PM,'''      r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;''','''      r_old.block<3, 1>(3, 0) = (2.0 / q_err.w()) * q_err.vec();'''),
 (PM,'''      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
      z_q_ = z_q_.conjugate();
      z_p_ = -C_zq.transpose() * z_p_;

      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
      C_cov.block<3, 3>(0, 0) = C_zq;
      C_cov.block<3, 3>(3, 3) = C_zq;

      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
''','''      const Eigen::Matrix<double, 3, 3> C_inv = z_q_.toRotationMatrix().transpose();
      z_p_ = -(C_inv * z_p_).eval();
      z_q_.x() = -z_q_.x();
      z_q_.y() = -z_q_.y();
      z_q_.z() = -z_q_.z();
      for (int i = 0; i < 6; i += 3) {
        for (int j = 0; j < 6; j += 3) {
          const Eigen::Matrix<double, 3, 3> block = R_.block<3, 3>(i, j);
          R_.block<3, 3>(i, j) = C_inv * block * C_inv.transpose();
        }
      }
'''),
 (PM,'''      R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
      R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
''','''      R_.block<3, 3>(0, 3).setZero();
      R_.block<3, 3>(3, 0).setZero();
'''),
 (PM,'''      R_.block<6, 6>(0, 0) = Eigen::Matrix<double, 6, 6>(
          &msg->pose.covariance[0]);
''','''      for (int i = 0; i < 6; ++i) {
        for (int j = 0; j < 6; ++j) {
          R_(i, j) = msg->pose.covariance[6 * j + i];
        }
      }
'''),
])
R["pose-handler"]=(["P14","P25","P09"],[
 (PH,'''  if (mngr) {
    if (mngr->Getcfg().pose_fixed_scale) {
      fixedstates |= 1 << MEASUREMENT_TYPE::AuxState::L;
    }
    if (mngr->Getcfg().pose_fixed_p_ic) {
      fixedstates |= 1 << MEASUREMENT_TYPE::AuxState::p_ic;
    }
    if (mngr->Getcfg().pose_fixed_q_ic) {
      fixedstates |= 1 << MEASUREMENT_TYPE::AuxState::q_ic;
    }
    if (mngr->Getcfg().pose_fixed_p_wv) {
      fixedstates |= 1 << MEASUREMENT_TYPE::AuxState::p_wv;
    }
    if (mngr->Getcfg().pose_fixed_q_wv) {
      fixedstates |= 1 << MEASUREMENT_TYPE::AuxState::q_wv;
    }
  }
''','''  if (mngr) {
    auto config = mngr->Getcfg();
    const auto fix = [&fixedstates](bool fixed, int index) {
      fixedstates |= (fixed ? 1 : 0) << index;
    };
    fix(config.pose_fixed_q_wv, MEASUREMENT_TYPE::AuxState::q_wv);
    fix(config.pose_fixed_p_wv, MEASUREMENT_TYPE::AuxState::p_wv);
    fix(config.pose_fixed_q_ic, MEASUREMENT_TYPE::AuxState::q_ic);
    fix(config.pose_fixed_p_ic, MEASUREMENT_TYPE::AuxState::p_ic);
    fix(config.pose_fixed_scale, MEASUREMENT_TYPE::AuxState::L);
  }
'''),
 (PH,'''  if (time_now - timestamp_previous_pose_ <=
      pose_measurement_minimum_dt_ - epsilon) {''','''  const double time_passed = time_now - timestamp_previous_pose_;
  const bool throttled = !(time_passed > pose_measurement_minimum_dt_ - epsilon);
  if (throttled) {'''),
 (PH,'''  pose->pose.pose.orientation.w = msg->transform.rotation.w;
  pose->pose.pose.orientation.x = msg->transform.rotation.x;
  pose->pose.pose.orientation.y = msg->transform.rotation.y;
  pose->pose.pose.orientation.z = msg->transform.rotation.z;
''','''  pose->pose.pose.orientation = msg->transform.rotation;
'''),
 (MG,'''    state.GetQBlock<StateDefinition_T::L>() = (dt * n_L.cwiseProduct(n_L))
        .asDiagonal();
    state.GetQBlock<StateDefinition_T::q_wv>() =
        (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
''','''    const auto q_diag = [dt](double density) -> Eigen::Matrix<double, 3, 3> {
      return Eigen::Matrix<double, 3, 3>::Identity() * (density * density * dt);
    };
    state.GetQBlock<StateDefinition_T::L>()(0, 0) = n_L(0) * n_L(0) * dt;
    state.GetQBlock<StateDefinition_T::q_wv>() = q_diag(nqwvv(0));
'''),
 (MG,'''    const EKFState_T& state = delaystate;
    if (state.Get<StateDefinition_T::L>()(0) < 0) {''','''    const EKFState_T& state = delaystate;
    const double current_scale = state.Get<StateDefinition_T::L>()(0);
    if (!(current_scale < 0)) {
      return;
    }
    {'''),
 (MG,'''    if (!pose_handler_->ReceivedFirstMeasurement()) {  // If there is no pose measurement, only apply q_wv.
      q = q_wv;
    } else {  // If there is a pose measurement, apply q_ic and q_wv to get initial attitude.
      q = (q_ic * q_cv.conjugate() * q_wv).conjugate();
    }
''','''    if (pose_handler_->ReceivedFirstMeasurement()) {
      q = q_wv.conjugate() * q_cv * q_ic.conjugate();
    } else {
      q = q_wv;
    }
'''),
 (MG,'''    p = p_wv + q_wv.conjugate().toRotationMatrix() * p_vc / scale
        - q.toRotationMatrix() * p_ic;

    a_m = q.inverse() * g;''','''    const double inv_scale = 1.0 / scale;
    p = q_wv.conjugate() * (p_vc * inv_scale);
    p += p_wv;
    p -= q * p_ic;

    a_m = q.conjugate() * g;'''),
])
R["position"]=(["P12","P14"],[
 (OM,'''    H.block<3, 3>(0, idxstartcorr_q_) = -C_q.transpose() * p_prism_imu_sk;  // q

    H.block<3, 3>(0, idxstartcorr_p_pi_) =
        fixed_p_pos_imu ?
            Eigen::Matrix<double, 3, 3>::Zero() : (C_q.transpose()).eval();  //p_pos_imu_
''','''    if (!fixed_p_pos_imu) {
      H.middleCols<3>(idxstartcorr_p_pi_) = C_q.transpose();
    }
    H.middleCols<3>(idxstartcorr_q_) = -(C_q.transpose() * p_prism_imu_sk);
'''),
 (OM,'''      r_old.block<3, 1>(0, 0) = z_p_
          - (state.Get<StateDefinition_T::p>()
              + C_q.transpose() * state.Get<StateDefinition_T::p_ip>());
''','''      r_old = z_p_ - state.Get<StateDefinition_T::p>()
          - state.Get<StateDefinition_T::q>() * state.Get<StateDefinition_T::p_ip>();
'''),
 (OH,'''  if (msg->position_covariance_type
      == sensor_msgs::NavSatFix::COVARIANCE_TYPE_KNOWN) {
    pointwCov->covariance = msg->position_covariance;
  } else if (msg->position_covariance_type
      == sensor_msgs::NavSatFix::COVARIANCE_TYPE_DIAGONAL_KNOWN) {
    pointwCov->covariance = msg->position_covariance;
  } else if (msg->position_covariance_type
      == sensor_msgs::NavSatFix::COVARIANCE_TYPE_APPROXIMATED) {  // From DOP.
    pointwCov->covariance = msg->position_covariance;
  }
''','''  switch (msg->position_covariance_type) {
    case sensor_msgs::NavSatFix::COVARIANCE_TYPE_KNOWN:
    case sensor_msgs::NavSatFix::COVARIANCE_TYPE_DIAGONAL_KNOWN:
    case sensor_msgs::NavSatFix::COVARIANCE_TYPE_APPROXIMATED:
      pointwCov->covariance = msg->position_covariance;
      break;
    default:
      break;
  }
'''),
 (OH,'''  if (mngr) {
    if (mngr->Getcfg().position_fixed_p_ip) {
      fixedstates |= 1 << msf_updates::EKFState::StateDefinition_T::p_ip;
    }
  }
''','''  if (mngr && mngr->Getcfg().position_fixed_p_ip) {
    fixedstates = 1 << msf_updates::EKFState::StateDefinition_T::p_ip;
  }
'''),
 (OH,'''  msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
                                                      msg->longitude,
                                                      msg->altitude);
  msf_core::Vector3 enu = gpsConversion_.ECEFToENU(ecef);
''','''  const msf_core::Vector3 enu = gpsConversion_.ECEFToENU(
      gpsConversion_.WGS84ToECEF(msg->latitude, msg->longitude, msg->altitude));
'''),
 (BH,'''  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
  heightbuff[heightbuffsize - 1] = meas->z_p_(0);
  double sum = 0;
  for (int k = 0; k < heightbuffsize; ++k)
    sum += heightbuff[k];
  z_average_p(0) = sum / heightbuffsize;
''','''  double sum = 0;
  for (int k = 0; k + 1 < heightbuffsize; ++k) {
    heightbuff[k] = heightbuff[k + 1];
    sum += heightbuff[k];
  }
  heightbuff[heightbuffsize - 1] = meas->z_p_(0);
  sum += heightbuff[heightbuffsize - 1];
  z_average_p(0) = sum / static_cast<double>(heightbuffsize);
'''),
])
R["spherical"]=(["P13","P14"],[
 (SM,'''      double radius_old = sqrt(
          z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
              + z_carth(2, 0) * z_carth(2, 0));
      double theta_old = acos(z_carth(2, 0) / radius_old);''','''      const double radius_old = z_carth.norm();
      double theta_old = std::acos(z_carth.z() / radius_old);'''),
 (SM,'''      if (r_old(1, 0) < -M_PI) {
        r_old(1, 0) += 2 * M_PI;
      }
      if (r_old(1, 0) > M_PI) {
        r_old(1, 0) -= 2 * M_PI;
      }
''','''      if (r_old(1) > M_PI) {
        r_old(1) = r_old(1) - 2 * M_PI;
      } else if (r_old(1) < -M_PI) {
        r_old(1) = r_old(1) + 2 * M_PI;
      }
'''),
 (SM,'''    dz_dp(0, 0) = p_(0, 0) * 1.0
        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
    dz_dp(0, 1) = p_(1, 0) * 1.0
        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
    dz_dp(0, 2) = p_(2, 0) * 1.0
        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
''','''    dz_dp = p_.transpose() / p_.norm();
'''),
 (SM,'''    Eigen::Matrix<double, 1, 3> dz_dp_ip;
    dz_dp_ip(0, 0) = (C_q(0, 0) * p_(0, 0) + C_q(1, 0) * p_(1, 0)
        + C_q(2, 0) * p_(2, 0)) * 1.0
        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
    dz_dp_ip(0, 1) = (C_q(0, 1) * p_(0, 0) + C_q(1, 1) * p_(1, 0)
        + C_q(2, 1) * p_(2, 0)) * 1.0
        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
    dz_dp_ip(0, 2) = (C_q(0, 2) * p_(0, 0) + C_q(1, 2) * p_(1, 0)
        + C_q(2, 2) * p_(2, 0)) * 1.0
        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
''','''    const Eigen::Matrix<double, 1, 3> dz_dp_ip = dz_dp * C_q;
    dz_dq = -dz_dp * C_q * Skew(p_ip);
'''),
])
R["publish"]=(["P16"],[
 (RS,'''        msgCorrect_.state[0] =
            state_const.template Get<StateDefinition_T::p>()[0]
                - hl_state_buf_.state[0];
        msgCorrect_.state[1] =
            state_const.template Get<StateDefinition_T::p>()[1]
                - hl_state_buf_.state[1];
        msgCorrect_.state[2] =
            state_const.template Get<StateDefinition_T::p>()[2]
                - hl_state_buf_.state[2];
        msgCorrect_.state[3] =
            state_const.template Get<StateDefinition_T::v>()[0]
                - hl_state_buf_.state[3];
        msgCorrect_.state[4] =
            state_const.template Get<StateDefinition_T::v>()[1]
                - hl_state_buf_.state[4];
        msgCorrect_.state[5] =
            state_const.template Get<StateDefinition_T::v>()[2]
                - hl_state_buf_.state[5];
''','''        const auto& p_state = state_const.template Get<StateDefinition_T::p>();
        const auto& v_state = state_const.template Get<StateDefinition_T::v>();
        for (int i = 0; i < 3; ++i) {
          msgCorrect_.state[i] = p_state[i] - hl_state_buf_.state[i];
          msgCorrect_.state[3 + i] = v_state[i] - hl_state_buf_.state[3 + i];
        }
'''),
 (RS,'''        for (int i = 0; i < HLI_EKF_STATE_SIZE; ++i) {
          msgCorrect_.state[i] = 0;
        }
''','''        std::fill(msgCorrect_.state.begin(), msgCorrect_.state.end(), 0);
'''),
 (RS,'''      state->ToPoseMsg(msgPose);
      pubPose_.publish(msgPose);


      nav_msgs::Odometry msgOdometry;
      msgOdometry.header.stamp = ros::Time(state->time);
      msgOdometry.header.seq = msg_seq++;
      msgOdometry.header.frame_id = msf_output_frame_;
''','''      state->ToPoseMsg(msgPose);

      nav_msgs::Odometry msgOdometry;
      msgOdometry.header = msgPose.header;
      msgOdometry.header.seq = msg_seq++;
      pubPose_.publish(msgPose);
'''),
 (SI,'''  const msf_core::Vector3 v_I = q_W_I.inverse().toRotationMatrix() * v_W;''','''  const msf_core::Vector3 v_I = q_W_I.conjugate() * v_W;'''),
 (SI,'''  eigen_conversions::Vector3dToPoint(w_m - Get<StateDefinition_T::b_w>(),
                                     odometry.twist.twist.angular);
''','''  const msf_core::Vector3 omega = w_m - Get<StateDefinition_T::b_w>();
  odometry.twist.twist.angular.x = omega.x();
  odometry.twist.twist.angular.y = omega.y();
  odometry.twist.twist.angular.z = omega.z();
'''),
])
R["state-inl"]=(["P16","P24","P11"],[
 (SI,'''  int idx = 0;
  for (int row = n_core; row < nErrorStatesAtCompileTime; ++row) {
    for (int col = n_core; col < nErrorStatesAtCompileTime; ++col) {
      cov.data[idx] = P(row, col);
      ++idx;
    }
  }
''','''  CopyBlockRowMajor(n_core, n_aux, n_core, n_aux, cov.data);
'''),
 (SI,'''/// Writes the covariance corresponding to velocity and attitude to cov.
''','''template<typename stateVector_T, typename StateDefinition_T>
template<typename Container>
void GenericState_T<stateVector_T, StateDefinition_T>::CopyBlockRowMajor(
    int row0, int rows, int col0, int cols, Container& out) const {
  for (int k = 0; k < rows * cols; ++k) {
    out[k] = P(row0 + k / cols, col0 + k % cols);
  }
}

/// Writes the covariance corresponding to velocity and attitude to cov.
'''),
 ("msf_core/include/msf_core/msf_state.h",'''  void GetAuxCovariance(sensor_fusion_comm::DoubleMatrixStamped& cov);''','''  void GetAuxCovariance(sensor_fusion_comm::DoubleMatrixStamped& cov);

  template<typename Container>
  void CopyBlockRowMajor(int row0, int rows, int col0, int cols,
                         Container& out) const;'''),
 (SI,'''  // Save covariance block.
  Eigen::Matrix<double, lengthInState, lengthInState> cov = P
      .template block<lengthInState, lengthInState>(startIdxInState,
                                                    startIdxInState);
  P.template block<lengthInState, nErrorStatesAtCompileTime>(startIdxInState, 0)
      .setZero();
  P.template block<nErrorStatesAtCompileTime, lengthInState>(0, startIdxInState)
      .setZero();
  // Write back cov block.
  P.template block<lengthInState, lengthInState>(startIdxInState,
                                                 startIdxInState) = cov;
''','''  const int end = startIdxInState + lengthInState;
  for (int other = 0; other < nErrorStatesAtCompileTime; ++other) {
    if (other >= startIdxInState && other < end) {
      continue;
    }
    for (int own = startIdxInState; own < end; ++own) {
      P(own, other) = 0;
      P(other, own) = 0;
    }
  }
'''),
 (SI,'''  Eigen::Matrix<double, 3, 6> J;
  J.block<3,3>(0,0) = R_W_I.transpose();
  J.block<3,3>(0,3) = Skew(v_I);

  // Transform noise covariance of velocity into the IMU frame.
  const msf_core::Matrix3 cov_velocity_I = J * cov_velocity_attitude_W * J.transpose();

  msf_core::Matrix3 cov_noise_gyr;
  cov_noise_gyr <<  noise_gyr[0] * noise_gyr[0], 0, 0,
                    0, noise_gyr[1] * noise_gyr[1], 0,
                    0, 0, noise_gyr[2] * noise_gyr[2];
''','''  Eigen::Matrix<double, 3, 6> J;
  J << R_W_I.transpose(), Skew(v_I);

  // Transform noise covariance of velocity into the IMU frame.
  const Eigen::Matrix<double, 3, 6> J_cov = J * cov_velocity_attitude_W;
  const msf_core::Matrix3 cov_velocity_I = J_cov * J.transpose();

  const msf_core::Matrix3 cov_noise_gyr = noise_gyr.cwiseProduct(noise_gyr)
      .asDiagonal();
'''),
])
