U="msf_updates/include/msf_updates/"
PM=U+"pose_sensor_handler/pose_measurement.h"; PH=U+"pose_sensor_handler/implementation/pose_sensorhandler.hpp"
OM=U+"position_sensor_handler/position_measurement.h"; OH=U+"position_sensor_handler/implementation/position_sensorhandler.hpp"
SM=U+"spherical_position_sensor/spherical_measurement.h"; SH=U+"spherical_position_sensor/implementation/spherical_sensorhandler.hpp"
BM=U+"pressure_sensor_handler/pressure_measurement.h"; BH=U+"pressure_sensor_handler/implementation/pressure_sensorhandler.hpp"
MG="msf_updates/src/pose_msf/pose_sensormanager.h"; MPP="msf_updates/src/position_pose_msf/position_pose_sensormanager.h"; RS="msf_core/include/msf_core/msf_sensormanagerROS.h"
SI="msf_core/include/msf_core/implementation/msf_state_inl.h"; T="msf_core/include/msf_core/msf_tmp.h"
TLH="msf_core/include/msf_core/msf_tools.h"; TL="msf_core/src/lib/msf_tools.cc"; ST="msf_core/src/similaritytransform.cc"; STH="msf_core/include/msf_core/similaritytransform.h"
FC="msf_core/src/lib/falsecolor.cc"; SMG="msf_core/include/msf_core/msf_sensormanager.h"
R={}
R["p11-relfix"]=(["P11"],[(PM,"      CalculateH(state_nonconst_old, H_old);\n\n      H_old *= -1;\n\n      CalculateH(state_nonconst_new, H_new);","      CalculateH(state_nonconst_new, H_new);\n\n      H_old = -H_new;\n")])
R["p11-scale1"]=(["P11"],[(PM,"    Eigen::Matrix<double, 3, 3> skewold = Skew(vecold);","    Eigen::Matrix<double, 3, 3> skewold = Skew(vecold / state.Get<StateLIdx>()(0));")])
R["p11-qic-fix"]=(["P11"],[(PM,"        calibattfix ?\n            Eigen::Matrix<double, 3, 3>::Zero() :","        calibattfix && calibposfix ?\n            Eigen::Matrix<double, 3, 3>::Zero() :")])
R["p11-relprev-time"]=(["P11","P15"],[(PM,"core.GetClosestState(\n          prevmeas->time);","core.GetClosestState(\n          prevmeas->time - 1e-3);")])
R["p11-maskbit"]=(["P11"],[(PM,"    bool driftwvposfix = (fixedstates_ & 1 << StatePwvIdx);","    bool driftwvposfix = (fixedstates_ & 1 << StateQwvIdx);")])
R["p12-clear"]=(["P12"],[(OM,"    if (fixed_p_pos_imu)\n      state_in->ClearCrossCov<StateDefinition_T::p_ip>();\n","")])
R["p12-cov-half"]=(["P12","P14"],[(OM,"      R_.block<3, 3>(0, 0) = msf_core::Matrix3(&msg->covariance[0]);","      R_.block<3, 3>(0, 0) = msf_core::Matrix3(msf_core::Matrix3(&msg->covariance[0]).diagonal().asDiagonal());")])
R["p13-wrap"]=(["P13"],[(SM,"      if (r_old(1, 0) < -M_PI) {\n        r_old(1, 0) += 2 * M_PI;\n      }\n","")])
R["p13-azimuth-sign"]=(["P13"],[(SM,"atan2(z_carth(1, 0), z_carth(0, 0))","(z_carth(0, 0) == 0 ? M_PI / 2 : atan2(z_carth(1, 0), z_carth(0, 0)))")])
R["p14-throttle-keep"]=(["P14"],[(PH,"    return;\n  }\n  timestamp_previous_pose_ = time_now;","    timestamp_previous_pose_ = time_now;\n    return;\n  }\n  timestamp_previous_pose_ = time_now;")])
R["p14-delay-twice"]=(["P14"],[(PH,"  double time_now = msg->header.stamp.toSec();","  double time_now = msg->header.stamp.toSec() - delay_;")])
R["p14-odom-header"]=(["P14"],[(PH,"  pose->header = msg->header;\n  pose->pose = msg->pose;","  pose->header.stamp = msg->header.stamp;\n  pose->pose = msg->pose;\n  pose->pose.covariance[35] = msg->pose.covariance[28];")])
R["p14-gpsref"]=(["P14","P18"],[(OH,"    gps_reference_initialized_ = true;","    gps_reference_initialized_ = msg->altitude != 0;")])
R["p14-cov0"]=(["P14"],[(OH,"msg->covariance[0] == 0)","msg->covariance[0] <= 1e-3)")])
R["p14-inv-cov"]=(["P14"],[(PM,"C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;","C_cov * R_.block<6, 6>(0, 0) * C_cov.transpose();")])
R["p14-avg"]=(["P14"],[(BH,"  heightbuff[heightbuffsize - 1] = meas->z_p_(0);","  heightbuff[heightbuffsize - 2] = meas->z_p_(0);")])
R["p14-pressure-q"]=(["P14"],[(BH,"msg->header.seq % 10 != 0","msg->header.seq % 10 > 1")])
R["p16-hl-float"]=(["P16"],[(RS,"Eigen::Quaterniond qbuff_q = hl_q.inverse()\n            * state_const","Eigen::Quaterniond qbuff_q = hl_q.conjugate()\n            * state_const")])
R["p16-tf"]=(["P16"],[(RS,"tf::Quaternion(ori.x(), ori.y(), ori.z(), ori.w())","tf::Quaternion(ori.w(), ori.x(), ori.y(), ori.z())")])
R["p16-noise-idx"]=(["P16"],[(SI,"0, noise_gyr[1] * noise_gyr[1], 0,","0, noise_gyr[1] * noise_gyr[0], 0,")])
R["p16-coreaux"]=(["P16"],[(SI,"  cov.rows = n_core;\n  cov.cols = n_aux;","  cov.rows = n_aux;\n  cov.cols = n_core;")])
R["p17-cond"]=(["P17"],[(ST,"    if (svd.singularValues()[i] < eps)","    if (svd.singularValues()[i] < eps * svd.singularValues()[0])")])
R["p17-avg-sign"]=(["P17"],[(ST,"    M += q.coeffs() * q.coeffs().transpose();","    if (q.w() < 0) continue;\n    M += q.coeffs() * q.coeffs().transpose();")])
R["p17-offdiag"]=(["P17"],[(STH,"    _gcov.block<3, 3>(start_col, start_row) = ecov.transpose();","    _gcov.block<3, 3>(start_col, start_row) = ecov;")])
R["p17-cap"]=(["P17"],[(ST,"  const int m = measurements_.size();","  const int m = std::min<int>(measurements_.size(), 100);")])
R["p21-median"]=(["P21"],[(TLH,"std::nth_element(begin, middle, end);","std::nth_element(begin, middle, end - 1);")])
R["p21-timeneg"]=(["P21"],[(TL,"  return val - floor(val / 10000.) * 10000.;","  return fmod(val, 10000.);")])
R["p21-trunc"]=(["P21"],[(TL,"  return val - floor(val / 10000.) * 10000.;","  return val - static_cast<int>(val / 10000.) * 10000.;")])
R["p22-jetblue"]=(["P22"],[(FC,"if (b(i, 0) >= 0 && b(i, 0) < n)\n          cntblue++;","if (b(i, 0) > 0 && b(i, 0) < n)\n          cntblue++;")])
R["p22-clamp"]=(["P22"],[(FC,"(i / 255.0 * 360.0 - 120.0 > 0 ? i / 255.0 * 360.0 - 120.0 : 0)","(i / 255.0 * 360.0 - 120.0)")])
R["p24-clear-order"]=(["P24"],[(SI,"  P.setZero();\n  time = 0;","  time = 0;")])
R["p25-dt2"]=(["P25"],[(MG,"        (dt * npicv.cwiseProduct(npicv)).asDiagonal();","        (dt * npicv.cwiseProduct(nqicv)).asDiagonal();")])
R["p25-clamp"]=(["P25"],[(MPP,"    if (state.Get<StateDefinition_T::L>()(0) < 0) {","    if (buffstate.Get<StateDefinition_T::L>()(0) < 0) {")])
R["p25-delay"]=(["P25"],[(MPP,"    position_handler_->SetDelay(config.position_delay);","    position_handler_->SetDelay(config.pose_delay);")])
R["p25-cfg-late"]=(["P25"],[(MPP,"    config_ = config;\n","    if (level == 0)\n      config_ = config;\n")])
R["p09-pp-pwv"]=(["P09"],[(MPP,"    p_wv = p - p_vision;","    p_wv = p_pos - p_vision;")])
R["p09-pp-scale"]=(["P09"],[(MPP,"* p_vc / scale - q.toRotationMatrix() * p_ic;","* p_vc - q.toRotationMatrix() * p_ic;")])
