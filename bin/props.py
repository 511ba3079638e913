COMMON_ASSUMPTIONS = [
  "machine floating point is treated as exact real arithmetic (every `double` of the code under contract becomes the mathematical shadow scalar vc::Sym)",
  "a division is assumed to have a non-zero divisor and a square root a non-negative argument wherever the code does not test for it",
  "ROS message/parameter/service types are replaced by plain structs with the same fields (stubs/), logging text is dropped",
]
TRUSTED = [
  "engine/engine.cc (normal forms, path splitting, obligation generation), z3 4.8.12, gmp",
  "g++ 13.3 front end (the real source text is compiled with double -> vc::Sym, private -> public)",
]
PROPS = {
 "P20": dict(harness=["p20"],
   functions=["Skew", "OmegaMatJPL", "OmegaMatHamilton", "XiMat", "QuaternionFromSmallAngle", "CheckForNumeric (eigen_utils.h)"],
   note="Every identity is proved for all real arguments by exact polynomial normal forms / z3 on terms produced by running the real helper over a shadow scalar; floating-point rounding is not modelled."),
}
PROPS["P18"] = dict(harness=["p18"], functions=["GPSConversion::InitReference, WGS84ToECEF, ECEFToENU, WGS84ToENU, AdjustReference (gps_conversion.cc)"], note='All conversions proved equal to the WGS84/ENU reference formulas for all real angles (sin/cos uninterpreted with sin^2+cos^2=1); re-referencing histories by induction from an arbitrary object state; rounding not modelled.')
PROPS["P22"] = dict(harness=["p22"], functions=["GetPalette (falsecolor.cc)"], note="Complete enumeration of the ten palettes' 256 entries plus, for each map, one obligation per entry against independent reference tables/formulas.")
PROPS["P21"] = dict(harness=["p21"], functions=["GetMedian (msf_tools.h)", "timehuman (msf_tools.cc)"], note='Median proved for all values at sample sizes up to the stated bound (bounded, labelled) with nth_element replaced by its contract; time formatting proved for all finite times.')
PROPS["P19"] = dict(harness=["p19"], functions=["PoseDistorter constructor, Distort x3 (PoseDistorter.cc)"], note='Proved for all poses, configurations, time steps and random draws (draws are arbitrary reals), histories by induction on the accumulated drift.')
PROPS["P23"] = dict(harness=["p23"], functions=["Accumulator (Timer.h)", "Timer, Timing (Timer.cc)"], note='Accumulator proved by induction from an arbitrary representation state satisfying its invariant; formatting and registry proved on symbolic times with the clock replaced by an arbitrary monotone value.')
PROPS["P05"] = dict(harness=["p05"], functions=["SortedContainer: every public member (msf_sortedContainer.h)"],
 assumptions=["element times are positive (the invalid time is -1)"],
 trusted=["engine/absmap.h: the C++ standard's contract of std::map over arbitrary, lazily materialised content"],
 note="Each public operation proved for a buffer of any size and content (lazy abstract map = std::map's contract).")
PROPS["P01"] = dict(harness=["p01"], functions=["MSF_Core::PropagateState (msf_core_inl.h)", "OmegaMatJPL (eigen_utils.h)", "ResetState, CopyNonPropagationStates (msf_tmp.h)"],
 assumptions=["in three of the five cases a squared quaternion norm tested against zero is taken as positive; that it is, is proved by cases attitude and increment_nonzero"],
 note="Attitude, velocity, position, carried-over states and frame proved for all states, biases, readings and time steps; rounding not modelled.")
PROPS["P02"] = dict(harness=["p02"], functions=["MSF_Core::PredictProcessCovariance (msf_core_inl.h)", "CalcQCore (calcQCore.h)", "CopyQBlocksFromAuxiliaryStatesToQ (msf_tmp.h)"],
 note="Fd against the exponential series, P' = F P F^T + Q entry by entry, Qd against the time integral of the mapped noise up to dt^3, per noise source, and superposition; 63 entries of Qd are known findings identified by their exact deviation.")
PROPS["P03"] = dict(harness=["p03"], functions=["MSF_MeasurementBase::CalculateAndApplyCorrection (fixed and run-time size) (msf_measurement_inl.h)"],
 assumptions=["the innovation covariance is invertible (H P H' + R with R positive definite)"],
 trusted=["contract of Eigen's matrix inverse: a matrix X, symmetric when S is, standing for the inverse of S"],
 note="Gain, gate, correction, Joseph form entry by entry and exact symmetry (identical expressions for (i,j) and (j,i)) for all symmetric P, all H, r, R; measurement sizes 1, 2, 3, 6, 7 fixed and 1, 2, 3, 7 at run time, 28 error states.")
PROPS["P04"] = dict(harness=["p04_pose", "p04_position", "p04_pose_pressure", "p04_position_pose", "p04_spherical", "p04_custom"], functions=["GenericState_T::Correct (msf_state_inl.h)", "CorrectState, GetStartIndex (msf_tmp.h)", "QuaternionFromSmallAngle (eigen_utils.h)"],
 note="Proved for every state and every correction vector, for each of the five state definitions of the repository and one of our own with multiplicative and odd-sized states; all components simultaneously, every combination of small-angle branches.")
PROPS["P07"] = dict(harness=["p07"], functions=["MSF_Core::ApplyCorrection, PropPToState (msf_core_inl.h)"],
 trusted=["contract of std::nth_element"], bounded="later_covariances: buffers of five states",
 note="ApplyCorrection for arbitrary states, corrections and user hooks (the hooks return arbitrary values); re-prediction of later covariances bounded to five states.")
PROPS["P08"] = dict(harness=["p08"], functions=["CheckFuzzyTracking::Check, Reset (msf_checkFuzzyTracking.h)", "MSF_Core::ApplyCorrection (msf_core_inl.h)", "GetMedian (msf_tools.h)", "MSF_MeasurementBase::CalculateAndApplyCorrection (threshold)"],
 trusted=["contract of std::nth_element: the k-th smallest, a function of the multiset"],
 note="A full window of any content at every ring position, any state, any threshold; the filling phase; reset at three stages; the tracker is driven through its public interface only.")
PROPS["P10"] = dict(harness=["p10", "p10_ros"], functions=["MSF_Core::ProcessIMU, ProcessExternallyPropagatedState, PropagatePOneStep (msf_core_inl.h)", "IMUHandler_ROS::IMUCallback, StateCallback (msf_IMUHandler_ROS.h)", "IMUHandler::ProcessIMU, ProcessState (msf_IMUHandler.h)"],
 assumptions=["the last IMU state and the state up to which the covariance was propagated are elements of the buffer; until the first prediction there are at most three states", "external state messages carry at least ten numbers", "squared norms tested against zero are positive (P01)"],
 trusted=["engine/absmap.h: the C++ standard's contract of std::map over arbitrary, lazily materialised content (a size above four is reported as one million)"],
 note="Prediction and covariance step are compared with the contracts of P01 and P02 (the same functions run on copies); buffers of any size and content after the first prediction; spikes for every sequence of three readings.")
PROPS["P15"] = dict(harness=["p15", "p15_joint", "p11_pose"], cases=[r"accumulated_.*", r"previous_measurement", r"joint_.*", r"pose\.relative.*"],
 functions=["MSF_Core::GetAccumulatedStateTransitionStochasticCloning, GetPreviousMeasurement (msf_core_inl.h)", "MSF_MeasurementBase::CalculateAndApplyCorrectionRelative (msf_measurement_inl.h)", "PoseMeasurement::Apply, relative branch (pose_measurement.h)"],
 trusted=["contract of Eigen's matrix inverse", "engine/absmap.h: the C++ standard's contract of std::map"],
 bounded="accumulated transition over at most 2 dense or 6 sparse steps; previous-measurement lookup among at most 4 measurements; the joint update has no bound (sizes 1, 3, 7, arbitrary transition)",
 note="Joint update: both states' covariances, arbitrary transition and measurement matrices; the relative branch of the pose measurement is checked to use the state at its own time and the state of the previous measurement of the same sensor.")
PROPS["P11"] = dict(harness=["p11_pose", "p11_pose_pressure", "p11_position_pose"],
 functions=["PoseMeasurement::CalculateH, Apply, MakeFromSensorReadingImpl (pose_measurement.h)", "GetStartIndexInCorrection, GetQuatStates and state accessors used by them (msf_tmp.h, msf_state_inl.h)"],
 assumptions=["squared norms tested against zero are positive", "the attitude residual is compared to first order in the error"],
 trusted=["contracts substituted at call sites: MSF_MeasurementBase::CalculateAndApplyCorrection(Relative) (P03, P15), GetClosestState, GetPreviousMeasurement (P15), PoseDistorter (P19)"],
 note="Residual against an independent prediction, zero at truth, and every entry of H against forward-mode derivatives of the prediction, for all states, calibrations and messages and all fixed-state combinations; pose, pose_pressure and position_pose definitions.")
PROPS["P12"] = dict(harness=["p12_position", "p12_position_pose", "p12_pressure"],
 functions=["PositionMeasurement::CalculateH, Apply, MakeFromSensorReadingImpl (position_measurement.h)", "PressureMeasurement::Apply, MakeFromSensorReadingImpl (pressure_measurement.h)", "MSF_Measurement::MakeFromSensorReading (msf_measurement.h)"],
 trusted=["contract substituted at call sites: MSF_MeasurementBase::CalculateAndApplyCorrection (P03)"],
 note="Residual, zero at truth, every entry of H against forward-mode derivatives, fixed lever arm, noise from configuration or message; position_msf, position_pose_msf and pose_pressure_msf definitions.")
PROPS["P13"] = dict(harness=["p13"],
 functions=["AngleMeasurement, DistanceMeasurement: CalculateH, Apply, MakeFromSensorReadingImpl (spherical_measurement.h)"],
 assumptions=["acos and atan are uninterpreted functions; atan2 is defined by quadrant from atan", "the antenna is off the vertical axis and away from the origin (divisors non-zero)"],
 trusted=["contract substituted at call sites: MSF_MeasurementBase::CalculateAndApplyCorrection (P03)"],
 note="Prediction, wrapped azimuth residual in every quadrant, every entry of H against the chain rule through the antenna position (derivative of the antenna proved by a lemma case).")
PROPS["P14"] = dict(harness=["p14_pose", "p14_position", "p14_position_pose", "p14_pressure", "p14_spherical"],
 functions=["PoseSensorHandler, PositionSensorHandler, PressureSensorHandler, AngleSensorHandler, DistanceSensorHandler: constructor, SetNoises, SetDelay, every MeasurementCallback, ProcessPoseMeasurement, ProcessPositionMeasurement, AdjustGPSZReference (*_sensorhandler.hpp)", "PoseMeasurement, PositionMeasurement, PressureMeasurement, AngleMeasurement, DistanceMeasurement: constructor, MakeFromSensorReadingImpl; MSF_Measurement::MakeFromSensorReading", "SensorHandler: SetSensorID, SequenceWatchDog (msf_sensormanager.h)"],
 assumptions=["message quaternions are unit and message covariances symmetric and positive definite", "sequence numbers are representatives of their residue class for throttling", "the determinant of the pose covariance (used for a warning) may be anything"],
 trusted=["contracts substituted at call sites: MSF_Core::AddMeasurement (P06), GPSConversion (P18), PoseDistorter (P19)", "ros stubs: subscriptions deliver the message to the subscribed callback; the parameter server returns the set value or the default"],
 bounded={"handlers": "histories of two sensors and up to three messages for the reference and the distortion case, twelve for the average; the single-message contracts start from an arbitrary handler state (pressure buffer, time of the previous pose)"},
 note="Every handler's callbacks executed for arbitrary messages, configurations and delays: number of measurements handed to the core, time, value, noise matrix, fixed states, gate and threshold, and what is kept for the initialisation; independence of two handlers of the same kind.")
PROPS["P25"] = dict(harness=["p25_pose_msf", "p25_pose_pressure", "p25_position_pose", "p25_position_msf", "p25_spherical"], cases=[r".*\.(process_noise|sanity_check|no_further_influence|reconfigure|fixed_.*|scale_service|height_service)"],
 functions=["PoseSensorManager, PosePressureSensorManager, PositionPoseSensorManager, PositionSensorManager, SensorManager (spherical): constructor, Config, CalculateQAuxiliaryStates, SanityCheckCorrection, AugmentCorrectionVector, SetStateCovariance, InitState, ResetState, Init; PoseSensorManager: InitScale, InitHeight (msf_updates/src/*_msf/*_sensormanager.h)", "the constructors and message callbacks of their sensor handlers", "MSF_SensorManagerROS constructor"],
 assumptions=["a pose reading exactly at the origin counts as no reading when initialising by height (the code's convention)"],
 trusted=["contracts substituted at call sites: MSF_Core::Init (P09), MSF_Core::AddMeasurement (P06), GPSConversion (P18), PoseDistorter (P19)", "ros and dynamic_reconfigure stubs"],
 note="Each manager's virtual functions executed for arbitrary configurations, states, corrections and time steps: every noise block, every state component and covariance entry compared with the contract; reconfiguration levels and check boxes enumerated; the fixed-states mask of the measurement each handler makes.")
PROPS["P09"] = dict(harness=["p09", "p25_pose_msf", "p25_pose_pressure", "p25_position_pose", "p25_position_msf", "p25_spherical"], cases=[r"(prior_covariance|after_any_past|user_covariance.*|some_values|watchdog|.*\.initialise|.*\.no_reading)"],
 functions=["MSF_Core: Init, SetPCore (msf_core_inl.h)", "MSF_InitMeasurement: constructor, SetStateInitValue, GetStateCovariance, Getw_m, Geta_m, Apply (msf_measurement_inl.h, msf_measurement.h)", "msf_tmp::CopyInitStates, ResetState (msf_tmp.h)", "SortedContainer::Clear, Insert; CheckFuzzyTracking::Reset, Check", "Init of the five sensor managers (msf_updates/src/*_msf/*_sensormanager.h) with the message callbacks that supply the first reading"],
 assumptions=["the initialisation time is positive (the code asserts it is not zero)", "a user-supplied covariance is one that is not identically zero (the code's convention)", "message quaternions are unit; q_ic parameters are a unit quaternion times one or two"],
 trusted=["contracts substituted at call sites: GPSConversion (P18), PoseDistorter (P19), Timing::Print", "ros stubs; the sleeps of Init are removed"],
 bounded={"pending measurements": "up to three waiting measurements before the initialisation"},
 note="Init of the core executed on a filter with arbitrary buffer contents (unbounded maps) for arbitrary given values, inputs and covariances; the prior is compared entry by entry with the documented block and factorised exactly to show it is positive semi-definite. Init of every manager executed for arbitrary readings, scales, lever arms and calibrations: the prediction of P11/P12/P13 from the initial state equals the reading.")
PROPS["P24"] = dict(harness=["p24_pose", "p24_pose_pressure", "p24_position", "p24_position_pose", "p24_spherical", "p24_custom"],
 functions=["msf_tmp: GetStateIndexInState, GetStateIndexInErrorState, GetStartIndexInCorrection, GetStartIndex, CountStates, GetEnumStateType, GetEnumStateName, IsQuaternionType, StripConstReference, IndexOfBestNonTemporalDriftingState (msf_tmp.h)", "msf_tmp: ResetState, CopyInitStates, CopyNonPropagationStates, CopyQBlocksFromAuxiliaryStatesToQ, CoreStatetoDoubleArray, FullStatetoDoubleArray", "GenericState_T: Get, Set, GetStateVariable, GetQBlock, Reset, ClearCrossCov, ToEigenVector, ToFullStateMsg, ToCoreStateMsg, CalculateIndicesInErrorState, CheckStateForNumeric (msf_state.h, msf_state_inl.h)", "MSF_InitMeasurement: SetStateInitValue, GetStateInitValue, ResetStateInitValue (msf_measurement.h)"],
 assumptions=["the layout is fixed per state definition: the five shipped definitions and one synthetic definition are compiled and checked, each for arbitrary contents"],
 trusted=["boost::fusion containers and for_each (executed as compiled)"],
 note="Offsets and lengths compared with a layout derived from value types and kinds alone; each accessor executed on a state of arbitrary contents with a frame condition over every other component, noise block, flag and covariance entry.")
PROPS["P16"] = dict(harness=["p16_pose", "p16_pose_pressure", "p16_position", "p16_position_pose", "p16_spherical", "p16_custom"],
 functions=["GenericState_T: ToPoseMsg, ToOdometryMsg, ToExtStateMsg, ToFullStateMsg, GetPoseCovariance, GetVelocityAttitudeCovariance, GetTwistCovarianceInImuFrame, GetCoreCovariance, GetAuxCovariance, GetCoreAuxCovariance, CheckStateForNumeric (msf_state_inl.h)", "MSF_SensorManagerROS: constructor, PublishStateInitial, PublishStateAfterPropagation, PublishStateAfterUpdate, SetHLControllerStateBuffer (msf_sensormanagerROS.h)", "eigen_conversions: Vector3dToPoint, QuaternionToMsg", "msf_tmp: FullStatetoDoubleArray, CoreStatetoDoubleArray"],
 assumptions=["the covariance is symmetric and the attitude unit (guaranteed by P02, P03, P04)", "the externally propagated attitude is not the zero quaternion", "the rounding of a double to the single precision of the correction message is one function of its argument"],
 trusted=["ros and tf stubs: a publisher delivers the message it is given; the broadcast transform carries the time of sending, as the code says"],
 note="Each message compared component by component and entry by entry, over arbitrary earlier message contents; the twist covariance against the derivative of the body velocity and of the bias-corrected rate; all subscriber configurations; which calls the core makes to these functions, and when, is P07 and P10.")
PROPS["P06"] = dict(harness=["p06", "p06_old", "p06_any"], functions=["MSF_Core::AddMeasurement, GetClosestState, HandlePendingMeasurements, PropPToState, PropagatePOneStep, ProcessIMU, CleanUpBuffers (msf_core_inl.h)", "SortedContainer (msf_sortedContainer.h)"],
 bounded="re-application of measurements: histories of up to 11 readings; two measurements at any times between the readings (symbolic), two to four at every combination of a grid of times and delivery slots, a gap in the readings, the clean-up of old states with 92 to 103 measurements. GetClosestState, PropPToState, HandlePendingMeasurements and the measurements that must not touch anything are checked without a bound (loop of PropPToState by its invariant)",
 assumptions=["a state is interpolated where a measurement, when delivered, finds none within one millisecond; measurements closer together than that share the state closest to them and count there in order of time; equal time stamps count in order of arrival", "a measurement for which no state lies within 0.1 s is ignored; one that belongs to the oldest state, to which a later one has already been applied, is dropped", "the covariance was propagated up to a state of the buffer"],
 trusted=["contracts substituted at call sites: PropagateState (P01), PredictProcessCovariance (P02), the update of a measurement (P03) and ApplyCorrection (P07) are arbitrary functions of the states, readings and times they may depend on", "engine/absmap.h: the C++ standard's contract of std::map"],
 note="The newest state, covariance and carried-over state are compared with an independent time-ordered run over the same readings and measurements.")
PROPS["P17"] = dict(harness=["p17"], functions=["From6DoF::AddMeasurement, Compute (similaritytransform.cc)", "GeometryMsgsToEigen, EigenToGeometryMsgs, GeometryMsgsCovBlockToEigen, EigenCovBlockToGeometryMsgs (similaritytransform.h)"],
 bounded="two, three and four pairs of poses; the conversions, and the refusal of fewer than two pairs, have no bound",
 assumptions=["orientations are unit quaternions and message covariances are symmetric", "singular values that the estimator does not drop are at least its eps"],
 trusted=["contracts of Eigen's SelfAdjointEigenSolver (the eigenvector of the largest eigenvalue of k c c^T is c or -c, last) and JacobiSVD (A = U diag(s) V^T, U and V orthogonal, s descending, U = V for a symmetric positive semidefinite A)"],
 note="The estimated translation and scale equal the true ones by an identity of the normal form in which the contract of the decomposition enters as terms that vanish; badly posed sets (singular values below eps) give the projection of the true solution.")
NOT_APPLICABLE = {
 "P26": "contracts on single-threaded C++ cannot express interleavings of ROS callback threads, and no deductive verifier with permissions exists for C++ here; the code relies on a fixed sleep",
}
