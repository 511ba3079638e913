import json
L=[]
def P(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    L.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
INL="msf_core/include/msf_core/implementation/msf_core_inl.h"
SI="msf_core/include/msf_core/implementation/msf_state_inl.h"
MI="msf_core/include/msf_core/implementation/msf_measurement_inl.h"
NOT="The only tests that run here exercise the timing library; "
P("P01","IMU state prediction follows strap-down inertial mechanisation",
 "Between two consecutive IMU readings the predicted attitude is the unit-norm result of applying the fourth-order quaternion exponential of the mean bias-corrected rate plus the first-order coning term to the old attitude; velocity integrates the mean of the old and new rotated, bias-corrected accelerations minus gravity, and position integrates the mean velocity. Every state that is not propagated by the IMU (biases, scale, calibration states) is carried over unchanged, the source state is not modified, and a zero time step leaves the state as it was.",
 ["inputs","histories"],"all old states, all pairs of IMU readings, all biases and all (also zero or negative) time differences",
 NOT+"no test calls the propagation, and the claim is an identity over real-valued inputs.",
 [INL,"msf_core/include/msf_core/eigen_utils.h"],[("PropagateState",INL+":PropagateState"),("quaternion rate matrix","msf_core/include/msf_core/eigen_utils.h")],["predicted state in the state buffer"])
P("P02","Covariance prediction: P' = F P F^T + Q, symmetric, never back in time",
 "Predicting the covariance from one state to a later one gives F P F^T + Q, where F is the documented third-order closed-form error-state transition for position, velocity, attitude and biases (identity for all other states) and Q is the discretised core noise plus the auxiliary-state noise blocks. The result is symmetric whenever the old covariance and Q are, Q is the exact time integral of the process noise mapped through the transition where the closed form claims it, and no covariance or bookkeeping changes when the target is not later than the source.",
 ["inputs","histories","configurations"],"all states, IMU readings, noise parameters, positive and non-positive time steps, and prior covariances",
 NOT+"the 15x15 noise matrix alone has over a hundred closed-form entries that no finite sample establishes.",
 [INL,"msf_core/include/msf_core/implementation/calcQCore.h","msf_core/include/msf_core/msf_tmp.h"],[("PredictProcessCovariance",INL+":PredictProcessCovariance"),("CalcQCore","msf_core/include/msf_core/implementation/calcQCore.h"),("copy of auxiliary blocks","msf_core/include/msf_core/msf_tmp.h:CopyQBlocksFromAuxiliaryStatesToQ")])
P("P03","The measurement update is the Kalman update, with outliers rejected whole",
 "An accepted measurement replaces the covariance by the Joseph form (I-KH)P(I-KH)^T + KRK^T with K = P H^T (H P H^T + R)^-1 and corrects the state by K times the residual; the covariance stays exactly symmetric. When outlier rejection is enabled, a measurement whose Mahalanobis distance exceeds the threshold changes neither covariance nor state; otherwise it is never rejected, and fixed-size and run-time-size measurements behave the same.",
 ["inputs","configurations"],"all residuals, measurement matrices, noise and prior covariances, with outlier rejection on or off",
 NOT+"the update is never instantiated by a test and its correctness is a matrix identity.",
 [MI,"msf_core/include/msf_core/msf_measurement.h"],[("CalculateAndApplyCorrection (fixed size, dynamic size)",MI),("outlier gate",MI)])
P("P04","Correcting a state: additive parts, unit quaternions, disjoint slices",
 "Applying a correction vector adds to each vector-valued state exactly its own slice of the vector and post-multiplies each quaternion by the unit quaternion of its three-element slice, after which the quaternion has unit norm. Each slice belongs to exactly one state, the slices tile the whole correction vector, a zero correction changes nothing, and time, inputs and covariance are untouched.",
 ["inputs","configurations"],"all states and all correction vectors",
 NOT+"the claim ranges over every state and every correction.",
 [SI,"msf_core/include/msf_core/msf_tmp.h","msf_core/include/msf_core/eigen_utils.h"],[("Correct",SI+":Correct"),("CorrectState",  "msf_core/include/msf_core/msf_tmp.h"),("QuaternionFromSmallAngle","msf_core/include/msf_core/eigen_utils.h")])
P("P05","The time-ordered buffer answers every query as an ordered map would",
 "After any sequence of insertions, re-timings and clean-ups the buffer holds its elements in strictly increasing time order; an element inserted at an existing time leaves the stored one in place, and re-timing an element keeps every other one. Closest-before, closest-after, closest, exact-time, first and last queries return the element with the extreme or exact time for that query, or the documented invalid element when there is none; cleaning removes only elements older than the horizon measured from the newest one and never empties the buffer of newer data.",
 ["inputs","histories"],"all buffer contents and query times, including an empty buffer and queries before the first or after the last element",
 NOT+"no test includes the buffer, and its errors show only at particular relations between query time and stored times.",
 ["msf_core/include/msf_core/msf_sortedContainer.h"],[("SortedContainer","msf_core/include/msf_core/msf_sortedContainer.h")],None,[("stateList","time-ordered map from time stamp to element","msf_core/include/msf_core/msf_sortedContainer.h")])
P("P06","Delayed and out-of-order measurements give the time-ordered estimate",
 "A measurement newer than the newest state waits and is applied once the state estimate has caught up; one older than the oldest state is dropped without effect, as is one for which no state lies within a tenth of a second; any other is applied to the state at its own time (interpolated from the neighbours when none lies within one millisecond), then it and every later measurement are re-applied in time order and the states after them re-predicted. Afterwards the newest state and covariance equal those obtained had all these measurements arrived in time order.",
 ["histories","schedules","inputs"],"all arrival orders and delays of IMU readings and measurements relative to the buffered states",
 NOT+"the outcome depends on the order of arrival across the whole history.",
 [INL,"msf_core/include/msf_core/msf_sortedContainer.h"],[("AddMeasurement",INL+":AddMeasurement"),("GetClosestState",INL+":GetClosestState"),("HandlePendingMeasurements",INL+":HandlePendingMeasurements"),("PropPToState",INL+":PropPToState")])
P("P07","State correction respects fixed biases, user limits and fuzzy rollback",
 "A computed correction is applied to the delayed state with the bias parts suppressed exactly when biases are configured as fixed, and with the parts the user froze suppressed; the covariance of later states is then recomputed from that state on. Nothing is applied, and the caller is told so, before the filter is initialised and has predicted.",
 ["inputs","configurations","histories"],"all states, corrections and parameter settings",
 NOT+"no test applies a correction.",
 [INL,"msf_core/include/msf_core/msf_checkFuzzyTracking.h"],[("ApplyCorrection",INL+":ApplyCorrection"),("AugmentCorrectionVector","msf_updates/src/*_msf/*_sensormanager.h")])
P("P08","Jumping non-drifting states trigger an exact rollback",
 "When a state that should not drift temporally moves further from its running median than the configured threshold, the correction's effect on every state not propagated by the IMU is undone exactly and the update is reported as fuzzy; otherwise the corrected state is kept bit for bit and the running median absorbs the new value. Before the median window is filled, and after a reset, nothing is ever rolled back.",
 ["histories","inputs"],"all update histories of the non-drifting states and all thresholds",
 NOT+"the decision depends on a window of past updates.",
 ["msf_core/include/msf_core/msf_checkFuzzyTracking.h","msf_core/include/msf_core/msf_tools.h"],[("CheckFuzzyTracking::Check","msf_core/include/msf_core/msf_checkFuzzyTracking.h"),("GetMedian","msf_core/include/msf_core/msf_tools.h")])
P("P09","Initialisation: symmetric PSD prior and consistency with the first reading",
 "After initialisation the filter holds exactly one state: the values given by the user, the inputs and time of the initialisation, and a symmetric positive semi-definite covariance whose core block is the documented one unless the user supplied another; all earlier states, pending measurements and watchdog history are gone. Initialised from an unscaled pose or position reading, the filter predicts that same reading with zero residual.",
 ["inputs","histories","configurations"],"all prior histories, all first readings, scales and calibrations",
 NOT+"initialisation is never exercised.",
 [INL,MI,"msf_core/include/msf_core/msf_measurement.h","msf_updates/src/pose_msf/pose_sensormanager.h"],[("Init",INL+":Init"),("SetPCore",INL+":SetPCore"),("MSF_InitMeasurement::Apply",MI),("sensor manager Init","msf_updates/src/pose_msf/pose_sensormanager.h")])
P("P10","IMU inputs: gating, spike removal, time-gap and reordering handling",
 "No IMU or externally predicted state is processed before initialisation; an acceleration whose norm exceeds 50 is replaced by the last accepted reading (zero if there was none); before the first prediction a large time gap re-times the initial state instead of integrating over it, and afterwards a reading more than 10 ms before the last one resets the filter. Otherwise exactly one state at the message's time is added, holding the prediction (or the external prediction with all other states carried over), it is published, and measurements become acceptable once enough states exist. A state already stored at exactly that time stays.",
 ["inputs","histories"],"all IMU readings, time stamps and filter states",
 NOT+"the callbacks are never driven by a test.",
 [INL,"msf_core/include/msf_core/msf_IMUHandler_ROS.h"],[("ProcessIMU",INL+":ProcessIMU"),("ProcessExternallyPropagatedState",INL+":ProcessExternallyPropagatedState"),("IMU handler","msf_core/include/msf_core/msf_IMUHandler_ROS.h")])
P("P11","Pose measurement: zero residual at truth and exact first-order Jacobian",
 "For a pose measurement, absolute or relative, the residual is zero when the measured pose equals the one predicted from the state (or states) through scale, drift and calibration, and the measurement matrix is the derivative of that prediction with respect to the error state: if the truth is the state composed with a small error, the residual is the measurement matrix times that error to first order. The row reserved for the yaw constraint contributes nothing. States that are configured as fixed or that the sensor cannot observe have zero columns, and the measurement noise is the configured or received covariance.",
 ["inputs","configurations"],"all states, measurements and fixed-state configurations",
 NOT+"a Jacobian block that is right for common calibrations and wrong in general is invisible to samples.",
 ["msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h"],[("CalculateH","msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h"),("Apply","msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h")])
P("P12","Position and pressure: zero residual at truth and exact Jacobians",
 "For position and pressure-height measurements the residual vanishes when the reading equals the value predicted from the state including lever arm and height bias, and the measurement matrix is the exact first-order derivative of the prediction with respect to the error state. Fixed calibration states get zero columns and the noise is the configured or received covariance.",
 ["inputs","configurations"],"all states, readings, lever arms and fixed-state settings",
 NOT+"these updates are never instantiated.",
 ["msf_updates/include/msf_updates/position_sensor_handler/position_measurement.h","msf_updates/include/msf_updates/pressure_sensor_handler/pressure_measurement.h"],[("position Apply","msf_updates/include/msf_updates/position_sensor_handler/position_measurement.h"),("pressure Apply","msf_updates/include/msf_updates/pressure_sensor_handler/pressure_measurement.h")])
P("P13","Spherical (angle, distance) measurements: exact prediction and Jacobian",
 "For angle and distance measurements the residual vanishes when the reading equals the azimuth/elevation or range predicted for the antenna position (body position plus rotated lever arm), in every quadrant, and the measurement matrix is the exact derivative of that prediction with respect to the error state. A fixed lever arm gets zero columns.",
 ["inputs","configurations"],"all positions away from the singular axis, attitudes and lever arms",
 NOT+"these updates are never instantiated; sign and quadrant errors show only in parts of the domain.",
 ["msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h"],[("AngleMeasurement","msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h"),("DistanceMeasurement","msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h")])
P("P14","Sensor messages become measurements with the right value, time and noise",
 "Each accepted sensor message yields exactly one measurement whose time is the message time minus the configured delay, whose value is the message value under the documented frame conversion (including inversion of poses given the other way round), and whose noise is the message covariance or the configured one as selected. Messages are dropped when the configuration says so (throttling, minimum spacing, covariance selected but not provided), and only then; sensors do not influence each other's messages.",
 ["inputs","configurations","histories"],"all messages, delays and sensor configurations",
 NOT+"no handler is instantiated by a test.",
 ["msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp","msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp","msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp","msf_updates/include/msf_updates/spherical_position_sensor/implementation/spherical_sensorhandler.hpp"],[("ProcessPoseMeasurement and siblings","msf_updates/include/msf_updates/*/implementation"),("MakeFromSensorReadingImpl","msf_updates/include/msf_updates/*/*_measurement.h")])
P("P15","Relative updates use both states, their cross covariance and true transition",
 "A relative measurement is applied against the state at its own time and the state at the previous measurement of the same sensor, using the joint covariance built from both states' covariances and the accumulated state transition between them (later steps applied after earlier ones). The resulting covariance of the newer state is the corresponding symmetric block of the joint Kalman update, and looking up the previous measurement returns the latest earlier one of that sensor, or reports that there is none.",
 ["histories","inputs"],"all state histories between two measurements and all interleavings of sensors",
 NOT+"order-of-product and off-by-one-step errors need several states between the measurements.",
 [INL,MI],[("GetAccumulatedStateTransitionStochasticCloning",INL),("GetPreviousMeasurement",INL),("CalculateAndApplyCorrectionRelative",MI)])
P("P16","Published poses, odometry and covariances are the state's own, block by block",
 "Every published pose, velocity, odometry, transform, state and IMU-frame message carries exactly the corresponding values of the estimated state and of its covariance, with each covariance block in the place and order the message format prescribes and cross-covariances in transposed pairs. Messages carry the time of the state (the broadcast transform the time of sending), and out-of-order or invalid states are not published as new.",
 ["inputs","histories"],"all states, covariances and subscriber configurations",
 NOT+"no publishing code is instantiated.",
 ["msf_core/include/msf_core/msf_sensormanagerROS.h",SI],[("PublishStateAfterPropagation / AfterUpdate","msf_core/include/msf_core/msf_sensormanagerROS.h"),("GetPoseCovariance, GetTwistCovarianceInImuFrame, ToPoseMsg, ToOdometryMsg, ToFullStateMsg",SI)])
P("P17","Similarity transform recovers the exact transform from consistent pose pairs",
 "Given pairs of poses that are exactly related by one similarity transform, the estimator returns that rotation, translation and scale as the solution of its normal equations, together with their condition number; converting covariances between the message order and the filter order moves each block to its documented place, cross blocks in transposed pairs. Fewer than two pairs are refused without touching the result.",
 ["inputs"],"all sets of consistent pose pairs and all poses and covariances",
 "Its existing test needs a ROS build, does not run here, and samples a handful of random transforms.",
 ["msf_core/src/similaritytransform.cc","msf_core/include/msf_core/similaritytransform.h"],[("From6DoF","msf_core/src/similaritytransform.cc"),("accessors","msf_core/include/msf_core/similaritytransform.h")])
P("P18","GPS conversion: WGS84 to local frame is exact, orthogonal and zero at the origin",
 "The conversion of latitude, longitude and height to earth-centred coordinates follows the WGS84 ellipsoid formula in degrees, the local east-north-up coordinates are the rotation of the difference to the reference point by the orthogonal local frame at the reference, and the reference point itself maps to the origin (distances are preserved). The reference stays until set again; correcting its height lowers all local heights by the correction and changes nothing else.",
 ["inputs","histories"],"all latitudes, longitudes, heights and references",
 NOT+"the conversion has no test.",
 ["msf_core/src/lib/gps_conversion.cc","msf_core/include/msf_core/gps_conversion.h"],[("WGS84ToECEF","msf_core/src/lib/gps_conversion.cc"),("ECEFToENU","msf_core/src/lib/gps_conversion.cc")])
P("P19","Pose distortion adds the configured drift and noise, and nothing else",
 "The pose distorter with zero noise and zero drift returns its input; otherwise the position is offset by the accumulated drift, multiplied by the accumulated scale and given noise, and the attitude is multiplied by rotations of unit norm, each draw scaled by its configured standard deviation. Distortion accumulates over calls in call order and depends on nothing but the configuration, the random draws and the elapsed time.",
 ["inputs","histories"],"all poses, configurations, time steps and random draws",
 NOT+"the one distortion program prints values and asserts nothing.",
 ["msf_updates/src/msf_distort/PoseDistorter.cc","msf_updates/include/msf_updates/PoseDistorter.h"],[("PoseDistorter","msf_updates/src/msf_distort/PoseDistorter.cc")])
P("P20","Rotation helper matrices satisfy their defining algebraic identities",
 "For all vectors the skew matrix times a vector is the cross product, the quaternion rate matrices times a quaternion are the corresponding quaternion products, and the small-angle quaternion has unit norm, non-negative scalar part, the direction of the angle vector and first-order value of half of it, for small and for large angles. The numeric check accepts exactly those matrices all of whose entries are finite.",
 ["inputs"],"all real vectors, quaternions and matrices including non-finite entries",
 NOT+"identities over all reals, on both sides of a branch, are outside sampling.",
 ["msf_core/include/msf_core/eigen_utils.h"],[("Skew, OmegaMatJPL, OmegaMatHamilton, XiMat, QuaternionFromSmallAngle, CheckForNumeric","msf_core/include/msf_core/eigen_utils.h")])
P("P21","Median and time formatting are order- and input-faithful",
 "The median of a non-empty sample is the middle element in sorted order (upper middle for even counts), is independent of the order of the sample, and is undefined only for an empty one. Human-readable times render the given seconds since the epoch (shown modulo ten thousand seconds) with the sub-second part, deterministically.",
 ["inputs"],"all sample sizes and values, all time stamps",
 NOT+"neither helper has a test.",
 ["msf_core/include/msf_core/msf_tools.h","msf_core/src/lib/msf_tools.cc"],[("GetMedian","msf_core/include/msf_core/msf_tools.h"),("timehuman","msf_core/src/lib/msf_tools.cc")])
P("P22","False-colour palettes hold a valid colour of the chosen map at every index",
 "For each of the ten colour maps and every index in the byte range the palette entry the false-colour routine provides is the colour of the map it documents, a valid colour, computed without reading outside the map's tables. The palettes do not depend on the order in which they are requested.",
 ["inputs"],"all ten colour maps and all byte values",
 NOT+"the tables have no test.",
 ["msf_core/src/lib/falsecolor.cc","msf_core/include/msf_core/falsecolor.h"],[("falsecolor tables","msf_core/src/lib/falsecolor.cc")])
P("P23","Timing statistics are exact for every sequence of samples",
 "For every sequence of added samples a timer reports their exact count, total, mean, minimum and maximum, its rolling mean and variance cover exactly the most recent window of samples, and its rate is the reciprocal of that mean. Timers of the same name share one record, different names never do, a running timer adds exactly one sample when stopped or destroyed and a stopped or discarded one none, and formatting a duration represents the duration it is given.",
 ["histories","inputs"],"all sequences of samples, names and start/stop/discard calls",
 "The one existing test samples two short sequences, without checking minimum, maximum with negative values, windows, or formatting.",
 ["msf_timing/include/msf_timing/Timer.h","msf_timing/src/Timer.cc"],[("Accumulator","msf_timing/include/msf_timing/Timer.h"),("Timing registry","msf_timing/src/Timer.cc"),("SecondsToTimeString","msf_timing/src/Timer.cc")])
P("P24","State layout: indices tile the vectors and every access hits its own state",
 "For every state definition used, the start indices of the states in the full and in the error-state vector are the running sums of the preceding lengths (error states of quaternions count three), so that states tile both vectors without gap or overlap. Reading, setting, resetting, copying and noise assignment through the state interface affect exactly the named state, for every state in the list.",
 ["inputs","configurations"],"all states of all state definitions, and all values",
 "The static-list tests need ROS to build, do not run here and check selected indices of one list.",
 ["msf_core/include/msf_core/msf_tmp.h",SI,"msf_core/include/msf_core/msf_state.h"],[("index computation","msf_core/include/msf_core/msf_tmp.h"),("Get/Set/GetQBlock/ToEigenVector",SI)])
P("P25","Sensor managers: calibration noise, frozen states and sanity clamps",
 "Each sensor manager assigns process noise to its calibration states exactly as the square of the configured densities scaled by the time step and by nothing else, freezes exactly the calibration states configured as fixed, passes the configured measurement noises and delays to its sensors, and never leaves the scale negative after a correction. Parameters outside the message flow never change other states.",
 ["configurations","inputs"],"all parameter values, states, corrections and time steps",
 NOT+"no sensor manager is built by a test.",
 ["msf_updates/src/pose_msf/pose_sensormanager.h","msf_updates/src/position_msf/position_sensormanager.h","msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h","msf_updates/src/position_pose_msf/position_pose_sensormanager.h","msf_updates/src/spherical_msf/spherical_sensormanager.h"],[("CalculateQAuxiliaryStates, AugmentCorrectionVector, SanityCheckCorrection","msf_updates/src/*_msf/*_sensormanager.h")])
P("P26","Sensor callbacks, IMU callbacks and publishing do not race",
 "When sensor, IMU and parameter callbacks arrive from several threads, the filter behaves as if they had been processed one after the other.",
 ["schedules"],"all interleavings of callbacks",
 NOT+"no test drives several threads.",
 [INL],[("fixed sleep during initialisation",INL+":Init")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in L))
print(len(L))
