// A state definition of our own: quaternions first and in the middle, multiplicative vectors, other lengths.
#include <msf_core/msf_state.h>
#include <msf_core/msf_macros.h>
namespace vcdef {
enum StateDefinition { p, v, q, b_w, b_a, m1, q_a, m2, x5, q_b };
namespace { typedef boost::fusion::vector<
  msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, p, msf_core::CoreStateWithPropagation>,
  msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, v, msf_core::CoreStateWithPropagation>,
  msf_core::StateVar_T<Eigen::Quaternion<double>, q, msf_core::CoreStateWithPropagation>,
  msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, msf_core::CoreStateWithoutPropagation>,
  msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, msf_core::CoreStateWithoutPropagation>,
  msf_core::StateVar_T<Eigen::Matrix<double, 2, 1>, m1, msf_core::Auxiliary, msf_core::correctionMultiplicative>,
  msf_core::StateVar_T<Eigen::Quaternion<double>, q_a>,
  msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, m2, msf_core::Auxiliary, msf_core::correctionMultiplicative>,
  msf_core::StateVar_T<Eigen::Matrix<double, 5, 1>, x5>,
  msf_core::StateVar_T<Eigen::Quaternion<double>, q_b> > fullState_T; }
typedef msf_core::GenericState_T<fullState_T, StateDefinition> EKFState;
}
