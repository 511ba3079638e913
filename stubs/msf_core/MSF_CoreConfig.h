#ifndef VC_CFG_MSF_Core
#define VC_CFG_MSF_Core
#include <dynamic_reconfigure/server.h>
namespace msf_core {
struct MSF_CoreConfig {
  bool core_fixed_bias;
  double core_noise_acc;
  double core_noise_accbias;
  double core_noise_gyr;
  double core_noise_gyrbias;
  MSF_CoreConfig() : core_fixed_bias(false), core_noise_acc(0), core_noise_accbias(0), core_noise_gyr(0), core_noise_gyrbias(0) {}
};
}
#endif
