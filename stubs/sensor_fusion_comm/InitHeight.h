#include <sensor_fusion_comm/all.h>
