#include <geometry_msgs/all.h>
