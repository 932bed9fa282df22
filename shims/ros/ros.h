#ifndef SHIM_ROS
#define SHIM_ROS
#define ROS_DEBUG_STREAM(x) do {} while (0)
#define ROS_INFO_STREAM(x) do {} while (0)
#define ROS_WARN_STREAM(x) do {} while (0)
#define ROS_ERROR_STREAM(x) do {} while (0)
#define ROS_ERROR(...) do {} while (0)
namespace ros
{
struct Time {
  double t;
  explicit Time(double s = 0) : t(s) {}
  double toSec() const { return t; }
};
}
#endif
