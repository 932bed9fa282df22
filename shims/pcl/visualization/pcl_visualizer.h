#ifndef SHIM_PCL_VIS
#define SHIM_PCL_VIS
// only names: the functions of point_cloud_tools.h that draw are never called
#include <pcl/point_cloud.h>
namespace boost { namespace this_thread { template <typename T> void sleep(const T &) {} }
namespace posix_time { struct microseconds { explicit microseconds(long) {} }; } }
namespace pcl { namespace visualization {
enum { PCL_VISUALIZER_POINT_SIZE };
template <typename P> struct PointCloudColorHandlerCustom {
  template <typename C> PointCloudColorHandlerCustom(const C &, double, double, double) {}
};
struct PCLVisualizer {
  explicit PCLVisualizer(const std::string &) {}
  void setBackgroundColor(double, double, double) {}
  template <typename P, typename C, typename H> void addPointCloud(const C &, const H &, const std::string &) {}
  void setPointCloudRenderingProperties(int, double, const std::string &) {}
  void addCoordinateSystem(double, const std::string &) {}
  bool wasStopped() const { return true; }
  void spinOnce(int) {}
  void close() {}
};
} }
#endif
