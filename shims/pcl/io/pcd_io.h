#ifndef SHIM_PCL_PCD_IO
#define SHIM_PCL_PCD_IO
#include <pcl/point_cloud.h>
namespace pcl { namespace io {
template <typename P> int savePCDFile(const std::string &, const PointCloud<P> &) { return 0; }
} }
#endif
