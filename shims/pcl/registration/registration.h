#ifndef SHIM_PCL_REGISTRATION
#define SHIM_PCL_REGISTRATION
#include <pcl/common/transforms.h>
#include <pcl/point_cloud.h>
#include <functional>
inline int omp_get_thread_num() { return 0; }
namespace pcl
{
// the members of pcl::Registration the package uses; align as in registration.hpp
template <typename S, typename T, typename Scalar = float>
class Registration
{
public:
  typedef PointCloud<S> PointCloudSource;
  typedef PointCloud<T> PointCloudTarget;
  typedef typename PointCloudSource::ConstPtr PointCloudSourceConstPtr;
  typedef typename PointCloudTarget::ConstPtr PointCloudTargetConstPtr;
  typedef Eigen::Matrix<Scalar, 4, 4> Matrix4;
  virtual ~Registration() {}
  virtual void setInputSource(const PointCloudSourceConstPtr &c) { input_ = c; source_cloud_updated_ = true; }
  virtual void setInputTarget(const PointCloudTargetConstPtr &c) { target_ = c; target_cloud_updated_ = true; }
  void setMaximumIterations(int n) { max_iterations_ = n; }
  void setTransformationEpsilon(double e) { transformation_epsilon_ = e; }
  Matrix4 getFinalTransformation() { return final_transformation_; }
  bool hasConverged() const { return converged_; }
  const std::string &getClassName() const { return reg_name_; }
  void align(PointCloudSource &output) { align(output, Matrix4::Identity()); }
  void align(PointCloudSource &output, const Matrix4 &guess)
  {
    if (!input_ || !target_) return;
    output = *input_;
    converged_ = false;
    final_transformation_ = transformation_ = previous_transformation_ = Matrix4::Identity();
    computeTransformation(output, guess);
  }

protected:
  std::string reg_name_;
  PointCloudSourceConstPtr input_;
  PointCloudTargetConstPtr target_;
  PointIndices::Ptr indices_;
  int nr_iterations_ = 0, max_iterations_ = 10;
  Matrix4 final_transformation_ = Matrix4::Identity(), transformation_ = Matrix4::Identity(),
          previous_transformation_ = Matrix4::Identity();
  double transformation_epsilon_ = 0, corr_dist_threshold_ = 0, inlier_threshold_ = 0;
  bool converged_ = false, target_cloud_updated_ = true, source_cloud_updated_ = true;
  std::function<void(const PointCloudSource &, const std::vector<int> &, const PointCloudTarget &, const std::vector<int> &)> update_visualizer_;
  virtual void computeTransformation(PointCloudSource &output, const Matrix4 &guess) = 0;
};
}
#endif
