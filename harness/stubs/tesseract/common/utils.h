// Minimal stand-in for tesseract/common/utils.h (tesseract is not installed here).
#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <Eigen/Eigen>
#include <tesseract/common/types.h>
namespace tesseract::common
{
inline bool almostEqualRelativeAndAbs(double a, double b, double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  const double diff = std::fabs(a - b);
  if (diff <= max_diff)
    return true;
  return diff <= std::max(std::fabs(a), std::fabs(b)) * max_rel_diff;
}
template <class M, class V>
bool isIdenticalMap(const M& a, const M& b, const std::function<bool(const V&, const V&)>& eq)
{
  if (a.size() != b.size())
    return false;
  for (const auto& e : a)
  {
    const auto it = b.find(e.first);
    if (it == b.end() || !eq(e.second, it->second))
      return false;
  }
  return true;
}
/// moves the reference point of a geometric Jacobian by a vector expressed in the base frame
inline void jacobianChangeRefPoint(Eigen::MatrixXd& jac, const Eigen::Vector3d& p)
{
  for (Eigen::Index i = 0; i < jac.cols(); ++i)
  {
    const Eigen::Vector3d w = jac.col(i).tail(3);
    jac.col(i).head(3) += w.cross(p);
  }
}
/// expresses a geometric Jacobian in another frame
inline void jacobianChangeBase(Eigen::MatrixXd& jac, const Eigen::Isometry3d& base)
{
  for (Eigen::Index i = 0; i < jac.cols(); ++i)
  {
    jac.col(i).head(3) = (base.linear() * jac.col(i).head(3)).eval();
    jac.col(i).tail(3) = (base.linear() * jac.col(i).tail(3)).eval();
  }
}
inline bool almostEqualRelativeAndAbs(const Eigen::VectorXd& a, const Eigen::VectorXd& b, double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!almostEqualRelativeAndAbs(a[i], b[i], max_diff, max_rel_diff))
      return false;
  return true;
}
/// the pose of t2 seen from t1: translation, then axis times angle
inline Eigen::VectorXd calcTransformError(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2)
{
  const Eigen::Isometry3d e = t1.inverse() * t2;
  const Eigen::AngleAxisd aa(e.linear());
  Eigen::VectorXd r(6);
  r << e.translation(), aa.axis() * aa.angle();
  return r;
}
/// what an error sticks out of its band
inline void applyTolerances(Eigen::VectorXd& e, const Eigen::VectorXd& lower, const Eigen::VectorXd& upper)
{
  for (Eigen::Index i = 0; i < e.size(); ++i)
    e[i] = e[i] < lower[i] ? e[i] - lower[i] : e[i] > upper[i] ? e[i] - upper[i] : 0;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target,
                                                      const Eigen::Isometry3d& target_perturbed,
                                                      const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed,
                                                      const Eigen::VectorXd& lower = {},
                                                      const Eigen::VectorXd& upper = {})
{
  Eigen::VectorXd e = calcTransformError(target, source), p = calcTransformError(target_perturbed, source_perturbed);
  if (lower.size() > 0)
  {
    applyTolerances(e, lower, upper);
    applyTolerances(p, lower, upper);
  }
  return p - e;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& source, const Eigen::Isometry3d& source_perturbed)
{
  return calcJacobianTransformErrorDiff(target, target, source, source_perturbed);
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target,
                                                      const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed,
                                                      const Eigen::VectorXd& lower,
                                                      const Eigen::VectorXd& upper)
{
  return calcJacobianTransformErrorDiff(target, target, source, source_perturbed, lower, upper);
}
}  // namespace tesseract::common
