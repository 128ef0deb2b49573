// Stand-in: an abstract kinematic group a driver implements.
#pragma once
#include <string>
#include <vector>
#include <Eigen/Eigen>
#include <tesseract/common/types.h>
namespace tesseract::kinematics
{
class JointGroup
{
public:
  virtual ~JointGroup() = default;
  virtual Eigen::MatrixXd calcJacobian(const Eigen::VectorXd& q, const std::string& link) const = 0;
  virtual bool isActiveLinkName(const std::string& link) const = 0;
  virtual std::vector<std::string> getActiveLinkNames() const { return {}; }
  virtual std::vector<std::string> getJointNames() const { return {}; }
  virtual Eigen::Index numJoints() const { return static_cast<Eigen::Index>(getJointNames().size()); }
  virtual bool hasLinkName(const std::string&) const { return false; }
  virtual std::string getBaseLinkName() const { return {}; }
  virtual Eigen::MatrixXd calcJacobian(const Eigen::VectorXd&, const std::string&, const Eigen::Vector3d&) const { return {}; }
  virtual Eigen::MatrixXd calcJacobian(const Eigen::VectorXd&, const std::string&, const std::string&) const { return {}; }
  virtual Eigen::MatrixXd calcJacobian(const Eigen::VectorXd&, const std::string&, const std::string&, const Eigen::Vector3d&) const { return {}; }
  tesseract::common::TransformMap calcFwdKin(const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    tesseract::common::TransformMap m;
    calcFwdKin(m, q);
    return m;
  }
  virtual void calcFwdKin(tesseract::common::TransformMap&, const Eigen::Ref<const Eigen::VectorXd>&) const {}
};
}  // namespace tesseract::kinematics
