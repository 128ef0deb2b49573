// Stand-in: a joint group with inverse kinematics a driver implements.
#pragma once
#include <tesseract/kinematics/joint_group.h>
namespace tesseract::kinematics
{
using IKSolutions = std::vector<Eigen::VectorXd>;
struct KinGroupIKInput
{
  KinGroupIKInput(const Eigen::Isometry3d& p, std::string frame, std::string link)
    : pose(p), working_frame(std::move(frame)), tip_link_name(std::move(link))
  {
  }
  Eigen::Isometry3d pose;
  std::string working_frame, tip_link_name;
};
using KinGroupIKInputs = std::vector<KinGroupIKInput>;
class KinematicGroup : public JointGroup
{
public:
  virtual IKSolutions calcInvKin(const KinGroupIKInputs& in, const Eigen::Ref<const Eigen::VectorXd>& seed) const = 0;
};
}  // namespace tesseract::kinematics
