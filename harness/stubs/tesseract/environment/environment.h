// Stand-in: the part of the environment's interface that trajopt's collision evaluators use; a driver implements it.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include <Eigen/Eigen>
#include <tesseract/common/types.h>
#include <tesseract/collision/discrete_contact_manager.h>
#include <tesseract/collision/continuous_contact_manager.h>
namespace tesseract::environment
{
class Environment
{
public:
  virtual ~Environment() = default;
  virtual void getLinkTransforms(tesseract::common::TransformMap& out, const std::vector<std::string>& joints,
                                 const Eigen::Ref<const Eigen::VectorXd>& q) const = 0;
  virtual std::vector<std::string> getActiveLinkNames() const = 0;
  virtual std::unique_ptr<tesseract::collision::DiscreteContactManager> getDiscreteContactManager() const = 0;
  virtual std::unique_ptr<tesseract::collision::ContinuousContactManager> getContinuousContactManager() const = 0;
};
}  // namespace tesseract::environment
