#pragma once
#include <string>
#include <Eigen/Eigen>
namespace tesseract::scene_graph
{
struct Material
{
  explicit Material(std::string) {}
  Eigen::Vector4d color;
};
}  // namespace tesseract::scene_graph
