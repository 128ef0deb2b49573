#pragma once
#include <memory>
#include <tesseract/visualization/fwd.h>
#include <tesseract/scene_graph/link.h>
#include <Eigen/Geometry>
namespace tesseract::visualization
{
struct Marker
{
  std::shared_ptr<tesseract::scene_graph::Material> material;
  void setScale(const Eigen::Vector3d&) {}
};
class Visualization
{
public:
  virtual ~Visualization() = default;
  virtual void plotMarker(const Marker&, std::string = "") {}
};
}  // namespace tesseract::visualization
