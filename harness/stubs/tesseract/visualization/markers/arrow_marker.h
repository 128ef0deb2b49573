#pragma once
#include <tesseract/visualization/visualization.h>
namespace tesseract::visualization
{
struct ArrowMarker : Marker
{
  explicit ArrowMarker(const Eigen::Vector3d&, const Eigen::Vector3d&) {}
};
}  // namespace tesseract::visualization
