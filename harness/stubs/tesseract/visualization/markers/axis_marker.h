#pragma once
#include <tesseract/visualization/visualization.h>
namespace tesseract::visualization
{
struct AxisMarker : Marker
{
  explicit AxisMarker(const Eigen::Isometry3d&) {}
};
}  // namespace tesseract::visualization
