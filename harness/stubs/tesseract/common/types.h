// Minimal stand-in for tesseract/common/types.h (tesseract is not installed here).
#pragma once
#include <string>
#include <utility>
#include <map>
#include <set>
#include <unordered_map>
#include <Eigen/Geometry>
namespace tesseract::common
{
struct LinkNamesPair : std::pair<std::string, std::string>
{
  using std::pair<std::string, std::string>::pair;
};
using TransformMap = std::map<std::string, Eigen::Isometry3d>;
using TrajArray = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
inline void makeOrderedLinkPair(LinkNamesPair& p, const std::string& a, const std::string& b)
{
  if (a <= b)
  {
    p.first = a;
    p.second = b;
  }
  else
  {
    p.first = b;
    p.second = a;
  }
}
}  // namespace tesseract::common
template <>
struct std::hash<tesseract::common::LinkNamesPair>
{
  std::size_t operator()(const tesseract::common::LinkNamesPair& p) const
  {
    return std::hash<std::string>()(p.first + "|" + p.second);
  }
};
