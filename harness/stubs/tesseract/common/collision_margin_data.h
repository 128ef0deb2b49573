// Minimal stand-in: a default margin and margins of single pairs, looked up in either order.
#pragma once
#include <algorithm>
#include <map>
#include <string>
#include <utility>
namespace tesseract::common
{
class CollisionMarginData
{
public:
  explicit CollisionMarginData(double d = 0) : default_(d) {}
  void setDefaultCollisionMargin(double d) { default_ = d; }
  void setCollisionMargin(const std::string& a, const std::string& b, double m) { pairs_[std::minmax(a, b)] = m; }
  double getCollisionMargin(const std::string& a, const std::string& b) const
  {
    const auto it = pairs_.find(std::minmax(a, b));
    return it == pairs_.end() ? default_ : it->second;
  }
  double getMaxCollisionMargin() const
  {
    double m = default_;
    for (const auto& p : pairs_)
      m = std::max(m, p.second);
    return m;
  }
  void incrementMargins(double d)
  {
    default_ += d;
    for (auto& p : pairs_)
      p.second += d;
  }

private:
  double default_;
  std::map<std::pair<std::string, std::string>, double> pairs_;
};
}  // namespace tesseract::common
