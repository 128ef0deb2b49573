// Minimal stand-in for tesseract/collision/types.h: only what trajopt's own collision code touches.
#pragma once
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <Eigen/Eigen>
#include <tesseract/common/types.h>
#include <tesseract/common/collision_margin_data.h>
namespace tesseract::collision
{
enum class ContinuousCollisionType
{
  CCType_None,
  CCType_Time0,
  CCType_Time1,
  CCType_Between
};
struct ContactResult
{
  double distance{ 0 };
  std::array<std::string, 2> link_names;
  std::array<int, 2> shape_id{ -1, -1 };
  std::array<int, 2> subshape_id{ -1, -1 };
  std::array<Eigen::Vector3d, 2> nearest_points;
  std::array<Eigen::Vector3d, 2> nearest_points_local;
  std::array<Eigen::Isometry3d, 2> transform;
  Eigen::Vector3d normal{ Eigen::Vector3d::Zero() };
  std::array<double, 2> cc_time{ -1, -1 };
  std::array<ContinuousCollisionType, 2> cc_type{ ContinuousCollisionType::CCType_None, ContinuousCollisionType::CCType_None };
  std::array<Eigen::Isometry3d, 2> cc_transform;
};
using ContactResultVector = std::vector<ContactResult>;
/// The library keeps emptied vectors for reuse: clear() leaves the keys, empty() asks whether there is any contact.
class ContactResultMap
{
public:
  using KeyType = tesseract::common::LinkNamesPair;
  using ContainerType = std::map<KeyType, ContactResultVector>;
  using PairType = ContainerType::value_type;
  using FilterFn = std::function<void(PairType&)>;

  void add(const KeyType& k, ContactResult r) { m_[k].push_back(std::move(r)); }
  void clear()
  {
    for (auto& p : m_)
      p.second.clear();
  }
  long count() const
  {
    long n = 0;
    for (const auto& p : m_)
      n += static_cast<long>(p.second.size());
    return n;
  }
  bool empty() const { return count() == 0; }
  void filter(const FilterFn& f)
  {
    for (auto& p : m_)
      f(p);
  }
  ContainerType::const_iterator begin() const { return m_.begin(); }
  ContainerType::const_iterator end() const { return m_.end(); }
  /// takes the contacts of one piece of a motion over, with the times moved to the whole motion
  void addInterpolatedCollisionResults(ContactResultMap& sub, long idx, long last, const std::vector<std::string>& active,
                                       double dt, bool discrete, const FilterFn& filter)
  {
    if (hook)
      hook(idx, last, dt, discrete);
    for (auto& p : sub.m_)
    {
      for (auto& r : p.second)
        for (std::size_t j = 0; j < 2; ++j)
        {
          if (std::find(active.begin(), active.end(), r.link_names[j]) == active.end())
            continue;
          r.cc_time[j] = static_cast<double>(idx) * dt + (r.cc_time[j] < 0 ? 0.0 : r.cc_time[j] * dt);
          if (idx == 0 && (discrete || r.cc_type[j] == ContinuousCollisionType::CCType_Time0))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time0;
          else if (idx == last && (discrete || r.cc_type[j] == ContinuousCollisionType::CCType_Time1))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time1;
          else
            r.cc_type[j] = ContinuousCollisionType::CCType_Between;
          if (discrete)
            r.cc_transform = r.transform;
        }
      if (filter)
        filter(p);
      auto& v = m_[p.first];
      v.insert(v.end(), p.second.begin(), p.second.end());
    }
  }
  /// for the drivers: told of every piece that is taken over
  static inline std::function<void(long, long, double, bool)> hook;

private:
  ContainerType m_;
};
struct ContactRequest
{
  int mark{ 0 };
};
enum class CollisionEvaluatorType
{
  NONE,
  DISCRETE,
  LVS_DISCRETE,
  CONTINUOUS,
  LVS_CONTINUOUS
};
enum class CollisionCheckProgramType
{
  ALL
};
struct ContactManagerConfig
{
  ContactManagerConfig() = default;
  ContactManagerConfig(double m) : default_margin(m) {}
  double default_margin{ 0 };
  std::map<std::pair<std::string, std::string>, double> pairs;
  bool operator==(const ContactManagerConfig& o) const { return default_margin == o.default_margin && pairs == o.pairs; }
};
struct CollisionCheckConfig
{
  CollisionCheckConfig() = default;
  CollisionCheckConfig(ContactRequest r, CollisionEvaluatorType t, double l, CollisionCheckProgramType)
    : contact_request(r), type(t), longest_valid_segment_length(l)
  {
  }
  ContactRequest contact_request;
  CollisionEvaluatorType type{ CollisionEvaluatorType::DISCRETE };
  double longest_valid_segment_length{ 0.005 };
  bool operator==(const CollisionCheckConfig& o) const
  {
    return type == o.type && longest_valid_segment_length == o.longest_valid_segment_length;
  }
};
}  // namespace tesseract::collision
