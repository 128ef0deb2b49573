// Minimal NDJSON writer/reader used by the drivers, and the exact projection of doubles to integers.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <random>
#include <string>
#include <vector>
#include <json/json.h>

namespace vd
{
// Sentinels: no value of a specification equals them (except INF, which stands for an infinite bound).
constexpr int INEXACT = 2000000001;  // not representable in the scale
constexpr int NANV = 2000000002;
constexpr int OVER = 2000000003;  // too big
constexpr int INF = 1000000000;   // +infinity (or anything >= 1e20), -INF for -infinity

/// exact projection: v * scale must be an integer (up to a relative rounding of tol)
inline int I(double v, double scale = 1.0, double tol = 0.0)
{
  if (std::isnan(v))
    return NANV;
  if (v >= 1e20)
    return INF;
  if (v <= -1e20)
    return -INF;
  const double s = v * scale;
  const double r = std::nearbyint(s);
  if (std::fabs(r) > 9e8)
    return OVER;
  if (std::fabs(s - r) > tol)
    return INEXACT;
  return static_cast<int>(r);
}

struct Obj
{
  std::string s{ "{" };
  bool first{ true };
  void key(const char* k)
  {
    if (!first)
      s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
  }
  Obj& i(const char* k, long v)
  {
    key(k);
    s += std::to_string(v);
    return *this;
  }
  Obj& b(const char* k, bool v)
  {
    key(k);
    s += v ? "true" : "false";
    return *this;
  }
  Obj& str(const char* k, const std::string& v)
  {
    key(k);
    s += Json::valueToQuotedString(v.c_str());
    return *this;
  }
  Obj& raw(const char* k, const std::string& v)
  {
    key(k);
    s += v;
    return *this;
  }
  template <class V>
  Obj& iv(const char* k, const V& v)
  {
    key(k);
    s += "[";
    for (long j = 0; j < static_cast<long>(v.size()); ++j)
    {
      if (j)
        s += ",";
      s += std::to_string(v[static_cast<typename std::decay<decltype(v.size())>::type>(j)]);
    }
    s += "]";
    return *this;
  }
  /// vector of doubles, projected
  template <class V>
  Obj& dv(const char* k, const V& v, double scale = 1.0, double tol = 0.0)
  {
    key(k);
    s += "[";
    for (long j = 0; j < static_cast<long>(v.size()); ++j)
    {
      if (j)
        s += ",";
      s += std::to_string(I(v[j], scale, tol));
    }
    s += "]";
    return *this;
  }
  /// dense matrix as sequence of rows
  template <class M>
  Obj& dm(const char* k, const M& m, double scale = 1.0, double tol = 0.0)
  {
    key(k);
    s += "[";
    for (long r = 0; r < static_cast<long>(m.rows()); ++r)
    {
      if (r)
        s += ",";
      s += "[";
      for (long c = 0; c < static_cast<long>(m.cols()); ++c)
      {
        if (c)
          s += ",";
        s += std::to_string(I(m(r, c), scale, tol));
      }
      s += "]";
    }
    s += "]";
    return *this;
  }
  Obj& d(const char* k, double v, double scale = 1.0, double tol = 0.0) { return i(k, I(v, scale, tol)); }
  std::string done() const { return s + "}"; }
};

struct Out
{
  std::FILE* f{ nullptr };
  void open(const char* path)
  {
    f = std::fopen(path, "w");
    if (f == nullptr)
    {
      std::perror(path);
      std::exit(3);
    }
  }
  void operator()(const Obj& o)
  {
    const std::string s = o.done() + "\n";
    std::fwrite(s.data(), 1, s.size(), f);
    std::fflush(f);
  }
};

inline std::vector<Json::Value> readScenarios(const char* path)
{
  std::ifstream in(path);
  if (!in)
  {
    std::cerr << "cannot read " << path << "\n";
    std::exit(3);
  }
  std::vector<Json::Value> out;
  std::string line;
  Json::CharReaderBuilder b;
  while (std::getline(in, line))
  {
    if (line.empty())
      continue;
    Json::Value v;
    std::string err;
    const std::unique_ptr<Json::CharReader> r(b.newCharReader());
    if (!r->parse(line.data(), line.data() + line.size(), &v, &err))
    {
      std::cerr << "bad scenario: " << err << "\n";
      std::exit(3);
    }
    out.push_back(v);
  }
  return out;
}

struct Rng
{
  std::mt19937_64 g;
  explicit Rng(unsigned long seed) : g(seed) {}
  int in(int lo, int hi) { return lo + static_cast<int>(g() % static_cast<unsigned long>(hi - lo + 1)); }
  bool chance(int percent) { return in(1, 100) <= percent; }
};
}  // namespace vd
