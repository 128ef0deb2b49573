// User terms of the QP problems: integer quadratic rows, as in specs/QPModel.tla.
#pragma once
#include "json_out.h"
#include <trajopt_ifopt/core/constraint_set.h>

using namespace vd;
using namespace trajopt_ifopt;

static bool simple = false;  // only terms IfoptQPProblem knows

struct Row
{
  int c{ 0 };
  std::vector<int> a;
  std::vector<std::array<int, 3>> q;
  std::string b{ "eq" };
  int t{ 0 }, w{ 1 };
};
struct TermDef
{
  std::string name, kind;
  int dyn{ 0 };
  std::vector<Row> rows;
};

static std::string js(const std::vector<int>& v)
{
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static std::string js(const Row& r)
{
  std::string q = "[";
  for (std::size_t i = 0; i < r.q.size(); ++i)
    q += std::string(i ? "," : "") + "[" + std::to_string(r.q[i][0]) + "," + std::to_string(r.q[i][1]) + "," +
         std::to_string(r.q[i][2]) + "]";
  q += "]";
  return Obj().i("c", r.c).raw("a", js(r.a)).raw("q", q).str("b", r.b).i("t", r.t).i("w", r.w).done();
}
static std::string js(const TermDef& t)
{
  std::string rows = "[";
  for (std::size_t i = 0; i < t.rows.size(); ++i)
    rows += (i ? "," : "") + js(t.rows[i]);
  return Obj().str("name", t.name).str("kind", t.kind).i("dyn", t.dyn).raw("rows", rows + "]").done();
}

struct Vars : Variables
{
  Eigen::VectorXd x;
  std::vector<Bounds> b;
  Vars(Eigen::VectorXd x_, std::vector<Bounds> b_)
    : Variables("vars", static_cast<int>(x_.size())), x(std::move(x_)), b(std::move(b_))
  {
  }
  Eigen::VectorXd getValues() const override { return x; }
  std::vector<Bounds> getBounds() const override { return b; }
  void setVariables(const Eigen::VectorXd& v) override { x = v; }
  std::size_t getHash() const override
  {
    std::size_t h = 1469598103934665603ULL;
    for (Eigen::Index i = 0; i < x.size(); ++i)
      h = (h ^ static_cast<std::size_t>(static_cast<long>(x[i]) + 1000)) * 1099511628211ULL;
    return h;
  }
};

struct Set : ConstraintSet
{
  TermDef d;
  std::vector<std::size_t> shown;
  bool zeros;  // keep explicit zeros in the Jacobian
  static bool showRow(const TermDef& d, std::size_t k, const Eigen::VectorXd& x)
  {
    return d.dyn == 0 || (static_cast<long>(x.sum()) + 3 * static_cast<long>(k + 1) + 300) % d.dyn != 0;
  }
  Set(const TermDef& d_, bool zeros_) : ConstraintSet(d_.name, d_.dyn != 0), d(d_), zeros(zeros_)
  {
    rows_ = 0;
    non_zeros_ = 0;
    if (d.dyn == 0)
    {
      for (std::size_t k = 0; k < d.rows.size(); ++k)
        shown.push_back(k);
      rows_ = static_cast<int>(shown.size());
      non_zeros_ = rows_ * static_cast<Eigen::Index>(d.rows.empty() ? 0 : d.rows[0].a.size());
    }
  }
  int update() override
  {
    const Eigen::VectorXd x = variables_->getValues();
    shown.clear();
    for (std::size_t k = 0; k < d.rows.size(); ++k)
      if (showRow(d, k, x))
        shown.push_back(k);
    rows_ = static_cast<int>(shown.size());
    non_zeros_ = static_cast<Eigen::Index>(shown.size()) * x.size();
    return rows_;
  }
  Eigen::VectorXd getValues() const override
  {
    const Eigen::VectorXd x = variables_->getValues();
    Eigen::VectorXd v(static_cast<Eigen::Index>(shown.size()));
    for (std::size_t i = 0; i < shown.size(); ++i)
    {
      const Row& r = d.rows[shown[i]];
      double s = r.c;
      for (std::size_t j = 0; j < r.a.size(); ++j)
        s += r.a[j] * x[static_cast<Eigen::Index>(j)];
      for (const auto& q : r.q)
        s += q[2] * x[q[0] - 1] * x[q[1] - 1];
      v[static_cast<Eigen::Index>(i)] = s;
    }
    return v;
  }
  Eigen::VectorXd getCoefficients() const override
  {
    Eigen::VectorXd v(static_cast<Eigen::Index>(shown.size()));
    for (std::size_t i = 0; i < shown.size(); ++i)
      v[static_cast<Eigen::Index>(i)] = d.rows[shown[i]].w;
    return v;
  }
  std::vector<Bounds> getBounds() const override
  {
    std::vector<Bounds> v;
    for (const std::size_t k : shown)
      v.push_back(bound(d.rows[k]));
    return v;
  }
  static Bounds bound(const Row& r)
  {
    const double inf = std::numeric_limits<double>::infinity();
    if (r.b == "rg")
      return Bounds(r.t, r.t + 2);
    return r.b == "eq" ? Bounds(r.t, r.t) : r.b == "lo" ? Bounds(r.t, inf) : Bounds(-inf, r.t);
  }
  Jacobian getJacobian() const override
  {
    const Eigen::VectorXd x = variables_->getValues();
    std::vector<Eigen::Triplet<double>> t;
    for (std::size_t i = 0; i < shown.size(); ++i)
    {
      const Row& r = d.rows[shown[i]];
      Eigen::VectorXd g(x.size());
      for (Eigen::Index j = 0; j < x.size(); ++j)
        g[j] = r.a[static_cast<std::size_t>(j)];
      for (const auto& q : r.q)
      {
        g[q[0] - 1] += q[2] * x[q[1] - 1];
        g[q[1] - 1] += q[2] * x[q[0] - 1];
      }
      for (Eigen::Index j = 0; j < x.size(); ++j)
        if (zeros || g[j] != 0)
          t.emplace_back(static_cast<int>(i), static_cast<int>(j), g[j]);
    }
    Jacobian J(static_cast<Eigen::Index>(shown.size()), x.size());
    J.setFromTriplets(t.begin(), t.end());
    return J;
  }
};

static TermDef randomTerm(Rng& rng, int n, const std::string& name)
{
  static const char* kinds[] = { "sq", "abs", "hinge", "cnt", "cnt", "hinge" };
  TermDef t;
  t.name = name;
  t.kind = simple ? (rng.chance(45) ? "sq" : rng.chance(85) ? "cnt" : "abs") : kinds[rng.in(0, 5)];
  t.dyn = !simple && rng.chance(45) ? rng.in(1, 4) : 0;
  const int rows = rng.in(t.dyn == 0 ? 1 : 0, 3);
  const bool small = rng.chance(50);
  for (int k = 0; k < rows; ++k)
  {
    Row r;
    r.c = rng.in(-4, 4);
    for (int j = 0; j < n; ++j)
      r.a.push_back(rng.chance(40) ? 0 : rng.in(-3, 3));
    const int nq = rng.chance(50) ? 0 : rng.in(1, 2);
    for (int q = 0; q < nq; ++q)
      r.q.push_back({ rng.in(1, n), rng.in(1, n), rng.chance(50) ? 1 : -1 });
    static const char* bs[] = { "eq", "lo", "up" };
    r.b = t.kind == "hinge" ? bs[rng.in(1, 2)] : t.kind == "cnt" ? bs[rng.in(0, 2)] : "eq";
    r.t = rng.in(-3, 3);
    r.w = small ? 1 : rng.in(0, 5);
    t.rows.push_back(r);
  }
  return t;
}

static long rowValue(const Row& r, const std::vector<int>& x)
{
  long s = r.c;
  for (std::size_t j = 0; j < r.a.size(); ++j)
    s += r.a[j] * x[j];
  for (const auto& q : r.q)
    s += q[2] * x[static_cast<std::size_t>(q[0] - 1)] * x[static_cast<std::size_t>(q[1] - 1)];
  return s;
}
static long rowModel(const Row& r, const std::vector<int>& lin, const std::vector<int>& y)
{
  long s = rowValue(r, lin);
  for (std::size_t j = 0; j < lin.size(); ++j)
  {
    long g = r.a[j];
    for (const auto& q : r.q)
    {
      if (q[0] == static_cast<int>(j) + 1)
        g += q[2] * lin[static_cast<std::size_t>(q[1] - 1)];
      if (q[1] == static_cast<int>(j) + 1)
        g += q[2] * lin[static_cast<std::size_t>(q[0] - 1)];
    }
    s += g * (y[j] - lin[j]);
  }
  return s;
}
static long rowViolation(const Row& r, long v)
{
  return r.b == "eq" ? std::labs(v - r.t) : r.b == "lo" ? std::max(0L, r.t - v) : std::max(0L, v - r.t);
}
// value of a term at y, exact (lin == nullptr) or linearised at lin
static long termValue(const TermDef& t, const std::vector<int>* lin, const std::vector<int>& y)
{
  Eigen::VectorXd at(static_cast<Eigen::Index>(y.size()));
  for (std::size_t i = 0; i < y.size(); ++i)
    at[static_cast<Eigen::Index>(i)] = lin != nullptr ? (*lin)[i] : y[i];
  long s = 0;
  for (std::size_t k = 0; k < t.rows.size(); ++k)
  {
    if (!Set::showRow(t, k, at))
      continue;
    const long v = rowViolation(t.rows[k], lin != nullptr ? rowModel(t.rows[k], *lin, y) : rowValue(t.rows[k], y));
    s += t.kind == "cnt" ? v : t.rows[k].w * (t.kind == "sq" ? v * v : v);
  }
  return s;
}
