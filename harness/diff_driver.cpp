// C19: numerical differentiation. diff_driver replay SCN SEED OUT | random SEED N OUT
#include "json_out.h"
#include <map>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <trajopt_ifopt/utils/numeric_differentiation.h>
#include <trajopt_sco/num_diff.hpp>
using namespace vd;
using namespace trajopt_ifopt;
static Out out;

/// an arbitrary integer function of the grid points, with a table of the points it was asked for
struct Table
{
  double h{ 1 };  // half step
  unsigned long key{ 0 };
  int rows{ 1 };
  bool affine{ false };
  std::map<std::vector<long>, std::vector<long>> seen;
  std::vector<long> pt(const Eigen::VectorXd& x) const
  {
    std::vector<long> p;
    for (long i = 0; i < x.size(); ++i)
    {
      const double z = x[i] / h;
      p.push_back(std::nearbyint(z) == z ? std::lround(z) : 1000000 + i);
    }
    return p;
  }
  long value(const std::vector<long>& p, int r) const
  {
    if (affine)
    {
      long s = static_cast<long>(key % 7) + r;
      for (std::size_t i = 0; i < p.size(); ++i)
        s += p[i] * (static_cast<long>((key >> (3 * i)) % 11) - 5 + r);
      return s;
    }
    unsigned long s = key * 1000003UL + static_cast<unsigned long>(r) * 7919UL;
    for (long v : p)
    {
      s ^= static_cast<unsigned long>(v + 4096);
      s *= 1099511628211UL;
      s ^= s >> 29;
    }
    return static_cast<long>(s % 4001UL) - 2000;
  }
  Eigen::VectorXd at(const Eigen::VectorXd& x, int r0, int n)
  {
    const auto p = pt(x);
    auto& row = seen[p];
    if (row.empty())
      for (int r = 0; r < rows; ++r)
        row.push_back(value(p, r));
    Eigen::VectorXd y(n);
    for (int r = 0; r < n; ++r)
      y[r] = static_cast<double>(row[static_cast<std::size_t>(r0 + r)]);
    return y;
  }
  std::string json() const
  {
    std::string s = "[";
    for (const auto& kv : seen)
    {
      s += s.size() > 1 ? ",[" : "[";
      for (int w = 0; w < 2; ++w)
      {
        const auto& v = w ? kv.second : kv.first;
        s += w ? ",[" : "[";
        for (std::size_t i = 0; i < v.size(); ++i)
          s += (i ? "," : "") + std::to_string(v[i]);
        s += "]";
      }
      s += "]";
    }
    return s + "]";
  }
};

struct Vars : public Variables
{
  Eigen::VectorXd v;
  explicit Vars(int n) : Variables("vars", n), v(Eigen::VectorXd::Zero(n)) {}
  void setVariables(const Eigen::VectorXd& x) override { v = x; }
  Eigen::VectorXd getValues() const override { return v; }
  std::vector<Bounds> getBounds() const override { return std::vector<Bounds>(static_cast<std::size_t>(rows_), NoBound); }
  std::size_t getHash() const override { return 0; }
};
struct Cost : public CostTerm
{
  Table* t;
  int row;
  Cost(Table* t, int row) : CostTerm("cost" + std::to_string(row)), t(t), row(row) { non_zeros_ = 0; }
  int update() override { return rows_; }
  double getCost() const override { return t->at(variables_->getValues(), row, 1)[0]; }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(1); }
  Jacobian getJacobian() const override { return Jacobian(1, variables_->getRows()); }
};
struct Cnt : public ConstraintSet
{
  Table* t;
  int row;
  bool cached;   // works on what update() saw, as the collision terms do
  bool bounded{ true };
  Eigen::VectorXd at;
  Cnt(Table* t, int row, int n, bool cached) : ConstraintSet("cnt" + std::to_string(row), n), t(t), row(row), cached(cached) { non_zeros_ = 0; }
  int update() override
  {
    at = variables_->getValues();
    return rows_;
  }
  Eigen::VectorXd getValues() const override { return t->at(cached ? at : variables_->getValues(), row, rows_); }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(rows_); }
  Jacobian getJacobian() const override { return Jacobian(rows_, variables_->getRows()); }
  std::vector<Bounds> getBounds() const override { return std::vector<Bounds>(bounded ? static_cast<std::size_t>(rows_) : 0UL, BoundZero); }
};

static Eigen::VectorXd grid(Rng& g, int n, double h)
{
  Eigen::VectorXd x(n);
  for (int i = 0; i < n; ++i)
    x[i] = g.in(-9, 9) * h;
  return x;
}
static void plain(Rng& g)
{
  const int n = g.in(1, 4), m = g.in(1, 4);
  const double eps = std::ldexp(1.0, -g.in(0, 10));
  Table t;
  t.h = eps / 2;
  t.key = g.g();
  t.rows = m;
  t.affine = g.chance(30);
  const Eigen::VectorXd x = grid(g, n, t.h);
  Eigen::VectorXd arg = x;
  auto vf = [&t, m](const Eigen::VectorXd& y) { return t.at(y, 0, m); };
  auto sf = [&t](const Eigen::VectorXd& y) { return t.at(y, 0, 1)[0]; };
  const int k = g.in(0, 6);
  Obj o;
  Eigen::VectorXd d;
  if (k == 0 || k == 1)
  {
    const auto s = sco::ScalarOfVector::construct(sf);
    d = k == 0 ? sco::calcForwardNumGrad(*s, arg, eps) : sco::forwardNumGrad(s, eps)->call(arg);
    o.str("e", "fgrad").dv("d", d, eps);
  }
  else if (k <= 4)
  {
    Eigen::MatrixXd j;
    const auto v = sco::VectorOfVector::construct(vf);
    if (k == 2)
      j = sco::calcForwardNumJac(*v, arg, eps);
    else if (k == 3)
      j = sco::forwardNumJac(v, eps)->call(arg);
    else
      j = Eigen::MatrixXd(trajopt_ifopt::calcForwardNumJac([&](const Eigen::Ref<const Eigen::VectorXd>& y) { return vf(y); }, arg, eps));
    o.str("e", "fjac").dm("d", j, eps);
  }
  else
  {
    const auto s = sco::ScalarOfVector::construct(sf);
    double y = 0.5;
    if (k == 5)
    {
      Eigen::VectorXd h = Eigen::VectorXd::Ones(2);
      sco::calcGradAndDiagHess(*s, arg, eps, y, d, h);
      o.str("e", "diag").dv("h", h, eps * eps / 4);
    }
    else
    {
      Eigen::MatrixXd h = Eigen::MatrixXd::Ones(1, 2);
      sco::calcGradHess(s, arg, eps, y, d, h);
      o.str("e", "full").dm("h", h, 2 * eps * eps);
    }
    o.dv("d", d, eps).d("y", y);
  }
  o.i("m", m).iv("x", t.pt(x)).iv("after", t.pt(arg)).raw("t", t.json());
  out(o);
}

struct Session
{
  Table ct, gt;
  double eps;
  int n, nc, ng;
  std::shared_ptr<Vars> v;
  std::unique_ptr<Problem> p;
  std::vector<std::shared_ptr<Cnt>> cs;
  std::shared_ptr<Cnt> solo;  // linked with the variables alone
  explicit Session(Rng& g, int n_) : n(n_)
  {
    eps = std::ldexp(1.0, -g.in(0, 8));
    nc = g.in(0, 3);
    ng = 0;
    v = std::make_shared<Vars>(n);
    p = std::make_unique<Problem>(v);
    for (Table* t : { &ct, &gt })
    {
      t->h = eps / 2;
      t->key = g.g();
      t->affine = g.chance(30);
    }
    ct.rows = nc;
    for (int i = 0; i < nc; ++i)
      p->addCostSet(std::make_shared<Cost>(&ct, i));
    for (int i = g.in(0, 2); i > 0; --i)
    {
      const int m = g.in(1, 2);
      cs.push_back(std::make_shared<Cnt>(&gt, ng, m, g.chance(50)));
      p->addConstraintSet(cs.back());
      ng += m;
    }
    gt.rows = std::max(ng, 3);
    solo = std::make_shared<Cnt>(&gt, 0, g.in(0, 3), g.chance(60));
    solo->bounded = !g.chance(15);
    solo->linkWithVariables(v);
    solo->update();
    set(v->v, "new");
  }
  void set(const Eigen::VectorXd& x, const char* e)
  {
    p->setVariables(x.data());
    out(Obj().str("e", e).iv("x", ct.pt(x)).iv("vars", ct.pt(v->v)));
  }
  void call(const std::string& op, const Eigen::VectorXd& point)
  {
    Eigen::VectorXd x = point;
    if (op == "set")
      return set(x, "set");
    Obj o;
    o.str("e", op);
    ct.seen.clear();
    gt.seen.clear();
    if (op == "pcost" || op == "pgrad")
    {
      if (op == "pgrad")
        x = v->v;
      const Eigen::VectorXd at = x;
      const Eigen::VectorXd d = op == "pcost" ? calcNumericalCostGradient(x.data(), *p, eps) : p->evaluateCostFunctionGradient(true, eps);
      o.iv("x", ct.pt(at)).dv("d", d, eps).i("m", nc).raw("t", ct.json());
    }
    else
    {
      if (op == "vcnt")
        x = v->v;
      const Eigen::VectorXd at = x;
      const Jacobian j = op == "pcnt" ? calcNumericalConstraintGradient(x.data(), *p, eps) : calcNumericalConstraintGradient(*v, *solo, eps);
      o.iv("x", ct.pt(at)).dm("d", Eigen::MatrixXd(j), eps).i("m", op == "pcnt" ? ng : solo->getRows()).raw("t", gt.json());
      o.b("bounded", solo->bounded).iv("at", ct.pt(solo->at));
    }
    o.iv("after", ct.pt(x)).iv("vars", ct.pt(v->v));
    out(o);
  }
};

int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    for (const auto& s : readScenarios(argv[2]))
    {
      Session ss(g, 2);
      for (const auto& o : s)
      {
        Eigen::VectorXd x(2);
        x << o["p"][0].asInt() * ss.eps / 2, o["p"][1].asInt() * ss.eps / 2;
        ss.call(o["op"].asString(), x);
      }
    }
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    const int n = std::atoi(argv[3]);
    out.open(argv[4]);
    static const char* ops[] = { "set", "pcost", "pgrad", "pcnt", "vcnt" };
    for (int k = 0; k < n; ++k)
    {
      Session s(g, g.in(1, 5));
      for (int i = g.in(1, 6); i > 0; --i)
        s.call(ops[g.in(0, 4)], grid(g, s.n, s.eps / 2));
      for (int i = 0; i < 5; ++i)
        plain(g);
    }
    return 0;
  }
  return 3;
}
