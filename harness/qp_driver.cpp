// Drives TrajOptQPProblem (or, modes simple-*, IfoptQPProblem) through call sequences and logs what its user sees.
//   qp_driver replay SCENARIOS SEED OUT     call sequences from the specification, on their fixed problem and on random ones
//   qp_driver random SEED RUNS OUT          random problems and sequences
//   qp_driver simple-replay ..., simple-random ..., simple-one OUT    the same with IfoptQPProblem; one absolute cost
#include "terms.hpp"
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/types.h>

using namespace vd;
using namespace trajopt_ifopt;

constexpr double BS = 320;     // box units per unit
constexpr double TOL = 1e-6;   // rounding allowed when values are read as integers
static Out out;

struct Run
{
  int n;
  std::vector<int> x, lo, hi, box;
  std::shared_ptr<Vars> vars;
  std::unique_ptr<trajopt_sqp::QPProblem> p;
  std::vector<std::string> cnts;
  bool conv{ false };
  bool zeros{ false };
  Rng& rng;

  Run(int n_, std::vector<int> lo_, std::vector<int> hi_, std::vector<int> x_, Rng& r)
    : n(n_), x(std::move(x_)), lo(std::move(lo_)), hi(std::move(hi_)), rng(r)
  {
    Eigen::VectorXd v(n);
    std::vector<Bounds> b;
    const double inf = std::numeric_limits<double>::infinity();
    for (int i = 0; i < n; ++i)
    {
      const auto j = static_cast<std::size_t>(i);
      v[i] = x[j];
      b.emplace_back(lo[j] == -INF ? -inf : lo[j] / BS, hi[j] == INF ? inf : hi[j] / BS);
    }
    vars = std::make_shared<Vars>(v, b);
    if (!simple)
      p = std::make_unique<trajopt_sqp::TrajOptQPProblem>(vars);
    else if (rng.chance(50))
      p = std::make_unique<trajopt_sqp::IfoptQPProblem>(vars);
    else
      p = std::make_unique<trajopt_sqp::IfoptQPProblem>(std::make_shared<trajopt_ifopt::Problem>(vars));
    zeros = rng.chance(40);
    out(Obj().str("e", "new").i("n", n).iv("lo", lo).iv("hi", hi).iv("x", x));
  }
  void add(const TermDef& t)
  {
    auto s = std::make_shared<Set>(t, zeros);
    bool ok = true;
    try
    {
      if (t.kind == "cnt")
        p->addConstraintSet(s);
      else
        p->addCostSet(s, t.kind == "sq"  ? trajopt_sqp::CostPenaltyType::kSquared :
                         t.kind == "abs" ? trajopt_sqp::CostPenaltyType::kAbsolute :
                                           trajopt_sqp::CostPenaltyType::kHinge);
    }
    catch (const std::exception&)
    {
      ok = false;
    }
    out(Obj().str("e", "add").raw("t", js(t)).b("ok", ok));
    if (ok)
      conv = false;
  }
  bool setup()
  {
    if (simple)
    {
      bool ok = true;
      try
      {
        p->setup();
      }
      catch (const std::exception&)
      {
        ok = false;
      }
      conv = false;
      box.assign(static_cast<std::size_t>(n), 32);
      out(Obj().str("e", "setup").b("ok", ok));
      if (ok)
        look();
      return ok;
    }
    p->setup();
    conv = false;
    box.assign(static_cast<std::size_t>(n), 32);
    out(Obj().str("e", "setup"));
    look();
    return true;
  }
  void set(const std::vector<int>& v)
  {
    x = v;
    std::vector<double> d(v.begin(), v.end());
    p->setVariables(d.data());
    out(Obj().str("e", "set").iv("x", v));
    look();
  }
  void doConv()
  {
    p->convexify();
    conv = true;
    out(Obj().str("e", "conv"));
    qp();
    cvx();
  }
  void setBox(const std::vector<int>& b)
  {
    box = b;
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; ++i)
      v[i] = b[static_cast<std::size_t>(i)] / BS;
    p->setBoxSize(v);
    out(Obj().str("e", "box").iv("b", b));
    if (conv)
      qp();
    look();
  }
  void scale(int num, int den)
  {
    for (int& b : box)
    {
      if ((b * num) % den != 0 || b * num / den > 1000000)
        return;
    }
    for (int& b : box)
      b = b * num / den;
    double s = static_cast<double>(num) / den;
    p->scaleBoxSize(s);
    out(Obj().str("e", "scale").i("num", num).i("den", den));
    if (conv)
      qp();
    look();
  }
  std::string mu() const
  {
    const auto& names = p->getNLPConstraintNames();
    const Eigen::VectorXd m = p->getConstraintMeritCoeff();
    std::string s = "[";
    for (std::size_t i = 0; i < names.size() && i < static_cast<std::size_t>(m.size()); ++i)
      s += std::string(i ? "," : "") + "[\"" + names[i] + "\"," + std::to_string(I(m[static_cast<Eigen::Index>(i)], 1, TOL)) + "]";
    return s + "]";
  }
  void coef(bool fixed)
  {
    Eigen::VectorXd m(static_cast<Eigen::Index>(p->getNLPConstraintNames().size()));
    for (Eigen::Index i = 0; i < m.size(); ++i)
      m[i] = fixed ? (p->getNLPConstraintNames()[static_cast<std::size_t>(i)].substr(0, 1) == "c" ? 7 : 3) : rng.in(0, 30);
    const Eigen::VectorXd keep = m;
    p->setConstraintMeritCoeff(m);
    std::string s = "[";
    for (Eigen::Index i = 0; i < keep.size(); ++i)
      s += std::string(i ? "," : "") + "[\"" + p->getNLPConstraintNames()[static_cast<std::size_t>(i)] + "\"," +
           std::to_string(static_cast<int>(keep[i])) + "]";
    out(Obj().str("e", "coef").raw("mu", s + "]"));
    look();
    if (conv)
      qp();
  }
  static std::string names(const std::vector<std::string>& v)
  {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
      s += std::string(i ? "," : "") + "\"" + v[i] + "\"";
    return s + "]";
  }
  void look()
  {
    const Eigen::VectorXd c = p->getExactCosts();
    const Eigen::VectorXd v = p->getExactConstraintViolations();
    out(Obj()
            .str("e", "look")
            .raw("cn", names(p->getNLPCostNames()))
            .raw("vn", names(p->getNLPConstraintNames()))
            .dv("c", c, 1, TOL)
            .dv("v", v, 1, TOL)
            .d("tot", p->getTotalExactCost(), 1, TOL)
            .i("nc", p->getNumNLPCosts())
            .i("nv", p->getNumNLPConstraints())
            .i("n", p->getNumNLPVars())
            .dv("x", p->getVariableValues(), 1, TOL)
            .dv("box", p->getBoxSize(), BS, TOL)
            .raw("mu", mu()));
  }
  void cvx()
  {
    for (int k = 0; k < 3; ++k)
    {
      const auto nq = p->getNumQPVars();
      Eigen::VectorXd y(nq);
      std::vector<int> yi;
      for (Eigen::Index i = 0; i < nq; ++i)
      {
        int v = rng.in(0, 9);  // auxiliary variables: anything the QP solver may return
        if (i < n)
        {
          v = x[static_cast<std::size_t>(i)] + (k == 0 ? 0 : rng.in(-3, 3));
          yi.push_back(v);
        }
        y[i] = v;
      }
      out(Obj()
              .str("e", "cvx")
              .iv("y", yi)
              .raw("cn", names(p->getNLPCostNames()))
              .raw("vn", names(p->getNLPConstraintNames()))
              .dv("c", p->evaluateConvexCosts(y), 1, TOL)
              .dv("v", p->evaluateConvexConstraintViolations(y), 1, TOL)
              .d("tot", p->evaluateTotalConvexCost(y), 1, TOL));
    }
  }
  void qp()
  {
    const Eigen::MatrixXd H = p->getHessian();
    const Eigen::MatrixXd A = p->getConstraintMatrix();
    const Eigen::VectorXd& l = p->getBoundsLower();
    const Eigen::VectorXd& u = p->getBoundsUpper();
    const long nv = p->getNumQPVars(), nc = p->getNumQPConstraints(), ng = nc - nv;
    std::string sl = "[", su = "[";
    for (long i = 0; i < l.size(); ++i)
    {
      const double sc = i >= ng && i < ng + n ? BS : 1;
      sl += (i ? "," : "") + std::to_string(I(l[i], sc, TOL));
    }
    for (long i = 0; i < u.size(); ++i)
    {
      const double sc = i >= ng && i < ng + n ? BS : 1;
      su += (i ? "," : "") + std::to_string(I(u[i], sc, TOL));
    }
    std::string ys = "[";
    for (int k = 0; k < 2 * n + 4; ++k)
    {
      std::vector<int> y = x;
      if (k < 2 * n)
        y[static_cast<std::size_t>(k / 2)] += k % 2 ? 1 : -1;
      else
        for (int& v : y)
          v = v + rng.in(-3, 3);
      ys += (k ? "," : "") + js(y);
    }
    out(Obj().str("e", "qp").i("nv", nv).i("nc", nc).dm("H", H, 1, TOL).dv("g", p->getGradient(), 1, TOL).dm("A", A, 1, TOL)
            .raw("l", sl + "]").raw("u", su + "]").raw("ys", ys + "]"));
  }
};

static std::vector<int> randomX(Rng& rng, int n)
{
  std::vector<int> v;
  for (int i = 0; i < n; ++i)
    v.push_back(rng.in(-4, 4));
  return v;
}
static TermDef fixedTerm(int k)
{
  const std::vector<std::array<int, 3>> q{ { 1, 2, 1 } };
  if (simple)
  {
    if (k == 0)
      return { "d", "cnt", 0, { { 1, { 1, 0 }, q, "lo", 2, 1 }, { 0, { 1, 2 }, {}, "eq", 1, 3 } } };
    if (k == 1)
      return { "s", "sq", 0, { { 1, { 1, 1 }, q, "eq", 1, 2 } } };
    if (k == 2)
      return { "h", "sq", 0, { { 1, { 1, 1 }, q, "eq", 0, 3 }, { 1, { 0, -1 }, q, "eq", 1, 1 } } };
    return { "c", "cnt", 0, { { 1, { 2, -1 }, q, "up", 0, 2 } } };
  }
  if (k == 0)
    return { "d", "cnt", 2, { { 1, { 1, 0 }, q, "lo", 2, 1 } } };
  if (k == 1)
    return { "s", "sq", 0, { { 1, { 1, 1 }, q, "eq", 1, 2 } } };
  if (k == 2)
    return { "h", "hinge", 3, { { 1, { 1, 1 }, q, "up", 0, 3 }, { 1, { 0, -1 }, q, "lo", 1, 1 } } };
  return { "c", "cnt", 0, { { 1, { 2, -1 }, q, "eq", 0, 2 } } };
}
static std::unique_ptr<Run> randomRun(Rng& rng, int& terms)
{
  const int n = rng.in(1, 4);
  std::vector<int> lo, hi;
  for (int i = 0; i < n; ++i)
  {
    lo.push_back(rng.chance(40) ? -INF : rng.in(-5, 1) * 160);
    hi.push_back(rng.chance(40) ? INF : (lo.back() == -INF ? 0 : lo.back()) + rng.in(0, 6) * 160);
  }
  auto r = std::make_unique<Run>(n, lo, hi, randomX(rng, n), rng);
  const int k = rng.in(0, 6);
  terms = 0;
  for (int i = 0; i < k; ++i)
    r->add(randomTerm(rng, n, "t" + std::to_string(terms++)));
  return r;
}
static void op(Run& r, const std::string& name, int k, Rng& rng, bool fixed, int& terms)
{
  static const std::vector<std::vector<int>> xs{ { 0, 0 }, { 1, 0 }, { 2, -3 } };
  if (name == "setup")
    r.setup();
  else if (name == "set")
    r.set(fixed ? xs[static_cast<std::size_t>(k)] : randomX(rng, r.n));
  else if (name == "conv")
    r.doConv();
  else if (name == "box")
  {
    std::vector<int> b;
    for (int i = 0; i < r.n; ++i)
      b.push_back(fixed ? (k == 0 ? (i ? 320 : 640) : (i ? 3200 : 32)) : 16 * rng.in(1, 80));
    r.setBox(b);
  }
  else if (name == "scale")
  {
    if (fixed || rng.chance(50))
      r.scale(1, 2);
    else
      r.scale(rng.in(1, 3), 1);
  }
  else if (name == "coef")
    r.coef(fixed);
  else if (name == "add")
    r.add(fixed ? fixedTerm(3) : randomTerm(rng, r.n, "t" + std::to_string(terms++)));
}

int main(int argc, char** argv)
{
  if (argc != 5 && argc != 3)
    return 3;
  std::string mode = argv[1];
  if (mode.rfind("simple-", 0) == 0)
  {
    simple = true;
    mode = mode.substr(7);
  }
  out.open(argv[argc - 1]);
  if (mode == "one" && argc == 3)  // an absolute cost |x| at x = 3
  {
    Rng rng(1);
    Run r(1, { -INF }, { INF }, { 3 }, rng);
    r.add({ "p", "abs", 0, { { 0, { 1 }, {}, "eq", 0, 1 } } });
    r.setup();
    r.doConv();
    return 0;
  }
  if (argc != 5)
    return 3;
  if (mode == "replay")
  {
    Rng rng(std::stoul(argv[3]));
    for (const auto& scn : readScenarios(argv[2]))
    {
      for (int fixed = 1; fixed >= 0; --fixed)
      {
        int terms = 0;
        std::unique_ptr<Run> r;
        if (fixed)
        {
          r = std::make_unique<Run>(2, std::vector<int>{ -320, -INF }, std::vector<int>{ 480, 640 }, std::vector<int>{ 0, 0 }, rng);
          for (int k = 0; k < 3; ++k)
            r->add(fixedTerm(k));
        }
        else
          r = randomRun(rng, terms);
        for (const auto& o : scn)
          op(*r, o["op"].asString(), o["k"].asInt(), rng, fixed, terms);
      }
    }
  }
  else
  {
    Rng rng(std::stoul(argv[2]));
    const int runs = std::stoi(argv[3]);
    for (int k = 0; k < runs; ++k)
    {
      int terms = 0;
      auto r = randomRun(rng, terms);
      if (simple && rng.chance(30))
      {
        TermDef t = randomTerm(rng, r->n, "bad");
        if (rng.chance(40))
          t.dyn = rng.in(1, 3);
        else if (rng.chance(50))
        {
          t.kind = "hinge";
          for (auto& row : t.rows)
            row.b = "lo";
        }
        else if (rng.chance(50))
        {
          t.kind = "cnt";
          t.rows.back().b = "rg";
        }
        r->add(t);
      }
      if (!simple && rng.chance(20))  // a term the problem has to refuse
      {
        TermDef t = randomTerm(rng, r->n, "bad");
        t.dyn = 0;
        t.kind = rng.chance(50) ? "hinge" : rng.chance(50) ? "sq" : "abs";
        if (t.rows.empty())
          t.rows.push_back({ 0, std::vector<int>(static_cast<std::size_t>(r->n), 1), {}, "eq", 0, 1 });
        t.rows.back().b = t.kind == "hinge" ? "eq" : (rng.chance(50) ? "lo" : "up");
        r->add(t);
      }
      if (!r->setup())
        continue;
      const int len = rng.in(2, 9);
      static const char* ops[] = { "setup", "set", "set", "set", "conv", "conv", "conv", "box", "scale", "coef", "coef", "add" };
      for (int i = 0; i < len; ++i)
      {
        const std::string o = ops[rng.in(0, 11)];
        op(*r, o, 0, rng, false, terms);
        if (o == "add")
          r->setup();
        if (o == "set" && rng.chance(70))
          r->doConv();
      }
    }
  }
  return 0;
}
