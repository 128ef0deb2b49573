// Runs TrustRegionSQPSolver::solve against a scripted QP problem and a scripted QP solver and logs what they see.
#include "terms.hpp"
#include <chrono>
#include <console_bridge/console.h>
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/types.h>

using namespace vd;
using namespace trajopt_sqp;

// ---------------------------------------------------------------------------------------------------- virtual clock
static long g_clock = 0;  // seconds
namespace std::chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(seconds(1000 + g_clock))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(seconds(1000 + g_clock))); }
}  // namespace _V2
}  // namespace std::chrono

constexpr double M = 4;      // unit of costs, violations and tolerances: 1/4
constexpr double B = 65536;  // unit of box sizes
constexpr int VARS_SCALE = 1;

struct Point
{
  std::vector<int> c, v, ac, av;  // exact and convex costs and violations
};
struct Step
{
  bool ok{ true };
  bool stop{ false };
  int dt{ 0 };
  Point p;
};
struct Conv
{
  int slack{ 0 }, rows{ 0 }, refuse{ 0 };
};
struct Params
{
  int thr[2]{ 1, 4 }, shrink[2]{ 1, 2 }, expand[2]{ 2, 1 };
  std::vector<int> frac;
  int minbox{ 1 }, box0{ 1 }, minimp{ 0 }, maxit{ 10 }, tol{ 1 }, maxinc{ 3 }, maxfail{ 2 }, ratio{ 2 }, maxtime{ 100 }, coef0{ 1 };
  bool indiv{ true };
};
struct Runaway : std::runtime_error
{
  using std::runtime_error::runtime_error;
};

struct World  // what the environment of one solve() does
{
  Params P;
  int n{ 1 };
  int mode{ 0 };  // number of callbacks - 1
  std::vector<Point> points;  // by id
  std::vector<Step> steps;
  std::vector<Conv> convs;
  bool random{ false };
  bool blind{ false };  // the QP solver takes data of another size than it was initialised for without complaint
  Rng* rng{ nullptr };
  std::size_t qps{ 0 }, cvs{ 0 };
  int cur_refuse{ 0 };
  bool early{ false };
  int real{ 0 };  // 1: TrajOptQPProblem, 2: IfoptQPProblem
  const SQPResults* res{ nullptr };
};

static std::vector<double> toD(const std::vector<int>& v)
{
  std::vector<double> o;
  for (int i : v)
    o.push_back(i / M);
  return o;
}
static Eigen::VectorXd toE(const std::vector<int>& v)
{
  Eigen::VectorXd o(static_cast<Eigen::Index>(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i)
    o[static_cast<Eigen::Index>(i)] = v[i] / M;
  return o;
}

// ------------------------------------------------------------------------------------------------------- QP problem
class MockProblem : public QPProblem
{
public:
  World* w;
  Eigen::VectorXd x, box, coef;
  Eigen::VectorXd lin;       // point of the last convexification
  Eigen::VectorXd qpcoef;    // coefficients at the last convexification
  long cv{ 0 };
  long nv{ 0 }, nc{ 0 };
  trajopt_ifopt::Jacobian H, A;
  Eigen::VectorXd g, l, u;
  std::vector<std::string> cost_names, cnt_names;

  explicit MockProblem(World* world) : w(world)
  {
    x = Eigen::VectorXd::Zero(w->n);
    box = Eigen::VectorXd::Constant(w->n, 0.1);
    if (w->early)  // knows its dimensions before it is convexified for the first time
    {
      nv = w->n;
      nc = w->n;
    }
    coef = Eigen::VectorXd::Constant(static_cast<Eigen::Index>(w->points[0].v.size()), 10.0);
    for (std::size_t i = 0; i < w->points[0].c.size(); ++i)
      cost_names.push_back("cost" + std::to_string(i));
    for (std::size_t i = 0; i < w->points[0].v.size(); ++i)
      cnt_names.push_back("cnt" + std::to_string(i));
  }
  virtual Step randomStep(Rng& r);
  virtual Eigen::VectorXd solution(int id) { return Eigen::VectorXd::Constant(nv, static_cast<double>(id)); }
  virtual int idOf(const Eigen::Ref<const Eigen::VectorXd>& v) const
  {
    const int id = I(v[0]);
    for (long i = 0; i < w->n; ++i)
      if (v[i] != v[0])
        return -1;
    return (id >= 0 && id < static_cast<int>(w->points.size())) ? id : -1;
  }
  const Point& at(const Eigen::Ref<const Eigen::VectorXd>& v) const
  {
    const int id = idOf(v);
    if (id < 0)
      throw Runaway("evaluated at an unknown point");
    return w->points[static_cast<std::size_t>(id)];
  }
  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double* d) override { x = Eigen::Map<const Eigen::VectorXd>(d, w->n); }
  Eigen::VectorXd getVariableValues() const override { return x; }
  void bounds()
  {
    if (l.size() < w->n)
      return;
    l.head(w->n) = x - box;
    u.head(w->n) = x + box;
  }
  void convexify() override
  {
    Conv c;
    if (w->cvs < w->convs.size())
      c = w->convs[w->cvs];
    else if (w->random)
    {
      if (w->cvs > 0 && w->rng->chance(60))
        c = w->convs.back();
      else
      {
        c.slack = w->rng->in(0, 2);
        c.rows = w->rng->in(0, 2);
      }
      c.refuse = w->rng->chance(30) ? w->rng->in(1, 4) : 0;
      w->convs.push_back(c);
    }
    w->cvs++;
    if (w->cvs > 3000)
      throw Runaway("convexifies for ever");
    w->cur_refuse = c.refuse;
    cv++;
    nv = w->n + c.slack;
    nc = w->n + c.rows;
    lin = x;
    qpcoef = coef;
    H.resize(nv, nv);
    H.setZero();
    for (long i = 0; i < nv; ++i)
      H.coeffRef(i, i) = static_cast<double>(1000 * cv + i);
    H.makeCompressed();
    A.resize(nc, nv);
    A.setZero();
    for (long i = 0; i < nc; ++i)
      A.coeffRef(i, i % nv) = static_cast<double>(2000 * cv + i);
    A.makeCompressed();
    g = Eigen::VectorXd::Constant(nv, static_cast<double>(3000 * cv));
    for (long i = 0; i < std::min<long>(nv, coef.size()); ++i)
      g[i] += coef[i];
    l = Eigen::VectorXd::Constant(nc, -static_cast<double>(4000 * cv));
    u = Eigen::VectorXd::Constant(nc, static_cast<double>(5000 * cv));
    bounds();
  }
  double evaluateTotalConvexCost(const Eigen::Ref<const Eigen::VectorXd>& v) const override { return evaluateConvexCosts(v).sum(); }
  Eigen::VectorXd evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& v) const override { return toE(at(v).ac); }
  double getTotalExactCost() const override { return getExactCosts().sum(); }
  Eigen::VectorXd getExactCosts() const override { return toE(at(x).c); }
  Eigen::VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const Eigen::VectorXd>& v) const override { return toE(at(v).av); }
  Eigen::VectorXd getExactConstraintViolations() const override { return toE(at(x).v); }
  void scaleBoxSize(double& s) override
  {
    box = box * s;
    bounds();
  }
  void setBoxSize(const Eigen::Ref<const Eigen::VectorXd>& b) override
  {
    box = b;
    bounds();
  }
  void setConstraintMeritCoeff(const Eigen::Ref<const Eigen::VectorXd>& m) override { coef = m; }
  void print() const override {}
  Eigen::Index getNumNLPVars() const override { return w->n; }
  Eigen::Index getNumNLPConstraints() const override { return static_cast<Eigen::Index>(cnt_names.size()); }
  Eigen::Index getNumNLPCosts() const override { return static_cast<Eigen::Index>(cost_names.size()); }
  Eigen::Index getNumQPVars() const override { return nv; }
  Eigen::Index getNumQPConstraints() const override { return nc; }
  const std::vector<std::string>& getNLPConstraintNames() const override { return cnt_names; }
  const std::vector<std::string>& getNLPCostNames() const override { return cost_names; }
  const Eigen::VectorXd& getBoxSize() const override { return box; }
  const Eigen::VectorXd& getConstraintMeritCoeff() const override { return coef; }
  const trajopt_ifopt::Jacobian& getHessian() const override { return H; }
  const Eigen::VectorXd& getGradient() const override { return g; }
  const trajopt_ifopt::Jacobian& getConstraintMatrix() const override { return A; }
  const Eigen::VectorXd& getBoundsLower() const override { return l; }
  const Eigen::VectorXd& getBoundsUpper() const override { return u; }
};

Step MockProblem::randomStep(Rng& r)
{
  Step s;
  s.ok = !r.chance(15);
  s.dt = r.chance(20) ? r.in(1, 3) : 0;
  s.stop = r.chance(2);
  const Point& b = w->points[static_cast<std::size_t>(std::max(0, idOf(w->res->best_var_vals.head(w->n))))];
  // convex model improves by up to d; the exact function follows it more or less
  const int style = r.in(0, 9);
  auto vary = [&](const std::vector<int>& base, bool nonneg, int lo, int hi) {
    std::vector<int> o;
    for (int v : base)
      o.push_back(nonneg ? std::max(0, v + r.in(lo, hi)) : v + r.in(lo, hi));
    return o;
  };
  const int d = r.chance(30) ? 12 : 4;
  s.p.ac = vary(b.c, false, -d, style < 2 ? d : 1);
  s.p.av = vary(b.v, true, -d, style < 2 ? d : 0);
  if (style < 6)
  {
    s.p.c = vary(s.p.ac, false, -1, 2);
    s.p.v = vary(s.p.av, true, -1, 1);
  }
  else
  {
    s.p.c = vary(b.c, false, -d, d);
    s.p.v = vary(b.v, true, -d, d);
  }
  return s;
}

// ---------------------------------------------------------------------- the real QP problems, seen through the same interface
class RealProblem : public MockProblem
{
public:
  std::unique_ptr<QPProblem> p;
  std::vector<TermDef> terms;
  std::vector<std::vector<int>> xs;  // by id, as w->points
  std::vector<int> next;
  bool simpler;

  RealProblem(World* world, Rng& r, bool simpler_) : MockProblem(world), simpler(simpler_)
  {
    const double inf = std::numeric_limits<double>::infinity();
    auto vars = std::make_shared<Vars>(Eigen::VectorXd::Zero(w->n), std::vector<Bounds>(static_cast<std::size_t>(w->n), Bounds(-inf, inf)));
    if (simpler)
      p = std::make_unique<IfoptQPProblem>(vars);
    else
      p = std::make_unique<TrajOptQPProblem>(vars);
    simple = simpler;
    const int k = r.in(0, 4);
    const bool zeros = r.chance(50);
    for (int i = 0; i < k; ++i)
    {
      TermDef t = randomTerm(r, w->n, "t" + std::to_string(i));
      for (Row& row : t.rows)
        if (t.kind == "sq")  // the QP problems take roots of the weights: perfect squares keep the arithmetic exact
          row.w = row.w == 0 ? 0 : row.w < 3 ? 1 : row.w < 5 ? 4 : 9;
      if (simpler && t.kind == "abs")  // known finding of C07
        continue;
      terms.push_back(t);
      auto s = std::make_shared<Set>(t, zeros);
      if (t.kind == "cnt")
        p->addConstraintSet(s);
      else
        p->addCostSet(s, t.kind == "sq"  ? CostPenaltyType::kSquared :
                         t.kind == "abs" ? CostPenaltyType::kAbsolute :
                                           CostPenaltyType::kHinge);
    }
    p->setup();
    cost_names = p->getNLPCostNames();
    cnt_names = p->getNLPConstraintNames();
    coef = Eigen::VectorXd::Constant(static_cast<Eigen::Index>(cnt_names.size()), 10.0);
    xs.emplace_back(static_cast<std::size_t>(w->n), 0);
    w->points[0] = evaluate(xs[0], xs[0]);
    w->points[0].ac = w->points[0].c;
    w->points[0].av = w->points[0].v;
  }
  int value(const std::string& name, const std::vector<int>* at, const std::vector<int>& y) const
  {
    for (const TermDef& t : terms)
    {
      if (!simpler && t.name == name)
        return static_cast<int>(M * termValue(t, at, y));
      if (simpler && t.kind != "cnt" && t.name + "_squared_cost_0" == name)
        return static_cast<int>(M * termValue(t, at, y));
      for (std::size_t k = 0; simpler && t.kind == "cnt" && k < t.rows.size(); ++k)
        if (t.name + "_" + std::to_string(k) == name)
        {
          TermDef one = t;
          one.rows = { t.rows[k] };
          return static_cast<int>(M * termValue(one, at, y));
        }
    }
    return -78;
  }
  Point evaluate(const std::vector<int>& at, const std::vector<int>& y) const
  {
    Point q;
    for (const auto& n : cost_names)
    {
      q.c.push_back(value(n, nullptr, y));
      q.ac.push_back(value(n, &at, y));
    }
    for (const auto& n : cnt_names)
    {
      q.v.push_back(value(n, nullptr, y));
      q.av.push_back(value(n, &at, y));
    }
    return q;
  }
  int idOf(const Eigen::Ref<const Eigen::VectorXd>& v) const override
  {
    std::vector<int> y;
    for (long i = 0; i < w->n; ++i)
      y.push_back(I(v[i]));
    for (int k = static_cast<int>(xs.size()) - 1; k >= 0; --k)
      if (xs[static_cast<std::size_t>(k)] == y)
        return k;
    return -1;
  }
  Step randomStep(Rng& r) override
  {
    Step s;
    s.ok = !r.chance(15);
    s.dt = r.chance(20) ? r.in(1, 3) : 0;
    s.stop = r.chance(2);
    std::vector<int> at;
    for (long i = 0; i < w->n; ++i)
      at.push_back(I(lin[i]));
    long best = 0;
    const int tries = r.chance(25) ? 1 : 6;
    for (int k = 0; k < tries; ++k)
    {
      std::vector<int> y = at;
      for (int& i : y)
        i = std::max(-6, std::min(6, i + r.in(-2, 2)));
      const Point q = evaluate(at, y);
      long m = 0;
      for (const int c : q.ac)
        m += c;
      for (std::size_t i = 0; i < q.av.size(); ++i)
        m += q.av[i] * static_cast<long>(coef[static_cast<Eigen::Index>(i)]);
      if (k == 0 || m < best)
      {
        best = m;
        next = y;
        s.p = q;
      }
    }
    return s;
  }
  Eigen::VectorXd solution(int /*id*/) override
  {
    xs.push_back(next);
    Eigen::VectorXd o = Eigen::VectorXd::Constant(nv, 1.0);
    for (long i = 0; i < w->n; ++i)
      o[i] = next[static_cast<std::size_t>(i)];
    return o;
  }
  void sync()
  {
    H = p->getHessian();
    A = p->getConstraintMatrix();
    g = p->getGradient();
    l = p->getBoundsLower();
    u = p->getBoundsUpper();
    nv = p->getNumQPVars();
    nc = p->getNumQPConstraints();
  }
  void setup() override { p->setup(); }
  void setVariables(const double* d) override
  {
    p->setVariables(d);
    x = Eigen::Map<const Eigen::VectorXd>(d, w->n);
  }
  Eigen::VectorXd getVariableValues() const override { return p->getVariableValues(); }
  void convexify() override
  {
    MockProblem::convexify();  // what the QP solver refuses
    p->convexify();
    sync();
  }
  double evaluateTotalConvexCost(const Eigen::Ref<const Eigen::VectorXd>& v) const override { return p->evaluateTotalConvexCost(v); }
  Eigen::VectorXd evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& v) const override { return p->evaluateConvexCosts(v); }
  double getTotalExactCost() const override { return p->getTotalExactCost(); }
  Eigen::VectorXd getExactCosts() const override { return p->getExactCosts(); }
  Eigen::VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const Eigen::VectorXd>& v) const override
  {
    return p->evaluateConvexConstraintViolations(v);
  }
  Eigen::VectorXd getExactConstraintViolations() const override { return p->getExactConstraintViolations(); }
  void scaleBoxSize(double& s) override
  {
    box = box * s;
    p->scaleBoxSize(s);
    sync();
  }
  void setBoxSize(const Eigen::Ref<const Eigen::VectorXd>& b) override
  {
    box = b;
    p->setBoxSize(b);
    sync();
  }
  void setConstraintMeritCoeff(const Eigen::Ref<const Eigen::VectorXd>& m) override
  {
    coef = m;
    p->setConstraintMeritCoeff(m);
  }
  Eigen::Index getNumNLPVars() const override { return p->getNumNLPVars(); }
  Eigen::Index getNumNLPConstraints() const override { return p->getNumNLPConstraints(); }
  Eigen::Index getNumNLPCosts() const override { return p->getNumNLPCosts(); }
  Eigen::Index getNumQPVars() const override { return p->getNumQPVars(); }
  Eigen::Index getNumQPConstraints() const override { return p->getNumQPConstraints(); }
  const std::vector<std::string>& getNLPConstraintNames() const override { return p->getNLPConstraintNames(); }
  const std::vector<std::string>& getNLPCostNames() const override { return p->getNLPCostNames(); }
  const Eigen::VectorXd& getBoxSize() const override { return p->getBoxSize(); }
  const Eigen::VectorXd& getConstraintMeritCoeff() const override { return p->getConstraintMeritCoeff(); }
  const trajopt_ifopt::Jacobian& getHessian() const override { return p->getHessian(); }
  const Eigen::VectorXd& getGradient() const override { return p->getGradient(); }
  const trajopt_ifopt::Jacobian& getConstraintMatrix() const override { return p->getConstraintMatrix(); }
  const Eigen::VectorXd& getBoundsLower() const override { return p->getBoundsLower(); }
  const Eigen::VectorXd& getBoundsUpper() const override { return p->getBoundsUpper(); }
};

static std::string list(const Eigen::MatrixXd& m, double scale = 1)
{
  std::string s = "[";
  for (long r = 0; r < m.rows(); ++r)
    for (long c = 0; c < m.cols(); ++c)
      s += (s.size() > 1 ? "," : "") + std::to_string(I(m(r, c), scale));
  return s + "]";
}

// -------------------------------------------------------------------------------------------------------- QP solver
class MockSolver : public QPSolver
{
public:
  World* w{ nullptr };
  MockProblem* prob{ nullptr };
  Out* out{ nullptr };
  QPSolverStatus st{ QPSolverStatus::kUninitialized };
  bool fresh{ false };
  long nv{ -1 }, nc{ -1 };
  Eigen::MatrixXd H, A;
  Eigen::VectorXd g, l, u, sol;
  std::function<std::string(const char*)> snap;

  bool refuse(int which, bool dims)
  {
    if (st == QPSolverStatus::kUninitialized || (!dims && !w->blind))
      return true;
    if (!fresh && w->cur_refuse == which)
    {
      w->cur_refuse = 0;
      return true;
    }
    return false;
  }
  bool init(Eigen::Index a, Eigen::Index b) override
  {
    nv = a;
    nc = b;
    st = QPSolverStatus::kInitialized;
    fresh = true;
    return true;
  }
  bool clear() override
  {
    st = QPSolverStatus::kUninitialized;
    nv = nc = -1;
    H.resize(0, 0);
    A.resize(0, 0);
    g.resize(0);
    l.resize(0);
    u.resize(0);
    return true;
  }
  bool updateHessianMatrix(const trajopt_ifopt::Jacobian& h) override
  {
    if (refuse(1, h.rows() == nv && h.cols() == nv))
      return false;
    H = Eigen::MatrixXd(h);
    return true;
  }
  bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& v) override
  {
    if (refuse(2, v.size() == nv))
      return false;
    g = v;
    return true;
  }
  bool updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& v) override
  {
    if (refuse(4, v.size() == nc))
      return false;
    l = v;
    return true;
  }
  bool updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& v) override
  {
    if (refuse(4, v.size() == nc))
      return false;
    u = v;
    return true;
  }
  bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& a, const Eigen::Ref<const Eigen::VectorXd>& b) override
  {
    if (refuse(4, a.size() == nc && b.size() == nc))
      return false;
    l = a;
    u = b;
    return true;
  }
  bool updateLinearConstraintsMatrix(const trajopt_ifopt::Jacobian& a) override
  {
    if (refuse(3, a.rows() == nc && a.cols() == nv))
      return false;
    A = Eigen::MatrixXd(a);
    return true;
  }
  bool setWarmStart(const QPProblem&) override { return true; }
  QPSolverStatus getSolverStatus() const override { return st; }
  Eigen::VectorXd getSolution() override { return sol; }
  bool solve() override
  {
    if (w->qps > 2000)
      throw Runaway("solves QPs for ever");
    Step s;
    if (w->qps < w->steps.size())
      s = w->steps[w->qps];
    else if (w->random)
    {
      s = prob->randomStep(*w->rng);
      w->steps.push_back(s);
    }
    else
      throw Runaway("solved a QP that the specification does not solve");
    w->qps++;
    fresh = false;
    w->cur_refuse = 0;
    const int id = static_cast<int>(w->points.size());
    std::string o = snap("solve");
    Obj held, cur;
    held.i("nv", nv).i("nc", nc).raw("h", list(H)).raw("a", list(A)).raw("g", list(g)).raw("l", list(l, B)).raw("u", list(u, B));
    cur.i("nv", prob->nv).i("nc", prob->nc).raw("h", list(Eigen::MatrixXd(prob->H))).raw("a", list(Eigen::MatrixXd(prob->A)))
        .raw("g", list(prob->g)).raw("l", list(prob->l, B)).raw("u", list(prob->u, B));
    Obj ev;
    ev.s = o;
    ev.first = false;
    ev.i("vo", w->real != 0 ? prob->nc - prob->nv : 0);
    ev.raw("held", held.done()).raw("cur", cur.done()).b("ok", s.ok).i("dt", s.dt);
    (*out)(ev);
    g_clock += s.dt;
    if (!s.ok)
      return false;
    w->points.push_back(s.p);
    sol = prob->solution(id);
    return true;
  }
};

class LogCallback : public SQPCallback
{
public:
  std::function<bool(bool)> f;
  bool execute(const QPProblem&, const SQPResults&) override { return f(true); }
};

struct Runner
{
  Out& out;
  std::shared_ptr<MockSolver> qs;
  std::unique_ptr<TrustRegionSQPSolver> solver;
  std::shared_ptr<MockProblem> prob;
  World* w{ nullptr };

  explicit Runner(Out& o) : out(o) { fresh(1); }
  void fresh(int ncb)
  {
    qs = std::make_shared<MockSolver>();
    qs->out = &out;
    qs->snap = [this](const char* e) { return snap(e); };
    solver = std::make_unique<TrustRegionSQPSolver>(qs);
    for (int i = 0; i < ncb; ++i)
    {
      auto cb = std::make_shared<LogCallback>();
      cb->f = [this, i, ncb](bool) {
        const bool stop = w->steps[w->qps - 1].stop;
        if (i == 0)
        {
          Obj ev;
          ev.s = snap("cb");
          ev.first = false;
          ev.b("stop", stop);
          out(ev);
        }
        // with several callbacks only one of them asks to stop
        return !(stop && (static_cast<int>(w->qps) % ncb) == i);
      };
      solver->registerCallback(cb);
    }
  }
  std::string exact(const Eigen::VectorXd& v, bool approx = false)
  {
    Obj o;
    const int id = (v.size() >= w->n) ? prob->idOf(v) : -1;
    if (id < 0)
      return o.raw("c", "[-77]").raw("v", "[-77]").raw("ac", "[-77]").raw("av", "[-77]").done();
    const Point& p = w->points[static_cast<std::size_t>(id)];
    return o.iv("c", p.c).iv("v", p.v).iv("ac", p.ac).iv("av", p.av).done();
  }
  std::string snap(const char* e)
  {
    const SQPResults& r = solver->getResults();
    Obj o, R;
    R.dv("bx", Eigen::VectorXd(r.best_var_vals.head(std::min<long>(w->n, r.best_var_vals.size()))))
        .dv("bc", r.best_costs, M).dv("bv", r.best_constraint_violations, M).d("bm", r.best_exact_merit, M)
        .dv("nx", Eigen::VectorXd(r.new_var_vals.head(std::min<long>(w->n, r.new_var_vals.size()))))
        .dv("nc", r.new_costs, M).dv("nv", r.new_constraint_violations, M).d("nm", r.new_exact_merit, M)
        .dv("ac", r.new_approx_costs, M).dv("av", r.new_approx_constraint_violations, M).d("am", r.new_approx_merit, M)
        .d("ai", r.approx_merit_improve, M).d("ei", r.exact_merit_improve, M)
        .dv("box", r.box_size, B).dv("coef", r.merit_error_coeffs)
        .i("pen", r.penalty_iteration).i("conv", r.convexify_iteration).i("tr", r.trust_region_iteration).i("all", r.overall_iteration);
    o.str("e", e).raw("R", R.done()).raw("exb", exact(r.best_var_vals)).raw("exn", exact(r.new_var_vals))
        .dv("x", prob->x).dv("lin", prob->lin).i("cv", prob->cv).dv("box", prob->box, B).dv("coef", prob->coef)
        .dv("qpcoef", prob->qpcoef).i("clock", g_clock);
    return o.s;
  }
  void run(World& world, bool reuse, int ncb)
  {
    w = &world;
    g_clock = 0;
    if (!reuse)
      fresh(ncb);
    if (w->real != 0)
      prob = std::make_shared<RealProblem>(w, *w->rng, w->real == 2);
    else
      prob = std::make_shared<MockProblem>(w);
    qs->w = w;
    qs->prob = prob.get();
    w->res = &solver->getResults();
    const Params& P = w->P;
    auto& p = solver->params;
    p.improve_ratio_threshold = static_cast<double>(P.thr[0]) / P.thr[1];
    p.min_trust_box_size = P.minbox / B;
    p.min_approx_improve = P.minimp / M;
    p.min_approx_improve_frac =
        P.frac.empty() ? std::numeric_limits<double>::lowest() : static_cast<double>(P.frac[0]) / P.frac[1];
    p.max_iterations = P.maxit;
    p.trust_shrink_ratio = static_cast<double>(P.shrink[0]) / P.shrink[1];
    p.trust_expand_ratio = static_cast<double>(P.expand[0]) / P.expand[1];
    p.cnt_tolerance = P.tol / M;
    p.max_merit_coeff_increases = P.maxinc;
    p.max_qp_solver_failures = P.maxfail;
    p.merit_coeff_increase_ratio = P.ratio;
    p.max_time = P.maxtime + 0.5;
    p.initial_merit_error_coeff = P.coef0;
    p.inflate_constraints_individually = P.indiv;
    p.initial_trust_box_size = P.box0 / B;
    Obj pj;
    pj.iv("thr", std::vector<int>{ P.thr[0], P.thr[1] }).iv("shrink", std::vector<int>{ P.shrink[0], P.shrink[1] })
        .iv("expand", std::vector<int>{ P.expand[0], P.expand[1] }).iv("frac", P.frac).i("minbox", P.minbox).i("box0", P.box0)
        .i("minimp", P.minimp).i("maxit", P.maxit).i("tol", P.tol).i("maxinc", P.maxinc).i("maxfail", P.maxfail)
        .i("ratio", P.ratio).i("maxtime", P.maxtime).i("coef0", P.coef0).b("indiv", P.indiv).i("maxconv", 99);
    Obj ev;
    ev.str("e", "new").raw("P", pj.done()).iv("c", w->points[0].c).iv("v", w->points[0].v).i("n", w->n).b("reuse", reuse);
    out(ev);
    std::string status;
    try
    {
      solver->solve(prob);
      switch (solver->getStatus())
      {
        case SQPStatus::kConverged: status = "converged"; break;
        case SQPStatus::kIterationLimit: status = "iter"; break;
        case SQPStatus::kPenaltyIterationLimit: status = "penlimit"; break;
        case SQPStatus::kTimeLimit: status = "time"; break;
        case SQPStatus::kQPSolveFailed: status = "failed"; break;
        case SQPStatus::kStoppedByCallback: status = "stopped"; break;
        default: status = "running";
      }
    }
    catch (const Runaway& ex)
    {
      status = std::string("runaway: ") + ex.what();
    }
    Obj ret;
    ret.s = snap("ret");
    ret.first = false;
    ret.str("status", status);
    out(ret);
  }
};

static std::vector<int> ints(const Json::Value& v)
{
  std::vector<int> o;
  for (const auto& i : v)
    o.push_back(i.asInt());
  return o;
}
static Params params(const Json::Value& j)
{
  Params P;
  for (int i = 0; i < 2; ++i)
  {
    P.thr[i] = j["thr"][i].asInt();
    P.shrink[i] = j["shrink"][i].asInt();
    P.expand[i] = j["expand"][i].asInt();
  }
  P.frac = ints(j["frac"]);
  P.minbox = j["minbox"].asInt();
  P.box0 = j["box0"].asInt();
  P.minimp = j["minimp"].asInt();
  P.maxit = j["maxit"].asInt();
  P.tol = j["tol"].asInt();
  P.maxinc = j["maxinc"].asInt();
  P.maxfail = j["maxfail"].asInt();
  P.ratio = j["ratio"].asInt();
  P.maxtime = j["maxtime"].asInt();
  P.coef0 = j["coef0"].asInt();
  P.indiv = j["indiv"].asBool();
  return P;
}

int main(int argc, char** argv)
{
  // sqp_driver replay SCN SEED OUT | sqp_driver random SEED RUNS OUT | sqp_driver real SEED RUNS OUT
  console_bridge::noOutputHandler();
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  Out out;
  out.open(argv[argc - 1]);
  Runner r(out);
  if (std::string(argv[1]) == "replay")
  {
    Rng g(std::stoul(argv[3]));
    int k = 0;
    for (const auto& s : readScenarios(argv[2]))
    {
      World w;
      w.P = params(s["P"]);
      w.n = 1 + (k % 2);
      w.blind = (k / 2) % 2 == 1;
      w.early = (k / 4) % 2 == 1;
      Point p0;
      p0.c = p0.ac = ints(s["c"]);
      p0.v = p0.av = ints(s["v"]);
      w.points.push_back(p0);
      for (const auto& st : s["steps"])
      {
        Step t;
        t.ok = st["ok"].asBool();
        t.stop = st["stop"].asBool();
        t.dt = st["dt"].asInt();
        t.p.c = ints(st["c"]);
        t.p.v = ints(st["v"]);
        t.p.ac = ints(st["ac"]);
        t.p.av = ints(st["av"]);
        w.steps.push_back(t);
      }
      for (int i = 0; i < 12; ++i)
      {
        Conv c;
        c.slack = g.chance(70) ? 1 : g.in(0, 2);
        c.rows = g.chance(70) ? 1 : g.in(0, 2);
        c.refuse = g.chance(30) ? g.in(1, 4) : 0;
        w.convs.push_back(c);
      }
      r.run(w, k % 3 == 1, 1 + k % 2);
      ++k;
    }
    return 0;
  }
  Rng g(std::stoul(argv[2]));
  const int runs = std::stoi(argv[3]);
  for (int k = 0; k < runs; ++k)
  {
    World w;
    w.random = true;
    w.rng = &g;
    w.blind = g.chance(50);
    w.early = g.chance(50);
    Params& P = w.P;
    auto pick = [&](std::initializer_list<std::pair<int, int>> l, int* o) {
      auto it = l.begin();
      std::advance(it, g.in(0, static_cast<int>(l.size()) - 1));
      o[0] = it->first;
      o[1] = it->second;
    };
    pick({ { 1, 4 }, { 1, 2 }, { 0, 1 }, { 1, 1 }, { 1, 8 }, { -1, 2 } }, P.thr);
    const int sh = g.in(0, 3);
    if (sh == 0)
      P.shrink[0] = 1, P.shrink[1] = 4;
    else
      P.shrink[0] = 1, P.shrink[1] = 2;
    P.expand[0] = g.in(0, 9) == 0 ? 1 : 2;
    P.expand[1] = 1;
    P.minbox = 1 << g.in(5, 9);
    P.box0 = P.minbox << g.in(0, 6);
    if (g.chance(3))
      P.box0 = P.minbox / 2;
    P.minimp = g.in(0, 3) == 0 ? g.in(-6, 6) : g.in(0, 2);
    if (g.chance(40))
      P.frac = { g.in(-1, 2), 1 << g.in(1, 4) };
    P.maxit = g.chance(5) ? g.in(0, 2) : g.in(3, 14);
    P.tol = g.in(1, 4);
    P.maxinc = g.chance(5) ? 0 : g.in(1, 4);
    P.maxfail = g.in(0, 4);
    P.ratio = g.in(2, 5);
    P.maxtime = g.chance(25) ? g.in(-1, 4) : 1000;
    P.coef0 = g.in(1, 4);
    P.indiv = g.chance(60);
    if (std::string(argv[1]) == "real")
    {
      w.real = 1 + k % 2;
      w.n = g.in(1, 3);
      w.points.emplace_back();
      r.run(w, g.chance(30), g.in(1, 2));
      continue;
    }
    if (k % 97 == 5)
    {  // the cap on convexifications: steps keep being accepted and the box does not grow
      P.maxit = 400;
      P.maxinc = 2;
      P.expand[0] = 1;
      P.expand[1] = 1;
      P.maxtime = 100000;
    }
    w.n = g.in(1, 3);
    Point p0;
    const int nc = g.in(0, 2), nv = g.in(0, 3);
    for (int i = 0; i < nc; ++i)
      p0.c.push_back(g.in(-10, 60));
    for (int i = 0; i < nv; ++i)
      p0.v.push_back(g.in(0, 30));
    p0.ac = p0.c;
    p0.av = p0.v;
    w.points.push_back(p0);
    if (k % 97 == 5)
      for (int i = 0; i < 399; ++i)
      {
        Step s;
        s.p.c = std::vector<int>(static_cast<std::size_t>(nc), 0);
        s.p.v = std::vector<int>(static_cast<std::size_t>(nv), 900 - 2 * i);
        s.p.ac = s.p.c;
        s.p.av = s.p.v;
        if (nc > 0)
          s.p.c[0] = s.p.ac[0] = 100000 - 40 * i;
        if (i == 0)
        {
          w.points[0].c = w.points[0].ac = std::vector<int>(static_cast<std::size_t>(nc), 101000);
          w.points[0].v = w.points[0].av = std::vector<int>(static_cast<std::size_t>(nv), 950);
        }
        w.steps.push_back(s);
      }
    r.run(w, g.chance(30), g.in(1, 2));
  }
  return 0;
}
