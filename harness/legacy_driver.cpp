// C11: the trajopt_sco optimizer against scripted costs, constraints and a scripted convex solver.
// legacy_driver replay SCN SEED OUT | random SEED N OUT
#include "mock_model.hpp"
#include <chrono>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/optimizers.hpp>
using namespace vd;
using namespace sco;

// ---------------------------------------------------------------------------------------------------- virtual clock
static long g_clock = 0;  // seconds
namespace std::chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(seconds(1000 + g_clock))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(seconds(1000 + g_clock))); }
}  // namespace _V2
}  // namespace std::chrono

static Out out;
static std::string scratch;
static std::shared_ptr<MockModel> model;
namespace sco
{
Model::Ptr createBPMPDModel() { return model = std::make_shared<MockModel>(); }
}  // namespace sco

constexpr double M = 4;              // unit of costs, violations and tolerances: 1/4
constexpr int FINE = 4096;           // lengths: 1/8000, divided by FINE
constexpr double U = 8000.0 * FINE;  // (the margin of a feasible point, 1e-3, is 8 * FINE)
constexpr double TOL = 0.05;

struct Point
{
  std::vector<int> c, v;
};
struct Step
{
  bool ok{ true };
  int dt{ 0 };
  Point e, a;  // exact and of the model
};
struct Params
{
  int thr[2]{ 1, 4 }, shrink[2]{ 1, 2 }, expand[2]{ 2, 1 };
  std::vector<int> frac;
  int minbox{ 8 }, box0{ 16 }, minimp{ 0 }, maxit{ 10 }, tol{ 1 }, maxinc{ 3 }, maxfail{ 2 }, ratio{ 2 }, maxtime{ 100 }, coef0{ 1 };
  bool indiv{ true };
};
struct Runaway
{
};
struct RowInfo
{
  int cnt, sg;
  Var s;
};
using Key = std::vector<int>;

struct World;
struct ScriptCost : Cost
{
  World* w;
  int i;
  bool row;  // an inequality of its own: t <= 1
  Var t;
  ScriptCost(World* world, int id, bool r) : Cost("cost" + std::to_string(id)), w(world), i(id), row(r) {}
  double value(const DblVec& x) override;
  ConvexObjective::Ptr convex(const DblVec& x, Model* m) override;
  VarVector getVars() override { return {}; }
};
struct OwnVars : ConvexConstraints
{
  VarVector mine;
  Model* m;
  explicit OwnVars(Model* model) : ConvexConstraints(model), m(model) {}
  ~OwnVars() override { m->removeVars(mine); }
};
struct ScriptCnt
{
  World* w;
  int i;
  std::vector<int> sg;  // sign of s in each row
  std::vector<Var> s;
  ScriptCnt(World* world, int id, std::vector<int> signs) : w(world), i(id), sg(std::move(signs)), s(sg.size()) {}
  DblVec val(const DblVec& x, bool eq);
  ConvexConstraints::Ptr conv(const DblVec& x, Model* m, bool eq);
};
struct ScriptEq : EqConstraint, ScriptCnt
{
  ScriptEq(World* world, int id, std::vector<int> signs) : EqConstraint("eq" + std::to_string(id)), ScriptCnt(world, id, std::move(signs)) {}
  DblVec value(const DblVec& x) override { return val(x, true); }
  ConvexConstraints::Ptr convex(const DblVec& x, Model* m) override { return conv(x, m, true); }
  VarVector getVars() override { return {}; }
};
struct ScriptIneq : IneqConstraint, ScriptCnt
{
  ScriptIneq(World* world, int id, std::vector<int> signs) : IneqConstraint("ineq" + std::to_string(id)), ScriptCnt(world, id, std::move(signs)) {}
  DblVec value(const DblVec& x) override { return val(x, false); }
  ConvexConstraints::Ptr convex(const DblVec& x, Model* m) override { return conv(x, m, false); }
  VarVector getVars() override { return {}; }
};

struct World
{
  Rng& g;
  Json::Value s;
  int n;
  OptProb::Ptr prob;
  std::shared_ptr<BasicTrustRegionSQP> opt;
  VarVector base;
  std::vector<int> lo, hi;  // in units
  std::vector<std::shared_ptr<ScriptCost>> costs;
  std::vector<Constraint::Ptr> cnts;
  std::vector<ScriptCnt*> scs;
  std::map<Key, Point> table;
  Point start;
  bool started{ false };
  std::vector<Step> steps;
  std::size_t used{ 0 };
  int total{ 0 };  // QPs over all runs
  bool open{ false };
  int vmark{ 0 }, cmark{ 0 }, nlin{ 0 };
  long unknown{ 0 };
  std::vector<Key> cvx;  // points of the convexifications since the last one began
  std::mutex mtx;

  explicit World(const Json::Value& scn, Rng& r);
  static Key key(const DblVec& x)
  {
    Key k;
    for (const double d : x)
      k.push_back(I(d, U, TOL));
    return k;
  }
  const Point& at(const DblVec& x)
  {
    const std::lock_guard<std::mutex> lock(mtx);
    Key k = key(x);
    k.resize(static_cast<std::size_t>(n));
    const auto it = table.find(k);
    if (it != table.end())
      return it->second;
    if (started)
      ++unknown;  // evaluated where nobody has been: the point gets values that no candidate has
    Point p = start;
    if (started)
    {
      for (auto& c : p.c)
        c = 100000;
      for (auto& v : p.v)
        v = 100000;
    }
    started = true;
    return table.emplace(k, p).first->second;
  }
  void convexified(const DblVec& x)
  {
    const std::lock_guard<std::mutex> lock(mtx);
    if (!open)
    {
      open = true;
      vmark = static_cast<int>(model->keep.size());
      cmark = model->ncnt;
      cvx.clear();
    }
    cvx.push_back(key(x));
  }
  CvxOptStatus solve(DblVec& vals);
  void snap(Obj& o, const OptResults& r);
  void run(const Json::Value& rr, int idx);
  std::vector<int> randomVec(std::size_t len, const std::vector<int>& old, int up);
  Step randomStep(const OptResults& r);
};

double ScriptCost::value(const DblVec& x) { return w->at(x).c[static_cast<std::size_t>(i)] / M; }
ConvexObjective::Ptr ScriptCost::convex(const DblVec& x, Model* m)
{
  w->convexified(x);
  auto o = std::make_shared<ConvexObjective>(m);
  t = m->addVar("t" + std::to_string(i));
  o->vars_.push_back(t);
  o->addAffExpr(AffExpr(t));
  if (row)
  {
    AffExpr e(t);
    e.constant = -1;
    o->ineqs_.push_back(e);
  }
  return o;
}
// the violation v of a constraint is split over its rows: odd quarters go to the first
static std::vector<double> split(int v, std::size_t rows)
{
  std::vector<double> o(rows, 0.0);
  if (rows == 1 || v < 2)
    o[0] = v / M;
  else
  {
    o[1] = (v / 2) / M;
    o[0] = (v - v / 2) / M;
  }
  return o;
}
DblVec ScriptCnt::val(const DblVec& x, bool eq)
{
  const auto d = split(w->at(x).v[static_cast<std::size_t>(i)], sg.size());
  DblVec o;
  for (std::size_t k = 0; k < sg.size(); ++k)
    o.push_back(eq ? sg[k] * d[k] : (d[k] > 0 ? d[k] : -static_cast<double>(k) - 0.5));
  return o;
}
ConvexConstraints::Ptr ScriptCnt::conv(const DblVec& x, Model* m, bool eq)
{
  w->convexified(x);
  auto o = std::make_shared<OwnVars>(m);
  for (std::size_t k = 0; k < sg.size(); ++k)
  {
    s[k] = m->addVar("s" + std::to_string(i) + "_" + std::to_string(k));
    o->mine.push_back(s[k]);
    AffExpr e;
    e.vars = { s[k] };
    e.coeffs = { static_cast<double>(sg[k]) };
    if (eq)
      o->addEqCnt(e);
    else
      o->addIneqCnt(e);
  }
  return o;
}

static std::vector<int> ints(const Json::Value& a)
{
  std::vector<int> o;
  for (const auto& v : a)
    o.push_back(v.asInt());
  return o;
}
static void pair(const Json::Value& a, int* p)
{
  p[0] = a[0].asInt();
  p[1] = a[1].asInt();
}
static Params readParams(const Json::Value& p)
{
  Params P;
  pair(p["thr"], P.thr);
  pair(p["shrink"], P.shrink);
  pair(p["expand"], P.expand);
  P.frac = ints(p["frac"]);
  P.minbox = p["minbox"].asInt();
  P.box0 = p["box0"].asInt();
  P.minimp = p["minimp"].asInt();
  P.maxit = p["maxit"].asInt();
  P.tol = p["tol"].asInt();
  P.maxinc = p["maxinc"].asInt();
  P.maxfail = p["maxfail"].asInt();
  P.ratio = p["ratio"].asInt();
  P.maxtime = p["maxtime"].asInt();
  P.coef0 = p["coef0"].asInt();
  P.indiv = p["indiv"].asBool();
  return P;
}
static std::string dumpParams(const Params& P, int box)
{
  Obj o;
  o.iv("thr", std::vector<int>{ P.thr[0], P.thr[1] }).iv("shrink", std::vector<int>{ P.shrink[0], P.shrink[1] });
  o.iv("expand", std::vector<int>{ P.expand[0], P.expand[1] }).iv("frac", P.frac);
  o.i("minbox", P.minbox * FINE).i("box0", box).i("minimp", P.minimp).i("maxit", P.maxit).i("tol", P.tol).i("maxinc", P.maxinc);
  o.i("maxfail", P.maxfail).i("ratio", P.ratio).i("maxtime", P.maxtime).i("coef0", P.coef0).b("indiv", P.indiv);
  return o.done();
}

World::World(const Json::Value& scn, Rng& r) : g(r), s(scn)
{
  n = s["n"].asInt();
  lo = ints(s["lo"]);
  hi = ints(s["hi"]);
  prob = std::make_shared<OptProb>(ModelType(ModelType::BPMPD));
  std::vector<std::string> names;
  DblVec l, h;
  for (int i = 0; i < n; ++i)
  {
    names.push_back("x" + std::to_string(i));
    l.push_back(lo[static_cast<std::size_t>(i)] <= -INF ? -INFINITY : lo[static_cast<std::size_t>(i)] / 8000.0);
    h.push_back(hi[static_cast<std::size_t>(i)] >= INF ? INFINITY : hi[static_cast<std::size_t>(i)] / 8000.0);
  }
  base = prob->createVariables(names, l, h);
  std::string rows = "[", crow = "[";
  for (Json::ArrayIndex i = 0; i < s["costs"].size(); ++i)
  {
    costs.push_back(std::make_shared<ScriptCost>(this, static_cast<int>(i), s["costs"][i].asBool()));
    prob->addCost(costs.back());
    crow += std::string(crow.size() > 1 ? "," : "") + (costs.back()->row ? "true" : "false");
  }
  for (Json::ArrayIndex i = 0; i < s["cnts"].size(); ++i)  // [eq, sign, ..]; equalities first (the order of the problem)
  {
    std::vector<int> sg = ints(s["cnts"][i]);
    const bool eq = sg[0] == 1;
    sg.erase(sg.begin());
    if (eq)
    {
      auto c = std::make_shared<ScriptEq>(this, static_cast<int>(i), sg);
      cnts.push_back(c);
      scs.push_back(c.get());
    }
    else
    {
      auto c = std::make_shared<ScriptIneq>(this, static_cast<int>(i), sg);
      cnts.push_back(c);
      scs.push_back(c.get());
    }
    prob->addConstraint(cnts.back());
    for (const int k : sg)
      rows += std::string(rows.size() > 1 ? "," : "") + Obj().i("j", i + 1).b("eq", eq).i("sg", k).done();
  }
  if (s["lin"].asBool())
  {
    AffExpr e(base[0]);
    e.constant = -100;
    prob->addLinearConstraint(e, INEQ);
    nlin = 1;
  }
  if (s["mt"].asInt() > 0)
    opt = std::make_shared<BasicTrustRegionSQPMultiThreaded>(prob);
  else
    opt = std::make_shared<BasicTrustRegionSQP>(prob);
  opt->getParameters().num_threads = s["mt"].asInt();
  std::vector<int> flo, fhi;
  for (int i = 0; i < n; ++i)
  {
    flo.push_back(I(l[static_cast<std::size_t>(i)], U, TOL));
    fhi.push_back(I(h[static_cast<std::size_t>(i)], U, TOL));
  }
  Obj o;
  o.str("e", "new").i("n", n).iv("lo", flo).iv("hi", fhi).raw("costs", crow + "]").raw("rows", rows + "]").i("nc", cnts.size()).i("nlin", nlin);
  out(o);
  opt->addCallback([this](OptProb*, OptResults& res) {
    Obj e;
    e.str("e", "cb");
    snap(e, res);
    out(e);
    open = false;
  });
  model->answer = [this](MockModel&, DblVec& vals) { return solve(vals); };
  int idx = 0;
  for (const auto& rr : s["runs"])
    run(rr, idx++);
}
void World::snap(Obj& o, const OptResults& r)
{
  const Point p = r.x.size() == static_cast<std::size_t>(n) ? at(r.x) : Point();
  o.dv("x", r.x, U, TOL).dv("c", r.cost_vals, M).dv("v", r.cnt_viols, M).iv("tc", p.c).iv("tv", p.v).i("nq", r.n_qp_solves).i("unknown", unknown);
}
std::vector<int> World::randomVec(std::size_t len, const std::vector<int>& old, int up)
{
  std::vector<int> v;
  for (std::size_t i = 0; i < len; ++i)
  {
    int k = i < old.size() ? old[i] : 3;
    if (g.chance(70))
      k += g.in(-4, up);
    v.push_back(std::max(0, std::min(40, k)));
  }
  return v;
}
Step World::randomStep(const OptResults& r)
{
  Step st;
  st.dt = g.chance(80) ? 0 : g.in(1, 2);
  st.ok = !g.chance(s["fail"].asInt());
  const Point p = at(r.x);
  const bool fine = g.chance(15);
  st.e.c = randomVec(costs.size(), p.c, g.in(0, 3));
  st.e.v = fine ? std::vector<int>(cnts.size(), 0) : randomVec(cnts.size(), p.v, g.in(0, 3));
  if (s["neg"].asBool())
    for (auto& c : st.e.c)
      c -= g.in(0, 3);
  st.a = st.e;
  if (g.chance(70))
  {
    st.a.c = randomVec(costs.size(), st.e.c, 1);
    st.a.v = randomVec(cnts.size(), st.e.v, 1);
  }
  return st;
}
CvxOptStatus World::solve(DblVec& vals)
{
  open = false;
  const OptResults& r = opt->results();
  // the numbers of the dump: 1..n problem variables, then the costs' and the rows' own variables, then the rest
  model->alias.clear();
  std::map<int, int> al;
  int next = 0;
  long missing = 0;
  const auto own = [&](const Var& v) {
    const int u = v.var_rep ? model->uid(v) : 0;
    if (u == 0 || v.var_rep->removed)
      ++missing;
    al[u] = ++next;
  };
  for (const auto& v : base)
    own(v);
  for (const auto& c : costs)
    own(c->t);
  for (const auto* c : scs)
    for (const auto& v : c->s)
      own(v);
  const int nown = next;
  std::string bnd = "[", auxb = "[";
  long stale = 0;
  for (std::size_t i = 0; i < model->vars.size(); ++i)
  {
    const auto& v = model->vars[i];
    const int lb = I(v.lb, i < base.size() ? U : 1, TOL), ub = I(v.ub, i < base.size() ? U : 1, TOL);
    if (i < base.size())
      bnd += std::string(bnd.size() > 1 ? "," : "") + "[" + std::to_string(lb) + "," + std::to_string(ub) + "]";
    else if (v.uid <= vmark)
      ++stale;
    if (al.find(v.uid) == al.end())
    {
      al[v.uid] = ++next;
      auxb += std::string(auxb.size() > 1 ? "," : "") + "[" + std::to_string(next) + "," + std::to_string(lb) + "," + std::to_string(ub) + "]";
    }
  }
  long lin = 0;
  for (const auto& c : model->cnts)
    if (c.uid <= nlin)
      ++lin;
    else if (c.uid <= cmark)
      ++stale;
  model->alias = al;
  const std::string obj = Obj().i("c", I(model->objective.affexpr.constant)).raw("a", model->aff(model->objective.affexpr, 1, 1e-6)).raw("q", model->quad(model->objective, 1, 1e-6)).done();
  std::string rows = "[";
  for (const auto& c : model->cnts)
    if (c.uid > nlin)
      rows += (rows.size() > 1 ? "," : "") + Obj().i("k", c.uid).i("t", c.quad ? 2 : c.t).i("c", I(c.e.constant, 1, 1e-6)).raw("a", model->aff(c.e, 1, 1e-6)).done();
  rows += "]";
  model->alias.clear();
  bool here = true;
  for (const auto& k : cvx)
    here = here && k == key(r.x);
  Obj o;
  o.str("e", "solve");
  snap(o, r);
  o.raw("b", bnd + "]").i("stale", stale).i("missing", missing).i("lin", lin).i("foreign", model->foreign).b("here", here).i("ncvx", cvx.size());
  o.i("nown", nown).raw("obj", obj).raw("rows", rows).raw("auxb", auxb + "]");

  // the answer
  if (total++ > 400)
  {
    out(o.b("ok", false).i("dt", 0));
    throw Runaway();
  }
  const Step st = used < steps.size() ? steps[used] : randomStep(r);
  ++used;
  g_clock += st.dt;
  o.b("ok", st.ok).i("dt", st.dt);
  if (!st.ok)
  {
    out(o);
    for (auto& v : vals)
      v = 77;
    return g.chance(50) ? CVX_INFEASIBLE : CVX_FAILED;
  }
  DblVec x;
  for (std::size_t i = 0; i < base.size(); ++i)
  {
    const auto& v = model->vars[base[i].var_rep->index];
    const double a = std::max(v.lb, -20.0), b = std::min(v.ub, 20.0);
    const int ka = static_cast<int>(std::ceil(a * U - TOL)), kb = static_cast<int>(std::floor(b * U + TOL));
    int k = kb <= ka ? ka : g.chance(30) ? (g.chance(50) ? ka : kb) : g.in(ka, kb);
    x.push_back(std::max(v.lb, std::min(k / U, v.ub)));
  }
  const Key k = key(x);
  Point e = st.e;
  {
    const std::lock_guard<std::mutex> lock(mtx);
    e = table.emplace(k, st.e).first->second;
  }
  for (std::size_t i = 0; i < base.size(); ++i)
    vals[base[i].var_rep->index] = x[i];
  for (std::size_t i = 0; i < costs.size(); ++i)
    if (costs[i]->t.var_rep && !costs[i]->t.var_rep->removed)
      vals[costs[i]->t.var_rep->index] = st.a.c[i] / M;
  for (std::size_t i = 0; i < scs.size(); ++i)
  {
    const auto d = split(st.a.v[i], scs[i]->sg.size());
    const bool eq = cnts[i]->type() == EQ;
    for (std::size_t j = 0; j < d.size(); ++j)
      if (scs[i]->s[j].var_rep && !scs[i]->s[j].var_rep->removed)
        vals[scs[i]->s[j].var_rep->index] = d[j] == 0 && !eq ? -2.0 * scs[i]->sg[j] : (eq && j == 1 ? -1 : 1) * scs[i]->sg[j] * d[j];
  }
  // the other variables: moved until their rows hold
  for (const auto& v : model->vars)
    if (al[v.uid] > nown)
      vals[v.v.var_rep->index] = std::isfinite(v.lb) ? v.lb : 0;
  for (const auto& c : model->cnts)
  {
    const double e0 = c.e.value(vals);
    if (c.t == 0 ? e0 == 0 : e0 <= 0)
      continue;
    for (std::size_t j = 0; j < c.e.vars.size(); ++j)
    {
      const int u = model->uid(c.e.vars[j]);
      if (al[u] > nown && c.e.coeffs[j] * e0 < 0)
      {
        vals[c.e.vars[j].var_rep->index] += -e0 / c.e.coeffs[j];
        break;
      }
    }
  }
  o.raw("cand", Obj().iv("x", k).iv("c", e.c).iv("v", e.v).iv("ac", st.a.c).iv("av", st.a.v).done());
  out(o);
  return CVX_SOLVED;
}
void World::run(const Json::Value& rr, int idx)
{
  auto& p = opt->getParameters();
  const Params P = readParams(rr["P"]);
  const bool log = rr["log"].asInt() > 0;
  const bool init = idx == 0 || rr["init"].asBool();
  int box = I(p.trust_box_size, U, 0.001);
  const bool keep = idx > 0 && rr["keepbox"].asBool() && box % FINE == 0 && box >= P.minbox * FINE && box <= 64 * FINE;
  p.improve_ratio_threshold = static_cast<double>(P.thr[0]) / P.thr[1];
  p.min_trust_box_size = P.minbox / 8000.0;
  p.min_approx_improve = P.minimp / M;
  p.min_approx_improve_frac = P.frac.empty() ? std::numeric_limits<double>::lowest() : static_cast<double>(P.frac[0]) / P.frac[1];
  p.max_iter = P.maxit;
  p.trust_shrink_ratio = static_cast<double>(P.shrink[0]) / P.shrink[1];
  p.trust_expand_ratio = static_cast<double>(P.expand[0]) / P.expand[1];
  p.cnt_tolerance = P.tol / M;
  p.max_merit_coeff_increases = P.maxinc;
  p.max_qp_solver_failures = P.maxfail;
  p.merit_coeff_increase_ratio = P.ratio;
  p.max_time = P.maxtime >= 1000 ? std::numeric_limits<double>::max() : P.maxtime;
  p.initial_merit_error_coeff = P.coef0;
  p.inflate_constraints_individually = P.indiv;
  p.log_results = log;
  p.log_dir = rr["log"].asInt() == 2 ? scratch + "/nowhere" : scratch;
  if (!keep)
  {
    p.trust_box_size = P.box0 / 8000.0;
    box = P.box0 * FINE;
  }
  trajopt_common::gLogLevel = rr["loud"].asBool() ? trajopt_common::LevelDebug : trajopt_common::LevelFatal;
  steps.clear();
  used = 0;
  for (const auto& st : rr["steps"])
  {
    Step q;
    q.ok = st["ok"].asBool();
    q.dt = st["dt"].asInt();
    q.e = { ints(st["c"]), ints(st["v"]) };
    q.a = { ints(st["ac"]), ints(st["av"]) };
    steps.push_back(q);
  }
  DblVec x;
  for (const auto& v : rr["x"])
    x.push_back(v.asInt() / 8000.0);
  bool refused = true;
  if (rr["wrong"].asBool())
  {
    refused = false;
    try
    {
      opt->initialize(DblVec(static_cast<std::size_t>(n) + 1, 0.0));
    }
    catch (const std::exception&)
    {
      refused = true;
    }
  }
  if (init)
  {
    opt->initialize(x);
  }
  else
    x = opt->x();
  // the first point evaluated in this run that is new; points of an earlier run keep their values
  start = { ints(rr["c"]), ints(rr["v"]) };
  started = false;
  Obj o;
  o.str("e", "run").b("init", init).raw("P", dumpParams(P, box)).dv("x", x, U, TOL).i("clock", g_clock).b("refused", refused);
  out(o);
  std::string st = "none";
  try
  {
    const OptStatus q = opt->optimize();
    st = q == OPT_CONVERGED ? "converged" : q == OPT_SCO_ITERATION_LIMIT ? "iter" : q == OPT_PENALTY_ITERATION_LIMIT ? "penlimit" :
         q == OPT_TIME_LIMIT ? "time" : q == OPT_FAILED ? "failed" : "invalid";
    if (opt->results().status != q)
      st = "mixed";
  }
  catch (const Runaway&)
  {
    st = "runaway";
  }
  catch (const std::exception&)
  {
    st = "threw";
  }
  Obj q;
  q.str("e", "ret").str("status", st);
  snap(q, opt->results());
  q.d("total", opt->results().total_cost, M, 1e-6).i("nvars", model->vars.size()).i("nrows", model->cnts.size()).i("foreign", model->foreign);
  out(q);
}

static Json::Value arr(const std::vector<int>& v)
{
  Json::Value a(Json::arrayValue);
  for (const int i : v)
    a.append(i);
  return a;
}
static void problem(Json::Value& s, Rng& g, std::size_t nc, std::size_t nv)
{
  const int n = g.in(1, 2);
  s["n"] = n;
  std::vector<int> lo, hi;
  for (int i = 0; i < n; ++i)
  {
    const int a = g.in(-60, 40);
    lo.push_back(g.chance(15) ? -INF : a);
    hi.push_back(g.chance(15) ? INF : a + g.in(g.chance(20) ? 0 : 10, 120));
  }
  s["lo"] = arr(lo);
  s["hi"] = arr(hi);
  s["costs"] = Json::Value(Json::arrayValue);
  for (std::size_t i = 0; i < nc; ++i)
    s["costs"].append(g.chance(30));
  s["cnts"] = Json::Value(Json::arrayValue);
  const std::size_t neq = static_cast<std::size_t>(g.in(0, static_cast<int>(nv)));
  for (std::size_t i = 0; i < nv; ++i)
  {
    std::vector<int> r{ i < neq ? 1 : 0 };
    const int rows = g.in(1, 2);
    for (int k = 0; k < rows; ++k)
      r.push_back(g.chance(50) ? 1 : -1);
    s["cnts"].append(arr(r));
  }
  s["lin"] = g.chance(30);
  s["mt"] = g.chance(12) ? g.in(1, 4) : 0;
}
static void startPoint(Json::Value& r, const Json::Value& s, Rng& g)
{
  std::vector<int> x;
  for (int i = 0; i < s["n"].asInt(); ++i)
    x.push_back(g.in(-80, 120));
  r["x"] = arr(x);
}
static Json::Value randomScenario(Rng& g)
{
  Json::Value s;
  std::size_t nc = static_cast<std::size_t>(g.in(0, 3)), nv = static_cast<std::size_t>(g.in(0, 3));
  if (nc + nv == 0)
    nc = 1;
  problem(s, g, nc, nv);
  s["fail"] = g.chance(60) ? 10 : g.in(0, 60);
  const bool frac = g.chance(30);
  s["neg"] = !frac && g.chance(30);
  const int runs = g.chance(30) ? 2 : 1;
  const bool threehalf = g.chance(25);
  for (int k = 0; k < runs; ++k)
  {
    Json::Value r;
    Json::Value P;
    P["thr"] = arr(std::vector<std::vector<int>>{ { 1, 4 }, { 0, 1 }, { 1, 1 }, { 1, 2 }, { -1, 4 } }[static_cast<std::size_t>(g.in(0, 4))]);
    P["shrink"] = arr(threehalf || g.chance(60) ? std::vector<int>{ 1, 2 } : std::vector<int>{ 1, 4 });
    P["expand"] = arr(threehalf ? std::vector<int>{ 3, 2 } : g.chance(70) ? std::vector<int>{ 2, 1 } : std::vector<int>{ 1, 1 });
    P["frac"] = frac ? arr(std::vector<std::vector<int>>{ { 1, 4 }, { 1, 8 }, { 0, 1 } }[static_cast<std::size_t>(g.in(0, 2))]) : Json::Value(Json::arrayValue);
    P["minbox"] = 1 << g.in(2, 4);
    P["box0"] = 1 << g.in(g.chance(8) ? 1 : 4, 6);
    P["minimp"] = g.in(-2, 3);
    P["maxit"] = threehalf ? g.in(1, 3) : g.in(1, 6);
    P["tol"] = g.in(1, 4);
    P["maxinc"] = threehalf ? g.in(0, 2) : g.in(g.chance(10) ? 0 : 1, 4);
    P["maxfail"] = g.in(0, 3);
    P["ratio"] = g.in(2, 3);
    P["maxtime"] = g.chance(70) ? 1000 : g.in(g.chance(20) ? -1 : 0, 4);
    P["coef0"] = g.in(1, 4);
    P["indiv"] = g.chance(60);
    r["P"] = P;
    r["init"] = g.chance(50);
    r["keepbox"] = g.chance(50);
    r["wrong"] = g.chance(10);
    r["log"] = g.chance(6) ? g.in(1, 2) : 0;
    r["loud"] = g.chance(3);
    startPoint(r, s, g);
    std::vector<int> c, v;
    for (std::size_t i = 0; i < nc; ++i)
      c.push_back(g.in(0, 16));
    for (std::size_t i = 0; i < nv; ++i)
      v.push_back(g.chance(25) ? 0 : g.in(0, 12));
    r["c"] = arr(c);
    r["v"] = arr(v);
    r["steps"] = Json::Value(Json::arrayValue);
    s["runs"].append(r);
  }
  return s;
}
// a run of the specification in a problem made up around it
static Json::Value scripted(const Json::Value& q, Rng& g)
{
  Json::Value s;
  problem(s, g, q["c"].size(), q["v"].size());
  s["fail"] = 20;
  s["neg"] = false;
  Json::Value r;
  r["P"] = q["P"];
  r["init"] = true;
  r["keepbox"] = false;
  r["wrong"] = false;
  r["log"] = 0;
  r["loud"] = false;
  startPoint(r, s, g);
  r["c"] = q["c"];
  r["v"] = q["v"];
  r["steps"] = q["steps"];
  s["runs"].append(r);
  return s;
}

int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc == 5)
  {
    out.open(argv[4]);
    scratch = std::string(argv[4]) + ".d";
    Rng g(std::strtoul(argv[3], nullptr, 10));
    for (const auto& s : readScenarios(argv[2]))
      World w(scripted(s, g), g);
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    out.open(argv[4]);
    scratch = std::string(argv[4]) + ".d";
    if (std::system(("mkdir -p '" + scratch + "'").c_str()) != 0)
      return 3;
    const unsigned long seed = std::strtoul(argv[2], nullptr, 10);
    const long runs = std::strtol(argv[3], nullptr, 10);
    for (long i = 0; i < runs; ++i)
    {
      Rng g(seed * 1000003UL + static_cast<unsigned long>(i));
      World w(randomScenario(g), g);
    }
    return 0;
  }
  std::cerr << "usage: legacy_driver replay SCN SEED OUT | random SEED N OUT\n";
  return 3;
}
