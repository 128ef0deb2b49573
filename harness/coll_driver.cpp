// C18, C20: collision evaluators and constraints over a world of our own.
// coll_driver replay SCN SEED OUT | random SEED N OUT
// Joint values are multiples of 48, motions are cut into at most four pieces, contact times are quarters of a piece:
// every time is a multiple of 1/48 and every joint value an integer. Distances are odd, margins even.
#include "json_out.h"
#include <map>
#include <memory>
#include <numeric>
#include <tesseract/environment/environment.h>
#include <tesseract/kinematics/joint_group.h>
#include <trajopt_common/collision_types.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
using namespace vd;
using namespace trajopt_ifopt;
namespace tcol = tesseract::collision;
using VI = std::vector<int>;
using VD = Eigen::VectorXd;
using CC = tcol::ContinuousCollisionType;
static Out out;

// links 1..5: the second and the fourth belong to the group, the fifth moves with the environment
static const char* NAME[] = { "", "a", "b", "c", "d", "e" };
static int idOf(const std::string& s)
{
  for (int i = 1; i <= 5; ++i)
    if (s == NAME[i])
      return i;
  return 0;
}
static bool mine(int l) { return l == 2 || l == 4; }

// ------------------------------------------------------------------ kinematics (Collision.tla: Jac, Turns)
static double jacEntry(int l, const VD& q, int r, int c)
{
  return ((l * 7 + r * 3 + c * 5) % 5) - 2 + (static_cast<long>(std::lround(q[c - 1])) / 4) % 3;
}
static int turns(int l, const VD& q)
{
  long s = 0;
  for (long c = 0; c < q.size(); ++c)
    s += std::lround(q[c]) / 4;
  return static_cast<int>((l + s) % 4);
}
static Eigen::Isometry3d pose(int l, const VD& q)
{
  static const double C[] = { 1, 0, -1, 0 }, S[] = { 0, 1, 0, -1 };
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  const int k = turns(l, q);
  t.linear() << C[k], -S[k], 0, S[k], C[k], 0, 0, 0, 1;
  for (long c = 0; c < q.size() && c < 3; ++c)
    t.translation()[c] = q[c];
  return t;
}
static int DOF = 1;
static int VERSION = 0;
struct Group : tesseract::kinematics::JointGroup
{
  Eigen::MatrixXd calcJacobian(const VD& q, const std::string& link) const override
  {
    Eigen::MatrixXd j(6, q.size());
    for (int r = 1; r <= 6; ++r)
      for (int c = 1; c <= q.size(); ++c)
        j(r - 1, c - 1) = jacEntry(idOf(link), q, r, c);
    return j;
  }
  bool isActiveLinkName(const std::string& link) const override { return mine(idOf(link)); }
  std::vector<std::string> getActiveLinkNames() const override { return { "d", "b" }; }
  std::vector<std::string> getJointNames() const override
  {
    static const char* J[] = { "j1", "j2", "j3" };
    return std::vector<std::string>(J, J + DOF);
  }
  void calcFwdKin(tesseract::common::TransformMap& m, const Eigen::Ref<const VD>& q) const override
  {
    m["b"] = pose(2, q);
    m["d"] = pose(4, q);
  }
};

// ------------------------------------------------------------------ the world
struct Piece  // a contact of one piece of the motion, before it is moved to the whole motion
{
  int a, b;
  VI sh;           // shape and subshape of the first link, then of the second
  int d;           // distance
  std::array<VI, 2> p;  // local points
  VI n;            // normal
  VI t;            // time in quarters of the piece
  VI s0, s1;       // what one unit of each joint adds to the distance, at the start and at the end of the piece
};
static unsigned long SEED = 0;
static int DENSITY = 35;
static void mix(unsigned long& h, long v) { h = (h ^ static_cast<unsigned long>(v + 77)) * 0x9E3779B97F4A7C15UL; h ^= h >> 29; }
using Poses = std::map<int, std::pair<VD, VD>>;  // link -> joint values its poses stand for (start and end)
static std::vector<Piece> world(bool cont, const Poses& at, int version)
{
  std::vector<Piece> res;
  for (int a = 1; a <= 5; ++a)
    for (int b = a + 1; b <= 5; ++b)
    {
      if (!mine(a) && !mine(b))
        continue;
      unsigned long h = SEED;
      mix(h, cont);
      mix(h, a * 8 + b);
      for (int l : { a, b })
      {
        if (mine(l))
        {
          const auto& q = at.at(l);
          for (long c = 0; c < q.first.size(); ++c)
          {
            mix(h, std::lround(q.first[c]));
            if (cont)
              mix(h, std::lround(q.second[c]));
          }
        }
        else if (l == 5)
          mix(h, 1000 + version);
      }
      Rng g(h);
      if (!g.chance(DENSITY))
        continue;
      const int cnt = g.chance(50) ? 1 : g.in(2, 3);
      const bool same = g.chance(50);
      VI sh;
      for (int k = 0; k < cnt; ++k)
      {
        Piece p;
        p.a = a;
        p.b = b;
        if (k == 0 || !same)
          sh = { g.in(0, 2), g.in(-1, 1), g.in(0, 2), g.in(-1, 1) };
        p.sh = sh;
        p.d = 2 * g.in(-4, 6) + 1;
        for (auto& x : p.p)
          x = { g.in(-2, 2), g.in(-2, 2), g.in(-2, 2) };
        p.n = { 0, 0, 0 };
        p.n[static_cast<std::size_t>(g.in(0, 2))] = g.chance(50) ? 1 : -1;
        p.t = { 0, 0 };
        for (std::size_t j = 0; j < 2; ++j)
          p.t[j] = g.chance(60) ? 4 * g.in(0, 1) : g.in(1, 3);
        for (int c = 0; c < 3; ++c)
        {
          p.s0.push_back(g.in(-3, 3));
          p.s1.push_back(cont ? g.in(-3, 3) : 0);
        }
        p.s0.resize(static_cast<std::size_t>(DOF));
        p.s1.resize(static_cast<std::size_t>(DOF));
        res.push_back(p);
      }
    }
  return res;
}
static Eigen::Vector3d v3(const VI& v) { return { double(v[0]), double(v[1]), double(v[2]) }; }
static std::string js(const VI& v)
{
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static VI vi(const VD& q)
{
  VI r;
  for (long i = 0; i < q.size(); ++i)
    r.push_back(I(q[i], 1, 1e-9));
  return r;
}
template <class T, class F>
static std::string list(const T& v, F f)
{
  std::string s = "[";
  bool first = true;
  for (const auto& e : v)
  {
    s += (first ? "" : ",") + f(e);
    first = false;
  }
  return s + "]";
}
static std::string jp(const Piece& p)
{
  return Obj().i("a", p.a).i("b", p.b).iv("sh", p.sh).i("d", p.d).iv("pa", p.p[0]).iv("pb", p.p[1]).iv("n", p.n).iv("t", p.t).iv("s0", p.s0).iv("s1", p.s1).done();
}

struct TestLog
{
  bool on{ false };
  std::vector<std::string> tests;
};
static TestLog LOG;
struct Scene  // what both contact managers keep
{
  tesseract::common::CollisionMarginData margins;
  std::vector<std::string> active;
  std::map<std::string, std::pair<Eigen::Isometry3d, Eigen::Isometry3d>> poses;
  void config(const tcol::ContactManagerConfig& c)
  {
    margins = tesseract::common::CollisionMarginData(c.default_margin);
    for (const auto& p : c.pairs)
      margins.setCollisionMargin(p.first.first, p.first.second, p.second);
  }
  bool isActive(const std::string& n) const { return std::find(active.begin(), active.end(), n) != active.end(); }
  void test(tcol::ContactResultMap& res, bool cont, int request) const
  {
    Poses at;
    std::string pos = "[";
    for (int l : { 2, 4 })
    {
      VD q0 = VD::Constant(DOF, -7), q1 = q0;  // a link nobody posed
      const auto it = poses.find(NAME[l]);
      if (it != poses.end())
      {
        q0 = it->second.first.translation().head(DOF);
        q1 = it->second.second.translation().head(DOF);
      }
      at[l] = { q0, q1 };
      pos += std::string(l == 2 ? "" : ",") + Obj().iv("q0", vi(q0)).iv("q1", vi(cont ? q1 : q0)).done();
    }
    int version = -1;
    const auto e = poses.find("e");
    if (e != poses.end())
      version = static_cast<int>(std::lround(e->second.first.translation()[0]));
    const auto contacts = world(cont, at, version);
    if (LOG.on)
      LOG.tests.push_back(Obj().raw("p", pos + "]").i("v", version).i("r", request).done());
    for (const auto& c : contacts)
    {
      if (!isActive(NAME[c.a]) && !isActive(NAME[c.b]))
        continue;
      tcol::ContactResult r;
      const int f = mine(c.a) ? c.a : c.b;
      r.distance = c.d;
      for (int k = 0; k < DOF; ++k)
      {
        r.distance += c.s0[static_cast<std::size_t>(k)] * (at[f].first[k] - std::round(at[f].first[k]));
        if (cont)
          r.distance += c.s1[static_cast<std::size_t>(k)] * (at[f].second[k] - std::round(at[f].second[k]));
      }
      if (r.distance > margins.getMaxCollisionMargin())
        continue;
      for (std::size_t j = 0; j < 2; ++j)
      {
        const int l = j == 0 ? c.a : c.b;
        r.link_names[j] = NAME[l];
        r.shape_id[j] = c.sh[2 * j];
        r.subshape_id[j] = c.sh[2 * j + 1];
        r.nearest_points_local[j] = v3(c.p[j]);
        r.nearest_points[j] = v3(c.p[j]);
        r.transform[j] = r.cc_transform[j] = Eigen::Isometry3d::Identity();
        if (mine(l))
        {
          r.transform[j] = poses.at(NAME[l]).first;
          if (cont)
          {
            r.cc_transform[j] = poses.at(NAME[l]).second;
            r.cc_time[j] = c.t[j] / 4.0;
            r.cc_type[j] = c.t[j] == 0 ? CC::CCType_Time0 : c.t[j] == 4 ? CC::CCType_Time1 : CC::CCType_Between;
          }
        }
      }
      r.normal = v3(c.n);
      tesseract::common::LinkNamesPair key;
      tesseract::common::makeOrderedLinkPair(key, NAME[c.a], NAME[c.b]);
      res.add(key, r);
    }
  }
};
struct Discrete : tcol::DiscreteContactManager
{
  Scene s;
  void setActiveCollisionObjects(const std::vector<std::string>& n) override { s.active = n; }
  void setCollisionObjectsTransform(const std::string& n, const Eigen::Isometry3d& p) override { s.poses[n] = { p, p }; }
  void applyContactManagerConfig(const tcol::ContactManagerConfig& c) override { s.config(c); }
  const tesseract::common::CollisionMarginData& getCollisionMarginData() const override { return s.margins; }
  void incrementCollisionMargin(double d) override { s.margins.incrementMargins(d); }
  void contactTest(tcol::ContactResultMap& r, const tcol::ContactRequest& q) override { s.test(r, false, q.mark); }
};
struct Continuous : tcol::ContinuousContactManager
{
  Scene s;
  void setActiveCollisionObjects(const std::vector<std::string>& n) override { s.active = n; }
  void setCollisionObjectsTransform(const std::string& n, const Eigen::Isometry3d& p) override { s.poses[n] = { p, p }; }
  void setCollisionObjectsTransform(const std::string& n, const Eigen::Isometry3d& p, const Eigen::Isometry3d& q) override
  {
    s.poses[n] = { p, q };
  }
  void applyContactManagerConfig(const tcol::ContactManagerConfig& c) override { s.config(c); }
  const tesseract::common::CollisionMarginData& getCollisionMarginData() const override { return s.margins; }
  void incrementCollisionMargin(double d) override { s.margins.incrementMargins(d); }
  void contactTest(tcol::ContactResultMap& r, const tcol::ContactRequest& q) override { s.test(r, true, q.mark); }
};
struct Env : tesseract::environment::Environment
{
  Group g;
  void getLinkTransforms(tesseract::common::TransformMap& m, const std::vector<std::string>& joints, const Eigen::Ref<const VD>& q) const override
  {
    VD v = q;
    if (joints != g.getJointNames())
      v.setConstant(-9);
    g.calcFwdKin(m, v);
    m["e"] = Eigen::Isometry3d::Identity();
    m["e"].translation()[0] = VERSION;
  }
  std::vector<std::string> getActiveLinkNames() const override { return { "e", "d", "b" }; }
  std::unique_ptr<tcol::DiscreteContactManager> getDiscreteContactManager() const override { return std::make_unique<Discrete>(); }
  std::unique_ptr<tcol::ContinuousContactManager> getContinuousContactManager() const override { return std::make_unique<Continuous>(); }
};

// ------------------------------------------------------------------ sessions
static int E(double v) { return v < -1e300 ? -INF : I(v, 1, 1e-9); }
template <class F>
static int orNone(F f)
{
  try
  {
    return E(f());
  }
  catch (const std::exception&)
  {
    return -INF;
  }
}
/// number of pieces: the least that are no longer than lvs
static int pieces(const VD& q0, const VD& q1, int lvs)
{
  const long n2 = std::lround((q1 - q0).squaredNorm());
  int n = 1;
  while (static_cast<long>(n) * lvs * n * lvs < n2)
    ++n;
  return n;
}
struct Cfg
{
  std::string kind;  // E (evaluator), C (constraint), CD, CN
  int ev{ 0 };       // 1 DISCRETE 2 LVS_DISCRETE 3 CONTINUOUS 4 LVS_CONTINUOUS
  int dof{ 1 }, maxc{ 1 }, lvs{ 49 }, buf{ 0 }, dm{ 0 }, dc{ 1 }, nodes{ 2 }, at{ 0 }, gap{ 0 };
  bool f0{ false }, f1{ false }, sp{ false }, dyn{ false };
  std::vector<VI> pm, pc;
};
static void session(Rng& g, const Cfg& c, const std::vector<VI>& ops)
{
  DOF = c.dof;
  VERSION = 1;
  static const tcol::CollisionEvaluatorType T[] = { tcol::CollisionEvaluatorType::NONE, tcol::CollisionEvaluatorType::DISCRETE,
                                                    tcol::CollisionEvaluatorType::LVS_DISCRETE, tcol::CollisionEvaluatorType::CONTINUOUS,
                                                    tcol::CollisionEvaluatorType::LVS_CONTINUOUS };
  tcol::ContactRequest req;
  req.mark = g.in(1, 99);
  trajopt_common::TrajOptCollisionConfig cfg(c.dm, c.dc, req, T[c.ev], c.lvs);
  if (g.chance(30))
  {
    cfg.collision_coeff_data.setDefaultCollisionCoeff(99);
    cfg.collision_coeff_data.setDefaultCollisionCoeff(c.dc);
  }
  cfg.collision_margin_buffer = c.buf;
  for (const auto& m : c.pm)
    cfg.contact_manager_config.pairs[std::minmax<std::string>(NAME[m[0]], NAME[m[1]])] = m[2];
  for (const auto& m : c.pc)
    cfg.collision_coeff_data.setCollisionCoeff(NAME[m[0]], NAME[m[1]], m[2]);
  auto group = std::make_shared<Group>();
  auto env = std::make_shared<Env>();
  std::shared_ptr<DiscreteCollisionEvaluator> de;
  std::shared_ptr<ContinuousCollisionEvaluator> ce;
  if (c.ev == 1)
    de = std::make_shared<SingleTimestepCollisionEvaluator>(group, env, cfg, c.dyn);
  else if (c.ev == 2)
    ce = std::make_shared<LVSDiscreteCollisionEvaluator>(group, env, cfg, c.dyn);
  else
    ce = std::make_shared<LVSContinuousCollisionEvaluator>(group, env, cfg, c.dyn);

  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::shared_ptr<const Var>> pos;
  for (int i = 0; i < c.nodes; ++i)
  {
    auto nd = std::make_unique<Node>("n");
    if (c.gap > 0)
      nd->addVar("pre", std::vector<std::string>(static_cast<std::size_t>(c.gap), "x"), VD::Zero(c.gap),
                 std::vector<Bounds>(static_cast<std::size_t>(c.gap), NoBound));
    pos.push_back(nd->addVar("q", std::vector<std::string>(static_cast<std::size_t>(c.dof), "q"), VD::Zero(c.dof),
                             std::vector<Bounds>(static_cast<std::size_t>(c.dof), NoBound)));
    nodes.push_back(std::move(nd));
  }
  auto vars = std::make_shared<NodesVariables>("traj", std::move(nodes));
  const auto p0 = pos[static_cast<std::size_t>(c.at)], p1 = pos[static_cast<std::size_t>(de ? c.at : c.at + 1)];
  std::shared_ptr<ConstraintSet> con;
  const std::array<std::shared_ptr<const Var>, 2> pp{ p0, p1 };
  if (c.kind == "C")
  {
    if (de)
      con = std::make_shared<DiscreteCollisionConstraint>(de, p0, c.maxc, c.sp);
    else
      con = std::make_shared<ContinuousCollisionConstraint>(ce, pp, c.f0, c.f1, c.maxc, c.sp);
  }
  else if (c.kind == "CD")
  {
    if (de)
      con = std::make_shared<DiscreteCollisionConstraintD>(de, p0);
    else
      con = std::make_shared<ContinuousCollisionConstraintD>(ce, pp, c.f0, c.f1);
  }
  else if (c.kind == "CN")
  {
    if (de)
      con = std::make_shared<DiscreteCollisionNumericalConstraint>(de, p0, c.maxc, c.sp);
    else
      con = std::make_shared<ContinuousCollisionNumericalConstraint>(ce, pp, c.f0, c.f1, c.maxc, c.sp);
  }
  if (con)
    con->linkWithVariables(vars);
  {
    auto f = [](const VI& v) { return js(v); };
    out(Obj().str("e", "new").str("kind", c.kind).i("ev", c.ev).i("dof", c.dof).i("maxc", c.maxc).i("lvs", c.lvs).i("buf", c.buf).i("dm", c.dm)
            .i("dc", c.dc).b("f0", c.f0).b("f1", c.f1).b("sp", c.sp).b("dyn", c.dyn).i("req", req.mark).raw("pm", list(c.pm, f)).raw("pc", list(c.pc, f))
            .iv("cols", VI{ static_cast<int>(p0->getIndex()), static_cast<int>(p1->getIndex()) }).i("nv", vars->getRows()));
  }
  VD x = VD::Zero(vars->getRows());
  vars->setVariables(x);
  trajopt_common::CollisionCacheData data;
  for (const auto& op : ops)
  {
    if (op[0] == 1)  // the environment moves
    {
      ++VERSION;
      continue;
    }
    if (op[0] == 0)  // new joint values of one waypoint
    {
      for (int k = 0; k < c.dof; ++k)
        x[pos[static_cast<std::size_t>(op[1])]->getIndex() + k] = 48 * op[static_cast<std::size_t>(2 + k)];
      for (int i = 0; i < c.nodes && c.gap > 0; ++i)
        if (op[1] == i && g.chance(20))
          x[pos[static_cast<std::size_t>(i)]->getIndex() - 1] += 1;
      vars->setVariables(x);
      continue;
    }
    const VD q0 = p0->value(), q1 = p1->value();
    // what the world holds along the motion, piece by piece
    const bool cont = c.ev >= 3;
    const int n = c.ev == 1 || c.ev == 3 ? 1 : pieces(q0, q1, c.lvs);
    std::string w = "[";
    for (int i = 0; i < (c.ev == 2 ? n + 1 : n); ++i)
    {
      const VD s = q0 + (q1 - q0) * i / n, e = cont ? VD(q0 + (q1 - q0) * (i + 1) / n) : s;
      Poses at{ { 2, { s, e } }, { 4, { s, e } } };
      w += (i ? "," : "") + list(world(cont, at, c.dyn ? VERSION : -1), jp);
    }
    w += "]";
    Obj o;
    o.str("e", con ? "con" : "eval").iv("q0", vi(q0)).iv("q1", vi(q1)).i("v", c.dyn ? VERSION : -1).raw("w", w);
    if (!con)
    {
      LOG.tests.clear();
      LOG.on = true;
      std::string over = "[";
      bool firstOver = true;
      tcol::ContactResultMap::hook = [&](long idx, long last, double dt, bool disc) {
        over += std::string(firstOver ? "" : ",") + Obj().i("i", idx).i("l", last).d("dt", 1 / dt, 1, 1e-9).b("d", disc).done();
        firstOver = false;
      };
      const auto want = static_cast<std::size_t>(g.chance(15) ? 0 : c.maxc);
      if (de)
        de->calcCollisions(data, q0, want);
      else
        ce->calcCollisionData(data, q0, q1, c.f0, c.f1, want);
      LOG.on = false;
      tcol::ContactResultMap::hook = nullptr;
      std::string kept = "[";
      bool first = true;
      for (const auto& pr : data.contact_results_map)
        for (const auto& r : pr.second)
        {
          VI t, ty;
          for (std::size_t j = 0; j < 2; ++j)
          {
            ty.push_back(static_cast<int>(r.cc_type[j]));
            t.push_back(r.cc_type[j] == CC::CCType_None ? 0 : I(r.cc_time[j], 48, 1e-9));
          }
          kept += (first ? "" : ",") + Obj().i("a", idOf(pr.first.first)).i("b", idOf(pr.first.second)).d("d", r.distance)
                      .iv("sh", VI{ r.shape_id[0], r.subshape_id[0], r.shape_id[1], r.subshape_id[1] }).iv("t", t).iv("ty", ty).done();
          first = false;
        }
      std::string sets = "[";
      first = true;
      for (const auto& s : data.gradient_results_sets)
      {
        VI er;
        for (const auto& r : s.results)
          er.push_back(E(r.error));
        std::sort(er.begin(), er.end());
        sets += (first ? "" : ",") + Obj().i("a", idOf(s.key.first)).i("b", idOf(s.key.second)).d("c", s.coeff).b("cc", s.is_continuous).iv("er", er)
                    .iv("m", VI{ orNone([&] { return s.getMaxError(); }), orNone([&] { return s.getMaxErrorT0(); }), orNone([&] { return s.getMaxErrorT1(); }),
                                 orNone([&] { return s.getMaxErrorWithBuffer(); }), orNone([&] { return s.getMaxErrorWithBufferT0(); }),
                                 orNone([&] { return s.getMaxErrorWithBufferT1(); }) })
                    .iv("lm", VI{ orNone([&] { return s.max_error[0].getMaxError(); }), orNone([&] { return s.max_error[0].getMaxErrorWithBuffer(); }),
                                  orNone([&] { return s.max_error[1].getMaxError(); }), orNone([&] { return s.max_error[1].getMaxErrorWithBuffer(); }) }).done();
        first = false;
      }
      out(o.i("want", static_cast<long>(want)).raw("tests", list(LOG.tests, [](const std::string& s) { return s; })).raw("over", over + "]")
              .raw("kept", kept + "]").raw("sets", sets + "]"));
    }
    else
    {
      const int rows = con->update();
      const auto b = con->getBounds();
      bool above = true;
      for (const auto& bb : b)
        above = above && bb.getLower() <= -1e20 && bb.getUpper() == 0;
      const Jacobian j = con->getJacobian();
      const Eigen::MatrixXd jd = j;
      unsigned long h = 1;  // the sparsity structure
      for (long r = 0; r < j.outerSize(); ++r)
        for (Jacobian::InnerIterator it(j, r); it; ++it)
          mix(h, it.row() * 100 + it.col());
      const long pat = static_cast<long>(h % 1000000007UL);
      std::string jac = "[";
      for (long r = 0; r < jd.rows(); ++r)
      {
        VI v;
        for (long k = 0; k < jd.cols(); ++k)
          v.push_back(std::isfinite(jd(r, k)) && std::fabs(jd(r, k)) < 1e5 ? static_cast<int>(std::lround(jd(r, k) * 1000)) : NANV);
        jac += (r ? "," : "") + js(v);
      }
      out(o.i("rows", rows).i("rows2", con->getRows()).i("nb", static_cast<long>(b.size())).b("neg", above).dv("val", con->getValues(), 1, 1e-9)
              .dv("coef", con->getCoefficients(), 1, 1e-9).raw("jac", jac + "]").i("jr", jd.rows()).i("jc", jd.cols()).i("pat", pat));
    }
  }
}
static Cfg randomCfg(Rng& g, const std::string& kind)
{
  Cfg c;
  c.kind = kind;
  c.ev = g.in(1, 4);
  c.dof = g.in(1, 3);
  c.maxc = g.in(1, 3);
  static const int exact[] = { 48, 96, 144, 49, 60, 1000 }, off[] = { 49, 60, 100, 1000 };
  c.lvs = kind == "CN" ? off[g.in(0, 3)] : exact[g.in(0, 5)];
  c.buf = 2 * g.in(0, 3);
  c.dm = 2 * g.in(0, 4);
  c.dc = g.in(0, 9);
  c.nodes = g.in(2, 4);
  c.at = g.in(0, c.nodes - 2);
  c.gap = g.in(0, 1);
  if (c.ev != 1)
  {
    const int f = g.in(0, 2);
    c.f0 = f == 1;
    c.f1 = f == 2;
  }
  c.sp = g.chance(40);
  c.dyn = g.chance(30);
  for (int k = g.in(0, 3); k > 0; --k)
  {
    int a = g.in(1, 4);
    c.pm.push_back({ a, g.in(a + 1, 5), 2 * g.in(0, 6) });
    if (g.chance(50))
      std::swap(c.pm.back()[0], c.pm.back()[1]);
  }
  for (int k = g.in(0, 5); k > 0; --k)
  {
    int a = g.in(1, 4);
    c.pc.push_back({ a, g.in(a + 1, 5), g.chance(40) ? 0 : g.in(1, 9) });
    if (g.chance(50))
      std::swap(c.pc.back()[0], c.pc.back()[1]);
  }
  // a later margin of the same pair replaces the earlier one
  return c;
}
static VI setOp(Rng& g, const Cfg& c, int node, int state)
{
  // grid of joint values: no two farther apart than four pieces of the shortest length
  VI v{ 0, node };
  if (state < 0)
    state = g.in(0, 23);
  v.push_back(state % 4);
  v.push_back(state / 4 % 3);
  v.push_back(state / 12 % 2);
  v.resize(static_cast<std::size_t>(2 + c.dof));
  return v;
}
int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  static const char* kinds[] = { "E", "C", "CD", "CN" };
  const char* only = std::getenv("VD_KIND");
  if (mode == "replay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    for (const auto& s : readScenarios(argv[2]))
    {
      const auto& h = s["h"];
      Cfg c = randomCfg(g, only != nullptr && only[0] == 'E' ? "E" : kinds[g.in(1, 3)]);
      c.nodes = 2;
      c.at = 0;
      c.dyn = c.dyn && c.kind == "E";
      SEED = g.g();
      DENSITY = g.in(15, 60);
      std::vector<VI> ops;
      const int states[] = { g.in(0, 23), g.in(0, 23), g.in(0, 23), g.in(0, 23), g.in(0, 23) };
      for (const auto& op : h)
      {
        if (op["op"].asString() == "look")
          ops.push_back({ 2 });
        else
          ops.push_back(setOp(g, c, op["n"].asInt() - 1, states[op["s"].asInt() % 5]));
      }
      session(g, c, ops);
    }
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    const int cnt = std::atoi(argv[3]);
    out.open(argv[4]);
    for (int k = 0; k < cnt; ++k)
    {
      Cfg c = randomCfg(g, only != nullptr && only[0] == 'E' ? "E" : kinds[g.in(1, 3)]);
      c.dyn = c.dyn && c.kind == "E";
      SEED = g.g();
      DENSITY = g.chance(15) ? 100 : g.in(10, 60);
      std::vector<VI> ops;
      for (int i = 0; i < c.nodes; ++i)
        ops.push_back(setOp(g, c, i, -1));
      ops.push_back({ 2 });
      for (int i = g.in(2, 8); i > 0; --i)
      {
        if (c.dyn && g.chance(30))
          ops.push_back({ 1 });
        if (g.chance(75))
          ops.push_back(setOp(g, c, g.in(0, c.nodes - 1), g.chance(60) ? g.in(0, 3) : -1));
        ops.push_back({ 2 });
      }
      session(g, c, ops);
    }
    return 0;
  }
  return 3;
}
