// C23: Cartesian terms over a robot of axes and quarter turns. pose_driver replay SCN SEED OUT | random SEED N OUT
#include "json_out.h"
#include <tesseract/kinematics/kinematic_group.h>
#include <tesseract/common/utils.h>
#include <trajopt/kinematic_terms.hpp>
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <memory>
using namespace vd;
using namespace trajopt_ifopt;
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
static Out out;
constexpr double MEGA = 1e6;

static Eigen::Matrix3d turn(int axis, double x)
{
  const double k = std::nearbyint(x);
  const int q = ((static_cast<int>(k) % 4) + 4) % 4;
  const int c = q == 0 ? 1 : q == 2 ? -1 : 0, s = q == 1 ? 1 : q == 3 ? -1 : 0;
  Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
  const int i = axis % 3, j = (axis + 1) % 3;  // axis 1..3: the plane of the other two
  m(i, i) = c;
  m(j, j) = c;
  m(i, j) = -s;
  m(j, i) = s;
  return x == k ? m : Eigen::Matrix3d(m * Eigen::AngleAxisd(x - k, Vector3d::Unit(axis - 1)).toRotationMatrix());
}
static Isometry3d pose(const Json::Value& v)
{
  Isometry3d t = Isometry3d::Identity();
  for (int i = 0; i < 3; ++i)
  {
    t.translation()[i] = v["p"][i].asInt();
    for (int j = 0; j < 3; ++j)
      t.linear()(i, j) = v["R"][i][j].asInt();
  }
  return t;
}
static std::string told(const Isometry3d& t)
{
  std::string r = "[", p = "[";
  for (int i = 0; i < 3; ++i)
  {
    r += i ? ",[" : "[";
    for (int j = 0; j < 3; ++j)
      r += (j ? "," : "") + std::to_string(I(t.linear()(i, j), 1, 1e-9));
    r += "]";
    p += (i ? "," : "") + std::to_string(I(t.translation()[i], 1, 1e-9));
  }
  return "{\"R\":" + r + "],\"p\":" + p + "]}";
}
static std::string text(const Json::Value& v)
{
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  return Json::writeString(b, v);
}
static VectorXd vec(const Json::Value& a)
{
  VectorXd v(a.size());
  for (unsigned i = 0; i < a.size(); ++i)
    v[i] = a[i].asDouble();
  return v;
}

/// The robot of the specification, for values near whole numbers too.
struct Robot : tesseract::kinematics::KinematicGroup
{
  Json::Value w;
  int n;
  std::vector<std::string> joints;
  mutable std::string asked;
  tesseract::kinematics::IKSolutions sols;
  explicit Robot(const Json::Value& v) : w(v), n(static_cast<int>(v["j"].size()))
  {
    for (int i = 0; i < n; ++i)
      joints.push_back("j" + std::to_string(i + 1));
  }
  std::string name(int link) const { return link < 0 ? "ghost" : link == 0 ? "base" : link > n ? "fix" : "l" + std::to_string(link); }
  int link(const std::string& s) const
  {
    for (int i = 0; i <= n + 1; ++i)
      if (name(i) == s)
        return i;
    return -1;
  }
  std::vector<Isometry3d> poses(const VectorXd& q) const
  {
    std::vector<Isometry3d> p{ Isometry3d::Identity() };
    for (int i = 0; i < n; ++i)
    {
      const auto& j = w["j"][i];
      Isometry3d m = Isometry3d::Identity();
      if (j["rev"].asBool())
        m.linear() = turn(j["ax"].asInt(), q[i]);
      else
        m.translation()[j["ax"].asInt() - 1] = q[i];
      p.push_back(p[j["par"].asUInt()] * pose(j) * m);
    }
    p.push_back(pose(w["fix"]));
    return p;
  }
  bool above(int joint, int link) const
  {
    while (link > 0 && link <= n)
    {
      if (link == joint)
        return true;
      link = w["j"][link - 1]["par"].asInt();
    }
    return false;
  }
  MatrixXd jac(const VectorXd& q, const std::string& name, const Vector3d& point) const
  {
    const auto p = poses(q);
    const int l = link(name);
    MatrixXd r = MatrixXd::Zero(6, n);
    const Vector3d c = p.at(static_cast<std::size_t>(l)) * point;
    for (int i = 0; i < n; ++i)
    {
      if (!above(i + 1, l))
        continue;
      const auto& j = w["j"][i];
      const Isometry3d b = p[j["par"].asUInt()] * pose(j);
      const Vector3d a = b.linear().col(j["ax"].asInt() - 1);
      if (j["rev"].asBool())
        r.col(i) << a.cross(c - b.translation()), a;
      else
        r.col(i) << a, Vector3d::Zero();
    }
    return r;
  }
  Eigen::Index numJoints() const override { return n; }
  std::vector<std::string> getJointNames() const override { return joints; }
  bool hasLinkName(const std::string& s) const override { return link(s) >= 0; }
  bool isActiveLinkName(const std::string& s) const override { return link(s) > 0 && link(s) <= n; }
  std::string getBaseLinkName() const override { return "base"; }
  MatrixXd calcJacobian(const VectorXd& q, const std::string& l) const override { return jac(q, l, Vector3d::Zero()); }
  MatrixXd calcJacobian(const VectorXd& q, const std::string& l, const Vector3d& p) const override { return jac(q, l, p); }
  MatrixXd calcJacobian(const VectorXd& q, const std::string& b, const std::string& l) const override { return b == "base" ? jac(q, l, Vector3d::Zero()) : MatrixXd(); }
  MatrixXd calcJacobian(const VectorXd& q, const std::string& b, const std::string& l, const Vector3d& p) const override
  {
    return b == "base" ? jac(q, l, p) : MatrixXd();
  }
  void calcFwdKin(tesseract::common::TransformMap& m, const Eigen::Ref<const VectorXd>& q) const override
  {
    const auto p = poses(q);
    for (int i = 0; i <= n + 1; ++i)
      m[name(i)] = p[static_cast<std::size_t>(i)];
  }
  tesseract::kinematics::IKSolutions calcInvKin(const tesseract::kinematics::KinGroupIKInputs& in, const Eigen::Ref<const VectorXd>& seed) const override
  {
    asked = "[";
    for (const auto& k : in)
    {
      Obj o;
      o.raw("pose", told(k.pose)).str("frame", k.working_frame).i("tip", link(k.tip_link_name)).dv("seed", VectorXd(seed));
      asked += (asked.size() > 1 ? "," : "") + o.done();
    }
    asked += "]";
    return sols;
  }
};

struct Run
{
  Rng& g;
  Json::Value t;
  std::string k;
  std::shared_ptr<Robot> robot;
  std::shared_ptr<NodesVariables> vars;
  std::shared_ptr<const Var> var, seed;
  std::shared_ptr<ConstraintSet> set;
  std::shared_ptr<CartPosConstraint> pos;
  std::shared_ptr<CartLineConstraint> line;
  std::shared_ptr<InverseKinematicsConstraint> ik;
  std::shared_ptr<sco::VectorOfVector> f;
  std::shared_ptr<sco::MatrixOfVector> d;
  int n, before, after;

  Run(const Json::Value& s, Rng& r) : g(r), t(s), k(s["k"].asString())
  {
    robot = std::make_shared<Robot>(t["w"]);
    n = robot->n;
    before = g.in(0, 3);
    after = g.in(0, 3);
    std::vector<std::unique_ptr<Node>> nodes;
    const auto add = [&](const char* id, int dim) {
      auto nd = std::make_unique<Node>(std::string("node ") + id);
      std::vector<std::string> names;
      for (int i = 0; i < dim; ++i)
        names.push_back(id + std::to_string(i));
      auto v = nd->addVar(id, names, VectorXd::Zero(dim), std::vector<Bounds>(static_cast<std::size_t>(dim), NoBound));
      nodes.push_back(std::move(nd));
      return v;
    };
    if (before > 0)
      add("before", before);
    var = add("joints", n);
    if (k == "ik")
    {
      seed = add("seed", n);
      after = n;
    }
    else if (after > 0)
      add("after", after);
    vars = std::make_shared<NodesVariables>("traj", std::move(nodes));
    bool threw = false;
    try
    {
      make();
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    Obj o;
    o.str("e", "new").raw("t", text(t)).b("threw", threw);
    if (!threw && set)
    {
      set->linkWithVariables(vars);
      o.i("rows", set->getRows()).dv("co", set->getCoefficients());
      o.raw("bnd", bounds(set->getBounds()));
    }
    if (!threw && line)
      o.raw("ends", "[" + told(line->getLine().first) + "," + told(line->getLine().second) + "]");
    out(o);
    if (threw)
      return;
    const int looks = t["looks"].asInt();
    for (int i = 0; i < looks; ++i)
    {
      if (i > 0 && pos && g.chance(30))
        aim([&](const Isometry3d& p) { pos->setTargetPose(p); });
      if (i > 0 && ik && g.chance(30))
        aim([&](const Isometry3d& p) { ik->setTargetPose(p); });
      if (i > 0 && (line || ik) && g.chance(20))
        bound();
      look();
    }
  }
  static std::string bounds(const std::vector<Bounds>& b)
  {
    std::string s = "[";
    for (const auto& x : b)
      s += (s.size() > 1 ? ",[" : "[") + std::to_string(I(x.getLower())) + "," + std::to_string(I(x.getUpper())) + "]";
    return s + "]";
  }
  template <class F>
  void aim(F&& f)
  {
    Json::Value p = anyPose(g);
    f(pose(p));
    out(Obj().str("e", "aim").raw("to", text(p)));
  }
  void bound()
  {
    std::vector<Bounds> b;
    for (int i = 0; i < set->getRows(); ++i)
      b.emplace_back(-g.in(0, 3), g.in(0, 3));
    if (line)
      line->setBounds(b);
    else
      ik->setBounds(b);
    out(Obj().str("e", "bnds").raw("put", bounds(b)).raw("got", bounds(set->getBounds())));
  }
  static Json::Value anyPose(Rng& g)
  {
    Json::Value v;
    const Eigen::Matrix3d m = g.chance(30) ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : Eigen::Matrix3d(turn(g.in(1, 3), g.in(0, 3)) * turn(g.in(1, 3), g.in(0, 3)) * turn(g.in(1, 3), g.in(0, 3)));
    for (int i = 0; i < 3; ++i)
    {
      v["p"].append(g.chance(20) ? 0 : g.in(-2, 2));
      for (int j = 0; j < 3; ++j)
        v["R"][i][j] = static_cast<int>(m(i, j));
    }
    return v;
  }
  static double limit(const Json::Value& v) { return v.asInt() >= INF ? double(INFINITY) : v.asInt() <= -INF ? -double(INFINITY) : v.asDouble(); }
  void make()
  {
    const std::string src = robot->name(t["src"].asInt()), tgt = robot->name(t["tgt"].asInt());
    const Isometry3d so = pose(t["so"]), to = pose(t["to"]);
    const bool numeric = t["num"].asBool();
    Eigen::VectorXi idx(t["idx"].size());
    for (unsigned i = 0; i < t["idx"].size(); ++i)
      idx[i] = t["idx"][i].asInt();
    if (k == "pos")
    {
      std::vector<Bounds> b;
      bool plain = t["split"].asBool();
      for (const auto& x : t["bnd"])
      {
        b.emplace_back(limit(x[0]), limit(x[1]));
        plain = plain && x[0] == 0 && x[1] == 0;
      }
      for (const auto& c : t["co"])
        plain = plain && c == 1;
      if (plain && b.size() == 6 && t["co"].size() == 6)
        pos = std::make_shared<CartPosConstraint>(var, robot, src, tgt, so, to);
      else
        pos = std::make_shared<CartPosConstraint>(
            var, vec(t["co"]), b, robot, src, tgt, so, to, "pos", t["split"].asBool() ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
      pos->use_numeric_differentiation = numeric;
      set = pos;
    }
    else if (k == "line")
    {
      line = std::make_shared<CartLineConstraint>(CartLineInfo(robot, src, tgt, to, pose(t["to2"]), so, idx), var, vec(t["co"]));
      line->use_numeric_differentiation = numeric;
      set = line;
    }
    else if (k == "ik")
    {
      ik = std::make_shared<InverseKinematicsConstraint>(to, std::make_shared<InverseKinematicsInfo>(robot, t["frame"].asString(), src), var, seed);
      set = ik;
    }
    else if (k == "cart")
    {
      f = std::make_shared<trajopt::CartPoseErrCalculator>(robot, src, tgt, so, to, idx, vec(t["lo"]), vec(t["up"]));
      d = std::make_shared<trajopt::CartPoseJacCalculator>(robot, src, tgt, so, to, idx, vec(t["lo"]), vec(t["up"]));
    }
    else if (k == "dyn")
    {
      f = std::make_shared<trajopt::DynamicCartPoseErrCalculator>(robot, src, tgt, so, to, idx, vec(t["lo"]), vec(t["up"]));
      d = std::make_shared<trajopt::DynamicCartPoseJacCalculator>(robot, src, tgt, so, to, idx, vec(t["lo"]), vec(t["up"]));
    }
    else
    {
      f = std::make_shared<trajopt::CartVelErrCalculator>(robot, src, t["lim"].asInt(), so);
      d = std::make_shared<trajopt::CartVelJacCalculator>(robot, src, t["lim"].asInt(), so);
    }
  }
  VectorXd point()
  {
    VectorXd q(n);
    for (auto& v : q)
      v = g.chance(20) ? 0 : g.in(-3, 3);
    return q;
  }
  void look()
  {
    Obj o;
    const VectorXd q = point();
    o.str("e", "look").dv("q", q);
    if (set)
    {
      VectorXd x(vars->getRows());
      for (auto& v : x)
        v = g.in(-3, 3);
      if (ik)
      {
        robot->sols.clear();
        std::string all = "[";
        for (int i = g.in(1, 4); i > 0; --i)
        {
          robot->sols.push_back(point());
          all += all.size() > 1 ? ",[" : "[";
          for (int j = 0; j < n; ++j)
            all += (j ? "," : "") + std::to_string(static_cast<int>(robot->sols.back()[j]));
          all += "]";
        }
        o.raw("sols", all + "]");
      }
      const bool direct = !ik && g.chance(30);  // values and slopes at a point that is not the current one
      if (!direct)
        x.segment(before, n) = q;
      vars->setVariables(x);
      if (seed)
        o.dv("seed", seed->value());
      VectorXd val;
      MatrixXd jac;
      if (direct)
      {
        Jacobian j(set->getRows(), vars->getRows());
        val = pos ? pos->calcValues(q) : line->calcValues(q);
        if (pos)
          pos->calcJacobianBlock(j, q);
        else
          line->calcJacobianBlock(j, q);
        jac = j;
        vars->setVariables(VectorXd::Zero(vars->getRows()));
        x.segment(before, n) = q;
        vars->setVariables(x);
      }
      else
      {
        val = set->getValues();
        jac = set->getJacobian();
      }
      const double scale = ik ? 1 : MEGA;
      o.dv("val", val, scale, 0.6).dm("jac", jac, scale, 0.6).i("cols", vars->getRows()).i("at", before + 1);
      if (pos)
        o.raw("cur", told(pos->getCurrentPose())).raw("aim", told(pos->getTargetPose()));
      if (ik)
        o.raw("asked", robot->asked);
    }
    else if (k == "vel")
    {
      const VectorXd q2 = point();
      VectorXd x(2 * n);
      x << q, q2;
      o.dv("q2", q2).dv("val", (*f)(x), MEGA, 0.6).dm("jac", (*d)(x), MEGA, 0.6);
    }
    else
      o.dv("val", (*f)(q), MEGA, 0.6).dm("jac", (*d)(q), MEGA, 0.6).i("cols", n).i("at", 1);
    out(o);
  }
};
static Json::Value randomTerm(Rng& g)
{
  Json::Value s, w;
  const int n = g.in(1, 4);
  for (int i = 1; i <= n; ++i)
  {
    Json::Value j = Run::anyPose(g);
    j["par"] = g.chance(75) ? i - 1 : g.in(0, i - 1);
    j["rev"] = g.chance(60);
    j["ax"] = g.in(1, 3);
    w["j"].append(j);
  }
  w["fix"] = Run::anyPose(g);
  s["w"] = w;
  const char* kinds[] = { "pos", "pos", "line", "line", "cart", "dyn", "vel", "ik" };
  const std::string k = kinds[g.in(0, 7)];
  s["k"] = k;
  s["src"] = g.chance(80) ? n : g.in(1, n);
  s["tgt"] = g.chance(35) ? 0 : g.chance(40) ? n + 1 : g.in(0, n + 1);
  if (k == "pos" && g.chance(30))
    std::swap(s["src"], s["tgt"]);
  if (k == "cart")  // one of the two is at rest
  {
    s["tgt"] = g.chance(50) ? 0 : n + 1;
    if (g.chance(40))
      std::swap(s["src"], s["tgt"]);
  }
  if ((k == "pos" || k == "line") && g.chance(4))
    s[g.chance(50) ? "src" : "tgt"] = -1;
  if (k == "ik" && g.chance(4))
    s["src"] = -1;
  s["so"] = g.chance(20) ? Run::anyPose(g) : Run::anyPose(g);
  s["to"] = Run::anyPose(g);
  s["frame"] = g.chance(50) ? "base" : "fix";
  s["num"] = g.chance(50);
  s["split"] = g.chance(60);
  s["lim"] = g.in(0, 3);
  s["to2"] = Run::anyPose(g);
  if (g.chance(60))
    s["to2"]["R"] = s["to"]["R"];
  while (k == "line" && s["to2"]["p"] == s["to"]["p"] && s["to2"]["R"] != s["to"]["R"])
    s["to2"] = Run::anyPose(g);
  if (g.chance(50))  // along an axis
  {
    const int a = g.in(0, 2);
    for (int i = 0; i < 3; ++i)
      if (i != a)
        s["to2"]["p"][i] = s["to"]["p"][i];
    if (s["to2"]["p"][a] == s["to"]["p"][a])
      s["to2"]["p"][a] = s["to"]["p"][a].asInt() + 1;
  }
  if (g.chance(3))
    s["to2"] = s["to"];
  s["idx"] = s["co"] = s["bnd"] = s["lo"] = s["up"] = Json::Value(Json::arrayValue);
  const bool whole = g.chance(40);
  for (int i = 0; i < 6; ++i)
    if (whole || g.chance(60))
      s["idx"].append(i);
  if (s["idx"].empty() && !(k == "line" && g.chance(5)))
    s["idx"].append(g.in(0, 5));
  if (g.chance(20))  // in another order, or one twice
    s["idx"].append(s["idx"][0]);
  if (s["idx"].size() > 6 && !(k == "line" && g.chance(50)))
    s["idx"].resize(6);
  const int m = k == "pos" ? 6 : static_cast<int>(s["idx"].size());
  for (int i = (k == "pos" || k == "line") && g.chance(3) ? 1 : 0; i < m; ++i)
    s["co"].append(k == "pos" && !whole && g.chance(30) ? 0 : whole ? 1 : g.in(1, 4));
  for (int i = k == "pos" && g.chance(3) ? 1 : 0; i < 6; ++i)
  {
    Json::Value b;
    const int c = whole ? 0 : g.in(0, 4);
    b.append(c == 0 ? 0 : c == 1 ? -INF : -g.in(0, 2));
    b.append(c == 0 ? 0 : c == 2 ? INF : b[0].asInt() == 0 || c == 1 ? g.in(1, 3) : g.in(0, 3));
    s["bnd"].append(b);
  }
  if (g.chance(60))
    for (int i = 0; i < 6; ++i)
    {
      s["lo"].append(whole ? 0 : -g.in(0, 2));
      s["up"].append(whole ? 0 : g.in(0, 2));
    }
  if ((k == "cart" || k == "dyn") && s["lo"].size() == 6 && g.chance(6))
  {
    if (g.chance(50))
      s["lo"].resize(5);
    else
      s["lo"][g.in(0, 5)] = 3;
  }
  s["looks"] = 3;
  return s;
}
int main(int, char** argv)
{
  const std::string mode = argv[1];
  out.open(argv[4]);
  if (mode == "replay")
  {
    Rng g(std::atol(argv[3]));
    for (const auto& s : readScenarios(argv[2]))
      Run(s, g);
    return 0;
  }
  Rng g(std::atol(argv[2]));
  for (int i = std::atoi(argv[3]); i > 0; --i)
    Run(randomTerm(g), g);
  return 0;
}
