// C10: joint finite-difference terms. joint_driver replay SCN SEED OUT | random SEED N OUT
#include "json_out.h"
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
using namespace vd;
using namespace trajopt_ifopt;
static Out out;
using VI = std::vector<int>;
static double lim(int v) { return v >= INF ? HUGE_VAL : v <= -INF ? -HUGE_VAL : v; }
static std::vector<double> lows(const std::vector<Bounds>& v)
{
  std::vector<double> r;
  for (const auto& q : v)
    r.push_back(q.getLower());
  return r;
}
static std::vector<double> ups(const std::vector<Bounds>& v)
{
  std::vector<double> r;
  for (const auto& q : v)
    r.push_back(q.getUpper());
  return r;
}
static Eigen::VectorXd vec(const VI& v)
{
  Eigen::VectorXd r(static_cast<long>(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i)
    r[static_cast<long>(i)] = v[i];
  return r;
}
/// o: order, d joints, n time steps used, gap: entries of other variables before each joint variable
static void session(Rng& g, int o, int d, int n, int gap, bool skips)
{
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::shared_ptr<const Var>> used;
  long dim = 0;
  auto addVar = [&](Node& nd, const std::string& id, int k) {
    std::vector<std::string> names(static_cast<std::size_t>(k), id);
    std::vector<Bounds> b(static_cast<std::size_t>(k), NoBound);
    dim += k;
    return nd.addVar(id, names, Eigen::VectorXd::Zero(k), b);
  };
  for (int i = 0; i < n; ++i)
  {
    while (skips && g.chance(20))
    {
      auto nd = std::make_unique<Node>("other");
      addVar(*nd, "joints", d);
      nodes.push_back(std::move(nd));
    }
    auto nd = std::make_unique<Node>("step");
    if (gap > 0)
      addVar(*nd, "before", gap);
    used.push_back(addVar(*nd, "joints", d));
    if (skips && g.chance(30))
      nd->addVar("time", 1.0);
    if (nd->hasVar("time"))
      ++dim;
    nodes.push_back(std::move(nd));
  }
  auto vars = std::make_shared<NodesVariables>("traj", std::move(nodes));
  VI cols;
  for (const auto& v : used)
    cols.push_back(static_cast<int>(v->getIndex()));

  VI lo(static_cast<std::size_t>(d)), hi(lo), w(lo);
  const bool byTarget = o > 0 || g.chance(30);
  const bool one = g.chance(40);
  for (int k = 0; k < d; ++k)
  {
    lo[k] = g.in(-6, 6);
    hi[k] = lo[k];
    if (!byTarget)
    {
      hi[k] = g.chance(30) ? lo[k] : g.in(lo[k], 8);
      if (g.chance(25))
        lo[k] = -INF;
      if (g.chance(25))
        hi[k] = INF;
    }
    w[k] = one && k > 0 ? w[0] : g.in(1, 9);
  }
  bool split = !byTarget && g.chance(60);
  // no coefficient at all: the constraint chooses one for all rows
  const bool none = !(o == 0 && byTarget) && g.chance(15);
  if (none)
    w.assign(w.size(), 0);
  const Eigen::VectorXd coeff = none ? Eigen::VectorXd() : (one ? Eigen::VectorXd::Constant(1, w[0]) : vec(w));
  std::vector<Bounds> bs;
  for (int k = 0; k < d; ++k)
    bs.emplace_back(lim(lo[k]), lim(hi[k]));
  auto make = [&](const Eigen::VectorXd& c) -> std::shared_ptr<ConstraintSet> {
    switch (o)
    {
      case 0:
        if (byTarget)
          return std::make_shared<JointPosConstraint>(vec(lo), used[0], c, "pos");
        return std::make_shared<JointPosConstraint>(bs, used[0], c, "pos",
                                                    split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
      case 1:
        return std::make_shared<JointVelConstraint>(vec(lo), used, c, "vel");
      case 2:
        return std::make_shared<JointAccelConstraint>(vec(lo), used, c, "acc");
      default:
        return std::make_shared<JointJerkConstraint>(vec(lo), used, c, "jerk");
    }
  };
  auto refuse = [&](const Eigen::VectorXd& c) {
    bool t = false;
    try
    {
      make(c);
    }
    catch (const std::exception&)
    {
      t = true;
    }
    out(Obj().str("e", "bad").b("thrown", t));
  };
  const auto t = make(coeff);
  t->linkWithVariables(vars);
  out(Obj().str("e", "new").raw("t", Obj().i("o", o).i("d", d).iv("ns", cols).iv("lo", lo).iv("hi", hi).iv("w", w).b("split", split).done()));
  if (g.chance(30))
  {
    Eigen::VectorXd c = vec(w);
    c[g.in(0, d - 1)] = g.chance(50) ? 0 : -2;
    refuse(c);
    refuse(Eigen::VectorXd::Ones(d + g.in(1, 2)));
    if (d > 2)
      refuse(Eigen::VectorXd::Ones(d - 1));
  }
  std::shared_ptr<SquaredCost> sq;
  std::shared_ptr<AbsoluteCost> ab;
  VI wt(static_cast<std::size_t>(t->getRows()), 1);
  if (!split)
  {
    if (g.chance(50))
    {
      sq = std::make_shared<SquaredCost>(t);
      ab = std::make_shared<AbsoluteCost>(t);
    }
    else
    {
      for (int& q : wt)
        q = g.in(1, 7);
      sq = std::make_shared<SquaredCost>(t, vec(wt));
      ab = std::make_shared<AbsoluteCost>(t, vec(wt));
    }
    sq->linkWithVariables(vars);
    ab->linkWithVariables(vars);
  }
  Eigen::VectorXd x(dim);
  for (int k = g.in(1, 3); k > 0; --k)
  {
    const int mode = g.in(0, 2);
    for (long i = 0; i < dim; ++i)
      x[i] = mode == 0 ? g.in(-9, 9) : mode == 1 ? g.in(0, 3) * (i % 5) : 4;
    vars->setVariables(x);
    const int upd = t->update();
    const auto b = t->getBounds();
    out(Obj().str("e", "look").dv("x", x).i("n", t->getRows()).i("upd", upd).dv("val", t->getValues()).dv("lo", lows(b)).dv("hi", ups(b))
            .dv("w", t->getCoefficients()).dm("jac", Eigen::MatrixXd(t->getJacobian())));
    if (sq)
    {
      sq->update();
      ab->update();
      const Eigen::MatrixXd js = sq->getJacobian(), ja = ab->getJacobian();
      const bool shape = js.rows() == 1 && ja.rows() == 1 && sq->getRows() == 1 && ab->getRows() == 1 && sq->getValues().size() == 1 && ab->getValues().size() == 1;
      out(Obj().str("e", "cost").dv("x", x).iv("wt", wt).d("sq", sq->getValues()[0]).d("ab", ab->getValues()[0]).dv("dsq", Eigen::VectorXd(js.row(0)))
              .dv("dab", Eigen::VectorXd(ja.row(0))).i("rows", shape ? 1 : 0));
    }
  }
}
int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    for (const auto& s : readScenarios(argv[2]))
      for (int k = 0; k < 3; ++k)
        session(g, s["o"].asInt(), s["d"].asInt(), s["n"].asInt(), s["gap"].asInt(), false);
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    const int cnt = std::atoi(argv[3]);
    out.open(argv[4]);
    static const int least[] = { 1, 2, 4, 6 };
    for (int k = 0; k < cnt; ++k)
    {
      const int o = g.in(0, 3);
      session(g, o, g.in(1, 5), o == 0 ? 1 : least[o] + g.in(0, 5), g.in(0, 2), true);
    }
    return 0;
  }
  return 3;
}
