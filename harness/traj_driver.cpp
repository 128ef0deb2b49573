// C21: joint terms of trajopt, arrays of variables. traj_driver replay SCN SEED OUT | random SEED N OUT
#include "mock_model.hpp"
#include <trajopt/trajectory_costs.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
using namespace vd;
using namespace sco;
using namespace trajopt;
static Out out;
static std::shared_ptr<MockModel> model;
namespace sco
{
Model::Ptr createBPMPDModel() { return model = std::make_shared<MockModel>(); }
}  // namespace sco

static Eigen::VectorXd vec(const Json::Value& a)
{
  Eigen::VectorXd v(a.size());
  for (unsigned i = 0; i < a.size(); ++i)
    v[i] = a[i].asDouble();
  return v;
}
static std::string text(const Json::Value& v)
{
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  return Json::writeString(b, v);
}
template <class V>
static std::string list(const V& v)
{
  std::string s = "[";
  for (const auto& e : v)
    s += (s.size() > 1 ? "," : "") + std::to_string(e);
  return s + "]";
}

struct Run
{
  Rng& g;
  Json::Value s;
  std::shared_ptr<OptProb> prob;
  std::vector<VarArray> arr;
  Cost::Ptr cost;
  Constraint::Ptr cnt;
  const double tol{ 1e-6 };

  Run(const Json::Value& scn, Rng& r) : g(r), s(scn)
  {
    prob = std::make_shared<OptProb>(ModelType::BPMPD);
    const int n0 = s["n0"].asInt(), rows = s["r"].asInt();
    std::vector<std::string> pre;
    for (int i = 0; i < n0; ++i)
      pre.push_back("p" + std::to_string(i));
    if (n0 > 0)
      prob->createVariables(pre);
    std::vector<int> cols;
    std::vector<std::string> names;
    for (const auto& c : s["cols"])
    {
      cols.push_back(c.asInt());
      names.push_back(std::string(1, static_cast<char>('a' + names.size())));
    }
    arr.resize(cols.size());
    std::vector<VarArray*> ps;
    for (auto& a : arr)
      ps.push_back(&a);
    if (cols.size() == 1 && g.chance(60))
      AddVarArray(*prob, rows, cols[0], names[0], arr[0]);
    else
      AddVarArrays(*prob, rows, cols, names, ps);
    std::string idx = "[", nm = "[", lb;
    for (std::size_t k = 0; k < arr.size(); ++k)
    {
      idx += k ? ",[" : "[";
      for (int i = 0; i < arr[k].rows(); ++i)
      {
        idx += i ? ",[" : "[";
        for (int j = 0; j < arr[k].cols(); ++j)
          idx += (j ? "," : "") + std::to_string(model->uid(arr[k](i, j)));
        idx += "]";
      }
      idx += "]";
    }
    for (const auto& v : prob->getVars())
      nm += (nm.size() > 1 ? ",\"" : "\"") + v.var_rep->name + "\"";
    bool threw = false;
    try
    {
      make();
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    std::string own = "[";
    if (!threw)
      for (const auto& v : cost ? cost->getVars() : cnt->getVars())
        own += (own.size() > 1 ? "," : "") + std::to_string(model->uid(v));
    out(Obj().str("e", "new").raw("t", text(s)).raw("idx", idx + "]").raw("names", nm + "]").b("threw", threw).raw("own", own + "]"));
    if (threw)
      return;
    for (int k = 0; k < s["looks"].asInt(); ++k)
      look();
  }
  template <class C>
  std::shared_ptr<C> eq(const VarArray& a)
  {
    return std::make_shared<C>(a, vec(s["co"]), vec(s["ta"]), s["f"].asInt(), s["l"].asInt());
  }
  template <class C>
  std::shared_ptr<C> ineq(const VarArray& a)
  {
    return std::make_shared<C>(a, vec(s["co"]), vec(s["ta"]), vec(s["up"]), vec(s["lo"]), s["f"].asInt(), s["l"].asInt());
  }
  void make()
  {
    const VarArray& a = arr[static_cast<std::size_t>(s["k"].asInt() - 1)];
    const int what = s["o"].asInt() * 4 + (s["eq"].asBool() ? 0 : 2) + (s["cost"].asBool() ? 0 : 1);
    switch (what)
    {
      case 0: cost = eq<JointPosEqCost>(a); break;
      case 1: cnt = eq<JointPosEqConstraint>(a); break;
      case 2: cost = ineq<JointPosIneqCost>(a); break;
      case 3: cnt = ineq<JointPosIneqConstraint>(a); break;
      case 4: cost = eq<JointVelEqCost>(a); break;
      case 5: cnt = eq<JointVelEqConstraint>(a); break;
      case 6: cost = ineq<JointVelIneqCost>(a); break;
      case 7: cnt = ineq<JointVelIneqConstraint>(a); break;
      case 8: cost = eq<JointAccEqCost>(a); break;
      case 9: cnt = eq<JointAccEqConstraint>(a); break;
      case 10: cost = ineq<JointAccIneqCost>(a); break;
      case 11: cnt = ineq<JointAccIneqConstraint>(a); break;
      case 12: cost = eq<JointJerkEqCost>(a); break;
      case 13: cnt = eq<JointJerkEqConstraint>(a); break;
      case 14: cost = ineq<JointJerkIneqCost>(a); break;
      default: cnt = ineq<JointJerkIneqConstraint>(a); break;
    }
  }
  DblVec point()
  {
    DblVec x;
    const int c = g.in(0, 3);  // calm points too: constant or linear motions
    for (int i = 0; i < prob->getNumVars(); ++i)
      x.push_back(c == 0 ? 1 : c == 1 ? i : g.in(-5, 5));
    return x;
  }
  void look()
  {
    const DblVec x0 = point(), x = point();
    Obj o;
    o.str("e", "look").dv("x", x);
    if (cost)
    {
      o.d("val", cost->value(x));
      const auto c = cost->convex(x0, model.get());
      c->addConstraintsToModel();
      o.raw("obj", Obj().i("c", I(c->quad_.affexpr.constant, 1, tol)).raw("a", model->aff(c->quad_.affexpr, 1, tol)).raw("q", model->quad(c->quad_, 1, tol)).done());
      o.raw("rows", model->rows(1, tol)).raw("bnd", model->bounds(1, 0));
    }
    else
    {
      o.dv("viol", cnt->violations(x)).d("tot", cnt->violation(x));
      const auto c = cnt->convex(x0, model.get());
      c->addConstraintsToModel();
      o.raw("rows", model->rows(1, tol)).raw("bnd", model->bounds(1, 0)).b("iseq", cnt->type() == EQ).dv("cviol", c->violations(x));
    }
    o.i("left", static_cast<long>(model->vars.size()) - prob->getNumVars() + static_cast<long>(model->cnts.size())).i("foreign", model->foreign);
    out(o);
  }
};

/// arrays of variables, as tables of numbers
static void arrays(Rng& g)
{
  const int r = g.in(1, 5), c = g.in(1, 4);
  std::vector<int> data;
  for (int i = 0; i < r * c; ++i)
    data.push_back(g.in(-9, 9));
  trajopt_common::BasicArray<int> a(r, c, data.data());
  auto table = [](const trajopt_common::BasicArray<int>& b) {
    std::string t = "[";
    for (int i = 0; i < b.rows(); ++i)
    {
      t += i ? ",[" : "[";
      for (int j = 0; j < b.cols(); ++j)
        t += (j ? "," : "") + std::to_string(b(i, j));
      t += "]";
    }
    return t + "]";
  };
  const int i = g.in(0, r - 1), n = g.in(1, r - i), j = g.in(0, c - 1), m = g.in(1, c - j);
  Obj o;
  o.str("e", "array").raw("a", table(a)).i("i", i).i("n", n).i("j", j).i("m", m);
  o.raw("block", table(a.block(i, j, n, m))).raw("rblock", list(a.rblock(i, j, m))).raw("cblock", list(a.cblock(i, j, n)));
  auto guarded = [&](const std::function<std::string()>& f) {
    try
    {
      return f();
    }
    catch (const std::exception&)
    {
      return std::string("[[7777]]");
    }
  };
  o.raw("mid", guarded([&] { return table(a.middleRows(i, n)); })).raw("top", guarded([&] { return table(a.topRows(n)); })).raw("bot", guarded([&] { return table(a.bottomRows(n)); }));
  o.raw("row", list(a.row(i))).raw("col", list(a.col(j))).raw("flat", list(a.flatten()));
  // trajectories and vectors
  TrajArray t(r, c);
  for (int p = 0; p < r; ++p)
    for (int q = 0; q < c; ++q)
      t(p, q) = a(p, q);
  o.dv("tv", trajToDblVec(t));
  // expressions
  OptProb prob(ModelType::BPMPD);
  std::vector<std::string> names;
  for (int k = 0; k < 3; ++k)
    names.push_back("v" + std::to_string(k));
  prob.createVariables(names);
  const VarVector vs = prob.getVars();
  AffArray e;
  e.resize(r, c);
  std::string spec = "[";
  for (int p = 0; p < r; ++p)
  {
    spec += p ? ",[" : "[";
    for (int q = 0; q < c; ++q)
    {
      const int c0 = g.in(-3, 3), k = g.in(0, 2), w = g.in(-3, 3);
      AffExpr x(static_cast<double>(c0));
      exprInc(x, exprMult(vs[static_cast<std::size_t>(k)], w));
      e(p, q) = x;
      spec += (q ? "," : "") + ("[" + std::to_string(c0) + "," + std::to_string(k + 1) + "," + std::to_string(w) + "]");
    }
    spec += "]";
  }
  const DblVec x{ double(g.in(-5, 5)), double(g.in(-5, 5)), double(g.in(-5, 5)) };
  const TrajArray et = getTraj(x, e);
  std::string ev = "[";
  for (int p = 0; p < r; ++p)
  {
    ev += p ? ",[" : "[";
    for (int q = 0; q < c; ++q)
      ev += (q ? "," : "") + std::to_string(I(et(p, q), 1, 1e-9));
    ev += "]";
  }
  o.raw("exprs", spec + "]").dv("x", x).raw("ev", ev + "]");
  out(o);
}
static void names(Rng& g)
{
  std::vector<std::string> all{ "j1", "j2", "j3", "j4", "j5" }, sup, sub;
  auto pick = [&](int most) {
    std::vector<std::string> v = all;
    for (std::size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[static_cast<std::size_t>(g.in(0, static_cast<int>(i) - 1))]);
    v.resize(static_cast<std::size_t>(g.in(0, most)));
    return v;
  };
  sup = pick(5);
  sub = pick(4);
  if (!sup.empty() && g.chance(60))  // a real subset, in another order
  {
    sub.clear();
    for (const auto& n : sup)
      if (g.chance(60))
        sub.insert(sub.begin() + g.in(0, static_cast<int>(sub.size())), n);
  }
  auto quoted = [](const std::vector<std::string>& v) {
    std::string t = "[";
    for (const auto& n : v)
      t += (t.size() > 1 ? ",\"" : "\"") + n + "\"";
    return t + "]";
  };
  Eigen::VectorXd sv(sup.size()), bv(sub.size()), got = Eigen::VectorXd::Constant(static_cast<Eigen::Index>(sub.size()), 99),
      upd = Eigen::VectorXd::Constant(static_cast<Eigen::Index>(sup.size()), 99);
  for (auto& v : sv)
    v = g.in(-9, 9);
  for (auto& v : bv)
    v = g.in(10, 20);
  Obj o;
  o.str("e", "names").raw("sup", quoted(sup)).raw("sub", quoted(sub)).dv("sv", sv).dv("bv", bv);
  o.b("super", isSuperset(sub, sup));
  o.b("gok", getSubset(sup, sv, sub, got)).dv("got", got);
  o.b("uok", updateFromSubset(sup, sv, sub, bv, upd)).dv("upd", upd);
  out(o);
}
static Json::Value randomTerm(Rng& g)
{
  Json::Value s;
  s["o"] = g.in(0, 3);
  s["eq"] = g.chance(50);
  s["cost"] = g.chance(50);
  s["n0"] = g.in(0, 2);
  s["r"] = g.in(1, 7);
  s["cols"] = Json::Value(Json::arrayValue);
  for (int k = g.in(1, 2); k > 0; --k)
    s["cols"].append(g.in(1, 3));
  s["k"] = g.in(1, static_cast<int>(s["cols"].size()));
  const int d = s["cols"][s["k"].asInt() - 1].asInt();
  s["f"] = g.in(0, s["r"].asInt() - 1);
  s["l"] = g.in(s["f"].asInt(), s["r"].asInt() - 1);
  if (g.chance(50))
  {
    s["f"] = g.in(0, std::min(1, s["r"].asInt() - 1));
    s["l"] = s["r"].asInt() - 1;
  }
  for (const char* n : { "co", "ta", "up", "lo" })
    s[n] = Json::Value(Json::arrayValue);
  for (int j = 0; j < d; ++j)
  {
    s["co"].append(g.chance(15) ? 0 : g.in(1, 4));
    s["ta"].append(g.in(-3, 3));
    s["up"].append(g.in(0, 3));
    s["lo"].append(-g.in(0, 3));
  }
  s["looks"] = 3;
  return s;
}
int main(int argc, char** argv)
{
  const std::string mode = argv[1];
  if (mode == "replay")
  {
    out.open(argv[4]);
    Rng g(std::atol(argv[3]));
    for (const auto& s : readScenarios(argv[2]))
      Run(s, g);
  }
  else
  {
    out.open(argv[4]);
    Rng g(std::atol(argv[2]));
    const int n = std::atoi(argv[3]);
    for (int i = 0; i < n; ++i)
      if (g.chance(20))
        arrays(g);
      else if (g.chance(20))
        names(g);
      else
        Run(randomTerm(g), g);
  }
  return 0;
}
