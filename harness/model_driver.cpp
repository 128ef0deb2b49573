// C13: convex approximations and their life in a model. model_driver replay SCN SEED OUT | random SEED N OUT
#include "mock_model.hpp"
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
using namespace vd;
using namespace sco;
static Out out;
static std::shared_ptr<MockModel> model;
namespace sco
{
Model::Ptr createBPMPDModel() { return model = std::make_shared<MockModel>(); }
}  // namespace sco

static double num(const Json::Value& v)
{
  const double d = v.asDouble();
  return d >= INF ? INFINITY : d <= -INF ? -INFINITY : d;
}
static DblVec nums(const Json::Value& a)
{
  DblVec o;
  for (const auto& v : a)
    o.push_back(num(v));
  return o;
}
static Eigen::VectorXd vec(const Json::Value& a)
{
  const DblVec d = nums(a);
  return Eigen::Map<const Eigen::VectorXd>(d.data(), static_cast<Eigen::Index>(d.size()));
}
static std::string text(const Json::Value& v)
{
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  return Json::writeString(b, v);
}
static double evalRow(const Json::Value& r, const Eigen::VectorXd& x)
{
  double v = r[0].asDouble();
  for (int i = 0; i < x.size(); ++i)
    v += r[1][i].asDouble() * x[i] + r[2][i].asDouble() * x[i] * x[i];
  if (x.size() >= 2)
    v += r[3].asDouble() * x[0] * x[1];
  return v;
}
static Eigen::RowVectorXd gradRow(const Json::Value& r, const Eigen::VectorXd& x)
{
  Eigen::RowVectorXd g(x.size());
  for (int i = 0; i < x.size(); ++i)
    g[i] = r[1][i].asDouble() + 2 * r[2][i].asDouble() * x[i];
  if (x.size() >= 2)
  {
    g[0] += r[3].asDouble() * x[1];
    g[1] += r[3].asDouble() * x[0];
  }
  return g;
}

struct Run
{
  Rng& g;
  Json::Value s;
  OptProb prob;
  VarVector base;
  std::vector<ConvexObjective::Ptr> costs;       // by id - 1
  std::vector<ConvexConstraints::Ptr> cons;
  const double tol{ 0.05 };

  Run(const Json::Value& scn, Rng& r) : g(r), s(scn), prob(ModelType::BPMPD)
  {
    const int n = s["n"].asInt();
    std::vector<std::string> names;
    for (int i = 0; i < n; ++i)
      names.push_back("x" + std::to_string(i));
    VarVector got;
    if (s["bounded"].asBool())
      got = prob.createVariables(names, nums(s["lo"]), nums(s["hi"]));
    else
      got = prob.createVariables(names);
    base = prob.getVars();
    Obj o;
    o.str("e", "new").i("n", n).b("bounded", s["bounded"].asBool()).raw("lo", text(s["lo"])).raw("hi", text(s["hi"]));
    o.b("same", got.size() == base.size() && std::equal(got.begin(), got.end(), base.begin(), [](const Var& a, const Var& b) {
          return a.var_rep == b.var_rep;
        }));
    o.dv("glo", prob.getLowerBounds()).dv("ghi", prob.getUpperBounds()).i("nv", prob.getNumVars());
    done(o);
    for (const auto& op : s["ops"])
      step(op);
  }
  void done(Obj& o)
  {
    o.raw("bnd", model->bounds(1, 0)).raw("mrows", model->rows(1, tol)).i("foreign", model->foreign);
    out(o);
  }
  VarVector vars(const Json::Value& a)
  {
    VarVector v;
    for (const auto& i : a)
      v.push_back(base[static_cast<std::size_t>(i.asInt() - 1)]);
    return v;
  }
  AffExpr aff(const Json::Value& r)
  {
    AffExpr e;
    e.constant = r[0].asDouble();
    for (unsigned i = 0; i < r[1].size(); ++i)
      if (r[1][i].asDouble() != 0 || g.chance(30))
      {
        // sometimes in two parts
        double c = r[1][i].asDouble();
        if (g.chance(20))
        {
          e.vars.push_back(base[i]);
          e.coeffs.push_back(c - 1);
          c = 1;
        }
        e.vars.push_back(base[i]);
        e.coeffs.push_back(c);
      }
    return e;
  }
  void step(const Json::Value& op)
  {
    const std::string p = op["op"].asString();
    if (p == "build")
      build(op);
    else if (p == "man")
      manual(op);
    else if (p == "add")
    {
      const auto i = static_cast<std::size_t>(op["id"].asInt() - 1);
      if (costs[i])
        costs[i]->addConstraintsToModel();
      else
        cons[i]->addConstraintsToModel();
      Obj o;
      o.str("e", "add").i("id", op["id"].asInt());
      done(o);
    }
    else if (p == "drop")
    {
      const auto i = static_cast<std::size_t>(op["id"].asInt() - 1);
      const bool twice = op["how"].asInt() == 1;  // taken out by hand first, destroyed later
      if (twice && costs[i])
        costs[i]->removeFromModel();
      if (twice && cons[i])
        cons[i]->removeFromModel();
      const bool in = (costs[i] && costs[i]->inModel()) || (cons[i] && cons[i]->inModel());
      costs[i].reset();
      cons[i].reset();
      Obj o;
      o.str("e", "drop").i("id", op["id"].asInt()).b("in", twice && in);
      done(o);
    }
    else if (p == "feas" || p == "central")
    {
      DblVec x = nums(op["x"]);
      for (auto& v : x)
        v /= 1000;
      const int d = op["d"].asInt();
      DblVec y;
      if (p == "central")
        y = prob.getCentralFeasiblePoint(x);
      else if (d == 0)
        y = prob.getClosestFeasiblePoint(x);
      else
        y = prob.getClosestFeasiblePoint(x, d / 1000.0);
      Obj o;
      o.str("e", p.c_str()).raw("x", text(op["x"])).i("d", d == 0 ? 1 : d).dv("y", y, 1000, 1e-6);
      done(o);
    }
    else if (p == "feasqp")
    {
      const int st = op["st"].asInt();
      std::string obj, bnd;
      const DblVec ans = nums(op["y"]);
      model->answer = [&](MockModel& m, DblVec& v) {
        obj = Obj().i("c", I(m.objective.affexpr.constant, 1, 1e-9)).raw("a", m.aff(m.objective.affexpr, 1, 1e-9)).raw("q", m.quad(m.objective, 1, 1e-9)).done();
        bnd = m.bounds(1, 0);
        for (std::size_t i = 0; i < v.size(); ++i)
          v[i] = m.vars[i].uid <= static_cast<int>(ans.size()) ? ans[static_cast<std::size_t>(m.vars[i].uid - 1)] : -77;
        return static_cast<CvxOptStatus>(st);
      };
      bool threw = false;
      DblVec y;
      try
      {
        y = prob.getClosestFeasiblePointQP(nums(op["x"]));
      }
      catch (const std::exception&)
      {
        threw = true;
      }
      Obj o;
      o.str("e", "feasqp").raw("x", text(op["x"])).i("st", st).raw("ans", text(op["y"])).b("threw", threw).raw("obj", obj).raw("qb", bnd).dv("y", y);
      done(o);
    }
    else if (p == "bounds")
    {
      const VarVector vs = vars(op["vars"]);
      const bool all = op["all"].asBool();
      if (all)
      {
        prob.setLowerBounds(nums(op["lo"]));
        prob.setUpperBounds(nums(op["hi"]));
      }
      else
      {
        prob.setUpperBounds(nums(op["hi"]), vs);
        prob.setLowerBounds(nums(op["lo"]), vs);
      }
      Obj o;
      o.str("e", "bounds").b("all", all).raw("vars", text(op["vars"])).raw("lo", text(op["lo"])).raw("hi", text(op["hi"]));
      o.dv("glo", prob.getLowerBounds()).dv("ghi", prob.getUpperBounds());
      done(o);
    }
    else if (p == "lin")
    {
      prob.addLinearConstraint(aff(op["row"]), op["t"].asInt() == 0 ? EQ : INEQ);
      Obj o;
      o.str("e", "lin").raw("row", text(op["row"])).i("t", op["t"].asInt());
      done(o);
    }
    else if (p == "reg")
    {
      const std::string what = op["what"].asString(), name = op["name"].asString();
      auto f = VectorOfVector::construct([](const Eigen::VectorXd& x) { return x; });
      if (what == "cost")
        prob.addCost(std::make_shared<CostFromErrFunc>(f, base, Eigen::VectorXd(), ABS, name));
      else
      {
        auto c = std::make_shared<ConstraintFromErrFunc>(f, base, Eigen::VectorXd(), what == "eq" ? EQ : INEQ, name);
        if (g.chance(50))
          prob.addConstraint(c);
        else if (what == "eq")
          prob.addEqConstraint(c);
        else
          prob.addIneqConstraint(c);
      }
      auto names = [](const auto& l) {
        std::string t = "[";
        for (const auto& e : l)
          t += (t.size() > 1 ? ",\"" : "\"") + e->name() + "\"";
        return t + "]";
      };
      Obj o;
      o.str("e", "reg").str("what", what).str("name", name).raw("costs", names(prob.getCosts())).raw("eqs", names(prob.getEqConstraints()));
      o.raw("ineqs", names(prob.getIneqConstraints())).raw("all", names(prob.getConstraints())).i("nc", prob.getNumCosts()).i("nn", prob.getNumConstraints());
      done(o);
    }
  }
  /// test points: the given one, near it, and random ones
  std::vector<DblVec> points(const Json::Value& x0)
  {
    std::vector<DblVec> ps;
    const int n = s["n"].asInt();
    if (!x0.empty())
      ps.push_back(nums(x0));
    for (int k = 0; k < 3; ++k)
    {
      DblVec p;
      for (int i = 0; i < n; ++i)
        p.push_back(g.in(-4, 4));
      ps.push_back(p);
    }
    return ps;
  }
  static DblVec padded(DblVec p)
  {
    p.resize(model->vars.size(), 0.0);
    return p;
  }
  void see(Obj& o, const ConvexObjective& c, double scale, double t)
  {
    o.raw("obj", Obj().i("c", I(c.quad_.affexpr.constant, scale, t)).raw("a", model->aff(c.quad_.affexpr, scale, t)).raw("q", model->quad(c.quad_, scale, t)).done());
    // its value at an assignment of all live variables
    DblVec all;
    std::vector<int> av;
    for (std::size_t i = 0; i < model->vars.size(); ++i)
    {
      av.push_back(g.in(-4, 4));
      all.push_back(av.back());
    }
    std::string t2 = "[";
    for (std::size_t i = 0; i < av.size(); ++i)
      t2 += std::string(i ? "," : "") + "[" + std::to_string(model->vars[i].uid) + "," + std::to_string(av[i]) + "]";
    o.raw("av", t2 + "]").d("cv", c.value(all), scale, scale > 1 ? t : 0.45);
  }
  void build(const Json::Value& op)
  {
    const std::string kind = op["kind"].asString();
    const VarVector vs = vars(op["vars"]);
    const Json::Value rows = op["rows"];
    const Eigen::VectorXd w = vec(op["w"]);
    const DblVec x0 = padded(nums(op["x0"]));
    const bool num = op["num"].asBool();
    auto f = VectorOfVector::construct([rows](const Eigen::VectorXd& x) {
      Eigen::VectorXd y(rows.size());
      for (unsigned i = 0; i < rows.size(); ++i)
        y[i] = evalRow(rows[i], x);
      return y;
    });
    auto df = MatrixOfVector::construct([rows](const Eigen::VectorXd& x) {
      Eigen::MatrixXd j(rows.size(), x.size());
      for (unsigned i = 0; i < rows.size(); ++i)
        j.row(i) = gradRow(rows[i], x);
      return j;
    });
    const auto ps = points(op["x0"]);
    std::string pt = "[";
    for (const auto& p : ps)
    {
      pt += pt.size() > 1 ? ",[" : "[";
      for (std::size_t i = 0; i < p.size(); ++i)
        pt += (i ? "," : "") + std::to_string(static_cast<int>(p[i]));
      pt += "]";
    }
    Obj o;
    o.str("e", "build").str("kind", kind).i("id", static_cast<long>(costs.size()) + 1).raw("vars", text(op["vars"])).raw("rows", text(rows));
    o.raw("w", text(op["w"])).raw("x0", text(op["x0"])).raw("pts", pt + "]");
    auto lists = [](const std::vector<DblVec>& l, double t) {
      std::string r = "[";
      for (const auto& v : l)
      {
        r += r.size() > 1 ? ",[" : "[";
        for (std::size_t i = 0; i < v.size(); ++i)
          r += (i ? "," : "") + std::to_string(I(v[i], 1, t));
        r += "]";
      }
      return r + "]";
    };
    if (kind == "eq" || kind == "ineq")
    {
      const ConstraintType t = kind == "eq" ? EQ : INEQ;
      std::shared_ptr<Constraint> c = num ? std::make_shared<ConstraintFromErrFunc>(f, vs, w, t, "c") : std::make_shared<ConstraintFromErrFunc>(f, df, vs, w, t, "c");
      std::vector<DblVec> val, viol, cviol;
      DblVec tot, ctot;
      ConvexConstraints::Ptr cc = c->convex(x0, model.get());
      for (const auto& p : ps)
      {
        val.push_back(c->value(padded(p)));
        viol.push_back(c->violations(padded(p)));
        tot.push_back(c->violation(padded(p)));
        cviol.push_back(cc->violations(padded(p)));
        ctot.push_back(cc->violation(padded(p)));
      }
      o.raw("val", lists(val, 0)).raw("viol", lists(viol, 0)).raw("cviol", lists(cviol, tol)).dv("tot", tot).dv("ctot", ctot, 1, 4 * tol);
      o.i("type", c->type() == EQ ? 0 : 1);
      costs.push_back(nullptr);
      cons.push_back(cc);
    }
    else
    {
      const bool second = kind == "fdiag" || kind == "ffull";
      std::shared_ptr<Cost> c;
      if (second)
        c = std::make_shared<CostFromFunc>(ScalarOfVector::construct([rows](const Eigen::VectorXd& x) { return evalRow(rows[0], x); }), vs, "c", kind == "ffull");
      else
      {
        const PenaltyType t = kind == "sq" ? SQUARED : kind == "abs" ? ABS : HINGE;
        c = num ? std::make_shared<CostFromErrFunc>(f, vs, w, t, "c") : std::make_shared<CostFromErrFunc>(f, df, vs, w, t, "c");
      }
      DblVec val;
      for (const auto& p : ps)
        val.push_back(c->value(padded(p)));
      o.dv("val", val);
      ConvexObjective::Ptr cc = c->convex(x0, model.get());
      see(o, *cc, second ? 1000 : 1, second ? 0.5 : tol);
      costs.push_back(cc);
      cons.push_back(nullptr);
    }
    done(o);
  }
  void manual(const Json::Value& op)
  {
    auto c = std::make_shared<ConvexObjective>(model.get());
    for (const auto& call : op["calls"])
    {
      const std::string k = call["c"].asString();
      AffExprVector ev;
      for (const auto& r : call["rows"])
        ev.push_back(aff(r));
      const double coef = call["k"].asDouble();
      if (k == "aff")
        c->addAffExpr(ev[0]);
      else if (k == "sqr")
      {
        QuadExpr q = exprSquare(ev[0]);
        exprScale(q, coef);
        c->addQuadExpr(q);
      }
      else if (k == "hinge")
        c->addHinge(ev[0], coef);
      else if (k == "abs")
        c->addAbs(ev[0], coef);
      else if (k == "hinges")
        c->addHinges(ev);
      else if (k == "l1")
        c->addL1Norm(ev);
      else if (k == "l2")
        c->addL2Norm(ev);
      else
        c->addMax(ev);
    }
    Obj o;
    o.str("e", "man").i("id", static_cast<long>(costs.size()) + 1).raw("calls", text(op["calls"]));
    see(o, *c, 1, tol);
    costs.push_back(c);
    cons.push_back(nullptr);
    done(o);
  }
};

// ---------------------------------------------------------------- random scenarios
static Json::Value ints(Rng& g, int n, int lo, int hi)
{
  Json::Value a(Json::arrayValue);
  for (int i = 0; i < n; ++i)
    a.append(g.in(lo, hi));
  return a;
}
static Json::Value randomScn(Rng& g)
{
  Json::Value s;
  const int n = g.in(1, 3);
  s["n"] = n;
  s["bounded"] = g.chance(80);
  auto bounds = [&](Json::Value& lo, Json::Value& hi, int m) {
    lo = hi = Json::Value(Json::arrayValue);
    for (int i = 0; i < m; ++i)
    {
      const int a = g.in(-3, 3);
      lo.append(g.chance(15) ? -INF : a);
      hi.append(g.chance(15) ? INF : g.chance(15) ? a : a + g.in(1, 4));
    }
  };
  bounds(s["lo"], s["hi"], n);
  int ids = 0;
  std::vector<int> st;  // 1 built 2 added 0 gone
  const int len = g.in(3, 9);
  s["ops"] = Json::Value(Json::arrayValue);
  auto perm = [&](int k) {
    std::vector<int> v;
    for (int i = 1; i <= n; ++i)
      v.push_back(i);
    std::shuffle(v.begin(), v.end(), g.g);
    Json::Value a(Json::arrayValue);
    for (int i = 0; i < k; ++i)
      a.append(v[static_cast<std::size_t>(i)]);
    return a;
  };
  bool fin = true;
  for (const auto& v : s["lo"])
    fin = fin && v.asInt() > -INF;
  for (const auto& v : s["hi"])
    fin = fin && v.asInt() < INF;
  fin = fin && s["bounded"].asBool();
  for (int k = 0; k < len; ++k)
  {
    Json::Value op;
    const int r = g.in(1, 100);
    if (r <= 30 || k == 0)
    {
      static const char* kinds[] = { "sq", "abs", "hinge", "eq", "ineq", "sq", "abs", "hinge", "eq", "ineq", "fdiag", "ffull" };
      const std::string kd = kinds[g.in(0, 11)];
      const bool second = kd[0] == 'f';
      const int m = g.in(1, kd == "ffull" ? std::min(n, 2) : n), nr = second ? 1 : g.in(1, 3);
      op["op"] = "build";
      op["kind"] = kd;
      op["vars"] = perm(m);
      op["rows"] = Json::Value(Json::arrayValue);
      for (int i = 0; i < nr; ++i)
      {
        Json::Value row(Json::arrayValue);
        row.append(g.in(-3, 3));
        row.append(ints(g, m, -3, 3));
        row.append(g.chance(60) ? ints(g, m, -2, 2) : ints(g, m, 0, 0));
        row.append(m >= 2 ? g.in(-2, 2) : 0);
        op["rows"].append(row);
      }
      op["w"] = g.chance(60) && !second ? ints(g, nr, 0, 3) : Json::Value(Json::arrayValue);
      op["x0"] = ints(g, n, -2, 2);
      op["num"] = g.chance(40);
      st.push_back(1);
      ++ids;
    }
    else if (r <= 45)
    {
      static const char* kinds[] = { "aff", "sqr", "hinge", "abs", "hinges", "l1", "l2", "max" };
      op["op"] = "man";
      op["calls"] = Json::Value(Json::arrayValue);
      const int nc = g.in(1, 3);
      for (int i = 0; i < nc; ++i)
      {
        Json::Value c;
        c["c"] = kinds[g.in(0, 7)];
        c["k"] = g.in(0, 3);
        c["rows"] = Json::Value(Json::arrayValue);
        const bool many = c["c"] == "hinges" || c["c"] == "l1" || c["c"] == "l2" || c["c"] == "max";
        for (int j = many ? g.in(1, 3) : 1; j > 0; --j)
        {
          Json::Value row(Json::arrayValue);
          row.append(g.in(-3, 3));
          row.append(ints(g, n, -3, 3));
          c["rows"].append(row);
        }
        op["calls"].append(c);
      }
      st.push_back(1);
      ++ids;
    }
    else if (r <= 75)
    {
      const int id = g.in(1, ids), cur = st[static_cast<std::size_t>(id - 1)];
      if (cur == 0)
        continue;
      const bool add = cur == 1 && g.chance(75);
      op["op"] = add ? "add" : "drop";
      op["id"] = id;
      op["how"] = g.in(0, 1);
      st[static_cast<std::size_t>(id - 1)] = add ? 2 : 0;
    }
    else if (r <= 85)
    {
      op["op"] = fin && g.chance(25) ? "central" : "feas";
      op["x"] = ints(g, n, -6000, 6000);
      for (auto& v : op["x"])
        if (g.chance(50))
          v = (v.asInt() / 1000) * 1000 + g.in(-2, 2);
      op["d"] = g.chance(50) ? 0 : g.in(1, 1200);
      if (op["op"] == "central")
        op["d"] = 0;
    }
    else if (r <= 89)
    {
      op["op"] = "feasqp";
      op["x"] = ints(g, n, -5, 5);
      op["y"] = ints(g, n, -5, 5);
      op["st"] = g.chance(60) ? 0 : g.in(1, 2);
    }
    else if (r <= 94)
    {
      op["op"] = "bounds";
      op["all"] = g.chance(50);
      const int m = op["all"].asBool() ? n : g.in(1, n);
      op["vars"] = perm(m);
      bounds(op["lo"], op["hi"], m);
      fin = false;
    }
    else if (r <= 97)
    {
      op["op"] = "lin";
      op["row"] = Json::Value(Json::arrayValue);
      op["row"].append(g.in(-3, 3));
      op["row"].append(ints(g, n, -3, 3));
      op["t"] = g.in(0, 1);
    }
    else
    {
      static const char* w[] = { "cost", "eq", "ineq" };
      op["op"] = "reg";
      op["what"] = w[g.in(0, 2)];
      op["name"] = "t" + std::to_string(g.in(1, 9));
    }
    s["ops"].append(op);
  }
  return s;
}

int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    for (const auto& s : readScenarios(argv[2]))
      Run(s, g);
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    out.open(argv[4]);
    for (int i = 0; i < std::atoi(argv[3]); ++i)
      Run(randomScn(g), g);
    return 0;
  }
  std::cerr << "usage\n";
  return 2;
}
