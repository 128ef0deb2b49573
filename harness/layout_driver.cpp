// C08: nodes, variables, composites, problem. layout_driver replay SCN SEED OUT | random SEED N OUT
#include "json_out.h"
#include <map>
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_observer.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
using namespace vd;
using namespace trajopt_ifopt;
static Out out;
using VI = std::vector<int>;

static std::vector<double> lows(const std::vector<Bounds>& v)
{
  std::vector<double> r;
  for (const auto& q : v)
    r.push_back(q.getLower());
  return r;
}
static std::vector<double> ups(const std::vector<Bounds>& v)
{
  std::vector<double> r;
  for (const auto& q : v)
    r.push_back(q.getUpper());
  return r;
}
static std::string strs(const std::vector<std::string>& v)
{
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i)
    s += (i ? ",\"" : "\"") + v[i] + "\"";
  return s + "]";
}
static double lim(int v) { return v >= INF ? HUGE_VAL : v <= -INF ? -HUGE_VAL : v; }

struct Row
{
  int c{ 0 }, lo{ 0 }, hi{ 0 }, w{ 1 }, t{ 0 };
  VI a;
  std::string json() const { return Obj().i("c", c).iv("a", a).i("lo", lo).i("hi", hi).i("w", w).i("t", t).done(); }
  double value(const Eigen::VectorXd& x) const
  {
    double v = c;
    for (std::size_t i = 0; i < a.size(); ++i)
      v += a[i] * x[static_cast<long>(i)];
    return v;
  }
};
static std::string rowsJson(const std::string& name, bool dyn, const std::vector<Row>& rows)
{
  std::string s = "[";
  for (std::size_t i = 0; i < rows.size(); ++i)
    s += (i ? "," : "") + rows[i].json();
  return Obj().str("name", name).b("dyn", dyn).raw("rows", s + "]").done();
}
static Jacobian jacOf(const std::vector<Row>& rows, long n)
{
  Jacobian j(static_cast<long>(rows.size()), n);
  for (std::size_t r = 0; r < rows.size(); ++r)
    for (std::size_t i = 0; i < rows[r].a.size(); ++i)
      if (rows[r].a[i] != 0)
        j.insert(static_cast<long>(r), static_cast<long>(i)) = rows[r].a[i];
  return j;
}
struct Comp : public ConstraintSet
{
  std::vector<Row> all, now;
  Eigen::VectorXd at;  // works on the variables of the last update
  Comp(std::string name, std::vector<Row> rows, bool dyn) : ConstraintSet(std::move(name), dyn), all(std::move(rows))
  {
    rows_ = 0;
    non_zeros_ = 0;
    if (!dyn)
    {
      now = all;
      rows_ = static_cast<int>(now.size());
      non_zeros_ = rows_ * (all.empty() ? 0 : static_cast<int>(all[0].a.size()));
    }
  }
  int update() override
  {
    at = variables_->getValues();
    if (dynamic_)
    {
      now.clear();
      for (const auto& r : all)
        if (variables_->getValues()[0] >= r.t)
          now.push_back(r);
      rows_ = static_cast<int>(now.size());
      non_zeros_ = rows_;
    }
    return rows_;
  }
  Eigen::VectorXd getValues() const override
  {
    Eigen::VectorXd v(static_cast<long>(now.size()));
    for (std::size_t i = 0; i < now.size(); ++i)
      v[static_cast<long>(i)] = now[i].value(at);
    return v;
  }
  Eigen::VectorXd getCoefficients() const override
  {
    Eigen::VectorXd v(static_cast<long>(now.size()));
    for (std::size_t i = 0; i < now.size(); ++i)
      v[static_cast<long>(i)] = now[i].w;
    return v;
  }
  std::vector<Bounds> getBounds() const override
  {
    std::vector<Bounds> b;
    for (const auto& r : now)
      b.emplace_back(lim(r.lo), lim(r.hi));
    return b;
  }
  Jacobian getJacobian() const override { return jacOf(now, variables_->getRows()); }
};
struct Cost : public CostTerm
{
  Row r;
  Eigen::VectorXd at;
  Cost(std::string name, Row row) : CostTerm(std::move(name)), r(std::move(row)) { non_zeros_ = 0; }
  int update() override
  {
    at = variables_->getValues();
    return rows_;
  }
  double getCost() const override { return r.value(at); }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Constant(1, r.w); }
  Jacobian getJacobian() const override { return jacOf({ r }, variables_->getRows()); }
};
struct Observer : public NodesObserver
{
  int id;
  std::vector<std::pair<int, Eigen::VectorXd>>* log;
  Observer(const std::shared_ptr<NodesVariables>& v, int id, std::vector<std::pair<int, Eigen::VectorXd>>* log) : NodesObserver(v), id(id), log(log) {}
  void updateNodes() override
  {
    const auto s = subject_.lock();
    Eigen::VectorXd x(s->getValues().size());
    // through the nodes, which must be as new as the vector
    long at = 0;
    for (const auto& n : s->getNodes())
    {
      const Eigen::VectorXd v = n->getValues();
      x.segment(at, v.size()) = v;
      at += v.size();
    }
    log->emplace_back(id, x);
  }
};
struct Session
{
  Rng& g;
  std::shared_ptr<NodesVariables> v;
  std::unique_ptr<Problem> p;
  std::unique_ptr<CompositeDifferentiable> col;
  std::vector<std::shared_ptr<Comp>> comps;
  std::vector<std::shared_ptr<Comp>> probs;
  std::map<std::size_t, int> hashes;
  std::vector<std::pair<int, Eigen::VectorXd>> log;
  std::map<int, std::shared_ptr<Observer>> obs;
  std::vector<std::vector<std::string>> ids;
  int nextObs{ 1 }, nextName{ 8 };
  bool stale{ false };  // variables written behind the problem's back
  bool dynCol;
  long n{ 0 };

  // lay: sizes of the variables of each node; 1 may be a scalar or a vector of one
  Session(Rng& g, const std::vector<VI>& lay) : g(g)
  {
    std::vector<std::unique_ptr<Node>> nodes;
    std::string js = "[";
    VI x, lo, hi;
    for (std::size_t i = 0; i < lay.size(); ++i)
    {
      const std::string nn = "n" + std::to_string(g.in(0, 3)) + std::to_string(i);
      auto node = std::make_unique<Node>(nn);
      std::string vs = "[";
      ids.emplace_back();
      for (std::size_t k = 0; k < lay[i].size(); ++k)
      {
        const int sz = lay[i][k];
        // names are unique inside the node only
        const std::string id = std::string(1, static_cast<char>('a' + (k * 7 + static_cast<std::size_t>(g.in(0, 1))) % 26)) + std::to_string(k);
        ids.back().push_back(id);
        std::vector<std::string> names;
        Eigen::VectorXd val(sz);
        std::vector<Bounds> bs;
        for (int q = 0; q < sz; ++q)
        {
          int l = g.in(-9, 3), h = g.in(l, 9), iv = g.in(-12, 12);
          if (g.chance(20))
            l = -INF;
          if (g.chance(20))
            h = INF;
          names.push_back("j" + std::to_string(q) + std::to_string(g.in(0, 9)));
          val[q] = iv;
          bs.emplace_back(lim(l), lim(h));
          x.push_back(iv);
          lo.push_back(l);
          hi.push_back(h);
        }
        if (sz == 1 && g.chance(60))
        {
          names = { id };
          node->addVar(id, val[0], bs[0]);
        }
        else
          node->addVar(id, names, val, bs);
        vs += (k ? "," : "") + Obj().i("k", sz).str("id", id).raw("names", strs(names)).done();
      }
      js += (i ? "," : "") + Obj().str("name", nn).raw("vs", vs + "]").done();
      nodes.push_back(std::move(node));
    }
    n = static_cast<long>(x.size());
    out(Obj().str("e", "new").raw("ns", js + "]").iv("x", x).iv("lo", lo).iv("hi", hi));
    v = std::make_shared<NodesVariables>("traj", std::move(nodes));
    p = std::make_unique<Problem>(v);
    dynCol = g.chance(60);
    col = std::make_unique<CompositeDifferentiable>("col", n, Differentiable::Mode::kStackRows, dynCol);
  }
  int token(std::size_t h)
  {
    const int next = static_cast<int>(hashes.size()) + 1;
    return hashes.emplace(h, next).first->second;
  }
  void look()
  {
    std::string js = "[";
    const auto nodes = v->getNodes();
    for (std::size_t i = 0; i < nodes.size(); ++i)
    {
      const auto& nd = nodes[i];
      std::string vs = "[";
      bool first = true;
      for (const std::string& id : ids[i])
      {
        const auto var = nd->getVar(id);
        vs += first ? "" : ",";
        first = false;
        vs += Obj().i("at", var->getIndex()).i("k", var->size()).dv("x", var->value()).dv("lo", lows(var->bounds())).dv("hi", ups(var->bounds()))
                  .str("id", var->getIdentifier()).raw("names", strs(var->name())).b("mine", var->getParent() == nd.get())
                  .b("found", nd->hasVar(id) && !nd->hasVar(id + "?")).done();
      }
      js += (i ? "," : "") + Obj().str("name", nd->getName()).i("k", nd->size()).dv("x", nd->getValues()).dv("lo", lows(nd->getBounds()))
                                 .dv("hi", ups(nd->getBounds())).b("mine", nd->getParent() == v.get() && v->getNode(i) == nd).raw("vs", vs + "]").done();
    }
    out(Obj().str("e", "look").dv("x", v->getValues()).dv("lo", lows(v->getBounds())).dv("hi", ups(v->getBounds())).i("dim", v->getDim())
            .i("rows", v->getRows()).raw("nodes", js + "]").i("hash", token(v->getHash())));
  }
  std::string noted()
  {
    std::string s = "[";
    for (std::size_t i = 0; i < log.size(); ++i)
    {
      s += (i ? ",[" : "[") + std::to_string(log[i].first) + ",[";
      for (long k = 0; k < log[i].second.size(); ++k)
        s += (k ? "," : "") + std::to_string(I(log[i].second[k]));
      s += "]]";
    }
    log.clear();
    return s + "]";
  }
  void set(const Eigen::VectorXd& x, bool viaProblem)
  {
    stale = !viaProblem;
    if (!viaProblem)
      v->setVariables(x);
    else
      p->setVariables(x.data());
    out(Obj().str("e", "set").dv("x", x).raw("noted", noted()));
  }
  Eigen::VectorXd any()
  {
    Eigen::VectorXd x = v->getValues();
    for (long i = 0; i < n; ++i)
      if (g.chance(60))
        x[i] = g.in(-15, 15);
    return x;
  }
  std::vector<Row> rows(int k)
  {
    std::vector<Row> r(static_cast<std::size_t>(k));
    for (auto& q : r)
    {
      q.c = g.in(-5, 5);
      q.w = g.in(1, 9);
      q.t = g.in(-10, 10);
      q.lo = g.chance(20) ? -INF : g.in(-9, 0);
      q.hi = g.chance(20) ? INF : g.in(0, 9);
      for (long i = 0; i < n; ++i)
        q.a.push_back(g.chance(60) ? g.in(-4, 4) : 0);
    }
    return r;
  }
  void add(int k, bool dyn)
  {
    const auto r = rows(k);
    auto c = std::make_shared<Comp>("c" + std::to_string(nextName++), r, dyn);
    c->linkWithVariables(v);
    c->update();
    comps.push_back(c);
    if (g.chance(20))
    {
      // nested
      auto in = std::make_shared<CompositeDifferentiable>(c->getName(), n, Differentiable::Mode::kStackRows, true);
      in->addComponent(c);
      in->update();
      col->addComponent(in);
    }
    else
      col->addComponent(c);
    out(Obj().str("e", "add").raw("c", rowsJson(c->getName(), dyn, r)));
  }
  void clear()
  {
    col->clearComponents();
    comps.clear();
    out(Obj().str("e", "clear"));
  }
  static Obj& stackOf(Obj& o, const CompositeDifferentiable& c)
  {
    const auto b = c.getBounds();
    return o.i("n", c.getRows()).dv("val", c.getValues()).dv("w", c.getCoefficients()).dv("lo", lows(b)).dv("hi", ups(b)).dm("jac", Eigen::MatrixXd(c.getJacobian()));
  }
  void stack()
  {
    Obj o;
    o.str("e", "stack").i("upd", col->update());
    std::vector<std::string> names;
    bool by = true;
    for (const auto& c : col->getComponents())
    {
      names.push_back(c->getName());
      by = by && col->getComponent(c->getName()) == c;
    }
    stackOf(o, *col).raw("names", strs(names)).b("byname", by).b("empty", col->empty());
    out(o);
  }
  void addCnt()
  {
    const auto r = rows(g.in(0, 3));
    auto c = std::make_shared<Comp>("k" + std::to_string(nextName++), r, false);
    probs.push_back(c);
    stale = true;
    p->addConstraintSet(c);
    out(Obj().str("e", "addcnt").raw("c", rowsJson(c->getName(), false, r)));
  }
  void addCost()
  {
    auto r = rows(1);
    r[0].lo = -INF;
    r[0].hi = INF;
    stale = true;
    const std::string nm = "q" + std::to_string(nextName++);
    p->addCostSet(std::make_shared<Cost>(nm, r[0]));
    out(Obj().str("e", "addcost").raw("c", rowsJson(nm, false, r)));
  }
  void prob()
  {
    if (stale)
      set(v->getValues(), true);
    Obj o;
    const Jacobian jc = p->getJacobianOfConstraints();
    std::vector<double> nz(static_cast<std::size_t>(jc.nonZeros()) + 1, 77.0);
    p->evalNonzerosOfJacobian(nz.data());
    nz.pop_back();
    Obj a, b;
    stackOf(a, p->getConstraints());
    stackOf(b, p->getCosts());
    // the problem's own accessors must agree with its composites
    const bool same = p->evaluateConstraints() == p->getConstraints().getValues() && Eigen::MatrixXd(jc) == Eigen::MatrixXd(p->getConstraints().getJacobian()) &&
                      Eigen::MatrixXd(p->getJacobianOfCosts()) == Eigen::MatrixXd(p->getCosts().getJacobian()) && p->getOptVariables() == v &&
                      lows(p->getBoundsOnConstraints()) == lows(p->getConstraints().getBounds()) && ups(p->getBoundsOnConstraints()) == ups(p->getConstraints().getBounds());
    std::string sv = "[";
    for (const auto& x : p->getIterations())
    {
      sv += sv.size() > 1 ? ",[" : "[";
      for (long i = 0; i < x.size(); ++i)
        sv += (i ? "," : "") + std::to_string(I(x[i]));
      sv += "]";
    }
    o.str("e", "prob").raw("cnt", a.done()).raw("cost", b.done()).i("ncnt", same ? p->getNumberOfConstraints() : -1).i("nvar", p->getNumberOfOptimizationVariables());
    o.d("total", p->evaluateCostFunction()).b("has", p->hasCostTerms()).dv("grad", p->evaluateCostFunctionGradient()).dv("x", p->getVariableValues());
    o.dv("lo", lows(p->getBoundsOnOptimizationVariables())).dv("hi", ups(p->getBoundsOnOptimizationVariables())).dv("nz", nz).raw("saved", sv + "]");
    out(o);
  }
  void observer()
  {
    const int id = nextObs++;
    bool made = false;
    try
    {
      obs[id] = std::make_shared<Observer>(v, id, &log);
      made = true;
    }
    catch (const std::exception&)
    {
      obs.erase(id);
    }
    out(Obj().str("e", "obs").i("id", id).b("made", made));
  }
  void unobserve()
  {
    if (obs.empty())
      return;
    const int id = obs.begin()->first;
    obs.erase(id);
    out(Obj().str("e", "unobs").i("id", id));
  }
  void save()
  {
    p->saveCurrent();
    out(Obj().str("e", "save").i("n", p->getIterationCount()));
  }
  void recall(bool last)
  {
    const int k = p->getIterationCount();
    if (k == 0)
      return;
    stale = true;
    if (last)
    {
      p->setOptVariablesFinal();
      out(Obj().str("e", "final").raw("noted", noted()));
      return;
    }
    const int i = g.in(0, k - 1);
    p->setOptVariables(i);
    out(Obj().str("e", "recall").i("i", i).raw("noted", noted()));
  }
};
static void bad(Rng& g)
{
  Node nd("bad");
  const int k = g.in(1, 3);
  const int m = g.in(0, 1);
  std::vector<std::string> names(static_cast<std::size_t>(k + (m == 0 ? 1 : 0)), "x");
  std::vector<Bounds> b(static_cast<std::size_t>(k + (m == 1 ? -1 : 0)), NoBound);
  bool t = false;
  try
  {
    nd.addVar("v", names, Eigen::VectorXd::Zero(k), b);
  }
  catch (const std::exception&)
  {
    t = true;
  }
  out(Obj().str("e", "bad").b("thrown", t));
}
int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    for (const auto& s : readScenarios(argv[2]))
    {
      std::unique_ptr<Session> ss;
      for (const auto& o : s)
      {
        const std::string op = o["op"].asString();
        if (op == "new")
        {
          std::vector<VI> lay;
          for (const auto& nd : o["lay"])
          {
            lay.emplace_back();
            for (const auto& q : nd)
              lay.back().push_back(q.asInt());
          }
          ss = std::make_unique<Session>(g, lay);
          ss->look();
        }
        else if (op == "set")
        {
          Eigen::VectorXd x(ss->n);
          for (long i = 0; i < ss->n; ++i)
            x[i] = o["d"].asInt() * (i + 1);
          ss->set(x, g.chance(50));
          ss->look();
        }
        else if (op == "add")
        {
          if (o["dyn"].asBool() && !ss->dynCol)
            ss->add(o["k"].asInt(), false);
          else
            ss->add(o["k"].asInt(), o["dyn"].asBool());
          ss->stack();
        }
        else
        {
          ss->clear();
          ss->stack();
        }
      }
    }
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    const int cnt = std::atoi(argv[3]);
    out.open(argv[4]);
    for (int k = 0; k < cnt; ++k)
    {
      std::vector<VI> lay(static_cast<std::size_t>(g.in(1, 5)));
      int dim = 0;
      for (auto& nd : lay)
        for (int i = g.in(0, 3); i > 0; --i)
        {
          nd.push_back(g.in(1, 4));
          dim += nd.back();
        }
      if (dim == 0)
        lay[0] = { 2 };
      Session s(g, lay);
      bad(g);
      s.look();
      for (int i = g.in(3, 14); i > 0; --i)
      {
        switch (g.in(0, 11))
        {
          case 0:
          case 1:
            s.set(g.chance(15) ? s.v->getValues() : s.any(), g.chance(50));
            s.look();
            break;
          case 2:
            s.observer();
            break;
          case 3:
            s.unobserve();
            break;
          case 4:
          case 5:
            s.add(g.in(0, 3), s.dynCol && g.chance(50));
            break;
          case 6:
            if (g.chance(20))
              s.clear();
            else
              s.stack();
            break;
          case 7:
            s.addCnt();
            break;
          case 8:
            s.addCost();
            break;
          case 9:
            s.save();
            break;
          case 10:
            s.recall(g.chance(40));
            s.look();
            break;
          default:
            s.prob();
        }
      }
      s.stack();
      s.prob();
      s.look();
    }
    return 0;
  }
  return 3;
}
