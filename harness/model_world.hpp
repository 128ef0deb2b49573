// A world of convex models, driven by operations: shared by the drivers of the solver back ends.
#pragma once
#include "json_out.h"
#include <map>
#include <set>
#include <thread>
#include <trajopt_sco/solver_interface.hpp>
#include <trajopt_sco/expr_ops.hpp>
using namespace vd;
using namespace sco;
static Out out;

struct M1
{
  Model::Ptr m;
  std::vector<Var> vars;
  std::vector<Cnt> cnts;
  std::vector<bool> lv, lc;
  std::vector<std::set<int>> cvars;
  std::set<int> ovars;
  std::vector<int> solved;  // variables with a value
};
static double num(const Json::Value& v)
{
  const double d = v.asDouble();
  return d >= INF ? INFINITY : d <= -INF ? -INFINITY : d;
}
static std::string text(const Json::Value& v)
{
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  return Json::writeString(b, v);
}
struct World
{
  Rng& g;
  std::vector<M1> ms;
  int solves{ 0 };
  virtual ~World() = default;
  virtual Model::Ptr makeModel() = 0;
  // solves, writes what reached the solver into the event, and says whether the variables have values now
  virtual bool solve(M1& x, const Json::Value& op, int base, Obj& ev) = 0;
  virtual void script(Json::Value& op) = 0;
  World(Rng& r) : g(r) {}
  void run(const Json::Value& s, Obj first)
  {
    ms.resize(static_cast<std::size_t>(s["models"].asInt()));
    for (auto& x : ms)
      x.m = makeModel();
    out(first.str("e", "new").i("models", ms.size()));
    if (s.isMember("ops"))
      for (const auto& op : s["ops"])
        step(op, 0);
    else
    {
      const int n = s["len"].asInt();
      for (int i = 0; i < n; ++i)
      {
        const auto k = static_cast<std::size_t>(g.in(0, static_cast<int>(ms.size()) - 1));
        step(make(ms[k]), k);
      }
    }
  }
  AffExpr aff(const Json::Value& e, M1& x)
  {
    AffExpr a;
    a.constant = e["c"].asDouble();
    for (const auto& t : e["a"])
    {
      a.vars.push_back(x.vars[static_cast<std::size_t>(t[0].asInt() - 1)]);
      a.coeffs.push_back(t[1].asDouble());
    }
    return a;
  }
  QuadExpr quad(const Json::Value& e, M1& x)
  {
    QuadExpr q;
    q.affexpr = aff(e, x);
    for (const auto& t : e["q"])
    {
      q.vars1.push_back(x.vars[static_cast<std::size_t>(t[0].asInt() - 1)]);
      q.vars2.push_back(x.vars[static_cast<std::size_t>(t[1].asInt() - 1)]);
      q.coeffs.push_back(t[2].asDouble());
    }
    return q;
  }
  static std::set<int> mentioned(const Json::Value& e)
  {
    std::set<int> s;
    for (const auto& t : e["a"])
      s.insert(t[0].asInt());
    for (const auto& t : e["q"])
    {
      s.insert(t[0].asInt());
      s.insert(t[1].asInt());
    }
    return s;
  }
  void addVar(M1& x, const Json::Value& op)
  {
    const double lo = num(op["lo"]), hi = num(op["hi"]);
    if (lo == -INFINITY && hi == INFINITY && g.chance(50))
      x.vars.push_back(x.m->addVar("v"));
    else
      x.vars.push_back(x.m->addVar("v", lo, hi));
    x.lv.push_back(true);
  }
  void addCnt(M1& x, const Json::Value& op)
  {
    const AffExpr e = aff(op["e"], x);
    x.cnts.push_back(op["o"].asString() == "eq" ? x.m->addEqCnt(e, "c") : x.m->addIneqCnt(e, "c"));
    x.lc.push_back(true);
    x.cvars.push_back(mentioned(op["e"]));
  }
  void step(const Json::Value& op, std::size_t k)
  {
    M1& x = ms[k];
    const std::string o = op["o"].asString();
    Obj ev;
    ev.str("e", o).i("k", static_cast<long>(k) + 1).raw("op", text(op));
    if (o == "var")
      addVar(x, op);
    else if (o == "eq" || o == "ineq")
      addCnt(x, op);
    else if (o == "qineq")
    {
      bool threw = false;
      try
      {
        x.m->addIneqCnt(quad(op["e"], x), "q");
      }
      catch (const std::exception&)
      {
        threw = true;
      }
      ev.b("threw", threw);
    }
    else if (o == "rmv")
    {
      VarVector v;
      for (const auto& i : op["ids"])
      {
        v.push_back(x.vars[static_cast<std::size_t>(i.asInt() - 1)]);
        x.lv[static_cast<std::size_t>(i.asInt() - 1)] = false;
      }
      if (v.size() == 1 && g.chance(50))
        x.m->removeVar(v[0]);
      else
        x.m->removeVars(v);
    }
    else if (o == "rmc")
    {
      CntVector v;
      for (const auto& i : op["ids"])
      {
        v.push_back(x.cnts[static_cast<std::size_t>(i.asInt() - 1)]);
        x.lc[static_cast<std::size_t>(i.asInt() - 1)] = false;
      }
      if (v.size() == 1 && g.chance(50))
        x.m->removeCnt(v[0]);
      else
        x.m->removeCnts(v);
    }
    else if (o == "upd")
      x.m->update();
    else if (o == "bnd")
    {
      VarVector v;
      DblVec lo, hi;
      for (Json::ArrayIndex i = 0; i < op["ids"].size(); ++i)
      {
        v.push_back(x.vars[static_cast<std::size_t>(op["ids"][i].asInt() - 1)]);
        lo.push_back(num(op["lo"][i]));
        hi.push_back(num(op["hi"][i]));
      }
      if (v.size() == 1 && g.chance(50))
        x.m->setVarBounds(v[0], lo[0], hi[0]);
      else
        x.m->setVarBounds(v, lo, hi);
    }
    else if (o == "obja" || o == "objq")
    {
      if (o == "obja")
        x.m->setObjective(aff(op["e"], x));
      else
        x.m->setObjective(quad(op["e"], x));
      x.ovars = mentioned(op["e"]);
    }
    else if (o == "par")
    {
      // several threads add variables with bounds and constraints on them
      const int threads = op["threads"].asInt(), per = op["per"].asInt();
      std::vector<std::vector<Var>> vs(static_cast<std::size_t>(threads));
      std::vector<std::vector<Cnt>> cs(static_cast<std::size_t>(threads));
      std::vector<std::thread> ts;
      for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t]() {
          for (int i = 0; i < per; ++i)
          {
            const Var v = x.m->addVar("p", -t - 1, 100 * t + i);
            vs[static_cast<std::size_t>(t)].push_back(v);
            AffExpr e(v);
            e.constant = -(t + 1);
            cs[static_cast<std::size_t>(t)].push_back(i % 2 == 0 ? x.m->addIneqCnt(e, "c") : x.m->addEqCnt(e, "c"));
          }
        });
      for (auto& t : ts)
        t.join();
      for (int t = 0; t < threads; ++t)
        for (int i = 0; i < per; ++i)
        {
          x.vars.push_back(vs[static_cast<std::size_t>(t)][static_cast<std::size_t>(i)]);
          x.lv.push_back(true);
          x.cnts.push_back(cs[static_cast<std::size_t>(t)][static_cast<std::size_t>(i)]);
          x.lc.push_back(true);
          x.cvars.push_back({ static_cast<int>(x.vars.size()) });
        }
    }
    else if (o == "solve")
    {
      const int base = 1000 * (++solves % 1000);
      const bool solved = solve(x, op, base, ev);
      std::string col = "[";
      x.solved.clear();
      for (std::size_t i = 0; i < x.vars.size(); ++i)
        if (x.lv[i])
        {
          col += std::string(col.size() > 1 ? "," : "") + "[" + std::to_string(i + 1) + "," + std::to_string(x.vars[i].var_rep->index + 1) + "]";
          if (solved)
            x.solved.push_back(static_cast<int>(i) + 1);
        }
      ev.raw("col", col + "]").i("base", base);
    }
    out(ev);
    look(x, k);
  }
  void look(M1& x, std::size_t k)
  {
    VarVector v;
    std::vector<int> ids;
    for (const int i : x.solved)
      if (x.lv[static_cast<std::size_t>(i - 1)])
      {
        v.push_back(x.vars[static_cast<std::size_t>(i - 1)]);
        ids.push_back(i);
      }
    if (v.empty())
      return;
    if (g.chance(50))
    {
      // some of them, in another order, perhaps more than once
      VarVector w;
      std::vector<int> wi;
      for (int i = g.in(1, static_cast<int>(v.size())); i > 0; --i)
      {
        const auto j = static_cast<std::size_t>(g.in(0, static_cast<int>(v.size()) - 1));
        w.push_back(v[j]);
        wi.push_back(ids[j]);
      }
      v = w;
      ids = wi;
    }
    Obj o;
    o.str("e", "get").i("k", static_cast<long>(k) + 1).iv("ids", ids);
    if (g.chance(50))
      o.dv("vals", x.m->getVarValues(v));
    else
    {
      DblVec d;
      for (const auto& u : v)
        d.push_back(x.m->getVarValue(u));
      o.dv("vals", d);
    }
    // the model's own list, where nothing is waiting to be taken out
    std::vector<int> mine;
    bool marked = false;
    for (const auto& u : x.m->getVars())
    {
      int id = 0;
      for (std::size_t i = 0; i < x.vars.size(); ++i)
        if (x.vars[i].var_rep == u.var_rep)
          id = static_cast<int>(i) + 1;
      if (id > 0 && !x.lv[static_cast<std::size_t>(id - 1)])
        marked = true;
      mine.push_back(id);
    }
    o.b("marked", marked).iv("vars", mine);
    out(o);
  }
  // ---------------------------------------------------------------- random operations
  Json::Value expr(M1& x, bool quad)
  {
    Json::Value e;
    e["c"] = g.in(-5, 5);
    e["a"] = Json::Value(Json::arrayValue);
    e["q"] = Json::Value(Json::arrayValue);
    std::vector<int> l;
    for (std::size_t i = 0; i < x.lv.size(); ++i)
      if (x.lv[i])
        l.push_back(static_cast<int>(i) + 1);
    if (l.empty())
      return e;
    const auto pick = [&]() { return l[static_cast<std::size_t>(g.in(0, static_cast<int>(l.size()) - 1))]; };
    for (int i = g.in(0, 4); i > 0; --i)
    {
      Json::Value t(Json::arrayValue);
      t.append(pick());
      t.append(g.in(-3, 3));
      e["a"].append(t);
    }
    for (int i = quad ? g.in(0, 4) : 0; i > 0; --i)
    {
      Json::Value t(Json::arrayValue);
      t.append(pick());
      t.append(pick());
      t.append(g.in(-3, 3));
      e["q"].append(t);
    }
    return e;
  }
  Json::Value ids(const std::vector<int>& v)
  {
    Json::Value a(Json::arrayValue);
    for (const int i : v)
      a.append(i);
    return a;
  }
  Json::Value make(M1& x)
  {
    Json::Value op;
    std::vector<int> live, lcs, freev;
    for (std::size_t i = 0; i < x.lv.size(); ++i)
      if (x.lv[i])
      {
        const int id = static_cast<int>(i) + 1;
        live.push_back(id);
        bool used = x.ovars.count(id) > 0;
        for (std::size_t c = 0; c < x.lc.size(); ++c)
          used = used || (x.lc[c] && x.cvars[c].count(id) > 0);
        if (!used)
          freev.push_back(id);
      }
    for (std::size_t i = 0; i < x.lc.size(); ++i)
      if (x.lc[i])
        lcs.push_back(static_cast<int>(i) + 1);
    const auto some = [&](const std::vector<int>& v) {
      std::vector<int> s;
      const bool one = g.chance(50);
      const int at = g.in(0, static_cast<int>(v.size()) - 1);
      for (std::size_t i = 0; i < v.size(); ++i)
        if (one ? static_cast<int>(i) == at : g.chance(50))
          s.push_back(v[i]);
      if (s.empty())
        s.push_back(v[static_cast<std::size_t>(at)]);
      return s;
    };
    const int r = g.in(1, 100);
    const auto bound = [&](Json::Value& lo, Json::Value& hi) {
      const int a = g.in(-9, 9);
      lo = g.chance(25) ? -INF : a;
      hi = g.chance(25) ? INF : a + g.in(0, 9);
    };
    if (live.empty() || (r <= 22 && live.size() < 8))
    {
      op["o"] = "var";
      bound(op["lo"], op["hi"]);
    }
    else if (r <= 38 && lcs.size() < 6)
    {
      op["o"] = g.chance(50) ? "eq" : "ineq";
      op["e"] = expr(x, false);
    }
    else if (r <= 46 && !lcs.empty())
    {
      op["o"] = "rmc";
      op["ids"] = ids(some(lcs));
    }
    else if (r <= 54 && !freev.empty())
    {
      op["o"] = "rmv";
      op["ids"] = ids(some(freev));
    }
    else if (r <= 60)
      op["o"] = "upd";
    else if (r <= 68)
    {
      op["o"] = "bnd";
      const auto v = some(live);
      op["ids"] = ids(v);
      for (Json::ArrayIndex i = 0; i < v.size(); ++i)
        bound(op["lo"][i], op["hi"][i]);
    }
    else if (r <= 74)
    {
      op["o"] = "obja";
      op["e"] = expr(x, false);
    }
    else if (r <= 81)
    {
      op["o"] = "objq";
      op["e"] = expr(x, true);
    }
    else if (r <= 82)
    {
      op["o"] = "qineq";
      op["e"] = expr(x, true);
    }
    else
    {
      op["o"] = "solve";
      script(op);
    }
    return op;
  }
};

