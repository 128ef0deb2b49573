// A sco::Model that records what it is told. Variables carry a unique number that never changes (uid, from 1).
#pragma once
#include "json_out.h"
#include <algorithm>
#include <functional>
#include <map>
#include <mutex>
#include <stdexcept>
#include <trajopt_sco/solver_interface.hpp>

namespace vd
{
struct MockModel : sco::Model
{
  struct V
  {
    sco::Var v;
    int uid;
    double lb, ub;
  };
  struct C
  {
    sco::Cnt c;
    int t;  // 0 equality, 1 inequality
    sco::AffExpr e;
    sco::QuadExpr q;
    bool quad{ false };
    int uid{ 0 };
  };
  std::vector<V> vars;
  std::vector<C> cnts;
  std::map<const sco::VarRep*, int> uids;
  std::vector<sco::VarRep::Ptr> keep;  // numbers must not be reused
  sco::QuadExpr objective;
  long foreign{ 0 };                    // calls with handles that are not live
  int ncnt{ 0 };
  std::vector<sco::CntRep::Ptr> keepc;
  std::function<sco::CvxOptStatus(MockModel&, sco::DblVec&)> answer;
  sco::DblVec values;
  std::map<int, int> alias;             // other numbers for the dumps
  std::mutex mtx;                       // variables and rows may be added from several threads

  int uid(const sco::Var& v) const
  {
    const auto it = uids.find(v.var_rep.get());
    const int u = it == uids.end() ? 0 : it->second;
    const auto al = alias.find(u);
    return al == alias.end() ? u : al->second;
  }
  sco::Var addVar(const std::string& name) override { return addVar(name, -INFINITY, INFINITY); }
  sco::Var addVar(const std::string& name, double lb, double ub) override
  {
    const std::lock_guard<std::mutex> lock(mtx);
    V v{ sco::Var(std::make_shared<sco::VarRep>(vars.size(), name, this)), static_cast<int>(keep.size()) + 1, lb, ub };
    keep.push_back(v.v.var_rep);
    uids[v.v.var_rep.get()] = v.uid;
    vars.push_back(v);
    return v.v;
  }
  sco::Cnt add(C c)
  {
    const std::lock_guard<std::mutex> lock(mtx);
    c.c = sco::Cnt(std::make_shared<sco::CntRep>(cnts.size(), this));
    c.uid = ++ncnt;
    keepc.push_back(c.c.cnt_rep);
    cnts.push_back(c);
    return c.c;
  }
  sco::Cnt addEqCnt(const sco::AffExpr& e, const std::string&) override
  {
    C c;
    c.t = 0;
    c.e = e;
    return add(c);
  }
  sco::Cnt addIneqCnt(const sco::AffExpr& e, const std::string&) override
  {
    C c;
    c.t = 1;
    c.e = e;
    return add(c);
  }
  sco::Cnt addIneqCnt(const sco::QuadExpr& e, const std::string&) override
  {
    C c;
    c.t = 1;
    c.q = e;
    c.quad = true;
    return add(c);
  }
  V* find(const sco::Var& v)
  {
    for (auto& u : vars)
      if (u.v.var_rep == v.var_rep)
        return &u;
    ++foreign;
    return nullptr;
  }
  void removeVars(const sco::VarVector& vs) override
  {
    for (const auto& v : vs)
    {
      const auto it = std::find_if(vars.begin(), vars.end(), [&](const V& u) { return u.v.var_rep == v.var_rep; });
      if (it == vars.end())
        ++foreign;
      else
      {
        it->v.var_rep->removed = true;
        vars.erase(it);
      }
    }
    renumber();
  }
  void removeCnts(const sco::CntVector& cs) override
  {
    for (const auto& c : cs)
    {
      const auto it = std::find_if(cnts.begin(), cnts.end(), [&](const C& u) { return u.c.cnt_rep == c.cnt_rep; });
      if (it == cnts.end())
        ++foreign;
      else
      {
        it->c.cnt_rep->removed = true;
        cnts.erase(it);
      }
    }
    renumber();
  }
  void renumber()
  {
    for (std::size_t i = 0; i < vars.size(); ++i)
      vars[i].v.var_rep->index = i;
    for (std::size_t i = 0; i < cnts.size(); ++i)
      cnts[i].c.cnt_rep->index = i;
  }
  void update() override {}
  void setVarBounds(const sco::VarVector& vs, const sco::DblVec& lo, const sco::DblVec& hi) override
  {
    for (std::size_t i = 0; i < vs.size(); ++i)
      if (V* v = find(vs[i]))
      {
        v->lb = lo[i];
        v->ub = hi[i];
      }
  }
  sco::DblVec getVarValues(const sco::VarVector& vs) const override
  {
    sco::DblVec o;
    for (const auto& v : vs)
      o.push_back(values.at(v.var_rep->index));
    return o;
  }
  sco::CvxOptStatus optimize() override
  {
    values.assign(vars.size(), 0.0);
    return answer(*this, values);
  }
  void setObjective(const sco::AffExpr& e) override { objective = sco::QuadExpr(e); }
  void setObjective(const sco::QuadExpr& e) override { objective = e; }
  void writeToFile(const std::string&) const override {}
  sco::VarVector getVars() const override
  {
    sco::VarVector o;
    for (const auto& v : vars)
      o.push_back(v.v);
    return o;
  }

  // ---------------------------------------------------------------- dumps; coefficients summed per variable, zeros left out
  std::string aff(const sco::AffExpr& e, double scale, double tol) const
  {
    std::map<int, double> m;
    for (std::size_t i = 0; i < e.vars.size(); ++i)
      m[uid(e.vars[i])] += e.coeffs[i];
    std::string s = "[";
    for (const auto& p : m)
      if (I(p.second, scale, tol) != 0)
        s += std::string(s.size() > 1 ? "," : "") + "[" + std::to_string(p.first) + "," + std::to_string(I(p.second, scale, tol)) + "]";
    return s + "]";
  }
  std::string quad(const sco::QuadExpr& e, double scale, double tol) const
  {
    std::map<std::pair<int, int>, double> m;
    for (std::size_t i = 0; i < e.coeffs.size(); ++i)
    {
      const int a = uid(e.vars1[i]), b = uid(e.vars2[i]);
      m[{ std::min(a, b), std::max(a, b) }] += e.coeffs[i];
    }
    std::string s = "[";
    for (const auto& p : m)
      if (I(p.second, scale, tol) != 0)
        s += std::string(s.size() > 1 ? "," : "") + "[" + std::to_string(p.first.first) + "," + std::to_string(p.first.second) + "," +
             std::to_string(I(p.second, scale, tol)) + "]";
    return s + "]";
  }
  std::string rows(double scale, double tol) const
  {
    std::string s = "[";
    for (const auto& c : cnts)
      s += (s.size() > 1 ? "," : "") +
           Obj().i("k", c.uid).i("t", c.quad ? 2 : c.t).i("c", I(c.e.constant, scale, tol)).raw("a", aff(c.e, scale, tol)).done();
    return s + "]";
  }
  /// live variables with their bounds
  std::string bounds(double scale, double tol) const
  {
    std::string s = "[";
    for (const auto& v : vars)
      s += std::string(s.size() > 1 ? "," : "") + "[" + std::to_string(v.uid) + "," + std::to_string(I(v.lb, scale, tol)) + "," +
           std::to_string(I(v.ub, scale, tol)) + "]";
    return s + "]";
  }
  std::string live() const
  {
    std::string s = "[";
    for (const auto& v : vars)
      s += (s.size() > 1 ? "," : "") + std::to_string(v.uid);
    return s + "]";
  }
};
}  // namespace vd
