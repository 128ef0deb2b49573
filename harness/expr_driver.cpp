// Programs over the expression algebra of trajopt_sco and the matrix expressions of trajopt_sqp (C14), matrix forms (C15).
#include <functional>
#include <map>
#include <set>
#include <json_out.h>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/expr_vec_ops.hpp>
#include <trajopt_sco/solver_interface.hpp>
#include <trajopt_sco/solver_utils.hpp>
#include <trajopt_sqp/expressions.h>
using namespace vd;
using namespace sco;
static Out out;

static std::vector<Var> mkVars(int n)
{
  std::vector<Var> v;
  for (int i = 0; i < n; ++i)
    v.emplace_back(std::make_shared<VarRep>(static_cast<std::size_t>(i), "x" + std::to_string(i), nullptr));
  return v;
}
static std::string raw(const AffExpr& e, const QuadExpr* q = nullptr, double scale = 1.0)
{
  // sizes that disagree would be a broken expression: shown as terms on a variable that does not exist
  std::string s = "{\"c\":" + std::to_string(I(e.constant)) + ",\"a\":[";
  const std::size_t na = std::max(e.coeffs.size(), e.vars.size());
  for (std::size_t i = 0; i < na; ++i)
  {
    const bool ok = i < e.coeffs.size() && i < e.vars.size() && e.vars[i].var_rep != nullptr;
    s += (i ? ",[" : "[") + std::to_string(ok ? I(e.coeffs[i], scale) : 1) + "," + std::to_string(ok ? (int)e.vars[i].var_rep->index : 99999) + "]";
  }
  s += "],\"q\":[";
  if (q)
  {
    const std::size_t nq = std::max(q->coeffs.size(), std::max(q->vars1.size(), q->vars2.size()));
    for (std::size_t i = 0; i < nq; ++i)
    {
      const bool ok = i < q->coeffs.size() && i < q->vars1.size() && i < q->vars2.size() && q->vars1[i].var_rep && q->vars2[i].var_rep;
      s += (i ? ",[" : "[") + std::to_string(ok ? I(q->coeffs[i], scale) : 1) + "," + std::to_string(ok ? (int)q->vars1[i].var_rep->index : 99999) + "," +
           std::to_string(ok ? (int)q->vars2[i].var_rep->index : 99999) + "]";
    }
  }
  return s + "]}";
}
static std::string raw(const QuadExpr& q, double scale = 1.0) { return raw(q.affexpr, &q, scale); }

struct Mach
{
  std::vector<Var> v;
  std::map<std::string, AffExpr> a;
  std::map<std::string, QuadExpr> q;
  std::string regs() const
  {
    std::string s = "{";
    for (const auto& p : a)
      s += (s.size() > 1 ? ",\"" : "\"") + p.first + "\":" + raw(p.second);
    for (const auto& p : q)
      s += ",\"" + p.first + "\":" + raw(p.second);
    return s + "}";
  }
  // term-by-term values must not read beyond the point: broken expressions get a sentinel
  static bool okA(const AffExpr& e, std::size_t n)
  {
    if (e.coeffs.size() != e.vars.size())
      return false;
    for (const auto& w : e.vars)
      if (!w.var_rep || w.var_rep->index >= n)
        return false;
    return true;
  }
  static bool okQ(const QuadExpr& e, std::size_t n)
  {
    if (!okA(e.affexpr, n) || e.coeffs.size() != e.vars1.size() || e.coeffs.size() != e.vars2.size())
      return false;
    for (std::size_t i = 0; i < e.vars1.size(); ++i)
      if (!e.vars1[i].var_rep || !e.vars2[i].var_rep || e.vars1[i].var_rep->index >= n || e.vars2[i].var_rep->index >= n)
        return false;
    return true;
  }
  std::string vals(const DblVec& x, bool ptr) const
  {
    std::string s = "{";
    for (const auto& p : a)
      s += (s.size() > 1 ? ",\"" : "\"") + p.first + "\":" +
           std::to_string(!okA(p.second, x.size()) ? NANV : I(ptr ? p.second.value(x.data()) : p.second.value(x)));
    for (const auto& p : q)
      s += ",\"" + p.first + "\":" + std::to_string(!okQ(p.second, x.size()) ? NANV : I(ptr ? p.second.value(x.data()) : p.second.value(x)));
    return s + "}";
  }
};

static AffExpr randAff(Rng& g, const std::vector<Var>& v, int maxt, int mag)
{
  AffExpr e(static_cast<double>(g.in(-mag, mag)));
  for (int k = g.in(0, maxt); k > 0; --k)
  {
    e.coeffs.push_back(g.in(-mag, mag));
    e.vars.push_back(v[static_cast<std::size_t>(g.in(0, (int)v.size() - 1))]);
  }
  return e;
}
static QuadExpr randQuad(Rng& g, const std::vector<Var>& v, int maxt, int mag)
{
  QuadExpr e(randAff(g, v, maxt, mag));
  for (int k = g.in(0, maxt); k > 0; --k)
  {
    e.coeffs.push_back(g.in(-mag, mag));
    e.vars1.push_back(v[static_cast<std::size_t>(g.in(0, (int)v.size() - 1))]);
    e.vars2.push_back(v[static_cast<std::size_t>(g.in(0, (int)v.size() - 1))]);
  }
  return e;
}

static const AffExpr ZA;
static const std::string ZERO = "{\"c\":0,\"a\":[],\"q\":[]}";
/// One concrete call. X and Y say what the operands are.
struct Ev
{
  std::string f, d, xr, yr, x{ ZERO }, y{ ZERO }, gone, via;
  int k{ 0 };
};
static std::string pickReg(Rng& g, bool quad) { return quad ? (g.chance(50) ? "q0" : "q1") : std::string("a") + char('0' + g.in(0, 2)); }

/// f abstract operation; d, x, y registers ("" = choose); returns the event, having performed the call
static Ev perform(Rng& g, Mach& m, const std::string& f, std::string d, std::string x, std::string y, int k)
{
  Ev e;
  e.f = f;
  e.k = k;
  auto isA = [](const std::string& r) { return r[0] == 'a'; };
  auto litVar = [&](std::string& lit) {
    const Var w = m.v[static_cast<std::size_t>(g.in(0, (int)m.v.size() - 1))];
    lit = raw(AffExpr(w));
    return w;
  };
  const bool free = d.empty();
  if (f == "copy")
  {
    if (free)
      d = pickReg(g, g.chance(50));
    e.d = d;
    switch (g.in(0, isA(d) ? 3 : 4))
    {
      case 0:
      {
        const double c = g.in(-5, 5);
        e.x = raw(AffExpr());
        e.x = "{\"c\":" + std::to_string((int)c) + ",\"a\":[],\"q\":[]}";
        if (isA(d))
          m.a[d] = AffExpr(c);
        else
          m.q[d] = QuadExpr(c);
        e.via = "ctor(double)";
        break;
      }
      case 1:
      {
        const Var w = litVar(e.x);
        e.x = "{\"c\":0,\"a\":[[1," + std::to_string(w.var_rep->index) + "]],\"q\":[]}";
        if (isA(d))
          m.a[d] = AffExpr(w);
        else
          m.q[d] = QuadExpr(w);
        e.via = "ctor(Var)";
        break;
      }
      case 2:
      {
        const int n = g.in(0, 4);
        Eigen::VectorXd c(n);
        VarVector vv;
        std::string t;
        for (int i = 0; i < n; ++i)
        {
          c[i] = g.in(-4, 4);
          vv.push_back(m.v[static_cast<std::size_t>(g.in(0, (int)m.v.size() - 1))]);
          t += (i ? ",[" : "[") + std::to_string((int)c[i]) + "," + std::to_string(vv.back().var_rep->index) + "]";
        }
        e.x = "{\"c\":0,\"a\":[" + t + "],\"q\":[]}";
        if (isA(d))
          m.a[d] = varDot(c, vv);
        else
          m.q[d] = QuadExpr(varDot(c, vv));
        e.via = "varDot";
        break;
      }
      default:
        if (isA(d))
        {
          e.xr = pickReg(g, false);
          m.a[d] = AffExpr(m.a[e.xr]);
        }
        else if (g.chance(50))
        {
          e.xr = pickReg(g, false);
          m.q[d] = QuadExpr(m.a[e.xr]);
        }
        else
        {
          const AffExpr l = randAff(g, m.v, 3, 4);
          e.x = raw(l);
          m.q[d] = QuadExpr(l);
        }
        e.via = "copy";
    }
    return e;
  }
  if (f == "scale")
  {
    if (free)
      d = pickReg(g, g.chance(50));
    if (x.empty())
      x = isA(d) ? pickReg(g, false) : pickReg(g, true);
    if (!isA(d) && isA(x))
      x = "q0";
    e.d = d;
    e.xr = x;
    if (d == x && g.chance(60))
    {
      e.via = "exprScale";
      if (isA(d))
        exprScale(m.a[d], k);
      else
        exprScale(m.q[d], k);
      return e;
    }
    const int c = g.in(0, isA(d) ? 5 : 2);
    e.via = "exprMult/operator* " + std::to_string(c);
    if (!isA(d))
      m.q[d] = c == 0 ? exprMult(m.q[x], k) : c == 1 ? static_cast<double>(k) * m.q[x] : m.q[x] * static_cast<double>(k);
    else if (c <= 2)
      m.a[d] = c == 0 ? exprMult(m.a[x], k) : c == 1 ? static_cast<double>(k) * m.a[x] : m.a[x] * static_cast<double>(k);
    else if (c == 3 && k == -1)
      m.a[d] = -m.a[x];
    else
    {
      e.xr = "";
      const Var w = litVar(e.x);
      m.a[d] = k == -1 ? -w : c == 3 ? exprMult(w, k) : c == 4 ? static_cast<double>(k) * w : w * static_cast<double>(k);
    }
    return e;
  }
  if (f == "mul" || f == "square")
  {
    if (free)
      d = pickReg(g, true);
    e.d = d;
    e.xr = x.empty() ? pickReg(g, false) : x;
    e.yr = f == "square" ? e.xr : y.empty() ? pickReg(g, false) : y;
    if (f == "mul")
      m.q[d] = exprMult(m.a[e.xr], m.a[e.yr]);
    else if (g.chance(75))
      m.q[d] = exprSquare(m.a[e.xr]);
    else
    {
      e.xr = e.yr = "";
      const Var w = litVar(e.x);
      e.y = e.x;
      m.q[d] = exprSquare(w);
    }
    e.via = f;
    return e;
  }
  // add / sub
  const bool add = f == "add";
  if (free)
    d = pickReg(g, g.chance(50));
  const bool qd = !isA(d);
  if (x.empty())
    x = g.chance(50) ? d : pickReg(g, qd);
  if (y.empty())
    y = pickReg(g, qd && g.chance(50));
  e.d = d;
  e.xr = x;
  e.yr = y;
  // the second operand: register, number or variable
  const int kind = g.in(0, 5);
  if (kind == 0)
  {
    const int c = g.in(-6, 6);
    e.yr = "";
    e.y = "{\"c\":" + std::to_string(c) + ",\"a\":[],\"q\":[]}";
    if (x == d && g.chance(50))
    {
      if (qd)
        add ? exprInc(m.q[d], c) : exprDec(m.q[d], c);
      else
        add ? exprInc(m.a[d], c) : exprDec(m.a[d], c);
      e.via = "inc(double)";
    }
    else if (qd && !isA(x))
    {
      if (g.chance(50))
        m.q[d] = add ? m.q[x] + static_cast<double>(c) : m.q[x] - static_cast<double>(c);
      else
        m.q[d] = add ? exprAdd(m.q[x], c) : exprSub(m.q[x], c);
      e.via = "quad+double";
    }
    else
    {
      AffExpr r;
      const AffExpr& s = m.a[isA(x) ? x : (e.xr = "a0")];
      if (g.chance(30))
      {
        e.xr = "";
        const Var w = litVar(e.x);
        r = add ? w + static_cast<double>(c) : w - static_cast<double>(c);
      }
      else if (g.chance(50))
        r = add ? s + static_cast<double>(c) : s - static_cast<double>(c);
      else
        r = add ? exprAdd(s, c) : exprSub(s, c);
      if (qd)
        m.q[d] = QuadExpr(r);
      else
        m.a[d] = r;
      e.via = "aff+double";
    }
    return e;
  }
  if (kind == 1)
  {
    e.yr = "";
    const Var w = litVar(e.y);
    if (x == d && g.chance(50))
    {
      if (qd)
        add ? exprInc(m.q[d], w) : exprDec(m.q[d], w);
      else
        add ? exprInc(m.a[d], w) : exprDec(m.a[d], w);
      e.via = "inc(Var)";
    }
    else if (qd && !isA(x))
    {
      if (g.chance(50))
        m.q[d] = add ? m.q[x] + w : m.q[x] - w;
      else
        m.q[d] = add ? exprAdd(m.q[x], w) : exprSub(m.q[x], w);
      e.via = "quad+Var";
    }
    else
    {
      AffExpr r;
      const AffExpr& s = m.a[isA(x) ? x : (e.xr = "a1")];
      if (g.chance(30))
      {
        e.xr = "";
        const Var w2 = litVar(e.x);
        r = add ? w2 + w : w2 - w;
      }
      else if (g.chance(50))
        r = add ? s + w : s - w;
      else
        r = add ? exprAdd(s, w) : exprSub(s, w);
      if (qd)
        m.q[d] = QuadExpr(r);
      else
        m.a[d] = r;
      e.via = "aff+Var";
    }
    return e;
  }
  if (!qd)
  {  // affine result
    if (x == d && y != d && g.chance(50))
    {
      if (g.chance(40))
      {
        e.via = "inc(Aff&&)";
        if (add)
          exprInc(m.a[d], std::move(m.a[y]));
        else
          exprDec(m.a[d], std::move(m.a[y]));
        m.a[y] = AffExpr();
        e.gone = y;
      }
      else
      {
        e.via = "inc(Aff)";
        add ? exprInc(m.a[d], m.a[y]) : exprDec(m.a[d], m.a[y]);
      }
    }
    else if (x == d && y == d && !add)
    {
      e.via = "dec(self)";
      exprDec(m.a[d], m.a[d]);
    }
    else if (g.chance(25))
    {
      e.via = "Var+aff";
      e.xr = "";
      const Var w = litVar(e.x);
      m.a[d] = add ? w + m.a[y] : w - m.a[y];
    }
    else if (g.chance(50))
    {
      e.via = "aff+aff";
      m.a[d] = add ? m.a[x] + m.a[y] : m.a[x] - m.a[y];
    }
    else
    {
      e.via = "exprAdd";
      m.a[d] = add ? exprAdd(m.a[x], m.a[y]) : exprSub(m.a[x], m.a[y]);
    }
    return e;
  }
  // quadratic result
  if (isA(x) && isA(y))
  {
    e.via = "quad(aff+aff)";
    m.q[d] = QuadExpr(add ? m.a[x] + m.a[y] : m.a[x] - m.a[y]);
  }
  else if (!isA(x) && isA(y))
  {
    if (x == d && g.chance(60))
    {
      if (g.chance(50))
      {
        e.via = "inc(Quad,Aff&&)";
        if (add)
          exprInc(m.q[d], std::move(m.a[y]));
        else
          exprDec(m.q[d], std::move(m.a[y]));
        m.a[y] = AffExpr();
        e.gone = y;
      }
      else
      {
        e.via = "inc(Quad,Aff)";
        add ? exprInc(m.q[d], m.a[y]) : exprDec(m.q[d], m.a[y]);
      }
    }
    else if (g.chance(50))
    {
      e.via = "quad+aff";
      m.q[d] = add ? m.q[x] + m.a[y] : m.q[x] - m.a[y];
    }
    else
    {
      e.via = "exprAdd(quad,aff)";
      m.q[d] = add ? exprAdd(m.q[x], m.a[y]) : exprSub(m.q[x], m.a[y]);
    }
  }
  else if (isA(x))
  {
    if (g.chance(30))
    {
      e.via = "Var+quad";
      e.xr = "";
      const Var w = litVar(e.x);
      m.q[d] = add ? w + m.q[y] : w - m.q[y];
    }
    else
    {
      e.via = "aff+quad";
      m.q[d] = add ? m.a[x] + m.q[y] : m.a[x] - m.q[y];
    }
  }
  else if (x == d && y != d && g.chance(60))
  {
    if (g.chance(50))
    {
      e.via = "inc(Quad&&)";
      if (add)
        exprInc(m.q[d], std::move(m.q[y]));
      else
        exprDec(m.q[d], std::move(m.q[y]));
      m.q[y] = QuadExpr();
      e.gone = y;
    }
    else
    {
      e.via = "inc(Quad)";
      add ? exprInc(m.q[d], m.q[y]) : exprDec(m.q[d], m.q[y]);
    }
  }
  else if (x == d && y == d && !add && g.chance(50))
  {
    e.via = "dec(self)";
    exprDec(m.q[d], m.q[d]);
  }
  else if (g.chance(50))
  {
    e.via = "quad+quad";
    m.q[d] = add ? m.q[x] + m.q[y] : m.q[x] - m.q[y];
  }
  else
  {
    e.via = "exprAdd(quad)";
    m.q[d] = add ? exprAdd(m.q[x], m.q[y]) : exprSub(m.q[x], m.q[y]);
  }
  return e;
}
static void fresh(Rng& g, Mach& m, int n)
{
  m.v = mkVars(n);
  for (const char* r : { "a0", "a1", "a2" })
    m.a[r] = randAff(g, m.v, 4, 4);
  for (const char* r : { "q0", "q1" })
    m.q[r] = randQuad(g, m.v, 3, 4);
}
static void tellNew(const Mach& m) { out(Obj().str("e", "new").i("n", (long)m.v.size()).raw("regs", m.regs())); }
static void tellOp(Rng& g, const Mach& m, const Ev& e)
{
  DblVec x(m.v.size());
  for (auto& c : x)
    c = g.in(-3, 3);
  out(Obj().str("e", "op").str("f", e.f).str("via", e.via).str("d", e.d).str("xr", e.xr).str("yr", e.yr).raw("x", e.x).raw("y", e.y).str("gone", e.gone).i("k", e.k)
          .raw("regs", m.regs()).dv("at", x).raw("vals", m.vals(x, false)).raw("valp", m.vals(x, true)));
}
static bool big(const Mach& m)
{
  auto b = [](const AffExpr& e) {
    double s = std::fabs(e.constant);
    for (double c : e.coeffs)
      s += std::fabs(c);
    return s > 3000 || e.coeffs.size() > 40;
  };
  for (const auto& p : m.a)
    if (b(p.second))
      return true;
  for (const auto& p : m.q)
  {
    double s = 0;
    for (double c : p.second.coeffs)
      s += std::fabs(c);
    if (b(p.second.affexpr) || s > 5000 || p.second.coeffs.size() > 60)
      return true;
  }
  return false;
}
static AffExpr readAff(const Json::Value& j, const std::vector<Var>& v)
{
  AffExpr e(j["c"].asDouble());
  for (const auto& t : j["a"])
  {
    e.coeffs.push_back(t[0].asDouble());
    e.vars.push_back(v[t[1].asUInt()]);
  }
  return e;
}
static void cleanup(Rng& g)
{
  const int n = g.in(1, 4);
  const auto v = mkVars(n);
  AffExpr e(static_cast<double>(g.in(-5, 5)));
  const double unit = std::ldexp(1.0, -30);
  for (int k = g.in(0, 7); k > 0; --k)
  {
    const int kind = g.in(0, 3);
    e.coeffs.push_back((kind == 0 ? 0 : kind == 1 ? g.in(-60, 60) : kind == 2 ? g.in(180, 4000) * (g.chance(50) ? 1 : -1) : g.in(-50, 50) * 1000000) * unit);
    e.vars.push_back(v[static_cast<std::size_t>(g.in(0, n - 1))]);
  }
  const AffExpr c = cleanupAff(e);
  out(Obj().str("e", "clean").i("n", n).raw("x", raw(e, nullptr, std::ldexp(1.0, 30))).raw("o", raw(c, nullptr, std::ldexp(1.0, 30))));
}
// ---------------------------------------------------------------------------------------------------- matrix expressions
static trajopt_sqp::AffExprs aff_obj;
static trajopt_sqp::QuadExprs quad_obj;
static Eigen::VectorXd rv(Rng& g, long n, int mag)
{
  Eigen::VectorXd v(n);
  for (long i = 0; i < n; ++i)
    v[i] = g.in(-mag, mag);
  return v;
}
static Eigen::MatrixXd rm(Rng& g, long m, long n, int density)
{
  Eigen::MatrixXd a = Eigen::MatrixXd::Zero(m, n);
  for (long i = 0; i < m; ++i)
    for (long j = 0; j < n; ++j)
      if (g.chance(density))
        a(i, j) = g.in(-4, 4);
  return a;
}
static std::string vecs(const std::vector<Eigen::VectorXd>& v, double scale = 1.0, double tol = 0.0)
{
  std::string s = "[";
  for (const auto& x : v)
  {
    s += s.size() > 1 ? ",[" : "[";
    for (long i = 0; i < x.size(); ++i)
      s += (i ? "," : "") + std::to_string(I(x[i], scale, tol));
    s += "]";
  }
  return s + "]";
}
static trajopt_ifopt::Jacobian sp(const Eigen::MatrixXd& m)
{
  trajopt_ifopt::Jacobian s(m.rows(), m.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (long i = 0; i < m.rows(); ++i)
    for (long j = 0; j < m.cols(); ++j)
      if (m(i, j) != 0)
        t.emplace_back(i, j, m(i, j));
  s.setFromTriplets(t.begin(), t.end());
  return s;
}
static void matrices(Rng& g)
{
  const long n = g.in(1, 4), m = g.in(0, 4);
  const int dens = g.chance(20) ? 15 : 60;
  const Eigen::VectorXd f = rv(g, m, 6), x0 = rv(g, n, 3);
  const Eigen::MatrixXd J = rm(g, m, n, dens);
  std::vector<Eigen::VectorXd> ys, vs;
  for (int k = 0; k < 3; ++k)
    ys.push_back(k == 0 ? x0 : rv(g, n, 3));
  const bool reuse = g.chance(70);
  trajopt_sqp::AffExprs a_fresh;
  trajopt_sqp::QuadExprs q_fresh;
  auto& A = reuse ? aff_obj : a_fresh;
  auto& Q = reuse ? quad_obj : q_fresh;
  auto values = [&](const trajopt_sqp::Exprs& e) {
    vs.clear();
    for (const auto& y : ys)
    {
      Eigen::VectorXd o = Eigen::VectorXd::Constant(m, 77);
      e.values(o, y);
      vs.push_back(o);
    }
  };
  const int what = g.in(0, 2);
  if (what <= 1)
  {
    A.create(f, sp(J), x0);
    values(A);
    out(Obj().str("e", "aff").dv("f", f).dm("J", J).dv("x0", x0).dm("lin", Eigen::MatrixXd(A.linear_coeffs)).raw("ys", vecs(ys)).raw("vs", vecs(vs)));
    if (what == 1)
    {
      // as the QP problem does: edit the affine expression, then square it
      if (g.chance(50))
      {
        A.constants = rv(g, m, 3) - A.constants;
        A.linear_coeffs *= -1;
      }
      Eigen::VectorXd w(m);
      static const int sq[] = { 0, 1, 4, 9, 16, 1, 4 };
      for (long i = 0; i < m; ++i)
        w[i] = sq[g.in(0, 6)];
      A.square(Q, w);
      values(Q);
      out(Obj().str("e", "square").dv("c", A.constants).dm("A", Eigen::MatrixXd(A.linear_coeffs)).dv("w", w).dv("qc", Q.constants)
              .dm("ql", Eigen::MatrixXd(Q.linear_coeffs)).dv("ol", Q.objective_linear_coeffs).dm("oq", Eigen::MatrixXd(Q.objective_quadratic_coeffs))
              .raw("ys", vecs(ys)).raw("vs", vecs(vs)));
    }
  }
  else
  {
    std::vector<trajopt_ifopt::Jacobian> H;
    std::string hs = "[";
    for (long i = 0; i < m; ++i)
    {
      Eigen::MatrixXd h = rm(g, n, n, g.chance(30) ? 0 : 50);
      const Eigen::MatrixXd hh = h + h.transpose();
      h = g.chance(50) ? hh : Eigen::MatrixXd(h.diagonal().asDiagonal());
      H.push_back(sp(h));
      Obj o;
      o.dm("h", h);
      const std::string s = o.done();
      hs += (i ? "," : "") + s.substr(5, s.size() - 6);
    }
    hs += "]";
    Q.create(f, sp(J), H, x0);
    values(Q);
    out(Obj().str("e", "quad").dv("f", f).dm("J", J).raw("H", hs).dv("x0", x0).raw("ys", vecs(ys)).raw("vs", vecs(vs, 2.0)));
  }
}
// ----------------------------------------------------------------------------------------------------------- matrix forms
static std::string triples(const IntVec& r, const IntVec& c, const DblVec& v)
{
  std::string s = "[";
  const std::size_t n = std::max(r.size(), std::max(c.size(), v.size()));
  for (std::size_t i = 0; i < n; ++i)
    s += (i ? ",[" : "[") + std::to_string(i < r.size() ? r[i] : -1) + "," + std::to_string(i < c.size() ? c[i] : -1) + "," + std::to_string(i < v.size() ? I(v[i]) : NANV) + "]";
  return s + "]";
}
template <int UP, typename T>
static void csc(Eigen::SparseMatrix<double>& sm, const Eigen::MatrixXd& M, int up)
{
  std::vector<T> ri{ 7, 7, 7 }, cp{ 9 };
  DblVec v{ 1, 2 };
  eigenToCSC<UP>(sm, ri, cp, v);
  out(Obj().str("e", "csc").i("up", up).dm("M", M).i("nr", M.rows()).i("nc", M.cols()).iv("ri", ri).iv("cp", cp).dv("v", v).dm("left", Eigen::MatrixXd(sm)));
}
static Eigen::SparseVector<double> sv_obj;
static Eigen::SparseMatrix<double> sm_obj;
static Eigen::VectorXd v_obj;
static void affForm(const AffExpr& e, int n, int nv)
{
  bool thrown = false;
  try
  {
    exprToEigen(e, sv_obj, nv);
  }
  catch (const std::exception&)
  {
    thrown = true;
  }
  out(Obj().str("e", "aff").raw("x", raw(e)).i("n", n).i("nv", nv).b("thrown", thrown).dv("v", thrown ? Eigen::VectorXd() : Eigen::VectorXd(sv_obj)));
}
static std::vector<int> diagStored(const Eigen::SparseMatrix<double>& m)
{
  std::vector<int> d(static_cast<std::size_t>(m.rows()), 0);
  for (int k = 0; k < m.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it)
      if (it.row() == it.col())
        d[static_cast<std::size_t>(it.row())] = 1;
  return d;
}
static void quadForm(const QuadExpr& e, int n, int nv, bool halved, bool diag)
{
  bool thrown = false;
  try
  {
    exprToEigen(e, sm_obj, v_obj, nv, halved, diag);
  }
  catch (const std::exception&)
  {
    thrown = true;
  }
  out(Obj().str("e", "quad").raw("x", raw(e)).i("n", n).i("nv", nv).b("halved", halved).b("diag", diag).b("thrown", thrown)
          .dm("M2", thrown ? Eigen::MatrixXd() : Eigen::MatrixXd(sm_obj), 2.0).dv("v", thrown ? Eigen::VectorXd() : v_obj)
          .iv("ds", thrown ? std::vector<int>() : diagStored(sm_obj)));
}
static void rowsForm(const AffExprVector& ev, int n, int nv)
{
  bool thrown = false;
  try
  {
    exprToEigen(ev, sm_obj, v_obj, nv);
  }
  catch (const std::exception&)
  {
    thrown = true;
  }
  std::string xs = "[";
  for (std::size_t i = 0; i < ev.size(); ++i)
    xs += (i ? "," : "") + raw(ev[i]);
  out(Obj().str("e", "rows").raw("xs", xs + "]").i("n", n).i("nv", nv).b("thrown", thrown).i("mr", thrown ? 0 : sm_obj.rows()).i("mc", thrown ? 0 : sm_obj.cols())
          .dm("M", thrown ? Eigen::MatrixXd() : Eigen::MatrixXd(sm_obj)).dv("v", thrown ? Eigen::VectorXd() : v_obj));
}
static void tripForm(Rng& g, const Eigen::MatrixXd& M)
{
  // reserve leaves room: the matrix need not be compressed
  Eigen::SparseMatrix<double> s(M.rows(), M.cols());
  if (g.chance(50))
    s.reserve(Eigen::VectorXi::Constant(M.cols(), g.in(1, 4)));
  std::vector<std::pair<int, int>> at;
  for (int j = 0; j < M.cols(); ++j)
    for (int i = 0; i < M.rows(); ++i)
      if (M(i, j) != 0 || g.chance(8))
        at.emplace_back(i, j);
  for (std::size_t k = at.size(); k > 1; --k)
    std::swap(at[k - 1], at[static_cast<std::size_t>(g.in(0, (int)k - 1))]);
  for (const auto& p : at)
    s.coeffRef(p.first, p.second) = M(p.first, p.second);
  if (g.chance(40))
    s.makeCompressed();
  IntVec r, c;
  DblVec v;
  eigenToTriplets(s, r, c, v);
  out(Obj().str("e", "trip").dm("M", M).i("nr", M.rows()).i("nc", M.cols()).raw("t", triples(r, c, v)));
  switch (g.in(0, 5))
  {
    case 0: csc<0, int>(s, M, 0); break;
    case 1: csc<0, long long>(s, M, 0); break;
    case 2: csc<Eigen::Upper, int>(s, M, 2); break;
    case 3: csc<Eigen::Upper, long long>(s, M, 2); break;
    case 4: csc<Eigen::Lower, int>(s, M, 1); break;
    default: csc<Eigen::Lower, long long>(s, M, 1); break;
  }
}
static void untrip(Rng& g, int nr, int nc)
{
  IntVec r, c;
  DblVec v;
  for (int k = g.in(0, 9); k > 0 && nr > 0 && nc > 0; --k)
  {
    r.push_back(g.in(0, nr - 1));
    c.push_back(g.in(0, nc - 1));
    v.push_back(g.in(-5, 5));
  }
  Eigen::SparseMatrix<double> s(nr, nc);
  if (nr > 0 && nc > 0 && g.chance(40))
  {
    s.insert(0, 0) = 3;  // what was there before is replaced
    s.makeCompressed();
  }
  tripletsToEigen(r, c, v, s);
  out(Obj().str("e", "untrip").raw("t", triples(r, c, v)).i("nr", nr).i("nc", nc).dm("M", Eigen::MatrixXd(s)));
}
static void simp(Rng& g)
{
  IntVec in;
  DblVec v;
  for (int k = g.in(0, 8); k > 0; --k)
  {
    in.push_back(g.in(0, 4));
    v.push_back(g.in(-3, 3));
  }
  Obj o;
  o.str("e", "simp").iv("i0", in).dv("v0", v);
  simplify2(in, v);
  out(o.iv("i1", in).dv("v1", v));
}
static void matRandom(Rng& g)
{
  const int n = g.in(1, 6);
  const auto v = mkVars(n);
  const int nv = g.chance(60) ? n : std::max(0, n + g.in(-2, 2));
  switch (g.in(0, 5))
  {
    case 0: affForm(randAff(g, v, 8, 5), n, nv); break;
    case 1: quadForm(randQuad(g, v, 8, 5), n, nv, g.chance(50), g.chance(50)); break;
    case 2:
    {
      AffExprVector ev;
      for (int k = g.in(0, 4); k > 0; --k)
        ev.push_back(randAff(g, v, 5, 5));
      rowsForm(ev, n, nv);
      break;
    }
    case 3: tripForm(g, [&] { const int k = g.in(1, 5); return g.chance(70) ? rm(g, k, k, 50) : rm(g, k, g.in(1, 5), 40); }()); break;
    case 4: untrip(g, g.in(1, 4), g.in(1, 5)); break;
    default: simp(g);
  }
}
int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    for (const auto& s : readScenarios(argv[2]))
    {
      Mach m;
      fresh(g, m, 2);
      m.a["a0"] = readAff(s["a0"], m.v);
      m.a["a1"] = readAff(s["a1"], m.v);
      QuadExpr q(readAff(s["q0"], m.v));
      for (const auto& t : s["q0"]["q"])
      {
        q.coeffs.push_back(t[0].asDouble());
        q.vars1.push_back(m.v[t[1].asUInt()]);
        q.vars2.push_back(m.v[t[2].asUInt()]);
      }
      m.q["q0"] = q;
      tellNew(m);
      const auto& p = s["op"];
      tellOp(g, m, perform(g, m, p["f"].asString(), p["d"].asString(), p["x"].asString(), p["y"].asString(), p["k"].asInt()));
    }
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    const int cnt = std::atoi(argv[3]);
    out.open(argv[4]);
    static const char* F[] = { "add", "add", "add", "sub", "sub", "sub", "scale", "mul", "square", "copy", "add", "sub" };
    for (int k = 0; k < cnt; ++k)
    {
      Mach m;
      fresh(g, m, g.in(1, 4));
      tellNew(m);
      for (int j = g.in(4, 14); j > 0; --j)
      {
        if (big(m))
          break;
        static const int K[] = { -2, -1, -1, 0, 2, 3 };
        tellOp(g, m, perform(g, m, F[g.in(0, 11)], "", "", "", K[g.in(0, 5)]));
      }
      for (int j = 0; j < 4; ++j)
        matrices(g);
      cleanup(g);
    }
    return 0;
  }
  if (mode == "mreplay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    for (const auto& s : readScenarios(argv[2]))
    {
      const int nv = s["nv"].asInt();
      const auto v = mkVars(3);
      QuadExpr q(readAff(s["x"], v));
      for (const auto& t : s["x"]["q"])
      {
        q.coeffs.push_back(t[0].asDouble());
        q.vars1.push_back(v[t[1].asUInt()]);
        q.vars2.push_back(v[t[2].asUInt()]);
      }
      affForm(q.affexpr, 3, nv);
      quadForm(q, 3, nv, s["halved"].asBool(), s["diag"].asBool());
      rowsForm({ q.affexpr, AffExpr(2.0), q.affexpr }, 3, nv);
    }
    return 0;
  }
  if (mode == "mrandom" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    const int cnt = std::atoi(argv[3]);
    out.open(argv[4]);
    for (int k = 0; k < cnt; ++k)
      matRandom(g);
    return 0;
  }
  return 3;
}
