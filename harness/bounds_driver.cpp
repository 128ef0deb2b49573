// C09: trajopt_ifopt::Bounds and the bound helpers. bounds_driver replay SCN SEED OUT | random SEED N OUT
#include "json_out.h"
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
using namespace vd;
using namespace trajopt_ifopt;
static Out out;
static const double U = std::ldexp(1.0, -30);  // one unit
static const double S = std::ldexp(1.0, 30);

static double real(long v, Rng& g)
{
  if (v >= INF || v <= -INF)
  {
    const double m = g.chance(50) ? HUGE_VAL : (g.chance(50) ? 1e20 : 1e30);
    return v > 0 ? m : -m;
  }
  return static_cast<double>(v) * U;
}
static std::string kind(BoundsType t)
{
  switch (t)
  {
    case BoundsType::kUnbounded:
      return "free";
    case BoundsType::kEquality:
      return "eq";
    case BoundsType::kLowerBound:
      return "lower";
    case BoundsType::kUpperBound:
      return "upper";
    case BoundsType::kRangeBound:
      return "range";
  }
  return "?";
}
static void see(Obj& o, const Bounds& b)
{
  o.d("lo", b.getLower(), S).d("hi", b.getUpper(), S).str("kind", kind(b.getType()));
}
static void op(Bounds& b, const std::string& p, long a, long c, Rng& g)
{
  const double x = real(a, g);
  if (p == "set")
    b.set(x, real(c, g));
  else if (p == "lo")
    b.setLower(x);
  else if (p == "hi")
    b.setUpper(x);
  else if (p == "add")
    b += x;
  else
    b -= x;
  Obj o;
  o.str("e", "op").raw("o", Obj().str("op", p).i("a", a).i("b", c).done());
  see(o, b);
  out(o);
}
static Bounds fresh(long a, long c, Rng& g)
{
  Bounds b(real(a, g), real(c, g));
  if (a == 0 && c == 0 && g.chance(50))
    b = Bounds();
  Obj o;
  o.str("e", "new").i("a", a).i("b", c);
  see(o, b);
  out(o);
  return b;
}
static long anyValue(Rng& g)
{
  static const long base[] = { 0, 1L << 26, -(1L << 26), 3L << 25, -(1L << 28), 1000 };
  return base[g.in(0, 5)] + g.in(-12, 12);
}
static void interval(Rng& g, long& lo, long& hi)
{
  lo = anyValue(g);
  hi = g.chance(30) ? lo + g.in(0, 12) : anyValue(g);
  if (lo > hi)
    std::swap(lo, hi);
  if (g.chance(25))
    lo = -INF;
  if (g.chance(25))
    hi = INF;
}
static void vec(Rng& g)
{
  const int n = g.in(0, 6);
  std::vector<long> xi(n), li(n), hi(n);
  Eigen::VectorXd x(n), lo(n), up(n);
  std::vector<Bounds> bs;
  for (int i = 0; i < n; ++i)
  {
    interval(g, li[i], hi[i]);
    xi[i] = anyValue(g);
    if (g.chance(30) && li[i] > -INF)
      xi[i] = li[i] + g.in(-1, 1);
    else if (g.chance(30) && hi[i] < INF)
      xi[i] = hi[i] + g.in(-1, 1);
    x[i] = static_cast<double>(xi[i]) * U;
    lo[i] = real(li[i], g);
    up[i] = real(hi[i], g);
    bs.emplace_back(lo[i], up[i]);
  }
  Eigen::MatrixX2d lim(n, 2);
  lim.col(0) = lo;
  lim.col(1) = up;
  const std::vector<Bounds> a = toBounds(lim), b = toBounds(lo, up);
  auto lows = [](const std::vector<Bounds>& v) {
    std::vector<double> r;
    for (const auto& q : v)
      r.push_back(q.getLower());
    return r;
  };
  auto ups = [](const std::vector<Bounds>& v) {
    std::vector<double> r;
    for (const auto& q : v)
      r.push_back(q.getUpper());
    return r;
  };
  std::string ks = "[";
  for (std::size_t i = 0; i < a.size(); ++i)
    ks += (i ? ",\"" : "\"") + kind(a[i].getType()) + "\"";
  ks += "]";
  // outputs start as garbage
  Eigen::VectorXd err = Eigen::VectorXd::Constant(n, 0.123), viol = Eigen::VectorXd::Constant(n, -7);
  calcBoundsErrors(err, x, bs);
  calcBoundsViolations(viol, x, bs);
  Obj o;
  o.str("e", "vec").dv("x", x, S).dv("lo", lo, S).dv("hi", up, S).dv("glo", lows(a), S).dv("ghi", ups(a), S);
  o.dv("glo2", lows(b), S).dv("ghi2", ups(b), S).raw("kinds", ks).dv("err", err, S).dv("viol", viol, S);
  o.dv("close", getClosestValidPoint(x, bs), S);
  out(o);
}
static void lerp(Rng& g)
{
  const int n = g.in(2, 9), d = g.in(1, 5);
  Eigen::VectorXd s(d), t(d);
  for (int i = 0; i < d; ++i)
  {
    s[i] = g.in(-50, 50);
    t[i] = g.chance(20) ? s[i] : g.in(-50, 50);
  }
  const auto p = interpolate(s, t, n);
  std::string r = "[";
  for (std::size_t i = 0; i < p.size(); ++i)
  {
    r += i ? ",[" : "[";
    for (long j = 0; j < p[i].size(); ++j)
      r += (j ? "," : "") + std::to_string(I(p[i][j], n - 1, 1e-6));
    r += "]";
  }
  out(Obj().str("e", "lerp").dv("s", s).dv("t", t).i("n", n).raw("p", r + "]"));
}
int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc == 5)
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    out.open(argv[4]);
    static const long units[] = { 1, 2, 5, 10, 11, 1L << 20, 1L << 26 };
    for (const auto& s : readScenarios(argv[2]))
    {
      const long k = units[g.in(0, 6)];
      auto v = [k](const Json::Value& j) {
        const long a = j.asInt();
        return (a >= INF || a <= -INF) ? a : a * k;
      };
      Bounds b = fresh(0, 0, g);
      for (const auto& o : s)
        op(b, o["op"].asString(), v(o["a"]), v(o["b"]), g);
    }
    return 0;
  }
  if (mode == "random" && argc == 5)
  {
    Rng g(std::strtoul(argv[2], nullptr, 10));
    const int n = std::atoi(argv[3]);
    out.open(argv[4]);
    for (int k = 0; k < n; ++k)
    {
      long lo, hi;
      interval(g, lo, hi);
      Bounds b = fresh(lo, hi, g);
      static const char* ops[] = { "set", "lo", "hi", "add", "sub" };
      const int m = g.in(1, 8);
      for (int i = 0; i < m; ++i)
      {
        const std::string p = ops[g.in(0, 4)];
        interval(g, lo, hi);
        if (p == "hi")
          op(b, p, hi, 0, g);
        else if (p == "add" || p == "sub")
          {
          const bool fin = std::abs(b.getLower()) < 1e19 && std::abs(b.getUpper()) < 1e19;
          op(b, p, fin && g.chance(15) ? (g.chance(50) ? INF : -INF) : g.in(-20, 20), 0, g);
        }
        else
          op(b, p, lo, p == "set" ? hi : 0, g);
      }
      vec(g);
      vec(g);
      lerp(g);
    }
    return 0;
  }
  return 3;
}
