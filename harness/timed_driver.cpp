// C22: timed joint terms, total time, singularity terms. timed_driver replay SCN SEED OUT | random SEED N OUT
#include "json_out.h"
#include <tesseract/kinematics/joint_group.h>
#include <trajopt/kinematic_terms.hpp>
#include <algorithm>
#include <memory>
using namespace vd;
using Eigen::MatrixXd;
using Eigen::VectorXd;
static Out out;

template <class V>
static std::string list(const V& v)
{
  std::string s = "[";
  for (const auto& e : v)
    s += (s.size() > 1 ? "," : "") + std::to_string(e);
  return s + "]";
}
static std::string quoted(const std::vector<std::string>& v)
{
  std::string t = "[";
  for (const auto& n : v)
    t += (t.size() > 1 ? ",\"" : "\"") + n + "\"";
  return t + "]";
}
static std::string text(const Json::Value& v)
{
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  return Json::writeString(b, v);
}
/// rows times their denominators (squared, for a Jacobian)
static std::string scaled(const MatrixXd& m, const std::vector<double>& p)
{
  std::string s = "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i)
  {
    s += i ? ",[" : "[";
    const double k = static_cast<std::size_t>(i) < p.size() ? p[static_cast<std::size_t>(i)] : 1;
    for (Eigen::Index j = 0; j < m.cols(); ++j)
      s += (j ? "," : "") + std::to_string(I(m(i, j), k, 1e-4));
    s += "]";
  }
  return s + "]";
}
static void timed(const Json::Value& t, const std::vector<int>& y)
{
  VectorXd x(y.size());
  for (std::size_t i = 0; i < y.size(); ++i)
    x[static_cast<Eigen::Index>(i)] = y[i];
  const std::string k = t["k"].asString();
  const double tg = t["tg"].asInt(), up = t["up"].asInt(), lo = t["lo"].asInt(), lim = t["lim"].asInt();
  std::unique_ptr<sco::VectorOfVector> f;
  std::unique_ptr<sco::MatrixOfVector> d;
  const int n = static_cast<int>(y.size()) / 2;
  const auto r = [&](int i) { return static_cast<double>(y[static_cast<std::size_t>(n + i)]); };
  std::vector<double> p;
  if (k == "vel")
  {
    f = std::make_unique<trajopt::JointVelErrCalculator>(tg, up, lo);
    d = std::make_unique<trajopt::JointVelJacCalculator>();
    p.assign(static_cast<std::size_t>(2 * (n - 1)), 1);
  }
  else if (k == "acc")
  {
    f = std::make_unique<trajopt::JointAccErrCalculator>(lim);
    d = std::make_unique<trajopt::JointAccJacCalculator>();
    for (int i = 0; i + 2 < n; ++i)
      p.push_back(r(i + 1) + r(i + 2));
  }
  else if (k == "jerk")
  {
    f = std::make_unique<trajopt::JointJerkErrCalculator>(lim);
    d = std::make_unique<trajopt::JointJerkJacCalculator>();
    for (int i = 0; i + 3 < n; ++i)
      p.push_back((r(i + 1) + r(i + 2)) * (r(i + 2) + r(i + 3)) * (r(i + 1) + r(i + 2) + r(i + 3)));
  }
  else
  {
    f = std::make_unique<trajopt::TimeCostCalculator>(lim);
    d = std::make_unique<trajopt::TimeCostJacCalculator>();
    p.assign(1, 1);
    for (const int v : y)
      p[0] *= v;
  }
  const VectorXd v = (*f)(x);
  const MatrixXd j = (*d)(x);
  std::string val = "[";
  for (Eigen::Index i = 0; i < v.size(); ++i)
    val += (i ? "," : "") + std::to_string(I(v[i], static_cast<std::size_t>(i) < p.size() ? p[static_cast<std::size_t>(i)] : 1, 1e-6));
  std::vector<double> p2;
  std::vector<int> pi;
  for (const double q : p)
  {
    p2.push_back(q * q);
    pi.push_back(static_cast<int>(q));
  }
  out(Obj().str("e", "timed").raw("t", text(t)).iv("y", y).iv("p", pi).raw("val", val + "]").raw("jac", scaled(j, p2)));
}

struct Orthogonal : tesseract::kinematics::JointGroup
{
  std::vector<std::string> names;
  std::vector<int> a;
  std::vector<std::vector<int>> b;
  mutable bool links{ true };
  MatrixXd calcJacobian(const VectorXd& q, const std::string& link) const override
  {
    links = links && link == "tip" && q.size() == static_cast<Eigen::Index>(a.size());
    MatrixXd j = MatrixXd::Zero(6, static_cast<Eigen::Index>(a.size()));
    for (std::size_t c = 0; c < a.size(); ++c)
    {
      double s = a[c];
      for (std::size_t k = 0; k < a.size(); ++k)
        s += b[c][k] * q[static_cast<Eigen::Index>(k)];
      j(static_cast<Eigen::Index>((c * 2 + 1) % 6 + (c > 2 ? 1 : 0)) % 6, static_cast<Eigen::Index>(c)) = s;
    }
    return j;
  }
  bool isActiveLinkName(const std::string&) const override { return true; }
  std::vector<std::string> getJointNames() const override { return names; }
};
static void sing(Rng& g)
{
  std::vector<std::string> all{ "j1", "j2", "j3", "j4", "j5", "j6" };
  const auto shuffle = [&](std::vector<std::string>& v) {
    for (std::size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[static_cast<std::size_t>(g.in(0, static_cast<int>(i) - 1))]);
  };
  shuffle(all);
  const bool whole = g.chance(40);
  std::vector<std::string> sub(all.begin(), all.begin() + g.in(1, 4)), sup(all.begin(), all.begin() + g.in(static_cast<int>(sub.size()), 6));
  shuffle(sup);
  if (whole)
    sup = sub;
  auto kin = std::make_shared<Orthogonal>(), big = std::make_shared<Orthogonal>();
  kin->names = sub;
  big->names = sup;
  std::vector<int> x;
  for (std::size_t i = 0; i < sup.size(); ++i)
    x.push_back(g.in(-2, 2));
  std::string bs = "[";
  for (std::size_t i = 0; i < sub.size(); ++i)
  {
    kin->a.push_back(g.in(-4, 6));
    kin->b.emplace_back();
    for (std::size_t k = 0; k < sub.size(); ++k)
      kin->b[i].push_back(g.in(-2, 2));
    bs += (i ? "," : "") + list(kin->b[i]);
  }
  const int lambda = g.in(0, 2);
  // the smallest stretch, for the denominator: the specification checks it through the exactness of what is reported
  int least = 1 << 20;
  for (std::size_t i = 0; i < sub.size(); ++i)
  {
    int s = kin->a[i];
    for (std::size_t k = 0; k < sub.size(); ++k)
      s += kin->b[i][k] * x[static_cast<std::size_t>(std::find(sup.begin(), sup.end(), sub[k]) - sup.begin())];
    least = std::min(least, std::abs(s));
  }
  if (least + lambda == 0)
    return;
  VectorXd q(x.size());
  for (std::size_t i = 0; i < x.size(); ++i)
    q[static_cast<Eigen::Index>(i)] = x[i];
  VectorXd v;
  MatrixXd j;
  if (whole)
  {
    v = trajopt::AvoidSingularityErrCalculator(kin, "tip", lambda)(q);
    j = g.chance(50) ? trajopt::AvoidSingularityJacCalculator(kin, "tip", lambda)(q) : trajopt::AvoidSingularityJacCalculator(kin, "tip", lambda, 1e-3)(q);
  }
  else
  {
    v = trajopt::AvoidSingularitySubsetErrCalculator(kin, big, "tip", lambda)(q);
    j = trajopt::AvoidSingularitySubsetJacCalculator(kin, big, "tip", lambda, 1e-4)(q);
  }
  const double p = least + lambda, w = 1 + 10 * lambda;
  Obj o;
  o.str("e", "sing").raw("sup", quoted(sup)).raw("sub", quoted(sub)).iv("x", x);
  o.raw("w", "{\"a\":" + list(kin->a) + ",\"b\":" + bs + "],\"lambda\":" + std::to_string(lambda) + "}");
  o.b("links", kin->links).dv("val", v, p * w, 1e-6).raw("jac", scaled(j, std::vector<double>(static_cast<std::size_t>(j.rows()), p * p)));
  out(o);
}
int main(int, char** argv)
{
  const std::string mode = argv[1];
  out.open(argv[4]);
  if (mode == "replay")
  {
    for (const auto& s : readScenarios(argv[2]))
    {
      std::vector<int> y;
      for (const auto& v : s["y"])
        y.push_back(v.asInt());
      timed(s["t"], y);
    }
    return 0;
  }
  Rng g(std::atol(argv[2]));
  for (int i = std::atoi(argv[3]); i > 0; --i)
  {
    if (g.chance(30))
    {
      sing(g);
      continue;
    }
    Json::Value t;
    const int k = g.in(0, 3);
    t["k"] = k == 0 ? "vel" : k == 1 ? "acc" : k == 2 ? "jerk" : "time";
    t["tg"] = k == 0 ? g.in(-4, 4) : 0;
    t["up"] = k == 0 ? g.in(0, 3) : 0;
    t["lo"] = k == 0 ? -g.in(0, 3) : 0;
    t["lim"] = k == 0 ? 0 : g.in(-3, 5);
    const int n = k == 3 ? g.in(1, 6) : g.in(k + 2, 7);
    std::vector<int> y;
    for (int j = 0; j < n && k != 3; ++j)
      y.push_back(g.in(-6, 6));
    for (int j = 0; j < n; ++j)
      y.push_back(g.in(1, 3));
    timed(t, y);
  }
  return 0;
}
