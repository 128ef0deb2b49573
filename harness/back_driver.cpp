// C24: the OSQP and qpOASES models, over libraries of our own that keep what they are given and answer as told.
// back_driver replay SCN SEED OUT | random SEED N OUT | threads SEED N OUT
#include "model_world.hpp"
#include <cstring>
#include <sstream>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sco/qpoases_interface.hpp>
namespace sco
{
Model::Ptr createOSQPModel(const ModelConfig::ConstPtr& config);
}

// ---------------------------------------------------------------- what the libraries are told to do, and what they saw
struct Script
{
  int code{ 2 };           // what is found
  bool vec{ false }, mat{ false }, warm{ false };  // updates and warm starts that fail
  bool hot{ false };       // starting from the previous solution fails,
  int used{ 0 };           // after that many steps
  int need{ 1 };           // steps needed from the beginning
  int setup{ 0 };          // error of the setup
  int retcode{ 0 };        // error of the solver
  int base{ 0 };
};
static Script now;
struct Seen
{
  bool asked{ false };
  std::string p{ "{}" };
  std::string ans{ "none" };
  std::string calls;
};
static Seen seen;
static void called(const char* what, long rc) { seen.calls += std::string(seen.calls.empty() ? "" : ",") + "[\"" + what + "\"," + std::to_string(rc) + "]"; }

// a matrix in compressed columns, with a copy of everything
struct Csc
{
  long m{ 0 }, n{ 0 };
  std::vector<long> p, i;
  std::vector<double> x;
  template <class T>
  static Csc of(long m, long n, const T* p, const T* i, const double* x)
  {
    Csc c;
    c.m = m;
    c.n = n;
    c.p.assign(p, p + n + 1);
    const long nz = c.p.back();
    if (nz < 0 || nz > 1000000)
    {
      c.p.assign(static_cast<std::size_t>(n) + 1, -1);
      return c;
    }
    c.i.assign(i, i + nz);
    c.x.assign(x, x + nz);
    return c;
  }
  void write(Obj& o, const std::string& k) const
  {
    std::vector<long> c;
    for (std::size_t j = 1; j < p.size(); ++j)
      c.push_back(p[j] - p[j - 1]);
    std::vector<long> r;
    for (const long v : i)
      r.push_back(v + 1);
    o.iv((k + "c").c_str(), c).iv((k + "i").c_str(), r).dv((k + "v").c_str(), x);
  }
};

// ---------------------------------------------------------------- OSQP
struct OSQPWorkspace_
{
  Csc P, A;
  std::vector<double> q, l, u, x, y;
  long n{ 0 }, m{ 0 };
  void show() const
  {
    Obj o;
    o.i("n", n).i("m", m).i("pn", P.n).i("pm", P.m).i("an", A.n).i("am", A.m);
    P.write(o, "q");
    A.write(o, "a");
    o.dv("obj", q).dv("lo", l).dv("hi", u);
    seen.p = o.done();
  }
};
extern "C" {
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPFloat* x, OSQPInt* i, OSQPInt* p)
{
  auto* c = static_cast<OSQPCscMatrix*>(std::malloc(sizeof(OSQPCscMatrix)));
  *c = OSQPCscMatrix{ m, n, p, i, x, nzmax, -1, 0 };
  return c;
}
void osqp_set_default_settings(OSQPSettings* s)
{
  std::memset(s, 0, sizeof(*s));
  s->warm_starting = 1;
  s->rho = 0.1;
}
OSQPInt osqp_setup(OSQPSolver** solverp, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l,
                   const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings* settings)
{
  called("setup", now.setup);
  OSQPWorkspace_ w;
  w.n = n;
  w.m = m;
  w.P = Csc::of(P->m, P->n, P->p, P->i, P->x);
  w.A = Csc::of(A->m, A->n, A->p, A->i, A->x);
  w.q.assign(q, q + n);
  w.l.assign(l, l + m);
  w.u.assign(u, u + m);
  w.show();
  if (now.setup != 0)
    seen.ans = "setup";
  if (now.setup == OSQP_DATA_VALIDATION_ERROR || now.setup == OSQP_SETTINGS_VALIDATION_ERROR)
    return now.setup;
  auto* s = new OSQPSolver{ new OSQPSettings(*settings), new OSQPSolution{}, new OSQPInfo{}, new OSQPWorkspace_(w) };
  s->info->status_val = OSQP_UNSOLVED;
  s->work->x.assign(static_cast<std::size_t>(n), 0.0);
  s->work->y.assign(static_cast<std::size_t>(m), 0.0);
  s->solution->x = s->work->x.data();
  s->solution->y = s->work->y.data();
  *solverp = s;
  return now.setup;
}
OSQPInt osqp_cleanup(OSQPSolver* s)
{
  delete s->work;
  delete s->info;
  delete s->solution;
  delete s->settings;
  delete s;
  return 0;
}
OSQPInt osqp_warm_start(OSQPSolver* s, const OSQPFloat* x, const OSQPFloat* y)
{
  called("warm", now.warm ? 1 : 0);
  return now.warm ? 1 : 0;
}
OSQPInt osqp_update_data_vec(OSQPSolver* s, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u)
{
  called("vec", now.vec ? 1 : 0);
  if (now.vec)
    return OSQP_DATA_VALIDATION_ERROR;
  OSQPWorkspace_& w = *s->work;
  if (q)
    w.q.assign(q, q + w.n);
  if (l)
    w.l.assign(l, l + w.m);
  if (u)
    w.u.assign(u, u + w.m);
  return 0;
}
static bool cells(std::vector<double>& x, const OSQPFloat* v, const OSQPInt* idx, OSQPInt n)
{
  if (v == nullptr)
    return true;
  if (n < 0 || n > static_cast<OSQPInt>(x.size()))
    return false;
  for (OSQPInt k = 0; k < n; ++k)
    x[static_cast<std::size_t>(idx ? idx[k] : k)] = v[k];
  return true;
}
OSQPInt osqp_update_data_mat(OSQPSolver* s, const OSQPFloat* Px, const OSQPInt* Pi, OSQPInt Pn, const OSQPFloat* Ax, const OSQPInt* Ai, OSQPInt An)
{
  called("mat", now.mat ? 1 : 0);
  if (now.mat)
    return OSQP_NONCVX_ERROR;
  if (!cells(s->work->P.x, Px, Pi, Pn) || !cells(s->work->A.x, Ax, Ai, An))
    return 1;
  return 0;
}
OSQPInt osqp_update_settings(OSQPSolver* s, const OSQPSettings* n)
{
  *s->settings = *n;
  return 0;
}
OSQPInt osqp_solve(OSQPSolver* s)
{
  called("solve", now.retcode);
  seen.asked = true;
  s->work->show();
  static const int STATUS[] = { OSQP_UNSOLVED, OSQP_SOLVED_INACCURATE, OSQP_SOLVED, OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_PRIMAL_INFEASIBLE_INACCURATE,
                                OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_NON_CVX, OSQP_SIGINT };
  const int st = STATUS[now.code];
  for (std::size_t j = 0; j < s->work->x.size(); ++j)
    s->work->x[j] = st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE ? now.base + static_cast<double>(j) + 1 : std::nan("");
  s->info->status_val = now.retcode != 0 ? OSQP_UNSOLVED : st;
  seen.ans = now.retcode != 0                                        ? "error" :
             st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE       ? "solved" :
             st >= OSQP_PRIMAL_INFEASIBLE && st <= OSQP_DUAL_INFEASIBLE_INACCURATE ? "infeasible" :
                                                                       "other";
  return now.retcode;
}
}

// ---------------------------------------------------------------- qpOASES
namespace qpOASES
{
static void show(SymmetricMatrix* h, const real_t* g, Matrix* a, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int nv, int nc)
{
  seen.asked = true;
  const auto& H = dynamic_cast<const SymSparseMat&>(*h);
  const auto& A = dynamic_cast<const SparseMatrix&>(*a);
  Obj o;
  o.i("n", nv).i("m", nc).i("pn", H.nCols).i("pm", H.nRows).i("an", A.nCols).i("am", A.nRows);
  Csc::of(H.nRows, H.nCols, H.jc, H.ir, H.val).write(o, "q");
  Csc::of(A.nRows, A.nCols, A.jc, A.ir, A.val).write(o, "a");
  const std::vector<double> gv(g, g + nv), l(lb, lb + nv), u(ub, ub + nv), la(lbA, lbA + nc), ua(ubA, ubA + nc);
  o.dv("obj", gv).dv("vlo", l).dv("vhi", u).dv("lo", la).dv("hi", ua).b("diag", H.diag);
  seen.p = o.done();
}
returnValue SQProblem::init(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t*)
{
  show(H, g, A, lb, ub, lbA, ubA, nv, nc);
  const int budget = nWSR;
  nWSR = std::min(budget, now.need);
  returnValue r = now.code == 2 ? SUCCESSFUL_RETURN : now.code == 3 ? RET_INIT_FAILED_INFEASIBILITY : now.code == 4 ? RET_INIT_FAILED_UNBOUNDEDNESS : RET_INIT_FAILED;
  if (now.need > budget)
    r = RET_MAX_NWSR_REACHED;
  ready = true;
  solved = r == SUCCESSFUL_RETURN;
  called("init", r);
  seen.ans = now.code == 2 ? "solved" : now.code == 3 ? "infeasible" : "other";
  return r;
}
returnValue SQProblem::hotstart(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t*)
{
  show(H, g, A, lb, ub, lbA, ubA, nv, nc);
  returnValue r = now.hot || now.code > 4 || now.code < 2 ? RET_HOTSTART_FAILED : now.code == 2 ? SUCCESSFUL_RETURN : RET_HOTSTART_STOPPED_INFEASIBILITY;
  nWSR = std::min(nWSR, now.used);
  solved = r == SUCCESSFUL_RETURN;
  called("hot", r);
  seen.ans = now.code == 2 ? "solved" : now.code == 3 ? "infeasible" : "other";
  return r;
}
returnValue SQProblem::getPrimalSolution(real_t* x) const
{
  if (!solved)
    return RET_QP_NOT_SOLVED;
  for (int j = 0; j < nv; ++j)
    x[j] = now.base + j + 1;
  return SUCCESSFUL_RETURN;
}
}  // namespace qpOASES

// ---------------------------------------------------------------- worlds
struct Back : World
{
  std::string kind;
  Back(Rng& r, const std::string& k) : World(r), kind(k) {}
  Model::Ptr makeModel() override
  {
    if (kind == "qpoases")
      return createModel(ModelType(ModelType::QPOASES));
    if (kind == "osqp")
      return createModel(ModelType(ModelType::OSQP));
    auto c = std::make_shared<OSQPModelConfig>();
    c->update_workspace = kind == "update";
    c->settings.warm_starting = kind == "cold" ? 0 : 1;
    return createModel(ModelType(ModelType::OSQP), c);
  }
  void script(Json::Value& op) override { op["code"] = 2; }
  void rounds();
  bool solve(M1& x, const Json::Value& op, int base, Obj& ev) override
  {
    now = Script();
    now.base = base;
    if (op.isMember("refused"))
    {
      now.code = op["code"].asInt();
      if (op["refused"].asBool())
        (g.chance(50) ? now.vec : now.mat) = true;
      now.hot = g.chance(30);
      now.used = g.in(0, 20);
      now.need = g.in(0, 60);
    }
    else if (!op.isMember("calm"))
    {
      if (g.chance(30))
        now.code = g.in(0, 10);
      now.vec = g.chance(8);
      now.mat = g.chance(8);
      now.warm = g.chance(10);
      now.hot = g.chance(30);
      now.used = g.in(0, 20);
      now.need = g.in(0, 60);
      if (g.chance(6))
        now.setup = g.in(1, 4);
      if (g.chance(5))
        now.retcode = g.in(1, 11);
    }
    seen = Seen();
    const CvxOptStatus st = x.m->optimize();
    ev.b("asked", seen.asked).raw("p", seen.p).str("ans", seen.ans).raw("calls", "[" + seen.calls + "]");
    ev.str("status", st == CVX_SOLVED ? "solved" : st == CVX_INFEASIBLE ? "infeasible" : "failed");
    return seen.ans == "solved";
  }
};
// a few variables and constraints, then rounds in which a term or a constraint is replaced before a solve
void Back::rounds()
{
  Json::Value none;
  none["models"] = 1;
  none["ops"] = Json::Value(Json::arrayValue);
  run(none, Obj().str("kind", kind));
  M1& x = ms[0];
  const int n = g.in(2, 10);
  for (int i = 0; i < n; ++i)
  {
    Json::Value op;
    op["o"] = "var";
    op["lo"] = g.chance(50) ? -INF : -g.in(0, 9);
    op["hi"] = g.chance(50) ? INF : g.in(0, 9);
    step(op, 0);
  }
  const auto cnt = [&](int terms) {
    Json::Value op;
    op["o"] = g.chance(50) ? "eq" : "ineq";
    op["e"]["c"] = g.in(-5, 5);
    op["e"]["a"] = Json::Value(Json::arrayValue);
    op["e"]["q"] = Json::Value(Json::arrayValue);
    for (int i = 0; i < terms; ++i)
    {
      Json::Value t(Json::arrayValue);
      t.append(g.in(1, n));
      t.append(g.in(1, 3));
      op["e"]["a"].append(t);
    }
    step(op, 0);
  };
  const auto obj = [&](int terms) {
    Json::Value op;
    op["o"] = "objq";
    op["e"]["c"] = 0;
    op["e"]["a"] = Json::Value(Json::arrayValue);
    op["e"]["q"] = Json::Value(Json::arrayValue);
    Json::Value a(Json::arrayValue);
    a.append(g.in(1, n));
    a.append(g.in(-3, 3));
    op["e"]["a"].append(a);
    for (int i = 0; i < terms; ++i)
    {
      Json::Value t(Json::arrayValue);
      t.append(g.in(1, n));
      t.append(g.in(1, n));
      t.append(g.in(1, 3));
      op["e"]["q"].append(t);
    }
    step(op, 0);
  };
  const int cs = g.in(0, 3), ct = g.in(1, 3), ot = g.in(0, 5);
  for (int i = 0; i < cs; ++i)
    cnt(ct);
  obj(ot);
  for (int r = g.in(2, 8); r > 0; --r)
  {
    if (g.chance(50))
      obj(ot);
    if (cs > 0 && g.chance(40))
    {
      Json::Value op;
      op["o"] = "rmc";
      for (std::size_t i = 0; i < x.lc.size(); ++i)
        if (x.lc[i])
        {
          op["ids"].append(static_cast<int>(i) + 1);
          if (g.chance(50))
            break;
        }
      const int k = static_cast<int>(op["ids"].size());
      step(op, 0);
      for (int i = 0; i < k; ++i)
        cnt(ct);
    }
    if (g.chance(30))
    {
      Json::Value op;
      op["o"] = "bnd";
      op["ids"].append(g.in(1, n));
      op["lo"].append(-g.in(0, 9));
      op["hi"].append(g.in(0, 9));
      step(op, 0);
    }
    Json::Value op;
    op["o"] = "solve";
    if (g.chance(70))
      op["calm"] = true;
    step(op, 0);
  }
}
static void run(Rng& g, const std::string& kind, const Json::Value& s) { Back(g, kind).run(s, Obj().str("kind", kind)); }

// which solver is made, for every request and every TRAJOPT_CONVEX_SOLVER
static void pick()
{
  out(Obj().str("e", "new").str("kind", "pick").i("models", 0));
  static const char* NAMES[] = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER", "osqp", "", "OSQPX" };
  std::vector<std::string> have;
  for (const auto& t : availableSolvers())
  {
    std::stringstream ss;
    ss << t;
    have.push_back(ss.str());
  }
  std::string hv;
  for (const auto& h : have)
    hv += (hv.empty() ? "" : ",") + Json::valueToQuotedString(h.c_str());
  for (int env = -1; env < 8; ++env)
    for (int t = -1; t < 8; ++t)
    {
      if (env >= 0)
        setenv("TRAJOPT_CONVEX_SOLVER", NAMES[env], 1);
      else
        unsetenv("TRAJOPT_CONVEX_SOLVER");
      std::string got = "refused", shown = "refused", named = "refused";
      try
      {
        ModelType mt;
        if (t >= 0)
        {
          mt.fromJson(Json::Value(NAMES[t]));
          named = ModelType(std::string(NAMES[t])) == mt && !(ModelType(std::string(NAMES[t])) != mt) ? NAMES[t] : "differs";
        }
        std::stringstream ss;
        ss << mt;
        shown = ss.str();
        const Model::Ptr m = createModel(mt);
        got = dynamic_cast<OSQPModel*>(m.get()) ? "OSQP" : dynamic_cast<qpOASESModel*>(m.get()) ? "QPOASES" : "other";
      }
      catch (const std::exception&)
      {
      }
      out(Obj().str("e", "pick").b("set", env >= 0).str("env", env >= 0 ? NAMES[env] : "").b("given", t >= 0).str("type", t >= 0 ? NAMES[t] : "AUTO_SOLVER").str("got", got).str("shown", shown).str("named", named).raw("have", "[" + hv + "]"));
    }
  unsetenv("TRAJOPT_CONVEX_SOLVER");
  for (int i = 0; i <= 6; ++i)
  {
    std::string shown = "refused";
    try
    {
      std::stringstream ss;
      ss << ModelType(i);
      shown = ss.str();
    }
    catch (const std::exception&)
    {
    }
    out(Obj().str("e", "number").i("i", i).str("shown", shown));
  }
}

int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (argc != 5 || (mode != "replay" && mode != "random" && mode != "threads" && mode != "pick"))
  {
    std::cerr << "usage: back_driver replay SCN SEED OUT | random SEED N OUT | threads SEED N OUT | pick 0 0 OUT\n";
    return 3;
  }
  static const char* KINDS[] = { "osqp", "update", "cold", "qpoases" };
  out.open(argv[4]);
  unsetenv("TRAJOPT_CONVEX_SOLVER");
  if (mode == "pick")
  {
    pick();
    return 0;
  }
  if (mode == "replay")
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    for (const auto& s : readScenarios(argv[2]))
    {
      Json::Value w;
      w["models"] = 1;
      w["ops"] = s;
      run(g, KINDS[g.chance(50) ? 1 : g.in(0, 3)], w);
    }
    return 0;
  }
  const unsigned long seed = std::strtoul(argv[2], nullptr, 10);
  const long runs = std::strtol(argv[3], nullptr, 10);
  for (long i = 0; i < runs; ++i)
  {
    Rng g(seed * 1000003UL + static_cast<unsigned long>(i));
    Json::Value s;
    if (mode == "threads")
    {
      Json::Value p;
      p["o"] = "par";
      p["threads"] = g.in(2, 6);
      p["per"] = g.in(1, 6);
      s["models"] = 1;
      s["ops"] = Json::Value(Json::arrayValue);
      s["ops"].append(p);
      Json::Value q;
      q["o"] = "solve";
      q["calm"] = true;
      s["ops"].append(q);
    }
    else
    {
      s["models"] = g.chance(30) ? 2 : 1;
      s["len"] = g.in(4, 40);
    }
    if (mode == "random" && g.chance(50))
      Back(g, KINDS[g.chance(60) ? 1 : g.in(0, 3)]).rounds();
    else
      run(g, KINDS[i % 4], s);
  }
  return 0;
}
