// C12: the BPMPD model and what reaches the solver process. bpmpd_driver replay SCN SEED OUT | random SEED N OUT
#include "model_world.hpp"
#include <trajopt_sco/bpmpd_interface.hpp>
static std::string prefix;
struct Bpmpd : World
{
  using World::World;
  Model::Ptr makeModel() override { return createModel(ModelType(ModelType::BPMPD)); }
  void script(Json::Value& op) override { op["code"] = g.chance(70) ? 2 : g.in(-1, 4); }
  bool solve(M1& x, const Json::Value& op, int base, Obj& ev) override
  {
    const int code = op["code"].asInt();
    {
      std::ofstream f(prefix + ".ask");
      f << code << " " << base << "\n";
    }
    std::remove((prefix + ".seen").c_str());
    const CvxOptStatus st = x.m->optimize();
    std::string line = "{}";
    std::ifstream f(prefix + ".seen");
    std::getline(f, line);
    ev.raw("p", line).str("status", st == CVX_SOLVED ? "solved" : st == CVX_INFEASIBLE ? "infeasible" : "failed");
    return code == 2;
  }
};

int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (argc != 5 || (mode != "replay" && mode != "random" && mode != "threads"))
  {
    std::cerr << "usage: bpmpd_driver replay SCN SEED OUT | random SEED N OUT | threads SEED N OUT\n";
    return 3;
  }
  const std::string self = argv[0];
  setenv("VD_BPMPD", (self.substr(0, self.rfind('/')) + "/bpmpd_fake").c_str(), 1);
  prefix = std::string(argv[4]) + ".pipe";
  setenv("VD_BPMPD_FILE", prefix.c_str(), 1);
  out.open(argv[4]);
  if (mode == "replay")
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    for (const auto& s : readScenarios(argv[2]))
    {
      Json::Value w;
      w["models"] = 1;
      w["ops"] = s;
      Bpmpd(g).run(w, Obj());
    }
    return 0;
  }
  const unsigned long seed = std::strtoul(argv[2], nullptr, 10);
  const long runs = std::strtol(argv[3], nullptr, 10);
  for (long i = 0; i < runs; ++i)
  {
    Rng g(seed * 1000003UL + static_cast<unsigned long>(i));
    Json::Value s;
    if (mode == "threads")
    {
      Json::Value p;
      p["o"] = "par";
      p["threads"] = g.in(2, 6);
      p["per"] = g.in(1, 6);
      s["models"] = 1;
      s["ops"] = Json::Value(Json::arrayValue);
      s["ops"].append(p);
      Json::Value q;
      q["o"] = "solve";
      q["code"] = 2;
      s["ops"].append(q);
    }
    else
    {
      s["models"] = g.chance(30) ? 2 : 1;
      s["len"] = g.in(4, 40);
    }
    Bpmpd(g).run(s, Obj());
  }
  return 0;
}
