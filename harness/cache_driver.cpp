// Drives trajopt_common::Cache with operation sequences (from TLC, or random) and logs every operation.
#include "json_out.h"
#include <trajopt_common/cache.h>

using namespace vd;
struct Value
{
  int dummy{ 0 };
};
struct WeakHash
{
  std::size_t operator()(int k) const { return static_cast<std::size_t>(k % 2); }
};
using C = trajopt_common::Cache<int, Value, WeakHash>;

struct Run
{
  Out& out;
  std::unique_ptr<C> c;
  std::vector<C::Ptr> objs;  // by order of first sight
  explicit Run(Out& o) : out(o) {}
  int id(const C::Ptr& p)
  {
    if (!p)
      return 0;
    for (std::size_t i = 0; i < objs.size(); ++i)
      if (objs[i] == p)
        return static_cast<int>(i) + 1;
    objs.push_back(p);
    return static_cast<int>(objs.size());
  }
  Obj counts(const char* e)
  {
    Obj o;
    o.str("e", e).i("size", static_cast<long>(c->size())).i("cap", static_cast<long>(c->capacity()));
    return o;
  }
  void start(int cap)
  {
    c = std::make_unique<C>(static_cast<std::size_t>(cap));
    objs.clear();
    out(counts("new").i("c", cap));
  }
  void get(int k)
  {
    const int r = id(c->get(k));
    out(counts("get").i("k", k).i("r", r));
  }
  void acq(int k)
  {
    auto [p, hit] = c->getOrAcquire(k);
    const int r = id(p);
    out(counts("acq").i("k", k).i("r", r).b("hit", hit));
  }
  void put(int k, int o, bool foreign)
  {
    if (o > static_cast<int>(objs.size()))
      return;
    C::Ptr p = (o > 0) ? objs[static_cast<std::size_t>(o) - 1] : (foreign ? std::make_shared<Value>() : C::Ptr());
    const bool ok = c->put(k, p);
    out(counts("put").i("k", k).i("o", o).b("ok", ok));
  }
  void erase(int k)
  {
    c->erase(k);
    out(counts("erase").i("k", k));
  }
};

int main(int argc, char** argv)
{
  // cache_driver replay SCN OUT | cache_driver random SEED RUNS LEN OUT
  Out out;
  const std::string mode = argv[1];
  out.open(argv[argc - 1]);
  Run r(out);
  if (mode == "replay")
  {
    for (const auto& s : readScenarios(argv[2]))
      for (const auto& op : s)
      {
        const std::string n = op["op"].asString();
        if (n == "new")
          r.start(op["c"].asInt());
        else if (n == "get")
          r.get(op["k"].asInt());
        else if (n == "acq")
          r.acq(op["k"].asInt());
        else if (n == "put")
          r.put(op["k"].asInt(), op["o"].asInt(), (op["k"].asInt() & 1) != 0);
        else if (n == "erase")
          r.erase(op["k"].asInt());
      }
    return 0;
  }
  Rng g(std::stoul(argv[2]));
  const int runs = std::stoi(argv[3]), len = std::stoi(argv[4]);
  for (int i = 0; i < runs; ++i)
  {
    r.start(g.in(0, 6));
    const int keys = g.in(1, 10);
    const int style = g.in(0, 2);  // 0: any, 1: disciplined use, 2: many discarded objects
    for (int j = 0; j < len; ++j)
    {
      const int k = g.in(1, keys);
      const int what = g.in(0, 99);
      if (style == 1 && what < 80)
      {
        const auto before = r.objs.size();
        auto [p, hit] = r.c->getOrAcquire(k);
        const int o = r.id(p);
        (void)before;
        out(r.counts("acq").i("k", k).i("r", o).b("hit", hit));
        if (!hit)
          r.put(k, o, false);
      }
      else if (what < 35 && r.objs.size() < 40)
        r.acq(k);
      else if (what < 55)
        r.get(k);
      else if (what < (style == 2 ? 65 : 85) && !r.objs.empty())
        r.put(k, g.in(0, static_cast<int>(r.objs.size())), g.chance(50));
      else
        r.erase(k);
    }
  }
  return 0;
}
