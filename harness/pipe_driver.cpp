// C16: bpmpd_io::ser over a byte stream the operating system divides as it likes.
// pipe_driver replay SCN SEED OUT | random SEED N OUT | faults SEED N OUT | real SEED N OUT
#include "json_out.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <deque>
#include <pthread.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <trajopt_sco/bpmpd_io.hpp>
using namespace vd;
static Out out;

// ------------------------------------------------------------------ the operating system
enum Cap
{
  FULL,
  ONE,
  MOST,
  INTR
};
struct Side
{
  std::vector<Cap> script;
  std::size_t from{ 0 };
  bool again{ false };
  int chance{ 0 };  // beyond the script: percentage of divided calls
  std::size_t at{ 0 };
  Cap next(Rng& g)
  {
    const std::size_t i = at++;
    if (i >= from && !script.empty() && (again || i - from < script.size()))
      return script[(i - from) % script.size()];
    return chance > 0 && g.chance(chance) ? static_cast<Cap>(g.in(1, 3)) : FULL;
  }
};
static const int FD = 1000;
static std::deque<unsigned char> stream;
static Side ws, rs;
static Rng* og = nullptr;
static long starved = 0;
static std::size_t share(Cap c, std::size_t n)
{
  if (n <= 1 || c == FULL)
    return n;
  if (c == ONE || n == 2)
    return 1;
  return og->chance(50) ? n - 1 : static_cast<std::size_t>(og->in(2, static_cast<int>(n - 1)));
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
  if (fd != FD)
    return syscall(SYS_write, fd, p, n);
  const Cap c = ws.next(*og);
  if (n == 0)
    return 0;
  if (c == INTR)
  {
    errno = EINTR;
    return -1;
  }
  const std::size_t k = share(c, n);
  const auto* b = static_cast<const unsigned char*>(p);
  stream.insert(stream.end(), b, b + k);
  return static_cast<ssize_t>(k);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
  if (fd != FD)
    return syscall(SYS_read, fd, p, n);
  const Cap c = rs.next(*og);
  if (n == 0)
    return 0;
  if (c == INTR)
  {
    errno = EINTR;
    return -1;
  }
  if (stream.empty())
  {
    if (++starved > 1000)
    {
      out(Obj().str("e", "starved"));
      _exit(0);
    }
    return 0;
  }
  const std::size_t k = share(c, std::min(n, stream.size()));
  std::copy_n(stream.begin(), k, static_cast<unsigned char*>(p));
  stream.erase(stream.begin(), stream.begin() + static_cast<long>(k));
  return static_cast<ssize_t>(k);
}

// ------------------------------------------------------------------ messages
static std::string hex(const void* p, std::size_t n)
{
  static const char* d = "0123456789abcdef";
  const auto* b = static_cast<const unsigned char*>(p);
  if (n > 48)
  {
    unsigned long long h = 1469598103934665603ULL;
    for (std::size_t i = 0; i < n; ++i)
      h = (h ^ b[i]) * 1099511628211ULL;
    return std::to_string(n) + ":" + hex(&h, sizeof(h));
  }
  std::string s;
  for (std::size_t i = 0; i < n; ++i)
  {
    s += d[b[i] >> 4];
    s += d[b[i] & 15];
  }
  return s;
}
template <class T>
static std::string hex(const std::vector<T>& v)
{
  return hex(v.data(), v.size() * sizeof(T));
}
static std::string hex(int v) { return hex(&v, sizeof(v)); }
static std::string hex(double v) { return hex(&v, sizeof(v)); }
static std::string text(const bpmpd_io::bpmpd_input& b)
{
  return Obj().str("m", hex(b.m)).str("n", hex(b.n)).str("nz", hex(b.nz)).str("qn", hex(b.qn)).str("qnz", hex(b.qnz)).str("ac", hex(b.acolcnt)).str("ai", hex(b.acolidx)).str("av", hex(b.acolnzs))
      .str("qc", hex(b.qcolcnt)).str("qi", hex(b.qcolidx)).str("qv", hex(b.qcolnzs)).str("rhs", hex(b.rhs)).str("obj", hex(b.obj)).str("lb", hex(b.lbound)).str("ub", hex(b.ubound)).done();
}
static std::string text(const bpmpd_io::bpmpd_output& b)
{
  return Obj().str("primal", hex(b.primal)).str("dual", hex(b.dual)).str("status", hex(b.status)).str("code", hex(b.code)).str("opt", hex(b.opt)).done();
}
static double dbl(Rng& g)
{
  switch (g.in(0, 5))
  {
    case 0:
      return 1e30;
    case 1:
      return -1e30;
    case 2:
      return 0;
    case 3:
      return g.in(0, 1) ? NAN : INFINITY;
    default:
      return g.in(-1000000, 1000000) / 1024.0;
  }
}
// sizes: 0 and a few, or many
static std::size_t size(Rng& g, int most) { return g.chance(20) ? 0 : static_cast<std::size_t>(g.in(1, most)); }
template <class T>
static std::vector<T> vec(Rng& g, int most)
{
  std::vector<T> v(size(g, most));
  for (auto& x : v)
    if constexpr (std::is_same_v<T, int>)
      x = g.chance(20) ? 0x6f7b7a6f : g.in(-5, 100000);
    else
      x = dbl(g);
  return v;
}
static bpmpd_io::bpmpd_input input(Rng& g, int most)
{
  return bpmpd_io::bpmpd_input(g.in(0, 99), g.in(0, 99), g.in(0, 2000000000), g.in(0, 99), g.in(0, 99), vec<int>(g, most), vec<int>(g, most), vec<double>(g, most), vec<int>(g, most),
                               vec<int>(g, most), vec<double>(g, most), vec<double>(g, most), vec<double>(g, most), vec<double>(g, most), vec<double>(g, most));
}
static bpmpd_io::bpmpd_output output(Rng& g, int most)
{
  return bpmpd_io::bpmpd_output(vec<double>(g, most), vec<double>(g, most), vec<int>(g, most), g.in(-5, 5), dbl(g));
}
// what is there before a message is received: as in the caller (fresh), or a used one
template <class T>
static void receive(T& t)
{
  bpmpd_io::ser(FD, t, bpmpd_io::DESER);
  out(Obj().str("e", "recv").raw("msg", text(t)));
}

static void exitCase()
{
  // the parent is done: the receiver ends, without an answer
  const char x = bpmpd_io::EXIT_CHAR;
  stream.push_back(static_cast<unsigned char>(x));
  const pid_t p = fork();
  if (p == 0)
  {
    alarm(20);
    bpmpd_io::bpmpd_input b;
    bpmpd_io::ser(FD, b, bpmpd_io::DESER);
    _exit(7);
  }
  int st = 0;
  waitpid(p, &st, 0);
  stream.clear();
  out(Obj().str("e", "exit").b("ended", WIFEXITED(st) && WEXITSTATUS(st) == 0));
}

static void conversation(Rng& g, int most, bool exits)
{
  og = &g;
  stream.clear();
  ws.at = rs.at = 0;
  starved = 0;
  out(Obj().str("e", "new"));
  const int n = g.in(1, 4);
  int sent = 0, got = 0;
  std::vector<bool> kind;
  bpmpd_io::bpmpd_input used_i;
  bpmpd_io::bpmpd_output used_o;
  const bool reuse = g.chance(30);
  while (got < n)
    if (sent < n && (sent == got || g.chance(50)))
    {
      kind.push_back(g.chance(50));
      if (kind.back())
      {
        bpmpd_io::bpmpd_input b = input(g, most);
        out(Obj().str("e", "send").raw("msg", text(b)));
        bpmpd_io::ser(FD, b, bpmpd_io::SER);
      }
      else
      {
        bpmpd_io::bpmpd_output b = output(g, most);
        out(Obj().str("e", "send").raw("msg", text(b)));
        bpmpd_io::ser(FD, b, bpmpd_io::SER);
      }
      ++sent;
    }
    else
    {
      if (kind[static_cast<std::size_t>(got)])
      {
        bpmpd_io::bpmpd_input b;
        receive(reuse ? used_i : b);
      }
      else
      {
        bpmpd_io::bpmpd_output b;
        receive(reuse ? used_o : b);
      }
      ++got;
    }
  out(Obj().str("e", "end").i("left", static_cast<long>(stream.size())));
  if (exits)
    exitCase();
}

// ------------------------------------------------------------------ two threads and a real pipe, with signals
static void onSignal(int) {}
static void real(Rng& g, long big)
{
  int fd[2];
  if (pipe(fd) != 0)
    std::abort();
  out(Obj().str("e", "new"));
  const int n = g.in(1, 3);
  std::vector<bpmpd_io::bpmpd_input> msgs, back(static_cast<std::size_t>(n));
  for (int i = 0; i < n; ++i)
    msgs.push_back(input(g, static_cast<int>(big)));
  std::atomic<int> busy{ 2 };
  std::thread a([&]() {
    for (auto& m : msgs)
      bpmpd_io::ser(fd[1], m, bpmpd_io::SER);
    close(fd[1]);
    --busy;
    while (busy > -1)
      usleep(100);
  });
  std::thread b([&]() {
    for (auto& m : back)
      bpmpd_io::ser(fd[0], m, bpmpd_io::DESER);
    char c[4096];
    while (read(fd[0], c, sizeof(c)) != 0)
      ;
    --busy;
    while (busy > -1)
      usleep(100);
  });
  while (busy > 0)
  {
    pthread_kill(a.native_handle(), SIGUSR1);
    pthread_kill(b.native_handle(), SIGUSR1);
    usleep(50);
  }
  busy = -1;
  a.join();
  b.join();
  close(fd[0]);
  for (const auto& m : msgs)
    out(Obj().str("e", "send").raw("msg", text(m)));
  for (const auto& m : back)
    out(Obj().str("e", "recv").raw("msg", text(m)));
  out(Obj().str("e", "end").i("left", 0));
}

int main(int argc, char** argv)
{
  const std::string mode = argc > 1 ? argv[1] : "";
  if (argc != 5)
  {
    std::cerr << "usage: pipe_driver replay SCN SEED OUT | random SEED N OUT | faults SEED N OUT | real SEED N OUT\n";
    return 3;
  }
  const rlimit lim{ 4UL << 30, 4UL << 30 };
  setrlimit(RLIMIT_AS, &lim);
  out.open(argv[4]);
  if (mode == "replay")
  {
    Rng g(std::strtoul(argv[3], nullptr, 10));
    for (const auto& s : readScenarios(argv[2]))
    {
      ws = Side{};
      rs = Side{};
      for (const auto& c : s)
      {
        const std::string k = c[1].asString();
        (c[0].asString() == "w" ? ws : rs).script.push_back(k == "one" ? ONE : k == "most" ? MOST : k == "intr" ? INTR : FULL);
      }
      for (Side* x : { &ws, &rs })
      {
        x->from = static_cast<std::size_t>(g.in(0, 12));
        x->again = g.chance(50);
      }
      conversation(g, 6, false);
    }
    return 0;
  }
  const unsigned long seed = std::strtoul(argv[2], nullptr, 10);
  const long runs = std::strtol(argv[3], nullptr, 10);
  if (mode == "real")
  {
    struct sigaction sa;
    std::memset(&sa, 0, sizeof(sa));
    sa.sa_handler = onSignal;
    sigaction(SIGUSR1, &sa, nullptr);
    for (long i = 0; i < runs; ++i)
    {
      Rng g(seed * 1000003UL + static_cast<unsigned long>(i));
      real(g, i % 4 == 0 ? 140000 : i % 2 == 0 ? 30000 : 3000);
    }
    return 0;
  }
  for (long i = 0; i < runs; ++i)
  {
    Rng g(seed * 1000003UL + static_cast<unsigned long>(i));
    ws = Side{};
    rs = Side{};
    if (mode == "random")
    {
      ws.chance = g.chance(30) ? 0 : g.in(1, 80);
      rs.chance = g.chance(30) ? 0 : g.in(1, 80);
    }
    else
    {
      // one divided call, at every place in turn
      Side& x = i % 2 == 0 ? ws : rs;
      const long j = i / 2;
      x.script = { static_cast<Cap>(1 + j % 3) };
      x.from = static_cast<std::size_t>((j / 3) % 60);
    }
    conversation(g, g.chance(1) ? 140000 : g.chance(10) ? 300 : 6, g.chance(10));
  }
  return 0;
}
