// Schedule reader, JSON event writer and process isolation shared by all harnesses.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// Accesses outside of standard containers (checked with _GLIBCXX_ASSERTIONS) are reported like those which
// the sanitizer finds: they are no refusal by the library.
namespace std
{
void __glibcxx_assert_fail(const char* file, int line, const char* fct, const char* cond) noexcept
{
  std::fprintf(stderr, "%s:%d: %s: assertion %s of the standard library failed\n", file, line, fct, cond);
  _exit(99);
}
}  // namespace std
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vh
{
// TLC's integers have 32 bits: everything that leaves the harness is clamped into that range, and
// what is not a number becomes a value no specification ever expects.
constexpr long long BAD = 2000000001LL;
constexpr long long LIM = 2000000000LL;

inline long long clampi(long long v)
{
  return v > LIM ? LIM : (v < -LIM ? -LIM : v);
}
// Exact projection: an integer-valued floating point number, or BAD.
template <typename T>
inline long long exact(T v)
{
  double d = (double)v;
  if (!(d == d) || std::isinf(d) || std::abs(d) > (double)LIM)
    return BAD;
  double r = std::nearbyint(d);
  if (r != d)
    return BAD;
  return (long long)r;
}
// Fixed point projection: round(v * scale).
template <typename T>
inline long long fix(T v, double scale)
{
  double d = (double)v * scale;
  if (!(d == d) || std::isinf(d) || std::abs(d) > (double)LIM)
    return BAD;
  return (long long)std::llround(d);
}

class Ev
{
  std::ostringstream s;
  bool first = true;
  void key(const char* k)
  {
    if (!first)
      s << ",";
    first = false;
    s << '"' << k << "\":";
  }

 public:
  explicit Ev(const std::string& op)
  {
    s << "{";
    str("op", op);
  }
  static std::string quote(const std::string& v)
  {
    std::string o = "\"";
    for (char c : v)
    {
      if (c == '"' || c == '\\')
        o += '\\', o += c;
      else if (c == '\n')
        o += "\\n";
      else if ((unsigned char)c < 32 || (unsigned char)c > 126)
      {
        char b[8];
        std::snprintf(b, 8, "\\u%04x", (unsigned char)c);
        o += b;
      }
      else
        o += c;
    }
    return o + "\"";
  }
  Ev& str(const char* k, const std::string& v)
  {
    key(k);
    s << quote(v);
    return *this;
  }
  Ev& num(const char* k, long long v)
  {
    key(k);
    s << (v == BAD ? BAD : clampi(v));
    return *this;
  }
  Ev& boolean(const char* k, bool v)
  {
    key(k);
    s << (v ? "true" : "false");
    return *this;
  }
  template <typename C, typename F>
  Ev& seq(const char* k, const C& c, F f)
  {
    key(k);
    s << "[";
    bool fst = true;
    for (const auto& e : c)
    {
      if (!fst)
        s << ",";
      fst = false;
      s << f(e);
    }
    s << "]";
    return *this;
  }
  template <typename C>
  Ev& seq(const char* k, const C& c)
  {
    return seq(k, c, [](auto v) { return exact(v); });
  }
  template <typename C>
  Ev& seqfix(const char* k, const C& c, double scale)
  {
    return seq(k, c, [&](auto v) { return fix(v, scale); });
  }
  Ev& raw(const char* k, const std::string& json)
  {
    key(k);
    s << json;
    return *this;
  }
  std::string done() { return s.str() + "}"; }
};

class Out
{
  FILE* f;

 public:
  explicit Out(const char* path) : f(std::fopen(path, "a"))
  {
    if (!f)
      std::exit(3);
  }
  void operator()(Ev& e)
  {
    std::string l = e.done() + "\n";
    std::fwrite(l.data(), 1, l.size(), f);
    std::fflush(f);
  }
  void operator()(Ev&& e) { (*this)(e); }
};

// Whitespace separated schedule; one operation per line.
class Line
{
  std::istringstream s;

 public:
  explicit Line(const std::string& l) : s(l) {}
  std::string word()
  {
    std::string w;
    if (!(s >> w))
    {
      std::fprintf(stderr, "schedule: word expected in '%s'\n", s.str().c_str());
      std::exit(3);
    }
    return w;
  }
  long long i() { return std::atoll(word().c_str()); }
  double f() { return std::strtod(word().c_str(), nullptr); }
  std::vector<long long> ints()
  {
    long long n = i();
    std::vector<long long> v;
    for (long long k = 0; k < n; ++k)
      v.push_back(i());
    return v;
  }
  template <typename T>
  std::vector<T> vec()
  {
    std::vector<T> r;
    for (auto v : ints())
      r.push_back((T)v);
    return r;
  }
  std::string rest()
  {
    std::string r;
    std::getline(s, r);
    size_t p = r.find_first_not_of(' ');
    return p == std::string::npos ? "" : r.substr(p);
  }
};

inline std::vector<std::string> schedule(const char* path)
{
  std::ifstream in(path);
  std::vector<std::string> r;
  std::string l;
  while (std::getline(in, l))
    if (!l.empty() && l[0] != '#')
      r.push_back(l);
  return r;
}

// Runs fn in a child process.  Result: "ok" with what fn returned, "abort" (the assertion of the
// library), "throw" (a C++ exception left fn), or "crash" (anything else).
inline std::pair<std::string, std::string> isolated(const std::function<std::string()>& fn,
                                                    int seconds = 20)
{
  int fd[2];
  if (pipe(fd) != 0)
    std::exit(4);
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0)
    std::exit(4);
  if (pid == 0)
  {
    close(fd[0]);
    alarm(seconds);
    signal(SIGABRT, SIG_DFL);
    // A report of the sanitizer is no refusal: the library itself has to notice the misuse.
    if (__sanitizer_set_death_callback)
      __sanitizer_set_death_callback([] { _exit(99); });
    std::string r, st = "O";
    try
    {
      r = fn();
    }
    catch (...)
    {
      st = "T";
      r = "";
    }
    std::string all = st + r;
    size_t off = 0;
    while (off < all.size())
    {
      ssize_t k = write(fd[1], all.data() + off, all.size() - off);
      if (k <= 0)
        break;
      off += k;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char buf[4096];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0)
    got.append(buf, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
    return {"abort", ""};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !got.empty())
    return {got[0] == 'O' ? "ok" : "throw", got.substr(1)};
  return {"crash", ""};
}
}  // namespace vh
