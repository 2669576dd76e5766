// Shared driver for all harnesses: deterministic PRNG, violation reporting, coverage accounting,
// crash and hang attribution. Shares no code with the library under test.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh
{
struct Rng
{
  uint64_t s[2];
  static uint64_t mix(uint64_t &x)
  {
    x += 0x9e3779b97f4a7c15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed, uint64_t stream = 0)
  {
    uint64_t x = seed * 0x2545F4914F6CDD1Dull + stream * 0x9E3779B97F4A7C15ull + 77;
    s[0] = mix(x);
    s[1] = mix(x);
  }
  uint64_t next()
  {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); } // inclusive
  bool chance(int percent) { return below(100) < uint64_t(percent); }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T, size_t N>
  const T &pick(const T (&v)[N]) { return v[below(N)]; }
  // small number, geometric-like with occasional large
  size_t size(size_t small, size_t large)
  {
    if (chance(85))
      return below(small + 1);
    return below(large + 1);
  }
};

inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

// printable, single-line rendering of arbitrary bytes
inline std::string show(const std::string &s, size_t max = 400)
{
  std::string r;
  char b[8];
  for (size_t i = 0; i < s.size(); i++)
  {
    if (r.size() > max)
    {
      r += "...(" + std::to_string(s.size()) + " bytes)";
      break;
    }
    unsigned char c = (unsigned char)s[i];
    if (c == '\\')
      r += "\\\\";
    else if (c < 32 || c > 126)
    {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
    else
      r += (char)c;
  }
  return r;
}

struct State
{
  uint64_t current = ~0ull;
};

struct Global
{
  std::string prop;
  uint64_t seed = 1, start = 0, step = 1, count = 0;
  int64_t only = -1;
  bool thorough = false;
  bool verbose = false;
  FILE *out = stdout;
  volatile uint64_t *state = nullptr;
  uint64_t cur = 0;
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::map<std::string, int> vkeys;
  int hang_s = 20;
};
inline Global &G()
{
  static Global g;
  return g;
}

inline void count(const std::string &k, uint64_t n = 1) { G().counters[k] += n; }
inline void eval(uint64_t n = 1) { G().evaluations += n; }
// One observed distinct, non-trivial case (by the harness's own rule).
inline void seen(uint64_t h) { G().distinct.insert(h); }
inline void seen(const std::string &s) { G().distinct.insert(hash(s)); }
inline void sample(const std::string &s)
{
  if (G().samples.size() < 3)
    G().samples.push_back(show(s, 300));
}

// A violation of the property. key identifies the kind of failure (stable across runs), detail the witness.
inline void violation(const std::string &key, const std::string &detail)
{
  int &n = G().vkeys[key];
  if (n++ >= 5)
    return;
  std::string d;
  for (char c : detail.substr(0, 4000))
    d += (c == '\n' || c == '\t' || c == '\r' || c == 0) ? ' ' : c;
  fprintf(G().out, "V\t%llu\t%s\t%s\n", (unsigned long long)G().cur, show(key, 300).c_str(), d.c_str());
  fflush(G().out);
}

inline void on_alarm(int)
{
  const char m[] = "HANG\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(77);
}

inline void arm(int s)
{
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &tv, nullptr); // CPU time: not affected by machine load
}

typedef std::function<void(uint64_t idx, Rng &rng)> CaseFn;

inline int run(int argc, char **argv, const char *prop, CaseFn fn)
{
  Global &g = G();
  g.prop = prop;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      g.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--start")
      g.start = strtoull(val().c_str(), 0, 10);
    else if (a == "--step")
      g.step = strtoull(val().c_str(), 0, 10);
    else if (a == "--count")
      g.count = strtoull(val().c_str(), 0, 10); // upper bound (exclusive) on the case index
    else if (a == "--only")
      g.only = strtoll(val().c_str(), 0, 10);
    else if (a == "--thorough")
      g.thorough = true;
    else if (a == "--verbose")
      g.verbose = true;
    else if (a == "--hang")
      g.hang_s = atoi(val().c_str());
    else if (a == "--out")
      g.out = fopen(val().c_str(), "w");
    else if (a == "--state")
    {
      int fd = open(val().c_str(), O_RDWR | O_CREAT, 0644);
      if (fd < 0 || ftruncate(fd, 8) != 0)
        return 3;
      g.state = (volatile uint64_t *)mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close(fd);
    }
  }
  if (!g.out)
    return 3;
  signal(SIGPROF, on_alarm);
  auto one = [&](uint64_t i) {
    g.cur = i;
    if (g.state)
      *g.state = i;
    arm(g.hang_s);
    Rng rng(g.seed, i + 1);
    fn(i, rng);
  };
  if (g.only >= 0)
    one(uint64_t(g.only));
  else
    for (uint64_t i = g.start; i < g.count; i += g.step)
      one(i);
  arm(0);
  fprintf(g.out, "E\t%llu\n", (unsigned long long)g.evaluations);
  for (auto &c : g.counters)
    fprintf(g.out, "C\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
  for (auto &s : g.samples)
    fprintf(g.out, "X\t%s\n", s.c_str());
  for (uint64_t h : g.distinct)
    fprintf(g.out, "D\t%llx\n", (unsigned long long)h);
  fprintf(g.out, "DONE\n");
  fclose(g.out);
  return 0;
}

// Exactly sized heap copy: a read one byte past the end hits a red zone.
struct Exact
{
  char *p;
  size_t n;
  explicit Exact(const std::string &s) : p(nullptr), n(s.size())
  {
    p = (char *)malloc(n ? n : 1);
    memcpy(p, s.data(), n);
  }
  Exact(const Exact &) = delete;
  Exact &operator=(const Exact &) = delete;
  Exact(Exact &&o) noexcept : p(o.p), n(o.n) { o.p = nullptr; }
  ~Exact() { free(p); }
};

// Random partition of [0,n) into consecutive pieces; returns the cut positions (sorted; duplicates = empty buffers)
inline std::vector<size_t> cuts(Rng &r, size_t n, bool allow_empty = true)
{
  std::vector<size_t> c;
  switch (r.below(5))
  {
  case 0: // byte by byte
    if (n <= 400)
    {
      for (size_t i = 1; i < n; i++)
        c.push_back(i);
      break;
    }
    // fallthrough
  case 1:
    c.push_back(r.below(n + 1));
    break;
  case 2: // fixed stride
  {
    size_t st = 1 + r.below(20);
    for (size_t i = st; i < n; i += st)
      c.push_back(i);
    break;
  }
  default: {
    size_t k = 1 + r.below(6);
    for (size_t i = 0; i < k; i++)
      c.push_back(r.below(n + 1));
  }
  }
  std::sort(c.begin(), c.end());
  if (!allow_empty)
  {
    std::vector<size_t> d;
    size_t last = 0;
    for (size_t x : c)
      if (x > last && x < n)
      {
        d.push_back(x);
        last = x;
      }
    return d;
  }
  if (r.chance(10) && !c.empty())
    c.insert(c.begin() + long(r.below(c.size())), c[r.below(c.size())]), std::sort(c.begin(), c.end());
  return c;
}
inline std::vector<std::string> split(const std::string &s, const std::vector<size_t> &c)
{
  std::vector<std::string> v;
  size_t last = 0;
  for (size_t x : c)
  {
    v.push_back(s.substr(last, x - last));
    last = x;
  }
  v.push_back(s.substr(last));
  return v;
}
inline std::string showcuts(const std::vector<size_t> &c)
{
  std::string r = "[";
  for (size_t x : c)
    r += std::to_string(x) + ",";
  return r + "]";
}
} // namespace vh
