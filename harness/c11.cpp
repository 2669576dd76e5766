// C11: integers print as their decimal digits; texts parse to the exact value, truncated toward zero, saturating at the type's limits.
#ifdef VERIF_INT128
#define JS_INT_128 1
#endif
#include "jsutil.h"
#include <cinttypes>
using namespace vh;

template <class T>
static std::string dec(T v)
{
  bool neg = v < 0;
  unsigned __int128 u = neg ? (unsigned __int128)0 - (unsigned __int128)(__int128)v : (unsigned __int128)v;
  std::string s;
  do
    s.insert(s.begin(), char('0' + int(u % 10)));
  while (u /= 10);
  return neg ? "-" + s : s;
}
template <class T>
constexpr bool sgn() { return T(-1) < T(0); }
template <class T>
static T maxv() { return sgn<T>() ? T(~(T(1) << (sizeof(T) * 8 - 1))) : T(~T(0)); }
template <class T>
static T minv() { return sgn<T>() ? T(T(1) << (sizeof(T) * 8 - 1)) : T(0); }

// exact integer part of a JSON number text, as sign and digit string without leading zeros
static void exact(const std::string &t, bool &neg, std::string &ip)
{
  size_t i = 0;
  neg = t[0] == '-';
  if (neg)
    i++;
  std::string d;
  long exp = 0;
  bool dot = false;
  for (; i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '.'); i++)
    if (t[i] == '.')
      dot = true;
    else
    {
      d += t[i];
      if (dot)
        exp--;
    }
  if (i < t.size())
    exp += atol(t.c_str() + i + 1);
  size_t z = d.find_first_not_of('0');
  d = z == std::string::npos ? "" : d.substr(z);
  if (d.empty())
  {
    ip = "";
    return;
  }
  if (exp < 0)
    ip = size_t(-exp) >= d.size() ? "" : d.substr(0, d.size() - size_t(-exp));
  else if (d.size() + size_t(exp) > 60)
    ip = d + std::string(60, '0'); // far outside every type
  else
    ip = d + std::string(size_t(exp), '0');
}
static int cmp(const std::string &a, const std::string &b) { return a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a.compare(b); }
template <class T>
static std::string expected(const std::string &t)
{
  bool neg;
  std::string ip;
  exact(t, neg, ip);
  if (ip.empty())
    return "0";
  if (!neg)
  {
    std::string m = dec(maxv<T>());
    return cmp(ip, m) > 0 ? m : ip;
  }
  if (!sgn<T>())
    return "0";
  std::string m = dec(minv<T>()).substr(1);
  return "-" + (cmp(ip, m) > 0 ? m : ip);
}
template <class T>
static T value(Rng &r)
{
  unsigned __int128 u = ((unsigned __int128)r.next() << 64) | r.next();
  switch (r.below(5))
  {
  case 0: return T(r.below(200)) - T(sgn<T>() ? 100 : 0);
  case 1: return r.chance(50) ? T(maxv<T>() - T(r.below(3))) : T(minv<T>() + T(r.below(3)));
  case 2: {
    unsigned __int128 m = (unsigned __int128)maxv<T>(); // powers of ten and neighbours
    int k = int(r.below(39));
    unsigned __int128 p = 1;
    for (int i = 0; i < k && p <= m / 10; i++)
      p *= 10;
    p = p - 1 + r.below(3);
    if (p > m)
      p = m;
    return sgn<T>() && r.chance(50) ? T(-(__int128)p) : T(p);
  }
  case 3: return T(u >> r.below(128));
  default: return T(u);
  }
}
template <class T>
static void print_check(T v, const char *name)
{
  std::vector<T> in{v};
  std::string t = JS::serializeStruct(in, JS::SerializerOptions(JS::SerializerOptions::Compact));
  std::string want = "[" + dec(v) + "]";
  eval();
  if (t != want)
    violation("printed-wrong", std::string(name) + " " + want + " printed as " + show(t));
  Exact x(t);
  JS::ParseContext pc(x.p, x.n);
  std::vector<T> back;
  JS::Error e = pc.parseTo(back);
  if (e != JS::Error::NoError || back.size() != 1 || back[0] != v)
    violation("does-not-read-back", std::string(name) + " " + want);
  seen(want + name);
  count("printed");
}
template <class T>
static void parse_check(const std::string &t, const char *name)
{
  std::string doc = "[" + t + "]";
  Exact x(doc);
  JS::ParseContext pc(x.p, x.n);
  std::vector<T> v;
  JS::Error e = pc.parseTo(v);
  std::string want = expected<T>(t);
  eval();
  if (e != JS::Error::NoError)
    violation("number-rejected", std::string(name) + " " + show(t));
  else if (v.size() != 1 || dec(v[0]) != want)
    violation("parsed-wrong", std::string(name) + " text " + show(t) + " gave " + (v.size() ? dec(v[0]) : "nothing") + " expected " + want);
  seen(t + name);
  count("parsed");
  if (want == dec(maxv<T>()) || want == dec(minv<T>()))
    count("at_limits");
}
template <class T>
static void reject_check(Rng &r, const char *name)
{
  static const char *bad[] = {"\"abc\"", "true", "null", "{}", "[]", "\"12x\"", "\"\"", "false", "\"-\"", "\"1 2\"", "1.2.3", "1e", "--1", "-", "1e+", "0x10", "{\"a\":1}", "[1]"};
  std::string t = bad[r.below(sizeof bad / sizeof *bad)];
  std::string doc = "[" + t + "]";
  Exact x(doc);
  JS::ParseContext pc(x.p, x.n);
  std::vector<T> v;
  JS::Error e = pc.parseTo(v);
  eval();
  if (e == JS::Error::NoError)
    violation("non-number-accepted", std::string(name) + " " + t);
  count("rejected");
}
// the same value spelled in another way
static std::string respell(Rng &r, std::string t)
{
  bool neg = t[0] == '-';
  if (neg)
    t = t.substr(1);
  switch (r.below(5))
  {
  case 0: t += "." + std::string(1 + r.below(5), char('0' + r.below(10))); break;
  case 1: {
    size_t k = r.below(t.size() + 4);
    if (k < t.size() && t.size() > 1 && k > 0)
      t = t.substr(0, k) + "." + t.substr(k) + "e" + std::to_string(t.size() - k);
    else
      t = "0." + std::string(k, '0') + t + "e" + (r.chance(50) ? "+" : "") + std::to_string(t.size() + k);
    break;
  }
  case 2: {
    size_t k = r.below(25);
    t = t + std::string(k, '0') + (r.chance(50) ? "e-" : "E-") + std::to_string(k);
    break;
  }
  case 3: {
    size_t k = 0;
    while (t.size() > 1 && t.back() == '0')
      t.pop_back(), k++;
    t += "e" + std::to_string(k);
    break;
  }
  default: break;
  }
  return neg ? "-" + t : t;
}
template <class T>
static void all(Rng &r, const char *name)
{
  print_check(value<T>(r), name);
  std::string d = dec(value<T>(r));
  parse_check<T>(respell(r, d), name);
  // around and beyond the limits
  std::string lim = dec(r.chance(50) ? maxv<T>() : minv<T>());
  bool neg = lim[0] == '-';
  if (neg)
    lim = lim.substr(1);
  switch (r.below(5))
  {
  case 0: { // last digits changed
    size_t k = 1 + r.below(lim.size());
    for (size_t i = lim.size() - k; i < lim.size(); i++)
      if (r.chance(40))
        lim[i] = char('0' + r.below(10));
    break;
  }
  case 1: lim += std::string(1 + r.below(4), char('0' + r.below(10))); break;
  case 2: lim += "e" + std::to_string(r.below(30)); break;
  case 3: { // +1 at the end
    int i = int(lim.size()) - 1;
    while (i >= 0 && lim[size_t(i)] == '9')
      lim[size_t(i--)] = '0';
    if (i >= 0)
      lim[size_t(i)]++;
    else
      lim = "1" + lim;
    break;
  }
  default: lim = std::to_string(1 + r.below(999)) + "e" + std::to_string(r.below(sizeof(T) * 3 + 2)); break;
  }
  if (lim.size() > 1 && lim[0] == '0' && isdigit((unsigned char)lim[1]))
    lim[0] = '1';
  if (r.chance(neg ? 90 : 40))
    lim = "-" + lim;
  parse_check<T>(lim, name);
  if (r.chance(30))
    parse_check<T>(respell(r, lim.find_first_of("eE") == std::string::npos ? lim : d), name);
  parse_check<T>(ref::gen_num(r, 10), name);
  if (r.chance(20))
    reject_check<T>(r, name);
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C11", [](uint64_t i, Rng &r) {
#ifdef VERIF_INT128
    all<__int128>(r, "int128");
    all<unsigned __int128>(r, "uint128");
    return;
#endif
    if (i < 1280)
    { // all values of the 8-bit types, and a dense sweep of the 16-bit ones
      for (int k = 0; k < 256; k++)
      {
        long v = long(i % 256) * 256 + k;
        switch (i / 256)
        {
        case 0: print_check<unsigned short>((unsigned short)v, "uint16"); break;
        case 1: print_check<short>(short(v), "int16"); break;
        case 2:
          if (i % 256 < 4)
            parse_check<signed char>(std::to_string(long(i % 256) * 256 + k - 512), "int8"), parse_check<unsigned char>(std::to_string(long(i % 256) * 256 + k - 512), "uint8"),
              parse_check<char>(std::to_string(long(i % 256) * 256 + k - 512), "char");
          break;
        case 3: parse_check<short>(std::to_string(v * 2 - 65536), "int16"); break;
        default: parse_check<unsigned short>(std::to_string(v * 2 - 32768 + 1), "uint16"); break;
        }
      }
      count("small_types_swept", 256);
      return;
    }
    all<signed char>(r, "int8");
    all<unsigned char>(r, "uint8");
    all<char>(r, "char");
    all<short>(r, "int16");
    all<unsigned short>(r, "uint16");
    all<int>(r, "int32");
    all<unsigned>(r, "uint32");
    all<long>(r, "int64");
    all<unsigned long>(r, "uint64");
    all<long long>(r, "longlong");
    all<unsigned long long>(r, "ulonglong");
    if (G().samples.size() < 2)
      sample(respell(r, dec(value<long>(r))));
  });
}
