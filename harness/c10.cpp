// C10: floats and doubles print as short text that reads back exactly.
#include "jsutil.h"
#include "numgen.h"
#include "hardnums.h"
#include <charconv>
#include <clocale>
using namespace vh;

struct S
{
  double d = 0;
  float f = 0;
  JS_OBJ(d, f);
};

static std::string sig(const std::string &t) // significant digits without leading/trailing zeros
{
  std::string s;
  for (char c : t)
  {
    if (c == 'e' || c == 'E')
      break;
    if (c >= '0' && c <= '9')
      s += c;
  }
  size_t a = 0;
  while (a < s.size() && s[a] == '0')
    a++;
  s.erase(0, a);
  while (!s.empty() && s.back() == '0')
    s.pop_back();
  return s;
}
template <class T>
static std::string printed(T v, int via)
{
  std::string out;
  if (via == 0)
  {
    std::vector<T> vec(1, v);
    out = JS::serializeStruct(vec, JS::SerializerOptions(JS::SerializerOptions::Compact));
    return out.size() > 2 ? out.substr(1, out.size() - 2) : out;
  }
  S s;
  if (sizeof(T) == 8)
    s.d = (double)v;
  else
    s.f = (float)v;
  out = JS::serializeStruct(s, JS::SerializerOptions(JS::SerializerOptions::Compact));
  std::string key = sizeof(T) == 8 ? "\"d\":" : "\"f\":";
  size_t a = out.find(key);
  size_t b = out.find_first_of(",}", a);
  return out.substr(a + key.size(), b - a - key.size());
}
template <class T>
static void check(T v, int via, const char *nm)
{
  std::string t = printed(v, via);
  eval();
  uint64_t bits = 0;
  memcpy(&bits, &v, sizeof v);
  seen(bits ^ (sizeof(T) << 60));
  char vb[60];
  snprintf(vb, sizeof vb, "%a (%.17g)", (double)v, (double)v);
  std::string w = std::string(nm) + " value=" + vb + " text='" + show(t) + "'";
  ref::Val rv;
  if (!ref::parse(t, rv) || rv.k != ref::Num)
  {
    violation(std::string(nm) + "-not-a-json-number", w);
    return;
  }
  char *e;
  T back = sizeof(T) == 8 ? (T)strtod(t.c_str(), &e) : (T)strtof(t.c_str(), &e);
  if (v == 0)
  {
    if (back != 0)
      violation(std::string(nm) + "-zero", w);
    count("zeros");
    return;
  }
  if (memcmp(&back, &v, sizeof v) != 0)
  {
    violation(std::string(nm) + "-roundtrip", w);
    return;
  }
  char buf[64];
  auto r = std::to_chars(buf, buf + sizeof buf, v, std::chars_format::scientific);
  std::string want = sig(std::string(buf, r.ptr)), got = sig(t);
  if (got.size() > want.size())
    violation(std::string(nm) + "-not-shortest", w + " shortest digits " + want);
  if (got.size() > (sizeof(T) == 8 ? 17u : 9u))
    violation(std::string(nm) + "-too-many-digits", w + " shortest digits " + want);
  if (t.size() > 32)
    violation(std::string(nm) + "-long-text", w);
  count(std::string(nm) + "_checked");
  if (t.find_first_of("eE") != std::string::npos)
    count(std::string(nm) + "_exponent_form");
  // and the library itself reads it back
  std::string doc = "[" + t + "]";
  Exact x(doc);
  JS::ParseContext pc(x.p, x.n);
  std::vector<T> back2;
  if (pc.parseTo(back2) != JS::Error::NoError || back2.size() != 1 || memcmp(&back2[0], &v, sizeof v))
    violation(std::string(nm) + "-library-readback", w);
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C10", [](uint64_t i, Rng &r) {
    for (int k = 0; k < 4; k++)
    {
      int via = int(r.below(2));
      double d = ng::rnd_double(r);
      if (r.chance(15))
        d = strtod((std::to_string(r.below(100000)) + "e" + std::to_string(r.range(-30, 30))).c_str(), nullptr);
      else if (r.chance(10))
        d = double(r.below(10) + 1) * pow(10.0, r.range(0, 25));
      check(d, via, "double");
      float f = ng::rnd_float(r);
      if (r.chance(15))
        f = strtof((std::to_string(r.below(100000)) + "e" + std::to_string(r.range(-20, 20))).c_str(), nullptr);
      check(f, via, "float");
      if (k == 0 && G().samples.size() < 2)
        sample(printed(d, 0) + " " + printed(f, 0));
    }
    if (i < 8)
    {
      double ds[] = {0.0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9e-324, 1, 10, 100, 1e5, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 0.1, 0.01, 1e-5, 1e-7, 123456789012345680.0, 9007199254740993.0};
      for (double d : ds)
        check(d, int(i & 1), "double");
      float fs[] = {0.0f, -0.0f, FLT_MAX, FLT_MIN, 1.4e-45f, 16777216.0f, 0.1f, 1e10f, 1e-10f, 33554432.0f, 8388608.0f};
      for (float f : fs)
        check(f, int(i & 1), "float");
    }
    // ordinary decimals print with the digits they were written with
    for (int k = 0; k < 2; k++)
    {
      std::string dg = std::string(1, char('1' + r.below(9))) + ref::digits(r, r.below(15));
      int ex = r.range(-12, 15);
      double d = strtod((dg + "e" + std::to_string(ex - int(dg.size()))).c_str(), nullptr);
      std::string t = printed(d, 0);
      eval();
      count("ordinary_decimals");
      if (sig(t) != sig(dg))
        violation("double-ordinary-decimal", "digits " + dg + " exponent " + std::to_string(ex) + " printed as " + t);
      dg.resize(std::min<size_t>(dg.size(), 6));
      ex = r.range(-5, 8);
      float f = strtof((dg + "e" + std::to_string(ex - int(dg.size()))).c_str(), nullptr);
      t = printed(f, 0);
      eval();
      if (sig(t) != sig(dg))
        violation("float-ordinary-decimal", "digits " + dg + " exponent " + std::to_string(ex) + " printed as " + t);
    }
    // numbers with a border of their rounding interval next to a short decimal
    {
      auto &h = hard::doubles[i % (sizeof(hard::doubles) / sizeof(*hard::doubles))];
      check(ldexp(double(h.w), h.q) * (r.chance(20) ? -1 : 1), 0, "double");
      auto &g = hard::floats[i % (sizeof(hard::floats) / sizeof(*hard::floats))];
      check(ldexpf(float(g.w), g.q), 0, "float");
      count("hard_numbers", 2);
    }
    // a sweep over all exponents of both types
    if (i % 1000 < 254)
      check(ng::bits2f(uint32_t(i % 1000) << 23 | uint32_t(r.below(1u << 23))), 0, "float");
    check(ng::bits2d((i % 2047) << 52 | (r.next() >> 12)), 0, "double");
  });
}
