// Generators of decimal texts for floats, shared by C09/C10/C01.
#pragma once
#include "refjson.h"
#include <cfloat>
#include <cmath>
namespace ng
{
using vh::Rng;
inline double bits2d(uint64_t b)
{
  double d;
  memcpy(&d, &b, 8);
  return d;
}
inline uint64_t d2bits(double d)
{
  uint64_t b;
  memcpy(&b, &d, 8);
  return b;
}
inline float bits2f(uint32_t b)
{
  float d;
  memcpy(&d, &b, 4);
  return d;
}
inline uint32_t f2bits(float d)
{
  uint32_t b;
  memcpy(&b, &d, 4);
  return b;
}
inline double rnd_double(Rng &r)
{
  for (;;)
  {
    uint64_t b;
    switch (r.below(10))
    {
    case 0: b = r.next() & 0x800fffffffffffffull; break;                                  // subnormal
    case 1: b = (r.next() & 0x800fffffffffffffull) | (r.below(60) << 52); break;            // tiny
    case 2: b = (r.next() & 0x800fffffffffffffull) | ((2046 - r.below(60)) << 52); break;   // huge
    case 3: b = (r.next() & 0x8000000000000000ull) | (r.below(2047) << 52) | r.below(4); break;           // power of two and neighbours
    case 4: b = ((r.next() & 0x8000000000000000ull) | (r.below(2047) << 52) | (0xfffffffffffffull - r.below(4))); break;
    case 5: b = d2bits(double(int64_t(r.next() >> r.below(64)))); break;                    // integers
    case 6: b = d2bits(double(r.below(1000000)) / double(uint64_t(1) << r.below(30))); break;
    case 7: b = d2bits((double)r.below(100000) / 1000.0); break;
    default: b = r.next();
    }
    double d = bits2d(b);
    if (std::isfinite(d))
      return d;
  }
}
inline float rnd_float(Rng &r)
{
  for (;;)
  {
    uint32_t b = uint32_t(r.next());
    switch (r.below(8))
    {
    case 0: b &= 0x807fffffu; break;
    case 1: b = (b & 0x80000000u) | (uint32_t(r.below(255)) << 23) | uint32_t(r.below(4)); break;
    case 2: b = (b & 0x80000000u) | (uint32_t(r.below(255)) << 23) | (0x7fffffu - uint32_t(r.below(4))); break;
    case 3: b = f2bits(float(int32_t(b >> r.below(32)))); break;
    case 4: b = f2bits(float(r.below(100000)) / 1000.0f); break;
    case 5: b = (b & 0x807fffffu) | (uint32_t(254 - r.below(30)) << 23); break;
    default: break;
    }
    float f = bits2f(b);
    if (std::isfinite(f))
      return f;
  }
}
// digits (no leading zero) and exponent: value = 0.d1d2d3... * 10^exp
struct Dec
{
  bool neg = false;
  std::string d;
  int exp = 0;
};
inline Dec from_sci(const std::string &sci) // "-d.dddde[+-]dd"
{
  Dec x;
  size_t i = 0;
  if (sci[0] == '-')
  {
    x.neg = true;
    i = 1;
  }
  size_t e = sci.find_first_of("eE");
  std::string m = sci.substr(i, e - i);
  int ex = e == std::string::npos ? 0 : atoi(sci.c_str() + e + 1);
  size_t p = m.find('.');
  int intd = int(p == std::string::npos ? m.size() : p);
  for (char c : m)
    if (c != '.')
      x.d += c;
  x.exp = ex + intd;
  size_t z = 0;
  while (z + 1 < x.d.size() && x.d[z] == '0')
    z++;
  x.d.erase(0, z);
  x.exp -= int(z);
  return x;
}
inline Dec exact(long double v)
{
  char b[20000];
  snprintf(b, sizeof b, "%.1200Le", v);
  Dec x = from_sci(b);
  while (x.d.size() > 1 && x.d.back() == '0')
    x.d.pop_back();
  return x;
}
// spell the value as a JSON number in a random way
inline std::string spell(Rng &r, Dec x)
{
  if (r.chance(20))
    x.d += std::string(r.chance(80) ? r.below(30) : r.below(400), '0');
  std::string s = x.neg ? "-" : "";
  int style = int(r.below(4));
  if (style == 0 && std::abs(x.exp) < 700)
  { // plain
    if (x.exp <= 0)
      return s + "0." + std::string(size_t(-x.exp), '0') + x.d;
    if (size_t(x.exp) >= x.d.size())
      return s + x.d + std::string(size_t(x.exp) - x.d.size(), '0') + (r.chance(20) ? ".0" : "");
    return s + x.d.substr(0, size_t(x.exp)) + "." + x.d.substr(size_t(x.exp));
  }
  auto ex = [&](int e) {
    std::string t(1, r.chance(50) ? 'e' : 'E');
    if (e < 0)
      t += "-";
    else if (r.chance(30))
      t += "+";
    if (r.chance(10))
      t += std::string(r.below(4), '0');
    return t + std::to_string(std::abs(e));
  };
  if (style == 1)
  { // integer digits with exponent
    return s + x.d + ex(x.exp - int(x.d.size()));
  }
  if (style == 2)
  { // 0.00ddd e
    int z = int(r.chance(80) ? r.below(25) : r.below(300));
    return s + "0." + std::string(size_t(z), '0') + x.d + ex(x.exp + z);
  }
  size_t p = 1 + r.below(x.d.size());
  if (p >= x.d.size())
    return s + x.d + ex(x.exp - int(x.d.size()));
  return s + x.d.substr(0, p) + "." + x.d.substr(p) + ex(x.exp - int(p));
}
inline void bump(Dec &x, Rng &r) // perturb far behind the significant digits
{
  switch (r.below(4))
  {
  case 0: break;
  case 1: x.d += std::string(r.below(40), '0') + "1"; break;
  case 2: // a bit less
    {
      size_t i = x.d.size();
      while (i > 0 && x.d[i - 1] == '0')
        i--;
      if (i > 1)
      {
        x.d[i - 1]--;
        for (size_t j = i; j < x.d.size(); j++)
          x.d[j] = '9';
        x.d += std::string(1 + r.below(20), '9');
      }
      break;
    }
  case 3:
    if (x.d.size() > 18)
      x.d.resize(17 + r.below(x.d.size() - 17)); // truncated midpoint
    break;
  }
}
inline std::string dec_text(Rng &r, bool flt)
{
  char b[64];
  switch (r.below(11))
  {
  case 0: // 17 digits of a double
    snprintf(b, sizeof b, "%.16e", flt ? (double)rnd_float(r) : rnd_double(r));
    return spell(r, from_sci(b));
  case 1: // short
    snprintf(b, sizeof b, "%.*e", int(r.below(20)), flt ? (double)rnd_float(r) : rnd_double(r));
    return spell(r, from_sci(b));
  case 2:
  case 3:
  case 4: { // exact midpoint between two neighbours, perturbed
    long double a, c;
    if (flt)
    {
      float f = rnd_float(r);
      a = f;
      float g = nextafterf(f, f < 0 ? -INFINITY : INFINITY);
      if (!std::isfinite(g))
        c = (long double)f + ((long double)f - nextafterf(f, 0));
      else
        c = g;
    }
    else
    {
      double f = rnd_double(r);
      a = f;
      double g = nextafter(f, f < 0 ? -INFINITY : INFINITY);
      if (!std::isfinite(g))
        c = (long double)f + ((long double)f - nextafter(f, 0));
      else
        c = g;
    }
    Dec x = exact((a + c) / 2);
    bump(x, r);
    return spell(r, x);
  }
  case 5: // exact expansion
    return spell(r, exact(flt ? (long double)rnd_float(r) : (long double)rnd_double(r)));
  case 6: // any digits, any exponent
  {
    Dec x;
    x.neg = r.chance(30);
    x.d = char('1' + r.below(9));
    x.d += ref::digits(r, r.chance(70) ? r.below(22) : r.below(60));
    x.exp = r.range(-345, 315);
    return spell(r, x);
  }
  case 7: // very long
  {
    Dec x;
    x.neg = r.chance(30);
    x.d = char('1' + r.below(9));
    x.d += ref::digits(r, r.below(800));
    x.exp = flt ? r.range(-50, 45) : r.range(-330, 312);
    return spell(r, x);
  }
  case 8: // around the range limits
  {
    Dec x;
    x.neg = r.chance(30);
    x.d = ref::digits(r, 1 + r.below(25));
    if (x.d[0] == '0')
      x.d[0] = '4';
    x.exp = flt ? (r.chance(50) ? r.range(-50, -36) : r.range(36, 42)) : (r.chance(50) ? r.range(-330, -305) : r.range(305, 312));
    return spell(r, x);
  }
  case 9: // zeros and extreme exponents
  {
    static const char *e[] = {"0", "-0", "0.0", "-0.0", "0e5", "0E-400", "0.000e999", "1e400", "-1e400", "1e-400", "1e99999", "1e-99999", "-1e-999999", "123456789e-99999",
                              "0.00000000000000000000000000000000000000000000000000", "1e0", "1E+0", "10e-1", "1e308", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308",
                              "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072011e-308", "2.2250738585072014e-308", "3.4028235e38", "3.4028236e38", "3.4028235677973366e38",
                              "1.4e-45", "7.006492321624085e-46", "7.006492321624086e-46", "9007199254740993", "9007199254740993.0", "18446744073709551615", "18446744073709551616", "18446744073709551617", "123456789012345678901234567890"};
    return r.pick(e);
  }
  default: return ref::gen_num(r, 20);
  }
}
} // namespace ng
