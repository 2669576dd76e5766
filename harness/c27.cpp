// C27: a scalar target takes its value from the whole text or reports an error.
#include "types.h"
#include "numgen.h"
using namespace vh;
using namespace ty;

JS_ENUM(Pre, a, ab, abc, abcd, b, ba, A, Ab, _x, x1, _1, x10, x2, abcdefghijklmnopqrstuvwxyz, abcdefghijklmnopqrstuvwxyz0, n_ull, True)
JS_ENUM_DECLARE_STRING_PARSER(Pre)
enum class Wide : uint64_t
{
  none = 0,
  top = ~uint64_t(0)
};
JS_ENUM_DECLARE_VALUE_PARSER(Wide)
static const std::vector<std::string> PRE = {"a", "ab", "abc", "abcd", "b", "ba", "A", "Ab", "_x", "x1", "_1", "x10", "x2", "abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyz0", "n_ull", "True"};
static const std::vector<std::string> COL = {"red", "green", "blue", "a_very_long_enumerator_name_that_exceeds_a_vector", "x"};
static const std::vector<std::string> SHA = {"circle", "Square_2", "tri"};

template <class T>
struct Box
{
  int before = 7;
  T v{};
  int after = 8;
  JS_OBJ(before, v, after);
};
struct Got
{
  JS::Error e;
  bool placed; // the members around it are right
};
// the text as a member, an array element, or inside a wrapper
template <class T>
static Got put(Rng &r, const std::string &tok, T &out, std::string &doc)
{
  int via = int(r.below(5));
  std::string sp = r.chance(30) ? " " : "";
  doc = "{\"before\":1,\"v\":" + sp + (via == 1 ? "[" + tok + sp + "]" : tok) + sp + ",\"after\":2}";
  Exact x(doc);
  JS::ParseContext pc;
  Exact left(doc.substr(0, doc.size() / 2)), right(doc.substr(doc.size() / 2));
  if (r.chance(20))
    pc.tokenizer.addData(left.p, left.n), pc.tokenizer.addData(right.p, right.n);
  else
    pc.tokenizer.addData(x.p, x.n);
  Got g;
  auto fin = [&](int a, int b) {
    g.placed = a == 1 && b == 2;
    return g;
  };
  switch (via)
  {
  case 1:
  {
    Box<std::vector<T>> b;
    g.e = pc.parseTo(b);
    if (b.v.size() == 1)
      out = b.v[0];
    return fin(b.before, b.v.size() == 1 ? b.after : 0);
  }
  case 2:
  {
    Box<std::optional<T>> b;
    g.e = pc.parseTo(b);
    if (b.v)
      out = *b.v;
    return fin(b.before, b.after);
  }
  case 3:
  {
    Box<JS::OptionalChecked<T>> b;
    g.e = pc.parseTo(b);
    out = b.v.data;
    return fin(b.before, b.after);
  }
  default:
  {
    Box<T> b;
    g.e = pc.parseTo(b);
    out = b.v;
    return fin(b.before, b.after);
  }
  }
}
template <class T>
static void refused(Rng &r, const char *name, const std::string &tok)
{
  T v{};
  std::string doc;
  Got g = put<T>(r, tok, v, doc);
  eval();
  count("refusals_expected");
  seen(hash(tok, hash(name, strlen(name))));
  if (g.e == JS::Error::NoError)
    violation(std::string("wrong-text-accepted-") + name, doc);
}
template <class T>
static void taken(Rng &r, const char *name, const std::string &tok, const T &want)
{
  T v{};
  std::string doc;
  Got g = put<T>(r, tok, v, doc);
  eval();
  count("values_expected");
  seen(hash(tok, hash(name, strlen(name))));
  if (g.e != JS::Error::NoError)
    violation(std::string("text-refused-") + name, doc + " error " + std::to_string(int(g.e)));
  else if (!g.placed)
    violation(std::string("lost-its-place-") + name, doc);
  else if (!(v == want))
    violation(std::string("wrong-value-") + name, doc);
}
static bool dig(char c) { return c >= '0' && c <= '9'; }
// anything that could pass for a number: spaces, sign, digits with or without a point, exponent
static bool number_like(const std::string &s)
{
  size_t i = 0, n = s.size(), d = 0;
  while (i < n && strchr(" \t\r\n\f\v", s[i]))
    i++;
  if (i < n && (s[i] == '-' || s[i] == '+'))
    i++;
  while (i < n && dig(s[i]))
    i++, d++;
  if (i < n && s[i] == '.')
    for (i++; i < n && dig(s[i]); i++)
      d++;
  if (!d)
    return false;
  if (i < n && (s[i] == 'e' || s[i] == 'E'))
  {
    i++;
    if (i < n && (s[i] == '-' || s[i] == '+'))
      i++;
    if (i >= n || !dig(s[i]))
      return false;
    while (i < n && dig(s[i]))
      i++;
  }
  while (i < n && strchr(" \t\r\n\f\v", s[i]))
    i++;
  return i == n;
}
static std::string not_number(Rng &r, bool bare)
{
  static const char *odd[] = {"", "-", "+", ".", "e5", ".e5", "-.", "1e", "1e+", "1e-", "--1", "+-1", "1-", "1+1", "0x10", "1_0", "inf", "-inf", "nan", "NaN", "Infinity", "-Infinity", "true", "null", "abc", "1.5f", "1d", "1e5.0", "1e5e5", "1..5", "1.2.3", "e", "E1", "-e1", "1e--5", "1L", "٣"};
  for (;;)
  {
    std::string s;
    if (r.chance(25))
      s = r.pick(odd);
    else
    {
      s = r.chance(70) ? ng::dec_text(r, r.chance(40)) : std::to_string(int64_t(r.next() >> r.below(64)));
      if (s.size() > 60 && r.chance(80))
        s.resize(60);
      static const char cs[] = "0123456789+-.eEexXabfnidlLFp_#$%&'()*;<=>?@^`|~/u";
      for (int n = r.chance(70) ? 1 : r.range(2, 4); n > 0; n--)
      {
        char c = r.chance(60) ? "+-.eE"[r.below(5)] : cs[r.below(sizeof cs - 1)];
        size_t at = r.chance(30) ? s.size() : r.below(s.size() + 1);
        if (at < s.size() && r.chance(40))
          s[at] = c;
        else
          s.insert(s.begin() + long(at), c);
      }
    }
    if (number_like(s))
      continue;
    if (bare && (s.empty() || s[0] == '/' || s.find("//") != std::string::npos || (s[0] != '-' && !dig(s[0]) && r.chance(70))))
      continue;
    return s;
  }
}
template <class T>
static void number(Rng &r, const char *name)
{
  bool bare = r.chance(50);
  std::string s = not_number(r, bare);
  refused<T>(r, name, bare ? s : "\"" + s + "\"");
  // the value behind quotes is the value
  int64_t k = int64_t(r.below(120));
  taken<T>(r, name, r.chance(50) ? std::to_string(k) : "\"" + std::to_string(k) + "\"", T(k));
}
static std::string mutant(Rng &r, const std::string &base, const std::vector<std::string> &not_these)
{
  for (;;)
  {
    std::string s = base;
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_ -.";
    switch (r.below(8))
    {
    case 0: s.pop_back(); break;
    case 1: s += cs[r.below(sizeof cs - 1)]; break;
    case 2: s[r.below(s.size())] ^= 0x20; break;
    case 3: s[r.below(s.size())] = cs[r.below(sizeof cs - 1)]; break;
    case 4: s.insert(s.begin(), cs[r.below(sizeof cs - 1)]); break;
    case 5: s.resize(r.below(s.size() + 1)); break;
    case 6: s += r.chance(50) ? s : r.pick(not_these); break;
    case 7: s.erase(s.begin() + long(r.below(s.size()))); break;
    }
    bool ok = true;
    for (unsigned char c : s)
      ok = ok && c >= 0x20 && c < 0x7f && c != '"' && c != '\\';
    for (auto &n : not_these)
      ok = ok && n != s;
    if (ok)
      return s;
  }
}
template <class E>
static void names(Rng &r, const char *name, const std::vector<std::string> &n)
{
  size_t i = r.below(n.size());
  taken<E>(r, name, "\"" + n[i] + "\"", E(i));
  taken<E>(r, name, std::to_string(i), E(i));
  refused<E>(r, name, "\"" + mutant(r, n[i], n) + "\"");
  static const char *other[] = {"true", "false", "null", "\"\"", "\" \"", "[]", "{}", "\"0\"", "\"1\"", "1.2.3", "--1", "1e"};
  refused<E>(r, name, r.pick(other));
}
static void booleans(Rng &r)
{
  bool b = r.chance(50);
  std::string t = b ? "true" : "false";
  taken<bool>(r, "bool", t, b);
  taken<bool>(r, "bool", "\"" + t + "\"", b);
  std::string m = mutant(r, t, {"true", "false"});
  refused<bool>(r, "bool", "\"" + m + "\"");
  static const char *other[] = {"0", "1", "null", "\"\"", "[]", "{}", "\"0\"", "\"1\"", "-1", "\"yes\"", "1.0"};
  refused<bool>(r, "bool", r.pick(other));
}
template <class T>
static void times(Rng &r, const char *name, bool nanos)
{
  using namespace std::chrono;
  std::string bad = not_number(r, false);
  refused<T>(r, name, "\"" + bad + "\"");
  static const uint64_t edge[] = {0, 1, 9223372036ull, 9223372037ull, 10000000000ull, 100000000000ull, 9223372036854ull, 9223372036855ull, 100000000000000ull, 9223372036854775ull, 9223372036854776ull, 100000000000000000ull, 9223372036854775807ull, 9223372036854775808ull, 10000000000000000000ull, ~0ull};
  uint64_t n = r.chance(50) ? r.next() >> r.below(64) : r.pick(edge) + r.below(5) - 2;
  if (n > 100000000000000000ull - 1000 && n < 100000000000000000ull + 1000)
    n += 5000; // near 1973 as nanoseconds: the exact border between the two readings is not claimed
  // what the count means follows from its size
  uint64_t unit = n <= 100000000000ull ? 1000000000 : n <= 100000000000000ull ? 1000000 : n <= 100000000000000000ull ? 1000 : 1; // nanoseconds
  unsigned __int128 ns = (unsigned __int128)n * unit;
  typedef typename T::duration D;
  unsigned __int128 per = (unsigned __int128)1000000000 * D::period::num / D::period::den; // nanoseconds per tick
  unsigned __int128 ticks = ns / per;
  bool fits = ticks <= (unsigned __int128)D::max().count() && (unit != 1 || nanos);
  if (fits)
    taken<T>(r, name, std::to_string(n), T(D(typename D::rep(ticks))));
  else
    refused<T>(r, name, std::to_string(n));
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C27", [](uint64_t i, Rng &r) {
    switch (i % 20)
    {
    case 0:
    case 1:
    case 2: return number<double>(r, "double");
    case 3:
    case 4:
    case 5: return number<float>(r, "float");
    case 6: return number<int>(r, "int"), number<int8_t>(r, "int8");
    case 7: return number<unsigned>(r, "unsigned"), number<uint8_t>(r, "uint8");
    case 8: return number<int64_t>(r, "int64"), number<short>(r, "short");
    case 9: return number<uint64_t>(r, "uint64"), number<unsigned short>(r, "ushort");
    case 10:
    case 11: return names<Pre>(r, "enum-by-name", PRE);
    case 12: return names<Colour>(r, "enum-by-name", COL);
    case 13: return names<tns::Shape>(r, "enum-in-namespace", SHA);
    case 14: {
      int16_t v = int16_t(r.next());
      taken<Level>(r, "enum-by-value", std::to_string(v), Level(v));
      refused<Level>(r, "enum-by-value", "\"" + not_number(r, false) + "\"");
      uint64_t w = r.next() >> r.below(64);
      taken<Wide>(r, "enum-by-value-64", std::to_string(w), Wide(w));
      return refused<Wide>(r, "enum-by-value-64", not_number(r, true));
    }
    case 15:
    case 16: return booleans(r);
    case 17: return times<std::chrono::high_resolution_clock::time_point>(r, "nanosecond-time", true);
    default: return times<std::chrono::time_point<std::chrono::system_clock, std::chrono::microseconds>>(r, "microsecond-time", false);
    }
  });
}
