// A catalogue of target types covering every kind the library supports. For each type: a random value
// generator, the JSON document the value denotes (built independently of the library), and equality.
#pragma once
#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_UNORDERED_SET 1
#define JS_STL_ARRAY 1
#define JS_STD_OPTIONAL 1
#define JS_STD_TIMEPOINT 1
#define JS_STD_UNORDERED_MAP 1
#include <array>
#include <chrono>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include "jsutil.h"
#include "numgen.h"

namespace ty
{
using ref::Val;
using vh::Rng;

template <class T, class = void>
struct Gen; // make(Rng&,depth) ; bool json(const T&, Val&) (false: the member is left out) ; bool eq(const T&, const T&)

template <class T>
bool same(const T &a, const T &b)
{
  return Gen<T>::eq(a, b);
}

template <class T>
std::string dec(T v)
{
  bool neg = v < 0;
  std::string s;
  unsigned __int128 u = neg ? (unsigned __int128)0 - (unsigned __int128)(__int128)v : (unsigned __int128)v;
  do
  {
    s.insert(s.begin(), char('0' + int(u % 10)));
    u /= 10;
  } while (u);
  return neg ? "-" + s : s;
}
template <class T>
T rnd_int(Rng &r)
{
  const int bits = int(sizeof(T) * 8);
  unsigned __int128 u = ((unsigned __int128)r.next() << 64) | r.next();
  const bool sg = T(-1) < T(0);
  const T mx = sg ? T(~(T(1) << (bits - 1))) : T(~T(0));
  const T mn = sg ? T(T(1) << (bits - 1)) : T(0);
  switch (r.below(5))
  {
  case 0: return T(r.below(20)) - T(sg ? 10 : 0);
  case 1: return r.chance(50) ? T(mx - T(r.below(3))) : T(mn + T(r.below(3)));
  case 2: return T(u >> r.below(128));
  case 3: {
    T p = 1;
    int k = int(r.below(uint64_t(bits == 128 ? 38 : bits * 3 / 10)));
    for (int i = 0; i < k; i++)
      p = T(p * 10);
    return T(p + T(r.below(3)) - T(1));
  }
  default: return T(u);
  }
}
template <class T>
struct GenInt
{
  static T make(Rng &r, int) { return rnd_int<T>(r); }
  static bool json(const T &v, Val &o)
  {
    o.k = ref::Num;
    o.raw = dec(v);
    return true;
  }
  static bool eq(const T &a, const T &b) { return a == b; }
};
#define TY_INT(T) template <> struct Gen<T> : GenInt<T> {};
TY_INT(char) TY_INT(signed char) TY_INT(unsigned char) TY_INT(short) TY_INT(unsigned short) TY_INT(int) TY_INT(unsigned)
TY_INT(long) TY_INT(unsigned long) TY_INT(long long) TY_INT(unsigned long long) TY_INT(__int128) TY_INT(unsigned __int128)

template <>
struct Gen<bool>
{
  static bool make(Rng &r, int) { return r.chance(50); }
  static bool json(const bool &v, Val &o)
  {
    o.k = ref::Bool;
    o.b = v;
    return true;
  }
  static bool eq(bool a, bool b) { return a == b; }
};
template <class T>
struct GenFloat
{
  static T make(Rng &r, int)
  {
    T v = sizeof(T) == 8 ? T(ng::rnd_double(r)) : T(ng::rnd_float(r));
    return v == 0 ? T(0) : v;
  }
  static bool json(const T &v, Val &o)
  {
    o.k = ref::Num;
    o.raw = "~"; // compared numerically
    o.num = double(v);
    o.is_float = sizeof(T) == 4;
    return true;
  }
  static bool eq(const T &a, const T &b) { return a == b; }
};
template <>
struct Gen<double> : GenFloat<double>
{
};
template <>
struct Gen<float> : GenFloat<float>
{
};
// any UTF-8 text, including control characters, quotes, backslashes and vector-width lengths
inline std::string text(Rng &r)
{
  size_t n = r.chance(15) ? ref::interesting_len(r) : r.below(9);
  std::string s;
  int style = int(r.below(3));
  size_t sp = r.below(n + 1);
  while (s.size() < n)
  {
    if (style == 0 || (style == 1 && s.size() >= sp && s.size() < sp + 2))
      switch (r.below(5))
      {
      case 0: s += char(r.below(32)); break;
      case 1: s += "\"\\/{}[]:,"[r.below(9)]; break;
      case 2: {
        uint32_t cp;
        do
          cp = uint32_t(r.chance(50) ? 0x7f + r.below(0x800) : r.below(0x110000));
        while ((cp >= 0xD800 && cp < 0xE000));
        ref::utf8(s, cp);
        break;
      }
      default: s += char(32 + r.below(95));
      }
    else
      s += char('a' + r.below(26));
  }
  return s;
}
template <>
struct Gen<std::string>
{
  static std::string make(Rng &r, int) { return text(r); }
  static bool json(const std::string &v, Val &o)
  {
    o.k = ref::Str;
    o.raw = ref::encode(v);
    return true;
  }
  static bool eq(const std::string &a, const std::string &b) { return a == b; }
};
template <class T>
struct Gen<JS::Nullable<T>>
{
  static JS::Nullable<T> make(Rng &r, int d) { return JS::Nullable<T>(Gen<T>::make(r, d)); }
  static bool json(const JS::Nullable<T> &v, Val &o) { return Gen<T>::json(v.data, o); }
  static bool eq(const JS::Nullable<T> &a, const JS::Nullable<T> &b) { return Gen<T>::eq(a.data, b.data); }
};
template <class T>
struct Gen<JS::NullableChecked<T>>
{
  static JS::NullableChecked<T> make(Rng &r, int d)
  {
    JS::NullableChecked<T> v;
    v.null = r.chance(40);
    if (!v.null)
      v.data = Gen<T>::make(r, d);
    return v;
  }
  static bool json(const JS::NullableChecked<T> &v, Val &o)
  {
    if (!v.null)
      return Gen<T>::json(v.data, o);
    o.k = ref::Null;
    return true;
  }
  static bool eq(const JS::NullableChecked<T> &a, const JS::NullableChecked<T> &b) { return a.null == b.null && (a.null || Gen<T>::eq(a.data, b.data)); }
};
template <class T>
struct Gen<JS::Optional<T>>
{
  static JS::Optional<T> make(Rng &r, int d) { return JS::Optional<T>(Gen<T>::make(r, d)); }
  static bool json(const JS::Optional<T> &v, Val &o) { return Gen<T>::json(v.data, o); }
  static bool eq(const JS::Optional<T> &a, const JS::Optional<T> &b) { return Gen<T>::eq(a.data, b.data); }
};
template <class T>
struct Gen<JS::OptionalChecked<T>>
{
  static JS::OptionalChecked<T> make(Rng &r, int d)
  {
    JS::OptionalChecked<T> v;
    if (r.chance(60))
    {
      v.data = Gen<T>::make(r, d);
      v.assigned = true;
    }
    return v;
  }
  static bool json(const JS::OptionalChecked<T> &v, Val &o) { return v.assigned && Gen<T>::json(v.data, o); }
  static bool eq(const JS::OptionalChecked<T> &a, const JS::OptionalChecked<T> &b) { return a.assigned == b.assigned && (!a.assigned || Gen<T>::eq(a.data, b.data)); }
};
template <class T>
struct Gen<std::optional<T>>
{
  static std::optional<T> make(Rng &r, int d)
  {
    std::optional<T> v;
    if (r.chance(60))
      v = Gen<T>::make(r, d);
    return v;
  }
  static bool json(const std::optional<T> &v, Val &o) { return v && Gen<T>::json(*v, o); }
  static bool eq(const std::optional<T> &a, const std::optional<T> &b) { return a.has_value() == b.has_value() && (!a || Gen<T>::eq(*a, *b)); }
};
template <class P, class T>
struct GenPtr
{
  static P make(Rng &r, int d)
  {
    P p;
    if (d > 0 && r.chance(65))
      p.reset(new T(Gen<T>::make(r, d - 1)));
    return p;
  }
  static bool json(const P &v, Val &o)
  {
    if (v)
      return Gen<T>::json(*v, o);
    o.k = ref::Null;
    return true;
  }
  static bool eq(const P &a, const P &b) { return !a == !b && (!a || Gen<T>::eq(*a, *b)); }
};
template <class T>
struct Gen<std::unique_ptr<T>> : GenPtr<std::unique_ptr<T>, T>
{
};
template <class T>
struct Gen<std::shared_ptr<T>> : GenPtr<std::shared_ptr<T>, T>
{
};
// number of elements; d becomes the depth of the elements, which is small when there are many of them
inline size_t len(Rng &r, int &d)
{
  if (d <= 0)
    return 0;
  d--;
  uint64_t k = r.below(1000);
  if (k < 40)
    return r.below(40);
  if (k < 42)
  {
    d = d < 1 ? d : 1;
    return r.chance(10) ? 900 + r.below(300) : r.chance(50) ? ref::interesting_len(r) % 300 : 40 + r.below(250);
  }
  return r.below(5);
}
template <class C, class T>
struct GenSeq
{
  static C make(Rng &r, int d)
  {
    C c;
    size_t n = len(r, d);
    for (size_t i = 0; i < n; i++)
      c.push_back(Gen<T>::make(r, d));
    return c;
  }
  static bool json(const C &v, Val &o)
  {
    o.k = ref::Arr;
    for (const auto &e : v)
    {
      Val x;
      if (Gen<T>::json(e, x))
        o.a.push_back(x);
    }
    return true;
  }
  static bool eq(const C &a, const C &b)
  {
    if (a.size() != b.size())
      return false;
    for (size_t i = 0; i < a.size(); i++)
      if (!Gen<T>::eq(a[i], b[i]))
        return false;
    return true;
  }
};
template <class T>
struct Gen<std::vector<T>> : GenSeq<std::vector<T>, T>
{
};
template <class T, size_t N>
struct Gen<std::array<T, N>>
{
  typedef std::array<T, N> C;
  static C make(Rng &r, int d)
  {
    C c;
    for (size_t i = 0; i < N; i++)
      c[i] = Gen<T>::make(r, d - 1);
    return c;
  }
  static bool json(const C &v, Val &o) { return GenSeq<C, T>::json(v, o); }
  static bool eq(const C &a, const C &b) { return GenSeq<C, T>::eq(a, b); }
};
template <class T, size_t N>
struct Gen<JS::ArrayVariableContent<T, N>>
{
  typedef JS::ArrayVariableContent<T, N> C;
  static C make(Rng &r, int d)
  {
    C c;
    c.size = r.below(N + 1);
    for (size_t i = 0; i < N; i++)
      c.data[i] = i < c.size ? Gen<T>::make(r, d - 1) : T();
    return c;
  }
  static bool json(const C &v, Val &o) { return Gen<std::vector<T>>::json(std::vector<T>(v.data, v.data + v.size), o); }
  static bool eq(const C &a, const C &b) { return Gen<std::vector<T>>::eq(std::vector<T>(a.data, a.data + a.size), std::vector<T>(b.data, b.data + b.size)); }
};
template <class T>
struct Gen<JS::OneOrMany<T>>
{
  typedef JS::OneOrMany<T> C;
  static C make(Rng &r, int d)
  {
    C c;
    c.data = Gen<std::vector<T>>::make(r, d < 1 ? 1 : d);
    return c;
  }
  static bool json(const C &v, Val &o)
  {
    if (v.data.empty())
      return false;
    if (v.data.size() == 1)
      return Gen<T>::json(v.data[0], o);
    return Gen<std::vector<T>>::json(v.data, o);
  }
  static bool eq(const C &a, const C &b) { return Gen<std::vector<T>>::eq(a.data, b.data); }
};
template <class... Ts>
struct Gen<std::tuple<Ts...>>
{
  typedef std::tuple<Ts...> C;
  static C make(Rng &r, int d) { return C{Gen<Ts>::make(r, d - 1)...}; }
  template <size_t... I>
  static void j(const C &v, Val &o, std::index_sequence<I...>)
  {
    o.a.resize(sizeof...(Ts));
    (void)std::initializer_list<int>{(Gen<Ts>::json(std::get<I>(v), o.a[I]), 0)...};
  }
  static bool json(const C &v, Val &o)
  {
    o.k = ref::Arr;
    j(v, o, std::index_sequence_for<Ts...>());
    return true;
  }
  template <size_t... I>
  static bool e(const C &a, const C &b, std::index_sequence<I...>)
  {
    bool ok = true;
    (void)std::initializer_list<int>{(ok = ok && Gen<Ts>::eq(std::get<I>(a), std::get<I>(b)), 0)...};
    return ok;
  }
  static bool eq(const C &a, const C &b) { return e(a, b, std::index_sequence_for<Ts...>()); }
};
template <class A, class B, class D>
struct Gen<JS::Tuple<A, B, D>>
{
  typedef JS::Tuple<A, B, D> C;
  static C make(Rng &r, int d)
  {
    C c;
    c.template get<0>() = Gen<A>::make(r, d - 1);
    c.template get<1>() = Gen<B>::make(r, d - 1);
    c.template get<2>() = Gen<D>::make(r, d - 1);
    return c;
  }
  static bool json(const C &v, Val &o)
  {
    o.k = ref::Arr;
    o.a.resize(3);
    Gen<A>::json(v.template get<0>(), o.a[0]);
    Gen<B>::json(v.template get<1>(), o.a[1]);
    Gen<D>::json(v.template get<2>(), o.a[2]);
    return true;
  }
  static bool eq(const C &a, const C &b)
  {
    return Gen<A>::eq(a.template get<0>(), b.template get<0>()) && Gen<B>::eq(a.template get<1>(), b.template get<1>()) && Gen<D>::eq(a.template get<2>(), b.template get<2>());
  }
};
template <class M, class T>
struct GenMap
{
  static M make(Rng &r, int d)
  {
    M m;
    size_t n = len(r, d);
    for (size_t i = 0; i < n; i++)
      m[text(r)] = Gen<T>::make(r, d);
    return m;
  }
  static bool json(const M &v, Val &o)
  {
    o.k = ref::Obj;
    for (auto &e : v)
    {
      Val x;
      if (Gen<T>::json(e.second, x))
        o.o.emplace_back(ref::encode(e.first), x);
    }
    return true;
  }
  static bool eq(const M &a, const M &b)
  {
    if (a.size() != b.size())
      return false;
    for (auto &e : a)
    {
      auto it = b.find(e.first);
      if (it == b.end() || !Gen<T>::eq(e.second, it->second))
        return false;
    }
    return true;
  }
};
template <class T>
struct Gen<std::map<std::string, T>> : GenMap<std::map<std::string, T>, T>
{
};
template <class T>
struct Gen<std::unordered_map<std::string, T>> : GenMap<std::unordered_map<std::string, T>, T>
{
};
template <class S, class T>
struct GenSet
{
  static S make(Rng &r, int d)
  {
    S m;
    size_t n = len(r, d);
    for (size_t i = 0; i < n; i++)
      m.insert(Gen<T>::make(r, d));
    return m;
  }
  static bool json(const S &v, Val &o)
  {
    o.k = ref::Arr;
    for (auto &e : v)
    {
      o.a.emplace_back();
      Gen<T>::json(e, o.a.back());
    }
    return true;
  }
  static bool eq(const S &a, const S &b) { return a == b; }
};
template <class T>
struct Gen<std::set<T>> : GenSet<std::set<T>, T>
{
};
template <class T>
struct Gen<std::unordered_set<T>> : GenSet<std::unordered_set<T>, T>
{
};
template <>
struct Gen<JS::SilentString>
{
  static JS::SilentString make(Rng &r, int d)
  {
    JS::SilentString s;
    if (r.chance(60))
      s.data = text(r);
    return s;
  }
  static bool json(const JS::SilentString &v, Val &o) { return !v.data.empty() && Gen<std::string>::json(v.data, o); }
  static bool eq(const JS::SilentString &a, const JS::SilentString &b) { return a.data == b.data; }
};
template <class T>
struct Gen<JS::SilentVector<T>>
{
  static JS::SilentVector<T> make(Rng &r, int d)
  {
    JS::SilentVector<T> s;
    s.data = Gen<std::vector<T>>::make(r, d);
    return s;
  }
  static bool json(const JS::SilentVector<T> &v, Val &o) { return !v.data.empty() && Gen<std::vector<T>>::json(v.data, o); }
  static bool eq(const JS::SilentVector<T> &a, const JS::SilentVector<T> &b) { return Gen<std::vector<T>>::eq(a.data, b.data); }
};
template <class T>
struct Gen<JS::SilentUniquePtr<T>>
{
  static JS::SilentUniquePtr<T> make(Rng &r, int d)
  {
    JS::SilentUniquePtr<T> s;
    s.data = Gen<std::unique_ptr<T>>::make(r, d);
    return s;
  }
  static bool json(const JS::SilentUniquePtr<T> &v, Val &o) { return v.data && Gen<T>::json(*v.data, o); }
  static bool eq(const JS::SilentUniquePtr<T> &a, const JS::SilentUniquePtr<T> &b) { return Gen<std::unique_ptr<T>>::eq(a.data, b.data); }
};
// instants from 2001 to 2260, the range the integer encoding can express unambiguously
template <class C, class D>
struct Gen<std::chrono::time_point<C, D>>
{
  typedef std::chrono::time_point<C, D> T;
  static constexpr bool ns = std::is_same<std::chrono::high_resolution_clock::time_point, T>::value;
  static T make(Rng &r, int)
  {
    int64_t s = 1000000001 + int64_t(r.below(8150000000ull));
    int64_t sub = 0;
    switch (r.below(3))
    {
    case 0: break;
    case 1: sub = int64_t(r.below(1000)) * 1000000; break;
    default: sub = ns && r.chance(50) ? int64_t(r.below(1000000000)) : int64_t(r.below(1000000)) * 1000;
    }
    return T(std::chrono::duration_cast<D>(std::chrono::seconds(s)) + std::chrono::duration_cast<D>(std::chrono::nanoseconds(sub)));
  }
  static bool json(const T &v, Val &o)
  {
    int64_t n = std::chrono::duration_cast<std::chrono::nanoseconds>(v.time_since_epoch()).count();
    while (n % 1000 == 0 && n > 10000000000ll)
      n /= 1000;
    o.k = ref::Num;
    o.raw = std::to_string(n);
    return true;
  }
  static bool eq(const T &a, const T &b) { return a == b; }
};
} // namespace ty

// ---- enums and structs ---------------------------------------------------------------------------
JS_ENUM(Colour, red, green, blue, a_very_long_enumerator_name_that_exceeds_a_vector, x)
JS_ENUM_DECLARE_STRING_PARSER(Colour)
namespace tns
{
JS_ENUM(Shape, circle, Square_2, tri)
}
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(tns, Shape)
enum class Level : int16_t
{
  low = -5,
  mid = 0,
  high = 300
};
JS_ENUM_DECLARE_VALUE_PARSER(Level)

namespace ty
{
template <>
struct Gen<Colour>
{
  static Colour make(Rng &r, int) { return Colour(r.below(5)); }
  static bool json(const Colour &v, Val &o)
  {
    static const char *n[] = {"red", "green", "blue", "a_very_long_enumerator_name_that_exceeds_a_vector", "x"};
    o.k = ref::Str;
    o.raw = n[int(v)];
    return true;
  }
  static bool eq(Colour a, Colour b) { return a == b; }
};
template <>
struct Gen<tns::Shape>
{
  static tns::Shape make(Rng &r, int) { return tns::Shape(r.below(3)); }
  static bool json(const tns::Shape &v, Val &o)
  {
    static const char *n[] = {"circle", "Square_2", "tri"};
    o.k = ref::Str;
    o.raw = n[int(v)];
    return true;
  }
  static bool eq(tns::Shape a, tns::Shape b) { return a == b; }
};
template <>
struct Gen<Level>
{
  static Level make(Rng &r, int) { return r.chance(50) ? Level::low : r.chance(50) ? Level::high : Level(rnd_int<int16_t>(r)); }
  static bool json(const Level &v, Val &o) { return Gen<short>::json(short(v), o); }
  static bool eq(Level a, Level b) { return a == b; }
};
// structs that provide a static template each(A&, B&, F): F(name, a.member, b.member)
struct Maker
{
  Rng &r;
  int d;
  template <class T>
  void operator()(const char *, T &a, T &)
  {
    a = Gen<T>::make(r, d);
  }
  template <class T, size_t N>
  void operator()(const char *n, T (&a)[N], T (&)[N])
  {
    Maker m{r, d - 1};
    for (auto &e : a)
      m(n, e, e);
  }
};
struct Jsoner
{
  Val &o;
  template <class T>
  static void element(const T &v, Val &x)
  {
    Gen<T>::json(v, x);
  }
  template <class T, size_t N>
  static void element(const T (&v)[N], Val &x)
  {
    array(v, x);
  }
  template <class T, size_t N>
  static void array(const T (&a)[N], Val &x)
  {
    x.k = ref::Arr;
    x.a.resize(N);
    for (size_t i = 0; i < N; i++)
      element(a[i], x.a[i]);
  }
  template <class T>
  void operator()(const char *n, const T &a, const T &)
  {
    Val x;
    if (Gen<T>::json(a, x))
      o.o.emplace_back(n, x);
  }
  template <class T, size_t N>
  void operator()(const char *n, const T (&a)[N], const T (&)[N])
  {
    Val x;
    array(a, x);
    o.o.emplace_back(n, x);
  }
};
struct Eqer
{
  bool ok = true;
  std::string bad;
  template <class T>
  void operator()(const char *n, const T &a, const T &b)
  {
    if (!Gen<T>::eq(a, b))
      ok = false, bad = n;
  }
  template <class T, size_t N>
  void operator()(const char *n, const T (&a)[N], const T (&b)[N])
  {
    for (size_t i = 0; i < N; i++)
      (*this)(n, a[i], b[i]);
  }
};
template <class T>
struct Gen<T, decltype(T::is_verif_struct(), void())>
{
  static T make(Rng &r, int d)
  {
    T t;
    Maker m{r, d};
    T::each(t, t, m);
    return t;
  }
  static bool json(const T &v, Val &o)
  {
    o.k = ref::Obj;
    Jsoner j{o};
    T::each(v, v, j);
    return true;
  }
  static bool eq(const T &a, const T &b)
  {
    Eqer e;
    T::each(a, b, e);
    return e.ok;
  }
};
#define TY_EACH1(m) f(#m, a.m, b.m);
#define TY_S \
  static void is_verif_struct() {} \
  template <class A_, class B_, class F_> \
  static void each(A_ &a, B_ &b, F_ &f)

struct Scalars
{
  bool b = false;
  char c = 0;
  signed char i8 = 0;
  unsigned char u8 = 0;
  short i16 = 0;
  unsigned short u16 = 0;
  int i32 = 0;
  unsigned u32 = 0;
  long i64 = 0;
  unsigned long u64 = 0;
  long long ll = 0;
  unsigned long long ull = 0;
  float f = 0;
  double d = 0;
  std::string s;
  Colour e = Colour::red;
  tns::Shape sh = tns::Shape::circle;
  Level lv = Level::mid;
  std::chrono::system_clock::time_point tp;
  JS_OBJ(b, c, i8, u8, i16, u16, i32, u32, i64, u64, ll, ull, f, d, s, e, sh, lv, tp);
  TY_S
  {
    TY_EACH1(b) TY_EACH1(c) TY_EACH1(i8) TY_EACH1(u8) TY_EACH1(i16) TY_EACH1(u16) TY_EACH1(i32) TY_EACH1(u32) TY_EACH1(i64) TY_EACH1(u64)
    TY_EACH1(ll) TY_EACH1(ull) TY_EACH1(f) TY_EACH1(d) TY_EACH1(s) TY_EACH1(e) TY_EACH1(sh) TY_EACH1(lv) TY_EACH1(tp)
  }
};
struct Small
{
  int a = 0;
  std::string text;
  JS_OBJ(a, text);
  TY_S { TY_EACH1(a) TY_EACH1(text) }
};
struct Containers
{
  std::vector<int> vi;
  std::vector<std::string> vs;
  std::vector<bool> vb;
  std::vector<std::vector<double>> vvd;
  std::vector<Small> vo;
  int arr[3] = {0, 0, 0};
  std::array<std::string, 2> sa;
  std::tuple<int, std::string, std::vector<int>> tup;
  JS::Tuple<bool, std::string, double> jt;
  std::map<std::string, std::string> ms;
  std::map<std::string, Small> mo;
  std::unordered_map<std::string, int> um;
  std::set<std::string> ss;
  std::unordered_set<int> us;
  JS::ArrayVariableContent<int, 4> avc;
  std::vector<Colour> ve;
  JS_OBJ(vi, vs, vb, vvd, vo, arr, sa, tup, jt, ms, mo, um, ss, us, avc, ve);
  TY_S
  {
    TY_EACH1(vi) TY_EACH1(vs) TY_EACH1(vb) TY_EACH1(vvd) TY_EACH1(vo) TY_EACH1(arr) TY_EACH1(sa) TY_EACH1(tup) TY_EACH1(jt) TY_EACH1(ms)
    TY_EACH1(mo) TY_EACH1(um) TY_EACH1(ss) TY_EACH1(us) TY_EACH1(avc) TY_EACH1(ve)
  }
};
struct Wrappers
{
  JS::Nullable<int> n;
  JS::NullableChecked<std::string> nc;
  JS::Optional<int> o;
  JS::OptionalChecked<std::string> oc;
  std::optional<double> so;
  std::optional<Small> sob;
  std::unique_ptr<Small> up;
  std::shared_ptr<std::vector<int>> sp;
  std::vector<std::unique_ptr<int>> vup;
  std::vector<JS::NullableChecked<int>> vnc;
  JS::SilentString ss;
  JS::SilentVector<int> sv;
  JS::SilentUniquePtr<Small> sup;
  JS::OptionalChecked<std::vector<Small>> ocv;
  std::map<std::string, std::shared_ptr<int>> msp;
  JS_OBJ(n, nc, o, oc, so, sob, up, sp, vup, vnc, ss, sv, sup, ocv, msp);
  TY_S
  {
    TY_EACH1(n) TY_EACH1(nc) TY_EACH1(o) TY_EACH1(oc) TY_EACH1(so) TY_EACH1(sob) TY_EACH1(up) TY_EACH1(sp) TY_EACH1(vup) TY_EACH1(vnc)
    TY_EACH1(ss) TY_EACH1(sv) TY_EACH1(sup) TY_EACH1(ocv) TY_EACH1(msp)
  }
};
struct Tree
{
  std::string name;
  std::vector<Tree> kids;
  std::unique_ptr<Tree> next;
  std::map<std::string, std::vector<std::map<std::string, int>>> deep;
  JS_OBJ(name, kids, next, deep);
  TY_S { TY_EACH1(name) TY_EACH1(kids) TY_EACH1(next) TY_EACH1(deep) }
};
struct Base1
{
  int base_a = 0;
  std::string base_s;
  JS_OBJ(base_a, base_s);
};
struct Base2 : Base1
{
  std::vector<int> base_v;
  JS_OBJ_SUPER(JS_SUPER(Base1), base_v);
};
struct Other
{
  double other_d = 0;
  JS::OptionalChecked<int> other_o;
  JS_OBJ(other_d, other_o);
};
struct Derived : Other, Base2
{
  std::string own;
  Small sub;
  Colour aliased = Colour::red;
  JS_OBJECT_WITH_SUPER(JS_SUPER(Other, Base2), JS_MEMBER(own), JS_MEMBER(sub), JS_MEMBER_ALIASES(aliased, "other_name", "third name"));
  TY_S
  {
    TY_EACH1(own) TY_EACH1(sub) TY_EACH1(aliased)
    TY_EACH1(base_v) TY_EACH1(base_a) TY_EACH1(base_s)
    TY_EACH1(other_d) TY_EACH1(other_o)
  }
};
struct External
{
  int q = 0;
  std::string custom;
  JS::OneOrMany<int> oom;
  JS::OneOrMany<Small> ooms;
  TY_S
  {
    TY_EACH1(q);
    f("a name / with (odd) chars", a.custom, b.custom);
    TY_EACH1(oom) TY_EACH1(ooms)
  }
};
} // namespace ty
JS_OBJECT_EXTERNAL(ty::External, JS_MEMBER(q), JS_MEMBER_WITH_NAME(custom, "a name / with (odd) chars"), JS_MEMBER(oom), JS_MEMBER(ooms));
namespace ty
{
// containers within containers, so that one array or object ends right where its parent does
struct Nested
{
  int grid[2][3] = {{0, 0, 0}, {0, 0, 0}};
  Small so[2];
  std::vector<int> va[2];
  std::array<std::array<int, 2>, 2> aa{};
  std::vector<std::array<bool, 2>> vab;
  std::tuple<std::tuple<int, unsigned char>, std::vector<std::tuple<bool, std::string>>> tt;
  JS::ArrayVariableContent<std::vector<int>, 3> avv;
  std::vector<std::set<int>> vset;
  std::map<std::string, std::map<std::string, bool>> mm;
  JS::Nullable<std::vector<int>> nv;
  std::optional<std::vector<std::string>> ov;
  JS::OptionalChecked<std::map<std::string, int>> om;
  std::unique_ptr<std::vector<std::unique_ptr<int>>> upv;
  JS::OneOrMany<std::string> oos;
  std::array<std::unique_ptr<Small>, 2> aup;
  std::chrono::time_point<std::chrono::system_clock, std::chrono::microseconds> tus;
  JS_OBJ(grid, so, va, aa, vab, tt, avv, vset, mm, nv, ov, om, upv, oos, aup, tus);
  TY_S
  {
    TY_EACH1(grid) TY_EACH1(so) TY_EACH1(va) TY_EACH1(aa) TY_EACH1(vab) TY_EACH1(tt) TY_EACH1(avv) TY_EACH1(vset) TY_EACH1(mm)
    TY_EACH1(nv) TY_EACH1(ov) TY_EACH1(om) TY_EACH1(upv) TY_EACH1(oos) TY_EACH1(aup) TY_EACH1(tus)
  }
};
struct All
{
  Scalars sc;
  Containers co;
  Wrappers wr;
  Tree tr;
  Derived de;
  External ex;
  JS_OBJ(sc, co, wr, tr, de, ex);
  TY_S { TY_EACH1(sc) TY_EACH1(co) TY_EACH1(wr) TY_EACH1(tr) TY_EACH1(de) TY_EACH1(ex) }
};

enum
{
  TYPES = 29
};
// run F::template go<T>(rng, "name") for one catalogue type
template <class F>
void with_type(size_t which, F &&f)
{
  switch (which % TYPES)
  {
  case 20: return f.template go<Nested>("Nested");
  case 21: return f.template go<std::array<std::array<int, 2>, 2>>("array<array<int,2>,2>");
  case 22: return f.template go<std::vector<std::tuple<bool, std::string>>>("vector<tuple>");
  case 23: return f.template go<std::tuple<std::tuple<int, unsigned char>, std::vector<std::string>>>("tuple<tuple,vector>");
  case 24: return f.template go<JS::ArrayVariableContent<std::vector<int>, 3>>("ArrayVariableContent<vector<int>,3>");
  case 25: return f.template go<std::map<std::string, std::map<std::string, std::vector<bool>>>>("map<string,map<string,vector<bool>>>");
  case 26: return f.template go<std::unordered_set<int>>("unordered_set<int>");
  case 27: return f.template go<std::shared_ptr<std::vector<int>>>("shared_ptr<vector<int>>");
  case 28: return f.template go<JS::NullableChecked<std::vector<Small>>>("NullableChecked<vector<Small>>");
  case 0: return f.template go<Scalars>("Scalars");
  case 1: return f.template go<Containers>("Containers");
  case 2: return f.template go<Wrappers>("Wrappers");
  case 3: return f.template go<Tree>("Tree");
  case 4: return f.template go<Derived>("Derived");
  case 5: return f.template go<External>("External");
  case 6: return f.template go<All>("All");
  case 7: return f.template go<std::vector<Small>>("vector<Small>");
  case 8: return f.template go<std::vector<std::string>>("vector<string>");
  case 9: return f.template go<std::map<std::string, std::vector<int>>>("map<string,vector<int>>");
  case 10: return f.template go<std::tuple<int, std::string, std::vector<int>>>("tuple");
  case 11: return f.template go<std::vector<std::vector<double>>>("vector<vector<double>>");
  case 12: return f.template go<std::unordered_map<std::string, Small>>("unordered_map<string,Small>");
  case 13: return f.template go<std::set<std::string>>("set<string>");
  case 14: return f.template go<std::array<std::string, 3>>("array<string,3>");
  case 15: return f.template go<std::vector<bool>>("vector<bool>");
  case 16: return f.template go<std::unique_ptr<Small>>("unique_ptr<Small>");
  case 17: return f.template go<std::vector<std::unique_ptr<Small>>>("vector<unique_ptr<Small>>");
  case 18: return f.template go<JS::Tuple<bool, std::string, double>>("JS::Tuple");
  default: return f.template go<std::vector<std::map<std::string, std::string>>>("vector<map<string,string>>");
  }
}
} // namespace ty
