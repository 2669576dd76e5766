// C23: containers and wrappers hold exactly what the text holds, whatever the target held before.
#include "types.h"
using namespace vh;
using namespace ty;

template <class T>
struct Box // the value as a member between two others: the parse must also continue correctly behind it
{
  int before = 7;
  T v{};
  int after = 8;
  JS_OBJ(before, v, after);
};
static std::string wrap(const std::string &t) { return "{\"before\":1,\"v\":" + t + ",\"after\":2}"; }
template <class T>
static std::string text_of(Rng &r, const T &v, bool &present)
{
  Val x;
  present = Gen<T>::json(v, x);
  return present ? ref::print(x, &r, int(r.below(3))) : std::string();
}
template <class T>
static JS::Error parse(Box<T> &b, const std::string &doc)
{
  Exact x(doc);
  JS::ParseContext pc(x.p, x.n);
  JS::Error e = pc.parseTo(b);
  return e;
}
// text of one value into a target holding another
template <class T>
static void overwrite(Rng &r, const char *name)
{
  Box<T> b;
  b.v = Gen<T>::make(r, 3);
  T want = Gen<T>::make(r, 3);
  bool present;
  std::string t = text_of(r, want, present), doc = present ? wrap(t) : "{\"before\":1,\"after\":2}";
  if (!present)
    return; // absent members are C13's subject
  bool had;
  std::string prior = text_of(r, b.v, had);
  JS::Error e = parse(b, doc);
  eval();
  seen(hash(doc, hash(prior, hash(name, strlen(name)))));
  count("overwrites");
  std::string w = std::string(name) + " document: " + show(doc, 900) + " previous: " + show(prior, 500);
  if (e != JS::Error::NoError)
    violation("valid-rejected", w + " error " + std::to_string(int(e)));
  else if (b.before != 1 || b.after != 2)
    violation("lost-its-place", w);
  else if (!Gen<T>::eq(b.v, want))
  {
    bool p;
    violation("wrong-contents", w + " now: " + show(text_of(r, b.v, p), 500));
  }
  // absent: left as it was
  Box<T> c;
  T keep = Gen<T>::make(r, 2);
  Rng r2 = r;
  c.v = T();
  e = parse(c, "{\"before\":1,\"after\":2}");
  if (e != JS::Error::NoError || !Gen<T>::eq(c.v, T()))
    violation("absent-changed", w);
}
template <class M>
static void overwrite_map(Rng &r, const char *name)
{ // every key of the text holds the text's value
  Box<M> b;
  b.v = Gen<M>::make(r, 3);
  M want = Gen<M>::make(r, 3);
  bool present;
  std::string doc = wrap(text_of(r, want, present));
  JS::Error e = parse(b, doc);
  eval();
  seen(doc);
  count("overwrites");
  bool ok = e == JS::Error::NoError && b.before == 1 && b.after == 2;
  for (auto &k : want)
  {
    auto it = b.v.find(k.first);
    ok = ok && it != b.v.end() && Gen<typename M::mapped_type>::eq(it->second, k.second);
  }
  if (!ok)
    violation("wrong-contents", std::string(name) + " document: " + show(doc, 900));
  Box<M> f;
  e = parse(f, doc);
  if (e != JS::Error::NoError || !Gen<M>::eq(f.v, want))
    violation("wrong-contents-fresh", std::string(name) + " document: " + show(doc, 900));
}
static std::string elems(Rng &r, size_t n, bool str, std::vector<std::string> *out = nullptr)
{
  std::string t = "[";
  uint64_t range = r.chance(40) ? 20 : 100000;
  for (size_t i = 0; i < n; i++)
  {
    std::string e = std::to_string(int(r.below(range)) - 5);
    if (out)
      out->push_back(e);
    t += (i ? (r.chance(20) ? " , " : ",") : "") + (str ? "\"" + e + "\"" : e);
  }
  return t + "]";
}
// fixed-size targets: the exact number of elements or an error
template <class T>
static void fixed(Rng &r, const char *name, size_t lo, size_t hi, bool str)
{
  size_t n = r.chance(70) ? r.below(hi + 3) : hi;
  Box<T> b;
  std::string doc = wrap(elems(r, n, str));
  JS::Error e = parse(b, doc);
  eval();
  seen(doc + name);
  bool fits = n >= lo && n <= hi;
  count(fits ? "fitting_lengths" : "wrong_lengths");
  if (fits && e != JS::Error::NoError)
    violation("fitting-length-rejected", std::string(name) + " " + doc);
  if (!fits && e == JS::Error::NoError)
    violation("wrong-length-accepted", std::string(name) + " " + doc);
}
// containers where a scalar is expected and the other way round
template <class T>
static void kinds(Rng &r, const char *name, int kind) // 0 scalar target, 1 array target, 2 object target
{
  static const char *sc[] = {"1", "\"x\"", "true", "null", "1.5", "\"\"", "\"[1]\"", "\"{\""};
  static const char *ar[] = {"[]", "[1]", "[[]]", "[\"a\",\"b\"]", "[{}]", "[ ]", "[{\"before\":1}]"};
  static const char *ob[] = {"{}", "{\"a\":1}", "{\"v\":2}", "{\"before\":{}}", "{ }", "{\"a\":[1,2]}"};
  std::string v;
  int give = (kind + 1 + int(r.below(2))) % 3;
  v = give == 0 ? r.pick(sc) : give == 1 ? r.pick(ar) : r.pick(ob);
  Box<T> b;
  std::string doc = wrap(v);
  JS::Error e = parse(b, doc);
  eval();
  seen(doc + name);
  count("wrong_kinds");
  if (e == JS::Error::NoError)
    violation(strstr(name, "tring") && kind == 0 && give == 2 ? "string-target-takes-object" : "wrong-kind-accepted", std::string(name) + " " + doc);
}
template <class S, class T>
static void sets(Rng &r, const char *name, bool str)
{
  size_t n = 1 + r.below(12);
  std::vector<std::string> el;
  std::string t = elems(r, n, str, &el);
  std::set<std::string> uniq(el.begin(), el.end());
  Box<S> b;
  JS::Error e = parse(b, wrap(t));
  eval();
  seen(t + name);
  bool dup = uniq.size() != el.size();
  count(dup ? "sets_with_duplicates" : "sets_without_duplicates");
  if (dup && e == JS::Error::NoError)
    violation("duplicate-not-reported", std::string(name) + " " + t);
  if (!dup && (e != JS::Error::NoError || b.v.size() != n))
    violation("set-lost-elements", std::string(name) + " " + t);
}
template <class W>
static void nullable(Rng &r, const char *name, bool (*isnull)(const W &), int (*get)(const W &))
{ // a sequence of null / present / absent documents on one target
  Box<W> b;
  bool null = isnull(b.v);
  int val = 0;
  std::string hist;
  size_t n = 1 + r.below(6);
  for (size_t i = 0; i < n; i++)
  {
    int k = int(r.below(3));
    int x = int(r.below(100000)) - 50000;
    std::string doc = k == 0 ? wrap("null") : k == 1 ? wrap(std::to_string(x)) : "{\"before\":1,\"after\":2}";
    hist += " " + doc;
    JS::Error e = parse(b, doc);
    if (k == 0)
      null = true;
    if (k == 1)
      null = false, val = x;
    eval();
    count("nullable_steps");
    if (e != JS::Error::NoError || isnull(b.v) != null || (!null && get(b.v) != val))
    {
      violation("null-state-wrong", std::string(name) + " after" + hist);
      return;
    }
  }
  seen(hist + name);
}
static void optionals(Rng &r)
{
  struct Q
  {
    static void step(Rng &r)
    {
      Box<JS::OptionalChecked<int>> a;
      Box<std::optional<int>> b;
      bool assigned = false;
      int val = 0;
      std::string hist;
      size_t n = 1 + r.below(5);
      for (size_t i = 0; i < n; i++)
      {
        bool pres = r.chance(50);
        int x = int(r.below(100000)) - 50000;
        std::string doc = pres ? wrap(std::to_string(x)) : "{\"before\":1,\"after\":2}";
        hist += " " + doc;
        JS::Error e1 = parse(a, doc), e2 = parse(b, doc);
        if (pres)
          assigned = true, val = x;
        eval();
        count("optional_steps");
        if (e1 != JS::Error::NoError || a.v.assigned != assigned || (assigned && a.v.data != val))
          violation("optional-state-wrong", "OptionalChecked after" + hist);
        if (e2 != JS::Error::NoError || b.v.has_value() != assigned || (assigned && *b.v != val))
          violation("optional-state-wrong", "std::optional after" + hist);
      }
      seen(hist + "opt");
    }
  };
  Q::step(r);
}
struct FixedBox
{
  int before = 7;
  int v[3] = {0, 0, 0};
  std::string w[2];
  int after = 8;
  JS_OBJ(before, v, w, after);
};
static void carrays(Rng &r)
{
  FixedBox b;
  size_t n = r.below(6), m = r.below(5);
  if (r.chance(50))
    n = 3;
  if (r.chance(50))
    m = 2;
  std::vector<std::string> e1, e2;
  std::string doc = "{\"before\":1,\"v\":" + elems(r, n, false, &e1) + ",\"w\":" + elems(r, m, true, &e2) + ",\"after\":2}";
  Exact x(doc);
  JS::ParseContext pc(x.p, x.n);
  JS::Error e = pc.parseTo(b);
  eval();
  seen(doc);
  count("c_arrays");
  bool fits = n == 3 && m == 2;
  if ((e == JS::Error::NoError) != fits)
    violation(fits ? "fitting-length-rejected" : "wrong-length-accepted", "C arrays " + doc);
  if (fits && (b.v[0] != atoi(e1[0].c_str()) || b.v[1] != atoi(e1[1].c_str()) || b.v[2] != atoi(e1[2].c_str()) || b.w[0] != e2[0] || b.w[1] != e2[1] || b.after != 2))
    violation("wrong-contents", "C arrays " + doc);
}
// elements of which the text names only some members: the rest is as in a newly made element
struct Part
{
  int x, y; // zero when made by the library
  JS::OptionalChecked<int> z;
  std::string s = "dflt";
  std::vector<int> v;
  std::unique_ptr<int> p;
  JS_OBJ(x, y, z, s, v, p);
  std::string str() const
  {
    return std::to_string(x) + "," + std::to_string(y) + "," + (z.assigned ? std::to_string(z.data) : "none") + "," + s + "," + std::to_string(v.size()) + "," + (p ? std::to_string(*p) : "null");
  }
  bool operator<(const Part &o) const { return str() < o.str(); }
  bool operator==(const Part &o) const { return str() == o.str(); }
};
namespace std
{
template <>
struct hash<Part>
{
  size_t operator()(const Part &p) const { return std::hash<std::string>()(p.str()); }
};
} // namespace std
static std::string part(Rng &r, std::string &want)
{
  int n[6];
  std::string t;
  bool on[6];
  for (int i = 0; i < 6; i++)
    on[i] = r.chance(50), n[i] = int(r.below(i == 4 ? 4 : 1000));
  auto add = [&](const std::string &m) { t += (t.empty() ? "" : ",") + m; };
  std::string one;
  std::vector<int> ord = {0, 1, 2, 3, 4, 5};
  for (size_t i = 5; i > 0; i--)
    std::swap(ord[i], ord[r.below(i + 1)]);
  for (int i : ord)
    if (on[i])
    {
      std::string k = std::to_string(n[i]);
      if (i == 4)
      {
        k = "[";
        for (int j = 0; j < n[4]; j++)
          k += j ? ",1" : "1";
        k += "]";
      }
      else if (i == 3)
        k = "\"" + k + "\"";
      add(std::string("\"") + "xyzsvp"[i] + "\":" + k);
    }
  auto val = [&](int i, const char *d) { return on[i] ? std::to_string(n[i]) : std::string(d); };
  want = val(0, "0") + "," + val(1, "0") + "," + val(2, "none") + "," + val(3, "dflt") + "," + val(4, "0") + "," + val(5, "null");
  return "{" + t + "}";
}
template <class C>
static std::vector<std::string> strs(const C &c)
{
  std::vector<std::string> o;
  for (auto &e : c)
    o.push_back(e.str());
  return o;
}
template <class M>
static std::vector<std::string> mstrs(const M &c)
{
  std::vector<std::string> o;
  for (auto &e : c)
    o.push_back(e.first + "=" + e.second.str());
  return o;
}
static void judge_parts(const char *name, JS::Error e, int after, std::vector<std::string> got, std::vector<std::string> want, bool sorted, const std::string &doc)
{
  eval();
  count("partly_named_elements", want.size());
  seen(doc + name);
  if (sorted)
    std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
  if (e != JS::Error::NoError || after != 2 || got != want)
  {
    std::string g;
    for (auto &x : got)
      g += x + " ";
    violation("element-not-new", std::string(name) + " " + show(doc, 800) + " error " + std::to_string(int(e)) + " holds " + g);
  }
}
static void parts(Rng &r)
{
  std::vector<std::string> el, want;
  size_t n = r.below(5);
  for (size_t i = 0; i < n; i++)
  {
    std::string w, t = part(r, w);
    if (std::find(want.begin(), want.end(), w) == want.end())
      el.push_back(t), want.push_back(w);
  }
  std::string arr = "[", obj = "{";
  std::vector<std::string> mwant;
  for (size_t i = 0; i < el.size(); i++)
  {
    arr += (i ? "," : "") + el[i];
    obj += (i ? ",\"" : "\"") + std::string(1, char('a' + i)) + "\":" + el[i];
    mwant.push_back(std::string(1, char('a' + i)) + "=" + want[i]);
  }
  arr += "]", obj += "}";
  std::string fw, full = part(r, fw), before = wrap("[" + full + "," + part(r, fw) + "]");
  bool prior = r.chance(50);
  std::string doc = wrap(arr);
  {
    Box<std::vector<Part>> b;
    if (prior)
      parse(b, before);
    JS::Error e = parse(b, doc);
    judge_parts("vector", e, b.after, strs(b.v), want, false, doc);
  }
  {
    Box<std::set<Part>> b;
    if (prior)
      parse(b, before);
    JS::Error e = parse(b, doc);
    judge_parts("set", e, b.after, strs(b.v), want, true, doc);
  }
  {
    Box<std::unordered_set<Part>> b;
    JS::Error e = parse(b, doc);
    judge_parts("unordered_set", e, b.after, strs(b.v), want, true, doc);
  }
  {
    Box<JS::OneOrMany<Part>> b;
    if (prior)
      parse(b, before);
    JS::Error e = parse(b, doc);
    judge_parts("OneOrMany", e, b.after, strs(b.v.data), want, false, doc);
    std::string w, t = part(r, w), d1 = wrap(t);
    e = parse(b, d1);
    judge_parts("OneOrMany", e, b.after, strs(b.v.data), {w}, false, doc + " then " + d1);
    Box<std::optional<Part>> o;
    if (prior)
      parse(o, wrap(full));
    e = parse(o, d1);
    judge_parts("optional", e, o.after, o.v ? std::vector<std::string>{o.v->str()} : std::vector<std::string>(), {w}, false, (prior ? wrap(full) + " then " : "") + d1);
    Box<std::unique_ptr<Part>> u;
    e = parse(u, d1);
    judge_parts("unique_ptr", e, u.after, u.v ? std::vector<std::string>{u.v->str()} : std::vector<std::string>(), {w}, false, d1);
    Box<std::shared_ptr<Part>> s;
    e = parse(s, d1);
    judge_parts("shared_ptr", e, s.after, s.v ? std::vector<std::string>{s.v->str()} : std::vector<std::string>(), {w}, false, d1);
  }
  doc = wrap(obj);
  std::string mb = wrap("{\"a\":" + full + ",\"b\":" + full + ",\"c\":" + full + ",\"d\":" + full + ",\"e\":" + full + "}");
  {
    Box<std::map<std::string, Part>> b;
    if (prior)
      parse(b, mb);
    JS::Error e = parse(b, doc);
    while (b.v.size() > want.size()) // the keys the text does not name stay
      b.v.erase(std::prev(b.v.end()));
    judge_parts("map", e, b.after, mstrs(b.v), mwant, true, (prior ? mb + " then " : "") + doc);
  }
  {
    Box<std::unordered_map<std::string, Part>> b;
    JS::Error e = parse(b, doc);
    judge_parts("unordered_map", e, b.after, mstrs(b.v), mwant, true, doc);
  }
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C23", [](uint64_t i, Rng &r) {
    switch (i % 46)
    {
    case 44:
    case 45: return parts(r);
    case 0: return overwrite<std::vector<int>>(r, "vector<int>");
    case 1: return overwrite<std::vector<std::string>>(r, "vector<string>");
    case 2: return overwrite<std::vector<bool>>(r, "vector<bool>");
    case 3: return overwrite<std::vector<Small>>(r, "vector<Small>");
    case 4: return overwrite<std::vector<std::vector<int>>>(r, "vector<vector<int>>");
    case 5: return overwrite<std::set<int>>(r, "set<int>");
    case 6: return overwrite<std::unordered_set<int>>(r, "unordered_set<int>");
    case 7: return overwrite<std::array<std::string, 3>>(r, "array<string,3>");
    case 8: return overwrite<JS::ArrayVariableContent<int, 4>>(r, "ArrayVariableContent<int,4>");
    case 9: return overwrite<std::tuple<int, std::string, std::vector<int>>>(r, "tuple");
    case 10: return overwrite<JS::Tuple<bool, std::string, double>>(r, "JS::Tuple");
    case 11: return overwrite<JS::OneOrMany<int>>(r, "OneOrMany<int>");
    case 12: return overwrite<JS::OneOrMany<Small>>(r, "OneOrMany<Small>");
    case 13: return overwrite<JS::NullableChecked<std::string>>(r, "NullableChecked<string>");
    case 14: return overwrite<std::unique_ptr<Small>>(r, "unique_ptr<Small>");
    case 15: return overwrite<std::shared_ptr<std::vector<int>>>(r, "shared_ptr<vector<int>>");
    case 16: return overwrite<std::optional<Small>>(r, "optional<Small>");
    case 17: return overwrite<std::vector<std::unique_ptr<int>>>(r, "vector<unique_ptr<int>>");
    case 18: return overwrite<JS::OptionalChecked<std::vector<Small>>>(r, "OptionalChecked<vector<Small>>");
    case 19: return overwrite_map<std::map<std::string, int>>(r, "map<string,int>");
    case 20: return overwrite_map<std::map<std::string, Small>>(r, "map<string,Small>");
    case 21: return overwrite_map<std::unordered_map<std::string, std::vector<int>>>(r, "unordered_map<string,vector<int>>");
    case 22: return fixed<std::array<int, 3>>(r, "array<int,3>", 3, 3, false);
    case 23: return fixed<std::array<std::string, 3>>(r, "array<string,3>", 3, 3, true);
    case 24: return fixed<JS::ArrayVariableContent<int, 4>>(r, "ArrayVariableContent<int,4>", 0, 4, false);
    case 25: return fixed<JS::ArrayVariableContent<std::string, 2>>(r, "ArrayVariableContent<string,2>", 0, 2, true);
    case 26: return fixed<std::tuple<int, int, int>>(r, "tuple<int,int,int>", 3, 3, false);
    case 27: return fixed<std::tuple<std::string, std::string>>(r, "tuple<string,string>", 2, 2, true);
    case 28: return fixed<JS::Tuple<std::string, std::string>>(r, "JS::Tuple<string,string>", 2, 2, true);
    case 29: return kinds<int>(r, "int", 0), kinds<std::string>(r, "string", 0), kinds<bool>(r, "bool", 0), kinds<double>(r, "double", 0);
    case 30: return kinds<Colour>(r, "enum", 0), kinds<Level>(r, "value enum", 0), kinds<float>(r, "float", 0), kinds<JS::SilentString>(r, "SilentString", 0);
    case 31: return kinds<std::vector<int>>(r, "vector<int>", 1), kinds<std::vector<std::string>>(r, "vector<string>", 1), kinds<std::vector<bool>>(r, "vector<bool>", 1);
    case 32: return kinds<std::set<std::string>>(r, "set<string>", 1), kinds<std::array<std::string, 1>>(r, "array<string,1>", 1), kinds<std::tuple<std::string>>(r, "tuple<string>", 1);
    case 33: return kinds<Small>(r, "struct", 2), kinds<std::map<std::string, std::string>>(r, "map<string,string>", 2), kinds<JS::JsonObject>(r, "JsonObject", 2);
    case 34: return kinds<JS::Optional<std::string>>(r, "Optional<string>", 0), kinds<JS::OptionalChecked<int>>(r, "OptionalChecked<int>", 0), kinds<JS::JsonArray>(r, "JsonArray", 1);
    case 35: return sets<std::set<int>, int>(r, "set<int>", false);
    case 36: return sets<std::unordered_set<std::string>, std::string>(r, "unordered_set<string>", true);
    case 37: return nullable<JS::NullableChecked<int>>(r, "NullableChecked<int>", [](const JS::NullableChecked<int> &v) { return v.null; }, [](const JS::NullableChecked<int> &v) { return v.data; });
    case 38: return nullable<std::unique_ptr<int>>(r, "unique_ptr<int>", [](const std::unique_ptr<int> &v) { return !v; }, [](const std::unique_ptr<int> &v) { return *v; });
    case 39: return nullable<std::shared_ptr<int>>(r, "shared_ptr<int>", [](const std::shared_ptr<int> &v) { return !v; }, [](const std::shared_ptr<int> &v) { return *v; });
    case 40: return optionals(r);
    case 41: return carrays(r);
    case 42: { // a large sequence
      size_t n = r.chance(30) ? 1000 + r.below(5000) : r.below(300);
      std::vector<std::string> el;
      std::string t = elems(r, n, false, &el);
      Box<std::vector<int>> b;
      JS::Error e = parse(b, wrap(t));
      eval();
      bool ok = e == JS::Error::NoError && b.v.size() == n && b.after == 2;
      for (size_t k = 0; ok && k < n; k++)
        ok = b.v[k] == atoi(el[k].c_str());
      if (!ok)
        violation("wrong-contents", "vector<int> of " + std::to_string(n));
      seen(t);
      count("large_sequences");
      return;
    }
    default: return kinds<std::vector<Small>>(r, "vector<Small>", 1);
    }
  });
}
