// C29: types with a handler written by the user are read and written in their place, whatever surrounds them.
#define JS_STL_MAP 1
#define JS_STL_ARRAY 1
#define JS_STD_OPTIONAL 1
#include <array>
#include <map>
#include <optional>
#include "feed.h"
using namespace vh;
using ref::Tok;
using ref::Val;

// What the handlers saw, in the order of their calls; reached through ParseContext::user_data
struct Log
{
  std::vector<std::vector<Tok>> calls;
  Rng *r = nullptr;      // decides how far Skim reads
  std::string fault;     // what Skim found wrong with its scopes
  size_t scopes = 0, nested = 0, probes = 0;
  bool deep = false;     // Skim reads everything on the way in
  int level_seen = 0;    // the most scopes inside one another
};
struct Rec // any value, kept as its tokens
{
  std::vector<Tok> t;
};
struct Cents // a number, kept as a whole count of hundredths
{
  int64_t c = 0;
};
struct Vec3 // hands on to a built-in handler
{
  double d[3] = {};
};
struct Hex // a string of hexadecimal digits
{
  uint64_t v = 0;
};
struct Named // an object read token by token: {"x":number,"y":number,...}, others skipped
{
  double x = 0, y = 0;
  int others = 0;
};
struct Skim // walks into its value as far as it likes, each container in a scope of its own
{
  int walked = 0;
};
namespace JS
{
template <>
struct TypeHandler<Skim>
{
  static bool start(Type k) { return k == Type::ObjectStart || k == Type::ArrayStart; }
  static bool end(Type k) { return k == Type::ObjectEnd || k == Type::ArrayEnd; }
  static Error walk(Skim &to, ParseContext &c, Log &log, int level)
  {
    Type type = c.token.value_type;
    to.walked++;
    if (!start(type) && log.r->chance(50))
      return Error::NoError;
    c.tokenizer.pushScope(type);
    log.scopes++;
    log.nested += level > 0;
    log.level_seen = std::max(log.level_seen, level + 1);
    Error e = Error::NoError;
    bool over = !start(type);
    while (!over && e == Error::NoError && (log.r->chance(80) || (log.deep && log.r->chance(99))))
    {
      e = c.nextToken();
      if (e != Error::NoError)
        break;
      if (end(c.token.value_type))
        over = true;
      else if (start(c.token.value_type) || log.r->chance(30))
        e = walk(to, c, log, level + 1);
    }
    if (e == Error::NoError)
    {
      if (over && log.r->chance(50))
      {
        log.probes++;
        Token k = c.token;
        Error past = c.tokenizer.nextToken(k);
        if (past != Error::ScopeHasEnded)
          log.fault = "reading on behind the scope gave error " + std::to_string(int(past));
      }
      e = c.tokenizer.goToEndOfScope(c.token);
      if (e == Error::NoError && start(type) && c.token.value_type != Type(int(type) + 1))
        log.fault = "the scope's last token is of type " + std::to_string(int(c.token.value_type));
      if (e == Error::NoError && !start(type) && c.token.value_type != type)
        log.fault = "a scope of one value moved on";
    }
    c.tokenizer.popScope();
    return e;
  }
  static Error to(Skim &to, ParseContext &c)
  {
    to.walked = 0;
    return walk(to, c, *static_cast<Log *>(c.user_data), 0);
  }
  static void from(const Skim &from, Token &token, Serializer &s) { TypeHandler<int>::from(from.walked, token, s); }
};
template <>
struct TypeHandler<Rec>
{
  static Error to(Rec &to, ParseContext &c)
  {
    Log *log = static_cast<Log *>(c.user_data);
    to.t.clear();
    to.t.push_back(ju::tok(c.token));
    to.t[0].name.clear();
    to.t[0].name_type = 0;
    auto lvl = [&](Type k) { return k == Type::ObjectStart || k == Type::ArrayStart ? 1 : k == Type::ObjectEnd || k == Type::ArrayEnd ? -1 : 0; };
    int depth = lvl(c.token.value_type);
    while (depth > 0)
    {
      Error e = c.nextToken();
      if (e != Error::NoError)
        return e;
      to.t.push_back(ju::tok(c.token));
      depth += lvl(c.token.value_type);
    }
    if (log)
      log->calls.push_back(to.t);
    if (to.t.size() == 1 && to.t[0].value == "bad")
      return Error::UserDefinedErrors;
    if (to.t.size() == 1 && to.t[0].value == "worse")
      return Error(int(Error::UserDefinedErrors) + 7);
    if (to.t.size() == 1 && to.t[0].value == "told")
    {
      (void)c.tokenizer.updateErrorContext(Error::IllegalDataValue, "this Rec is not wanted");
      return Error::IllegalDataValue;
    }
    if (to.t.size() == 1 && to.t[0].value == "told otherwise") // the message is for one error, the result another
    {
      (void)c.tokenizer.updateErrorContext(Error::IllegalPropertyType, "this Rec is not wanted");
      return Error(int(Error::UserDefinedErrors) + 3);
    }
    return Error::NoError;
  }
  static void from(const Rec &from, Token &token, Serializer &s)
  {
    bool first = true;
    for (auto &k : from.t)
    {
      if (!first)
      {
        token.name = DataRef(k.name.data(), k.name.size());
        token.name_type = Type(k.name_type);
      }
      first = false;
      token.value = DataRef(k.value.data(), k.value.size());
      token.value_type = Type(k.value_type);
      s.write(token);
    }
  }
};
template <>
struct TypeHandler<Cents>
{
  static Error to(Cents &to, ParseContext &c)
  {
    double d;
    Error e = TypeHandler<double>::to(d, c);
    if (e == Error::NoError)
      to.c = llround(d * 100);
    return e;
  }
  static void from(const Cents &from, Token &token, Serializer &s)
  {
    char b[40];
    int n = snprintf(b, sizeof b, "%s%lld.%02lld", from.c < 0 ? "-" : "", (long long)llabs(from.c / 100), (long long)llabs(from.c % 100));
    token.value_type = Type::Number;
    token.value = DataRef(b, size_t(n));
    s.write(token);
  }
};
template <>
struct TypeHandler<Vec3>
{
  static Error to(Vec3 &to, ParseContext &c) { return TypeHandler<double[3]>::to(to.d, c); }
  static void from(const Vec3 &from, Token &token, Serializer &s) { TypeHandler<double[3]>::from(from.d, token, s); }
};
template <>
struct TypeHandler<Hex>
{
  static Error to(Hex &to, ParseContext &c)
  {
    if (c.token.value_type != Type::String || c.token.value.size == 0 || c.token.value.size > 16)
      return Error::IllegalDataValue;
    to.v = 0;
    for (size_t i = 0; i < c.token.value.size; i++)
    {
      int h = ref::hexv(c.token.value.data[i]);
      if (h < 0)
        return Error::IllegalDataValue;
      to.v = to.v * 16 + uint64_t(h);
    }
    return Error::NoError;
  }
  static void from(const Hex &from, Token &token, Serializer &s)
  {
    char b[20];
    int n = snprintf(b, sizeof b, "%llx", (unsigned long long)from.v);
    token.value_type = Type::String;
    token.value = DataRef(b, size_t(n));
    s.write(token);
  }
};
template <>
struct TypeHandler<Named>
{
  static Error to(Named &to, ParseContext &c)
  {
    if (c.token.value_type != Type::ObjectStart)
      return Error::ExpectedObjectStart;
    to = Named();
    Error e = c.nextToken();
    while (e == Error::NoError && c.token.value_type != Type::ObjectEnd)
    {
      std::string n(c.token.name.data, c.token.name.size);
      if (n == "x" || n == "y")
        e = TypeHandler<double>::to(n == "x" ? to.x : to.y, c);
      else
      {
        to.others++;
        c.tokenizer.pushScope(c.token.value_type);
        e = c.tokenizer.goToEndOfScope(c.token);
        c.tokenizer.popScope();
      }
      if (e == Error::NoError)
        e = c.nextToken();
    }
    return e;
  }
  static void from(const Named &from, Token &token, Serializer &s)
  {
    token.value_type = Type::ObjectStart;
    token.value = DataRef("{");
    s.write(token);
    token.name_type = Type::Ascii;
    token.name = DataRef("x");
    TypeHandler<double>::from(from.x, token, s);
    token.name_type = Type::Ascii;
    token.name = DataRef("y");
    TypeHandler<double>::from(from.y, token, s);
    token.name = DataRef("");
    token.name_type = Type::Ascii;
    token.value_type = Type::ObjectEnd;
    token.value = DataRef("}");
    s.write(token);
  }
};
} // namespace JS

struct In
{
  Rec x;
  int y = -1;
  JS_OBJ(x, y);
};
struct Base
{
  Rec base_r;
  Hex base_h;
  JS_OBJ(base_r, base_h);
};
struct Doc : Base
{
  int before = -1;
  Rec r;
  int after = -1;
  std::vector<Rec> v;
  std::map<std::string, Rec> m;
  std::optional<Rec> o;
  JS::Optional<Rec> jo;
  std::unique_ptr<Rec> u;
  std::shared_ptr<Rec> s;
  JS::Nullable<Rec> n;
  JS::Tuple<int, Rec, std::string> t;
  Rec a[2];
  std::array<Rec, 2> sa;
  In in;
  std::vector<In> vi;
  std::vector<std::vector<Rec>> vv;
  Cents c;
  std::vector<Cents> vc;
  Vec3 p;
  std::vector<Vec3> vp;
  Hex h;
  std::vector<Hex> vh;
  Named nm;
  std::vector<Named> vn;
  Skim sk;
  std::vector<Skim> vs;
  int last = -1;
  JS_OBJ_SUPER(JS_SUPER(Base), before, r, after, v, m, o, jo, u, s, n, t, a, sa, in, vi, vv, c, vc, p, vp, h, vh, nm, vn, sk, vs, last);
};

// Composes the document member by member together with the calls the Rec handler has to see
struct Compose
{
  Rng &r;
  int bad = 0; // percent of Recs that are refused
  std::vector<Val> recs;
  Val val()
  {
    Val v;
    switch (r.below(5))
    {
    case 0: v.k = ref::Num, v.raw = ref::gen_num(r); break;
    case 1: v.k = ref::Str, v.raw = ref::gen_raw(r, ref::GenOpt()); break;
    case 2: v.k = r.chance(30) ? ref::Null : ref::Bool, v.b = r.chance(50); break;
    default: {
      ref::GenOpt g;
      g.max_depth = r.range(1, 4);
      g.max_width = 4;
      v = ref::gen(r, g);
    }
    }
    return v;
  }
  Val rec(bool null_ok = true)
  {
    Val v = val();
    while (!null_ok && v.k == ref::Null)
      v = val();
    if (int(r.below(1000)) < bad)
    {
      v = Val();
      v.k = ref::Str;
      v.raw = r.pick({"bad", "worse", "told", "told otherwise"});
    }
    recs.push_back(v);
    return v;
  }
  Val num(int64_t i)
  {
    Val v;
    v.k = ref::Num;
    v.raw = std::to_string(i);
    return v;
  }
  Val str(const std::string &s)
  {
    Val v;
    v.k = ref::Str;
    v.raw = s;
    return v;
  }
  template <class F>
  Val arr(size_t n, F f)
  {
    Val v;
    v.k = ref::Arr;
    for (size_t i = 0; i < n; i++)
      v.a.push_back(f());
    return v;
  }
};
static std::string cents_text(int64_t c)
{
  char b[40];
  snprintf(b, sizeof b, "%s%lld.%02lld", c < 0 ? "-" : "", (long long)llabs(c / 100), (long long)llabs(c % 100));
  return b;
}
static std::string hex_text(uint64_t v)
{
  char b[20];
  snprintf(b, sizeof b, "%llx", (unsigned long long)v);
  return b;
}
static std::vector<Tok> toks(const Val &v)
{
  std::vector<Tok> t;
  ref::tokens(v, nullptr, t);
  return t;
}
static bool equal(const Rec &x, const Val &v)
{
  auto t = toks(v);
  if (t.size() != x.t.size())
    return false;
  for (size_t i = 0; i < t.size(); i++)
    if (t[i].value != x.t[i].value || t[i].value_type != x.t[i].value_type || t[i].name != x.t[i].name)
      return false;
  return true;
}

struct Fn
{
  std::vector<Rec> got;
  std::string order;
  Rec back(const Rec &x)
  {
    order += "b";
    got.push_back(x);
    return x;
  }
  void take(const Rec &x)
  {
    order += "t";
    got.push_back(x);
  }
  void skim(const Skim &) { order += "s"; }
  void skims(const std::vector<Skim> &v) { order += "S" + std::to_string(v.size()); }
  Named named(const Named &n)
  {
    order += "n" + std::to_string(int(n.x)) + "," + std::to_string(n.others);
    return n;
  }
  Cents cents(const Cents &c)
  {
    order += "c" + std::to_string(c.c);
    return c;
  }
  JS_FUNC_OBJ(back, take, skim, skims, named, cents);
};
static void called(Rng &r)
{
  Compose c{r};
  std::vector<Val> want, results;
  std::string doc = "{", order;
  for (size_t i = 0, n = r.below(6); i < n; i++)
  {
    Val v;
    std::string name;
    switch (r.below(6))
    {
    case 0:
    case 1: {
      bool back = r.chance(60);
      name = back ? "back" : "take";
      order += name[0];
      v = c.rec(false);
      want.push_back(v);
      if (back)
        results.push_back(v);
      break;
    }
    case 2: name = "skim", v = c.val(), order += "s"; break;
    case 3: {
      v = c.arr(r.below(4), [&] { return c.val(); });
      name = "skims";
      order += "S" + std::to_string(v.a.size());
      break;
    }
    case 4: {
      int x = r.range(0, 99), o = 0;
      name = "named";
      v.k = ref::Obj;
      while (r.chance(40))
        v.o.push_back({r.pick({"z", "xx", ""}), c.val()}), o++;
      v.o.push_back({"x", c.num(x)});
      while (r.chance(40))
        v.o.push_back({r.pick({"z", "xx", ""}), c.val()}), o++;
      order += "n" + std::to_string(x) + "," + std::to_string(o);
      Val res;
      res.k = ref::Obj;
      res.o = {{"x", c.num(0)}, {"y", c.num(0)}};
      res.o[0].second.raw = res.o[1].second.raw = "~";
      res.o[0].second.num = x;
      results.push_back(res);
      break;
    }
    default: {
      int64_t m = r.range(-5000, 5000);
      name = "cents";
      v = c.num(0);
      v.raw = cents_text(m);
      order += "c" + std::to_string(m);
      results.push_back(v);
    }
    }
    doc += (i ? "," : "") + ("\"" + name + "\":") + ref::print(v, &r, int(r.below(3)));
  }
  doc += "}";
  Exact x(doc);
  Fn f;
  std::string out;
  JS::Error e;
  Log log;
  Rng walk(r.next());
  log.r = &walk;
  {
    JS::DefaultCallFunctionContext ctx(x.p, x.n, out);
    ctx.parse_context.user_data = &log;
    e = ctx.callFunctions(f);
  }
  eval();
  count("call_documents");
  count("scopes_nested_in_calls", log.scopes);
  bool ok = e == JS::Error::NoError && f.got.size() == want.size() && f.order == order;
  for (size_t i = 0; ok && i < want.size(); i++)
    ok = equal(f.got[i], want[i]);
  Val res, exp;
  exp.k = ref::Arr;
  exp.a = results;
  std::string why;
  if (!log.fault.empty())
    violation("scope", log.fault + " doc=" + show(doc, 900));
  else if (!ok)
    violation("call-arguments", "error " + std::to_string(int(e)) + " calls " + f.order + " instead of " + order + " doc=" + show(doc, 900));
  else if (!ref::parse(out, res, &why) || !ref::same(exp, res, "", &why))
    violation("call-results", why + " results " + show(out, 600) + " doc=" + show(doc, 600));
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C29", [](uint64_t idx, Rng &r) {
    static FILE *quiet = fopen("/dev/null", "w");
    stderr = quiet;
    if (idx % 8 == 7)
      return called(r);
    Compose c{r};
    c.bad = r.chance(30) ? 40 : 0;
    struct M
    {
      std::string name;
      Val v;
      std::vector<Val> recs;
    };
    std::vector<M> ms;
    auto add = [&](const std::string &n, const Val &v) {
      ms.push_back({n, v, c.recs});
      c.recs.clear();
    };
    bool nulls = r.chance(20); // wrappers given null: the handler is not called
    auto wrapped = [&](bool to_null) {
      if (nulls && to_null && r.chance(50))
        return Val();
      return c.rec(false);
    };
    int64_t cn = r.range(-100000, 100000);
    double px[3] = {double(r.range(-99, 99)), 0.5, double(r.below(1000)) / 8};
    uint64_t hx = r.next() >> r.below(64);
    auto vec3 = [&](const double *d) {
      Val v;
      v.k = ref::Arr;
      for (int i = 0; i < 3; i++)
      {
        char b[40];
        snprintf(b, sizeof b, "%.17g", d[i]);
        v.a.push_back(c.num(0));
        v.a.back().raw = b;
      }
      return v;
    };
    auto cents = [&](int64_t x) {
      Val v = c.num(0);
      v.raw = cents_text(x);
      return v;
    };
    int others = 0;
    auto named = [&](int x, int y, int *o) {
      Val v;
      v.k = ref::Obj;
      auto other = [&]() {
        while (r.chance(35))
        {
          v.o.push_back({r.pick({"z", "xx", "", "\\u0078", "yy"}), c.val()});
          ++*o;
        }
      };
      other();
      v.o.push_back({"x", c.num(x)});
      other();
      v.o.push_back({"y", c.num(y)});
      other();
      return v;
    };
    add("before", c.num(11));
    add("r", c.rec());
    add("after", c.num(12));
    add("v", c.arr(r.below(5), [&] { return c.rec(); }));
    {
      Val m;
      m.k = ref::Obj;
      for (size_t i = 0, n = r.below(4); i < n; i++)
        m.o.push_back({"k" + std::to_string(i), c.rec()});
      add("m", m);
    }
    add("o", wrapped(false));
    add("jo", wrapped(false));
    add("u", wrapped(true));
    add("s", wrapped(true));
    add("n", wrapped(false));
    {
      Val t;
      t.k = ref::Arr;
      t.a.push_back(c.num(5));
      t.a.push_back(c.rec());
      t.a.push_back(c.str("end"));
      add("t", t);
    }
    add("a", c.arr(2, [&] { return c.rec(); }));
    add("sa", c.arr(2, [&] { return c.rec(); }));
    auto in = [&]() {
      Val v;
      v.k = ref::Obj;
      v.o.push_back({"x", c.rec()});
      v.o.push_back({"y", c.num(77)});
      return v;
    };
    add("in", in());
    add("vi", c.arr(r.below(3), in));
    add("vv", c.arr(r.below(3), [&] { return c.arr(r.below(3), [&] { return c.rec(); }); }));
    add("c", cents(cn));
    add("vc", c.arr(3, [&] { return cents(cn + 1); }));
    add("p", vec3(px));
    add("vp", c.arr(2, [&] { return vec3(px); }));
    add("h", c.str(hex_text(hx)));
    add("vh", c.arr(2, [&] { return c.str(hex_text(hx + 1)); }));
    add("nm", named(3, 4, &others));
    int others2 = 0;
    add("vn", c.arr(2, [&] { return named(5, 6, &others2); }));
    const bool deep = r.chance(6);
    auto skimmed = [&]() {
      Val v = c.val();
      for (size_t i = 0, n = deep ? r.below(150) : 0; i < n; i++)
      {
        Val out;
        if (r.chance(50))
        {
          out.k = ref::Arr;
          if (r.chance(20))
            out.a.push_back(c.num(double(i)));
          out.a.push_back(v);
          if (r.chance(20))
            out.a.push_back(c.str("]}"));
        }
        else
        {
          out.k = ref::Obj;
          if (r.chance(20))
            out.o.push_back({"f", c.num(double(i))});
          out.o.push_back({"g", v});
          if (r.chance(20))
            out.o.push_back({"h", c.str("}]")});
        }
        v = out;
      }
      return v;
    };
    add("sk", skimmed());
    add("vs", c.arr(r.below(4), skimmed));
    add("last", c.num(99));
    add("base_r", c.rec());
    add("base_h", c.str(hex_text(hx ^ 1)));
    // a wrong value for one of the scalar handlers
    JS::Error want_err = JS::Error::NoError;
    size_t spoiled = ~size_t(0);
    if (r.chance(10))
    {
      const char *names[] = {"c", "vc", "h", "vh", "nm"};
      std::string n = names[r.below(5)];
      for (auto &m : ms)
        if (m.name == n)
        {
          Val bad = n == "c" || n == "vc" ? c.str("1.5x") : n[0] == 'n' ? c.num(1) : c.str("12g4");
          want_err = n == "c" || n == "vc" ? JS::Error::FailedToParseDouble : n[0] == 'n' ? JS::Error::ExpectedObjectStart : JS::Error::IllegalDataValue;
          if (m.v.k == ref::Arr)
            m.v.a[r.below(m.v.a.size())] = bad;
          else
            m.v = bad;
          spoiled = size_t(&m - ms.data());
        }
    }
    std::vector<size_t> order(ms.size());
    for (size_t i = 0; i < ms.size(); i++)
      order[i] = i;
    if (r.chance(60))
      for (size_t i = ms.size(); i > 1; i--)
        std::swap(order[i - 1], order[r.below(i)]);
    Val doc, decl;
    doc.k = decl.k = ref::Obj;
    std::vector<Val> want;
    bool stopped = false, told = false;
    for (size_t i : order)
    {
      doc.o.push_back({ms[i].name, ms[i].v});
      if (stopped)
        continue;
      for (auto &v : ms[i].recs)
      {
        want.push_back(v);
        if (v.k == ref::Str && (v.raw == "bad" || v.raw == "worse" || v.raw == "told" || v.raw == "told otherwise"))
        {
          want_err = v.raw == "bad" ? JS::Error::UserDefinedErrors : v.raw == "worse" ? JS::Error(int(JS::Error::UserDefinedErrors) + 7) : v.raw == "told" ? JS::Error::IllegalDataValue : JS::Error(int(JS::Error::UserDefinedErrors) + 3);
          told = v.raw.compare(0, 4, "told") == 0;
          stopped = true;
          break;
        }
      }
      if (!stopped && i == spoiled)
        stopped = true;
    }
    std::string text = ref::print(doc, &r, int(r.below(3)));
    // which way in
    Log log;
    Doc d;
    JS::ParseContext pc;
    pc.user_data = &log;
    Rng walk(r.next());
    log.r = &walk;
    log.deep = deep;
    std::string how;
    auto cutv = cuts(r, text.size());
    std::vector<std::string> parts = split(text, cutv);
    std::unique_ptr<fd::Feeder> feed;
    Exact whole(text);
    std::vector<JS::Token> list;
    switch (r.below(4))
    {
    case 0: {
      JS::Tokenizer t;
      t.addData(whole.p, whole.n);
      JS::Token k;
      while (t.nextToken(k) == JS::Error::NoError)
        list.push_back(k);
      pc.tokenizer.addData(&list);
      how = "recorded tokens";
      break;
    }
    case 1: {
      auto m = fd::Mode(r.below(fd::AddLater));
      feed.reset(new fd::Feeder(parts, m, r.next()));
      feed->attach(pc.tokenizer);
      how = std::string("in pieces, ") + fd::modename(m);
      break;
    }
    default: pc.tokenizer.addData(whole.p, whole.n); how = "whole";
    }
    JS::Error e = pc.parseTo(d);
    eval();
    seen(hash(text) + how.size());
    if (idx < 6)
      sample(text);
    std::string w = how + " error " + std::to_string(int(e)) + " calls " + std::to_string(log.calls.size()) + " of " + std::to_string(want.size()) + " doc=" + show(text, 1200);
    count("handler_calls", log.calls.size());
    count("scopes_pushed", log.scopes);
    count("scopes_nested", log.nested);
    count("reads_behind_scopes", log.probes);
    count("scopes_over_60_deep", log.level_seen > 60);
    if (!log.fault.empty())
      return violation("scope", log.fault + " " + w);
    if (want_err != JS::Error::NoError)
    {
      count("refused_by_handlers");
      if (e != want_err)
        return violation("handler-error", "wants error " + std::to_string(int(want_err)) + " " + w);
      std::string rep = pc.makeErrorString();
      count("messages_expected", told);
      if (told && rep.find("this Rec is not wanted") == std::string::npos)
        return violation("handler-message", show(rep) + " " + w);
    }
    else if (e != JS::Error::NoError)
      return violation("parse-failed", w);
    if (log.calls.size() != want.size())
      return violation("handler-calls", w);
    for (size_t i = 0; i < want.size(); i++)
    {
      Rec x;
      x.t = log.calls[i];
      if (!equal(x, want[i]))
        return violation("handler-tokens", "call " + std::to_string(i) + " saw " + ref::showtoks(x.t) + " instead of " + ref::showtoks(toks(want[i])) + " " + w);
    }
    if (want_err != JS::Error::NoError)
      return;
    count("documents_parsed");
    // every value arrived where it belongs
    auto member = [&](const char *n) -> const Val & {
      for (auto &m : ms)
        if (m.name == n)
          return m.v;
      return ms[0].v;
    };
    auto fail = [&](const char *what) { violation("value-misplaced", std::string(what) + " " + w); };
    if (d.before != 11 || d.after != 12 || d.last != 99 || d.in.y != 77)
      return fail("plain members");
    if (!equal(d.base_r, member("base_r")) || !equal(d.r, member("r")) || !equal(d.in.x, member("in").o[0].second))
      return fail("members");
    if (d.v.size() != member("v").a.size() || d.m.size() != member("m").o.size() || d.vi.size() != member("vi").a.size() || d.vs.size() != member("vs").a.size() || d.vv.size() != member("vv").a.size())
      return fail("sizes");
    for (size_t i = 0; i < d.v.size(); i++)
      if (!equal(d.v[i], member("v").a[i]))
        return fail("v");
    for (size_t i = 0; i < d.m.size(); i++)
      if (!equal(d.m["k" + std::to_string(i)], member("m").o[i].second))
        return fail("m");
    for (size_t i = 0; i < d.vi.size(); i++)
      if (!equal(d.vi[i].x, member("vi").a[i].o[0].second) || d.vi[i].y != 77)
        return fail("vi");
    for (size_t i = 0; i < d.vv.size(); i++)
      for (size_t k = 0; k < member("vv").a[i].a.size(); k++)
        if (d.vv[i].size() != member("vv").a[i].a.size() || !equal(d.vv[i][k], member("vv").a[i].a[k]))
          return fail("vv");
    for (int i = 0; i < 2; i++)
      if (!equal(d.a[i], member("a").a[size_t(i)]) || !equal(d.sa[size_t(i)], member("sa").a[size_t(i)]))
        return fail("a");
    if (!equal(d.t.template get<1>(), member("t").a[1]) || d.t.template get<0>() != 5 || d.t.template get<2>() != "end")
      return fail("t");
    auto wr = [&](const char *n, const Rec *p) { return member(n).k == ref::Null ? p == nullptr : p && equal(*p, member(n)); };
    if (!wr("o", d.o ? &*d.o : nullptr) || !wr("u", d.u.get()) || !wr("s", d.s.get()) || !wr("jo", &d.jo.data) || !wr("n", &d.n.data))
      return fail("wrappers");
    if (d.c.c != cn || d.vc.size() != 3 || d.vc[2].c != cn + 1 || memcmp(d.p.d, px, sizeof px) || d.vp.size() != 2 || memcmp(d.vp[1].d, px, sizeof px) || d.h.v != hx || d.base_h.v != (hx ^ 1) ||
        d.vh.size() != 2 || d.vh[1].v != hx + 1)
      return fail("scalars");
    if (d.nm.x != 3 || d.nm.y != 4 || d.nm.others != others || d.vn.size() != 2 || d.vn[1].x != 5 || d.vn[1].y != 6 || d.vn[0].others + d.vn[1].others != others2)
      return fail("objects read by hand");
    if (!pc.missing_members.empty() || !pc.unassigned_required_members.empty())
      return fail("member lists");
    std::function<void(Val &)> byvalue = [&](Val &x) {
      if (x.k == ref::Num)
        x.num = strtod(x.raw.c_str(), nullptr), x.raw = "~";
      for (auto &p : x.o)
        byvalue(p.second);
      for (auto &p : x.a)
        byvalue(p);
    };
    // written back in declaration order, in any style, and read again
    for (auto &m : ms)
    {
      Val v = m.v;
      if (m.name == "sk")
        v = c.num(d.sk.walked);
      if (m.name == "vs")
        for (size_t i = 0; i < v.a.size(); i++)
          v.a[i] = c.num(d.vs[i].walked);
      if (v.k == ref::Null && (m.name == "u" || m.name == "s"))
        continue;
      std::function<void(Val &)> strip = [&](Val &x) {
        std::vector<std::pair<std::string, Val>> keep;
        for (auto &p : x.o)
          if (p.first == "x" || p.first == "y")
            keep.push_back(p);
        x.o = keep;
        for (auto &p : x.a)
          strip(p);
      };
      if (m.name == "nm" || m.name == "vn")
        strip(v);
      if (m.name == "nm" || m.name == "vn" || m.name == "p" || m.name == "vp")
        byvalue(v);
      decl.o.push_back({m.name, v});
    }
    JS::SerializerOptions so(r.chance(50) ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
    if (so.style() == JS::SerializerOptions::Pretty && r.chance(50))
      so.setShiftSize(static_cast<unsigned char>(r.below(9)));
    std::string out = JS::serializeStruct(d, so);
    Val got;
    std::string why;
    if (!ref::parse(out, got, &why))
      return violation("output-malformed", why + " text=" + show(out, 1200));
    // wrappers that hold nothing may be left out or null
    std::vector<std::pair<std::string, Val>> keep;
    for (auto &p : got.o)
      if (!(p.second.k == ref::Null && (p.first == "u" || p.first == "s") && member(p.first.c_str()).k == ref::Null))
        keep.push_back(p);
    got.o = keep;
    if (!ref::same(decl, got, "", &why))
      return violation("output-differs", why + " text=" + show(out, 1200));
    count("documents_written");
  });
}
