// C21: independent contexts used from different threads. Every task is a pure function of its kind and
// seed; all threads run the same tasks at the same time, starting with the first use of everything in
// the process, and every result is compared with the one obtained alone afterwards.
#include "outcome.h"
#include "malgen.h"
#include "relax.h"
#include <json_struct/json_struct_diff.h>
#include <atomic>
#include <thread>
using namespace vh;

// types used nowhere else, so that their first use is concurrent
template <int N>
struct Fresh
{
  int a = N;
  std::string b;
  std::vector<double> c;
  JS::Optional<int> d;
  JS_OBJECT(JS_MEMBER(a), JS_MEMBER_ALIASES(b, "bee", "bb"), JS_MEMBER(c), JS_MEMBER(d));
};
template <int N>
struct FreshDerived : Fresh<N>
{
  std::string own;
  JS_OBJECT_WITH_SUPER(JS_SUPER(Fresh<N>), JS_MEMBER(own));
};
struct Fns
{
  std::string log;
  int add(const int &i)
  {
    log += "add;";
    return i + 1;
  }
  std::string text(const std::string &s)
  {
    log += "text;";
    return s + s;
  }
  void note(const std::vector<int> &v) { log += "note" + std::to_string(v.size()) + ";"; }
  void fail(JS::CallFunctionErrorContext &c)
  {
    log += "fail;";
    c.setError("as told");
  }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(add), JS_FUNCTION_ALIASES(text, "t", "txt"), JS_FUNCTION(note), JS_FUNCTION(fail));
};
template <int N>
struct FnsN : Fns
{
  double half(const double &d) { return d / 2; }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER(Fns), JS_FUNCTION(half));
};
JS_ENUM(Lamp, on, off, broken)
JS_ENUM_DECLARE_STRING_PARSER(Lamp)

// required members, aliases and enums by value
enum class Bulb : short
{
  dim = -3,
  bright = 900
};
JS_ENUM_DECLARE_VALUE_PARSER(Bulb)
struct Strict
{
  int need = 0, more = 0;
  std::vector<short> list;
  JS::Nullable<double> n;
  JS::NullableChecked<float> c;
  unsigned char u8 = 0;
  int64_t i64 = 0;
  bool flag = false;
  JS_OBJ(need, more, list, n, c, u8, i64, flag);
};
// a type with a handler of its own
struct Own
{
  std::string got;
};
namespace JS
{
template <>
struct TypeHandler<Own>
{
  static Error to(Own &o, ParseContext &c)
  {
    o.got = std::string(c.token.value.data, c.token.value.size) + (c.user_data ? "u" : "-");
    if (c.token.value_type == Type::ObjectStart || c.token.value_type == Type::ArrayStart)
    {
      c.tokenizer.pushScope(c.token.value_type);
      Error e = c.nextToken();
      if (e == Error::NoError && c.token.value_type == Type::Number)
        o.got += std::string(c.token.value.data, c.token.value.size);
      if (e == Error::NoError)
        e = c.tokenizer.goToEndOfScope(c.token);
      c.tokenizer.popScope();
      return e;
    }
    if (c.token.value_type == Type::Bool)
      return c.tokenizer.updateErrorContext(Error::UserDefinedErrors, "no booleans");
    return Error::NoError;
  }
  static void from(const Own &o, Token &t, Serializer &s)
  {
    t.value_type = Type::ArrayStart;
    t.value = DataRef("[");
    s.write(t);
    t.name = DataRef();
    TypeHandler<std::string>::from(o.got, t, s);
    t.value_type = Type::ArrayEnd;
    t.value = DataRef("]");
    s.write(t);
  }
};
} // namespace JS
struct Refs
{
  JS::JsonObjectRef o;
  JS::JsonArrayRef a;
  JS::JsonObjectOrArrayRef e;
  JS::JsonObject oo;
  JS::JsonArray aa;
  JS::JsonObjectOrArray ee;
  JS::JsonTokens t;
  std::vector<Own> own;
  JS_OBJ(o, a, e, oo, aa, ee, t, own);
};
// feeds the pieces on request, each in memory of its own that goes away on release
struct Feed
{
  std::vector<std::string> parts;
  size_t next = 0, released = 0;
  void connect(JS::Tokenizer &t)
  {
    t.setNeedMoreDataCallback([this](JS::Tokenizer &x) {
      if (next < parts.size())
      {
        x.addData(parts[next].data(), parts[next].size());
        next++;
      }
    });
    std::function<void(const char *)> rel = [this](const char *) { released++; };
    t.setReleaseCallback(rel);
  }
};
static std::string names(JS::ParseContext &pc)
{
  std::string s;
  for (auto &m : pc.missing_members)
    s += " -" + m;
  for (auto &m : pc.unassigned_required_members)
    s += " ?" + m;
  return s;
}
template <class T>
static std::string pieces(Rng &r, const T &v)
{ // through buffers of a few bytes, full ones collected on request
  std::string out;
  char buf[24];
  size_t n = 1 + r.below(24);
  JS::Serializer z(buf, n);
  JS::SerializerOptions so(r.chance(60) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  if (r.chance(30))
    so.setShiftSize((unsigned char)r.below(5));
  if (r.chance(30))
    so.setConvertAsciiToString(r.chance(50));
  if (r.chance(20))
    so.setStyle(r.chance(50) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  z.setOptions(so);
  z.setRequestBufferCallback([&](JS::Serializer &x) {
    out.append(x.currentBuffer().buffer, x.currentBuffer().used);
    x.setBuffer(buf, n);
  });
  JS::Token t;
  JS::TypeHandler<T>::from(v, t, z);
  out.append(z.currentBuffer().buffer, z.currentBuffer().used);
  return out;
}
struct Small
{
  Rng &r;
  std::string &out;
  template <class T>
  void go(const char *)
  {
    out = pieces(r, ty::Gen<T>::make(r, 3));
  }
};
struct Gather
{ // any target, fed on request
  Rng &r;
  std::string &out;
  const std::string &text;
  ju::Opts o;
  template <class T>
  void go(const char *name)
  {
    Feed f;
    f.parts = split(text, cuts(r, text.size()));
    JS::ParseContext pc;
    o.apply(pc.tokenizer);
    pc.allow_missing_members = r.chance(50);
    pc.allow_unasigned_required_members = r.chance(50);
    if (r.chance(30))
      pc.tokenizer.setErrorContextConfig(r.below(6), r.below(60));
    f.connect(pc.tokenizer);
    oc::Run run(pc);
    run.go<T>(name);
    out += name + run.out.text + std::to_string(f.released) + "/" + std::to_string(f.next);
    if (run.out.err != JS::Error::NoError)
      out += pc.makeErrorString();
  }
};
struct Again
{ // the tokens of a text, replayed
  Rng &r;
  std::string &out;
  const std::vector<JS::Token> &list;
  template <class T>
  void go(const char *name)
  {
    JS::ParseContext pc;
    pc.tokenizer.addData(&list);
    oc::Run run(pc);
    run.go<T>(name);
    out += name + run.out.text;
  }
};
// one const value of each kind, read by all threads
struct Shared
{
  std::string text = "{\"b\":\"x\\u00e9\\n\",\"n\":{\"deep\":[1,2.5,{\"k\":\"v\"}]},\"list\":[1,2,3],\"z\":1e-7,\"t\":true}";
  JS::Map map;
  std::vector<Own> own;
  FreshDerived<9> obj;
  std::vector<JS::Token> tokens;
  JS::JsonTokens jt;
  std::map<std::string, std::vector<double>> m;
  JS::SerializerOptions opts;
  Shared()
  {
    own.resize(3);
    own[1].got = "a\tb";
    obj.b = "quote\"";
    obj.c = {0.1, 2e300, -5};
    obj.d = 7;
    m["one"] = {1, 2};
    m["\n"] = {};
    JS::Tokenizer k;
    k.addData(text.data(), text.size());
    JS::Token t;
    while (k.nextToken(t) == JS::Error::NoError)
      tokens.push_back(t);
    jt.data = tokens;
    map.tokens.data = tokens;
    map.meta = JS::metaForTokens(map.tokens);
  }
};
static const Shared &shared()
{
  static const Shared s;
  return s;
}
template <int N>
static std::string fresh(Rng &r)
{
  std::string t = "{\"own\":\"o\\u00e9" + std::to_string(r.below(100)) + "\",\"a\":" + std::to_string(r.below(1000)) + ",\"bee\":\"" + std::to_string(r.next()) + "\\n\",\"c\":[" + ref::gen_num(r) + ",0.1],\"zz\":[1]}";
  JS::ParseContext pc(t);
  FreshDerived<N> v;
  JS::Error e = pc.parseTo(v);
  return std::to_string(int(e)) + JS::serializeStruct(v) + (pc.missing_members.size() ? pc.missing_members[0] : "");
}
template <int N>
static std::string fresh_call(Rng &r)
{
  std::string t = "{\"add\":" + std::to_string(r.below(99)) + ",\"t\":\"x\\ty\",\"half\":3.25,\"note\":[1,2],\"nothing\":1,\"fail\":null}";
  FnsN<N> f;
  std::string out;
  JS::DefaultCallFunctionContext ctx(t.data(), t.size(), out);
  JS::Error e = ctx.callFunctions(f);
  std::string s = std::to_string(int(e)) + f.log + out;
  for (auto &x : ctx.execution_list)
    s += x.name + std::to_string(int(x.error)) + x.error_string.data;
  s += JS::serializeStruct(ctx.execution_list);
  return s;
}
struct Go
{
  Rng &r;
  std::string &out;
  template <class T>
  void go(const char *name)
  {
    T v = ty::Gen<T>::make(r, 3);
    std::string t = JS::serializeStruct(v, JS::SerializerOptions(r.chance(50) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact));
    T w{};
    auto c = cuts(r, t.size());
    auto parts = split(t, c);
    JS::ParseContext pc;
    for (auto &p : parts)
      pc.tokenizer.addData(p.data(), p.size());
    JS::Error e = pc.parseTo(w);
    out += name + std::to_string(int(e)) + t + (e == JS::Error::NoError ? JS::serializeStruct(w) : pc.makeErrorString());
  }
};
enum
{
  KINDS = 24
};
static std::string task(int kind, uint64_t seed)
{
  Rng r(seed, uint64_t(kind));
  std::string out;
  ref::GenOpt g;
  g.max_depth = 3;
  switch (kind)
  {
  case 0:
  case 1: {
    Go x{r, out};
    ty::with_type(r.below(ty::TYPES), x);
    break;
  }
  case 2: {
    ty::CaptureDoc d = ty::make_capture_doc(r);
    ty::Captures c;
    auto parts = split(d.text, cuts(r, d.text.size()));
    JS::ParseContext pc;
    for (auto &p : parts)
      pc.tokenizer.addData(p.data(), p.size());
    out = std::to_string(int(pc.parseTo(c))) + c.obj.data + c.arr.data + c.either.data;
    break;
  }
  case 3: {
    std::string text, how;
    ref::mutated(r, text, how);
    ju::Stream s = ju::tokenize(text, ju::Opts::from(unsigned(r.below(16))));
    out = ref::showtoks(s.toks, 1000) + s.errstr;
    break;
  }
  case 4: {
    std::string a = ref::print(ref::gen(r, g)), b = r.chance(50) ? a : ref::print(ref::gen(r, g));
    JS::DiffContext dc(a);
    size_t n = dc.diff(b);
    const JS::DiffTokens &d = dc.diffs[n];
    out = std::to_string(d.diff_count) + ":";
    for (auto &t : d.diffs)
      out += std::to_string(int(t)) + ",";
    break;
  }
  case 5: {
    std::string text = ref::print(ref::gen(r, g), &r, 2);
    JS::Error e = JS::reformat(text, out);
    out += std::to_string(int(e));
    break;
  }
  case 6: {
    ref::Val v;
    do
      v = ref::gen(r, g);
    while (v.k != ref::Obj);
    std::string text = ref::print(v);
    JS::Map m;
    JS::ParseContext pc(text);
    if (pc.parseTo(m) == JS::Error::NoError)
    {
      std::string n = "new\n", own = "value \"x\"";
      JS::ParseContext p1;
      m.setValue(n, p1, own);
      std::vector<int> vi = {1, 2, 3};
      m.setValue("list", p1, vi);
      for (auto &mem : v.o)
        out += m.find(ref::decoded(mem.first)) != m.end() ? "1" : "0";
      JS::ParseContext p2;
      out += m.castTo<std::string>("new\n", p2);
      out += JS::serializeStruct(m);
    }
    break;
  }
  case 7: {
    switch (r.below(6))
    {
    case 0: out = fresh<0>(r); break;
    case 1: out = fresh<1>(r); break;
    case 2: out = fresh<2>(r); break;
    case 3: out = fresh<3>(r); break;
    case 4: out = fresh<4>(r); break;
    default: out = fresh<5>(r);
    }
    break;
  }
  case 8: {
    switch (r.below(4))
    {
    case 0: out = fresh_call<0>(r); break;
    case 1: out = fresh_call<1>(r); break;
    case 2: out = fresh_call<2>(r); break;
    default: out = fresh_call<3>(r);
    }
    break;
  }
  case 9: {
    std::vector<double> d;
    std::vector<float> f;
    for (int i = 0; i < 20; i++)
      d.push_back(ng::rnd_double(r)), f.push_back(ng::rnd_float(r));
    out = JS::serializeStruct(d) + JS::serializeStruct(f);
    std::vector<double> e;
    JS::ParseContext pc(out.data(), out.size());
    pc.parseTo(e);
    for (double x : e)
      out += std::to_string(ng::d2bits(x)) + " ";
    break;
  }
  case 10: {
    std::vector<std::string> s;
    for (int i = 0; i < 8; i++)
      s.push_back(ty::text(r));
    out = JS::serializeStruct(s);
    std::vector<std::string> t;
    JS::ParseContext pc(out);
    pc.parseTo(t);
    for (auto &x : t)
      out += x;
    break;
  }
  case 11: { // any target, any relaxed text, fed on request
    size_t which = r.below(oc::OWNING);
    ju::Opts o = ju::Opts::from(unsigned(r.below(16)));
    rx::Printer p{r, o, o, r.range(5, 60)};
    p.sp(true);
    p.val(oc::document(r, which), ref::Tok(), false);
    std::string text = p.out;
    if (r.chance(15))
      text.resize(r.below(text.size() + 1));
    if (r.chance(15) && !text.empty())
      text[r.below(text.size())] = ",:{}[]\"/#"[r.below(9)];
    Gather x{r, out, text, o};
    oc::with_target(which, x);
    break;
  }
  case 12: { // recorded tokens, also rewound
    size_t which = r.below(oc::ALL);
    std::string text = ref::print(oc::document(r, which), &r, 2);
    JS::Tokenizer k;
    k.addData(text.data(), text.size());
    std::vector<JS::Token> list;
    JS::Token t;
    while (k.nextToken(t) == JS::Error::NoError)
      list.push_back(t);
    Again x{r, out, list};
    oc::with_target(which, x);
    JS::ParseContext pc(text);
    JS::JsonTokens j;
    out += std::to_string(int(pc.parseTo(j)));
    pc.tokenizer.resetData(text.data(), text.size(), 0);
    JS::JsonObjectOrArray jo;
    out += std::to_string(int(pc.parseTo(jo))) + jo.data;
    pc.tokenizer.resetData(&list, 0);
    JS::JsonTokens j2;
    out += std::to_string(int(pc.parseTo(j2))) + pieces(r, j2) + JS::serializeStruct(j2);
    break;
  }
  case 13: { // captures of all kinds, and a handler of the user's
    ref::GenOpt h;
    h.max_depth = 2;
    auto v = [&](int want) {
      for (;;)
      {
        ref::Val x = ref::gen(r, h);
        if (want == 2 || (want ? x.k == ref::Arr : x.k == ref::Obj))
          return ref::print(x, &r, 1);
      }
    };
    std::string text = "{\"o\":" + v(0) + ",\"a\":" + v(1) + ",\"e\":" + v(2) + ",\"oo\":" + v(0) + ",\"aa\":" + v(1) + ",\"ee\":" + v(2) + ",\"t\":" + v(2) + ",\"own\":[1,\"s\",[2,[3]],{\"a\":4}" + (r.chance(30) ? ",true" : "") + "]}";
    Refs x;
    JS::ParseContext pc(text);
    pc.user_data = r.chance(50) ? &x : nullptr;
    JS::Error e = pc.parseTo(x);
    out = std::to_string(int(e));
    if (e == JS::Error::NoError)
      out += JS::serializeStruct(x) + pieces(r, x) + JS::serializeStruct(Refs().oo) + JS::serializeStruct(Refs().aa) + JS::serializeStruct(Refs().ee);
    else
      out += pc.makeErrorString();
    break;
  }
  case 14: { // missing and unknown members, wrong values
    static const char *const members[] = {"\"need\":1", "\"more\":2", "\"list\":[1,2]", "\"n\":null", "\"c\":null", "\"c\":1.5", "\"u8\":255", "\"u8\":256", "\"i64\":-9223372036854775808", "\"i64\":1e30", "\"flag\":true", "\"flag\":maybe", "\"n\":1e999",
                                          "\"extra\":{\"a\":[1]}", "\"other\":[]", "\"third\":1", "\"need\":1.5e1", "\"more\":\"12\"", "\"list\":{}", "\"more\":1-", "\"need\":\"x\"", "\"i64\":0.00001e5"};
    std::string text = "{";
    for (size_t i = 0, n = r.below(9); i < n; i++)
      text += std::string(i ? "," : "") + (r.chance(20) ? "\n" : "") + members[r.below(sizeof members / sizeof *members)];
    text += "}";
    JS::ParseContext pc(text);
    pc.allow_missing_members = r.chance(30);
    pc.allow_unasigned_required_members = r.chance(30);
    Strict v;
    JS::Error e = pc.parseTo(v);
    out = std::to_string(int(e)) + names(pc) + (e == JS::Error::NoError ? JS::serializeStruct(v) : pc.makeErrorString());
    break;
  }
  case 15: { // numbers whose rounding is decided by all their digits
    std::string text = "[";
    std::vector<double> d;
    std::vector<float> f;
    for (int i = 0; i < 6; i++)
    {
      char b[400];
      double x = ng::rnd_double(r);
      if (!(x == x) || x - x != 0)
        x = 1.5;
      double y = r.chance(50) ? std::nextafter(x, 1e300) : double(std::nextafter(float(r.below(1 << 24)), 1e30f));
      // the middle of two neighbours, to many digits
      snprintf(b, sizeof b, "%.*Le", int(r.below(40)) + 17, ((long double)x + (long double)y) / 2);
      text += std::string(i ? "," : "") + b + (r.chance(20) ? "0" : "");
    }
    text += r.chance(30) ? ",1e400,-1e400,1e-400]" : "]";
    JS::ParseContext p1(text), p2(text);
    out = text + std::to_string(int(p1.parseTo(d))) + std::to_string(int(p2.parseTo(f)));
    for (double x : d)
      out += std::to_string(ng::d2bits(x)) + " ";
    out += JS::serializeStruct(d) + JS::serializeStruct(f);
    break;
  }
  case 16: { // through small buffers
    Small x{r, out};
    ty::with_type(r.below(ty::TYPES), x);
    std::string text = ref::print(ref::gen(r, g)), big;
    for (int i = 0; i < 40; i++)
      big += (i ? "," : "[") + text;
    big += "]";
    std::string o2;
    JS::Error e = JS::reformat(big, o2, JS::SerializerOptions(r.chance(50) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact));
    out += std::to_string(int(e)) + o2;
    std::string o3;
    {
      JS::SerializerContext sc(o3);
      JS::JsonTokens j;
      JS::ParseContext pc(big);
      if (pc.parseTo(j) == JS::Error::NoError)
        sc.serialize(j);
      sc.flush();
    }
    out += o3;
    break;
  }
  case 17: { // metadata and the map's other operations
    ref::Val v;
    do
      v = ref::gen(r, g);
    while (v.k != ref::Obj || v.o.empty());
    std::string text = ref::print(v, &r, 1);
    JS::Map m;
    JS::ParseContext pc(text);
    if (pc.parseTo(m) != JS::Error::NoError)
      break;
    for (size_t i = 0; i < m.meta.size(); i++)
      out += std::to_string(JS::Internal::findFirstChildWithData(m.meta, i)) + ",";
    std::string first = ref::decoded(v.o[r.below(v.o.size())].first);
    JS::ParseContext p1;
    JS::JsonObjectOrArray any;
    out += std::to_string(int(m.castToType(first, p1, any))) + any.data;
    JS::ParseContext p2;
    int num = 3;
    out += std::to_string(int(m.castToType("not there", p2, num)));
    for (auto it = m.begin(); it != m.end(); ++it)
      out += std::string((*it).name.data, (*it).name.size) + ";";
    JS::ParseContext p3;
    Strict st;
    m.setValue(first, p3, st);
    out += JS::serializeStruct(m);
    break;
  }
  case 18: { // calls that fail, stop or go on, and contexts of all kinds
    static const char *const calls[] = {"\"add\":1", "\"add\":\"x\"", "\"txt\":\"a\"", "\"note\":[1]", "\"note\":3", "\"half\":{}", "\"fail\":null", "\"unknown\":{\"a\":[1]}", "\"half\":1", "\"text\":\"\\u00e9\""};
    std::string text = "{";
    for (size_t i = 0, n = r.below(8); i < n; i++)
      text += std::string(i ? "," : "") + calls[r.below(sizeof calls / sizeof *calls)];
    text += r.chance(10) ? "" : r.chance(10) ? "]" : "}";
    FnsN<7> f;
    {
      JS::DefaultCallFunctionContext c(text.data(), text.size(), out);
      c.stop_execute_on_fail = r.chance(40);
      c.allow_missing = r.chance(50);
      if (r.chance(50))
        c.return_serializer.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact));
      JS::Error e = c.callFunctions(f);
      f.log += std::to_string(int(e)) + JS::serializeStruct(c.execution_list) + c.parse_context.makeErrorString();
    }
    out += f.log;
    break;
  }
  case 19: { // differences, with options, and new bases
    g.max_depth = 4;
    std::string a = ref::print(ref::gen(r, g)), b = r.chance(50) ? a : ref::print(ref::gen(r, g));
    for (int i = 0; i < 2 && !b.empty(); i++)
      if (r.chance(50))
        for (char &c : b)
          if (isdigit((unsigned char)c) && r.chance(20))
            c = char('1' + r.below(9));
    JS::DiffOptions o{JS::DiffFlags(r.below(2)), double(r.below(3)) * 0.25};
    JS::DiffContext dc(a, o);
    auto put = [&](const JS::DiffTokens &d) {
      out += std::to_string(int(d.error)) + ":" + std::to_string(d.diff_count) + ":";
      for (size_t i = 0; i < d.diffs.size(); i++)
      {
        out += std::to_string(int(d.diffs[i])) + ",";
        const auto *m = d.getMissingMembers(d.tokens.data[i]);
        const auto *n = d.getMissingArrayItems(d.tokens.data[i]);
        out += std::to_string(m ? m->size() : 0) + "," + std::to_string(n ? n->size() : 0) + ";";
      }
    };
    if (dc.error == JS::DiffError::NoError)
    {
      size_t n = dc.diff(b);
      if (n != size_t(-1))
        put(dc.diffs[n]);
      if (n != size_t(-1) && dc.diffs[n].error == JS::DiffError::NoError)
      {
        dc.changeBase(n);
        put(dc.diffs[n]);
        dc.reset(b, o);
        n = dc.diff(a);
        put(dc.diffs[n]);
      }
    }
    break;
  }
  case 20: { // values shared by all threads, only read
    const Shared &s = shared();
    out = JS::serializeStruct(s.map) + JS::serializeStruct(s.own, s.opts) + JS::serializeStruct(s.obj, s.opts) + JS::serializeStruct(s.jt) + JS::serializeStruct(s.m) + pieces(r, s.map);
    out += s.map.find("n") == s.map.end() ? "-" : "+";
    out += s.map.find("nope") == s.map.end() ? "-" : "+";
    JS::ParseContext p1;
    out += s.map.castTo<std::string>("b", p1);
    JS::ParseContext p2(s.text);
    JS::Map m;
    out += std::to_string(int(p2.parseTo(m))) + JS::serializeStruct(m);
    JS::ParseContext p3;
    p3.tokenizer.addData(&s.tokens);
    JS::JsonObject o;
    out += std::to_string(int(p3.parseTo(o))) + o.data;
    out += std::to_string(JS::metaForTokens(s.jt).size());
    break;
  }
  case 21: { // scalars of every kind, good and bad
    static const char *const texts[] = {"900", "-3", "7", "\"dim\"", "40000", "\"on\"", "1", "\"broken\"", "\"brokenx\"", "0", "true", "\"true\"", "12.5", "null", "[]"};
    std::string t1 = std::string("[") + texts[r.below(15)] + "," + texts[r.below(15)] + "]";
    std::vector<Bulb> b;
    std::vector<Lamp> l;
    std::vector<bool> f;
    std::vector<JS::Nullable<int>> n;
    std::vector<uint8_t> u;
    JS::ParseContext p1(t1), p2(t1), p3(t1), p4(t1), p5(t1);
    out = std::to_string(int(p1.parseTo(b))) + p1.makeErrorString() + std::to_string(int(p2.parseTo(l))) + p2.makeErrorString() + std::to_string(int(p3.parseTo(f))) + p3.makeErrorString() + std::to_string(int(p4.parseTo(n))) + p4.makeErrorString() +
          std::to_string(int(p5.parseTo(u))) + p5.makeErrorString();
    out += JS::serializeStruct(b) + JS::serializeStruct(f) + JS::serializeStruct(u);
    l.push_back(Lamp(77));
    out += JS::serializeStruct(l);
    break;
  }
  case 22: { // one context for several documents
    JS::ParseContext pc;
    Feed f;
    for (int i = 0; i < 3; i++)
    {
      std::string t = "{\"a\":" + std::to_string(r.below(100)) + ",\"b\":\"" + std::string(r.below(50), 'x') + "\"}";
      auto parts = split(t, cuts(r, t.size()));
      f.parts.insert(f.parts.end(), parts.begin(), parts.end());
    }
    f.connect(pc.tokenizer);
    for (int i = 0; i < 3; i++)
    {
      Fresh<8> v;
      JS::Error e = pc.parseTo(v);
      out += std::to_string(int(e)) + JS::serializeStruct(v) + std::to_string(f.released);
    }
    break;
  }
  default: {
    std::vector<Lamp> l = {Lamp(r.below(3)), Lamp(r.below(3))};
    out = JS::serializeStruct(l);
    std::vector<Lamp> k;
    JS::ParseContext pc(out);
    pc.parseTo(k);
    std::string bad = "[\"on\",\"of\"]";
    JS::ParseContext p2(bad);
    std::vector<Lamp> q;
    JS::Error e = p2.parseTo(q);
    out += JS::serializeStruct(k) + std::to_string(int(e)) + p2.makeErrorString();
    JS::JsonTokens jt;
    std::string text = ref::print(ref::gen(r, g));
    JS::ParseContext p3(text);
    if (p3.parseTo(jt) == JS::Error::NoError)
      for (auto &m : JS::metaForTokens(jt))
        out += std::to_string(m.size) + "," + std::to_string(m.skip) + ";";
  }
  }
  return out;
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C21", [](uint64_t idx, Rng &r) {
    const int N = r.range(2, 8);
    const int M = 24;
    std::vector<std::pair<int, uint64_t>> tasks;
    for (int i = 0; i < M; i++)
      tasks.emplace_back(int(r.below(KINDS)), r.next());
    int order = int(r.below(3)); // together, rotated, reversed for odd threads
    std::vector<std::vector<std::string>> res;
    res.resize(size_t(N), std::vector<std::string>(M));
    std::atomic<int> waiting{0};
    std::atomic<uint64_t> ticket{0};
    std::vector<uint64_t> when(size_t(N * M));
    std::vector<std::thread> th;
    for (int t = 0; t < N; t++)
      th.emplace_back([&, t] {
        waiting++;
        while (waiting.load() < N)
          ;
        for (int i = 0; i < M; i++)
        {
          int k = order == 0 ? i : order == 1 ? (i + t * 5) % M : (t & 1) ? M - 1 - i : i;
          res[size_t(t)][size_t(k)] = task(tasks[size_t(k)].first, tasks[size_t(k)].second);
          // no ordering between the threads other than the library's own: relaxed
          when[size_t(t * M + i)] = ticket.fetch_add(1, std::memory_order_relaxed);
        }
      });
    for (auto &x : th)
      x.join();
    // how the threads interleaved
    std::vector<std::pair<uint64_t, int>> seq;
    for (int t = 0; t < N; t++)
      for (int i = 0; i < M; i++)
        seq.emplace_back(when[size_t(t * M + i)], t);
    std::sort(seq.begin(), seq.end());
    uint64_t h = 7;
    uint64_t switches = 0;
    for (size_t i = 0; i < seq.size(); i++)
    {
      h = hash(&seq[i].second, sizeof(int), h);
      switches += i && seq[i].second != seq[i - 1].second;
    }
    seen(h);
    count("thread_switches_seen", switches);
    count("tasks_run", uint64_t(N * M));
    for (auto &t : tasks)
      count("shared_values_read", t.first == 20 ? uint64_t(N) : 0);
    if (idx < G().step)
      count("first_uses_under_contention");
    sample("threads " + std::to_string(N) + " order " + std::to_string(order) + " tasks " + std::to_string(M) + " switches " + std::to_string(switches));
    for (int k = 0; k < M; k++)
    {
      std::string alone = task(tasks[size_t(k)].first, tasks[size_t(k)].second);
      for (int t = 0; t < N; t++)
      {
        eval();
        if (res[size_t(t)][size_t(k)] != alone)
          violation("thread-result", "kind " + std::to_string(tasks[size_t(k)].first) + " seed " + std::to_string(tasks[size_t(k)].second) + " thread " + std::to_string(t) + "/" + std::to_string(N) + " got " +
                                       show(res[size_t(t)][size_t(k)], 600) + " alone " + show(alone, 600));
      }
    }
  });
}
