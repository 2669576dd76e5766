// C01: the targets outside the catalogue of types.
#include "capt.h"
#include "feed.h"
#include <json_struct/json_struct_diff.h>
#include "c01.h"
using namespace vh;

namespace
{
struct Refs
{
  int first = 0;
  JS::JsonObjectRef obj;
  JS::JsonArrayRef arr;
  JS::JsonObjectOrArrayRef either;
  JS_OBJ(first, obj, arr, either);
};
struct Strict
{
  int a = 0;
  std::string text;
  JS::Optional<double> o;
  std::vector<int> kids;
  int arr2[2][2] = {{0, 0}, {0, 0}};
  JS_OBJ(a, text, o, kids, arr2);
};
struct Fns
{
  int n = 0;
  int add(const int &i) { return n += i; }
  std::string text(const std::string &s) { return s; }
  void a(const std::vector<int> &v) { n += int(v.size()); }
  void name(const ty::Small &s) { n += int(s.text.size()); }
  ty::Small kids() { return ty::Small(); }
  void fail(JS::CallFunctionErrorContext &c) { c.setError("no"); }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(add), JS_FUNCTION_ALIASES(text, "value", "id"), JS_FUNCTION(a), JS_FUNCTION(name), JS_FUNCTION(kids), JS_FUNCTION(fail));
};
std::string whole(const Job &j)
{
  std::string s;
  for (auto &p : j.parts)
    s += p;
  return s;
}
template <class T>
int typed(const Job &j)
{
  T v{};
  int err = 0;
  for (int round = 0; round < ((j.flags & 4) ? 2 : 1); round++)
  {
    fd::Feeder f(j.parts, fd::Mode(j.delivery), j.seed);
    JS::ParseContext pc;
    ju::Opts::from(j.opts).apply(pc.tokenizer);
    pc.allow_missing_members = !(j.flags & 1);
    pc.allow_unasigned_required_members = !(j.flags & 2);
    f.attach(pc.tokenizer);
    JS::Error e = pc.parseTo(v);
    err = int(e);
    if (e != JS::Error::NoError && pc.makeErrorString().empty())
      err = -1;
    if (e == JS::Error::NoError && !f.bad.empty())
      err = -2;
  }
  if (err == 0)
    JS::serializeStruct(v);
  return err;
}
// targets that refer to the text: one buffer that outlives them
template <class T, class F>
int referring(const Job &j, F after)
{
  Exact x(whole(j));
  T v;
  JS::ParseContext pc(x.p, x.n);
  ju::Opts::from(j.opts).apply(pc.tokenizer);
  JS::Error e = pc.parseTo(v);
  if (e != JS::Error::NoError)
    return pc.makeErrorString().empty() ? -1 : int(e);
  after(v);
  return 0;
}
} // namespace
int parse_other(int which, const Job &j)
{
  switch (which % OTHERS)
  {
  case 0: return typed<ty::Captures>(j);
  case 1: return typed<JS::JsonObject>(j);
  case 2: return typed<JS::JsonArray>(j);
  case 3: return typed<JS::JsonObjectOrArray>(j);
  case 4: return referring<Refs>(j, [](Refs &r) { JS::serializeStruct(r); });
  case 5: return referring<JS::JsonTokens>(j, [](JS::JsonTokens &t) {
    JS::metaForTokens(t);
    JS::serializeStruct(t);
  });
  case 6:
  case 7:
  case 8: return referring<JS::Map>(j, [&](JS::Map &m) {
    JS::ParseContext pc;
    m.castTo<int>("a", pc);
    m.castTo<std::string>("name", pc);
    std::vector<std::string> names;
    for (auto &t : m)
      names.push_back(std::string(t.name.data, t.name.size));
    Rng r(j.seed);
    for (auto &n : names)
    {
      int i = 0;
      std::string s;
      std::vector<int> v;
      ty::Small sm;
      double d = 0;
      JS::ParseContext p2;
      switch (r.below(5))
      {
      case 0: m.castToType(n, p2, i); break;
      case 1: m.castToType(n, p2, s); break;
      case 2: m.castToType(n, p2, v); break;
      case 3: m.castToType(n, p2, sm); break;
      default: m.castToType(n, p2, d);
      }
    }
    ty::Small sm;
    m.castToType(pc, sm);
    std::string s = "new \"value\"";
    m.setValue("a", pc, s);
    m.setValue("brand new", pc, sm);
    if (!names.empty())
      m.setValue(r.pick(names), pc, s);
    JS::serializeStruct(m);
  });
  case 9: return typed<std::string>(j);
  case 10: return typed<int>(j);
  case 11: return typed<double>(j);
  case 12: return typed<bool>(j);
  case 13: return typed<Strict>(j);
  case 14: {
    fd::Feeder f(j.parts, fd::Mode(j.delivery), j.seed);
    Fns t;
    std::string out;
    JS::DefaultCallFunctionContext ctx(out);
    ju::Opts::from(j.opts).apply(ctx.p_context.tokenizer);
    ctx.stop_execute_on_fail = j.flags & 1;
    ctx.allow_missing = j.flags & 2;
    f.attach(ctx.p_context.tokenizer);
    JS::Error e = ctx.callFunctions(t);
    JS::serializeStruct(ctx.execution_list);
    return int(e);
  }
  case 15: {
    std::string t = whole(j), out;
    JS::Error e = (j.flags & 1) ? JS::reformat(t, out, JS::SerializerOptions(JS::SerializerOptions::Compact)) : JS::reformat(t.data(), t.size(), out);
    return int(e);
  }
  case 16:
  case 17:
  case 18: { // tokens only, with an owner that adds data late
    fd::Feeder f(j.parts, (j.flags & 1) ? fd::AddLater : fd::Mode(j.delivery), j.seed);
    JS::Tokenizer t;
    ju::Opts::from(j.opts).apply(t);
    f.attach(t);
    JS::Token k;
    JS::Error e;
    size_t sum = 0, n = 0;
    for (;;)
    {
      e = t.nextToken(k);
      if (e == JS::Error::NoError)
      {
        for (size_t i = 0; i < k.name.size; i++)
          sum += (unsigned char)k.name.data[i];
        for (size_t i = 0; i < k.value.size; i++)
          sum += (unsigned char)k.value.data[i];
        if (n++ > 4 * f.total() + 64)
          return -4;
        continue;
      }
      if (e == JS::Error::NeedMoreData && (j.flags & 1) && f.next < f.parts.size())
      {
        f.give(t);
        continue;
      }
      break;
    }
    t.makeErrorString();
    return int(e) + (sum == 1 ? 0 : 0);
  }
  case 19: return typed<std::vector<JS::JsonObjectOrArray>>(j);
  case 20: return typed<std::map<std::string, JS::JsonObject>>(j);
  case 21: return referring<std::vector<JS::Map>>(j, [](std::vector<JS::Map> &v) {
    for (auto &m : v)
      JS::serializeStruct(m);
  });
  case 22: return typed<std::vector<std::vector<std::vector<std::string>>>>(j);
  case 23: return typed<std::vector<Colour>>(j);
  case 24: return typed<std::vector<std::chrono::system_clock::time_point>>(j);
  case 25: return typed<std::tuple<int, std::tuple<std::string, bool>, std::vector<int>>>(j);
  case 26: return typed<std::array<std::array<int, 2>, 3>>(j);
  case 27: return typed<JS::OneOrMany<ty::Small>>(j);
  case 28: return typed<std::vector<JS::OptionalChecked<std::vector<int>>>>(j);
  case 29: return typed<std::vector<float>>(j);
  case 30: return typed<std::vector<unsigned char>>(j);
  case 31: return typed<std::vector<int64_t>>(j);
  case 32: return typed<std::vector<JS::NullableChecked<ty::Small>>>(j);
  default: return typed<std::map<std::string, std::map<std::string, std::vector<double>>>>(j);
  }
}
