// C30: an exception passes out of every operation, and nothing is leaked or damaged.
#include "outcome.h"
#include "feed.h"
#include "relax.h"
#include <json_struct/json_struct_diff.h>
#include <new>
using namespace vh;

// Every allocation is counted; one (or all from one on) can be made to fail.
static int64_t live = 0, made = 0, fail_at = -1;
static bool armed = false, stay = false;
static uint64_t injected = 0;
static void *take(size_t n)
{
  made++;
  if (armed && (made == fail_at || (stay && made > fail_at && fail_at > 0)))
  {
    injected++;
    return nullptr;
  }
  void *p = malloc(n ? n : 1);
  if (p)
    live++;
  return p;
}
static void give(void *p)
{
  if (p)
    live--;
  free(p);
}
void *operator new(size_t n)
{
  void *p = take(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n)
{
  void *p = take(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p); }

// Exceptions of the user's own code
struct Boom
{
  int n;
};
static int boom_at = -1, boom_seen = 0;
static void may_boom()
{
  if (++boom_seen == boom_at)
    throw Boom{boom_at};
}
struct Wild // a type whose handler may throw
{
  int64_t v = 0;
};
namespace JS
{
template <>
struct TypeHandler<Wild>
{
  static Error to(Wild &to, ParseContext &c)
  {
    may_boom();
    return TypeHandler<int64_t>::to(to.v, c);
  }
  static void from(const Wild &from, Token &token, Serializer &s)
  {
    may_boom();
    TypeHandler<int64_t>::from(from.v, token, s);
  }
};
} // namespace JS
struct WildBox
{
  std::string name;
  Wild w;
  std::vector<Wild> v;
  std::unique_ptr<Wild> u;
  std::map<std::string, Wild> m;
  std::vector<std::string> rest;
  JS_OBJ(name, w, v, u, m, rest);
};
struct Fn
{
  int sum = 0;
  std::string text(const std::string &s)
  {
    may_boom();
    return s + "!";
  }
  void add(int i)
  {
    may_boom();
    sum += i;
  }
  std::vector<std::string> many(const std::vector<std::string> &v)
  {
    may_boom();
    return v;
  }
  WildBox box(const WildBox &b)
  {
    may_boom();
    WildBox r;
    r.name = b.name;
    r.v = b.v;
    r.w = b.w;
    r.rest = b.rest;
    return r;
  }
  int none()
  {
    may_boom();
    return 4;
  }
  void tell(JS::CallFunctionErrorContext &c)
  {
    may_boom();
    c.setError("this call is of no use to anybody at all");
  }
  void look(const std::string &s, JS::CallFunctionContext &c)
  {
    may_boom();
    sum += int(s.size() + c.execution_list.size());
  }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(text), JS_FUNCTION(add), JS_FUNCTION_ALIASES(many, "lots", "plenty"), JS_FUNCTION(box), JS_FUNCTION(none), JS_FUNCTION(tell), JS_FUNCTION(look));
};
struct FnMore : Fn
{
  std::map<std::string, Wild> own(const std::map<std::string, Wild> &m, JS::CallFunctionErrorContext &c)
  {
    may_boom();
    if (m.empty())
      c.setError("nothing in the map that was passed");
    return m;
  }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER(Fn), JS_FUNCTION(own));
};

// One operation: run() may throw, after() is called when it did and must not.
struct Op
{
  std::string what, witness;
  bool calls_user = false;
  bool closes = false; // writes while an exception passes
  virtual ~Op() {}
  virtual std::string run() = 0;
  virtual std::string after() { return std::string(); } // something amiss
};
struct Parse : Op
{
  size_t which;
  std::string text;
  std::vector<Exact> bufs;
  std::vector<JS::Token> list;
  JS::ParseContext pc;
  size_t next = 0;
  bool tokens = false;
  ju::Opts o;
  std::string normal;
  Parse(Rng &r)
  {
    which = r.below(oc::ALL);
    if (which == ty::TYPES)
      text = ty::make_capture_doc(r).text;
    else if (r.chance(50))
      text = ref::print(oc::document(r, which), &r, int(r.below(3)));
    else
    {
      o = ju::Opts::from(unsigned(r.below(16)));
      rx::Printer p{r, o, o, r.range(5, 60)};
      p.sp(true);
      p.val(oc::document(r, which), ref::Tok(), false);
      text = p.out;
      o.apply(pc.tokenizer);
    }
    pc.allow_missing_members = !r.chance(20);
    pc.allow_unasigned_required_members = !r.chance(20);
    if (r.chance(10))
      pc.tokenizer.setErrorContextConfig(r.below(6), r.below(60));
    if (r.chance(25) && !text.empty())
      text[r.below(text.size())] = ",:{}[]\"\\/ a1\n-.e"[r.below(16)];
    auto parts = which < oc::OWNING && r.chance(50) ? split(text, cuts(r, text.size())) : std::vector<std::string>{text};
    for (auto &p : parts)
      bufs.emplace_back(p);
    tokens = parts.size() == 1 && r.chance(20);
    if (tokens)
    {
      JS::Tokenizer t;
      o.apply(t);
      t.addData(bufs[0].p, bufs[0].n);
      JS::Token k;
      while (t.nextToken(k) == JS::Error::NoError)
        list.push_back(k);
      if (list.empty())
        tokens = false;
    }
    calls_user = parts.size() > 1;
    if (r.chance(40))
    { // told of each buffer that is no longer needed
      std::function<void(const char *)> rel = [](const char *) { may_boom(); };
      pc.tokenizer.setReleaseCallback(rel);
      calls_user = true;
    }
    what = tokens ? "parse of recorded tokens" : parts.size() > 1 ? "parse in pieces" : "parse";
    what += " target " + std::to_string(which);
    witness = text;
    pc.tokenizer.setNeedMoreDataCallback([this](JS::Tokenizer &t) {
      if (next < bufs.size())
      {
        may_boom();
        t.addData(bufs[next].p, bufs[next].n);
        next++;
      }
    });
  }
  void reset()
  {
    pc.error = JS::Error::NoError;
    pc.missing_members.clear();
    pc.unassigned_required_members.clear();
    if (tokens)
      pc.tokenizer.resetData(&list, 0);
    else
      pc.tokenizer.resetData(bufs[0].p, bufs[0].n, 0);
    next = 1;
  }
  std::string run() override
  {
    reset();
    oc::Run go(pc);
    oc::with_target(which, go);
    if (go.out.err != JS::Error::NoError)
      go.out.text += pc.makeErrorString();
    return go.out.text;
  }
  std::string after() override // the same context again, now without failures
  {
    std::string s = run();
    if (normal.empty())
      normal = s;
    return s == normal ? std::string() : "the context used again gives " + show(s, 300) + " instead of " + show(normal, 300);
  }
};
template <class T>
struct Write : Op
{
  T v;
  JS::SerializerOptions so;
  Write(Rng &r, const char *name) : v(ty::Gen<T>::make(r, 2)), so(r.chance(50) ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty)
  {
    what = std::string("serialize ") + name;
    witness = JS::serializeStruct(v, so);
  }
  std::string run() override { return JS::serializeStruct(v, so); }
  std::string after() override { return JS::serializeStruct(v, so) == witness ? std::string() : "the object changed"; }
};
struct MakeWrite
{
  Rng &r;
  std::unique_ptr<Op> op;
  template <class T>
  void go(const char *n) { op.reset(new Write<T>(r, n)); }
};
struct Wilds : Op
{
  std::string text;
  Wilds(Rng &r)
  {
    std::string w;
    calls_user = true;
    text = "{\"name\":\"" + std::string(r.below(60), 'n') + "\",\"w\":1,\"v\":[";
    for (size_t i = 0, n = r.below(6); i < n; i++)
      text += (i ? ",\"" : "\"") + std::string("x"), text.resize(text.size() - 2), text += std::to_string(i);
    text += "],\"u\":4,\"m\":{\"a\":1,\"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\":2},\"unknown\":[{}],\"rest\":[\"" + std::string(r.below(40), 'r') + "\",\"\"]}";
    what = "handler that throws";
    witness = text;
  }
  WildBox kept;
  JS::ParseContext pc;
  std::string run() override
  {
    pc.tokenizer.resetData(text.data(), text.size(), 0);
    JS::Error e = pc.parseTo(kept);
    return std::to_string(int(e)) + JS::serializeStruct(kept);
  }
  std::string after() override
  {
    std::string s = JS::serializeStruct(kept); // whatever it holds, it is usable
    JS::ParseContext again(text);
    WildBox x;
    (void)again.parseTo(x);
    return std::string();
  }
};
struct Calls : Op
{
  std::string text, normal;
  bool prefilled, stop;
  Calls(Rng &r)
  {
    stop = r.chance(25);
    calls_user = true;
    what = "function calls";
    closes = true;
    prefilled = r.chance(50);
    text = "{";
    for (size_t i = 0, n = 1 + r.below(5); i < n; i++)
    {
      text += i ? "," : "";
      switch (r.below(12))
      {
      case 0: text += "\"text\":\"" + std::string(r.chance(30) ? 4080 + r.below(20) : r.below(80), 't') + "\""; break;
      case 1: text += "\"add\":7"; break;
      case 2: text += "\"many\":[\"" + std::string(r.below(80), 'm') + "\",\"x\"]"; break;
      case 3: text += "\"nothing\":{\"a\":[]}"; break;
      case 4: text += "\"add\":\"wrong\""; break;
      case 5: text += "\"none\":null"; break;
      case 6: text += "\"tell\":[]"; break;
      case 7: text += "\"look\":\"" + std::string(r.below(80), 'l') + "\""; break;
      case 8: text += "\"plenty\":[\"" + std::string(r.below(80), 'p') + "\"]"; break;
      case 9: text += r.chance(30) ? "\"own\":{}" : "\"own\":{\"a\":1,\"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\":2}"; break;
      default: text += "\"box\":{\"name\":\"" + std::string(r.below(80), 'b') + "\",\"w\":3,\"v\":[1,2],\"m\":{},\"u\":1,\"rest\":[\"q\"]}";
      }
    }
    text += "}";
    witness = text;
  }
  std::string run() override
  {
    FnMore f;
    std::string out;
    JS::Error e;
    std::string log;
    {
      JS::DefaultCallFunctionContext ctx(text.data(), text.size(), out);
      ctx.stop_execute_on_fail = stop;
      ctx.allow_missing = !stop;
      e = ctx.callFunctions(f);
      for (auto &x : ctx.execution_list)
        log += x.name + ":" + std::to_string(int(x.error)) + x.error_string.data + ";";
    }
    return std::to_string(int(e)) + " " + std::to_string(f.sum) + log + out;
  }
};
struct Reformat : Op
{
  std::string text;
  JS::SerializerOptions so;
  Reformat(Rng &r) : so(r.chance(50) ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty)
  {
    ref::GenOpt g;
    g.max_depth = 4;
    g.long_strings = 10;
    text = ref::print(ref::gen(r, g), &r, int(r.below(3)));
    if (r.chance(30))
    { // more than fits into the first buffer
      std::string all = "[" + text;
      while (all.size() < 6000 && text.size() > 2)
        all += "," + text;
      text = all + "]";
    }
    what = "reformat";
    witness = text;
  }
  std::string run() override
  {
    std::string out;
    JS::Error e = JS::reformat(text, out, so);
    return std::to_string(int(e)) + out;
  }
};
struct Maps : Op
{
  JS::Map m; // after a failure it can be parsed into again
  std::string text, name, add;
  int val;
  Maps(Rng &r)
  {
    ref::GenOpt g;
    g.max_depth = 3;
    ref::Val v;
    do
      v = ref::gen(r, g);
    while (v.k != ref::Obj);
    text = ref::print(v, &r, 0);
    add = r.chance(50) || v.o.empty() ? std::string(1 + r.below(40), 'k') : v.o[r.below(v.o.size())].first;
    name = std::string(r.below(50), 'z');
    val = int(r.below(1000));
    what = "map";
    witness = text;
  }
  std::string run() override
  {
    m = JS::Map();
    JS::ParseContext pc(text);
    if (pc.parseTo(m) != JS::Error::NoError)
      return "E";
    std::vector<std::string> data{"one", name, "three"};
    JS::ParseContext so;
    JS::Error e = m.setValue(add, so, data);
    JS::Error e2 = m.setValue(name + "q", so, val);
    std::string out = std::to_string(int(e)) + std::to_string(int(e2)) + JS::serializeStruct(m);
    JS::ParseContext cast;
    std::vector<std::string> back;
    e = m.castToType(add, cast, back);
    out += std::to_string(int(e)) + std::to_string(back.size());
    JS::Map copy = m;
    out += JS::serializeStruct(copy);
    return out;
  }
};
struct Pieces : Op // output in small buffers from a callback that may throw
{
  std::string text, out;
  std::vector<std::string> mem;
  JS::SerializerOptions so;
  size_t size;
  Pieces(Rng &r) : so(r.chance(50) ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty), size(1 + r.below(40))
  {
    ref::GenOpt g;
    g.max_depth = 4;
    text = ref::print(ref::gen(r, g), &r, 0);
    what = "output in pieces";
    witness = text;
    calls_user = true;
  }
  std::string run() override
  {
    out.clear();
    std::string buf(size, 0);
    JS::Serializer s;
    s.setOptions(so);
    s.setBuffer(&buf[0], size);
    s.setRequestBufferCallback([&](JS::Serializer &x) {
      may_boom();
      out.append(x.currentBuffer().buffer, x.currentBuffer().used);
      x.setBuffer(&buf[0], size);
    });
    JS::ParseContext pc(text);
    JS::JsonTokens t;
    if (pc.parseTo(t) != JS::Error::NoError)
      return "E";
    JS::Token k;
    JS::TypeHandler<JS::JsonTokens>::from(t, k, s);
    out.append(s.currentBuffer().buffer, s.currentBuffer().used);
    return out;
  }
};
struct Diffs : Op
{
  std::string a, b, c;
  Diffs(Rng &r)
  {
    ref::GenOpt g;
    g.max_depth = 3;
    a = ref::print(ref::gen(r, g), &r, int(r.below(3)));
    b = r.chance(40) ? a : ref::print(ref::gen(r, g), &r, int(r.below(3)));
    c = a;
    for (auto &x : c)
      if (x >= '0' && x <= '8' && r.chance(20))
        x++;
    what = "diff";
    witness = a + " | " + b + " | " + c;
  }
  std::string run() override
  {
    JS::DiffContext d(a);
    std::string out;
    for (const std::string *t : {&b, &c}) // the texts stay: the tokens refer to them
    {
      size_t at = d.diff(*t);
      out += std::to_string(int64_t(at)) + ":";
      if (at < d.diffs.size())
        out += std::to_string(d.diffs[at].diffs.size()) + ";";
    }
    if (d.diffs.size() && d.error == JS::DiffError::NoError && d.diffs[0].error == JS::DiffError::NoError)
    {
      d.changeBase(0);
      out += std::to_string(d.diffs[0].diff_count);
      d.reset(b, d.options);
      size_t at = d.diff(c);
      if (at < d.diffs.size())
        out += std::to_string(d.diffs[at].diff_count);
    }
    return out;
  }
};
struct Meta : Op
{
  std::string text;
  Meta(Rng &r)
  {
    ref::GenOpt g;
    g.max_depth = 5;
    text = ref::print(ref::gen(r, g), &r, 0);
    what = "metadata";
    witness = text;
  }
  std::string run() override
  {
    JS::ParseContext pc(text);
    JS::JsonTokens t;
    if (pc.parseTo(t) != JS::Error::NoError)
      return "E";
    return std::to_string(JS::metaForTokens(t).size());
  }
};

static std::unique_ptr<Op> choose(Rng &r)
{
  switch (r.below(14))
  {
  default: return std::unique_ptr<Op>(new Parse(r));
  case 0:
  case 1: {
    MakeWrite m{r, nullptr};
    ty::with_type(r.below(ty::TYPES), m);
    return std::move(m.op);
  }
  case 2: return std::unique_ptr<Op>(new Wilds(r));
  case 3: return std::unique_ptr<Op>(new Calls(r));
  case 4: return std::unique_ptr<Op>(new Reformat(r));
  case 5: return std::unique_ptr<Op>(new Maps(r));
  case 6: return std::unique_ptr<Op>(new Diffs(r));
  case 7: return std::unique_ptr<Op>(new Meta(r));
  case 8: return std::unique_ptr<Op>(new Pieces(r));
  }
}
struct Tally
{
  uint64_t failures = 0, passed = 0, user = 0;
  const char *key = nullptr; // of a violation
};
// Everything allocated in here has to be gone afterwards, except what says is told.
static void trial(Rng &r, Tally &t, bool persistent, std::string &says)
{
  std::unique_ptr<Op> op = choose(r);
  boom_at = -1;
  boom_seen = 0;
  op->run();
  op->after();
  boom_seen = 0;
  int64_t before = made;
  std::string normal = op->run();
  int64_t n = made - before;
  int calls = boom_seen;
  auto bad = [&](const char *key, const std::string &how) {
    t.key = key;
    says = how + " of " + op->what + " on " + show(op->witness, 800);
  };
  for (int round = 0; round < 12 && n > 0; round++) // memory runs out at the k-th allocation
  {
    int64_t k = n <= 12 ? round + 1 : 1 + int64_t(r.below(uint64_t(n)));
    if (k > n)
      break;
    std::string got;
    bool thrown = false, other = false;
    uint64_t inj = injected;
    fail_at = made + k;
    stay = persistent && !op->closes;
    armed = true;
    try
    {
      got = op->run();
    }
    catch (const std::bad_alloc &)
    {
      thrown = true;
    }
    catch (...)
    {
      other = true;
    }
    armed = false;
    t.failures += injected - inj;
    t.passed += thrown;
    std::string how = "allocation " + std::to_string(k) + " of " + std::to_string(n) + (persistent ? " and all later" : "");
    if (other)
      return bad("exception-changed", how);
    if (!thrown && injected > inj && got != normal)
      return bad("failure-swallowed", "gives " + show(got, 300) + " instead of " + show(normal, 300) + " " + how);
    std::string odd = op->after();
    if (!odd.empty())
      return bad("damaged", odd + " " + how);
  }
  for (int round = 0; round < 4 && calls > 0; round++) // the user's code throws
  {
    int k = 1 + int(r.below(uint64_t(calls)));
    bool thrown = false;
    boom_seen = 0;
    boom_at = k;
    try
    {
      op->run();
    }
    catch (const Boom &b)
    {
      thrown = b.n == k;
    }
    catch (...)
    {
    }
    boom_at = -1;
    t.user += thrown;
    std::string how = "user exception " + std::to_string(k) + " of " + std::to_string(calls);
    if (!thrown)
      return bad("user-exception-lost", how);
    std::string odd = op->after();
    if (!odd.empty())
      return bad("damaged", odd + " " + how);
  }
  says = op->what + ": " + op->witness;
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C30", [](uint64_t idx, Rng &r) {
    static FILE *quiet = fopen("/dev/null", "w");
    (void)quiet;
    Tally t;
    bool persistent = r.chance(30); // or just one allocation fails
    Rng copy = r;
    {
      std::unique_ptr<Op> first = choose(copy); // statics of the operation are set up before the balance is taken
      first->run();
      first->after();
    }
    std::string says;
    int64_t before = live;
    trial(r, t, persistent, says);
    int64_t left = live - before;
    left -= says.capacity() > 15 ? 1 : 0;
    eval();
    seen(hash(says));
    if (idx < 3)
      sample(says);
    count("operations");
    count(says.substr(0, says.find_first_of(" :")) + "_operations");
    count("allocation_failures", t.failures);
    count("exceptions_passed", t.passed);
    count("user_exceptions", t.user);
    if (t.key)
      return violation(t.key, says);
    if (left)
      return violation("leak", std::to_string(left) + " allocations: " + says);
  });
}
