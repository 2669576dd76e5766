// C16: remote calls. Every function of the container logs its execution; an independent model interprets the
// call document against a hand-written function table and predicts the log, the results and the execution list.
#include "jsutil.h"
using namespace vh;
using ref::Val;

struct Arg
{
  int a = -1;
  JS::Optional<int> b = -1;
  JS_OBJ(a, b);
};
struct Plain // without initialisers: what the call does not name is zero, not left-over memory
{
  int x, y;
  std::vector<int> z;
  JS_OBJ(x, y, z);
};
static std::vector<std::string> LOG;
static size_t CALLS;             // calls of functions that can raise an error
static std::vector<bool> RAISE;  // whether the n-th such call raises one
static bool raise() { return RAISE[CALLS++ % RAISE.size()]; }
static std::string msg(size_t n) { return "boom" + std::to_string(n) + "!"; }
static void log(const std::string &f, const std::string &a = "") { LOG.push_back(f + "(" + a + ")"); }
static std::string str(const std::vector<int> &v)
{
  std::string s;
  for (int x : v)
    s += std::to_string(x) + ",";
  return s;
}
struct Base0
{
  void base_void() { log("base_void"); }
  int base_int(int x)
  {
    log("base_int", std::to_string(x));
    return x + 1;
  }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(base_void), JS_FUNCTION_ALIASES(base_int, "bi", "alias_that_derived_has_as_name"));
};
struct Base1 : Base0
{
  std::string mid_str(const std::string &s)
  {
    log("mid_str", s);
    return s + "?";
  }
  void mid_err(JS::CallFunctionErrorContext &e)
  {
    log("mid_err");
    if (raise())
      e.setError(msg(CALLS));
  }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER(Base0), JS_FUNCTION(mid_str), JS_FUNCTION(mid_err));
};
struct Base2
{
  double side(double d)
  {
    log("side", std::to_string(d));
    return d * 2;
  }
};
JS_FUNC_OBJ_EXTERNAL(Base2, side)
struct C : Base1, Base2
{
  int ii(int x)
  {
    log("ii", std::to_string(x));
    return -x;
  }
  void vi(const int &x) { log("vi", std::to_string(x)); }
  int iv()
  {
    log("iv");
    return 4711;
  }
  void vv() { log("vv"); }
  int ii1(int x, JS::CallFunctionErrorContext &e)
  {
    log("ii1", std::to_string(x));
    if (raise())
      e.setError(msg(CALLS));
    return x + 10;
  }
  void vi1(int x, JS::CallFunctionErrorContext &e)
  {
    log("vi1", std::to_string(x));
    if (raise())
      e.setError(msg(CALLS));
  }
  std::string sv1(JS::CallFunctionErrorContext &e)
  {
    log("sv1");
    if (raise())
      e.setError(msg(CALLS));
    return "sv1 \"result\"";
  }
  std::vector<int> arr2(const std::vector<int> &v, JS::CallFunctionContext &c)
  {
    log("arr2", str(v));
    if (raise())
      c.error_context.setError(msg(CALLS));
    return v;
  }
  void varr2(const std::vector<int> &v, JS::CallFunctionContext &c)
  {
    log("varr2", str(v));
    if (raise())
      c.error_context.setError(msg(CALLS));
  }
  bool bv2(JS::CallFunctionContext &c)
  {
    log("bv2");
    if (raise())
      c.error_context.setError(msg(CALLS));
    return true;
  }
  void vv2(JS::CallFunctionContext &c)
  {
    log("vv2");
    if (raise())
      c.error_context.setError(msg(CALLS));
  }
  Arg obj(const Arg &x)
  {
    log("obj", std::to_string(x.a) + "/" + std::to_string(x.b.data));
    return x;
  }
  static std::string show(const Plain &p) { return std::to_string(p.x) + "/" + std::to_string(p.y) + "/" + std::to_string(p.z.size()); }
  std::string pl0(const Plain &p)
  {
    log("pl0", show(p));
    return show(p);
  }
  std::string pl1(const Plain &p, JS::CallFunctionErrorContext &e)
  {
    log("pl1", show(p));
    if (raise())
      e.setError(msg(CALLS));
    return show(p);
  }
  std::string pl2(Plain p, JS::CallFunctionContext &c)
  {
    log("pl2", show(p));
    if (raise())
      c.error_context.setError(msg(CALLS));
    return show(p);
  }
  void vpl0(Plain p) { log("vpl0", show(p)); }
  void vpl1(const Plain &p, JS::CallFunctionErrorContext &e)
  {
    log("vpl1", show(p));
    if (raise())
      e.setError(msg(CALLS));
  }
  void vpl2(const Plain &p, JS::CallFunctionContext &c)
  {
    log("vpl2", show(p));
    if (raise())
      c.error_context.setError(msg(CALLS));
  }
  void alias_that_derived_has_as_name() { log("own_alias"); }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER(Base1, Base2), JS_FUNCTION(ii), JS_FUNCTION_WITH_NAME(vi, "v i"), JS_FUNCTION(iv), JS_FUNCTION(vv),
                                   JS_FUNCTION_ALIASES(ii1, "ii1_alias", "i"), JS_FUNCTION(vi1), JS_FUNCTION(sv1), JS_FUNCTION(arr2), JS_FUNCTION(varr2),
                                   JS_FUNCTION_WITH_NAME_ALIASES(bv2, "bv_2", "bv2"), JS_FUNCTION(vv2), JS_FUNCTION(obj), JS_FUNCTION(pl0), JS_FUNCTION(pl1), JS_FUNCTION(pl2),
                                   JS_FUNCTION(vpl0), JS_FUNCTION(vpl1), JS_FUNCTION(vpl2),
                                   JS_FUNCTION(alias_that_derived_has_as_name));
};
// a container whose functions are all inherited
struct OnlySuper : Base1
{
  JS_FUNCTION_CONTAINER_WITH_SUPER_WITHOUT_MEMBERS(JS_SUPER(Base1));
};

struct F
{
  const char *id;
  std::vector<std::string> names;
  char arg;    // i d s v(ector) o(bject) 0
  char ret;    // i d s v o b 0
  bool raises; // takes a context and may raise an error
};
static const std::vector<F> fBase0 = {{"base_void", {"base_void"}, '0', '0', false}, {"base_int", {"base_int", "bi", "alias_that_derived_has_as_name"}, 'i', 'i', false}};
static const std::vector<F> fBase1 = {{"mid_str", {"mid_str"}, 's', 's', false}, {"mid_err", {"mid_err"}, '0', '0', true}, fBase0[0], fBase0[1]};
static const std::vector<F> fC = {{"ii", {"ii"}, 'i', 'i', false},
                                  {"vi", {"v i"}, 'i', '0', false},
                                  {"iv", {"iv"}, '0', 'i', false},
                                  {"vv", {"vv"}, '0', '0', false},
                                  {"ii1", {"ii1", "ii1_alias", "i"}, 'i', 'i', true},
                                  {"vi1", {"vi1"}, 'i', '0', true},
                                  {"sv1", {"sv1"}, '0', 's', true},
                                  {"arr2", {"arr2"}, 'v', 'v', true},
                                  {"varr2", {"varr2"}, 'v', '0', true},
                                  {"bv2", {"bv_2", "bv2"}, '0', 'b', true},
                                  {"vv2", {"vv2"}, '0', '0', true},
                                  {"obj", {"obj"}, 'o', 'o', false},
                                  {"pl0", {"pl0"}, 'p', 's', false},
                                  {"pl1", {"pl1"}, 'p', 's', true},
                                  {"pl2", {"pl2"}, 'p', 's', true},
                                  {"vpl0", {"vpl0"}, 'p', '0', false},
                                  {"vpl1", {"vpl1"}, 'p', '0', true},
                                  {"vpl2", {"vpl2"}, 'p', '0', true},
                                  {"own_alias", {"alias_that_derived_has_as_name"}, '0', '0', false},
                                  fBase1[0], fBase1[1], fBase1[2], fBase1[3],
                                  {"side", {"side"}, 'd', 'd', false}};
static const F *find(const std::vector<F> &t, const std::string &n)
{
  for (auto &f : t)
    if (f.names[0] == n)
      return &f;
  for (auto &f : t)
    for (size_t i = 1; i < f.names.size(); i++)
      if (f.names[i] == n)
        return &f;
  return nullptr;
}
static Val num(const std::string &s)
{
  Val v;
  v.k = ref::Num;
  v.raw = s;
  return v;
}
static Val sval(const std::string &raw)
{
  Val v;
  v.k = ref::Str;
  v.raw = raw;
  return v;
}
static Val any(Rng &r)
{
  ref::GenOpt o;
  o.max_depth = 3;
  o.max_width = 3;
  Val v = ref::gen(r, o);
  if (r.chance(40))
    switch (r.below(4))
    {
    case 0: return num("12.5");
    case 1: return sval("}]");
    case 2: v = Val(); break;
    default:
      v = Val();
      v.k = ref::Bool;
    }
  return v;
}
struct Entry
{
  std::string name;
  Val arg;
  const F *f;
  bool good;           // the argument fits
  std::string logged;  // log line when run
  Val result;
  std::vector<std::string> missing, unassigned;
};
static Entry make(Rng &r, const std::vector<F> &t)
{
  Entry e;
  e.good = true;
  if (r.chance(15))
  {
    static const char *unk[] = {"", "i_", "iii", "vv3", "VV", "base", "ii1_alia", "nope", "vi"};
    do
    {
      e.name = r.pick(unk);
    } while (find(t, e.name));
    e.f = nullptr;
    e.arg = any(r);
    return e;
  }
  const F &pick = r.pick(t);
  e.name = r.pick(pick.names);
  e.f = find(t, e.name);
  const F &f = *e.f;
  bool bad = r.chance(15);
  std::string a;
  Val &v = e.arg;
  Val cont;
  cont.k = r.chance(50) ? ref::Arr : ref::Obj;
  switch (f.arg)
  {
  case '0': v = any(r); break;
  case 'i':
  {
    int x = int(r.below(2000)) - 1000;
    a = std::to_string(x);
    v = num(a);
    e.result = num(std::string(f.id) == "base_int" ? std::to_string(x + 1) : std::string(f.id) == "ii1" ? std::to_string(x + 10) : std::to_string(-x));
    if (bad)
    {
      e.good = false;
      v = cont;
      if (v.k == ref::Arr)
        v.a.push_back(any(r));
      else
        v.o.emplace_back("a", any(r));
    }
    break;
  }
  case 'd':
  {
    int x = int(r.below(200)) - 100;
    a = std::to_string(x / 4.0);
    v = num(a);
    e.result = num("~");
    e.result.num = x / 2.0;
    if (bad)
    {
      e.good = false;
      v = cont;
    }
    break;
  }
  case 's':
  {
    a = r.chance(50) ? "plain" : "quote \" and \\ end";
    v = sval(ref::encode(a));
    e.result = sval(ref::encode(a + "?"));
    if (bad)
    {
      e.good = false;
      v = Val();
      v.k = ref::Arr;
      v.a.push_back(any(r));
    }
    break;
  }
  case 'v':
  {
    v.k = ref::Arr;
    for (int n = r.range(0, 4); n > 0; n--)
    {
      std::string x = std::to_string(r.below(100));
      a += x + ",";
      v.a.push_back(num(x));
    }
    e.result = v;
    if (bad)
    {
      e.good = false;
      if (r.chance(50))
      {
        Val b;
        b.k = ref::Arr;
        b.a.push_back(any(r));
        v.a.insert(v.a.begin() + long(r.below(v.a.size() + 1)), b);
      }
      else
        v = num("3");
    }
    break;
  }
  case 'p':
  {
    v.k = ref::Obj;
    int p[3] = {0, 0, 0};
    static const char *nm[3] = {"x", "y", "z"};
    for (int k = 0; k < 3; k++)
    {
      if (r.chance(40))
      {
        e.unassigned.push_back(nm[k]);
        continue;
      }
      p[k] = int(r.below(k == 2 ? 4 : 1000));
      Val y = num(std::to_string(p[k]));
      if (k == 2)
      {
        y = Val();
        y.k = ref::Arr;
        y.a.assign(size_t(p[k]), num("5"));
      }
      v.o.insert(v.o.begin() + long(r.below(v.o.size() + 1)), {nm[k], y});
    }
    a = std::to_string(p[0]) + "/" + std::to_string(p[1]) + "/" + std::to_string(p[2]);
    e.result = sval(a);
    if (bad)
    {
      e.good = false;
      v = num("3");
      e.unassigned.clear();
    }
    break;
  }
  case 'o':
  {
    v.k = ref::Obj;
    int x = -1, y = -1;
    if (r.chance(80))
    {
      x = int(r.below(100));
      v.o.emplace_back("a", num(std::to_string(x)));
    }
    else
      e.unassigned.push_back("a");
    if (r.chance(50))
    {
      y = int(r.below(100));
      v.o.emplace_back("b", num(std::to_string(y)));
    }
    if (r.chance(30))
    {
      e.missing.push_back("zz");
      v.o.emplace_back("zz", any(r));
    }
    a = std::to_string(x) + "/" + std::to_string(y);
    e.result.k = ref::Obj;
    e.result.o.emplace_back("a", num(std::to_string(x)));
    e.result.o.emplace_back("b", num(std::to_string(y)));
    if (bad)
    {
      e.good = false;
      if (r.chance(50))
        v = num("3");
      else
      {
        Val b;
        b.k = ref::Arr;
        b.a.push_back(any(r));
        v.o.insert(v.o.begin(), {"a", b});
        e.missing.clear();
        e.unassigned.clear();
      }
    }
    break;
  }
  }
  if (f.arg == '0')
  {
    if (f.ret == 'i')
      e.result = num("4711");
    else if (f.ret == 's')
      e.result = sval(ref::encode("sv1 \"result\""));
    else if (f.ret == 'b')
    {
      e.result.k = ref::Bool;
      e.result.b = true;
    }
  }
  e.logged = std::string(f.id) + "(" + a + ")";
  return e;
}
struct Want
{
  std::vector<std::string> log;
  Val results;
  struct Exec
  {
    std::string name;
    int kind; // 0 ok, 1 unknown function, 2 bad argument, 3 raised
    std::string message;
    std::vector<std::string> missing, unassigned;
  };
  std::vector<Exec> exec;
  bool failed = false;
};
static std::string join(const std::vector<std::string> &v)
{
  std::string s;
  for (auto &x : v)
    s += x + " ";
  return s;
}
template <class T>
static void one(Rng &r, const std::vector<F> &table, const char *tn)
{
  std::vector<Entry> es;
  size_t n = r.chance(5) ? 0 : r.chance(10) ? r.below(60) : 1 + r.below(8);
  Val doc;
  doc.k = ref::Obj;
  for (size_t i = 0; i < n; i++)
  {
    es.push_back(make(r, table));
    doc.o.emplace_back(es.back().name, es.back().arg);
  }
  std::string text = ref::print(doc, &r, int(r.below(3)));
  bool stop = r.chance(40), allow = r.chance(40);
  int rate = r.chance(40) ? 0 : int(r.below(60));
  RAISE.clear();
  for (int i = 0; i < 64; i++)
    RAISE.push_back(r.chance(rate));
  // model
  Want w;
  w.results.k = ref::Arr;
  size_t calls = 0;
  for (auto &e : es)
  {
    Want::Exec x;
    x.name = e.name;
    x.kind = 0;
    if (!e.f)
      x.kind = 1;
    else if (!e.good)
      x.kind = 2;
    else
    {
      w.log.push_back(e.logged);
      x.missing = e.missing;
      x.unassigned = e.unassigned;
      if (e.f->raises)
      {
        if (RAISE[calls % RAISE.size()])
        {
          x.kind = 3;
          x.message = msg(calls + 1);
        }
        calls++;
      }
      if (!x.kind && e.f->ret != '0')
        w.results.a.push_back(e.result);
    }
    w.exec.push_back(x);
    if (stop && x.kind && !(x.kind == 1 && allow))
    {
      w.failed = true;
      break;
    }
  }
  // run
  bool cut = r.chance(15);
  std::string input = text;
  if (cut)
    input = text.substr(0, r.below(text.find_last_of('}') + 1));
  bool mutated = !cut && r.chance(12);
  if (mutated)
    input[r.below(input.size())] = "{}[],:\"x1 "[r.below(10)];
  std::vector<size_t> cu;
  if (r.chance(30))
    cu = cuts(r, input.size());
  std::vector<std::string> parts = split(input, cu);
  std::vector<Exact> bufs;
  bufs.reserve(parts.size());
  LOG.clear();
  CALLS = 0;
  T t;
  std::string out;
  JS::DefaultCallFunctionContext ctx(out);
  for (auto &p : parts)
    bufs.emplace_back(p);
  std::vector<JS::Token> recorded;
  bool from_tokens = !cut && !mutated && parts.size() == 1 && r.chance(25);
  if (from_tokens)
  {
    JS::Tokenizer tk;
    tk.addData(bufs[0].p, bufs[0].n);
    JS::Token k;
    while (tk.nextToken(k) == JS::Error::NoError)
      recorded.push_back(k);
    ctx.p_context.tokenizer.addData(&recorded);
    count("calls_from_recorded_tokens");
  }
  else
    for (auto &b : bufs)
      ctx.p_context.tokenizer.addData(b.p, b.n);
  ctx.stop_execute_on_fail = stop;
  ctx.allow_missing = allow;
  JS::Error err = ctx.callFunctions(t);
  eval();
  count("calls_observed", LOG.size());
  count("results_observed", w.results.a.size());
  if (n > 0)
    seen(input);
  sample(input);
  std::string info = std::string(tn) + " stop=" + (stop ? "1" : "0") + " allow_missing=" + (allow ? "1" : "0") + " doc=" + show(input, 1200) + " cuts=" + showcuts(cu) + (from_tokens ? " from recorded tokens" : "") +
                     " err=" + std::to_string(int(err)) + " log=" + join(LOG).substr(0, 500);
  Val got;
  std::string perr;
  if (!out.empty() && !ref::parse(out, got, &perr))
  {
    violation("results-malformed", info + " out=" + show(out, 500) + " " + perr);
    return;
  }
  if (mutated)
  {
    count("mutated_documents"); // anything may have been called, but nothing may crash and the results stay well-formed
    return;
  }
  if (cut)
  {
    count("truncated_documents");
    if (LOG.size() > w.log.size() || !std::equal(LOG.begin(), LOG.end(), w.log.begin()))
      violation("truncated-log-not-prefix", info + " want=" + join(w.log));
    if (err == JS::Error::NoError)
      violation("truncated-no-error", info);
    return;
  }
  if (LOG != w.log)
  {
    violation("call-log", info + " want=" + join(w.log).substr(0, 800));
    return;
  }
  if ((err != JS::Error::NoError) != w.failed)
    violation("return-code", info);
  std::string why;
  if (out.empty() || !ref::same(w.results, got, "", &why))
    violation("results", info + " out=" + show(out, 500) + " want=" + show(ref::print(w.results), 500) + " " + why);
  if (ctx.execution_list.size() != w.exec.size())
  {
    violation("execution-list-size", info + " got " + std::to_string(ctx.execution_list.size()) + " want " + std::to_string(w.exec.size()));
    return;
  }
  count("executions_compared", w.exec.size());
  for (size_t i = 0; i < w.exec.size(); i++)
  {
    auto &g = ctx.execution_list[i];
    auto &x = w.exec[i];
    std::string at = " entry " + std::to_string(i) + " " + g.name + " error=" + std::to_string(int(g.error)) + " text=" + show(g.error_string.data, 300);
    count(x.kind == 0 ? "entries_ok" : x.kind == 1 ? "entries_unknown" : x.kind == 2 ? "entries_bad_argument" : "entries_raised");
    if (g.name != x.name)
      violation("execution-name", info + at + " want " + x.name);
    bool ok = x.kind == 0   ? g.error == JS::Error::NoError
              : x.kind == 1 ? g.error == JS::Error::MissingFunction
              : x.kind == 3 ? g.error == JS::Error::UserDefinedErrors
                            : (g.error != JS::Error::NoError && g.error != JS::Error::MissingFunction);
    if (!ok)
      violation("execution-error", info + at + " want kind " + std::to_string(x.kind));
    if (x.kind == 3 && g.error_string.data.find(x.message) == std::string::npos)
      violation("execution-message", info + at + " want " + x.message);
    if (x.kind != 3 && g.error_string.data.find("boom") != std::string::npos)
      violation("execution-stale-message", info + at);
    if (x.kind == 0 && !g.error_string.data.empty())
      violation("execution-text-without-error", info + at);
    if (x.kind != 0 && g.error_string.data.empty())
      violation("execution-error-without-text", info + at);
    std::sort(g.unassigned_required_members.data.begin(), g.unassigned_required_members.data.end());
    std::sort(x.unassigned.begin(), x.unassigned.end());
    if (x.kind == 0 || x.kind == 3)
      if (g.missing_members.data != x.missing || g.unassigned_required_members.data != x.unassigned)
        violation("execution-members", info + at + " missing " + join(g.missing_members.data) + " unassigned " + join(g.unassigned_required_members.data));
  }
}
struct Deep
{
  std::string log;
  void text(const std::string &s) { log += "text(" + s + ")"; }
  void any(const JS::JsonArray &a) { log += "any(" + std::to_string(a.data.size()) + ")"; }
  void last(const int &i) { log += "last(" + std::to_string(i) + ")"; }
  JS_FUNC_OBJ(text, any, last);
};
// arguments nested deeper than small counters reach: skipped, refused or taken, the next entry still runs
static void deep(Rng &r)
{
  size_t n = r.chance(60) ? 65530 + r.below(12) : 30000 + r.below(110000);
  std::string arg = std::string(n, '[') + std::string(n, ']');
  const char *names[] = {"nobody", "text", "any"};
  size_t k = r.below(3);
  std::string doc = std::string("{\"") + names[k] + "\":" + arg + ",\"last\":7}";
  Exact x(doc);
  Deep d;
  std::string out;
  JS::DefaultCallFunctionContext ctx(x.p, x.n, out);
  JS::Error e = ctx.callFunctions(d);
  std::string want = (k == 2 ? "any(" + std::to_string(2 * n) + ")" : std::string()) + "last(7)";
  eval();
  count("deep_arguments");
  if (d.log != want || e != JS::Error::NoError)
    violation("deep-arguments", std::string(names[k]) + " nested " + std::to_string(n) + " error " + std::to_string(int(e)) + " ran " + d.log + " instead of " + want);
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C16", [](uint64_t idx, Rng &r) {
    // the library prints a remark for data given to a void function; sanitizer reports bypass the stream
    static FILE *quiet = fopen("/dev/null", "w");
    stderr = quiet;
    if (idx % 1500 == 11)
      return deep(r);
    switch (r.below(6))
    {
    case 0: one<Base1>(r, fBase1, "Base1"); break;
    case 1: one<OnlySuper>(r, fBase1, "OnlySuper"); break;
    default: one<C>(r, fC, "C");
    }
  });
}
