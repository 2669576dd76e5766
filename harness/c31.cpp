// C31: work and memory grow in proportion to the input. Every basic block the compiler instruments, every
// allocated byte and every byte moved by memcpy and memmove is counted; inputs of one shape are compared at two sizes, one 16 times the other.
#define JS_STL_MAP 1
#define JS_STL_UNORDERED_MAP 1
#define JS_STL_SET 1
#define JS_STL_ARRAY 1
#define JS_STD_OPTIONAL 1
#include <map>
#include <set>
#include <unordered_map>
#include <optional>
#include <new>
#include "jsutil.h"
using namespace vh;

static uint64_t blocks = 0, moved = 0, got = 0, allocs = 0, peak = 0, now = 0;
static uint64_t stop_at = ~0ull; // blocks or bytes no operation of proportionate cost comes near: no need to wait for its end
static void too_much();
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc()
{
  if (++blocks > stop_at)
    too_much();
}
extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
extern "C" __attribute__((no_sanitize("coverage"))) void *__wrap_memcpy(void *a, const void *b, size_t n)
{
  if ((moved += n) / 16 > stop_at)
    too_much();
  return __real_memcpy(a, b, n);
}
extern "C" __attribute__((no_sanitize("coverage"))) void *__wrap_memmove(void *a, const void *b, size_t n)
{
  if ((moved += n) / 16 > stop_at)
    too_much();
  return __real_memmove(a, b, n);
}
extern "C" __attribute__((no_sanitize("coverage"))) void *__wrap_memset(void *a, int b, size_t n)
{
  if ((moved += n) / 16 > stop_at)
    too_much();
  return __real_memset(a, b, n);
}
struct Head
{
  size_t n, pad;
};
static __attribute__((no_sanitize("coverage"))) void *take(size_t n)
{
  Head *h = static_cast<Head *>(malloc(n + sizeof(Head)));
  if (!h)
    abort();
  h->n = n;
  if ((got += n) / 4 > stop_at)
    too_much();
  allocs++;
  now += n;
  if (now > peak)
    peak = now;
  return h + 1;
}
static __attribute__((no_sanitize("coverage"))) void give(void *p)
{
  if (!p)
    return;
  Head *h = static_cast<Head *>(p) - 1;
  now -= h->n;
  free(h);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

struct Small
{
  int a = 0;
  std::string b;
  std::vector<int> c;
  JS_OBJ(a, b, c);
};
struct Many
{
  int first = 0;
  std::string text;
  JS::JsonObject raw;
  JS::JsonTokens tok;
  std::vector<Small> list;
  std::map<std::string, int> m;
  JS_OBJ(first, text, raw, tok, list, m);
};
struct Tree
{
  std::vector<Tree> t;
  JS_OBJ(t);
};
struct Fn
{
  int sum = 0;
  int add(int i) { return sum += i; }
  std::string text(const std::string &s) { return s; }
  JS_FUNC_OBJ(add, text);
};
struct Spent
{
  uint64_t work = 0, memory = 0, got = 0;
};
struct Meter
{
  uint64_t b, m, g, a, p, base;
  Meter() : b(blocks), m(moved), g(got), a(allocs), base(now) { peak = now; }
  Spent stop() const { return Spent{(blocks - b) + (moved - m) / 16 + (got - g) / 4 + 20 * (allocs - a), peak - base, got - g}; }
};
// repeated piece texts
static std::string rep(size_t n, const std::string &head, const std::function<std::string(size_t)> &item, const std::string &sep, const std::string &tail)
{
  std::string s = head;
  for (size_t i = 0; i < n; i++)
  {
    if (i)
      s += sep;
    s += item(i);
  }
  return s + tail;
}
struct Shape
{
  const char *name;
  std::function<std::string(size_t, Rng &)> make;
};
static std::string num(size_t i) { return std::to_string(i * 2654435761u % 1000003); }
static std::string key(size_t i) { return "k" + std::to_string(i * 2654435761u % 100000007); }
static std::vector<Shape> shapes()
{
  std::vector<Shape> s;
  auto add = [&](const char *n, std::function<std::string(size_t, Rng &)> f) { s.push_back({n, f}); };
  add("numbers", [](size_t n, Rng &) { return rep(n, "[", num, ",", "]"); });
  add("doubles", [](size_t n, Rng &) { return rep(n, "[", [](size_t i) { return num(i) + ".5e-7"; }, ", ", "]"); });
  add("strings", [](size_t n, Rng &) { return rep(n, "[", [](size_t i) { return "\"s" + num(i) + "\\n\""; }, ",", "]"); });
  add("long string", [](size_t n, Rng &) { return "[\"" + std::string(n * 8, 'x') + "\"]"; });
  add("escapes", [](size_t n, Rng &) { return rep(n, "[\"", [](size_t) { return "\\u00e9\\n"; }, "", "\"]"); });
  add("backslashes", [](size_t n, Rng &) { return "[\"" + std::string(n * 8, '\\') + "\"]"; });
  add("long number", [](size_t n, Rng &) { return "[0." + std::string(n * 8, '7') + "]"; });
  add("long integer", [](size_t n, Rng &) { return "[" + std::string(n * 8, '7') + "]"; });
  add("blanks", [](size_t n, Rng &) { return "[" + std::string(n * 8, ' ') + "1" + std::string(n * 4, '\n') + "]"; });
  add("empty arrays", [](size_t n, Rng &) { return rep(n, "[", [](size_t) { return "[]"; }, ",", "]"); });
  add("nested arrays", [](size_t n, Rng &) { return std::string(n, '[') + std::string(n, ']'); });
  add("nested objects", [](size_t n, Rng &) { return rep(n, "", [](size_t) { return "{\"a\":"; }, "", "1") + std::string(n, '}'); });
  add("members", [](size_t n, Rng &) { return rep(n, "{", [](size_t i) { return "\"" + key(i) + "\":" + num(i); }, ",", "}"); });
  add("members with objects", [](size_t n, Rng &) { return rep(n, "{", [](size_t i) { return "\"" + key(i) + "\":{\"a\":[1,2,{\"x\":null}]}"; }, ",\n", "}"); });
  add("objects", [](size_t n, Rng &) { return rep(n, "[", [](size_t i) { return "{\"a\":" + num(i) + ",\"b\":\"text\",\"c\":[1,2]}"; }, ",", "]"); });
  add("unknown members", [](size_t n, Rng &) { return rep(n, "[{\"a\":1,\"b\":\"\",\"c\":[],", [](size_t i) { return "\"" + key(i) + "\":[" + num(i) + "]"; }, ",", "}]"); });
  add("same member", [](size_t n, Rng &) { return rep(n, "[{", [](size_t i) { return "\"a\":" + num(i) + ",\"b\":\"y\",\"c\":[3]"; }, ",", "}]"); });
  add("long name", [](size_t n, Rng &) { return "{\"" + std::string(n * 8, 'k') + "\":1}"; });
  add("comments", [](size_t n, Rng &) { return rep(n, "[", [](size_t i) { return "/* c */" + num(i) + "// d\n"; }, ",", "]"); });
  add("long comment", [](size_t n, Rng &) { return "[/*" + rep(n, "", [](size_t) { return "* / *"; }, "", "") + "*/1]"; });
  add("words", [](size_t n, Rng &) { return rep(n, "[", [](size_t i) { return "w" + num(i) + "-x"; }, ",", "]"); });
  add("new lines", [](size_t n, Rng &) { return rep(n, "[", num, "\n", "]"); });
  add("late error", [](size_t n, Rng &) { return rep(n, "[", num, ",\n", ",\n}]"); });
  add("late error, one line", [](size_t n, Rng &) { return rep(n, "[", num, ",", ",}]"); });
  add("cut off", [](size_t n, Rng &) { return rep(n, "[", num, ",", ",\"abc"); });
  add("commas", [](size_t n, Rng &) { return "[" + std::string(n * 4, ',') + "]"; });
  add("calls", [](size_t n, Rng &) { return rep(n, "{", [](size_t i) { return i % 3 ? "\"add\":" + num(i) : i % 2 ? std::string("\"text\":\"t\"") : std::string("\"none\":{}"); }, ",", "}"); });
  return s;
}
static bool deep = false; // indentation makes the text of nested values long
struct Job
{
  const char *name;
  std::function<Spent(const std::string &, Rng &)> run;
};
template <class T>
static Spent parse(const std::string &text, unsigned opts, size_t piece)
{
  std::vector<std::string> parts;
  if (piece)
    for (size_t i = 0; i < text.size(); i += piece)
      parts.push_back(text.substr(i, piece));
  auto *v = new T{};
  Spent s;
  {
    Meter m;
    JS::ParseContext pc;
    ju::Opts::from(opts).apply(pc.tokenizer);
    size_t next = 0;
    if (!piece)
      pc.tokenizer.addData(text.data(), text.size());
    else
    {
      pc.tokenizer.addData(parts[0].data(), parts[0].size());
      next = 1;
      pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &t) {
        if (next < parts.size())
        {
          t.addData(parts[next].data(), parts[next].size());
          next++;
        }
      });
    }
    JS::Error e = pc.parseTo(*v);
    if (e != JS::Error::NoError)
      (void)pc.makeErrorString();
    s = m.stop();
  }
  delete v;
  return s;
}
template <class T>
static Spent write(const std::string &text, bool pretty, size_t piece)
{
  pretty = pretty && !deep;
  auto *v = new T{};
  JS::ParseContext pc(text);
  ju::Opts::from(15).apply(pc.tokenizer);
  (void)pc.parseTo(*v);
  Spent s;
  {
    Meter m;
    JS::SerializerOptions so(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
    if (!piece)
    {
      std::string out = JS::serializeStruct(*v, so);
    }
    else
    {
      std::string out, buf(piece, 0);
      JS::Serializer z;
      z.setOptions(so);
      z.setBuffer(&buf[0], piece);
      z.setRequestBufferCallback([&](JS::Serializer &x) {
        out.append(x.currentBuffer().buffer, x.currentBuffer().used);
        x.setBuffer(&buf[0], piece);
      });
      JS::Token k;
      JS::TypeHandler<T>::from(*v, k, z);
    }
    s = m.stop();
  }
  delete v;
  return s;
}
static std::vector<Job> jobs()
{
  std::vector<Job> j;
  auto add = [&](const char *n, std::function<Spent(const std::string &, Rng &)> f) { j.push_back({n, f}); };
#define PARSE(T) add("parse to " #T, [](const std::string &t, Rng &r) { return parse<T>(t, unsigned(r.below(16)), r.chance(50) ? 0 : 1 + r.below(24)); })
  PARSE(std::vector<int>);
  PARSE(std::vector<double>);
  PARSE(std::vector<std::string>);
  PARSE(std::vector<std::vector<int>>);
  PARSE(std::vector<Small>);
  PARSE(std::vector<bool>);
  typedef std::map<std::string, int> MapInt;
  typedef std::unordered_map<std::string, JS::JsonObject> MapObj;
  PARSE(MapInt);
  PARSE(MapObj);
  PARSE(std::set<int>);
  PARSE(Many);
  PARSE(JS::JsonTokens);
  PARSE(JS::JsonObjectOrArray);
  PARSE(JS::JsonObject);
  PARSE(JS::JsonArray);
#define WHOLE(T) add("parse to " #T, [](const std::string &t, Rng &r) { return parse<T>(t, unsigned(r.below(16)), 0); })
  WHOLE(JS::Map);
#define WRITE(T) add("serialize " #T, [](const std::string &t, Rng &r) { return write<T>(t, r.chance(50), r.chance(50) ? 0 : 1 + r.below(24)); })
  WRITE(std::vector<int>);
  WRITE(std::vector<double>);
  WRITE(std::vector<std::string>);
  WRITE(std::vector<Small>);
  WRITE(MapInt);
  WRITE(JS::JsonTokens);
  WRITE(JS::JsonObjectOrArray);
  WRITE(JS::Map);
  add("tokens", [](const std::string &t, Rng &r) {
    size_t piece = r.chance(50) ? 0 : 1 + r.below(24);
    Meter m;
    JS::Tokenizer k;
    ju::Opts::from(unsigned(r.below(16))).apply(k);
    size_t at = 0;
    JS::Token tok;
    JS::Error e;
    do
    {
      e = k.nextToken(tok);
      if (e == JS::Error::NeedMoreData && at < t.size())
      {
        size_t n = piece ? std::min(piece, t.size() - at) : t.size();
        k.addData(t.data() + at, n);
        at += n;
        e = JS::Error::NoError;
      }
    } while (e == JS::Error::NoError);
    return m.stop();
  });
  add("reformat", [](const std::string &t, Rng &r) {
    Meter m;
    std::string out;
    (void)JS::reformat(t, out, JS::SerializerOptions(r.chance(50) && !deep ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact));
    return m.stop();
  });
  add("metadata", [](const std::string &t, Rng &) {
    JS::ParseContext pc(t);
    JS::JsonTokens k;
    if (pc.parseTo(k) != JS::Error::NoError)
      return Spent();
    Meter m;
    auto meta = JS::metaForTokens(k);
    return m.stop();
  });
  add("iterate over a map", [](const std::string &t, Rng &) {
    JS::ParseContext pc(t);
    JS::Map k;
    Spent none;
    if (pc.parseTo(k) != JS::Error::NoError || k.tokens.data.empty() || k.tokens.data[0].value_type != JS::Type::ObjectStart)
      return none;
    Meter m;
    size_t n = 0;
    for (auto it = k.begin(); it != k.end(); ++it)
      n++;
    n += k.find("nothing") == k.end();
    return m.stop();
  });
  add("recorded tokens", [](const std::string &t, Rng &) {
    JS::Tokenizer k;
    ju::Opts::from(15).apply(k);
    k.addData(t.data(), t.size());
    std::vector<JS::Token> list;
    JS::Token tok;
    while (k.nextToken(tok) == JS::Error::NoError)
      list.push_back(tok);
    Meter m;
    JS::ParseContext pc;
    pc.tokenizer.addData(&list);
    JS::JsonObjectOrArray v;
    (void)pc.parseTo(v);
    return m.stop();
  });
  add("function calls", [](const std::string &t, Rng &) {
    Fn f;
    Meter m;
    std::string out;
    {
      JS::DefaultCallFunctionContext c(t.data(), t.size(), out);
      c.stop_execute_on_fail = false;
      (void)c.callFunctions(f);
    }
    return m.stop();
  });
  return j;
}

static std::string doing;
static void too_much()
{
  stop_at = ~0ull;
  violation("work", doing + ", stopped on the way");
  fprintf(G().out, "DONE\n");
  fclose(G().out);
  _exit(0);
}

int main(int argc, char **argv)
{
  static std::vector<Shape> S = shapes();
  static std::vector<Job> J = jobs();
  return run(argc, argv, "C31", [](uint64_t idx, Rng &r) {
    size_t combos = S.size() * J.size();
    const Shape &s = S[idx % combos % S.size()];
    const Job &j = J[idx % combos / S.size()];
    deep = strstr(s.name, "nested") != nullptr;
    bool large = !deep && r.chance(8);
    size_t n = large ? 20000 + r.below(10000) : 500 + r.below(300);
    count("large_inputs", large);
    uint64_t seed = r.next();
    Spent c[2];
    size_t len[2];
    for (int i = 0; i < 2; i++)
    {
      Rng a(seed), b(seed + 1);
      std::string text = s.make(i ? n * 16 : n, a);
      len[i] = text.size();
      doing = std::string(j.name) + " of " + s.name + ": " + std::to_string(len[0]) + " bytes cost " + std::to_string(c[0].work) + ", " + std::to_string(len[i]) + " bytes far more than in proportion";
      if (i)
      { // set up before the operation starts counts as well; nothing here costs a hundredth of this
        uint64_t allow = uint64_t(6.0 * double(len[1]) / double(len[0]) * double(c[0].work)) + 400 * len[1] + 50000000;
        blocks = moved = got = 0;
        stop_at = allow;
      }
      c[i] = j.run(text, b);
      stop_at = ~0ull;
    }
    eval();
    seen(idx % combos);
    count("compared");
    double by = double(len[1]) / double(len[0]);
    std::string w = std::string(j.name) + " of " + s.name + ": " + std::to_string(len[0]) + " bytes cost " + std::to_string(c[0].work) + ", " + std::to_string(len[1]) + " bytes " + std::to_string(c[1].work) +
                    "; memory " + std::to_string(c[0].memory) + " and " + std::to_string(c[1].memory);
    if (idx < 3)
      sample(w);
    if (c[1].work > 20000)
      count("large_enough");
    if (double(c[1].work) > 2.0 * by * double(c[0].work) + 20000)
      violation("work", w);
    if (double(c[1].memory) > 3.0 * by * double(c[0].memory) + 70000)
      violation("memory", w);
    if (double(c[1].got) > 3.0 * by * double(c[0].got) + 200000)
      violation("allocated", w + "; allocated " + std::to_string(c[0].got) + " and " + std::to_string(c[1].got));
    if (double(c[1].memory) > 400.0 * double(len[1]) + 70000)
      violation("memory-per-byte", w);
  });
}
