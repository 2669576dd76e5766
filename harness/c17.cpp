// C17: a failed parse yields a sane, accurate error report.
#include "jsutil.h"
#include "malgen.h"
using namespace vh;
using namespace ref;

static const char *NAME[] = {"NoError", "NeedMoreData", "InvalidToken", "ExpectedPropertyName", "ExpectedDelimiter", "ExpectedDataToken", "ExpectedObjectStart",
                             "ExpectedObjectEnd", "ExpectedArrayStart", "ExpectedArrayEnd", "UnexpectedArrayEnd", "UnexpectedObjectEnd", "IllegalPropertyName",
                             "IllegalPropertyType", "IllegalDataValue", "EncounteredIllegalChar", "NodeNotFound", "MissingPropertyMember", "MissingFunction",
                             "FailedToParseBoolean", "FailedToParseDouble", "FailedToParseFloat", "FailedToParseInt", "UnassignedRequiredMember",
                             "NonContigiousMemory", "ScopeHasEnded", "KeyNotFound", "DuplicateInSet", "UnknownPropertyMember", "UnknownError", "UserDefinedErrors"};
static_assert(int(JS::Error::UserDefinedErrors) == sizeof(NAME) / sizeof *NAME - 1 && int(JS::Error::ScopeHasEnded) == 25 && int(JS::Error::IllegalDataValue) == 14, "errors");

struct Config
{
  size_t line = 4, range = 38;
  bool set = false;
  explicit Config(Rng &r)
  {
    if (r.chance(50))
      return;
    static const size_t ls[] = {1, 2, 3, 4, 10, 100, 0}, rs[] = {0, 1, 5, 38, 100, 1000, 100000};
    line = r.pick(ls);
    range = r.pick(rs);
    set = true;
  }
  void apply(JS::Tokenizer &t) const
  {
    if (set)
      t.setErrorContextConfig(line, range);
  }
  std::string str() const { return "lines=" + std::to_string(line) + " range=" + std::to_string(range); }
};
static std::string joined(const JS::Internal::ErrorContext &c)
{
  std::string s;
  for (size_t i = 0; i < c.lines.size(); i++)
    s += (i ? "\n" : "") + c.lines[i];
  return s;
}
// sanity of one report; on success `at` holds the possible offsets in `text` (several when the excerpt repeats)
static bool sane(const JS::Tokenizer &t, const std::function<std::string()> &make, JS::Error e, const std::string &text, const Config &cfg, const std::string &ctx,
                 std::vector<size_t> *at, bool lines_expected)
{
  const JS::Internal::ErrorContext &c = t.errorContext();
  std::string m = make();
  auto bad = [&](const char *key, const std::string &what) {
    violation(key, what + " error " + NAME[int(e)] + " " + cfg.str() + " report " + show(m, 1200) + " line=" + std::to_string(c.line) + " char=" +
                     std::to_string(c.character) + " " + ctx);
    return false;
  };
  count("reports");
  if (m != make())
    return bad("report-changes", "second text differs");
  if (m.find(NAME[int(e)]) == std::string::npos)
    return bad("error-not-named", "");
  if (c.error != e && c.error != JS::Error::NoError)
    return bad("other-error", std::string("context has ") + NAME[int(c.error)]);
  if (c.lines.empty())
    return lines_expected ? bad("no-lines", "") : true;
  std::string j = joined(c);
  size_t bound = 2 * std::max<size_t>(256, cfg.range) + 2;
  if (j.size() > bound)
    return bad("unbounded", std::to_string(j.size()) + " bytes of context");
  if (cfg.line && c.lines.size() > 2 * cfg.line)
    return bad("too-many-lines", std::to_string(c.lines.size()));
  if (c.line >= c.lines.size())
    return bad("line-outside", "");
  if (c.character > c.lines[c.line].size())
    return bad("character-outside", "");
  // the text shows the lines, with the mark under the reported position
  std::string want;
  for (size_t i = 0; i < c.lines.size(); i++)
  {
    want += c.lines[i] + "\n";
    if (i == c.line)
      want += std::string(c.character, ' ') + "^\n";
  }
  if (m.size() < want.size() || m.compare(m.size() - want.size(), want.size(), want) != 0)
    return bad("text-shows-something-else", "want at the end " + show(want));
  size_t before = c.character;
  for (size_t i = 0; i < c.line; i++)
    before += c.lines[i].size() + 1;
  bool found = false;
  for (size_t p = text.find(j); p != std::string::npos; p = text.find(j, p + 1))
  {
    found = true;
    if (!at)
      break;
    at->push_back(p + before);
  }
  if (!found)
    return bad("lines-not-from-input", "");
  count(c.lines.size() > 1 ? "multi_line_reports" : "single_line_reports");
  if (c.line + 1 < c.lines.size())
    count("lines_after_the_error");
  return true;
}
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static bool delim(char c) { return c && strchr("{}[]:,\"", c); }
// the neighbourhood of the lexeme at `off`: from the end of the lexeme before it to just behind the delimiter after it
static void around(const std::string &s, size_t off, size_t &lo, size_t &hi)
{
  lo = std::min(off, s.size());
  while (lo > 0 && !ws(s[lo - 1]) && !delim(s[lo - 1]) && !(lo < s.size() && delim(s[lo])))
    lo--;
  while (lo > 0 && ws(s[lo - 1]))
    lo--;
  if (lo > 0)
    lo--; // the quote or delimiter in front
  hi = std::min(off, s.size());
  if (hi < s.size() && s[hi] == '"')
  {
    for (hi++; hi < s.size() && s[hi] != '"'; hi++)
      if (s[hi] == '\\')
        hi++;
    hi++;
  }
  else if (hi < s.size() && delim(s[hi]))
    hi++;
  else
    while (hi < s.size() && !ws(s[hi]) && !delim(s[hi]))
      hi++;
  while (hi < s.size() && ws(s[hi]))
    hi++;
  hi++;
}
static bool near(const std::vector<size_t> &at, size_t lo, size_t hi)
{
  for (size_t p : at)
    if (p >= lo && p <= hi)
      return true;
  return at.empty();
}
static std::string where(const std::vector<size_t> &at)
{
  std::string s;
  for (size_t i = 0; i < at.size() && i < 5; i++)
    s += (i ? "/" : "") + std::to_string(at[i]);
  return s;
}
// a malformed text with known first fault
// `strict` is the first fault when a trailing comma in an array is one: the tokenizer takes it behind some values only
static bool faulty(Rng &r, std::string &text, size_t &off, size_t *strict = nullptr)
{
  std::string how, pre, post;
  if (!mutated(r, text, how))
    return false;
  if (r.chance(60))
  {
    GenOpt g;
    g.max_depth = 3;
    for (size_t n = 1 + r.below(4); n > 0; n--)
    {
      pre += print(gen(r, g, 0, false), &r, int(r.below(3))) + (r.chance(50) ? ",\n" : ",");
      post += (r.chance(50) ? ",\n" : ",") + print(gen(r, g, 0, false), &r, int(r.below(3)));
    }
    if (r.chance(30))
      pre += "\"" + std::string(r.below(700), 'x') + "\",";
    if (r.chance(30))
      pre = std::string(r.below(6), '\n') + "[" + pre;
    else
      pre = "[" + pre;
    text = pre + text + post + "]";
  }
  Val v;
  Parser p(text, true);
  if (p.value(v))
    return false;
  off = size_t(atol(p.err.c_str() + p.err.rfind(' ')));
  if (strict)
  {
    Parser q(text);
    Val w;
    q.value(w);
    *strict = size_t(atol(q.err.c_str() + q.err.rfind(' ')));
  }
  return true;
}
static void syntax(Rng &r)
{
  std::string text;
  size_t off, strict;
  if (!faulty(r, text, off, &strict))
    return;
  Config cfg(r);
  Exact in(text);
  JS::Tokenizer t;
  cfg.apply(t);
  t.addData(in.p, in.n);
  JS::Token k;
  JS::Error e;
  size_t n = 0;
  while ((e = t.nextToken(k)) == JS::Error::NoError && n++ < 4 * text.size() + 10)
    ;
  eval();
  seen(text);
  sample(text);
  std::vector<size_t> at;
  std::string ctx = "fault at " + std::to_string(off) + " of " + show(text, 1500);
  if (!sane(t, [&] { return t.makeErrorString(); }, e == JS::Error::NeedMoreData ? JS::Error::NoError : e, text, cfg, ctx, &at, e != JS::Error::NeedMoreData))
    return;
  if (e == JS::Error::NeedMoreData)
    return;
  size_t lo, hi;
  around(text, off, lo, hi);
  count("positions_checked");
  size_t lo2, hi2;
  around(text, strict, lo2, hi2);
  if (!near(at, lo, hi) && !near(at, lo2, hi2))
    violation("wrong-position", std::string(NAME[int(e)]) + " reported at " + where(at) + " want " + std::to_string(lo) + ".." + std::to_string(hi) + " " + cfg.str() + " " + ctx +
                                  " report " + show(t.makeErrorString()));
}
struct Inner
{
  int a = 0;
  bool b = false;
  std::vector<int> v;
  JS_OBJ(a, b, v);
};
struct Outer
{
  Inner in;
  std::vector<Inner> list;
  int n = 0;
  std::string s;
  JS_OBJ(in, list, n, s);
};
// a well-formed document with one value of the wrong kind; marked with '\x01' in front
struct Typed
{
  Rng &r;
  int bad_at, seq = 0;
  size_t start = 0, end = 0;
  std::string gap()
  {
    static const char *g[] = {"", " ", "\n", "\n  ", "\n\n\n\n\n", "        ", "\r\n"};
    return r.chance(50) ? "" : r.pick(g);
  }
  std::string out;
  void val(const std::string &good, const std::vector<std::string> &wrong)
  {
    out += gap();
    if (seq++ == bad_at)
    {
      start = out.size();
      out += wrong[r.below(wrong.size())];
      end = out.size();
    }
    else
      out += good;
    out += gap();
  }
  void name(const char *n) { out += gap() + "\"" + n + "\"" + gap() + ":"; }
  void ints()
  {
    out += "[";
    for (size_t n = r.below(5), i = 0; i < n; i++)
    {
      out += i ? "," : "";
      val(std::to_string(r.below(1000)), {"true", "null", "\"\"", "{}", "[1]", "[]", "\"x\""});
    }
    out += "]";
  }
  void inner()
  {
    out += "{";
    name("a");
    val(std::to_string(r.below(1000)), {"true", "null", "{\"a\":1}", "[]", "\"words\""});
    out += ",";
    name("b");
    val("true", {"{}", "[true]", "\"yes\"", "null", "[\n\n]"});
    out += ",";
    name("v");
    ints();
    out += "}";
  }
  void outer()
  {
    out += gap() + "{";
    name("in");
    inner();
    out += ",";
    name("list");
    out += "[";
    for (size_t n = r.below(4), i = 0; i < n; i++)
    {
      out += i ? "," : "";
      if (seq == bad_at)
        val("", {"1", "\"inner\"", "null", "[]", "true"});
      else
      {
        seq++;
        inner();
      }
    }
    out += "],";
    name("s");
    out += "\"" + std::string(r.below(r.chance(20) ? 900 : 20), 's') + "\",";
    name("n");
    val("5", {"{}", "[5]", "\"five\"", "null"});
    out += "}";
  }
};
static void typed(Rng &r)
{
  Typed t{r, int(r.below(12))};
  t.outer();
  if (!t.end)
    return;
  Config cfg(r);
  Exact in(t.out);
  JS::ParseContext pc(in.p, in.n);
  cfg.apply(pc.tokenizer);
  Outer o;
  JS::Error e = pc.parseTo(o);
  eval();
  seen(t.out);
  std::string ctx = "wrong value at " + std::to_string(t.start) + " of " + show(t.out, 1500);
  if (e == JS::Error::NoError)
  {
    count("coerced"); // which values are refused is another property
    return;
  }
  std::vector<size_t> at;
  if (pc.error != e)
    return violation("context-error", ctx);
  if (!sane(pc.tokenizer, [&] { return pc.makeErrorString(); }, e, t.out, cfg, ctx, &at, true))
    return;
  count("typed_positions_checked");
  // reading stops somewhere in the value or right behind it
  size_t hi = t.end;
  while (hi < t.out.size() && ws(t.out[hi]))
    hi++;
  hi++;
  if (!near(at, t.start, hi))
    violation("wrong-typed-position", std::string(NAME[int(e)]) + " reported at " + where(at) + " want " + std::to_string(t.start) + ".." + std::to_string(hi) + " " + cfg.str() +
                                        " " + ctx + " report " + show(pc.makeErrorString()));
}
static void chunked(Rng &r)
{
  std::string text;
  size_t off;
  if (r.chance(50))
  {
    if (!faulty(r, text, off))
      return;
  }
  else
  {
    Typed t{r, int(r.below(12))};
    t.outer();
    text = t.out;
    if (r.chance(30))
      text.resize(r.below(text.size()) + 1);
  }
  Config cfg(r);
  std::vector<std::unique_ptr<Exact>> bufs;
  for (size_t i = 0; i < text.size();)
  {
    size_t n = std::min(text.size() - i, r.chance(50) ? 1 + r.below(5) : 1 + r.below(200));
    bufs.emplace_back(new Exact(text.substr(i, n)));
    i += n;
  }
  JS::ParseContext pc;
  cfg.apply(pc.tokenizer);
  std::function<void(const char *)> rel = [&](const char *p) {
    for (auto &b : bufs)
      if (b && b->p == p)
        b.reset();
  };
  pc.tokenizer.setReleaseCallback(rel);
  size_t next = 0;
  bool up = r.chance(50);
  auto feed = [&](JS::Tokenizer &t) {
    if (next < bufs.size())
    {
      t.addData(bufs[next]->p, bufs[next]->n);
      next++;
    }
  };
  if (up)
    while (next < bufs.size())
      feed(pc.tokenizer);
  else
    pc.tokenizer.setNeedMoreDataCallback(feed);
  JS::Error e;
  Outer o;
  JS::JsonTokens toks;
  if (r.chance(50))
    e = pc.parseTo(o);
  else
    e = pc.parseTo(toks);
  eval();
  if (e == JS::Error::NoError)
    return;
  seen(text);
  count("chunked_reports");
  sane(pc.tokenizer, [&] { return pc.makeErrorString(); }, e, text, cfg, "in pieces: " + show(text, 1500), nullptr, false);
}
// errors while converting from parsed tokens, which may come from several texts
static void from_tokens(Rng &r)
{
  Typed t{r, int(r.below(8))};
  t.outer();
  Exact in(t.out);
  JS::Map map;
  JS::ParseContext pc(in.p, in.n);
  Config cfg(r);
  if (pc.parseTo(map) != JS::Error::NoError)
    return;
  cfg.apply(pc.tokenizer);
  JS::ParseContext own;
  std::string all = t.out;
  static const char *names[] = {"in", "list", "n", "s", "zz"};
  for (size_t n = r.below(4); n > 0; n--)
    if (map.setValue(r.pick(names), own, std::vector<int>{1, 2, 3}) != JS::Error::NoError)
      violation("set", "");
  for (auto &d : map.json_data)
    all += d.second;
  pc.allow_missing_members = r.chance(50);
  Outer o;
  JS::Error e;
  bool direct = r.chance(50);
  if (direct)
  {
    pc.tokenizer.resetData(&map.tokens.data, 0);
    e = pc.parseTo(o);
  }
  else
    e = map.castToType(pc, o);
  eval();
  if (e == JS::Error::NoError)
    return;
  count("token_reports");
  if (pc.error != e)
    violation("token-context-error", show(t.out, 800));
  std::string m = pc.makeErrorString();
  if (e != JS::Error::MissingPropertyMember && e != JS::Error::UnassignedRequiredMember)
    sane(pc.tokenizer, [&] { return pc.makeErrorString(); }, e, all, cfg, "from tokens: " + show(t.out, 1500), nullptr, false);
  else if (m.empty() || m.size() > 4000)
    violation("token-report", show(m));
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C17", [](uint64_t i, Rng &r) {
    switch (i % 5)
    {
    case 0:
    case 1: syntax(r); break;
    case 2: typed(r); break;
    case 3: chunked(r); break;
    default: from_tokens(r);
    }
  });
}
