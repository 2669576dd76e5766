// C20: reformatting changes whitespace only.
#include "jsutil.h"
#include "malgen.h"
using namespace vh;
using namespace ref;

static JS::SerializerOptions options(Rng &r, std::string &d, bool &compact)
{
  compact = r.chance(50);
  JS::SerializerOptions o(compact ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  d = compact ? "compact" : "pretty";
  if (!compact && r.chance(50))
  {
    int s = int(r.below(9));
    o.setShiftSize((unsigned char)s);
    d += " shift=" + std::to_string(s);
  }
  return o;
}
// text outside strings without whitespace; strings as they are
static std::string squeeze(const std::string &t)
{
  std::string o;
  bool in = false;
  for (size_t i = 0; i < t.size(); i++)
  {
    char c = t[i];
    if (in)
    {
      o += c;
      if (c == '\\' && i + 1 < t.size())
        o += t[++i];
      else if (c == '"')
        in = false;
      continue;
    }
    if (c == '"')
      in = true;
    if (c != ' ' && c != '\n' && c != '\t' && c != '\r')
      o += c;
  }
  return o;
}
static JS::Error reformat(Rng &r, const std::string &text, std::string &out, const JS::SerializerOptions &o)
{
  // the target may have content of any length before the call
  out.clear();
  if (r.chance(40))
    out.assign(r.chance(50) ? r.below(12) + 1 : r.below(9000), 'Z');
  if (r.chance(50))
  {
    Exact in(text);
    return JS::reformat(in.p, in.n, out, o);
  }
  return JS::reformat(text, out, o);
}
static void good(Rng &r, uint64_t idx)
{
  GenOpt g;
  g.max_depth = r.range(1, 6);
  g.max_width = r.range(1, 8);
  Val v = idx % 61 == 0 ? deep(r, r.chance(50) ? r.range(1, 100) : r.range(200, 600)) : gen(r, g);
  if (idx % 23 == 0) // large ones cross the growth of the output
  {
    Val w;
    w.k = Arr;
    int n = r.range(50, 400);
    for (int i = 0; i < n; i++)
      w.a.push_back(gen(r, GenOpt(), 3, false));
    v = w;
  }
  if (v.k != Arr && v.k != Obj)
  {
    Val w;
    w.k = Arr;
    w.a.push_back(v);
    v = w;
  }
  std::string text = print(v, &r, int(r.below(3)));
  std::vector<Tok> want;
  tokens(v, nullptr, want);
  seen(text);
  sample(text);
  std::string sq = squeeze(text);
  std::string prev_compact;
  for (int k = 0; k < 2; k++)
  {
    bool compact;
    std::string d, out, again;
    JS::SerializerOptions o = options(r, d, compact);
    JS::Error e = reformat(r, text, out, o);
    eval();
    count("reformatted_bytes", out.size());
    count(compact ? "compact" : "pretty");
    std::string ctx = d + " of " + show(text, 1000) + " gives " + show(out, 1000);
    if (e != JS::Error::NoError)
      return violation("good-document-error", "error " + std::to_string(int(e)) + " " + d + " of " + show(text, 1500));
    Val got;
    std::string why;
    if (!parse(out, got, &why))
      return violation("output-malformed", why + " " + ctx);
    std::vector<Tok> have;
    tokens(got, nullptr, have);
    if (have != want)
      return violation("tokens-changed", ctx);
    if (squeeze(out) != sq)
      return violation("non-whitespace-changed", ctx);
    if (compact && out != sq)
      return violation("compact-has-whitespace", ctx);
    e = reformat(r, out, again, o);
    if (e != JS::Error::NoError || again != out)
      return violation("not-idempotent", "again: " + show(again, 600) + " " + ctx);
  }
}
static void bad(Rng &r, uint64_t idx)
{
  std::string text, how, out, d, why;
  bool compact;
  JS::SerializerOptions o = options(r, d, compact);
  if (idx % 2)
  {
    if (!mutated(r, text, how) || judge(text, nullptr, &why) != Bad)
      return;
    count("malformed_documents");
    sample(text + "   # " + how);
  }
  else
  {
    GenOpt g;
    g.max_depth = r.range(1, 4);
    g.max_width = r.range(1, 4);
    Val v = gen(r, g);
    if (v.k != Arr && v.k != Obj)
      return;
    text = print(v, &r, int(r.below(2)));
    size_t first = text.find_first_of("[{"), last = text.find_last_of("]}");
    text.resize(first + 1 + r.below(last - first));
    why = "truncated";
    count("truncated_documents");
  }
  seen(text);
  JS::Error e = reformat(r, text, out, o);
  eval();
  if (e == JS::Error::NoError)
    violation(why == "truncated" ? "truncated-accepted" : "malformed-accepted", d + " of " + show(text, 1500) + " (" + why + ") gives " + show(out, 800));
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C20", [](uint64_t i, Rng &r) {
    if (i % 3 < 2)
      good(r, i);
    else
      for (int k = 0; k < 3; k++)
        bad(r, r.next());
  });
}
