// C05: relaxed syntax options change only what they name.
#include "types.h"
#include "relax.h"
using namespace vh;
using ref::Tok;
using ref::Val;

static bool completed(const std::vector<Tok> &t)
{
  int d = 0;
  for (auto &k : t)
  {
    if (k.value_type == ref::T_ObjectStart || k.value_type == ref::T_ArrayStart)
      d++;
    if (k.value_type == ref::T_ObjectEnd || k.value_type == ref::T_ArrayEnd)
      if (--d == 0)
        return true;
  }
  return false;
}
static bool same(const ju::Stream &s, const std::vector<Tok> &want, std::string &why)
{
  size_t i = 0;
  while (i < want.size() && i < s.toks.size() && want[i] == s.toks[i])
    i++;
  if (i == want.size() && i == s.toks.size() && s.err == JS::Error::NeedMoreData)
    return true;
  why = "token " + std::to_string(i) + " want=" + (i < want.size() ? showtok(want[i]) : "end") + " got=" + (i < s.toks.size() ? showtok(s.toks[i]) : "end") + " err=" +
        std::to_string(int(s.err)) + " " + show(s.errstr, 200);
  return false;
}
static ju::Opts superset(Rng &r, ju::Opts o)
{
  o.ascii |= r.chance(30);
  o.comma |= r.chance(30);
  o.comments |= r.chance(30);
  return o; // newline is decided before printing
}
static void relaxed(Rng &r, uint64_t idx)
{
  ref::GenOpt g;
  g.max_depth = r.range(1, 4);
  g.max_width = r.range(2, 8);
  g.long_strings = 10;
  Val v = ref::gen(r, g);
  ju::Opts o = ju::Opts::from(unsigned(r.below(16)));
  ju::Opts on = superset(r, o);
  if (r.chance(15))
    o = ju::Opts(); // a strict document (line breaks placed for `on`)
  rx::Printer p{r, o, on, r.range(5, 60)};
  p.sp(true);
  p.val(v, Tok(), true);
  p.sp(true);
  const std::string &text = p.out;
  {
    rx::Ref ref(text, on);
    rx::Verdict vd = ref.run();
    if (vd != rx::Good || ref.toks != p.toks)
      return violation("harness", "reference disagrees with the generator: " + ref.why + " " + show(text, 1500) + " opts " + on.str());
  }
  ju::Stream s = ju::tokenize(text, on);
  eval();
  seen(hash(text) * 31 + (on.ascii + 2 * on.newline + 4 * on.comma + 8 * on.comments));
  if (idx < 6)
    sample(on.str() + " " + text);
  count("relaxed_documents");
  count("tokens_compared", p.toks.size());
  if (p.used.ascii)
    count("using_words");
  if (p.used.newline)
    count("using_newlines");
  if (p.used.comma)
    count("using_trailing_commas");
  if (p.used.comments)
    count("using_comments");
  std::string why;
  if (!same(s, p.toks, why))
    violation("relaxed-tokens", why + " opts=" + on.str() + " doc=" + show(text, 1500));
  // in pieces
  for (int k = 0; k < 2; k++)
  {
    auto c = cuts(r, text.size());
    ju::Stream q = ju::tokenize(split(text, c), on, ju::Delivery(r.below(3)), true);
    if (!same(q, p.toks, why))
      violation("relaxed-split", why + " opts=" + on.str() + " cuts=" + showcuts(c).substr(0, 300) + " doc=" + show(text, 1500));
    count("relaxed_splits");
  }
  // every option the document needs, taken away
  for (int k = 0; k < 4; k++)
  {
    ju::Opts x = on;
    bool need = false;
    switch (k)
    {
    case 0: need = p.used.ascii, x.ascii = false; break;
    case 1: need = p.used.newline, x.newline = false; break;
    case 2: need = p.used.comma, x.comma = false; break;
    case 3: need = p.used.comments, x.comments = false; break;
    }
    if (!need)
      continue;
    ju::Stream q = ju::tokenize(text, x);
    eval();
    count("option_off_rejections");
    if (completed(q.toks))
      violation("accepted-without-option", "opts=" + x.str() + " doc=" + show(text, 1500));
  }
}
// malformed relaxed documents: an option permits nothing but what it names
static void malformed(Rng &r)
{
  ref::GenOpt g;
  g.max_depth = r.range(1, 3);
  g.max_width = r.range(1, 4);
  ju::Opts o = ju::Opts::from(unsigned(r.below(16)));
  ju::Opts on = superset(r, o);
  std::string text, how;
  if (r.chance(30))
  {
    if (!ref::mutated(r, text, how))
      return;
  }
  else
  {
    rx::Printer p{r, o, on, r.range(5, 60)};
    p.val(ref::gen(r, g), Tok(), true);
    text = p.out;
    int n = r.chance(75) ? 1 : 2;
    for (int k = 0; k < n; k++)
    {
      // edits at structural characters
      std::vector<size_t> at;
      for (size_t i = 0; i < text.size(); i++)
        if (strchr(",:{}[]\"\n/", text[i]))
          at.push_back(i);
      size_t i = at.empty() || r.chance(20) ? r.below(text.size()) : at[r.below(at.size())];
      static const std::string ins[] = {",", ":", "{", "}", "[", "]", "\n", "/", "//", "#", ";", "a", "1", "true", " x ", "=", "'", "\"a\"", "/*c*/", ",,", "\n,", "."};
      switch (r.below(4))
      {
      case 0: text.erase(i, 1); break;
      case 1: text.insert(i, r.pick(ins)); break;
      case 2: text.replace(i, 1, r.pick(ins)); break;
      case 3: text.insert(i, 1, text[i]); break;
      }
      if (text.empty())
        return;
    }
    how = "edit";
  }
  rx::Ref ref(text, on);
  rx::Verdict vd = ref.run();
  ju::Stream s = ju::tokenize(text, on);
  eval();
  if (vd == rx::Unclaimed)
    return count("unclaimed_skipped");
  if (vd == rx::Good)
  {
    count("edited_still_valid");
    if (s.toks.size() < ref.toks.size() || !std::equal(ref.toks.begin(), ref.toks.end(), s.toks.begin()))
      violation("edited-tokens", "opts=" + on.str() + " doc=" + show(text, 1500) + " got " + showtoks(s.toks) + " err " + std::to_string(int(s.err)));
    return;
  }
  count("malformed_relaxed");
  seen(text);
  if (completed(s.toks))
    violation("malformed-relaxed-accepted", "opts=" + on.str() + " reference: " + ref.why + " doc=" + show(text, 1500) + " got " + showtoks(s.toks, 30));
  if (s.err == JS::Error::NoError)
    violation("malformed-noerror", show(text, 1500));
}
// typed values from relaxed text
struct Go
{
  Rng &r;
  template <class T>
  void go(const char *name)
  {
    T v = ty::Gen<T>::make(r, 3);
    Val j;
    if (!ty::Gen<T>::json(v, j) || (j.k != ref::Obj && j.k != ref::Arr))
      return;
    ju::Opts o = ju::Opts::from(unsigned(r.below(16)));
    rx::Printer p{r, o, o, r.range(5, 60)};
    p.val(j, Tok(), false);
    Exact x(p.out);
    JS::ParseContext pc(x.p, x.n);
    o.apply(pc.tokenizer);
    T got{};
    JS::Error e = pc.parseTo(got);
    T strict{};
    std::string st = ref::print(j);
    JS::ParseContext pc2(st);
    JS::Error e2 = pc2.parseTo(strict);
    eval();
    count("typed_documents");
    seen(p.out);
    if (e2 != JS::Error::NoError)
      return; // another property
    if (e != JS::Error::NoError)
      violation("typed-rejected", std::string(name) + " opts=" + o.str() + " " + show(pc.makeErrorString(), 300) + " doc=" + show(p.out, 1500));
    else if (!ty::same(got, strict))
      violation("typed-differs", std::string(name) + " opts=" + o.str() + " doc=" + show(p.out, 1500));
  }
};
// comments directly behind a word or literal
static void probe()
{
  for (const char *w : {"true", "false", "null"})
    for (const char *f : {"[%//c\n]", "[%//c\n,1]", "{\"a\":%//c\n}", "[1,%// c\n]"})
    {
      std::string t = f;
      t.replace(t.find('%'), 1, w);
      ju::Opts o;
      o.comments = true;
      ju::Stream s = ju::tokenize(t, o);
      eval();
      count("probes");
      if (!completed(s.toks))
        violation("comment-right-behind-literal", show(t));
    }
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C05", [](uint64_t i, Rng &r) {
    if (i == 0)
      probe();
    if (i % 4 == 0)
    {
      Go g{r};
      ty::with_type(r.below(ty::TYPES), g);
    }
    else if (i % 4 == 1)
      for (int k = 0; k < 3; k++)
        malformed(r);
    else
      relaxed(r, i);
  });
}
