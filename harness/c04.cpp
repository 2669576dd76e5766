// C04: strict tokenizing is faithful.
#include "jsutil.h"
#include "malgen.h"
using namespace vh;
using namespace ref;

static void faithful(Rng &r, uint64_t idx)
{
  GenOpt o;
  o.max_depth = r.range(1, 6);
  o.max_width = r.range(1, 8);
  Val v;
  if (idx % 97 == 0)
    v = deep(r, r.chance(50) ? r.range(1, 300) : r.range(200, 600));
  else
    v = gen(r, o);
  std::string text = print(v, &r, int(r.below(3)));
  std::vector<Tok> want;
  tokens(v, nullptr, want);
  ju::Stream s = ju::tokenize(text);
  eval();
  count("tokens_observed", s.toks.size());
  if (want.size() > 2)
    seen(text);
  sample(text);
  if (s.toks != want || s.err != JS::Error::NeedMoreData)
  {
    size_t i = 0;
    while (i < want.size() && i < s.toks.size() && want[i] == s.toks[i])
      i++;
    violation("valid-doc-tokens", "doc=" + show(text, 1500) + " first difference at token " + std::to_string(i) + " want=" +
                                    (i < want.size() ? showtok(want[i]) : "end") + " got=" + (i < s.toks.size() ? showtok(s.toks[i]) : "end") +
                                    " err=" + std::to_string(int(s.err)) + " " + show(s.errstr, 200));
  }
}

static bool root_completed(const std::vector<Tok> &t)
{
  int d = 0;
  for (auto &k : t)
  {
    if (k.value_type == T_ObjectStart || k.value_type == T_ArrayStart)
      d++;
    if (k.value_type == T_ObjectEnd || k.value_type == T_ArrayEnd)
      if (--d == 0)
        return true;
  }
  return false;
}

static void malformed(Rng &r)
{
  std::string text, how;
  if (!mutated(r, text, how))
    return;
  Val w;
  std::string why;
  Verdict verdict = judge(text, &w, &why);
  ju::Stream s = ju::tokenize(text);
  eval();
  if (verdict == Good)
  {
    // still a well-formed first value: its tokens must come first
    std::vector<Tok> want;
    tokens(w, nullptr, want);
    if (s.toks.size() < want.size() || !std::equal(want.begin(), want.end(), s.toks.begin()))
      violation("valid-prefix-tokens", "doc=" + show(text, 1500) + " got " + showtoks(s.toks));
    return;
  }
  if (verdict == Lenient)
  {
    count("trailing_array_comma_skipped");
    return;
  }
  count("malformed_docs");
  seen(text);
  sample(text + "   # " + how);
  if (root_completed(s.toks))
    violation("malformed-accepted", "doc=" + show(text, 1500) + " how=" + how + " reference: " + why + " tokens " + showtoks(s.toks));
  if (s.err == JS::Error::NoError)
    violation("malformed-noerror", "doc=" + show(text, 1500));
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C04", [](uint64_t i, Rng &r) {
    if (i % 5 < 3)
      faithful(r, i);
    else
      for (int k = 0; k < 3; k++)
        malformed(r);
  });
}
