// C02: splitting the input into buffers never changes the token stream.
#include "jsutil.h"
using namespace vh;
using namespace ref;


// relaxed printer: uses relaxations at random
struct RPrinter
{
  Rng &r;
  ju::Opts o;
  std::string out;
  void sp(bool nl)
  {
    size_t n = r.chance(30) ? r.below(4) : 0;
    for (size_t i = 0; i < n; i++)
      out += " \t\r\n"[r.below(nl ? 4 : 3)];
    if (o.comments && r.chance(10))
    {
      out += "//";
      size_t k = r.chance(20) ? interesting_len(r) : r.below(8);
      for (size_t i = 0; i < k; i++)
        out += "abc,:{}[]\"/ \\x1"[r.below(15)];
      out += "\n";
    }
  }
  void val(const Val &v)
  {
    switch (v.k)
    {
    case Null: out += "null"; break;
    case Bool: out += v.b ? "true" : "false"; break;
    case Num: out += v.raw; break;
    case Str:
      if (o.ascii && r.chance(30))
        out += "asc_" + std::to_string(r.below(1000));
      else
        out += "\"" + v.raw + "\"";
      break;
    case Arr:
      out += "[";
      for (size_t i = 0; i < v.a.size(); i++)
      {
        sp(true);
        val(v.a[i]);
        sp(true);
        if (i + 1 < v.a.size() || (o.comma && r.chance(10)))
          out += ",";
      }
      sp(true);
      out += "]";
      break;
    case Obj:
      out += "{";
      for (size_t i = 0; i < v.o.size(); i++)
      {
        sp(true);
        if (o.ascii && r.chance(40))
          out += "nam_" + std::to_string(r.below(1000));
        else
          out += "\"" + v.o[i].first + "\"";
        sp(true);
        out += ":";
        sp(true);
        val(v.o[i].second);
        sp(true);
        if (i + 1 < v.o.size() || (o.comma && r.chance(10)))
          out += ",";
      }
      sp(true);
      out += "}";
      break;
    }
  }
};

static bool sameStream(const ju::Stream &a, const ju::Stream &b, std::string &why)
{
  size_t i = 0;
  while (i < a.toks.size() && i < b.toks.size() && a.toks[i] == b.toks[i])
    i++;
  if (i < a.toks.size() || i < b.toks.size())
  {
    why = "token " + std::to_string(i) + " whole=" + (i < a.toks.size() ? showtok(a.toks[i]) : "end") + " split=" + (i < b.toks.size() ? showtok(b.toks[i]) : "end") +
          " errs " + std::to_string(int(a.err)) + "/" + std::to_string(int(b.err));
    return false;
  }
  if (a.err != b.err)
  {
    why = "error " + std::to_string(int(a.err)) + " vs " + std::to_string(int(b.err));
    return false;
  }
  return true;
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C02", [](uint64_t idx, Rng &r) {
    GenOpt g;
    g.max_depth = r.range(1, 4);
    g.max_width = r.range(1, 5);
    g.long_strings = 25;
    ju::Opts o = ju::Opts::from(r.chance(50) ? 0 : unsigned(r.below(16)));
    Val v = gen(r, g);
    RPrinter p{r, o, ""};
    p.sp(true);
    p.val(v);
    p.sp(true);
    std::string text = p.out;
    bool mutated = false;
    if (r.chance(15) && !text.empty())
    { // malformed inputs must also behave alike
      mutated = true;
      size_t at = r.below(text.size());
      switch (r.below(3))
      {
      case 0: text.erase(at, 1); break;
      case 1: text.insert(at, 1, ",:{}[]\"\\/ a1\n"[r.below(13)]); break;
      case 2: text[at] = ",:{}[]\"\\/ a1\n"[r.below(13)]; break;
      }
    }
    ju::Stream whole = ju::tokenize(text, o);
    auto cmp = [&](const std::vector<size_t> &c, ju::Delivery d) {
      ju::Stream s = ju::tokenize(split(text, c), o, d, r.chance(50));
      eval();
      std::string why;
      seen(hash(text) ^ hash(c.data(), c.size() * sizeof(size_t)) ^ uint64_t(d));
      if (!sameStream(whole, s, why))
        violation(mutated ? "split-malformed" : "split-tokens", why + " doc=" + show(text, 1200) + " cuts=" + showcuts(c) + " opts=" + o.str() + " delivery=" + std::to_string(d));
    };
    if (text.size() < 120)
      for (size_t i = 0; i <= text.size(); i++)
        cmp({i}, ju::Delivery(r.below(3)));
    for (int k = 0; k < 6; k++)
      cmp(cuts(r, text.size()), ju::Delivery(r.below(3)));
    sample(text);
  });
}
