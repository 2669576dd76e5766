// C28: builds for different language standards, compilers, optimisation levels and character types behave identically.
#include "c03gen.h"
#include "hardnums.h"
using namespace vh;
#define V(x) std::string transcript_##x(const std::vector<std::string> &parts, unsigned opts, unsigned what, size_t limit);
#define ALL V(c17) V(c11) V(g20) V(g11) V(c20) V(c14)
ALL
#undef V
struct Variant
{
  const char *name;
  std::string (*fn)(const std::vector<std::string> &, unsigned, unsigned, size_t);
};
#define V(x) {#x, transcript_##x},
static const Variant vs[] = {ALL};

static std::string num(Rng &r)
{
  switch (r.below(6))
  {
  case 0: return std::to_string(r.range(-300, 70000));
  case 1: return ref::gen_num(r);
  case 2: return num_text(r);
  case 3: return ng::dec_text(r, r.chance(50));
  case 4: {
    auto &h = hard::double_texts[r.below(sizeof(hard::double_texts) / sizeof(*hard::double_texts))];
    return std::to_string(h.w) + "e" + std::to_string(h.q);
  }
  default: {
    auto &h = hard::doubles[r.below(sizeof(hard::doubles) / sizeof(*hard::doubles))];
    char b[64];
    snprintf(b, sizeof b, "%.17g", ldexp(double(h.w), h.q));
    return b;
  }
  }
}
static std::string str(Rng &r)
{
  ref::GenOpt g;
  return "\"" + ref::gen_raw(r, g) + "\"";
}
static std::string any(Rng &r)
{
  ref::GenOpt g;
  g.max_depth = 3;
  return ref::print(ref::gen(r, g), &r, int(r.below(3)));
}
static std::string obj(Rng &r, const std::vector<std::pair<std::string, std::string>> &m, int keep)
{
  std::string s = "{";
  std::vector<size_t> order(m.size());
  for (size_t i = 0; i < m.size(); i++)
    order[i] = i;
  if (r.chance(40))
    for (size_t i = m.size(); i > 1; i--)
      std::swap(order[i - 1], order[r.below(i)]);
  for (size_t i : order)
    if (r.chance(unsigned(keep)))
      s += (s.size() > 1 ? "," : "") + std::string(r.chance(10) ? r.below(40) : 0, ' ') + "\"" + m[i].first + "\":" + (r.chance(96) ? m[i].second : any(r));
  return s + "}";
}
static std::string nums(Rng &r)
{
  std::vector<std::pair<std::string, std::string>> m;
  for (char c = 'a'; c < 'k'; c++)
    m.push_back({std::string(1, c), num(r)});
  m.push_back({"k", r.chance(50) ? "true" : "false"});
  return obj(r, m, 80);
}
static std::string list(Rng &r, size_t least, size_t most, std::string (*f)(Rng &))
{
  std::string s = "[";
  for (size_t i = 0, n = least + r.below(most - least + 1); i < n; i++)
    s += (i ? "," : "") + f(r);
  return s + "]";
}
static std::string flag(Rng &r) { return r.chance(50) ? "true" : "false"; }
static std::string part(Rng &r) { return obj(r, {{"name", str(r)}, {"opt", r.chance(20) ? "null" : num(r)}}, 85); }
static std::string color(Rng &r) { return r.pick({"\"red\"", "\"green\"", "\"_blue\"", "\"black\"", "\"last\"", "0", "40", "41", "2", "\"re\"", "\"reds\"", "\"\"", "7"}); }
static std::string wrap(Rng &r)
{
  ref::GenOpt g;
  g.max_depth = 3;
  return obj(r,
             {{"name", str(r)}, {"opt", num(r)}, {"oc", nums(r)}, {"n", r.chance(30) ? "null" : str(r)}, {"nc", r.chance(30) ? "null" : num(r)}, {"up", r.chance(30) ? "null" : part(r)}, {"s p", num(r)},
              {r.pick({"vb", "bits", "flags"}), list(r, 0, 40, flag)}, {"arr", list(r, 3, 3, num)}, {"ad", list(r, 2, 2, num)}, {"tup", "[" + num(r) + "," + str(r) + "," + num(r) + "]"},
              {"col", color(r)}, {"ss", list(r, 0, 5, str)}, {"mn", "{" + str(r) + ":" + nums(r) + "}"}, {"toks", any(r)}, {"jo", "{" + str(r) + ":" + any(r) + "}"}, {"ja", list(r, 0, 4, any)},
              {"om", r.chance(50) ? num(r) : list(r, 0, 3, num)}, {"vn", list(r, 0, 3, nums)}},
             85);
}
static std::string calls(Rng &r)
{
  std::string s = "{";
  for (size_t i = 0, n = r.below(6); i < n; i++)
  {
    s += i ? "," : "";
    switch (r.below(6))
    {
    case 0: s += "\"sum\":" + list(r, 0, 5, num); break;
    case 1: s += "\"same\":" + nums(r); break;
    case 2: s += "\"text\":" + str(r); break;
    case 3: s += "\"fail\":null"; break;
    case 4: s += "\"color\":" + color(r); break;
    default: s += str(r) + ":" + any(r);
    }
  }
  return s + "}";
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C28", [](uint64_t idx, Rng &r) {
    static FILE *quiet = fopen("/dev/null", "w"); // the library remarks on data given to void functions
    if (!getenv("LOUD")) stderr = quiet;
    std::string text;
    unsigned opts = r.chance(60) ? 0 : unsigned(r.below(16));
    unsigned what = 0;
    const char *kind = "";
    switch (idx % 8)
    {
    case 0: text = wrap(r), what = 1, kind = "wrap"; break;
    case 1: text = nums(r), what = 2 | 32, kind = "nums"; break;
    case 2: text = list(r, 0, 12, num), what = 8, kind = "numbers"; break;
    case 3: text = calls(r), what = 64 | 32, kind = "calls"; break;
    case 4: {
      ref::GenOpt g;
      g.max_depth = 3;
      ref::Val a = ref::gen(r, g);
      std::string x = ref::print(a, &r, 0), y = r.chance(30) ? x : x;
      if (r.chance(70) && !y.empty())
      { // a small change
        size_t at = y.find_first_of("0123456789abcdef", r.below(y.size()));
        if (at != std::string::npos)
          y[at] = "0123456789abcdef"[r.below(16)];
      }
      text = "[" + x + "," + (r.chance(80) ? y : any(r)) + "]";
      what = 128 | 16, kind = "diff";
      break;
    }
    case 5: text = run_text(r), what = 1u << r.below(7), kind = "runs"; break;
    case 6: {
      std::string how;
      ref::mutated(r, text, how);
      what = unsigned(r.below(256)), kind = "mutated";
      break;
    }
    default: {
      text = r.chance(50) ? wrap(r) : r.chance(50) ? nums(r) : calls(r);
      what = r.chance(60) ? 1 : unsigned(r.below(256));
      for (size_t k = 1 + r.below(3); k && !text.empty(); k--)
      {
        size_t at = r.below(text.size());
        switch (r.below(4))
        {
        case 0: text.erase(at, 1 + r.below(3)); break;
        case 1: text.insert(at, 1, ",:{}[]\"\\/ a1\n\t-+.e\x01\xff\x7f\xe9"[r.below(22)]); break;
        case 2: text[at] = char(r.below(256)); break;
        case 3: text.resize(at); break;
        }
      }
      kind = "damaged";
    }
    }
    auto c = cuts(r, text.size());
    std::vector<std::string> parts = r.chance(60) ? std::vector<std::string>{text} : split(text, c);
    eval();
    seen(hash(text) + opts * 17 + what * 257 + parts.size());
    count(std::string("texts_") + kind);
    if (idx < 16)
      sample(text);
    std::string base = vs[0].fn(parts, opts, what, text.size() * 4 + 16);
    count("transcript_bytes", base.size());
    for (size_t i = 1; i < sizeof vs / sizeof *vs; i++)
    {
      std::string t = vs[i].fn(parts, opts, what, text.size() * 4 + 16);
      count(std::string("compared_with_") + vs[i].name);
      if (t != base)
      {
        size_t k = 0;
        while (k < t.size() && k < base.size() && t[k] == base[k])
          k++;
        size_t from = k > 60 ? k - 60 : 0;
        violation(std::string(vs[i].name) + "-differs", "c17: ..." + show(base.substr(from, 160)) + " " + vs[i].name + ": ..." + show(t.substr(from, 160)) + " opts=" + std::to_string(opts) +
                                                             " what=" + std::to_string(what) + " parts=" + std::to_string(parts.size()) + (parts.size() > 1 ? " cuts=" + showcuts(c).substr(0, 200) : "") + " doc=" + show(text, 1500));
      }
    }
  });
}
