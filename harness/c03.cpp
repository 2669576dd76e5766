// C03: builds for different instruction sets behave identically.
#include "c03gen.h"
using namespace vh;
#define V(x) std::string transcript_##x(const std::vector<std::string> &parts, unsigned opts, unsigned what, size_t limit);
#ifdef VERIF_NEON
V(scalar) V(neon)
#else
V(scalar) V(sse2) V(sse42) V(avx2)
#endif
#undef V
struct Variant
{
  const char *name;
  std::string (*fn)(const std::vector<std::string> &, unsigned, unsigned, size_t);
};
static std::vector<Variant> variants()
{
#ifdef VERIF_NEON
  return {{"scalar", transcript_scalar}, {"neon", transcript_neon}};
#else
  std::vector<Variant> v = {{"scalar", transcript_scalar}, {"sse2", transcript_sse2}};
  if (__builtin_cpu_supports("sse4.2"))
    v.push_back({"sse4.2", transcript_sse42});
  if (__builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi2"))
    v.push_back({"avx2", transcript_avx2});
  return v;
#endif
}
int main(int argc, char **argv)
{
  static std::vector<Variant> vs = variants();
  return run(argc, argv, "C03", [](uint64_t idx, Rng &r) {
    std::string text;
    unsigned opts = r.chance(50) ? 0 : unsigned(r.below(16));
    unsigned what = 0;
    switch (idx % 6)
    {
    case 0: text = top_text(r), what = 1 | 16 | 32; break;
    case 1: text = run_text(r), what = 1u << r.below(6); break;
    case 2: text = run_text(r), what = 2 | 4 | 16; break;
    case 3: {
      ref::GenOpt g;
      g.max_depth = r.range(1, 4);
      g.max_width = r.range(1, 6);
      g.long_strings = 30;
      rx::Printer p{r, ju::Opts::from(opts), ju::Opts::from(opts), r.range(5, 60)};
      p.val(ref::gen(r, g), ref::Tok(), true);
      text = p.out;
      what = 16 | 32;
      break;
    }
    case 4: {
      std::string how;
      ref::mutated(r, text, how);
      what = 1u << r.below(6);
      break;
    }
    default: {
      text = r.chance(50) ? run_text(r) : top_text(r);
      for (size_t k = 1 + r.below(3); k && !text.empty(); k--)
      {
        size_t at = r.below(text.size());
        switch (r.below(4))
        {
        case 0: text.erase(at, 1 + r.below(3)); break;
        case 1: text.insert(at, 1, ",:{}[]\"\\/ a1\n\t-+.e\0\x01\xff\x7f"[r.below(22)]); break;
        case 2: text[at] = char(r.below(256)); break;
        case 3: text.resize(at); break;
        }
      }
      what = unsigned(r.below(64));
    }
    }
    auto c = cuts(r, text.size());
    std::vector<std::string> parts = r.chance(50) ? std::vector<std::string>{text} : split(text, c);
    eval();
    seen(hash(text) + opts * 17 + parts.size());
    if (idx < 12)
      sample(text);
    std::string base = vs[0].fn(parts, opts, what, text.size() * 4 + 16);
    count("transcript_bytes", base.size());
    for (size_t i = 1; i < vs.size(); i++)
    {
      std::string t = vs[i].fn(parts, opts, what, text.size() * 4 + 16);
      count(std::string("compared_with_") + vs[i].name);
      if (t != base)
      {
        size_t k = 0;
        while (k < t.size() && k < base.size() && t[k] == base[k])
          k++;
        size_t from = k > 60 ? k - 60 : 0;
        violation(std::string(vs[i].name) + "-differs", "scalar: ..." + show(base.substr(from, 160)) + " " + vs[i].name + ": ..." + show(t.substr(from, 160)) + " opts=" + std::to_string(opts) +
                                                             " parts=" + std::to_string(parts.size()) + (parts.size() > 1 ? " cuts=" + showcuts(c).substr(0, 200) : "") + " doc=" + show(text, 1500));
      }
    }
  });
}
