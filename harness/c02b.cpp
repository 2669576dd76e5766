// C02: splitting the input into buffers never changes what is parsed into typed targets and captures.
#include "outcome.h"
#include "relax.h"
#include "feed.h"
using namespace vh;

int main(int argc, char **argv)
{
  return run(argc, argv, "C02", [](uint64_t idx, Rng &r) {
    size_t which = size_t(idx) % oc::OWNING;
    unsigned opts = r.chance(60) ? 0 : unsigned(r.below(16));
    ju::Opts o = ju::Opts::from(opts);
    std::string text;
    if (which == ty::TYPES)
    {
      text = ty::make_capture_doc(r).text;
      opts = 0;
      o = ju::Opts();
    }
    else
    {
      ref::Val v = oc::document(r, which);
      rx::Printer p{r, o, o, r.range(5, 50)};
      p.sp(true);
      p.val(v, ref::Tok(), false);
      p.sp(true);
      text = p.out;
    }
    bool mutated = r.chance(25);
    if (mutated && !text.empty())
    {
      size_t at = r.below(text.size());
      char c = ",:{}[]\"\\/ a1\n-.e"[r.below(16)];
      switch (r.below(4))
      {
      case 0: text.erase(at, 1 + r.below(3)); break;
      case 1: text.insert(at, 1, c); break;
      case 2: text[at] = c; break;
      case 3: text.resize(at); break;
      }
    }
    if (text.empty() || text.find('\0') != std::string::npos)
      return;
    bool am = r.chance(60), au = r.chance(60);
    auto ran = [&](const std::vector<std::string> &parts, fd::Mode m, std::string &trace) {
      fd::Feeder f(parts, m, r.next());
      JS::ParseContext pc;
      o.apply(pc.tokenizer);
      pc.allow_missing_members = am;
      pc.allow_unasigned_required_members = au;
      f.attach(pc.tokenizer);
      oc::Run run(pc);
      oc::with_target(which, run);
      trace = f.trace;
      return run.out;
    };
    std::string tr;
    oc::Ran whole = ran({text}, fd::UpFront, tr);
    count(whole.err == JS::Error::NoError ? "whole_parsed" : "whole_refused");
    auto cmp = [&](const std::vector<size_t> &c) {
      fd::Mode m = fd::Mode(r.below(fd::AddLater));
      oc::Ran s = ran(split(text, c), m, tr);
      eval();
      seen(hash(text) ^ hash(c.data(), c.size() * sizeof(size_t)) ^ uint64_t(m));
      if (s.text != whole.text)
        violation(mutated ? "split-value-malformed" : "split-value", "target " + std::to_string(which) + " whole: " + show(whole.text, 700) + " split: " + show(s.text, 700) + " doc: " + show(text, 1200) + " cuts=" + showcuts(c) +
                                                                      " opts=" + o.str() + " " + fd::modename(m));
    };
    if (text.size() < 60)
      for (size_t i = 0; i <= text.size(); i++)
        cmp({i});
    for (int k = 0; k < 5; k++)
      cmp(cuts(r, text.size()));
    sample(text);
  });
}
