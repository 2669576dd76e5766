// C26: parsing recorded tokens gives what parsing the text gives.
#include "outcome.h"
#include "relax.h"
using namespace vh;

// captures made from tokens are spelled without the white space of the source
static std::string compacted(const std::string &s)
{
  std::string o;
  bool in = false;
  for (size_t i = 0; i < s.size(); i++)
  {
    char c = s[i];
    if (in)
    {
      o += c;
      if (c == '\\' && i + 1 < s.size())
        o += s[++i];
      else if (c == '"')
        in = false;
    }
    else if (!strchr(" \t\r\n", c))
    {
      o += c;
      in = c == '"';
    }
  }
  return o;
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C26", [](uint64_t idx, Rng &r) {
    size_t which = size_t(idx) % oc::ALL;
    size_t shape = r.chance(85) ? which : r.below(oc::ALL); // now and then a document for another target
    bool strict = shape >= ty::TYPES || which >= ty::TYPES;
    ju::Opts o = ju::Opts::from(strict || r.chance(50) ? 0 : unsigned(r.below(16)));
    std::string text;
    bool altered = shape != which;
    if (shape == ty::TYPES)
      text = ty::make_capture_doc(r).text;
    else
    {
      ref::Val v = oc::document(r, shape);
      if (r.chance(25))
      { // one value of another kind somewhere
        altered = true;
        std::vector<ref::Val *> all;
        std::function<void(ref::Val &)> walk = [&](ref::Val &x) {
          all.push_back(&x);
          for (auto &c : x.a)
            walk(c);
          for (auto &m : x.o)
            walk(m.second);
        };
        walk(v);
        ref::GenOpt g;
        g.max_depth = 2;
        if (all.size() > 1)
          *all[1 + r.below(all.size() - 1)] = ref::gen(r, g, 0, r.chance(40));
      }
      rx::Printer p{r, o, o, r.range(2, 40)};
      p.sp(true);
      p.val(v, ref::Tok(), false);
      p.sp(true);
      text = p.out;
    }
    if (text.find('\0') != std::string::npos)
      return;
    bool am = r.chance(60), au = r.chance(60);
    Exact x(text);
    std::vector<JS::Token> list;
    size_t lead = 0, part = 0;
    {
      JS::Tokenizer t;
      o.apply(t);
      t.addData(x.p, x.n);
      JS::Token k;
      while (list.size() < 200000 && t.nextToken(k) == JS::Error::NoError)
        list.push_back(k);
      if (list.empty())
        return;
    }
    // 0: added as it is, 1: reset to it, 2: reset to a place inside a longer list, 3: recorded by a JsonTokens target
    int how = int(r.below(4));
    JS::JsonTokens rec;
    std::vector<JS::Token> longer;
    if (how == 3)
    {
      JS::ParseContext pc(x.p, x.n);
      o.apply(pc.tokenizer);
      if (pc.parseTo(rec) != JS::Error::NoError)
        return; // a scalar root
      if (rec.data.size() != list.size())
        return violation("recorded-length", std::to_string(rec.data.size()) + " of " + std::to_string(list.size()) + " tokens in " + show(text, 1200));
    }
    if (how == 2)
    {
      lead = r.below(6);
      longer.assign(lead, list.back());
      longer.insert(longer.end(), list.begin(), list.end());
    }
    (void)part;
    auto prepare = [&](JS::ParseContext &pc) {
      o.apply(pc.tokenizer);
      pc.allow_missing_members = am;
      pc.allow_unasigned_required_members = au;
    };
    JS::ParseContext a, b;
    prepare(a);
    prepare(b);
    a.tokenizer.addData(x.p, x.n);
    oc::Run ra(a);
    oc::with_target(which, ra);
    switch (how)
    {
    case 0: b.tokenizer.addData(&list); break;
    case 1: b.tokenizer.resetData(&list, 0); break;
    case 2: b.tokenizer.resetData(&longer, lead); break;
    case 3: b.tokenizer.addData(&rec.data); break;
    }
    oc::Run rb(b);
    oc::with_target(which, rb);
    eval();
    count(ra.out.err == JS::Error::NoError ? "parsed" : "refused");
    count("how_" + std::to_string(how));
    count("tokens_replayed", list.size());
    seen(hash(text) + which);
    std::string ta = ra.out.text, tb = rb.out.text;
    if (which >= ty::TYPES && which < ty::TYPES + 4)
      ta = compacted(ta), tb = compacted(tb);
    if (ta != tb)
      violation("replay-differs", "target " + std::to_string(which) + " how " + std::to_string(how) + " text: " + show(ta, 900) + " tokens: " + show(tb, 900) + " document: " + show(text, 1200));
    if (!b.makeErrorString().size() && rb.out.err != JS::Error::NoError)
      violation("no-report", show(text, 1200));
    // a list read to its end makes room for the next input: the same list again, or text
    JS::Token rest;
    if (how == 0 && !altered && ra.out.err == JS::Error::NoError && r.chance(60) && a.tokenizer.nextToken(rest) == JS::Error::NeedMoreData)
    {
      bool as_text = r.chance(50);
      if (as_text)
        b.tokenizer.addData(x.p, x.n);
      else
        b.tokenizer.addData(&list);
      b.missing_members.clear();
      b.unassigned_required_members.clear();
      oc::Run rc(b);
      oc::with_target(which, rc);
      eval();
      count(as_text ? "text_behind_a_list" : "list_behind_a_list");
      std::string tc = rc.out.text;
      if (which >= ty::TYPES && which < ty::TYPES + 4)
        tc = compacted(tc);
      if (tc != ta)
        violation("second-input-differs", std::string(as_text ? "text" : "list") + " behind a list, target " + std::to_string(which) + ": " + show(tc, 900) + " instead of " + show(ta, 900) + " document: " + show(text, 1200));
    }
    if (idx < 3)
      sample(text);
  });
}
