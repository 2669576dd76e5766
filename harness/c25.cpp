// C25: a context given new data behaves like a fresh one, whatever it did before.
#include "outcome.h"
#include "malgen.h"
#include "relax.h"
using namespace vh;

struct Text
{
  size_t which;
  std::string text, prefix;
  std::vector<std::string> parts; // of prefix + text; the first one is what the reset is given
};
static Text make(Rng &r, const ju::Opts &o)
{
  Text t;
  t.which = r.below(oc::ALL);
  if (t.which == ty::TYPES)
    t.text = ty::make_capture_doc(r).text;
  else
  {
    ref::Val v = oc::document(r, t.which);
    rx::Printer p{r, o, o, r.range(2, 30)};
    p.sp(true);
    p.val(v, ref::Tok(), false);
    p.sp(true);
    t.text = p.out;
  }
  if (r.chance(45) && !t.text.empty())
  {
    size_t at = r.below(t.text.size());
    char c = ",:{}[]\"\\/ a1\n-.e"[r.below(16)];
    switch (r.below(5))
    {
    case 0: t.text.erase(at, 1 + r.below(3)); break;
    case 1: t.text.insert(at, 1, c); break;
    case 2: t.text[at] = c; break;
    default: t.text.resize(at); break; // ends in the middle of something
    }
  }
  if (r.chance(20))
    t.prefix = r.chance(50) ? "  ]}\"garbage\\" : "{\"a\":[1,";
  return t;
}
// what one use of a context shows
struct Use
{
  JS::ParseContext *pc;
  std::vector<Exact> *bufs;
  size_t next = 0;
  void more(JS::Tokenizer &t)
  {
    if (next < bufs->size())
    {
      t.addData((*bufs)[next].p, (*bufs)[next].n);
      next++;
    }
  }
};
static std::string tokens(JS::Tokenizer &t, size_t limit, size_t total, bool scoped)
{
  std::string out;
  JS::Token k;
  for (size_t n = 0; n < limit; n++)
  {
    JS::Error e = t.nextToken(k);
    if (e != JS::Error::NoError)
    {
      out += "E" + std::to_string(int(e));
      break;
    }
    out += ref::showtok(ju::tok(k)) + ";";
    if (scoped && n == 1 && k.value_type != JS::Type::ArrayEnd && k.value_type != JS::Type::ObjectEnd)
      t.pushScope(k.value_type);
    if (n > 4 * total + 16)
    {
      out += "runaway";
      break;
    }
  }
  return out;
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C25", [](uint64_t idx, Rng &r) {
    ju::Opts o = ju::Opts::from(r.chance(60) ? 0 : unsigned(r.below(16)));
    JS::ParseContext pc;
    o.apply(pc.tokenizer);
    std::vector<std::unique_ptr<std::vector<Exact>>> alive;        // texts of all rounds: only the current one may be read
    std::vector<std::unique_ptr<std::vector<JS::Token>>> recorded; // token lists
    size_t rounds = 2 + r.below(5);
    std::string history;
    Use *current = nullptr;
    size_t released = 0;
    bool cb = r.chance(50);
    std::function<void(const char *)> rel = [&](const char *) { released++; };
    if (cb)
      pc.tokenizer.setReleaseCallback(rel);
    pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &t) {
      if (current)
        current->more(t);
    });
    for (size_t n = 0; n < rounds; n++)
    {
      Text t = make(r, o);
      if (t.text.find('\0') != std::string::npos)
        continue;
      int how = int(r.below(8)); // 0-3 typed, 4-5 tokens, 6 some tokens, 7 recorded tokens
      bool pieces = t.which < oc::OWNING && how != 7 && r.chance(40);
      std::string whole = t.prefix + t.text;
      std::vector<std::string> parts{whole};
      if (pieces)
      {
        parts = split(t.text, cuts(r, t.text.size()));
        parts[0] = t.prefix + parts[0];
      }
      size_t limit = how == 6 ? r.below(12) : ~size_t(0);
      bool scoped = how == 6 && r.chance(30);
      bool toks = how >= 4 && how <= 6;
      bool am = r.chance(60), au = r.chance(60);
      std::unique_ptr<std::vector<JS::Token>> list;
      std::unique_ptr<std::vector<Exact>> mine(new std::vector<Exact>), hers(new std::vector<Exact>);
      mine->reserve(parts.size());
      hers->reserve(parts.size());
      for (auto &p : parts)
      {
        mine->emplace_back(p);
        hers->emplace_back(p);
      }
      if (how == 7)
      { // the tokens of the document, read back
        list.reset(new std::vector<JS::Token>);
        JS::Tokenizer tk;
        o.apply(tk);
        tk.resetData((*mine)[0].p, (*mine)[0].n, t.prefix.size());
        JS::Token k;
        while (list->size() < 100000 && tk.nextToken(k) == JS::Error::NoError)
          list->push_back(k);
        if (list->empty())
          continue;
      }
      auto use = [&](JS::ParseContext &c, std::vector<Exact> &bufs, bool fresh) {
        Use u{&c, &bufs, 1};
        current = &u;
        if (fresh)
          c.tokenizer.setNeedMoreDataCallback([&u](JS::Tokenizer &x) { u.more(x); });
        c.allow_missing_members = am;
        c.allow_unasigned_required_members = au;
        c.missing_members.clear();
        c.unassigned_required_members.clear();
        if (how == 7)
          c.tokenizer.resetData(list.get(), 0);
        else
          c.tokenizer.resetData(bufs[0].p, bufs[0].n, t.prefix.size());
        std::string out;
        if (toks)
          out = tokens(c.tokenizer, limit, whole.size(), scoped);
        else
        {
          oc::Run run(c);
          oc::with_target(t.which, run);
          out = run.out.text;
        }
        out += " report: " + (toks ? c.tokenizer.makeErrorString() : c.makeErrorString()) + " at " + std::to_string(c.tokenizer.errorContext().line) + ":" + std::to_string(c.tokenizer.errorContext().character) + " held " + std::to_string(c.tokenizer.registeredBuffers());
        current = nullptr;
        return out;
      };
      JS::ParseContext other;
      o.apply(other.tokenizer);
      std::string want = use(other, *hers, true);
      std::string got = use(pc, *mine, false);
      eval();
      static const char *kinds[] = {"typed", "typed", "typed", "typed", "tokens", "tokens", "some tokens", "recorded tokens"};
      history += std::string(n ? " then " : "") + kinds[how] + (how < 4 || how == 7 ? std::to_string(t.which) : std::string()) + " " + show(whole, 250) + (pieces ? " in pieces" : "");
      count(std::string("rounds_") + (n ? "reused" : "first"));
      count(std::string("kind_") + (how < 4 ? "typed" : how < 6 ? "tokens" : how == 6 ? "some_tokens" : "recorded_tokens"));
      if (n)
        count(got.compare(0, 2, "E0") == 0 || toks ? "succeeded_on_reuse" : "failed_on_reuse");
      if (got != want)
        violation("reuse-differs", "round " + std::to_string(n) + " fresh: " + show(want, 700) + " reused: " + show(got, 700) + " history: " + history);
      alive.push_back(std::move(mine));
      alive.push_back(std::move(hers));
      if (list)
        recorded.push_back(std::move(list));
      // half of the time the earlier texts are gone before the next use
      if (r.chance(50) && !cb)
      {
        if (n + 1 < rounds)
        { // give up the old text at once, as an owner would after the reset
          JS::Token none;
          pc.tokenizer.resetData(nullptr, 0, 0);
          (void)none;
          alive.clear();
          recorded.clear();
          count("texts_gone");
        }
      }
    }
    seen(history);
    if (idx < 3)
      sample(history);
  });
}
