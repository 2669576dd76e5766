// C15: document diff reports exactly the differences. Histories of comparisons on one context against a model diff
// computed from the documents themselves.
#include "jsutil.h"
#include <json_struct/json_struct_diff.h>
#include "malgen.h"
#include <memory>
using namespace vh;
using namespace ref;

static const char *TYPES[] = {"NoDiff", "ValueDiff", "TypeDiff", "NewMember", "NewArrayItem", "MissingMembers", "MissingArrayItems", "RootItemDiff", "ErroneousRootItem"};
static_assert(JS::NoDiff == 0 && JS::ErroneousRootItem == 8, "kinds");

struct Opt
{
  bool fuzzy = true;
  double eps = 1e-6;
  JS::DiffOptions js() const { return JS::DiffOptions(fuzzy ? JS::DiffFlags::FuzzyFloatComparison : JS::DiffFlags::None, eps); }
  std::string str() const { return fuzzy ? "fuzzy " + std::to_string(eps) : "exact"; }
};
struct Expect
{
  std::vector<int> kinds; // -1: inside an array item of another type, not claimed
  std::map<size_t, std::vector<Tok>> missing;
};
static size_t length(const Val &v)
{
  if (v.k != Arr && v.k != Obj)
    return 1;
  size_t n = 2;
  for (auto &c : v.a)
    n += length(c);
  for (auto &m : v.o)
    n += length(m.second);
  return n;
}
static void mark(Expect &e, const Val &v, int kind) { e.kinds.insert(e.kinds.end(), length(v), kind); }
static bool numbers_equal(const std::string &a, const std::string &b, const Opt &o)
{
  double x = strtod(a.c_str(), nullptr), y = strtod(b.c_str(), nullptr);
  if (x == y)
    return true;
  return o.fuzzy && (x > y ? x - y : y - x) <= o.eps;
}
static bool container(const Val &v) { return v.k == Arr || v.k == Obj; }
static void compare(const Val &b, const Val &d, const Opt &o, Expect &e)
{
  switch (d.k)
  {
  case Null: e.kinds.push_back(JS::NoDiff); break;
  case Bool: e.kinds.push_back(b.b == d.b ? JS::NoDiff : JS::ValueDiff); break;
  case Num: e.kinds.push_back(numbers_equal(b.raw, d.raw, o) ? JS::NoDiff : JS::ValueDiff); break;
  case Str: e.kinds.push_back(b.raw == d.raw ? JS::NoDiff : JS::ValueDiff); break;
  case Arr: {
    size_t me = e.kinds.size();
    e.kinds.push_back(JS::NoDiff);
    for (size_t i = 0; i < d.a.size(); i++)
      if (i >= b.a.size())
        mark(e, d.a[i], JS::NewArrayItem);
      else if (b.a[i].k == d.a[i].k)
        compare(b.a[i], d.a[i], o, e);
      else
      {
        size_t at = e.kinds.size();
        mark(e, d.a[i], -1);
        e.kinds[at] = JS::TypeDiff;
      }
    e.kinds.push_back(JS::NoDiff);
    for (size_t i = d.a.size(); i < b.a.size(); i++)
    {
      e.kinds[me] = JS::MissingArrayItems;
      tokens(b.a[i], nullptr, e.missing[me]);
    }
    break;
  }
  case Obj: {
    size_t me = e.kinds.size();
    e.kinds.push_back(JS::NoDiff);
    auto find = [](const Val &v, const std::string &n) -> const Val * {
      for (auto &m : v.o)
        if (m.first == n)
          return &m.second;
      return nullptr;
    };
    for (auto &m : d.o)
    {
      const Val *x = find(b, m.first);
      if (!x)
        mark(e, m.second, JS::NewMember);
      else if (x->k != m.second.k)
        mark(e, m.second, JS::TypeDiff);
      else
        compare(*x, m.second, o, e);
    }
    e.kinds.push_back(JS::NoDiff);
    for (auto &m : b.o)
      if (!find(d, m.first))
      {
        e.kinds[me] = JS::MissingMembers;
        tokens(m.second, &m.first, e.missing[me]);
      }
    break;
  }
  }
}
static Expect expect(const Val *b, const Val &d, const Opt &o)
{
  Expect e;
  if (!b)
    mark(e, d, d.k == Obj ? JS::NewMember : JS::NewArrayItem);
  else if (b->k != d.k)
    mark(e, d, JS::RootItemDiff);
  else
    compare(*b, d, o, e);
  return e;
}
// member names unique per object
static void unique(Val &v)
{
  for (auto &c : v.a)
    unique(c);
  std::set<std::string> used;
  for (size_t i = 0; i < v.o.size();)
    if (!used.insert(v.o[i].first).second)
      v.o.erase(v.o.begin() + long(i));
    else
      unique(v.o[i++].second);
}
static std::string number(Rng &r)
{
  static const char *n[] = {"0", "-0", "1", "1.0", "1e0", "2", "0.1", "0.10000001", "1e999", "-1e999", "1e-310", "1e-400", "5e-324", "3.141592", "3.1415921", "100", "100.0000005", "123456789", "1e300", "1.7976931348623157e308"};
  return r.chance(60) ? r.pick(n) : gen_num(r, 2);
}
static Val small(Rng &r, int depth)
{
  static const char *names[] = {"a", "b", "c", "id", "name", "value", "", "list", "x", "q\\\"", "\\u0041", "{", "longer_member_name_over_16"};
  static const char *strs[] = {"", "a", "b", "json", "xml", "}", "]", "\\n", "a longer string value for the vector code", "a longer string value for the vector codE"};
  Val v;
  switch (depth > 0 ? r.below(7) : r.below(4))
  {
  case 0: v.k = Null; break;
  case 1:
    v.k = Bool;
    v.b = r.chance(50);
    break;
  case 2:
    v.k = Num;
    v.raw = number(r);
    break;
  case 3:
    v.k = Str;
    v.raw = r.pick(strs);
    break;
  case 4:
  case 5: {
    v.k = Obj;
    for (size_t n = r.below(6); n > 0; n--)
      v.o.emplace_back(r.pick(names), small(r, depth - 1));
    break;
  }
  default:
    v.k = Arr;
    for (size_t n = r.below(6); n > 0; n--)
      v.a.push_back(small(r, depth - 1));
  }
  return v;
}
static Val root(Rng &r)
{
  for (;;)
  {
    Val v = small(r, r.range(1, 5));
    if (r.chance(15))
    {
      GenOpt g;
      v = gen(r, g);
    }
    if (!container(v))
      continue;
    unique(v);
    return v;
  }
}
// a few edits of a document: the interesting pairs are close
static void edit(Rng &r, Val &v, int depth)
{
  static const char *names[] = {"a", "b", "c", "id", "new", "newer", "x", ""};
  if (v.k == Obj)
  {
    if (r.chance(30))
      for (size_t i = v.o.size(); i > 1; i--)
        std::swap(v.o[i - 1], v.o[r.below(i)]);
    switch (r.below(4))
    {
    case 0:
      if (!v.o.empty())
        v.o.erase(v.o.begin() + long(r.below(v.o.size())));
      break;
    case 1: v.o.insert(v.o.begin() + long(r.below(v.o.size() + 1)), Member(r.pick(names), small(r, 2))); break;
    default:
      if (!v.o.empty())
        edit(r, v.o[r.below(v.o.size())].second, depth + 1);
    }
  }
  else if (v.k == Arr)
  {
    switch (r.below(5))
    {
    case 0:
      if (!v.a.empty())
        v.a.resize(r.below(v.a.size() + 1));
      break;
    case 1:
      for (size_t n = 1 + r.below(3); n > 0; n--)
        v.a.push_back(small(r, 3));
      break;
    default:
      if (!v.a.empty())
        edit(r, v.a[r.below(v.a.size())], depth + 1);
    }
  }
  else if (r.chance(40))
    v = small(r, 2);
  else if (v.k == Num)
    v.raw = number(r);
  else if (v.k == Bool)
    v.b = !v.b;
  else if (v.k == Str)
    v.raw += "x";
}
struct Doc
{
  Val v;
  std::unique_ptr<Exact> text;
  std::string str;
};
struct Machine
{
  Rng &r;
  std::vector<std::unique_ptr<Doc>> keep;
  Doc *base = nullptr; // null: empty text
  std::vector<Doc *> diffs;
  Opt opt;
  std::unique_ptr<JS::DiffContext> ctx;
  std::string hist;
  bool dead = false;
  explicit Machine(Rng &r) : r(r) {}
  void bad(const std::string &key, const std::string &what)
  {
    violation(key, what + " history: " + show(hist, 3000));
    dead = true;
  }
  Doc *mk(Val v)
  {
    keep.emplace_back(new Doc);
    Doc *d = keep.back().get();
    unique(v);
    d->v = v;
    d->str = print(v, &r, int(r.below(2)));
    d->text.reset(new Exact(d->str));
    seen(d->str);
    return d;
  }
  Opt option()
  {
    static const double eps[] = {0.0, 1e-9, 1e-6, 1e-3, 0.5};
    Opt o;
    if (r.chance(60))
      return o;
    o.fuzzy = r.chance(50);
    o.eps = r.pick(eps);
    return o;
  }
  void check(size_t at, const char *when)
  {
    const JS::DiffTokens &g = ctx->diffs[at];
    eval();
    std::string where = std::string(when) + " comparison " + std::to_string(at) + " of " + (base ? show(base->str, 700) : "nothing") + " with " +
                        (diffs[at] ? show(diffs[at]->str, 700) : "nothing") + " " + opt.str() + ": ";
    if (!diffs[at])
    {
      if ((g.diff_count != 0) != (base != nullptr))
        bad("empty-side", where);
      return;
    }
    Expect e = expect(base ? &base->v : nullptr, diffs[at]->v, opt);
    if (g.tokens.data.size() != e.kinds.size() || g.diffs.size() != e.kinds.size())
      return bad("token-count", where + std::to_string(g.diffs.size()) + " want " + std::to_string(e.kinds.size()));
    size_t marked = 0, missing = 0;
    bool differs = false;
    for (size_t i = 0; i < e.kinds.size(); i++)
    {
      count("marks_compared");
      int k = int(g.diffs[i]);
      if (e.kinds[i] != JS::NoDiff)
        differs = true;
      if (k != JS::NoDiff && k != JS::MissingMembers && k != JS::MissingArrayItems)
        marked++;
      if (e.kinds[i] >= 0)
      {
        if (e.kinds[i])
          count(std::string("kind_") + TYPES[e.kinds[i]]);
        if (k != e.kinds[i])
          return bad("wrong-kind", where + "token " + std::to_string(i) + " want " + TYPES[e.kinds[i]] + " got " + (k >= 0 && k < 9 ? TYPES[k] : "?"));
      }
      const std::vector<JS::Token> *mm = g.getMissingMembers(g.tokens.data[i]), *ma = g.getMissingArrayItems(g.tokens.data[i]);
      auto w = e.missing.find(i);
      bool is_array = g.tokens.data[i].value_type == JS::Type::ArrayStart;
      const std::vector<JS::Token> *have = is_array ? ma : mm, *other = is_array ? mm : ma;
      size_t hn = have ? have->size() : 0, wn = w == e.missing.end() ? 0 : w->second.size();
      if (hn != wn || (other && !other->empty()))
        return bad("missing-list", where + "token " + std::to_string(i) + " has " + std::to_string(hn) + " missing tokens, want " + std::to_string(wn));
      missing += wn;
      // every missing token, in any order of the missing members
      std::vector<std::string> x, y;
      for (size_t k2 = 0; k2 < wn; k2++)
      {
        Tok t = ju::tok((*have)[k2]);
        x.push_back(t.name + "\x01" + t.value + "\x01" + std::to_string(t.value_type));
        const Tok &u = w->second[k2];
        y.push_back(u.name + "\x01" + u.value + "\x01" + std::to_string(u.value_type));
      }
      std::sort(x.begin(), x.end());
      std::sort(y.begin(), y.end());
      if (x != y)
        return bad("missing-content", where + "token " + std::to_string(i));
      count("missing_tokens", wn);
    }
    if (g.missingMembers.size() + g.missingArrayItems.size() != e.missing.size())
      return bad("stale-missing", where + std::to_string(g.missingMembers.size() + g.missingArrayItems.size()) + " lists, want " + std::to_string(e.missing.size()));
    if ((g.diff_count != 0) != differs || g.diff_count != marked + missing)
      return bad("diff-count", where + std::to_string(g.diff_count) + " want " + std::to_string(marked + missing));
    count(differs ? "pairs_different" : "pairs_equal");
  }
  void check_all(const char *when)
  {
    if (ctx->diffs.size() != diffs.size())
      return bad("comparisons", when);
    for (size_t i = 0; i < diffs.size() && !dead; i++)
      check(i, when);
  }
  void start()
  {
    opt = option();
    base = r.chance(96) ? mk(root(r)) : nullptr;
    diffs.clear();
    hist += "base " + (base ? base->str : std::string("(empty)")) + " " + opt.str() + "; ";
    std::string s = base ? base->str : "";
    switch (ctx ? 3 + r.below(2) : r.below(3))
    {
    case 0:
      if (base)
        ctx.reset(new JS::DiffContext(base->text->p, base->text->n, opt.js()));
      else
        ctx.reset(new JS::DiffContext(s, opt.js()));
      break;
    case 1:
      if (base)
        ctx.reset(new JS::DiffContext(base->str, opt.js()));
      else
        ctx.reset(new JS::DiffContext("", 0, opt.js()));
      break;
    case 2:
      ctx.reset(new JS::DiffContext(opt.js()));
      if (base)
        ctx->reset(base->text->p, base->text->n, opt.js());
      else
        ctx->reset(std::string(), opt.js());
      break;
    case 3:
      if (base)
        ctx->reset(base->text->p, base->text->n, opt.js());
      else
        ctx->reset(std::string(), opt.js());
      break;
    case 4:
      ctx->clear(opt.js());
      if (base)
        ctx->reset(base->str, opt.js());
      break;
    }
    if (base && ctx->error != JS::DiffError::NoError)
      bad("base-error", std::to_string(int(ctx->error)));
  }
  void op_diff()
  {
    Val v;
    if (base && r.chance(80))
    {
      v = r.chance(80) || diffs.empty() || !diffs.back() ? base->v : diffs.back()->v;
      for (size_t n = r.below(4); n > 0; n--)
        edit(r, v, 0);
    }
    else
      v = root(r);
    Doc *d = mk(v);
    hist += "diff " + d->str + "; ";
    size_t at;
    switch (r.below(2))
    {
    case 0: at = ctx->diff(d->text->p, d->text->n); break;
    default: at = ctx->diff(d->str);
    }
    if (ctx->error != JS::DiffError::NoError || at != diffs.size() || ctx->diffs.size() != diffs.size() + 1)
      return bad("diff-error", std::to_string(int(ctx->error)) + " at " + std::to_string(at));
    diffs.push_back(d);
    check(at, "new");
  }
  void go()
  {
    start();
    for (size_t n = 2 + r.below(8); n > 0 && !dead; n--)
    {
      switch (r.below(10))
      {
      case 0:
        if (!diffs.empty())
        {
          size_t at = r.below(diffs.size());
          hist += "changeBase " + std::to_string(at) + "; ";
          ctx->changeBase(at);
          std::swap(base, diffs[at]);
          count("base_changes");
          check_all("after changeBase");
        }
        break;
      case 1:
        if (r.chance(50))
          opt = option();
        hist += "invalidate " + opt.str() + "; ";
        ctx->invalidate(opt.js());
        count("invalidations");
        check_all("after invalidate");
        break;
      case 2:
        if (r.chance(30))
        {
          hist += "reset; ";
          start();
        }
        else if (r.chance(30))
        {
          hist += "diff (empty); ";
          if (ctx->diff(std::string()) != size_t(-1) || ctx->error == JS::DiffError::NoError || ctx->diffs.size() != diffs.size())
            bad("empty-accepted", "");
        }
        break;
      default: op_diff();
      }
    }
    if (!dead)
      check_all("at the end");
    sample(hist);
  }
};
int main(int argc, char **argv)
{
  return run(argc, argv, "C15", [](uint64_t, Rng &r) {
    Machine m(r);
    m.go();
  });
}
