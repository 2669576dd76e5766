// C18: structure metadata describes the token list exactly.
#include "jsutil.h"
#include "malgen.h"
using namespace vh;
using namespace ref;

struct Want
{
  size_t position;
  uint64_t size, skip, children, complex_children;
  bool is_array, has_data;
};
// independent of the token list: straight from the document
static void model(const Val &v, size_t &pos, std::vector<Want> &out)
{
  size_t me = out.size();
  out.push_back(Want());
  Want w = {pos, 0, 0, 0, 0, v.k == Arr, false};
  size_t start = pos++;
  auto child = [&](const Val &c) {
    w.children++;
    if (c.k == Arr || c.k == Obj)
    {
      w.complex_children++;
      size_t at = out.size();
      model(c, pos, out);
      if (out[at].has_data)
        w.has_data = true;
    }
    else
    {
      pos++;
      w.has_data = true;
    }
  };
  for (auto &c : v.a)
    child(c);
  for (auto &m : v.o)
    child(m.second);
  pos++;
  w.size = pos - start;
  w.skip = out.size() - me;
  out[me] = w;
}
static std::string str(const Want &w)
{
  return "pos=" + std::to_string(w.position) + " size=" + std::to_string(w.size) + " skip=" + std::to_string(w.skip) + " children=" +
         std::to_string(w.children) + " complex=" + std::to_string(w.complex_children) + (w.is_array ? " array" : " object") + (w.has_data ? " data" : "");
}
static Want of(const JS::JsonMeta &m)
{
  return Want{m.position, m.size, m.skip, m.children, m.complex_children, bool(m.is_array), bool(m.has_data)};
}
static void compare(const std::vector<Want> &want, const std::vector<JS::JsonMeta> &got, const std::string &ctx, const char *key)
{
  count("entries_compared", want.size());
  if (want.size() != got.size())
    return violation(key, "entries: want " + std::to_string(want.size()) + " got " + std::to_string(got.size()) + " " + ctx);
  for (size_t i = 0; i < want.size(); i++)
    if (str(want[i]) != str(of(got[i])))
      return violation(key, "entry " + std::to_string(i) + ": want " + str(want[i]) + " got " + str(of(got[i])) + " " + ctx);
}
static void document(Rng &r, uint64_t idx)
{
  GenOpt g;
  g.max_depth = r.range(1, 7);
  g.max_width = r.range(1, 8);
  Val v = idx % 41 == 0 ? deep(r, r.chance(50) ? r.range(1, 100) : r.range(200, 500)) : gen(r, g);
  if (idx % 4 == 1) // mostly containers, many empty
  {
    std::function<Val(int)> skeleton = [&](int d) {
      Val w;
      w.k = r.chance(50) ? Arr : Obj;
      int n = d <= 0 ? 0 : int(r.below(4));
      for (int i = 0; i < n; i++)
      {
        Val c = skeleton(d - 1 - int(r.below(2)));
        if (r.chance(8))
          c = Val();
        if (w.k == Arr)
          w.a.push_back(c);
        else
          w.o.emplace_back("k" + std::to_string(i), c);
      }
      return w;
    };
    v = skeleton(r.range(1, 6));
  }
  if (idx % 97 == 0 || idx % 12007 == 2) // more children than a byte or 16 bits count
  {
    Val w;
    w.k = Arr;
    size_t n = idx % 97 == 0 ? 200 + r.below(200) : 65400 + r.below(400);
    for (size_t i = 0; i < n; i++)
    {
      Val c;
      c.k = i % 2 && r.chance(90) ? Arr : Num;
      if (c.k == Num)
        c.raw = "1";
      w.a.push_back(c);
    }
    if (r.chance(50))
      v = w;
    else
    {
      v = Val();
      v.k = Obj;
      v.o = {{"a", Val()}, {"wide", w}, {"z", Val()}};
    }
    count("wide_documents");
  }
  std::string text = print(v, &r, int(r.below(2)));
  std::vector<Want> want;
  size_t pos = 0;
  bool container = v.k == Arr || v.k == Obj;
  if (!container)
    return;
  model(v, pos, want);
  JS::JsonTokens t;
  Exact in(text);
  JS::ParseContext pc(in.p, in.n);
  eval();
  seen(text);
  sample(text);
  if (pc.parseTo(t) != JS::Error::NoError || t.data.size() != pos)
    return violation("parse", show(text, 1500));
  compare(want, JS::metaForTokens(t), show(text, 1500), "metadata");
  if (want.size() > 1)
    count("nested_documents");

  // every container on its own, cut out of the token list with the metadata, is well formed and has the same metadata
  std::vector<JS::JsonMeta> m = JS::metaForTokens(t);
  for (int k = 0; k < 3 && m.size() == want.size(); k++)
  {
    size_t at = r.below(m.size());
    JS::JsonTokens cut;
    if (m[at].position + m[at].size > t.data.size())
      return;
    cut.data.assign(t.data.begin() + long(m[at].position), t.data.begin() + long(m[at].position + m[at].size));
    std::vector<Want> sub(want.begin() + long(at), want.begin() + long(at + want[at].skip));
    size_t base = sub[0].position;
    for (auto &w : sub)
      w.position -= base;
    compare(sub, JS::metaForTokens(cut), "cut " + std::to_string(at) + " of " + show(text, 1500), "metadata-of-part");
    count("parts");
  }
}
struct Leaf
{
  int a = 1;
  std::vector<int> b;
  JS_OBJ(a, b);
};
struct Deep
{
  Leaf l;
  std::vector<Leaf> ls;
  JS_OBJ(l, ls);
};
// the metadata kept by a map follows its edits
static void map(Rng &r)
{
  GenOpt g;
  g.max_depth = 4;
  g.max_width = 5;
  g.escapes = false;
  Val v = gen(r, g);
  if (v.k != Obj)
    return;
  std::string text = print(v, &r, 0), hist = text;
  Exact in(text);
  JS::Map map;
  JS::ParseContext pc(in.p, in.n);
  if (pc.parseTo(map) != JS::Error::NoError)
    return violation("parse", show(text));
  static const char *names[] = {"a", "b", "c", "k0", "k1", "id", "name", "new"};
  for (int k = 0; k < 6; k++)
  {
    std::string n = !v.o.empty() && r.chance(60) ? decoded(v.o[r.below(v.o.size())].first) : std::string(r.pick(names));
    JS::Error e;
    JS::ParseContext own;
    switch (r.below(4))
    {
    case 0: e = map.setValue(n, own, 5); break;
    case 1: e = map.setValue(n, own, std::vector<std::vector<int>>{{1, 2}, {}, {3}}); break;
    case 2: {
      Deep d;
      d.ls.resize(r.below(3));
      e = map.setValue(n, own, d);
      break;
    }
    default: e = map.setValue(n, own, std::vector<Leaf>()); break;
    }
    hist += " set " + n;
    if (e != JS::Error::NoError)
      return violation("map-set", show(hist, 1500));
    std::string now = JS::serializeStruct(map);
    Val d;
    if (!parse(now, d))
      return violation("map-text", show(hist, 1500));
    std::vector<Want> want;
    size_t pos = 0;
    model(d, pos, want);
    eval();
    count("map_edits");
    if (map.tokens.data.size() != pos)
      return violation("map-tokens", show(hist, 1500));
    compare(want, map.meta, show(hist, 1500), "map-metadata");
  }
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C18", [](uint64_t i, Rng &r) {
    if (i % 6 == 5)
      map(r);
    else
      document(r, i);
  });
}
