// C14: a dynamic map behaves like the document it holds. Histories of set / find / cast / iterate / serialize
// operations are run against JS::Map and against an ordered list of (name, document) pairs.
#define JS_STL_MAP 1
#include <map>
#include "jsutil.h"
using namespace vh;
using ref::Val;

struct P
{
  int x = 0;
  std::string name;
  std::vector<int> list;
  JS_OBJ(x, name, list);
};
struct Q
{
  P inner;
  std::vector<P> more;
  JS_OBJ(inner, more);
};
static Val num(const std::string &s)
{
  Val v;
  v.k = ref::Num;
  v.raw = s;
  return v;
}
static Val str(const std::string &s)
{
  Val v;
  v.k = ref::Str;
  v.raw = ref::encode(s);
  return v;
}
static Val arr(const std::vector<int> &x)
{
  Val v;
  v.k = ref::Arr;
  for (int i : x)
    v.a.push_back(num(std::to_string(i)));
  return v;
}
static Val doc(const P &p)
{
  Val v;
  v.k = ref::Obj;
  v.o = {{"x", num(std::to_string(p.x))}, {"name", str(p.name)}, {"list", arr(p.list)}};
  return v;
}
static Val doc(const Q &q)
{
  Val v, m;
  v.k = ref::Obj;
  m.k = ref::Arr;
  for (auto &p : q.more)
    m.a.push_back(doc(p));
  v.o = {{"inner", doc(q.inner)}, {"more", m}};
  return v;
}
static std::string words(Rng &r)
{
  static const char *w[] = {"", "a", "plain text", "quote \" here", "back\\slash", "new\nline", "}", "{\"a\":1}", "\xC3\xA9", "a string long enough for the vector paths of the scanner"};
  return r.pick(w);
}
static P mkP(Rng &r)
{
  P p;
  p.x = int(r.below(1000)) - 500;
  p.name = words(r);
  for (size_t n = r.below(4); n > 0; n--)
    p.list.push_back(int(r.below(100)));
  return p;
}
static Q mkQ(Rng &r)
{
  Q q;
  q.inner = mkP(r);
  for (size_t n = r.below(3); n > 0; n--)
    q.more.push_back(mkP(r));
  return q;
}
struct Item
{
  std::string name; // decoded
  Val v;
  char kind; // i d s b v o q n(ull) g(eneric)
};
static const char *NAMES[] = {"a", "b", "ab", "abc", "x", "name", "list", "inner", "more", "", " ", "longer_member_name_over_16_bytes", "q\"uote", "back\\slash", "new\nline", "\xC3\xA9", "0", "}"};
static Item mk(Rng &r, char k)
{
  Item it;
  it.kind = k;
  switch (k)
  {
  case 'i': it.v = num(std::to_string(int(r.below(100000)) - 50000)); break;
  case 'd': {
    char b[32];
    snprintf(b, sizeof b, "%.2f", (int(r.below(2000)) - 1000) / 4.0);
    it.v = num(b);
    break;
  }
  case 's': it.v = str(words(r)); break;
  case 'b':
    it.v.k = ref::Bool;
    it.v.b = r.chance(50);
    break;
  case 'v': {
    std::vector<int> x;
    for (size_t n = r.below(5); n > 0; n--)
      x.push_back(int(r.below(100)));
    it.v = arr(x);
    break;
  }
  case 'o': it.v = doc(mkP(r)); break;
  case 'q': it.v = doc(mkQ(r)); break;
  case 'n': it.v.k = ref::Null; break;
  default: {
    ref::GenOpt o;
    o.max_depth = 4;
    o.max_width = 4;
    it.v = ref::gen(r, o);
  }
  }
  return it;
}
struct Machine
{
  Rng &r;
  std::vector<Item> model;
  JS::Map map;
  std::string hist;
  JS::ParseContext shared;
  std::vector<std::unique_ptr<Exact>> keep;
  bool dead = false;
  explicit Machine(Rng &r) : r(r) {}
  void bad(const std::string &key, const std::string &what)
  {
    violation(key, what + " history: " + show(hist, 2500));
    dead = true;
  }
  Item *find(const std::string &n)
  {
    for (auto &i : model)
      if (i.name == n)
        return &i;
    return nullptr;
  }
  template <class T>
  void set(const std::string &n, const T &t, Item it)
  {
    it.name = n;
    JS::ParseContext own;
    JS::Error e = map.setValue(n, r.chance(50) ? shared : own, t);
    if (e != JS::Error::NoError)
      bad("set-error", "setValue(" + show(n) + ") error " + std::to_string(int(e)));
    for (size_t i = 0; i < model.size(); i++)
      if (model[i].name == n)
      {
        model.erase(model.begin() + long(i));
        count("replacements");
        break;
      }
    model.push_back(it);
    count("sets");
  }
  void op_set()
  {
    std::string n = r.pick(NAMES);
    char k = "idsbvoqn"[r.below(8)];
    Item it;
    it.kind = k;
    hist += std::string("set ") + k + " \"" + show(n) + "\"; ";
    switch (k)
    {
    case 'i': {
      int x = int(r.below(100000)) - 50000;
      it.v = num(std::to_string(x));
      set(n, x, it);
      break;
    }
    case 'd': {
      double x = (int(r.below(2000)) - 1000) / 4.0;
      it.v = num("~");
      it.v.num = x;
      set(n, x, it);
      break;
    }
    case 's': {
      std::string s = words(r);
      it.v = str(s);
      set(n, s, it);
      break;
    }
    case 'b': {
      it.v.k = ref::Bool;
      it.v.b = r.chance(50);
      set(n, it.v.b, it);
      break;
    }
    case 'v': {
      std::vector<int> x;
      for (size_t c = r.below(5); c > 0; c--)
        x.push_back(int(r.below(100)));
      it.v = arr(x);
      set(n, x, it);
      break;
    }
    case 'o': {
      P p = mkP(r);
      it.v = doc(p);
      set(n, p, it);
      break;
    }
    case 'q': {
      Q q = mkQ(r);
      it.v = doc(q);
      set(n, q, it);
      break;
    }
    case 'n': {
      std::unique_ptr<int> none;
      it.v.k = ref::Null;
      set(n, none, it);
      break;
    }
    }
  }
  void op_setall()
  {
    Q q = mkQ(r);
    hist += "setValue(whole); ";
    JS::ParseContext own;
    JS::Error e = map.setValue(r.chance(50) ? shared : own, q);
    if (e != JS::Error::NoError)
      return bad("set-whole-error", "error " + std::to_string(int(e)));
    Val d = doc(q);
    model.clear();
    for (auto &m : d.o)
      model.push_back(Item{m.first, m.second, m.first == "inner" ? 'o' : 'g'});
    count("whole_sets");
  }
  template <class T>
  T cast(const std::string &n, JS::ParseContext &pc, const char *how)
  {
    T t = T();
    JS::Error e = JS::Error::NoError;
    switch (r.below(3))
    {
    case 0: e = map.castToType(n, pc, t); break;
    case 1: e = map.castToType(map.find(n), pc, t); break;
    default:
      t = map.castTo<T>(n, pc);
      e = pc.error;
    }
    count("casts");
    if (pc.error != e)
      bad("cast-context-error", std::string("cast ") + how + " of \"" + show(n) + "\" returned " + std::to_string(int(e)) + " but the context has " + std::to_string(int(pc.error)));
    if (e != JS::Error::NoError)
      bad("cast-error", std::string("cast ") + how + " of \"" + show(n) + "\" error " + std::to_string(int(e)));
    return t;
  }
  void check_item(const Item &it)
  {
    JS::ParseContext own;
    JS::ParseContext &pc = r.chance(50) ? shared : own;
    Val got;
    switch (it.kind)
    {
    case 'i': got = num(std::to_string(cast<int>(it.name, pc, "int"))); break;
    case 'd': {
      double want = it.v.raw == "~" ? it.v.num : strtod(it.v.raw.c_str(), nullptr), g = cast<double>(it.name, pc, "double");
      if (!dead && g != want)
        bad("cast-value", "double \"" + show(it.name) + "\" got " + std::to_string(g));
      return;
    }
    case 's': got = str(cast<std::string>(it.name, pc, "string")); break;
    case 'b':
      got.k = ref::Bool;
      got.b = cast<bool>(it.name, pc, "bool");
      break;
    case 'v': got = arr(cast<std::vector<int>>(it.name, pc, "vector")); break;
    case 'o': got = doc(cast<P>(it.name, pc, "P")); break;
    case 'q': got = doc(cast<Q>(it.name, pc, "Q")); break;
    default: {
      if (it.v.k == ref::Obj || it.v.k == ref::Arr)
        switch (r.below(3))
        {
        case 0: {
          JS::JsonObjectOrArray t = cast<JS::JsonObjectOrArray>(it.name, pc, "capture");
          if (!dead && !ref::parse(t.data, got))
            return bad("cast-capture-malformed", "\"" + show(it.name) + "\" got " + show(t.data));
          break;
        }
        case 1: {
          JS::Map t = cast<JS::Map>(it.name, pc, "Map");
          if (!dead && !ref::parse(JS::serializeStruct(t), got))
            return bad("cast-map-malformed", "\"" + show(it.name) + "\" got " + show(JS::serializeStruct(t)));
          break;
        }
        default: {
          JS::JsonTokens t = cast<JS::JsonTokens>(it.name, pc, "tokens");
          if (dead)
            return;
          std::vector<ref::Tok> want;
          ref::tokens(it.v, nullptr, want);
          bool same = want.size() == t.data.size();
          for (size_t i = 0; same && i < want.size(); i++)
          {
            ref::Tok g = ju::tok(t.data[i]);
            if (i == 0)
              g.name = want[0].name, g.name_type = want[0].name_type;
            if (it.v.raw != "~" && (g.value != want[i].value || g.value_type != want[i].value_type || g.name != want[i].name))
              same = false;
          }
          if (!same)
            bad("cast-tokens", "\"" + show(it.name) + "\"");
          return;
        }
        }
      else
      {
        JS::JsonTokens t = cast<JS::JsonTokens>(it.name, pc, "tokens");
        if (!dead && (t.data.size() != 1 || (it.kind == 'n' && t.data[0].value_type != JS::Type::Null)))
          bad("cast-scalar-token", "\"" + show(it.name) + "\"");
        return;
      }
    }
    }
    std::string why;
    if (!dead && !ref::same(it.v, got, "", &why))
      bad("cast-value", "\"" + show(it.name) + "\" want " + show(ref::print(it.v)) + " got " + show(ref::print(got)) + " " + why);
  }
  void op_lookup()
  {
    std::string n = r.chance(70) && !model.empty() ? model[r.below(model.size())].name : std::string(r.pick(NAMES));
    hist += "lookup \"" + show(n) + "\"; ";
    Item *it = find(n);
    bool found = map.find(n) != map.end();
    count(it ? "lookups_hit" : "lookups_miss");
    if (found != !!it)
      return bad(found ? "find-invents" : "find-misses", "\"" + show(n) + "\"");
    if (it)
      check_item(*it);
    else
    {
      int x = 42;
      JS::ParseContext own;
      JS::ParseContext &pc = r.chance(50) ? shared : own;
      if (map.castToType(n, pc, x) == JS::Error::NoError || x != 42 || pc.error == JS::Error::NoError)
        bad("cast-of-absent", "\"" + show(n) + "\"");
    }
  }
  void op_wrong()
  {
    if (model.empty())
      return;
    const Item &it = model[r.below(model.size())];
    hist += "wrong cast \"" + show(it.name) + "\"; ";
    JS::ParseContext own;
    JS::ParseContext &pc = r.chance(50) ? shared : own;
    bool container = it.v.k == ref::Obj || it.v.k == ref::Arr;
    JS::Error e;
    if (container)
      map.castTo<bool>(it.name, pc), e = pc.error;
    else if (r.chance(50))
    {
      P p;
      e = map.castToType(it.name, pc, p);
    }
    else
      map.castTo<std::vector<int>>(it.name, pc), e = pc.error;
    count("wrong_casts");
    if (e == JS::Error::NoError || pc.error == JS::Error::NoError)
      bad("wrong-cast-accepted", "\"" + show(it.name) + "\" " + show(ref::print(it.v)));
  }
  void op_spoil()
  {
    // a context that failed on another document is as good as a new one for a map
    static const char *junk[] = {"{\"a\": [1, 2", "[[[}", "{\"a\\", "{\"a\" 1}", "[\"unfinished", "{\"x\": {\"y\": [tru"};
    hist += "context used on a broken document; ";
    keep.emplace_back(new Exact(std::string(r.pick(junk))));
    shared.tokenizer.resetData(keep.back()->p, keep.back()->n, 0);
    JS::JsonTokens t;
    P p;
    JS::Error e = r.chance(50) ? shared.parseTo(t) : shared.parseTo(p);
    if (e == JS::Error::NoError)
      return bad("broken-accepted", show(std::string(keep.back()->p, keep.back()->n)));
    count("spoiled_contexts");
  }
  void op_setnone()
  {
    std::string n = r.pick(NAMES);
    hist += "set nothing \"" + show(n) + "\"; ";
    JS::SilentString none;
    JS::Error e = map.setValue(n, shared, none);
    if (e != JS::Error::NoError)
      return bad("set-error", "setValue of an empty SilentString(" + show(n) + ") error " + std::to_string(int(e)));
    for (size_t i = 0; i < model.size(); i++)
      if (model[i].name == n)
        model.erase(model.begin() + long(i)), i--;
    count("sets_of_nothing");
  }
  void op_setmap()
  {
    std::string n = r.pick(NAMES);
    hist += "set map \"" + show(n) + "\"; ";
    JS::Map inner;
    Item it;
    it.kind = 'g';
    it.v.k = ref::Obj;
    std::set<std::string> used;
    for (size_t c = r.below(4); c > 0; c--)
    {
      std::string m = r.pick(NAMES);
      if (!used.insert(m).second)
        continue;
      P p = mkP(r);
      int x = int(r.below(100));
      JS::Error e = JS::Error::NoError;
      if (r.chance(50))
      {
        e = inner.setValue(m, shared, p);
        it.v.o.emplace_back(ref::encode(m), doc(p));
      }
      else
      {
        e = inner.setValue(m, shared, x);
        it.v.o.emplace_back(ref::encode(m), num(std::to_string(x)));
      }
      if (e != JS::Error::NoError)
        return bad("set-error", "inner");
    }
    set(n, inner, it);
    count("sets_of_maps");
  }
  void op_iterate()
  {
    hist += "iterate; ";
    std::vector<std::string> got, want;
    for (auto it = map.begin(); it != map.end(); ++it)
    {
      got.push_back(ref::decoded(std::string((*it).name.data, (*it).name.size)));
      if (got.size() > model.size() + 5)
        break;
    }
    for (auto &i : model)
      want.push_back(i.name);
    count("iterated_members", got.size());
    if (got != want)
    {
      std::string g, w;
      for (auto &x : got)
        g += "\"" + show(x) + "\" ";
      for (auto &x : want)
        w += "\"" + show(x) + "\" ";
      bad("iteration", "want " + w + " got " + g);
    }
  }
  void op_serialize()
  {
    hist += "serialize; ";
    JS::SerializerOptions o(r.chance(50) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
    std::string s = JS::serializeStruct(map, o), err;
    Val got, want;
    want.k = ref::Obj;
    for (auto &i : model)
      want.o.emplace_back(ref::encode(i.name), i.v);
    if (!ref::parse(s, got, &err))
      return bad("serialized-malformed", show(s, 800) + " " + err);
    count("serializations");
    std::string why;
    if (!ref::same(want, got, "", &why))
      bad("serialized-value", show(s, 800) + " " + why);
  }
  void op_castall()
  {
    hist += "cast whole; ";
    JS::ParseContext own;
    JS::ParseContext &pc = r.chance(50) ? shared : own;
    if (r.chance(50))
    {
      JS::JsonTokens t;
      JS::Error e = map.castToType(pc, t);
      if (model.empty() && map.tokens.data.empty())
        return;
      if (e != JS::Error::NoError)
        return bad("cast-whole-error", std::to_string(int(e)));
      size_t n = 2;
      for (auto &i : model)
      {
        std::vector<ref::Tok> w;
        ref::tokens(i.v, nullptr, w);
        n += w.size();
      }
      if (t.data.size() != n)
        bad("cast-whole-tokens", std::to_string(t.data.size()) + " want " + std::to_string(n));
    }
    else
    {
      JS::JsonObject t;
      JS::Error e = map.castToType(pc, t);
      if (model.empty() && map.tokens.data.empty())
        return;
      if (e != JS::Error::NoError)
        return bad("cast-whole-error", std::to_string(int(e)));
      Val got, want;
      want.k = ref::Obj;
      for (auto &i : model)
        want.o.emplace_back(ref::encode(i.name), i.v);
      std::string why;
      if (!ref::parse(t.data, got, &why) || !ref::same(want, got, "", &why))
        bad("cast-whole-object", show(t.data, 600) + " " + why);
    }
    count("whole_casts");
  }
  void op_move()
  {
    hist += "move; ";
    JS::Map other(std::move(map));
    map = JS::Map();
    map = std::move(other);
  }
  void op_parse(bool damaged)
  {
    model.clear();
    Val d;
    d.k = ref::Obj;
    std::set<std::string> used;
    for (size_t n = r.below(8); n > 0; n--)
    {
      Item it = mk(r, "idsbvoqng"[r.below(9)]);
      it.name = r.pick(NAMES);
      if (!used.insert(it.name).second)
        continue;
      d.o.emplace_back(ref::encode(it.name), it.v);
      model.push_back(it);
    }
    std::string text = ref::print(d, &r, int(r.below(3)));
    if (damaged) // cut off, or a wrong end
    {
      size_t from = text.find('{'), to = text.rfind('}');
      text.resize(from + 1 + r.below(to - from));
      if (r.chance(40))
        text += "]";
      model.clear();
    }
    keep.emplace_back(new Exact(text));
    hist += "parse " + text + "; ";
    sample(text);
    JS::Error e;
    if (r.chance(50))
    {
      shared.tokenizer.resetData(keep.back()->p, keep.back()->n, 0);
      e = shared.parseTo(map);
    }
    else
    {
      JS::ParseContext pc(keep.back()->p, keep.back()->n);
      e = pc.parseTo(map);
    }
    if ((e != JS::Error::NoError) != damaged)
      return bad("parse", std::to_string(int(e)));
    count(damaged ? "failed_parses" : "parsed_maps");
  }
  void go()
  {
    if (r.chance(75))
      op_parse(false);
    else
      count("maps_from_nothing");
    for (size_t n = 1 + r.below(r.chance(10) ? 40 : 12); n > 0 && !dead; n--)
    {
      switch (r.below(12))
      {
      case 0:
      case 1:
      case 2: op_set(); break;
      case 3:
        if (r.chance(15))
          op_setall();
        break;
      case 4: op_iterate(); break;
      case 5: op_serialize(); break;
      case 6: op_castall(); break;
      case 7:
        switch (r.below(6))
        {
        case 0: op_move(); break;
        case 1: op_wrong(); break;
        case 2: op_setnone(); break;
        case 3: op_setmap(); break;
        case 4:
          if (r.chance(40))
            op_spoil();
          break;
        case 5: op_parse(r.chance(30)); break;
        }
        break;
      default: op_lookup();
      }
      eval();
    }
    if (!dead)
      op_iterate();
    if (!dead)
      op_serialize();
    for (auto &it : model)
      if (!dead)
        check_item(it);
    seen(hist);
  }
};
int main(int argc, char **argv)
{
  return run(argc, argv, "C14", [](uint64_t, Rng &r) {
    Machine m(r);
    m.go();
  });
}
