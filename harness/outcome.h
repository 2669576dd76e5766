// The observable outcome of one parse, as text: error code, value, and the member lists.
#pragma once
#include "capt.h"
namespace oc
{
using namespace vh;
template <class T>
std::string value(T &v)
{
  return JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
}
inline std::string value(ty::Captures &v)
{ // token captures refer to the text and are left out
  std::string s = std::to_string(v.first) + "|" + v.obj.data + "|" + v.arr.data + "|" + v.either.data + "|" + std::to_string(v.last);
  for (auto &o : v.objs)
    s += "|" + o.data;
  for (auto &n : v.named)
    s += "|" + n.first + "=" + n.second.data;
  return s;
}
inline std::string value(JS::JsonObject &v) { return v.data; }
inline std::string value(JS::JsonArray &v) { return v.data; }
inline std::string value(JS::JsonObjectOrArray &v) { return v.data; }
struct Ran
{
  JS::Error err = JS::Error::NoError;
  std::string text;
};
// parses what the context holds into a fresh target
struct Run
{
  JS::ParseContext &pc;
  bool lists;
  Ran out;
  Run(JS::ParseContext &p, bool l = true) : pc(p), lists(l) {}
  template <class T>
  void go(const char *)
  {
    T v{};
    out.err = pc.parseTo(v);
    out.text = "E" + std::to_string(int(out.err));
    if (out.err == JS::Error::NoError)
      out.text += " " + value(v);
    if (lists)
    {
      for (auto &m : pc.missing_members)
        out.text += " -" + m;
      for (auto &m : pc.unassigned_required_members)
        out.text += " ?" + m;
    }
  }
};
enum
{
  OWNING = ty::TYPES + 4, // targets that hold no reference to the text
  ALL = OWNING + 2 // the others
};
template <class F>
void with_target(size_t which, F &&f)
{
  switch (which % ALL)
  {
  case ty::TYPES + 0: return f.template go<ty::Captures>("Captures");
  case ty::TYPES + 1: return f.template go<JS::JsonObject>("JsonObject");
  case ty::TYPES + 2: return f.template go<JS::JsonArray>("JsonArray");
  case ty::TYPES + 3: return f.template go<JS::JsonObjectOrArray>("JsonObjectOrArray");
  case ty::TYPES + 4: return f.template go<JS::JsonTokens>("JsonTokens");
  case ty::TYPES + 5: return f.template go<JS::Map>("Map");
  default: return ty::with_type(which % ALL, f);
  }
}
// a document for the target, mostly of the right shape
struct Doc
{
  Rng &r;
  ref::Val v;
  template <class T>
  void go(const char *)
  {
    T x = ty::Gen<T>::make(r, 1 + int(r.below(3)));
    if (!ty::Gen<T>::json(x, v))
      v.k = ref::Null;
  }
};
inline void unknown_members(Rng &r, ref::Val &v, bool root)
{
  if (v.k == ref::Obj)
  {
    for (auto &m : v.o)
      unknown_members(r, m.second, false);
    if (r.chance(root ? 40 : 8))
    {
      ref::GenOpt go;
      go.max_depth = 3;
      v.o.insert(v.o.begin() + long(r.below(v.o.size() + 1)), {"unknown_" + std::to_string(r.below(100)), ref::gen(r, go, 0, false)});
    }
    if (r.chance(root ? 25 : 4) && !v.o.empty())
      v.o.erase(v.o.begin() + long(r.below(v.o.size())));
  }
  else if (v.k == ref::Arr)
    for (auto &m : v.a)
      unknown_members(r, m, false);
}
inline ref::Val document(Rng &r, size_t which)
{
  which %= ALL;
  if (which < ty::TYPES)
  {
    Doc d{r, ref::Val()};
    ty::with_type(which, d);
    unknown_members(r, d.v, true);
    return d.v;
  }
  ref::GenOpt g;
  g.max_depth = r.range(1, 4);
  g.max_width = r.range(1, 5);
  g.long_strings = 15;
  for (;;)
  {
    ref::Val v = ref::gen(r, g);
    if (which == ty::TYPES + 2 ? v.k == ref::Arr : which == ty::TYPES + 3 || which == ty::TYPES + 4 ? true : v.k == ref::Obj)
      return v;
  }
}
} // namespace oc
