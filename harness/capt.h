// Targets that capture raw parts of a document.
#pragma once
#include "types.h"
namespace ty
{
struct Captures
{
  int first = 0;
  JS::JsonObject obj;
  JS::JsonArray arr;
  JS::JsonObjectOrArray either;
  JS::JsonTokens toks;
  std::vector<JS::JsonObject> objs;
  std::map<std::string, JS::JsonObjectOrArray> named;
  int last = 0;
  JS_OBJ(first, obj, arr, either, toks, objs, named, last);
};
// a document for Captures; the text of each captured value is recorded
struct CaptureDoc
{
  std::string text;
  std::string obj, arr, either, toks;
  Val obj_v, arr_v, either_v, toks_v;
  std::vector<std::string> objs;
  std::vector<std::pair<std::string, std::string>> named;
  int first, last;
};
inline Val capture_value(Rng &r, int kind)
{ // 0 object, 1 array, 2 either, 3 anything
  ref::GenOpt go;
  go.max_depth = 3;
  for (;;)
  {
    Val v = ref::gen(r, go, 0, kind != 3 || r.chance(70));
    if ((kind == 0 && v.k == ref::Obj) || (kind == 1 && v.k == ref::Arr) || (kind == 2 && (v.k == ref::Obj || v.k == ref::Arr)) || kind == 3)
      return v;
  }
}
inline std::string trim_print(const Val &v, Rng &r)
{
  ref::Printer p;
  p.r = &r;
  p.ws = int(r.below(3));
  p.val(v);
  return p.out;
}
inline CaptureDoc make_capture_doc(Rng &r)
{
  CaptureDoc d;
  d.first = int(r.below(1000));
  d.last = int(r.below(1000));
  d.obj_v = capture_value(r, 0);
  d.arr_v = capture_value(r, 1);
  d.either_v = capture_value(r, 2);
  d.toks_v = capture_value(r, 3);
  d.obj = trim_print(d.obj_v, r);
  d.arr = trim_print(d.arr_v, r);
  d.either = trim_print(d.either_v, r);
  d.toks = trim_print(d.toks_v, r);
  size_t n = r.below(3);
  for (size_t i = 0; i < n; i++)
    d.objs.push_back(trim_print(capture_value(r, 0), r));
  n = r.below(3);
  for (size_t i = 0; i < n; i++)
    d.named.emplace_back("k" + std::to_string(i), trim_print(capture_value(r, 2), r));
  auto ws = [&]() { return std::string(r.chance(20) ? r.below(4) : 0, " \n\t"[r.below(3)]); };
  std::vector<std::string> members;
  members.push_back("\"first\":" + std::to_string(d.first));
  members.push_back("\"obj\":" + ws() + d.obj);
  members.push_back("\"arr\":" + ws() + d.arr);
  members.push_back("\"either\":" + ws() + d.either);
  members.push_back("\"toks\":" + ws() + d.toks);
  std::string a = "[";
  for (size_t i = 0; i < d.objs.size(); i++)
    a += (i ? "," : "") + ws() + d.objs[i] + ws();
  members.push_back("\"objs\":" + a + "]");
  std::string o = "{";
  for (size_t i = 0; i < d.named.size(); i++)
    o += (i ? std::string(",") : std::string("")) + "\"" + d.named[i].first + "\":" + ws() + d.named[i].second + ws();
  members.push_back("\"named\":" + o + "}");
  members.push_back("\"last\":" + std::to_string(d.last));
  for (size_t i = members.size(); i > 1; i--)
    std::swap(members[i - 1], members[r.below(i)]);
  d.text = "{" + ws();
  for (size_t i = 0; i < members.size(); i++)
    d.text += (i ? std::string(",") : std::string("")) + ws() + members[i] + ws();
  d.text += "}";
  return d;
}
} // namespace ty
