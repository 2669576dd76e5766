// One build of the library (language standard, compiler, optimisation, options), in a namespace of its own.
// C++11, because that is the oldest standard the library supports.
#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_ARRAY 1
#include <array>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <json_struct/json_struct.h>
#include <json_struct/json_struct_diff.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#include "c03in.h"

namespace CAT(types_, VARIANT)
{
JS_ENUM(Color, red, green, _blue, black, last)
struct Nums
{
  int8_t a = 1;
  uint8_t b = 2;
  short c = 3;
  unsigned short d = 4;
  int e = 5;
  unsigned f = 6;
  long long g = 7;
  unsigned long long h = 8;
  float i = 9;
  double j = 10;
  bool k = false;
  JS_OBJ(a, b, c, d, e, f, g, h, i, j, k);
};
struct Part
{
  std::string name;
  JS::Optional<int> opt;
  JS_OBJ(name, opt);
};
struct Wrap : public Part
{
  JS::OptionalChecked<Nums> oc;
  JS::Nullable<std::string> n;
  JS::NullableChecked<double> nc;
  std::unique_ptr<Part> up;
  std::shared_ptr<int> sp;
  std::vector<bool> vb;
  int arr[3] = {};
  std::array<double, 2> ad{{0, 0}};
  JS::Tuple<int, std::string, double> tup;
  Color col = Color::red;
  std::set<std::string> ss;
  std::map<std::string, Nums> mn;
  JS::JsonObjectOrArray toks;
  JS::JsonObject jo;
  JS::JsonArray ja;
  JS::OneOrMany<int> om;
  std::vector<Nums> vn;
  JS_OBJECT_WITH_SUPER(JS_SUPER(Part), JS_MEMBER(oc), JS_MEMBER(n), JS_MEMBER(nc), JS_MEMBER(up), JS_MEMBER_WITH_NAME(sp, "s p"), JS_MEMBER_ALIASES(vb, "bits", "flags"), JS_MEMBER(arr), JS_MEMBER(ad), JS_MEMBER(tup),
                       JS_MEMBER(col), JS_MEMBER(ss), JS_MEMBER(mn), JS_MEMBER(toks), JS_MEMBER(jo), JS_MEMBER(ja), JS_MEMBER(om), JS_MEMBER(vn));
};
struct Fn
{
  std::string log;
  double sum(const std::vector<double> &v)
  {
    double s = 0;
    for (double d : v)
      s += d;
    log += "sum;";
    return s;
  }
  Nums same(const Nums &n)
  {
    log += "same;";
    return n;
  }
  void text(const std::string &s) { log += s + ";"; }
  int fail(JS::CallFunctionContext &c)
  {
    log += "fail;";
    c.execution_list.back().error = JS::Error::UserDefinedErrors;
    return 3;
  }
  Color color(const Color &c) { return c; }
  JS_FUNC_OBJ(sum, same, text, fail, color);
};
} // namespace
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(CAT(types_, VARIANT), Color)

std::string CAT(transcript_, VARIANT)(const std::vector<std::string> &parts, unsigned opts, unsigned what, size_t limit)
{
  using namespace CAT(types_, VARIANT);
  std::string out, all;
  for (auto &p : parts)
    all += p;
  {
    Input in(parts);
    JS::Tokenizer t;
    in.attach(t, opts, true);
    JS::Token k;
    JS::Error e;
    size_t n = 0;
    while ((e = t.nextToken(k)) == JS::Error::NoError && n++ < limit)
    {
      out += "\n" + std::to_string(int(k.name_type)) + "," + std::to_string(int(k.value_type)) + " ";
      add(out, k.name);
      out += "=";
      add(out, k.value);
    }
    out += "\nend " + std::to_string(int(e)) + " " + t.makeErrorString();
  }
  if (what & 1)
    typed<Wrap>(out, parts, opts, "Wrap");
  if (what & 2)
    typed<Nums>(out, parts, opts, "Nums");
  if (what & 4)
    typed<std::map<std::string, std::vector<double>>>(out, parts, opts, "map");
  if (what & 8)
  {
    typed<std::vector<double>>(out, parts, opts, "doubles");
    typed<std::vector<float>>(out, parts, opts, "floats");
    typed<std::vector<int>>(out, parts, opts, "ints");
    typed<std::vector<unsigned long long>>(out, parts, opts, "big");
  }
  if (what & 16)
  {
    for (int st = 0; st < 2; st++)
    {
      std::string res;
      JS::Error e = JS::reformat(all.data(), all.size(), res, JS::SerializerOptions(st ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
      out += "\nreformat " + std::to_string(int(e)) + " " + res;
    }
    std::vector<std::string> v(parts.begin(), parts.begin() + long(parts.size() < 4 ? parts.size() : 4));
    out += "\nwritten " + JS::serializeStruct(v);
  }
  if (what & 32)
  {
    JS::Map m;
    JS::ParseContext pc(all);
    JS::Error e = pc.parseTo(m);
    out += "\nmap " + std::to_string(int(e));
    if (e == JS::Error::NoError)
    {
      JS::ParseContext sc;
      out += " set " + std::to_string(int(m.setValue("new", sc, 17.25)));
      m.setValue("a", sc, std::string("\x01\"\\/\xc3\xa9"));
      Nums n;
      m.setValue("nums", sc, n);
      for (auto &x : m.meta)
        out += " " + std::to_string(x.position) + "/" + std::to_string(x.skip) + "/" + std::to_string(x.size) + "/" + std::to_string(x.is_array) + "/" + std::to_string(x.has_data);
      out += " " + JS::serializeStruct(m);
    }
  }
  if (what & 64)
  {
    Fn f;
    JS::Error e;
    std::string res;
    {
      JS::DefaultCallFunctionContext ctx(all.data(), all.size(), res);
      e = ctx.callFunctions(f);
      for (auto &x : ctx.execution_list)
        out += "\ncall " + x.name + " " + std::to_string(int(x.error)) + " " + x.error_string.data;
    }
    out += "\ncalls " + std::to_string(int(e)) + " " + res + " " + f.log;
  }
  if (what & 128)
  {
    // both halves of a two element list are compared
    std::vector<JS::JsonObjectOrArray> two;
    JS::ParseContext pc(all);
    if (pc.parseTo(two) == JS::Error::NoError && two.size() == 2)
    {
      JS::DiffContext d(two[0].data);
      size_t at = d.diff(two[1].data);
      out += "\ndiff " + std::to_string(int(d.error));
      if (at < d.diffs.size())
      {
        auto &t = d.diffs[at];
        out += " " + std::to_string(t.diff_count);
        for (auto k : t.diffs)
          out += " " + std::to_string(int(k));
      }
    }
  }
  return out;
}
