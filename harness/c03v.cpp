// One scanning back end: the library in a namespace of its own, compiled for one instruction set.
// Produces a transcript of everything observable for a given input.
#define JS_STL_MAP 1
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <assert.h>
#include <chrono>
#include <cmath>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#ifdef VERIF_NEON // the NEON back end on the stand-in in harness/neon
#undef __SSE2__
#undef __SSE3__
#undef __SSSE3__
#undef __SSE4_1__
#undef __SSE4_2__
#undef __AVX2__
#undef __BMI__
#undef __BMI2__
#define __ARM_NEON 1
#include "neon/arm_neon.h"
#endif
#include <json_struct/json_struct.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

namespace
{
struct Inner
{
  std::string name;
  double num = 0;
  std::vector<int> ints;
  JS_OBJ(name, num, ints);
};
struct Top
{
  std::string a;
  int b = 0;
  double c = 0;
  bool d = false;
  std::vector<std::string> e;
  Inner f;
  std::vector<Inner> g;
  JS::JsonObjectOrArray h;
  std::map<std::string, std::string> i;
  float j = 0;
  unsigned long k = 0;
  JS_OBJ(a, b, c, d, e, f, g, h, i, j, k);
};
} // namespace
#include "c03in.h"

std::string CAT(transcript_, VARIANT)(const std::vector<std::string> &parts, unsigned opts, unsigned what, size_t limit)
{
  std::string out;
  {
    Input in(parts);
    JS::Tokenizer t;
    in.attach(t, opts, true);
    JS::Token k;
    JS::Error e;
    size_t n = 0;
    while ((e = t.nextToken(k)) == JS::Error::NoError && n++ < limit)
    {
      out += "\n" + std::to_string(int(k.name_type)) + "," + std::to_string(int(k.value_type)) + " ";
      add(out, k.name);
      out += "=";
      add(out, k.value);
    }
    out += "\nend " + std::to_string(int(e)) + " " + t.makeErrorString();
  }
  if (what & 1)
    typed<Top>(out, parts, opts, "Top");
  if (what & 2)
    typed<std::vector<std::string>>(out, parts, opts, "strings");
  if (what & 4)
    typed<std::map<std::string, std::string>>(out, parts, opts, "string map");
  if (what & 8)
    typed<std::vector<std::vector<double>>>(out, parts, opts, "numbers");
  if (what & 16)
  {
    std::string all;
    for (auto &p : parts)
      all += p;
    std::string res;
    JS::Error e = JS::reformat(all.data(), all.size(), res);
    out += "\nreformat " + std::to_string(int(e)) + " " + res;
    // strings written by the serializer
    std::vector<std::string> v;
    for (size_t i = 0; i < parts.size() && i < 4; i++)
      v.push_back(parts[i]);
    out += "\nwritten " + JS::serializeStruct(v);
  }
  if (what & 32)
  {
    std::string all;
    for (auto &p : parts)
      all += p;
    JS::Map m;
    JS::ParseContext pc(all);
    pc.tokenizer.allowAsciiType(opts & 1);
    pc.tokenizer.allowNewLineAsTokenDelimiter(opts & 2);
    pc.tokenizer.allowSuperfluousComma(opts & 4);
    pc.tokenizer.allowComments(opts & 8);
    JS::Error e = pc.parseTo(m);
    out += "\nmap " + std::to_string(int(e));
    if (e == JS::Error::NoError)
      out += " " + JS::serializeStruct(m);
  }
  return out;
}
