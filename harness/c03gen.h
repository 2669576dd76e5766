// Texts for comparing builds (C03, C28).
#pragma once
#include "relax.h"
#include "numgen.h"
using namespace vh;
// runs of one class of characters whose end falls anywhere relative to a vector width
static std::string run_text(Rng &r)
{
  std::string s;
  auto len = [&]() { return r.chance(50) ? ref::interesting_len(r) : r.below(70); };
  auto ws = [&]() {
    size_t n = r.chance(40) ? len() : r.below(3);
    std::string w;
    char c = " \t\r\n"[r.below(4)];
    for (size_t i = 0; i < n; i++)
      w += r.chance(90) ? c : " \t\r\n"[r.below(4)];
    return w;
  };
  auto str = [&]() {
    std::string t;
    size_t n = len();
    char c = char('a' + r.below(26));
    int special = int(r.below(5));
    size_t at = r.below(n + 1);
    for (size_t i = 0; i < n; i++)
      if (special == 1 ? i == at : special == 2 ? (i >= at && i < at + 5) : special == 3 && r.chance(10))
        switch (r.below(6))
        {
        case 0: t += "\\\""; break;
        case 1: t += "\\\\"; break;
        case 2: t += "\\u00e9"; break;
        case 3: t += "\xc3\xa9"; break;
        case 4: t += char(0x80 + r.below(0x80)); break;
        default: t += "{}[]:,/"[r.below(7)];
        }
      else
        t += c;
    return "\"" + t + "\"";
  };
  auto num = [&]() {
    std::string t = r.chance(50) ? "-" : "";
    size_t n = 1 + (r.chance(50) ? len() : r.below(12));
    for (size_t i = 0; i < n; i++)
      t += char('1' + r.below(9));
    if (r.chance(30))
      t += "." + std::string(1 + r.below(40), '5');
    if (r.chance(20))
      t += "eE"[r.below(2)] + std::string(r.chance(50) ? "-" : "") + std::to_string(r.below(30));
    return t;
  };
  auto word = [&]() {
    std::string t(1, char('a' + r.below(26)));
    size_t n = len();
    for (size_t i = 0; i < n; i++)
      t += "abcXYZ019_-./^`"[r.below(15)];
    return t;
  };
  auto comment = [&]() { return "//" + std::string(len(), "ab\"{/\r"[r.below(6)]) + "\n"; };
  bool obj = r.chance(50);
  s += ws() + (obj ? "{" : "[");
  size_t n = r.below(6);
  for (size_t i = 0; i < n; i++)
  {
    if (i)
      s += r.chance(90) ? "," : r.chance(50) ? "\n" : "";
    s += ws();
    if (r.chance(10))
      s += comment();
    if (obj)
      s += (r.chance(80) ? str() : word()) + ws() + (r.chance(97) ? ":" : "") + ws();
    switch (r.below(8))
    {
    case 0:
    case 1:
    case 2: s += str(); break;
    case 3:
    case 4: s += num(); break;
    case 5: s += word(); break;
    case 6: s += r.pick({"true", "false", "null", "{}", "[]"}); break;
    default: s += "[" + ws() + num() + ws() + "]";
    }
    s += ws();
    if (r.chance(5))
      s += std::string(1 + r.below(20), '\0');
  }
  s += (r.chance(95) ? std::string(1, obj ? '}' : ']') : std::string("")) + ws();
  return s;
}
static std::string num_text(Rng &r) { return r.chance(50) ? ref::gen_num(r) : ng::spell(r, ng::exact(ng::rnd_double(r))); }
static std::string top_text(Rng &r)
{
  ref::GenOpt g;
  g.max_depth = 2;
  auto any = [&]() { return ref::print(ref::gen(r, g), &r, int(r.below(3))); };
  auto str = [&]() { return "\"" + ref::gen_raw(r, g) + "\""; };
  auto inner = [&]() { return "{\"name\":" + str() + ",\"num\":" + num_text(r) + ",\"ints\":[" + ref::gen_num(r) + "]}"; };
  std::vector<std::string> m = {"\"a\":" + str(), "\"b\":" + ref::gen_num(r), "\"c\":" + num_text(r), "\"d\":true", "\"e\":[" + str() + "," + str() + "]", "\"f\":" + inner(),
                                "\"g\":[" + inner() + "," + inner() + "]", "\"h\":" + any(), "\"i\":{" + str() + ":" + str() + "}", "\"j\":" + num_text(r), "\"k\":" + ref::gen_num(r), "\"zz\":" + any()};
  std::string s = "{";
  for (size_t i = 0; i < m.size(); i++)
    if (r.chance(85))
      s += (s.size() > 1 ? "," : "") + std::string(r.chance(20) ? r.below(40) : 0, ' ') + m[i];
  return s + "}";
}
