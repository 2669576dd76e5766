// Mutated and deep documents shared by several monitors.
#pragma once
#include "refjson.h"
namespace ref
{
using vh::show;
inline void lexemes(const Val &v, std::vector<std::string> &out)
{
  switch (v.k)
  {
  case Null: out.push_back("null"); break;
  case Bool: out.push_back(v.b ? "true" : "false"); break;
  case Num: out.push_back(v.raw); break;
  case Str: out.push_back("\"" + v.raw + "\""); break;
  case Arr:
    out.push_back("[");
    for (size_t i = 0; i < v.a.size(); i++)
    {
      if (i)
        out.push_back(",");
      lexemes(v.a[i], out);
    }
    out.push_back("]");
    break;
  case Obj:
    out.push_back("{");
    for (size_t i = 0; i < v.o.size(); i++)
    {
      if (i)
        out.push_back(",");
      out.push_back("\"" + v.o[i].first + "\"");
      out.push_back(":");
      lexemes(v.o[i].second, out);
    }
    out.push_back("}");
    break;
  }
}

inline Val deep(Rng &r, int depth)
{
  Val leaf;
  leaf.k = Num;
  leaf.raw = "7";
  Val v = leaf;
  for (int i = 0; i < depth; i++)
  {
    Val w;
    if (r.chance(50))
    {
      w.k = Arr;
      if (r.chance(20))
        w.a.push_back(leaf);
      w.a.push_back(std::move(v));
      if (r.chance(20))
        w.a.push_back(leaf);
    }
    else
    {
      w.k = Obj;
      if (r.chance(20))
        w.o.emplace_back("p", leaf);
      w.o.emplace_back("q", std::move(v));
      if (r.chance(20))
        w.o.emplace_back("r", leaf);
    }
    v = std::move(w);
  }
  return v;
}

// an unquoted word that is not a literal, most of the time one edit away from a literal
inline std::string near_word(Rng &r)
{
  static const char *lit[] = {"true", "false", "null"};
  static const char alpha[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
  std::string w = r.pick(lit);
  if (r.chance(20))
  {
    w.clear();
    for (int n = r.range(1, 24); n > 0; n--)
      w += alpha[r.below(sizeof(alpha) - 1)];
    return w;
  }
  size_t at = r.below(w.size());
  char c = r.chance(70) ? alpha[r.below(26)] : alpha[r.below(sizeof(alpha) - 1)];
  switch (r.below(5))
  {
  case 0:
    w[at] = c;
    break;
  case 1:
    w.insert(w.begin() + long(at), c);
    break;
  case 2:
    w.erase(w.begin() + long(at));
    break;
  case 3:
    w[at] = char(toupper(w[at]));
    break;
  case 4:
    w += c;
    break;
  }
  return w;
}

// a document with a few lexemes changed; false when it does not start with a container
inline bool mutated(Rng &r, std::string &text, std::string &how)
{
  GenOpt o;
  o.max_depth = r.range(1, 4);
  o.max_width = r.range(1, 4);
  o.escapes = false;
  std::vector<std::string> lx;
  Val v = r.chance(12) ? deep(r, r.chance(70) ? r.range(4, 40) : r.range(40, 300)) : gen(r, o);
  lexemes(v, lx);
  static const char *ins[] = {",", ":", "{", "}", "[", "]", "\"s\"", "1", "true", "null", "abc", "false", "/*c*/", "//c\n", "tru", "nul", "nulls", "True", ";", "@", "'", "(", "#", "\x80", "&", "="};
  int n = r.chance(80) ? 1 : 2;
  how.clear();
  for (int i = 0; i < n && !lx.empty(); i++)
  {
    size_t at = r.below(lx.size());
    switch (r.below(7))
    {
    case 6: // the other kind of bracket
    {
      std::vector<size_t> br;
      for (size_t k = 1; k < lx.size(); k++)
        if (lx[k].size() == 1 && strchr("{}[]", lx[k][0]))
          br.push_back(k);
      if (br.empty())
        break;
      char &c = lx[r.pick(br)][0];
      c = c == '{' ? '[' : c == '[' ? '{' : c == '}' ? ']' : '}';
      how += "other bracket;";
      break;
    }
    case 5:
      lx[at] = near_word(r);
      how += "word " + lx[at] + ";";
      break;
    case 0:
      how += "delete " + lx[at] + ";";
      lx.erase(lx.begin() + long(at));
      break;
    case 1:
      how += "duplicate " + lx[at] + ";";
      lx.insert(lx.begin() + long(at), lx[at]);
      break;
    case 2:
      lx[at] = r.pick(ins);
      how += "replace by " + lx[at] + ";";
      break;
    case 3:
    {
      std::string x = r.pick(ins);
      lx.insert(lx.begin() + long(at) + long(r.below(2)), x);
      how += "insert " + x + ";";
      break;
    }
    case 4:
    {
      size_t b = r.below(lx.size());
      std::swap(lx[at], lx[b]);
      how += "swap;";
      break;
    }
    }
  }
  if (lx.empty() || (lx[0] != "{" && lx[0] != "["))
    return false;
  text.clear();
  int style = int(r.below(3));
  for (size_t i = 0; i < lx.size(); i++)
  {
    if (i)
    {
      auto wordy = [](char c) { return !strchr("{}[]:,\"", c); };
      bool need = wordy(lx[i - 1].back()) && wordy(lx[i][0]);
      if (need || style == 2 || (style == 1 && r.chance(30)))
        text += " \n\t\r"[r.below(4)];
    }
    text += lx[i];
  }
  return true;
}
// Malformed: neither well formed nor one of the accepted leniencies (a trailing comma in an array).
enum Verdict
{
  Good,
  Lenient,
  Bad
};
// verdict on the first value of the text; what follows it is not looked at
inline Verdict judge(const std::string &text, Val *first = nullptr, std::string *why = nullptr)
{
  Val w, tv;
  Parser p(text);
  if (p.value(w))
  {
    if (first)
      *first = w;
    return Good;
  }
  if (why)
    *why = p.err;
  return Parser(text, true).value(tv) ? Lenient : Bad;
}
} // namespace ref
