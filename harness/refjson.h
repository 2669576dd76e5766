// Independent reference model of JSON (RFC 8259): DOM, strict parser, escape codec, random generator,
// and the token sequence a faithful tokenizer must deliver. Shares no code with the library under test.
#pragma once
#include "common.h"
#include <memory>

namespace ref
{
using vh::Rng;
enum Kind
{
  Null,
  Bool,
  Num,
  Str,
  Arr,
  Obj
};

struct Val;
typedef std::pair<std::string, Val> Member; // raw key text (between the quotes), value
struct Val
{
  Kind k = Null;
  bool b = false;
  std::string raw; // number lexeme, or raw string content (escapes not decoded)
  double num = 0;  // expected number when raw is "~": any lexeme that denotes exactly this value
  bool is_float = false;
  std::vector<Val> a;
  std::vector<std::pair<std::string, Val>> o;
};

inline void utf8(std::string &out, uint32_t cp)
{
  if (cp < 0x80)
    out += char(cp);
  else if (cp < 0x800)
  {
    out += char(0xC0 | (cp >> 6));
    out += char(0x80 | (cp & 63));
  }
  else if (cp < 0x10000)
  {
    out += char(0xE0 | (cp >> 12));
    out += char(0x80 | ((cp >> 6) & 63));
    out += char(0x80 | (cp & 63));
  }
  else
  {
    out += char(0xF0 | (cp >> 18));
    out += char(0x80 | ((cp >> 12) & 63));
    out += char(0x80 | ((cp >> 6) & 63));
    out += char(0x80 | (cp & 63));
  }
}
inline int hexv(char c)
{
  if (c >= '0' && c <= '9')
    return c - '0';
  if (c >= 'a' && c <= 'f')
    return c - 'a' + 10;
  if (c >= 'A' && c <= 'F')
    return c - 'A' + 10;
  return -1;
}
// decode the content of a string literal; false if it is not valid (bad escape, lone surrogate)
inline bool decode(const std::string &raw, std::string &out)
{
  out.clear();
  for (size_t i = 0; i < raw.size(); i++)
  {
    if (raw[i] != '\\')
    {
      out += raw[i];
      continue;
    }
    if (++i >= raw.size())
      return false;
    switch (raw[i])
    {
    case '"': out += '"'; break;
    case '\\': out += '\\'; break;
    case '/': out += '/'; break;
    case 'b': out += '\b'; break;
    case 'f': out += '\f'; break;
    case 'n': out += '\n'; break;
    case 'r': out += '\r'; break;
    case 't': out += '\t'; break;
    case 'u': {
      auto hex4 = [&](size_t at, uint32_t &v) {
        if (at + 4 > raw.size())
          return false;
        v = 0;
        for (size_t j = 0; j < 4; j++)
        {
          int h = hexv(raw[at + j]);
          if (h < 0)
            return false;
          v = v * 16 + uint32_t(h);
        }
        return true;
      };
      uint32_t hi, lo;
      if (!hex4(i + 1, hi))
        return false;
      i += 4;
      if (hi >= 0xD800 && hi < 0xDC00)
      {
        if (i + 2 < raw.size() && raw[i + 1] == '\\' && raw[i + 2] == 'u' && hex4(i + 3, lo) && lo >= 0xDC00 && lo < 0xE000)
        {
          i += 6;
          utf8(out, 0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00));
        }
        else
          return false;
      }
      else if (hi >= 0xDC00 && hi < 0xE000)
        return false;
      else
        utf8(out, hi);
      break;
    }
    default: return false;
    }
  }
  return true;
}
inline std::string decoded(const std::string &raw)
{
  std::string o;
  decode(raw, o);
  return o;
}
inline std::string hex4(unsigned v, bool upper)
{
  char b[8];
  snprintf(b, sizeof b, upper ? "%04X" : "%04x", v);
  return b;
}
// canonical encoding
inline std::string encode(const std::string &s)
{
  std::string o;
  for (unsigned char c : s)
  {
    switch (c)
    {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\b': o += "\\b"; break;
    case '\f': o += "\\f"; break;
    case '\n': o += "\\n"; break;
    case '\r': o += "\\r"; break;
    case '\t': o += "\\t"; break;
    default:
      if (c < 0x20)
        o += "\\u" + hex4(c, false);
      else
        o += char(c);
    }
  }
  return o;
}

// ---- strict parser ------------------------------------------------------------------------------
struct Parser
{
  const std::string &s;
  size_t i = 0;
  std::string err;
  bool array_comma = false; // tolerate one trailing comma before ']' (the library's documented tests rely on it)
  explicit Parser(const std::string &t, bool ac = false) : s(t), array_comma(ac) {}
  bool fail(const char *m)
  {
    if (err.empty())
      err = std::string(m) + " at " + std::to_string(i);
    return false;
  }
  void ws()
  {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'))
      i++;
  }
  bool string(std::string &raw)
  {
    if (i >= s.size() || s[i] != '"')
      return fail("expected string");
    size_t st = ++i;
    while (i < s.size() && s[i] != '"')
    {
      if ((unsigned char)s[i] < 0x20)
        return fail("raw control character in string");
      if (s[i] == '\\')
        i++;
      i++;
    }
    if (i >= s.size())
      return fail("unterminated string");
    raw = s.substr(st, i - st);
    i++;
    std::string tmp;
    // validate the escapes, tolerating lone surrogates (grammatically valid)
    for (size_t j = 0; j < raw.size(); j++)
      if (raw[j] == '\\')
      {
        j++;
        char c = raw[j];
        if (c == 'u')
        {
          for (int q = 1; q <= 4; q++)
            if (j + size_t(q) >= raw.size() || hexv(raw[j + size_t(q)]) < 0)
              return fail("bad \\u escape");
          j += 4;
        }
        else if (!strchr("\"\\/bfnrt", c) || !c)
          return fail("bad escape");
      }
    return true;
  }
  bool number(std::string &raw)
  {
    size_t st = i;
    auto dig = [&] { return i < s.size() && s[i] >= '0' && s[i] <= '9'; };
    if (i < s.size() && s[i] == '-')
      i++;
    if (!dig())
      return fail("bad number");
    if (s[i] == '0')
      i++;
    else
      while (dig())
        i++;
    if (i < s.size() && s[i] == '.')
    {
      i++;
      if (!dig())
        return fail("bad fraction");
      while (dig())
        i++;
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
      i++;
      if (i < s.size() && (s[i] == '+' || s[i] == '-'))
        i++;
      if (!dig())
        return fail("bad exponent");
      while (dig())
        i++;
    }
    raw = s.substr(st, i - st);
    return true;
  }
  bool value(Val &v, int depth = 0)
  {
    if (depth > 5000)
      return fail("too deep");
    ws();
    if (i >= s.size())
      return fail("unexpected end");
    char c = s[i];
    if (c == '{')
    {
      v.k = Obj;
      i++;
      ws();
      if (i < s.size() && s[i] == '}')
      {
        i++;
        return true;
      }
      for (;;)
      {
        ws();
        v.o.emplace_back();
        if (!string(v.o.back().first))
          return false;
        ws();
        if (i >= s.size() || s[i] != ':')
          return fail("expected ':'");
        i++;
        if (!value(v.o.back().second, depth + 1))
          return false;
        ws();
        if (i < s.size() && s[i] == ',')
        {
          i++;
          continue;
        }
        if (i < s.size() && s[i] == '}')
        {
          i++;
          return true;
        }
        return fail("expected ',' or '}'");
      }
    }
    if (c == '[')
    {
      v.k = Arr;
      i++;
      ws();
      if (i < s.size() && s[i] == ']')
      {
        i++;
        return true;
      }
      for (;;)
      {
        if (array_comma && !v.a.empty())
        {
          ws();
          if (i < s.size() && s[i] == ']')
          {
            i++;
            return true;
          }
        }
        v.a.emplace_back();
        if (!value(v.a.back(), depth + 1))
          return false;
        ws();
        if (i < s.size() && s[i] == ',')
        {
          i++;
          continue;
        }
        if (i < s.size() && s[i] == ']')
        {
          i++;
          return true;
        }
        return fail("expected ',' or ']'");
      }
    }
    if (c == '"')
    {
      v.k = Str;
      return string(v.raw);
    }
    auto word = [&](const char *w) {
      size_t n = strlen(w);
      if (s.compare(i, n, w) == 0)
      {
        i += n;
        return true;
      }
      return false;
    };
    if (word("true"))
    {
      v.k = Bool;
      v.b = true;
      return true;
    }
    if (word("false"))
    {
      v.k = Bool;
      return true;
    }
    if (word("null"))
    {
      v.k = Null;
      return true;
    }
    v.k = Num;
    return number(v.raw);
  }
};
// whole text must be one JSON value
inline bool parse(const std::string &t, Val &v, std::string *err = nullptr)
{
  Parser p(t);
  v = Val();
  bool ok = p.value(v);
  if (ok)
  {
    p.ws();
    if (p.i != t.size())
      ok = p.fail("trailing text");
  }
  if (!ok && err)
    *err = p.err;
  return ok;
}
// a string literal's denoted text: decoded if decodable, otherwise raw
inline std::string denote(const std::string &raw)
{
  std::string d;
  return decode(raw, d) ? d : raw;
}
// structural equality of the denoted values. Numbers by lexeme unless numeric.
inline bool same(const Val &x, const Val &y, std::string path, std::string *why)
{
  auto no = [&](const std::string &m) {
    if (why)
      *why = path + ": " + m;
    return false;
  };
  if (x.k != y.k)
    return no("kind " + std::to_string(x.k) + " vs " + std::to_string(y.k));
  switch (x.k)
  {
  case Null: return true;
  case Bool: return x.b == y.b ? true : no("bool");
  case Num:
    if (x.raw == "~")
      return (x.is_float ? double(strtof(y.raw.c_str(), nullptr)) : strtod(y.raw.c_str(), nullptr)) == x.num ? true : no("number " + std::to_string(x.num) + " vs " + y.raw);
    return x.raw == y.raw ? true : no("number " + x.raw + " vs " + y.raw);
  case Str: return denote(x.raw) == denote(y.raw) ? true : no("string '" + x.raw + "' vs '" + y.raw + "'");
  case Arr:
    if (x.a.size() != y.a.size())
      return no("array size " + std::to_string(x.a.size()) + " vs " + std::to_string(y.a.size()));
    for (size_t i = 0; i < x.a.size(); i++)
      if (!same(x.a[i], y.a[i], path + "[" + std::to_string(i) + "]", why))
        return false;
    return true;
  case Obj:
    if (x.o.size() != y.o.size())
      return no("member count " + std::to_string(x.o.size()) + " vs " + std::to_string(y.o.size()));
    for (size_t i = 0; i < x.o.size(); i++)
    {
      if (denote(x.o[i].first) != denote(y.o[i].first))
        return no("name '" + x.o[i].first + "' vs '" + y.o[i].first + "'");
      if (!same(x.o[i].second, y.o[i].second, path + "." + x.o[i].first, why))
        return false;
    }
    return true;
  }
  return true;
}

// ---- generator ----------------------------------------------------------------------------------
struct GenOpt
{
  int max_depth = 5;
  int max_width = 6;
  bool escapes = true;  // escapes and non-ASCII in strings
  bool unique = false;  // unique member names per object
  bool empty_names = true;
  bool nul = false;     // raw NUL / control bytes in strings (not valid JSON)
  int long_strings = 10; // percent
  int long_numbers = 5;
};

inline size_t interesting_len(Rng &r)
{
  static const size_t L[] = {0, 1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 47, 48, 49, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 255, 256, 257};
  static const size_t B[] = {511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
  static const size_t H[] = {8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537};
  uint64_t k = r.below(600);
  if (k < 1)
    return H[r.below(sizeof H / sizeof *H)];
  if (k < 13)
    return B[r.below(sizeof B / sizeof *B)];
  return L[r.below(sizeof L / sizeof *L)];
}
// number of children of a container; wide ones (count in hundreds) only hold shallow children
inline size_t gen_width(Rng &r, int max_width, bool &wide)
{
  wide = r.below(700) == 0;
  if (!wide)
    return r.below(uint64_t(max_width) + 1);
  return r.chance(10) ? 900 + r.below(300) : r.chance(50) ? interesting_len(r) % 300 : 10 + r.below(300);
}
inline void gen_char(Rng &r, std::string &out, bool escapes)
{
  int w = int(r.below(escapes ? 20 : 12));
  static const char plain[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-+.,:;{}[]()<>/*#!?'=&%$@^~|`";
  if (w < 10)
    out += plain[r.below(sizeof plain - 1)];
  else if (w < 12)
    out += "{}[]:,/*"[r.below(8)];
  else if (w < 15)
  {
    out += '\\';
    out += "\"\\/bfnrt"[r.below(8)];
  }
  else if (w < 16)
  {
    uint32_t cp;
    do
      cp = r.chance(50) ? uint32_t(1 + r.below(0x7ff)) : uint32_t(r.below(0x10000));
    while ((cp >= 0xD800 && cp < 0xE000) || cp == 0);
    out += "\\u" + hex4(cp, r.chance(50));
  }
  else if (w < 17)
  {
    uint32_t cp = uint32_t(0x10000 + r.below(0x100000));
    bool u = r.chance(50);
    out += "\\u" + hex4(0xD800 + ((cp - 0x10000) >> 10), u) + "\\u" + hex4(0xDC00 + ((cp - 0x10000) & 0x3ff), u);
  }
  else
  {
    uint32_t cp;
    do
      cp = r.chance(50) ? uint32_t(0x80 + r.below(0x780)) : uint32_t(0x800 + r.below(0x10f800 - 0x800));
    while (cp >= 0xD800 && cp < 0xE000);
    utf8(out, cp);
  }
}
// raw content of a string literal
inline std::string gen_raw(Rng &r, const GenOpt &o)
{
  std::string s;
  size_t n = r.chance(o.long_strings) ? interesting_len(r) : r.below(9);
  int style = int(r.below(4)); // 0: anything; 1: plain with one special near the end/anywhere; 2: plain; 3 runs of backslashes
  if (style == 3 && o.escapes && r.chance(30))
  {
    size_t pre = r.below(40);
    for (size_t i = 0; i < pre; i++)
      s += char('a' + i % 26);
    size_t k = 1 + r.below(20);
    for (size_t i = 0; i < k; i++)
      s += r.chance(80) ? "\\\\" : "\\\"";
    size_t post = r.below(3);
    for (size_t i = 0; i < post; i++)
      s += 'z';
    return s;
  }
  size_t sp = r.below(n + 1);
  for (size_t i = 0; i < n; i++)
  {
    if (style == 0 || (style == 1 && i == sp))
      gen_char(r, s, o.escapes);
    else
      gen_char(r, s, false);
  }
  return s;
}
inline std::string digits(Rng &r, size_t n)
{
  std::string s;
  for (size_t i = 0; i < n; i++)
    s += char('0' + r.below(10));
  return s;
}
// a valid JSON number
inline std::string gen_num(Rng &r, int long_percent = 5)
{
  std::string s;
  if (r.chance(30))
    s += '-';
  if (r.chance(20))
    s += '0';
  else
  {
    s += char('1' + r.below(9));
    s += digits(r, r.chance(long_percent) ? interesting_len(r) : r.below(6));
  }
  if (r.chance(35))
    s += "." + digits(r, 1 + (r.chance(long_percent) ? interesting_len(r) : r.below(8)));
  if (r.chance(25))
  {
    s += r.chance(50) ? 'e' : 'E';
    int sg = int(r.below(3));
    if (sg == 1)
      s += '+';
    if (sg == 2)
      s += '-';
    s += digits(r, 1 + r.below(2));
  }
  return s;
}
inline std::string gen_name(Rng &r, const GenOpt &o)
{
  static const char *common[] = {"a", "b", "c", "id", "name", "value", "x", "true", "null", "false", "key", "0", "longer_member_name_over_16", "a.b", " "};
  std::string s;
  do
  {
    if (r.chance(60))
      s = r.pick(common);
    else
      s = gen_raw(r, o);
  } while (s.empty() && !o.empty_names);
  return s;
}
inline Val gen(Rng &r, const GenOpt &o, int depth = 0, bool root = true)
{
  Val v;
  int kinds = depth >= o.max_depth ? 5 : 8;
  int k = root ? 6 + int(r.below(2)) : int(r.below(uint64_t(kinds)));
  switch (k)
  {
  case 0: v.k = Null; break;
  case 1:
    v.k = Bool;
    v.b = r.chance(50);
    break;
  case 2:
  case 3:
    v.k = Num;
    v.raw = gen_num(r, o.long_numbers);
    break;
  case 4:
  case 5:
    v.k = Str;
    v.raw = gen_raw(r, o);
    break;
  case 6: {
    v.k = Arr;
    bool wide;
    size_t n = gen_width(r, o.max_width, wide);
    for (size_t i = 0; i < n; i++)
      v.a.push_back(gen(r, o, wide && !r.chance(2) ? o.max_depth : depth + 1, false));
    break;
  }
  case 7: {
    v.k = Obj;
    bool wide;
    size_t n = gen_width(r, o.max_width, wide);
    std::set<std::string> used;
    for (size_t i = 0; i < n; i++)
    {
      std::string nm = gen_name(r, o);
      if (wide && r.chance(80))
        nm = "m" + std::to_string(r.below(5000));
      if (o.unique && !used.insert(denote(nm)).second)
        continue;
      v.o.emplace_back(nm, gen(r, o, wide && !r.chance(2) ? o.max_depth : depth + 1, false));
    }
    break;
  }
  }
  return v;
}

// ---- tokens -------------------------------------------------------------------------------------
// Numeric values chosen to match the public JS::Type enumerators; checked with static_asserts in jsutil.h
enum TT
{
  T_String = 1,
  T_Ascii = 2,
  T_Number = 3,
  T_ObjectStart = 4,
  T_ObjectEnd = 5,
  T_ArrayStart = 6,
  T_ArrayEnd = 7,
  T_Bool = 8,
  T_Null = 9
};
struct Tok
{
  std::string name;
  int name_type = T_Ascii;
  std::string value;
  int value_type = 0;
  bool operator==(const Tok &o) const { return name == o.name && name_type == o.name_type && value == o.value && value_type == o.value_type; }
  bool operator!=(const Tok &o) const { return !(*this == o); }
};
inline std::string showtok(const Tok &t)
{
  return "<" + vh::show(t.name, 80) + "/" + std::to_string(t.name_type) + " : " + vh::show(t.value, 80) + "/" + std::to_string(t.value_type) + ">";
}
inline std::string showtoks(const std::vector<Tok> &v, size_t max = 12)
{
  std::string s;
  for (size_t i = 0; i < v.size() && i < max; i++)
    s += showtok(v[i]) + " ";
  if (v.size() > max)
    s += "...";
  return s;
}
inline void tokens(const Val &v, const std::string *name, std::vector<Tok> &out)
{
  Tok t;
  if (name)
  {
    t.name = *name;
    t.name_type = T_String;
  }
  switch (v.k)
  {
  case Null:
    t.value = "null";
    t.value_type = T_Null;
    break;
  case Bool:
    t.value = v.b ? "true" : "false";
    t.value_type = T_Bool;
    break;
  case Num:
    t.value = v.raw;
    t.value_type = T_Number;
    break;
  case Str:
    t.value = v.raw;
    t.value_type = T_String;
    break;
  case Arr:
    t.value = "[";
    t.value_type = T_ArrayStart;
    break;
  case Obj:
    t.value = "{";
    t.value_type = T_ObjectStart;
    break;
  }
  out.push_back(t);
  if (v.k == Arr)
  {
    for (auto &e : v.a)
      tokens(e, nullptr, out);
    Tok e;
    e.value = "]";
    e.value_type = T_ArrayEnd;
    out.push_back(e);
  }
  if (v.k == Obj)
  {
    for (auto &m : v.o)
      tokens(m.second, &m.first, out);
    Tok e;
    e.value = "}";
    e.value_type = T_ObjectEnd;
    out.push_back(e);
  }
}

// ---- printer ------------------------------------------------------------------------------------
// Relaxed syntax decoration
struct Relax
{
  bool ascii_names = false, ascii_values = false, newline = false, commas = false, comments = false;
  bool used_ascii = false, used_newline = false, used_comma = false, used_comment = false;
};
struct Printer
{
  Rng *r = nullptr; // whitespace source, null = none
  int ws = 0;       // 0 none, 1 some, 2 a lot
  std::string out;
  std::vector<size_t> marks; // offsets of token boundaries, interesting places for cuts
  void space(bool newlines = true)
  {
    if (!r || ws == 0)
      return;
    size_t n = 0;
    if (ws == 1)
      n = r->chance(30) ? r->below(3) : 0;
    else
      n = r->chance(20) ? interesting_len(*r) % 70 : r->below(4);
    for (size_t i = 0; i < n; i++)
      out += " \t\n\r"[r->below(newlines ? 4 : 2)];
  }
  void mark() { marks.push_back(out.size()); }
  void val(const Val &v)
  {
    mark();
    switch (v.k)
    {
    case Null: out += "null"; break;
    case Bool: out += v.b ? "true" : "false"; break;
    case Num:
      if (v.raw == "~")
      {
        char b[40];
        snprintf(b, sizeof b, "%.*g", v.is_float ? 9 : 17, v.num);
        out += b;
      }
      else
        out += v.raw;
      break;
    case Str: out += "\"" + v.raw + "\""; break;
    case Arr:
      out += "[";
      space();
      for (size_t i = 0; i < v.a.size(); i++)
      {
        if (i)
        {
          out += ",";
          mark();
          space();
        }
        val(v.a[i]);
        space();
      }
      out += "]";
      break;
    case Obj:
      out += "{";
      space();
      for (size_t i = 0; i < v.o.size(); i++)
      {
        if (i)
        {
          out += ",";
          mark();
          space();
        }
        mark();
        out += "\"" + v.o[i].first + "\"";
        mark();
        space();
        out += ":";
        space();
        val(v.o[i].second);
        space();
      }
      out += "}";
      break;
    }
    mark();
  }
};
inline std::string print(const Val &v, Rng *r = nullptr, int ws = 0)
{
  Printer p;
  p.r = r;
  p.ws = ws;
  p.space();
  p.val(v);
  p.space();
  return p.out;
}
} // namespace ref
