// Relaxed syntax: a reference parser for documents under any set of options, and a generator that
// decorates a document with relaxations. Shares no code with the library under test.
#pragma once
#include "jsutil.h"
#include "malgen.h"
namespace rx
{
using namespace ref;
using vh::Rng;
enum Verdict
{
  Good,
  Unclaimed, // a corner whose treatment is not part of any claim
  Bad
};
struct Ref
{
  const std::string &t;
  ju::Opts o;
  size_t i = 0;
  std::vector<Tok> toks;
  bool unclaimed = false;
  std::string why;

  Ref(const std::string &text, const ju::Opts &opts) : t(text), o(opts) {}
  bool bad(const std::string &s)
  {
    if (why.empty())
      why = s + " at " + std::to_string(i);
    return false;
  }
  static bool wordish(char c) { return isalnum((unsigned char)c) || c == '_' || c == '^' || c == '`' || c == '/' || c == '.' || c == '-' || c == '\''; }
  // white space and comments; nl: a line break was passed
  bool space(bool &nl)
  {
    for (; i < t.size(); i++)
    {
      char c = t[i];
      if (c == '\n')
        nl = true;
      else if (c == ' ' || c == '\t' || c == '\r')
        ;
      else if (c == 0 || c == '\v' || c == '\f')
        unclaimed = true;
      else if (c == '/' && o.comments && i + 1 < t.size() && t[i + 1] == '/')
      {
        while (i < t.size() && t[i] != '\n')
          i++;
        if (i == t.size())
          return bad("unfinished comment");
        nl = true;
      }
      else
        return true;
    }
    return bad("end of text");
  }
  bool string(std::string &raw)
  {
    size_t a = ++i;
    while (i < t.size() && t[i] != '"')
      i += t[i] == '\\' ? 2 : 1;
    if (i >= t.size())
      return bad("unfinished string");
    raw = t.substr(a, i - a);
    i++;
    return true;
  }
  std::string word()
  {
    size_t a = i;
    while (i < t.size() && wordish(t[i]))
    {
      if (t[i] == '^' || t[i] == '`' || t[i] == '\'' || (t[i] == '/' && i > a && t[i - 1] == '/'))
        unclaimed = true; // which other characters a word may hold, and comments right behind a word
      i++;
    }
    return t.substr(a, i - a);
  }
  bool starts_word() const
  {
    char c = t[i];
    if (isalpha((unsigned char)c))
      return true;
    return o.ascii && (c == '_' || c == '.' || c == '^' || c == '`' || (c == '/' && !(i + 1 < t.size() && t[i + 1] == '/')));
  }
  bool value(Tok k, int depth, bool &container)
  {
    char c = t[i];
    container = false;
    if (c == '"')
    {
      k.value_type = T_String;
      if (!string(k.value))
        return false;
      toks.push_back(k);
      return true;
    }
    if (c == '-' || c == '+' || isdigit((unsigned char)c))
    {
      size_t a = i;
      while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '+' || t[i] == '-' || t[i] == '.'))
        i++;
      k.value = t.substr(a, i - a);
      k.value_type = T_Number;
      Val v;
      if (!ref::parse("[" + k.value + "]", v))
        unclaimed = true; // spelling of numbers
      toks.push_back(k);
      return true;
    }
    if (starts_word())
    {
      k.value = word();
      k.value_type = k.value == "null" ? T_Null : k.value == "true" || k.value == "false" ? T_Bool : T_Ascii;
      if (k.value_type == T_Ascii && !o.ascii)
        return bad("unquoted value");
      toks.push_back(k);
      return true;
    }
    if (c == '{' || c == '[')
    {
      container = true;
      return open(k, depth + 1);
    }
    return bad("no value");
  }
  bool open(Tok k, int depth)
  {
    const bool obj = t[i] == '{';
    const char close = obj ? '}' : ']';
    k.value = obj ? "{" : "[";
    k.value_type = obj ? T_ObjectStart : T_ArrayStart;
    toks.push_back(k);
    i++;
    bool nl = false;
    if (!space(nl))
      return false;
    bool comma = false, last_container = false, first = true;
    for (;;)
    {
      if (t[i] == close)
      {
        if (comma && !o.comma)
        {
          if (obj || last_container)
            return bad("trailing comma");
          unclaimed = true; // a trailing comma in an array behind a scalar
        }
        Tok e;
        e.value = std::string(1, close);
        e.value_type = obj ? T_ObjectEnd : T_ArrayEnd;
        toks.push_back(e);
        i++;
        return true;
      }
      if (!first && !comma && !(nl && o.newline))
        return bad("no separator");
      first = false;
      Tok m;
      if (obj)
      {
        if (t[i] == '"')
        {
          m.name_type = T_String;
          if (!string(m.name))
            return false;
        }
        else if (starts_word())
        {
          m.name = word();
          m.name_type = T_Ascii;
          if (!o.ascii)
            return bad("unquoted name");
          if (m.name == "null" || m.name == "true" || m.name == "false")
            unclaimed = true;
        }
        else
          return bad("no name");
        bool n2 = false;
        if (!space(n2))
          return false;
        if (n2 && o.newline)
          unclaimed = true; // a line break between a name and its colon
        if (t[i] != ':')
          return bad("no colon");
        i++;
        if (!space(n2))
          return false;
      }
      if (!value(m, depth, last_container))
        return false;
      nl = false;
      if (!space(nl))
        return false;
      comma = false;
      if (t[i] == ',')
      {
        if (nl && o.newline)
          unclaimed = true; // the line break already was the separator
        comma = true;
        i++;
        if (!space(nl))
          return false;
      }
    }
  }
  Verdict run()
  {
    bool nl = false;
    bool ok = space(nl);
    if (ok && t[i] != '{' && t[i] != '[')
      ok = bad("root");
    ok = ok && open(Tok(), 0);
    if (unclaimed)
      return Unclaimed;
    return ok ? Good : Bad;
  }
};
// decorates; `used` collects the options without which the text is no document
struct Printer
{
  Rng &r;
  ju::Opts o;                  // relaxations that may be used
  ju::Opts on;                 // options in force (newlines are white space only when they are no separator)
  int rate;                    // percent
  ju::Opts used;
  std::string out;
  std::vector<Tok> toks;
  bool inside = false; // between the brackets of the root
  bool glued = false; // the text ends in a word or literal: a comment must not follow at once

  void comment()
  {
    if (glued)
      out += ' ';
    out += "//";
    size_t k = r.chance(25) ? interesting_len(r) : r.below(8);
    for (size_t i = 0; i < k; i++)
      out += r.chance(5) ? std::string("\xc3\xa9") : std::string(1, "abc,:{}[]\"/ \\x1\r\t'"[r.below(18)]);
    out += "\n";
    used.comments |= inside;
  }
  // breaks: line breaks may stand here although they may be separators
  void sp(bool breaks)
  {
    bool nl = breaks || !on.newline;
    size_t n = r.chance(25) ? (r.chance(10) ? interesting_len(r) : r.below(4)) : 0;
    for (size_t i = 0; i < n; i++)
      out += " \t\r\n"[r.below(nl ? 4 : 3)], glued = false;
    if (nl && o.comments && r.chance(rate / 3))
    {
      comment();
      glued = false;
      if (r.chance(30))
        sp(breaks);
    }
  }
  std::string word()
  {
    for (;;)
    {
      std::string s(1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZtfn"[r.below(55)]);
      if (r.chance(20))
        s = r.pick({"tru", "nul", "fals", "t", "n", "f", "trueX", "null_", "falsey", "e", "E", "Infinity", "NaN", "True", "NULL"});
      size_t n = r.chance(15) ? interesting_len(r) : r.below(7);
      for (size_t i = 0; i < n; i++)
        s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[r.below(63)];
      if (r.chance(30))
        for (int k = 0; k < 2; k++)
        {
          size_t at = r.below(s.size() + 1);
          s.insert(at, 1, at ? "-./_"[r.below(4)] : "./_"[r.below(3)]);
        }
      if (s != "true" && s != "false" && s != "null" && s.find("//") == std::string::npos)
        return s;
    }
  }
  static bool plain(const std::string &s)
  {
    if (s.empty() || !(isalpha((unsigned char)s[0]) || strchr("_./", s[0])) || s == "true" || s == "false" || s == "null")
      return false;
    for (char c : s)
      if (!isalnum((unsigned char)c) && !strchr("_-./", c))
        return false;
    return s.find("//") == std::string::npos && s.find('\0') == std::string::npos;
  }
  void str(const std::string &raw, std::string &text, int &type, bool invent)
  {
    if (o.ascii && r.chance(rate) && (invent || plain(raw)))
    {
      text = plain(raw) ? raw : word();
      type = T_Ascii;
      out += text;
      used.ascii = true;
      glued = true;
    }
    else
    {
      text = raw;
      type = T_String;
      out += "\"" + raw + "\"";
      glued = false;
    }
  }
  // invent: strings may be replaced by words
  void val(const Val &v, Tok k, bool invent)
  {
    glued = false;
    switch (v.k)
    {
    case Null: k.value = "null", k.value_type = T_Null, out += "null", glued = true; break;
    case Bool: k.value = v.b ? "true" : "false", k.value_type = T_Bool, out += k.value, glued = true; break;
    case Num:
      k.value = v.raw;
      if (v.raw == "~")
      {
        char b[40];
        snprintf(b, sizeof b, "%.*g", v.is_float ? 9 : 17, v.num);
        k.value = b;
      }
      k.value_type = T_Number;
      out += k.value;
      break;
    case Str: str(v.raw, k.value, k.value_type, invent); break;
    case Arr:
    case Obj: {
      const bool obj = v.k == Obj;
      k.value = obj ? "{" : "[";
      k.value_type = obj ? T_ObjectStart : T_ArrayStart;
      toks.push_back(k);
      out += k.value;
      const bool root = !inside;
      inside = true;
      size_t n = obj ? v.o.size() : v.a.size();
      sp(true);
      for (size_t i = 0; i < n; i++)
      {
        Tok m;
        if (obj)
        {
          str(v.o[i].first, m.name, m.name_type, invent);
          sp(false);
          out += ":";
          glued = false;
          sp(true);
        }
        const Val &e = obj ? v.o[i].second : v.a[i];
        val(e, m, invent);
        const bool last = i + 1 == n;
        if (!last && o.newline && r.chance(rate))
        {
          sp(false);
          if (o.comments && r.chance(30))
            comment();
          else
            out += r.chance(20) ? "\r\n" : "\n";
          used.newline = true;
          glued = false;
          sp(true);
        }
        else if (!last)
        {
          sp(false);
          out += ",";
          glued = false;
          sp(true);
        }
        else
        {
          if (o.comma && r.chance(rate))
          {
            sp(false);
            out += ",";
            glued = false;
            if (obj || e.k == Arr || e.k == Obj)
              used.comma = true;
          }
          sp(true);
        }
      }
      Tok e;
      e.value = obj ? "}" : "]";
      e.value_type = obj ? T_ObjectEnd : T_ArrayEnd;
      toks.push_back(e);
      out += e.value;
      glued = false;
      inside = !root;
      return;
    }
    }
    toks.push_back(k);
  }
};
} // namespace rx
