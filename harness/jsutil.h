// Adapters between the library under test and the monitors.
#pragma once
#include "refjson.h"
#ifndef JSON_STRUCT_NO_INCLUDE
#include <json_struct/json_struct.h>
#endif
namespace ju
{
using ref::Tok;
static_assert(int(JS::Type::String) == ref::T_String && int(JS::Type::Ascii) == ref::T_Ascii && int(JS::Type::Number) == ref::T_Number &&
                int(JS::Type::ObjectStart) == ref::T_ObjectStart && int(JS::Type::ObjectEnd) == ref::T_ObjectEnd &&
                int(JS::Type::ArrayStart) == ref::T_ArrayStart && int(JS::Type::ArrayEnd) == ref::T_ArrayEnd &&
                int(JS::Type::Bool) == ref::T_Bool && int(JS::Type::Null) == ref::T_Null,
              "token kinds");

struct Opts
{
  bool ascii = false, newline = false, comma = false, comments = false;
  static Opts from(unsigned bits)
  {
    Opts o;
    o.ascii = bits & 1;
    o.newline = bits & 2;
    o.comma = bits & 4;
    o.comments = bits & 8;
    return o;
  }
  void apply(JS::Tokenizer &t) const
  {
    t.allowAsciiType(ascii);
    t.allowNewLineAsTokenDelimiter(newline);
    t.allowSuperfluousComma(comma);
    t.allowComments(comments);
  }
  std::string str() const
  {
    return std::string(ascii ? "A" : "-") + (newline ? "N" : "-") + (comma ? "C" : "-") + (comments ? "/" : "-");
  }
};
inline Tok tok(const JS::Token &t)
{
  Tok k;
  k.name.assign(t.name.data, t.name.size);
  k.name_type = int(t.name_type);
  k.value.assign(t.value.data, t.value.size);
  k.value_type = int(t.value_type);
  return k;
}
struct Stream
{
  std::vector<Tok> toks;
  JS::Error err = JS::Error::NoError;
  std::string errstr;
  bool runaway = false;
};
enum Delivery
{
  UpFront,   // all buffers added before the first token
  Callback,  // one buffer per need-more-data callback
  AddLater,  // next buffer added after nextToken returned NeedMoreData
};
// Tokenize `parts` until an error; token contents are copied at once, while still valid.
// Every buffer is an exact heap allocation; when `poison`, released buffers are freed at once (ASan sees later use).
inline Stream tokenize(const std::vector<std::string> &parts, const Opts &o, Delivery d, bool poison = false)
{
  Stream s;
  size_t total = 0;
  std::vector<vh::Exact> bufs;
  bufs.reserve(parts.size());
  for (auto &p : parts)
  {
    bufs.emplace_back(p);
    total += p.size();
  }
  JS::Tokenizer t;
  o.apply(t);
  size_t next = 0;
  std::function<void(const char *)> rel = [&](const char *p) {
    for (auto &b : bufs)
      if (b.p == p)
      {
        free(b.p);
        b.p = nullptr;
        return;
      }
  };
  if (poison)
    t.setReleaseCallback(rel);
  auto feed = [&](JS::Tokenizer &tk) {
    if (next < bufs.size())
    {
      tk.addData(bufs[next].p, bufs[next].n);
      next++;
    }
  };
  if (d == UpFront)
    while (next < bufs.size())
      feed(t);
  else
  {
    feed(t);
    if (d == Callback)
      t.setNeedMoreDataCallback([&](JS::Tokenizer &tk) { feed(tk); });
  }
  JS::Token k;
  for (;;)
  {
    s.err = t.nextToken(k);
    if (s.err == JS::Error::NoError)
    {
      s.toks.push_back(tok(k));
      if (s.toks.size() > 4 * total + 16)
      {
        s.runaway = true;
        break;
      }
      continue;
    }
    if (s.err == JS::Error::NeedMoreData && d != UpFront && next < bufs.size())
    {
      feed(t);
      continue;
    }
    break;
  }
  s.errstr = t.makeErrorString();
  return s;
}
inline Stream tokenize(const std::string &text, const Opts &o = Opts()) { return tokenize(std::vector<std::string>{text}, o, UpFront); }
} // namespace ju
