// C12: string literals decode to exactly the text they denote; text encodes so that it decodes back.
#define JS_STL_MAP 1
#define JS_STD_UNORDERED_MAP 1
#include <map>
#include <unordered_map>
#include "jsutil.h"
using namespace vh;

struct Holder
{
  int before = 0;
  std::string s;
  int after = 0;
  JS_OBJ(before, s, after);
};
static void parse_parts(JS::ParseContext &pc, std::vector<Exact> &bufs, const std::string &doc, const std::vector<size_t> &c)
{
  bufs.clear();
  for (auto &p : split(doc, c))
    bufs.emplace_back(p);
  for (auto &b : bufs)
    pc.tokenizer.addData(b.p, b.n);
}
// every place a literal can be decoded
static void decode_check(Rng &r, const std::string &raw, const std::string &want, bool splits)
{
  std::vector<Exact> bufs;
  bufs.reserve(2000);
  eval();
  for (int rounds = 0; rounds < (splits ? 2 : 1); rounds++)
  {
    auto c = [&](const std::string &doc) { return rounds ? cuts(r, doc.size(), false) : std::vector<size_t>(); };
    {
      std::string doc = "[\"" + raw + "\"]";
      auto cc = c(doc);
      JS::ParseContext pc;
      parse_parts(pc, bufs, doc, cc);
      std::vector<std::string> v;
      JS::Error e = pc.parseTo(v);
      if (e != JS::Error::NoError || v.size() != 1 || v[0] != want)
        violation("value-decoded-wrong", "literal " + show(raw, 1200) + " cuts " + showcuts(cc) + " gave " + (v.size() ? show(v[0], 1200) : "nothing") + " expected " + show(want, 1200));
    }
    {
      std::string doc = "{\"before\":1,\"s\" : \"" + raw + "\" ,\"after\":2}";
      auto cc = c(doc);
      JS::ParseContext pc;
      parse_parts(pc, bufs, doc, cc);
      Holder h;
      h.s = "previous content";
      JS::Error e = pc.parseTo(h);
      if (e != JS::Error::NoError || h.s != want || h.before != 1 || h.after != 2)
        violation("member-decoded-wrong", "literal " + show(raw, 1200) + " cuts " + showcuts(cc) + " gave " + show(h.s, 1200));
    }
    {
      std::string doc = "{\"" + raw + "\":\"" + raw + "\"}";
      auto cc = c(doc);
      JS::ParseContext pc;
      parse_parts(pc, bufs, doc, cc);
      std::map<std::string, std::string> m;
      JS::Error e = pc.parseTo(m);
      if (e != JS::Error::NoError || m.size() != 1 || m.begin()->first != want || m.begin()->second != want)
        violation("key-decoded-wrong", "literal " + show(raw, 1200) + " cuts " + showcuts(cc) + " gave " + (m.size() ? show(m.begin()->first, 1200) : "nothing"));
    }
  }
  if (raw.find('\\') != std::string::npos || raw.size() > 8)
    seen(raw);
  count("literals_decoded");
}
static bool in_quotes(const std::string &text, const std::string &pre, const std::string &post, std::string &raw)
{
  if (text.size() < pre.size() + post.size() || text.compare(0, pre.size(), pre) || text.compare(text.size() - post.size(), post.size(), post))
    return false;
  raw = text.substr(pre.size(), text.size() - pre.size() - post.size());
  return true;
}
static void encode_check(Rng &r, const std::string &s)
{
  eval();
  JS::SerializerOptions o(JS::SerializerOptions::Compact);
  std::string t1 = JS::serializeStruct(std::vector<std::string>{s}, o), raw, back;
  auto bad = [&](const std::string &rw) {
    for (unsigned char c : rw)
      if (c < 0x20)
        return true;
    for (size_t i = 0; i < rw.size(); i++)
    {
      if (rw[i] == '"')
        return true;
      if (rw[i] == '\\')
        i++;
    }
    return !ref::decode(rw, back) || back != s;
  };
  if (!in_quotes(t1, "[\"", "\"]", raw) || bad(raw))
    violation("value-encoded-wrong", "text " + show(s, 1200) + " encoded as " + show(t1, 1200));
  std::map<std::string, int> m;
  m[s] = 1;
  std::string t2 = JS::serializeStruct(m, o);
  if (!in_quotes(t2, "{\"", "\":1}", raw) || bad(raw))
    violation("key-encoded-wrong", "text " + show(s, 1200) + " encoded as " + show(t2, 1200));
  std::unordered_map<std::string, std::string> um;
  um[s] = s;
  std::string t3 = JS::serializeStruct(um, o);
  std::unordered_map<std::string, std::string> um2;
  Exact x(t3);
  JS::ParseContext pc(x.p, x.n);
  JS::Error e = pc.parseTo(um2);
  if (e != JS::Error::NoError || um2 != um)
    violation("text-does-not-come-back", "text " + show(s, 1200) + " through " + show(t3, 1200));
  if (s.size() > 8)
    seen(s);
  count("texts_encoded");
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C12", [](uint64_t i, Rng &r) {
    if (i < 2048)
    { // every \uXXXX that denotes a character, in both cases (32 code units per case)
      for (unsigned k = 0; k < 32; k++)
      {
        unsigned cp = unsigned(i) * 32 + k;
        if (cp >= 0xD800 && cp < 0xE000)
          continue;
        std::string w;
        ref::utf8(w, cp);
        decode_check(r, "\\u" + ref::hex4(cp, k & 1), w, false);
        decode_check(r, "a\\u" + ref::hex4(cp, !(k & 1)) + "0", "a" + w + "0", false);
      }
      count("code_units_exhausted", 32);
      return;
    }
    if (i < 2048 + 288)
    { // one special character at every position of every length around the vector widths
      size_t n = (i - 2048) % 144;
      bool dec = (i - 2048) / 144;
      for (size_t p = 0; p < n; p++)
      {
        if (dec)
        {
          static const char *sp[] = {"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u00e9", "\\uD83D\\uDE00"};
          const char *s = sp[r.below(10)];
          std::string raw = std::string(p, 'x') + s + std::string(n - p - 1, 'y');
          decode_check(r, raw, ref::decoded(raw), p % 8 == 0);
        }
        else
        {
          char c = r.chance(70) ? char(r.below(32)) : "\"\\\x7f\x80"[r.below(4)];
          encode_check(r, std::string(p, 'x') + c + std::string(n - p - 1, 'y'));
        }
        count("positions_swept");
      }
      return;
    }
    ref::GenOpt go;
    go.long_strings = 30;
    if (r.chance(50))
    {
      std::string raw = ref::gen_raw(r, go), want;
      if (!ref::decode(raw, want))
        return;
      decode_check(r, raw, want, true);
      if (G().samples.size() < 2 && raw.size() > 5)
        sample(raw);
    }
    else
    {
      std::string raw = ref::gen_raw(r, go), s;
      ref::decode(raw, s);
      if (r.chance(50))
        for (auto &c : s)
          if (r.chance(20))
            c = char(r.below(128));
      encode_check(r, s);
    }
    if (i % 7 == 0)
    { // a dense surrogate pair sample
      uint32_t cp = uint32_t(0x10000 + r.below(0x100000));
      std::string w, raw = "\\u" + ref::hex4(0xD800 + ((cp - 0x10000) >> 10), r.chance(50)) + "\\u" + ref::hex4(0xDC00 + ((cp - 0x10000) & 0x3ff), r.chance(50));
      ref::utf8(w, cp);
      std::string pre(r.below(40), 'p'), post(r.below(3), 'q');
      decode_check(r, pre + raw + post, pre + w + post, true);
    }
  });
}
