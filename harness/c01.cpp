// C01: parsing arbitrary bytes is memory-safe, free of undefined behaviour, and terminates.
#include "types.h"
#include "relax.h"
#include "feed.h"
#include "c01.h"
using namespace vh;
using ref::Val;

struct Parse
{
  const Job &j;
  int err = 0;
  template <class T>
  void go(const char *)
  {
    T v{};
    for (int round = 0; round < ((j.flags & 4) ? 2 : 1); round++)
    {
      fd::Feeder f(j.parts, fd::Mode(j.delivery), j.seed);
      JS::ParseContext pc;
      ju::Opts::from(j.opts).apply(pc.tokenizer);
      pc.allow_missing_members = !(j.flags & 1);
      pc.allow_unasigned_required_members = !(j.flags & 2);
      f.attach(pc.tokenizer);
      JS::Error e = pc.parseTo(v);
      err = int(e);
      if (e != JS::Error::NoError)
      {
        std::string s = pc.makeErrorString();
        if (s.empty())
          err = -1;
      }
      else if (!f.bad.empty())
        err = -2;
    }
    if (err == 0)
    {
      std::string s = JS::serializeStruct(v);
      if (s.empty())
        err = -3;
    }
  }
};
int parse_catalogue(int which, const Job &j)
{
  Parse p{j};
  ty::with_type(size_t(which), p);
  return p.err;
}
struct Make
{
  Rng &r;
  Val out;
  template <class T>
  void go(const char *)
  {
    T v = ty::Gen<T>::make(r, 3);
    if (!ty::Gen<T>::json(v, out))
      out.k = ref::Null;
  }
};
static Val anything(Rng &r, int depth)
{
  ref::GenOpt g;
  g.max_depth = depth;
  g.max_width = 3;
  return ref::gen(r, g, 0, r.chance(50));
}
static void collect(Val &v, std::vector<Val *> &all)
{
  all.push_back(&v);
  for (auto &c : v.a)
    collect(c, all);
  for (auto &m : v.o)
    collect(m.second, all);
}
// wrong kinds, missing, doubled and foreign members at any place of a document
static void structural(Rng &r, Val &v)
{
  std::vector<Val *> all;
  collect(v, all);
  Val &at = *all[r.below(all.size())];
  switch (r.below(9))
  {
  case 0: at = anything(r, 2); break;
  case 1:
    if (at.k == ref::Obj && !at.o.empty())
      at.o.erase(at.o.begin() + long(r.below(at.o.size())));
    else if (at.k == ref::Arr && !at.a.empty())
      at.a.erase(at.a.begin() + long(r.below(at.a.size())));
    break;
  case 2:
    if (at.k == ref::Obj && !at.o.empty())
    {
      auto m = at.o[r.below(at.o.size())];
      at.o.insert(at.o.begin() + long(r.below(at.o.size() + 1)), m);
    }
    else if (at.k == ref::Arr && !at.a.empty())
    {
      Val e = at.a[r.below(at.a.size())];
      size_t n = r.chance(80) ? 1 : r.below(12);
      for (size_t i = 0; i < n; i++)
        at.a.push_back(e);
    }
    break;
  case 3:
    if (at.k == ref::Obj)
    {
      ref::GenOpt g;
      at.o.insert(at.o.begin() + long(r.below(at.o.size() + 1)), ref::Member(r.chance(50) || at.o.empty() ? ref::gen_name(r, g) : at.o[r.below(at.o.size())].first + "x", anything(r, 3)));
    }
    break;
  case 4: {
    Val w;
    w.k = ref::Arr;
    w.a.push_back(at);
    at = w;
    break;
  }
  case 5: {
    Val &other = *all[r.below(all.size())];
    Val copy = other;
    at = copy;
    break;
  }
  case 6:
    at = Val();
    at.k = ref::Num;
    at.raw = ref::gen_num(r, 40);
    break;
  case 7: {
    Val w;
    w.k = ref::Str;
    ref::GenOpt g;
    w.raw = ref::gen_raw(r, g);
    at = w;
    break;
  }
  case 8:
    at = Val();
    at.k = ref::Null;
    break;
  }
}
static const char *DICT[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\\"", "\\u", "\\uD800", "\\uDC00", "\\u00", "//", "/", "/*", "*/", "\n", "\r", "\t", " ", "true", "false", "null", "tru", "-", "+", ".", "e", "E", "1e999", "1e-999",
                             "-0", "0", "1", "99999999999999999999999", "1.7976931348623159e308", "4.9e-324", "-9223372036854775808", "18446744073709551616", "\"\"", "\"a\"", "\"a\":", "\"name\":", "\"text\":", "[]", "{}", "[[", "]]", "{\"a\":", "\"kids\":[",
                             "1e2000000000", "1e-2000000000", "1e99999999999999999999", "0x1", "NaN", "Infinity", "'", "`", "^", "_", "#", ";", "\x7f", "\xc3", "\xe2\x82\xac", "\xff", "\xf0\x9f", "0.00000000000000000000000001", "\"circle\"", "\"red\"", "1577836800"};
static void bytes(Rng &r, std::string &t)
{
  size_t at = r.below(t.size() + 1);
  switch (r.below(8))
  {
  case 0: t.erase(at, 1 + r.below(r.chance(80) ? 3 : 40)); break;
  case 1: t.insert(at, r.pick(DICT)); break;
  case 2:
    if (at < t.size())
      t[at] = char(r.below(256));
    break;
  case 3: t.resize(at); break;
  case 4: t.insert(at, 1 + r.below(3), char(r.chance(30) ? 0 : r.below(256))); break;
  case 5: {
    size_t from = r.below(t.size() + 1), n = r.below(60);
    std::string s = t.substr(from, n);
    t.insert(at, s);
    break;
  }
  case 6:
    if (at < t.size())
      t[at] ^= char(1 << r.below(8));
    break;
  case 7:
    if (at < t.size())
      t.replace(at, 1, r.pick(DICT));
    break;
  }
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C01", [](uint64_t idx, Rng &r) {
    std::string text;
    if (idx % 2500 == 7)
    { // nesting beyond the width of small counters, skipped, captured, copied and listed
      size_t n = size_t(r.chance(50) ? 65530 + r.below(12) : 66000 + r.below(80000));
      std::string deep = r.chance(50) ? std::string(n, '[') + (r.chance(80) ? std::string(n, ']') : std::string(n - 1, ']')) : std::string();
      if (deep.empty())
      {
        for (size_t i = 0; i < n; i++)
          deep += (i & 1) ? "[" : "{\"a\":";
        if (n & 1)
          deep += "null";
        for (size_t i = n; i-- > 0;)
          deep += (i & 1) ? "]" : "}";
      }
      const char *names[] = {"\"zz\"", "\"obj\"", "\"arr\"", "\"either\"", "\"tok\""};
      text = std::string("{\"first\":1,") + r.pick(names) + ":" + deep + ",\"a\":7}";
      Job j;
      j.opts = 0;
      j.flags = 1;
      j.seed = r.next();
      int to[] = {0, 1, 3, 4, 13, 15, 16};
      for (int w : to)
      {
        j.parts = r.chance(50) ? std::vector<std::string>{text} : split(text, cuts(r, text.size()));
        j.delivery = int(r.below(fd::AddLater));
        j.flags = w == 15 || w == 16 ? 1 : 0;
        int e = parse_other(w, j);
        eval();
        count(e == 0 ? "parsed" : "refused");
        count("inputs_very_deep");
        if (e < 0)
          violation("result", "deep target " + std::to_string(w));
      }
      return;
    }
    int type = int(r.below(CATALOGUE));
    unsigned opts = r.chance(60) ? 0 : unsigned(r.below(16));
    const char *kind = "";
    switch (r.below(10))
    {
    case 0: { // soup
      kind = "soup";
      size_t n = r.below(40);
      for (size_t i = 0; i < n; i++)
        text += r.pick(DICT);
      break;
    }
    case 1: { // bytes
      kind = "bytes";
      size_t n = r.chance(70) ? r.below(20) : r.below(300);
      for (size_t i = 0; i < n; i++)
        text += char(r.below(256));
      if (r.chance(50))
        text = "[" + text;
      break;
    }
    case 2: { // deep
      kind = "deep";
      text = ref::print(ref::deep(r, r.range(1, 400)), &r, int(r.below(2)));
      break;
    }
    default: {
      kind = "typed";
      Make m{r, Val()};
      ty::with_type(size_t(type), m);
      size_t n = r.chance(30) ? 0 : 1 + r.below(4);
      for (size_t i = 0; i < n; i++)
        structural(r, m.out);
      ju::Opts o = ju::Opts::from(opts);
      rx::Printer p{r, o, o, r.range(5, 60)};
      p.sp(true);
      p.val(m.out, ref::Tok(), r.chance(20));
      p.sp(true);
      text = p.out;
    }
    }
    if (r.chance(45))
      for (size_t k = 1 + r.below(3); k; k--)
        bytes(r, text);
    if (r.chance(10))
      opts = unsigned(r.below(16));
    seen(hash(text) + opts);
    if (idx < 3)
      sample(text);
    count(std::string("inputs_") + kind);
    Job j;
    j.opts = opts;
    auto once = [&](int which) {
      j.parts = r.chance(50) ? std::vector<std::string>{text} : split(text, cuts(r, text.size()));
      j.flags = unsigned(r.below(8));
      j.delivery = int(r.below(fd::AddLater));
      j.seed = r.next();
      int e = which < CATALOGUE ? parse_catalogue(which, j) : parse_other(which - CATALOGUE, j);
      eval();
      count(e == 0 ? "parsed" : "refused");
      if (e > 0)
        count("error_" + std::to_string(e));
      if (e == -1)
        violation("error-without-text", "target " + std::to_string(which) + " " + show(text, 1500));
      if (e == -2)
        violation("buffers", "target " + std::to_string(which) + " " + show(text, 1500));
      if (e < -2)
        violation("result", "target " + std::to_string(which) + " " + show(text, 1500));
    };
    once(type);
    once(CATALOGUE + int(r.below(OTHERS)));
    once(int(r.below(CATALOGUE + OTHERS)));
  });
}
