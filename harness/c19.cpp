// C19: raw captures reproduce the source text of the value exactly, for any split of the input.
#include "capt.h"
using namespace vh;

struct Refs
{
  int first = 0;
  JS::JsonObjectRef obj;
  JS::JsonArrayRef arr;
  JS::JsonObjectOrArrayRef either;
  int last = 0;
  JS_OBJ(first, obj, arr, either, last);
};
static std::string str(const JS::DataRef &d) { return std::string(d.data ? d.data : "", d.size); }

static void check(const ty::CaptureDoc &d, const ty::Captures &c, JS::Error e, const std::string &w)
{
  eval();
  if (e != JS::Error::NoError)
    return violation("capture-failed", w + " error " + std::to_string(int(e)));
  auto cmp = [&](const char *what, const std::string &got, const std::string &want) {
    count("captures_compared");
    if (got != want)
      violation(std::string("captured-") + what, w + " got: " + show(got, 600) + " expected: " + show(want, 600));
  };
  cmp("object", c.obj.data, d.obj);
  cmp("array", c.arr.data, d.arr);
  cmp("either", c.either.data, d.either);
  cmp("count", std::to_string(c.objs.size()), std::to_string(d.objs.size()));
  for (size_t i = 0; i < d.objs.size() && i < c.objs.size(); i++)
    cmp("element", c.objs[i].data, d.objs[i]);
  for (auto &n : d.named)
  {
    auto it = c.named.find(n.first);
    cmp("mapped", it == c.named.end() ? "<none>" : it->second.data, n.second);
  }
  if (c.first != d.first || c.last != d.last)
    violation("lost-its-place", w);
}
static void tokens_check(const JS::JsonTokens &t, const ref::Val &v, const std::string &name, const std::string &w)
{
  std::vector<ref::Tok> want;
  ref::tokens(v, &name, want);
  bool same = t.data.size() == want.size();
  for (size_t i = 0; same && i < want.size(); i++)
  {
    ref::Tok g = ju::tok(t.data[i]);
    same = g.value == want[i].value && g.value_type == want[i].value_type && g.name == want[i].name;
  }
  count("token_lists_compared");
  if (!same)
    violation("captured-tokens", w + " got " + std::to_string(t.data.size()) + " tokens, expected " + ref::showtoks(want));
}
static bool same_doc(const std::string &a, const std::string &b)
{
  ref::Val x, y;
  std::string why;
  return ref::parse(a, x) && ref::parse(b, y) && ref::same(x, y, "", &why);
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C19", [](uint64_t i, Rng &r) {
    ty::CaptureDoc d = ty::make_capture_doc(r);
    seen(d.text);
    if (G().samples.size() < 2)
      sample(d.text);
    ty::Captures c;
    {
      Exact x(d.text);
      JS::ParseContext pc(x.p, x.n);
      JS::Error e = pc.parseTo(c);
      std::string w = "one buffer: " + show(d.text, 2500);
      check(d, c, e, w);
      if (e != JS::Error::NoError)
        return;
      tokens_check(c.toks, d.toks_v, "toks", w);
      // serializing the captures gives the same values again
      JS::SerializerOptions o(r.chance(50) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
      std::string t = JS::serializeStruct(c, o);
      ref::Val a, b;
      std::string why;
      if (!ref::parse(t, a) || !ref::parse(d.text, b))
        violation("serialized-malformed", w + " serialized: " + show(t, 1500));
      else
      {
        auto get = [](const ref::Val &v, const char *n) { for (auto &m : v.o) if (m.first == n) return m.second; return ref::Val(); };
        for (const char *n : {"first", "obj", "arr", "either", "toks", "objs", "named", "last"})
          if (!ref::same(get(a, n), get(b, n), n, &why))
            violation("serialized-differs", w + " member " + n + ": " + why + " serialized: " + show(t, 1500));
      }
      // the same target again, with another document (token lists refer to the buffers, so those are parsed again as well)
      ty::CaptureDoc d2 = ty::make_capture_doc(r);
      Exact x2(d2.text);
      JS::ParseContext pc2(x2.p, x2.n);
      e = pc2.parseTo(c);
      check(d2, c, e, "second document into the same target: " + show(d2.text, 2500));
      if (e == JS::Error::NoError)
        tokens_check(c.toks, d2.toks_v, "toks", "second document " + show(d2.text, 2000));
      count("reparses");
    }
    // any split, released buffers freed at once
    for (int k = 0; k < 4; k++)
    {
      auto cc = cuts(r, d.text.size(), true);
      auto parts = split(d.text, cc);
      std::vector<Exact> bufs;
      bufs.reserve(parts.size());
      for (auto &p : parts)
        bufs.emplace_back(p);
      JS::ParseContext pc;
      std::function<void(const char *)> rel = [&](const char *p) {
        for (auto &b : bufs)
          if (b.p == p)
          {
            memset(b.p, 'X', b.n);
            free(b.p);
            b.p = nullptr;
            return;
          }
      };
      pc.tokenizer.setReleaseCallback(rel);
      size_t next = 0;
      if (k & 1)
        while (next < bufs.size())
          pc.tokenizer.addData(bufs[next].p, bufs[next].n), next++;
      else
        pc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &t) {
          if (next < bufs.size())
            t.addData(bufs[next].p, bufs[next].n), next++;
        });
      ty::Captures s;
      JS::Error e = pc.parseTo(s);
      check(d, s, e, std::string(k & 1 ? "up front" : "callback") + " cuts " + showcuts(cc) + " of " + show(d.text, 2500));
      count("split_parses");
    }
    // references into the input
    {
      Exact x(d.text);
      JS::ParseContext pc(x.p, x.n);
      Refs f;
      JS::Error e = pc.parseTo(f);
      eval();
      if (e != JS::Error::NoError || str(f.obj.ref) != d.obj || str(f.arr.ref) != d.arr || str(f.either.ref) != d.either || f.first != d.first || f.last != d.last)
        violation("reference-wrong", show(d.text, 2500) + " got " + show(str(f.obj.ref), 500) + " / " + show(str(f.arr.ref), 500) + " / " + show(str(f.either.ref), 500));
      else
      {
        std::string t = JS::serializeStruct(f, JS::SerializerOptions(JS::SerializerOptions::Compact));
        std::string want = "{\"first\":" + std::to_string(d.first) + ",\"obj\":" + d.obj + ",\"arr\":" + d.arr + ",\"either\":" + d.either + ",\"last\":" + std::to_string(d.last) + "}";
        if (!same_doc(t, want))
          violation("reference-serialized", show(t, 1500) + " expected " + show(want, 1500));
      }
      count("references");
    }
    // roots
    {
      Exact x(d.either);
      JS::ParseContext pc(x.p, x.n);
      JS::JsonObjectOrArray a;
      JS::Error e = pc.parseTo(a);
      if (e != JS::Error::NoError || a.data != d.either)
        violation("root-capture", show(d.either, 1500) + " got " + show(a.data, 1500));
      count("roots");
    }
  });
}
