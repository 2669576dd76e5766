// C22: input buffers are released once each, in order, after their last use.
#include "capt.h"
#include "feed.h"
using namespace vh;
using ref::Tok;

struct Span
{
  size_t first, last; // first and last byte of the token, name and quotes included
  bool number_like;   // its end is only known from the byte behind it
};
// source spans of the tokens of a well-formed document
static std::vector<Span> spans(const std::string &t)
{
  std::vector<Span> out;
  size_t i = 0;
  bool named = false;
  size_t name_at = 0;
  std::vector<char> stack;
  auto emit = [&](size_t a, size_t b, bool n) {
    out.push_back({named ? name_at : a, b, n});
    named = false;
  };
  while (i < t.size())
  {
    char c = t[i];
    if (c == '{' || c == '[' || c == '}' || c == ']')
      emit(i, i, false), i++;
    else if (c == '"')
    {
      size_t a = i++;
      while (t[i] != '"')
        i += t[i] == '\\' ? 2 : 1;
      size_t b = i++;
      size_t k = i;
      while (k < t.size() && strchr(" \t\r\n", t[k]))
        k++;
      if (k < t.size() && t[k] == ':')
        named = true, name_at = a;
      else
        emit(a, b, false);
    }
    else if (c == '-' || isalnum((unsigned char)c))
    {
      size_t a = i;
      while (i < t.size() && (isalnum((unsigned char)t[i]) || strchr("+-.", t[i])))
        i++;
      emit(a, i - 1, true);
    }
    else
      i++;
  }
  return out;
}

static void tokens(Rng &r, uint64_t idx)
{
  ref::GenOpt g;
  g.max_depth = r.range(1, 4);
  g.max_width = r.range(1, 6);
  g.long_strings = 20;
  ref::Val v = ref::gen(r, g);
  std::string text = ref::print(v, &r, int(r.below(3)));
  bool broken = r.chance(15);
  if (broken)
  {
    size_t at = r.below(text.size());
    text[at] = ",:{}[]\"\\/ a1\n"[r.below(13)];
  }
  std::vector<Tok> want;
  std::vector<Span> sp;
  if (!broken)
  {
    ref::tokens(v, nullptr, want);
    sp = spans(text);
    if (sp.size() != want.size())
      return violation("harness", "spans " + show(text, 1000));
  }
  else
  {
    want = ju::tokenize(text).toks;
  }
  auto c = cuts(r, text.size());
  fd::Mode m = fd::Mode(r.below(fd::Modes));
  fd::Feeder f(split(text, c), m, r.next());
  std::string w;
  size_t n = 0;
  {
    JS::Tokenizer t;
    f.attach(t);
    JS::Token k;
    JS::Error e;
    for (;;)
    {
      e = t.nextToken(k);
      if (t.registeredBuffers() != f.held())
        f.fail("the tokenizer holds " + std::to_string(t.registeredBuffers()) + " buffers of " + std::to_string(f.held()) + " not handed back");
      if (e == JS::Error::NeedMoreData)
      {
        if (f.held())
          f.fail("more data needed although " + std::to_string(f.held()) + " supplied buffers are held");
        if (f.next < f.parts.size())
        {
          if (m == fd::AddLater)
          {
            f.give(t);
            continue;
          }
          if (m != fd::ReleaseSupplies || f.released == f.next)
            f.fail("input ended although the supplier has more data, asked " + std::to_string(f.requests) + " times");
        }
        else if (m != fd::AddLater && f.last_request_released != f.released)
          f.fail("the supplier was not asked before giving up");
        break;
      }
      if (e != JS::Error::NoError)
        break;
      Tok got = ju::tok(k); // reads the bytes of the token: they must still be valid
      if (n >= want.size() || !(got == want[n]))
      {
        f.fail("token " + std::to_string(n) + " is " + showtok(got) + ", expected " + (n < want.size() ? showtok(want[n]) : "none"));
        break;
      }
      if (!broken)
      {
        // everything in front of the token's last byte is used up, nothing from the next token on is
        size_t done = f.part_of(sp[n].last);
        if (f.released < done)
          f.fail("after token " + std::to_string(n) + " only " + std::to_string(f.released) + " buffers are handed back, " + std::to_string(done) + " are used up");
        if (n + 1 < sp.size() && f.released > f.part_of(sp[n + 1].first))
          f.fail("after token " + std::to_string(n) + " buffer " + std::to_string(f.released - 1) + " is handed back with the next token in it");
        count("release_bounds_checked");
      }
      n++;
    }
    if (!broken && n != want.size() && f.bad.empty())
      f.fail("only " + std::to_string(n) + " of " + std::to_string(want.size()) + " tokens, error " + std::to_string(int(e)));
    // another document in the same tokenizer hands back what is still held, in order
    if (r.chance(30) && (e != JS::Error::NeedMoreData || r.chance(50)) && f.bad.empty() && m != fd::ReleaseSupplies)
    {
      size_t before = f.held();
      t.setNeedMoreDataCallback(nullptr);
      Exact y("[1,2]");
      std::function<void(const char *)> keep = f.rel;
      size_t released_new = 0;
      const char *yp = y.p;
      std::function<void(const char *)> both = [&](const char *p) {
        if (p == yp)
          released_new++;
        else
          f.on_release(p);
      };
      t.setReleaseCallback(both);
      t.resetData(y.p, y.n, 0);
      if (f.held() != 0)
        f.fail("a reset hands back " + std::to_string(before - f.held()) + " of " + std::to_string(before) + " held buffers");
      size_t k2 = 0;
      while (t.nextToken(k) == JS::Error::NoError)
        k2++;
      if (k2 != 4 || released_new != 1)
        f.fail("after a reset: " + std::to_string(k2) + " tokens, the new buffer is handed back " + std::to_string(released_new) + " times");
      count("resets");
    }
  }
  eval();
  seen(hash(text) ^ hash(c.data(), c.size() * sizeof(size_t)) * 31 ^ uint64_t(m));
  if (idx < 4)
    sample(text + "  cuts " + showcuts(c) + " " + fd::modename(m) + " events " + f.trace);
  for (auto &b : f.bad)
    violation("tokenizer-buffers", b + " (" + fd::modename(m) + ") events " + f.trace.substr(0, 300) + " cuts=" + showcuts(c).substr(0, 400) + " doc=" + show(text, 1500));
}

struct Go
{
  Rng &r;
  template <class T>
  void go(const char *name)
  {
    T v = ty::Gen<T>::make(r, 3);
    std::string text = JS::serializeStruct(v, JS::SerializerOptions(r.chance(50) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact));
    T whole{};
    {
      JS::ParseContext pc(text.data(), text.size());
      if (pc.parseTo(whole) != JS::Error::NoError)
        return; // another property
    }
    for (int k = 0; k < 3; k++)
    {
      auto c = cuts(r, text.size());
      fd::Mode m = fd::Mode(r.below(fd::AddLater));
      fd::Feeder f(split(text, c), m, r.next());
      T got{};
      JS::Error e;
      {
        JS::ParseContext pc;
        f.attach(pc.tokenizer);
        e = pc.parseTo(got);
        if (pc.tokenizer.registeredBuffers() != f.held())
          f.fail("the tokenizer holds " + std::to_string(pc.tokenizer.registeredBuffers()) + " buffers of " + std::to_string(f.held()) + " not handed back");
        if (e == JS::Error::NoError)
        {
          size_t end = text.size();
          while (end && strchr(" \t\r\n", text[end - 1]))
            end--;
          if (end && f.released < f.part_of(end - 1))
            f.fail("after the document " + std::to_string(f.released) + " buffers are handed back, " + std::to_string(f.part_of(end - 1)) + " are used up");
        }
      }
      eval();
      count("typed_parses");
      seen(hash(text) ^ hash(c.data(), c.size() * sizeof(size_t)) * 31 ^ uint64_t(m));
      if (e != JS::Error::NoError)
        f.fail("error " + std::to_string(int(e)));
      else if (!ty::same(got, whole))
        f.fail("the value differs from the one parsed from a single buffer");
      for (auto &b : f.bad)
        violation("typed-buffers", b + " (" + fd::modename(m) + ", " + name + ") events " + f.trace.substr(0, 300) + " cuts=" + showcuts(c).substr(0, 400) + " doc=" + show(text, 1500));
    }
  }
};
static void captures(Rng &r)
{
  ty::CaptureDoc d = ty::make_capture_doc(r);
  auto c = cuts(r, d.text.size());
  fd::Mode m = fd::Mode(r.below(fd::AddLater));
  fd::Feeder f(split(d.text, c), m, r.next());
  ty::Captures s;
  JS::ParseContext pc;
  f.attach(pc.tokenizer);
  JS::Error e = pc.parseTo(s);
  eval();
  count("capture_parses");
  if (pc.tokenizer.registeredBuffers() != f.held())
    f.fail("the tokenizer holds " + std::to_string(pc.tokenizer.registeredBuffers()) + " buffers of " + std::to_string(f.held()) + " not handed back");
  if (e != JS::Error::NoError)
    f.fail("error " + std::to_string(int(e)));
  else if (s.obj.data != d.obj || s.arr.data != d.arr || s.either.data != d.either || s.objs.size() != d.objs.size() || s.named.size() != d.named.size() || s.first != d.first || s.last != d.last)
    f.fail("captured text differs");
  for (auto &b : f.bad)
    violation("capture-buffers", b + " (" + fd::modename(m) + ") events " + f.trace.substr(0, 300) + " cuts=" + showcuts(c).substr(0, 400) + " doc=" + show(d.text, 1500));
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C22", [](uint64_t i, Rng &r) {
    if (i % 4 < 2)
      tokens(r, i);
    else if (i % 4 == 2)
    {
      Go g{r};
      ty::with_type(r.below(ty::TYPES), g);
    }
    else
      captures(r);
  });
}
