// C08: the serialized bytes do not depend on how output buffers are supplied; nothing outside them is written.
#include "types.h"
using namespace vh;

struct Sink
{
  Rng &r;
  int mode;
  size_t limit; // buffers supplied in total; then the callback supplies none
  std::vector<std::pair<char *, size_t>> bufs;
  size_t requests = 0, refused = 0;
  std::string taken; // contents of completed buffers
  explicit Sink(Rng &rr, int m, size_t l) : r(rr), mode(m), limit(l) {}
  ~Sink()
  {
    for (auto &b : bufs)
      free(b.first);
  }
  size_t next_size()
  {
    switch (mode)
    {
    case 0: return 1;
    case 1: return 1 + r.below(3);
    case 2: return 1 + r.below(8);
    case 3: return 1 + r.below(64);
    case 4: return r.chance(50) ? 1 : 1 + r.below(300);
    default: return 1 + r.below(4000);
    }
  }
  bool supply(JS::Serializer &s)
  {
    if (!bufs.empty())
      taken.append(bufs.back().first, bufs.back().second); // the previous buffer was filled completely
    if (bufs.size() >= limit)
    {
      refused++;
      return false;
    }
    size_t n = next_size();
    char *p = (char *)malloc(n); // exact: one byte too many hits a red zone
    memset(p, '#', n);
    bufs.emplace_back(p, n);
    s.setBuffer(p, n);
    return true;
  }
};
static const JS::SerializerOptions::Style styles[] = {JS::SerializerOptions::Pretty, JS::SerializerOptions::Compact};
template <class F>
static void monitor(Rng &r, const std::string &full, const JS::SerializerOptions &o, const std::string &what, F emit, bool limited)
{
  int mode = int(r.below(6));
  if (full.size() > 20000 && mode < 2)
    mode = 3;
  size_t limit = limited ? 1 + r.below(mode == 0 ? full.size() + 2 : 12) : ~size_t(0);
  Sink sink(r, mode, limit);
  JS::Serializer s;
  s.setOptions(o);
  if (r.chance(50))
    sink.supply(s); // first buffer up front, else asked for on the first byte
  s.setRequestBufferCallback([&](JS::Serializer &sp) {
    sink.requests++;
    if (sink.refused)
      return;
    sink.supply(sp);
  });
  bool ok = emit(s);
  std::string got = sink.taken;
  if (!sink.refused)
    got.append(sink.bufs.empty() ? "" : std::string(s.currentBuffer().buffer ? s.currentBuffer().buffer : "", s.currentBuffer().used));
  eval();
  count("buffers_supplied", sink.bufs.size());
  std::string w = what + " mode=" + std::to_string(mode) + " buffers=" + std::to_string(sink.bufs.size()) + " expected: " + show(full, 900) + " got: " + show(got, 900);
  if (sink.refused)
  {
    count("exhausted");
    if (full.compare(0, got.size(), got) != 0)
      violation("not-a-prefix", w);
    size_t cap = 0;
    for (auto &b : sink.bufs)
      cap += b.second;
    if (got.size() != std::min(cap, full.size()))
      violation("buffers-not-filled", w);
    if (ok && cap < full.size())
      violation("failure-not-reported", w);
  }
  else
  {
    if (got != full)
      violation("text-depends-on-buffers", w);
    if (!ok)
      violation("spurious-failure", w);
    // bytes behind the used part of the last buffer are untouched
    if (!sink.bufs.empty() && s.currentBuffer().buffer == sink.bufs.back().first)
      for (size_t i = s.currentBuffer().used; i < sink.bufs.back().second; i++)
        if (sink.bufs.back().first[i] != '#')
        {
          violation("wrote-behind-used", w);
          break;
        }
  }
  seen(hash(full, uint64_t(mode) * 1315423911u + sink.bufs.size()));
}
struct Go
{
  Rng &r;
  template <class T>
  void go(const char *name)
  {
    T v = ty::Gen<T>::make(r, 1 + int(r.below(3)));
    JS::SerializerOptions o(r.pick(styles));
    if (r.chance(30))
      o.setShiftSize((unsigned char)r.below(6));
    std::string full;
    {
      static std::vector<char> big(1 << 22);
      JS::Serializer s(big.data(), big.size());
      s.setOptions(o);
      JS::Token t;
      JS::TypeHandler<T>::from(v, t, s);
      full.assign(big.data(), s.currentBuffer().used);
    }
    std::string whole = JS::serializeStruct(v, o); // grows its own buffer
    if (whole != full)
      violation("growing-string-differs", std::string(name) + " " + show(full, 900) + " vs " + show(whole, 900));
    { // a string that already has a size is used as the first buffer
      std::string reuse(1 + r.below(200), 'z');
      JS::SerializerContext sc(reuse);
      sc.serializer.setOptions(o);
      sc.serialize(v);
      if (reuse != full)
        violation("reused-string-differs", std::string(name) + " " + show(full, 900) + " vs " + show(reuse, 900));
    }
    for (int k = 0; k < 3; k++)
      monitor(r, full, o, name, [&](JS::Serializer &s) {
        JS::Token t;
        JS::TypeHandler<T>::from(v, t, s);
        return true; // the handlers report nothing
      }, false);
    if (G().samples.size() < 2)
      sample(full);
  }
};
int main(int argc, char **argv)
{
  return run(argc, argv, "C08", [](uint64_t i, Rng &r) {
    if (i % 3 == 0)
    {
      Go g{r};
      ty::with_type(i / 3, g);
      return;
    }
    // token level: the result of every write is observed
    ref::GenOpt go;
    ref::Val v = ref::gen(r, go);
    std::vector<ref::Tok> toks;
    ref::tokens(v, nullptr, toks);
    std::vector<JS::Token> jt(toks.size());
    for (size_t k = 0; k < toks.size(); k++)
    {
      jt[k].name = JS::DataRef(toks[k].name.data(), toks[k].name.size());
      jt[k].name_type = JS::Type(toks[k].name_type);
      jt[k].value = JS::DataRef(toks[k].value.data(), toks[k].value.size());
      jt[k].value_type = JS::Type(toks[k].value_type);
    }
    JS::SerializerOptions o(r.pick(styles));
    if (r.chance(40))
      o.setShiftSize((unsigned char)r.below(6));
    if (r.chance(15))
      o.skipDelimiter(true);
    std::string full;
    {
      static std::vector<char> big(1 << 22);
      JS::Serializer s(big.data(), big.size());
      s.setOptions(o);
      for (auto &t : jt)
        if (!s.write(t))
          violation("large-buffer-write-failed", show(ref::print(v)));
      full.assign(big.data(), s.currentBuffer().used);
    }
    for (int k = 0; k < 4; k++)
      monitor(r, full, o, "tokens", [&](JS::Serializer &s) {
        bool ok = true, failed = false;
        for (auto &t : jt)
        {
          bool w = s.write(t);
          if (w && failed)
          {
            violation("success-after-failure", show(full, 900));
            failed = false;
          }
          if (!w)
            ok = false, failed = true;
        }
        return ok;
      }, k >= 2);
  });
}
