// Supplies a text to a tokenizer in pieces and records every event of the buffers: given, requested,
// released. Released memory is overwritten and freed at once (or refilled), so a later read is seen
// by AddressSanitizer or changes the result. The event log is checked online.
#pragma once
#include "jsutil.h"
namespace fd
{
using namespace vh;
enum Mode
{
  UpFront,         // everything before the first token
  OneByRequest,    // one piece per request
  SomeByRequest,   // up to three pieces per request
  Reuse,           // one piece per request, always in the same memory
  ReleaseSupplies, // the release callback supplies the next piece
  AddLater,        // the caller adds a piece when nextToken asks for more (tokenizer only)
  Modes
};
inline const char *modename(int m)
{
  static const char *n[] = {"up front", "one per request", "some per request", "same memory", "supplied on release", "added later"};
  return n[m];
}
struct Feeder
{
  std::vector<std::string> parts;
  std::vector<size_t> offset; // start of each part
  Mode mode;
  Rng rng;
  std::vector<char *> mem;
  std::vector<char *> given;
  char *shared = nullptr;
  size_t next = 0, released = 0, requests = 0;
  size_t last_request_released = ~size_t(0);
  bool foreign = false;
  std::vector<std::string> bad;
  std::function<void(const char *)> rel;
  JS::Tokenizer *tk = nullptr;
  std::string trace;

  Feeder(const std::vector<std::string> &p, Mode m, uint64_t seed) : parts(p), mode(m), rng(seed)
  {
    size_t o = 0, mx = 1;
    for (auto &x : parts)
    {
      offset.push_back(o);
      o += x.size();
      mx = std::max(mx, x.size());
    }
    if (mode == Reuse)
      shared = (char *)malloc(mx);
  }
  ~Feeder()
  {
    for (char *p : mem)
      free(p);
    free(shared);
  }
  Feeder(const Feeder &) = delete;
  size_t held() const { return next - released; }
  void fail(const std::string &s)
  {
    if (bad.size() < 4)
      bad.push_back(s);
  }
  void give(JS::Tokenizer &t)
  {
    if (next >= parts.size())
      return;
    const std::string &s = parts[next];
    char *p = shared;
    if (mode == Reuse)
    {
      memcpy(p, s.data(), s.size());
      mem.push_back(nullptr);
    }
    else
    {
      p = (char *)malloc(s.size() ? s.size() : 1);
      memcpy(p, s.data(), s.size());
      mem.push_back(p);
    }
    given.push_back(p);
    next++;
    trace += "G";
    count("buffers_given");
    t.addData(p, s.size());
  }
  void on_request(JS::Tokenizer &t)
  {
    requests++;
    trace += "Q";
    count("requests_seen");
    if (t.registeredBuffers() != held())
      fail("at a request the tokenizer holds " + std::to_string(t.registeredBuffers()) + " buffers of " + std::to_string(held()) + " not handed back");
    if ((mode == OneByRequest || mode == Reuse) && held() != 0)
      fail("more data requested while a supplied buffer has not been handed back");
    if (requests > 4 * parts.size() + 16)
      fail("endless requests");
    last_request_released = released;
    if (mode == OneByRequest || mode == Reuse)
      give(t);
    else if (mode == SomeByRequest)
      for (size_t k = 1 + rng.below(3); k; k--)
        give(t);
  }
  void on_release(const char *p)
  {
    trace += "R";
    count("releases_seen");
    if (released >= next)
      return fail("a buffer is handed back although none is held");
    if (p != given[released])
    {
      size_t k = 0;
      while (k < given.size() && given[k] != p)
        k++;
      if (k == given.size())
        return fail("a pointer that was never supplied is handed back");
      fail("buffer " + std::to_string(k) + " handed back instead of buffer " + std::to_string(released));
      return;
    }
    size_t k = released++;
    if (mode == Reuse)
      memset(shared, '#', parts[k].size());
    else
    {
      memset(mem[k], '#', parts[k].size());
      free(mem[k]);
      mem[k] = nullptr;
    }
    if (mode == ReleaseSupplies)
      give(*tk);
  }
  void attach(JS::Tokenizer &t)
  {
    tk = &t;
    rel = [this](const char *p) { on_release(p); };
    t.setReleaseCallback(rel);
    if (mode != AddLater)
      t.setNeedMoreDataCallback([this](JS::Tokenizer &x) { on_request(x); });
    if (mode == UpFront)
      while (next < parts.size())
        give(t);
    if (mode == ReleaseSupplies || mode == AddLater)
      give(t);
  }
  // index of the part that holds byte `at`
  size_t part_of(size_t at) const
  {
    size_t k = 0;
    while (k + 1 < parts.size() && (at >= offset[k] + parts[k].size()))
      k++;
    return k;
  }
  size_t total() const { return offset.back() + parts.back().size(); }
};
} // namespace fd
