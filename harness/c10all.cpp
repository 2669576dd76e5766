// C10: every float. One case is 4096 neighbouring bit patterns; 524288 cases are all positive floats.
#include "jsutil.h"
#include "numgen.h"
#include <charconv>
using namespace vh;

static size_t sig_count(const char *b, const char *e)
{
  size_t n = 0, zeros = 0;
  for (; b != e && *b != 'e' && *b != 'E'; b++)
    if (*b == '0')
    {
      if (n)
        zeros++;
    }
    else if (*b >= '1' && *b <= '9')
    {
      n += zeros + 1;
      zeros = 0;
    }
  return n;
}
static bool json_number(const char *p)
{
  if (*p == '-')
    p++;
  if (*p == '0')
    p++;
  else if (*p >= '1' && *p <= '9')
    while (*p >= '0' && *p <= '9')
      p++;
  else
    return false;
  if (*p == '.')
  {
    p++;
    if (!(*p >= '0' && *p <= '9'))
      return false;
    while (*p >= '0' && *p <= '9')
      p++;
  }
  if (*p == 'e' || *p == 'E')
  {
    p++;
    if (*p == '+' || *p == '-')
      p++;
    if (!(*p >= '0' && *p <= '9'))
      return false;
    while (*p >= '0' && *p <= '9')
      p++;
  }
  return *p == 0;
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C10", [](uint64_t i, Rng &) {
    const uint64_t blocks = 1u << 19;
    uint32_t base = uint32_t((i * 123457 + G().seed * 7919) % blocks) << 12; // an odd factor: all blocks in 2^19 cases
    char text[128];
    std::vector<float> vec, back;
    for (uint32_t b = base; b < base + 4096; b++)
    {
      float v = ng::bits2f(b);
      if (!std::isfinite(v))
        break;
      vec.push_back(v);
    }
    if (vec.empty())
      return;
    std::string all = JS::serializeStruct(vec, JS::SerializerOptions(JS::SerializerOptions::Compact));
    seen(uint64_t(base) | 1ull << 62);
    count("float_blocks");
    size_t p = 1, k = 0;
    while (p < all.size() && k < vec.size())
    {
      size_t e = all.find_first_of(",]", p);
      if (e == std::string::npos || e - p >= sizeof text)
        break;
      memcpy(text, all.data() + p, e - p);
      text[e - p] = 0;
      float v = vec[k], f = strtof(text, nullptr);
      char vb[80];
      auto who = [&] {
        snprintf(vb, sizeof vb, "float value=%a (%.9g) text=", double(v), double(v));
        return vb + std::string(text);
      };
      if (!json_number(text))
        violation("float-not-a-json-number", who());
      else if (v == 0 ? f != 0 : ng::f2bits(f) != ng::f2bits(v))
        violation("float-roundtrip", who());
      else
      {
        char buf[64];
        auto r = std::to_chars(buf, buf + sizeof buf, v, std::chars_format::scientific);
        size_t got = sig_count(text, text + (e - p));
        if (got > sig_count(buf, r.ptr) || got > 9)
          violation("float-not-shortest", who());
      }
      p = e + 1;
      k++;
    }
    eval(k);
    if (k != vec.size())
      violation("float-list-broken", "printed " + std::to_string(k) + " of " + std::to_string(vec.size()) + " floats from bits " + std::to_string(base));
    JS::ParseContext pc(all.data(), all.size());
    if (pc.parseTo(back) != JS::Error::NoError || back.size() != vec.size())
      violation("float-library-readback", "floats from bits " + std::to_string(base));
    else
      for (size_t j = 0; j < vec.size(); j++)
        if (vec[j] != back[j])
          violation("float-library-readback", "float bits " + std::to_string(base + j));
  });
}
