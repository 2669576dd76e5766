// C09: decimal text parses to the correctly rounded float or double.
#include "jsutil.h"
#include "numgen.h"
#include "hardnums.h"
using namespace vh;

struct Num
{
  double d = 1;
  float f = 1;
  JS_OBJ(d, f);
};
struct ND
{
  std::vector<double> v;
  JS_OBJ(v);
};

template <typename T>
static bool parse_one(const std::string &text, T &out, JS::Error &err, int via)
{
  // the number in an exactly sized buffer, as an array element or member, optionally split
  std::string doc = via == 0 ? "[" + text + "]" : via == 1 ? "[ " + text + " ]" : "[" + text + ",1]";
  Exact buf(doc);
  JS::ParseContext pc(buf.p, buf.n);
  std::vector<T> v;
  err = pc.parseTo(v);
  if (err != JS::Error::NoError || v.empty())
    return false;
  out = v[0];
  return true;
}

int main(int argc, char **argv)
{
  return run(argc, argv, "C09", [](uint64_t i, Rng &r) {
    for (int k = 0; k < 4; k++)
    {
      bool flt = r.chance(40);
      std::string t;
      if (k == 3)
      { // texts next to the middle of two neighbouring numbers, closer than any random one
        ng::Dec x;
        x.neg = r.chance(20);
        bool f = r.chance(20);
        const size_t nd = sizeof(hard::double_texts) / sizeof(*hard::double_texts), nf = sizeof(hard::float_texts) / sizeof(*hard::float_texts);
        uint64_t w = f ? hard::float_texts[i % nf].w : hard::double_texts[i % nd].w;
        int q = f ? hard::float_texts[i % nf].q : hard::double_texts[i % nd].q;
        x.d = std::to_string(w);
        if (r.chance(15)) // and such numbers with more digits, or one off
          x.d += ref::digits(r, 1 + r.below(20));
        else if (r.chance(10))
          x.d = std::to_string(w + r.below(3) - 1);
        x.exp = int(std::to_string(w).size()) + q;
        t = ng::spell(r, x);
        count(f ? "hard_float_texts" : "hard_double_texts");
      }
      else
        t = ng::dec_text(r, flt);
      JS::Error e;
      eval(2);
      seen(t);
      if (k == 0)
        sample(t);
      int via = int(r.below(3));
      double d = 0, wd = strtod(t.c_str(), nullptr);
      float f = 0, wf = strtof(t.c_str(), nullptr);
      std::string len = t.size() > 25 ? "long" : "short";
      auto cls = [&](bool inf, bool zero, bool sub) { return std::string(inf ? "overflow" : zero ? "zero" : sub ? "subnormal" : "normal"); };
      if (!parse_one(t, d, e, via))
        violation("double-rejected", "text=" + t + " err=" + std::to_string(int(e)));
      else if (ng::d2bits(d) != ng::d2bits(wd))
      {
        char b[100];
        snprintf(b, sizeof b, " got=%.17g want=%.17g", d, wd);
        violation("double-" + cls(std::isinf(wd), wd == 0, fabs(wd) < DBL_MIN) + "-" + len, "text=" + t + b);
      }
      else
      {
        if (fabs(wd) < DBL_MIN && wd != 0)
          count("double_subnormal");
        if (std::isinf(wd))
          count("double_overflow");
        count("double_checked");
      }
      if (!parse_one(t, f, e, via))
        violation("float-rejected", "text=" + t + " err=" + std::to_string(int(e)));
      else if (ng::f2bits(f) != ng::f2bits(wf))
      {
        char b[100];
        snprintf(b, sizeof b, " got=%.9g want=%.9g", f, wf);
        violation("float-" + cls(std::isinf(wf), wf == 0, fabsf(wf) < FLT_MIN) + "-" + len, "text=" + t + b);
      }
      else
      {
        if (fabsf(wf) < FLT_MIN && wf != 0)
          count("float_subnormal");
        if (std::isinf(wf))
          count("float_overflow");
        count("float_checked");
      }
    }
  });
}
