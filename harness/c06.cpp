// C06: every supported value survives serialize then parse unchanged.
#include "types.h"
using namespace vh;

static const JS::SerializerOptions::Style styles[] = {JS::SerializerOptions::Pretty, JS::SerializerOptions::Compact};
struct Go
{
  Rng &r;
  template <class T>
  void go(const char *name)
  {
    T v = ty::Gen<T>::make(r, 1 + int(r.below(4)));
    one(v, name);
  }
  template <class T>
  void one(const T &v, const char *name)
  {
    JS::SerializerOptions o(r.pick(styles));
    int variant = int(r.below(4));
    bool relaxed = false;
    if (variant == 1)
      o.setShiftSize((unsigned char)r.below(9));
    if (variant == 2)
    { // unquoted names: readable with the matching tokenizer option
      o.setConvertAsciiToString(false);
      relaxed = true;
      if (std::string(name) == "External" || std::string(name) == "All") // has a name with spaces, not writable unquoted
        relaxed = false, o.setConvertAsciiToString(true);
    }
    std::string t = JS::serializeStruct(v, o);
    if (t.empty() || (t[0] != '{' && t[0] != '['))
    { // a bare scalar document has no end mark; covered as a member elsewhere
      count("scalar_roots_skipped");
      return;
    }
    eval();
    if (t.size() > 12)
      seen(t);
    count("bytes", t.size());
    std::string w = std::string(name) + " variant=" + std::to_string(variant) + " text: " + show(t, 1500);
    Exact x(t);
    JS::ParseContext pc(x.p, x.n);
    if (relaxed)
      pc.tokenizer.allowAsciiType(true);
    // nothing may be unknown, and only members the serializer leaves out may be unassigned
    pc.allow_missing_members = false;
    T back = T();
    JS::Error e = pc.parseTo(back);
    if (e != JS::Error::NoError)
    {
      violation("does-not-parse-back", w + " error: " + pc.makeErrorString());
      return;
    }
    if (!pc.missing_members.empty())
      violation("unknown-members", w + " first: " + pc.missing_members[0]);
    if (!ty::Gen<T>::eq(v, back))
    {
      violation("value-changed", w + " reserialized: " + show(JS::serializeStruct(back, o), 1500));
      return;
    }
    if (!std::string(name).compare(0, 9, "unordered") || std::string(name) == "Containers" || std::string(name) == "All")
      ; // hash order may differ between two equal containers
    else
    {
      std::string t2 = JS::serializeStruct(back, o);
      if (t2 != t)
        violation("text-changed", w + " second: " + show(t2, 1500));
      count("texts_compared");
    }
    count(std::string("type_") + name);
    if (G().samples.size() < 2)
      sample(t);
  }
};
int main(int argc, char **argv)
{
  return run(argc, argv, "C06", [](uint64_t i, Rng &r) {
    Go g{r};
    ty::with_type(i, g);
    if (i % 400 == 7)
    {
      int depth = 100 + int(r.below(300));
      ty::Tree t;
      for (int k = 0; k < depth; k++)
      {
        ty::Tree p;
        p.name = std::to_string(k);
        if (k % 3)
          p.kids.push_back(std::move(t));
        else
          p.next.reset(new ty::Tree(std::move(t)));
        t = std::move(p);
      }
      g.one(t, "deep");
      count("deep_values");
    }
  });
}
