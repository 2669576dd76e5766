// C07: serialized output is well-formed JSON that denotes exactly the value, in every style.
#include "types.h"
using namespace vh;

static JS::SerializerOptions options(Rng &r, std::string &d)
{
  JS::SerializerOptions o(r.chance(50) ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  d = o.style() == JS::SerializerOptions::Pretty ? "pretty" : "compact";
  if (r.chance(35))
  {
    int s = int(r.below(9));
    o.setShiftSize((unsigned char)s);
    d += " shift=" + std::to_string(s);
  }
  if (r.chance(15))
  {
    bool p = r.chance(50);
    o.setStyle(p ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
    d += p ? " then-pretty" : " then-compact";
  }
  return o;
}
// remove whitespace outside strings
static std::string squeeze(const std::string &t)
{
  std::string o;
  bool in = false;
  for (size_t i = 0; i < t.size(); i++)
  {
    char c = t[i];
    if (in)
    {
      o += c;
      if (c == '\\' && i + 1 < t.size())
        o += t[++i];
      else if (c == '"')
        in = false;
      continue;
    }
    if (c == '"')
      in = true;
    if (c != ' ' && c != '\n' && c != '\t' && c != '\r')
      o += c;
  }
  return o;
}
struct Go
{
  Rng &r;
  template <class T>
  void go(const char *name)
  {
    T v = ty::Gen<T>::make(r, 1 + int(r.below(4)));
    one(v, name);
  }
  template <class T>
  void one(const T &v, const char *name)
  {
    ref::Val want;
    if (!ty::Gen<T>::json(v, want))
      return;
    std::string first;
    int n = 2 + int(r.below(2));
    for (int i = 0; i < n; i++)
    {
      std::string od = "default";
      std::string t;
      if (i == 0)
        t = JS::serializeStruct(v);
      else
      {
        JS::SerializerOptions o = options(r, od);
        t = JS::serializeStruct(v, o);
      }
      eval();
      count("bytes_checked", t.size());
      ref::Val got;
      std::string err;
      if (!ref::parse(t, got, &err))
      {
        violation("not-json", std::string(name) + " " + od + ": " + err + " text: " + show(t, 1500));
        return;
      }
      if (!ref::same(want, got, "$", &err))
      {
        violation("wrong-content", std::string(name) + " " + od + ": " + err + " text: " + show(t, 1500));
        return;
      }
      std::string sq = squeeze(t);
      if (i == 0)
      {
        first = sq;
        if (t.size() > 12)
          seen(t);
      }
      else if (sq != first)
        violation("style-changes-content", std::string(name) + " " + od + ": " + show(t, 800) + " vs " + show(first, 800));
      if (od == "compact" && t != sq)
        violation("compact-has-whitespace", std::string(name) + ": " + show(t, 800));
    }
    count(std::string("type_") + name);
    if (G().samples.size() < 2)
      sample(first);
  }
};
int main(int argc, char **argv)
{
  return run(argc, argv, "C07", [](uint64_t i, Rng &r) {
    Go g{r};
    ty::with_type(i, g);
    if (i % 400 == 7) // deep nesting
    {
      int depth = 100 + int(r.below(500));
      ty::Tree t;
      for (int k = 0; k < depth; k++)
      {
        ty::Tree p;
        p.name = std::to_string(k);
        if (k % 3)
          p.kids.push_back(std::move(t));
        else
          p.next.reset(new ty::Tree(std::move(t)));
        t = std::move(p);
      }
      g.one(t, "deep");
      count("deep_values");
    }
    // non-finite numbers still give well-formed text
    if (i % 50 == 3)
    {
      std::vector<double> d = {1.5, HUGE_VAL, -HUGE_VAL, NAN};
      std::vector<float> f = {1.5f, HUGE_VALF, NAN};
      std::string t = JS::serializeStruct(d), u = JS::serializeStruct(f);
      ref::Val x;
      eval();
      if (!ref::parse(t, x) || x.a.size() != 4 || x.a[1].k != ref::Null)
        violation("non-finite", t);
      if (!ref::parse(u, x) || x.a.size() != 3 || x.a[2].k != ref::Null)
        violation("non-finite", u);
    }
  });
}
