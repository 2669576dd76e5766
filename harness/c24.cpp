// C24: a document cut off before its final closing bracket is reported as needing more data, never as complete.
#include "outcome.h"
using namespace vh;

template <class T>
static void one(Rng &r, const std::string &doc, const char *name, bool skip_unknown)
{
  size_t end = doc.find_last_of("}]"); // proper prefixes end before the final bracket
  std::vector<size_t> at;
  if (end <= 220)
    for (size_t i = 0; i <= end; i++)
      at.push_back(i);
  else
    for (int i = 0; i < 60; i++)
      at.push_back(r.chance(20) ? end - r.below(std::min<size_t>(end, 12)) : r.below(end + 1));
  for (size_t n : at)
  {
    std::string p = doc.substr(0, n);
    T t{};
    JS::ParseContext pc;
    std::vector<Exact> bufs;
    bool pieces = r.chance(20);
    std::vector<std::string> parts = pieces ? split(p, cuts(r, p.size(), false)) : std::vector<std::string>{p};
    bufs.reserve(parts.size());
    for (auto &x : parts)
    {
      bufs.emplace_back(x);
      pc.tokenizer.addData(bufs.back().p, bufs.back().n);
    }
    JS::Error e = pc.parseTo(t);
    eval();
    if (e == JS::Error::NoError)
      violation("prefix-accepted", std::string(name) + " prefix: " + show(p, 1500));
    else if (e != JS::Error::NeedMoreData)
      violation("wrong-error", std::string(name) + " error " + std::to_string(int(e)) + " prefix: " + show(p, 1500));
    std::string s = pc.makeErrorString();
    seen(hash(p, hash(name, strlen(name))));
    count("prefixes");
  }
  T t{};
  Exact x(doc);
  JS::ParseContext pc(x.p, x.n);
  JS::Error e = pc.parseTo(t);
  if (!std::is_same<T, JS::JsonTokens>::value && !std::is_same<T, JS::Map>::value && e == JS::Error::NoError)
  { // the rest supplied when more data is asked for
    std::string want = oc::value(t);
    for (int k = 0; k < 6; k++)
    {
      size_t n = at[r.below(at.size())];
      std::vector<std::string> parts = split(doc.substr(n), r.chance(60) ? std::vector<size_t>() : cuts(r, doc.size() - n));
      parts.insert(parts.begin(), doc.substr(0, n));
      std::vector<Exact> bufs;
      bufs.reserve(parts.size());
      for (auto &p : parts)
        bufs.emplace_back(p);
      size_t next = 1;
      JS::ParseContext rc(bufs[0].p, bufs[0].n);
      rc.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &tk) {
        if (next < bufs.size())
        {
          tk.addData(bufs[next].p, bufs[next].n);
          next++;
        }
      });
      T v{};
      JS::Error re = rc.parseTo(v);
      eval();
      count("resumed");
      if (re != JS::Error::NoError)
        violation("rest-refused", std::string(name) + " error " + std::to_string(int(re)) + " cut at " + std::to_string(n) + ": " + show(doc, 1500));
      else if (oc::value(v) != want)
        violation("rest-differs", std::string(name) + " cut at " + std::to_string(n) + ": " + show(doc, 1500) + " gives " + show(oc::value(v), 800));
    }
  }
  if (e != JS::Error::NoError)
    violation("whole-rejected", std::string(name) + " error " + std::to_string(int(e)) + " document: " + show(doc, 1500));
  count(std::string("type_") + name);
}
// extra, unknown members at random places: the skipping code has to notice the end, too
static void decorate(Rng &r, ref::Val &v, bool open)
{
  if (v.k == ref::Obj)
  {
    for (auto &m : v.o)
      decorate(r, m.second, false);
    if (open && r.chance(60))
    {
      ref::GenOpt go;
      go.max_depth = 3;
      v.o.insert(v.o.begin() + long(r.below(v.o.size() + 1)), {"unknown_" + std::to_string(r.below(100)), ref::gen(r, go, 0, false)});
    }
  }
}
struct Go
{
  Rng &r;
  template <class T>
  void go(const char *name)
  {
    T v = ty::Gen<T>::make(r, 1 + int(r.below(3)));
    ref::Val x;
    ty::Gen<T>::json(v, x);
    if (x.k != ref::Obj && x.k != ref::Arr)
      return;
    bool is_struct = std::is_same<T, ty::Scalars>::value || std::is_same<T, ty::Containers>::value || std::is_same<T, ty::Wrappers>::value || std::is_same<T, ty::Tree>::value ||
                     std::is_same<T, ty::Derived>::value || std::is_same<T, ty::External>::value || std::is_same<T, ty::Nested>::value || std::is_same<T, ty::All>::value;
    decorate(r, x, is_struct);
    std::string doc = ref::print(x, &r, int(r.below(3)));
    if (G().samples.size() < 2)
      sample(doc);
    one<T>(r, doc, name, true);
  }
};
// arrays of the language, which cannot be returned from a generator
template <class T>
static void array_root(Rng &r, const char *name)
{
  T v{};
  ty::Maker m{r, 3};
  m("", v, v);
  ref::Val x;
  ty::Jsoner::array(v, x);
  one<T>(r, ref::print(x, &r, int(r.below(3))), name, true);
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C24", [](uint64_t i, Rng &r) {
    if (i % 4 == 3)
    {
      ty::CaptureDoc d = ty::make_capture_doc(r);
      one<ty::Captures>(r, d.text, "Captures", true);
      switch (i / 4 % 5)
      {
      case 0: return one<JS::JsonTokens>(r, d.either, "JsonTokens", true);
      case 1: return one<JS::JsonObject>(r, d.obj, "JsonObject", true);
      case 2: return one<JS::JsonArray>(r, d.arr, "JsonArray", true);
      case 3: return one<JS::JsonObjectOrArray>(r, d.either, "JsonObjectOrArray", true);
      default: return one<JS::Map>(r, d.text, "Map", true);
      }
    }
    if (i % 16 == 6)
      switch (i / 16 % 6)
      {
      case 0: return array_root<int[3]>(r, "int[3]");
      case 1: return array_root<bool[2][2]>(r, "bool[2][2]");
      case 2: return array_root<std::vector<int>[2]>(r, "vector<int>[2]");
      case 3: return array_root<ty::Small[2]>(r, "Small[2]");
      case 4: return array_root<std::map<std::string, int>[1][2]>(r, "map<string,int>[1][2]");
      default: return array_root<std::array<std::string, 2>[2]>(r, "array<string,2>[2]");
      }
    Go g{r};
    ty::with_type(i / 4 * 3 + i % 4, g);
  });
}
