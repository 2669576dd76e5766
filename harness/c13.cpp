// C13: members bind by name alone and every miss is reported.
// Oracle: a hand-written description of each struct (names, aliases, optionality, supers) and a model that
// interprets the generated document against it; the struct is dumped member by member and compared.
#define JS_STD_OPTIONAL 1
#define JS_STL_MAP 1
#define JS_STL_UNORDERED_MAP 1
#include <optional>
#include "jsutil.h"
using namespace vh;
using ref::Val;

struct Leaf
{
  int a = -1, ab = -1, abc = -1;
  std::string name = "dflt";
  JS_OBJ(a, ab, abc, name);
};
struct One // a single member
{
  int only = -1;
  JS_OBJ(only);
};
struct Ali
{
  int first = -1, second = -1, third = -1, fourth = -1;
  JS::Optional<int> opt = -1;
  JS_OBJECT(JS_MEMBER(first), JS_MEMBER_ALIASES(second, "sec", "second_member_with_a_long_alias"), JS_MEMBER_WITH_NAME(third, "Third Name"),
            JS_MEMBER_WITH_NAME_AND_ALIASES(fourth, "4", "four", "first_alias"), JS_MEMBER_ALIASES(opt, "o"));
};
struct GrandBase
{
  int g1 = -1;
  std::string g2 = "dflt";
  JS_OBJ(g1, g2);
};
struct Base1 : GrandBase
{
  int p1 = -1;
  JS::OptionalChecked<int> p2;
  JS_OBJECT_WITH_SUPER(JS_SUPER(GrandBase), JS_MEMBER(p1), JS_MEMBER(p2));
};
struct Base2
{
  int q1 = -1, q2 = -1, q3 = -1;
  JS_OBJECT(JS_MEMBER(q1), JS_MEMBER_ALIASES(q2, "q2alias", "shared"), JS_MEMBER(q3));
};
struct Base3
{
  int r1 = -1;
  JS_OBJ(r1);
};
struct Derived : Base1, Base2, Base3
{
  int d1 = -1;
  Leaf leaf;
  std::vector<Leaf> leaves;
  std::optional<int> sopt;
  std::unique_ptr<int> uptr;
  int shared = -1; // a primary name that is an alias in a superclass
  JS_OBJ_SUPER(JS_SUPER(Base1, Base2, Base3), d1, leaf, leaves, sopt, uptr, shared);
};
struct Mid : GrandBase
{
  int mid1 = -1;
  JS::Optional<int> mid2 = -1;
  JS_OBJ_SUPER(JS_SUPER(GrandBase), mid1, mid2);
};
struct Deep : Mid, One
{
  int deep1 = -1;
  JS_OBJ_SUPER(JS_SUPER(Mid, One), deep1);
};
struct Late : Base3, Deep, Base2 // a base class with bases of its own between two others
{
  int late1 = -1;
  Leaf late2;
  JS_OBJ_SUPER(JS_SUPER(Base3, Deep, Base2), late1, late2);
};
struct Last : Base3, Deep // and at the end
{
  int last1 = -1;
  JS_OBJECT_WITH_SUPER(JS_SUPER(Base3, Deep), JS_MEMBER_ALIASES(last1, "last_one"));
};
struct Ext
{
  int e1 = -1;
  Ali ali;
};
JS_OBJ_EXT(Ext, e1, ali);
struct ExtD : Ext
{
  int f1 = -1;
  One one;
};
JS_OBJ_EXT_SUPER(ExtD, JS_SUPER(Ext), f1, one);
struct Root
{
  Derived der;
  ExtD ext;
  std::vector<Ali> alis;
  Leaf l1, l2;
  std::vector<std::vector<One>> grid;
  JS::Nullable<Leaf> nleaf;
  std::unique_ptr<Leaf> pleaf;
  JS_OBJ(der, ext, alis, l1, l2, grid, nleaf, pleaf);
};
struct Many // more members than any vector or word-sized bookkeeping would like
{
  int m0 = -1, m1 = -1, m2 = -1, m3 = -1, m4 = -1, m5 = -1, m6 = -1, m7 = -1, m8 = -1, m9 = -1, m10 = -1, m11 = -1, m12 = -1, m13 = -1, m14 = -1,
      m15 = -1, m16 = -1, m17 = -1, m18 = -1, m19 = -1, m20 = -1, m21 = -1, m22 = -1, m23 = -1, m24 = -1, m25 = -1, m26 = -1, m27 = -1, m28 = -1,
      m29 = -1, m30 = -1, m31 = -1, m32 = -1, m33 = -1, m34 = -1, m35 = -1, m36 = -1, m37 = -1, m38 = -1, m39 = -1, m40 = -1, m41 = -1, m42 = -1,
      m43 = -1, m44 = -1, m45 = -1, m46 = -1, m47 = -1, m48 = -1, m49 = -1, m50 = -1, m51 = -1, m52 = -1, m53 = -1, m54 = -1, m55 = -1, m56 = -1,
      m57 = -1, m58 = -1, m59 = -1, m60 = -1, m61 = -1, m62 = -1, m63 = -1, m64 = -1, m65 = -1, m66 = -1, m67 = -1, m68 = -1, m69 = -1, m70 = -1,
      m71 = -1, m72 = -1, m73 = -1, m74 = -1, m75 = -1, m76 = -1, m77 = -1, m78 = -1, m79 = -1, m80 = -1, m81 = -1, m82 = -1, m83 = -1, m84 = -1,
      m85 = -1, m86 = -1, m87 = -1, m88 = -1, m89 = -1, m90 = -1, m91 = -1, m92 = -1, m93 = -1, m94 = -1, m95 = -1, m96 = -1, m97 = -1, m98 = -1,
      m99 = -1, m100 = -1, m101 = -1, m102 = -1, m103 = -1, m104 = -1, m105 = -1, m106 = -1, m107 = -1, m108 = -1, m109 = -1, m110 = -1, m111 = -1,
      m112 = -1, m113 = -1, m114 = -1, m115 = -1, m116 = -1, m117 = -1, m118 = -1, m119 = -1, m120 = -1, m121 = -1, m122 = -1, m123 = -1, m124 = -1,
      m125 = -1, m126 = -1, m127 = -1, m128 = -1, m129 = -1, m130 = -1, m131 = -1, m132 = -1, m133 = -1, m134 = -1, m135 = -1, m136 = -1, m137 = -1,
      m138 = -1, m139 = -1;
  JS_OBJ(m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29,
         m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57,
         m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74, m75, m76, m77, m78, m79, m80, m81, m82, m83, m84, m85,
         m86, m87, m88, m89, m90, m91, m92, m93, m94, m95, m96, m97, m98, m99, m100, m101, m102, m103, m104, m105, m106, m107, m108, m109, m110,
         m111, m112, m113, m114, m115, m116, m117, m118, m119, m120, m121, m122, m123, m124, m125, m126, m127, m128, m129, m130, m131, m132, m133,
         m134, m135, m136, m137, m138, m139);
};
struct ManyD : Base3, Many // and such a class as a base, behind another one
{
  int z1 = -1;
  JS::Optional<int> z2 = -1;
  JS_OBJ_SUPER(JS_SUPER(Base3, Many), z1, z2);
};

struct Plain // no initialisers: zero in every object the library makes
{
  int x, y;
  JS::Optional<int> z;
  JS_OBJ(x, y, z);
};
struct Node // contains itself, every way the library offers
{
  int id = -1;
  std::string tag = "dflt";
  JS::Optional<int> opt = -1;
  std::vector<Node> kids;
  std::unique_ptr<Node> next;
  std::map<std::string, Node> named;
  std::vector<Plain> plains;
  JS_OBJ(id, tag, opt, kids, next, named, plains);
};
struct Fresh // elements are new objects, whatever the target or the element before held
{
  std::map<std::string, Leaf> ml;
  std::unordered_map<std::string, Plain> mp;
  JS::OneOrMany<Leaf> oom;
  JS::OneOrMany<Plain> oop;
  std::optional<Leaf> so;
  std::optional<Plain> sp;
  std::vector<Derived> vd;
  std::map<std::string, std::vector<Plain>> mv;
  JS::Optional<Leaf> ol;
  std::shared_ptr<Leaf> sl;
  JS_OBJ(ml, mp, oom, oop, so, sp, vd, mv, ol, sl);
};

// ---- description, independent of the library's tables ----
typedef std::map<std::string, std::string> Flat;
struct D;
struct Mem
{
  std::vector<std::string> names; // primary first
  bool optional;
  char kind; // i z(ero int) m(ap of object) M(ap of vector of object) e(optional object, new each time) O(ne or many) s o(bject) v(ector of object) g(rid) p(ointer to object, optional)  n(ullable object) q(optional int)
  const D *child;
  std::string slot;   // path component in the dump
  std::string prefix; // "Super::" in the unassigned list
};
struct D
{
  std::vector<Mem> m;
};
static std::vector<Mem> with(std::vector<Mem> a, const D &super, const std::string &name)
{
  for (Mem x : super.m)
  {
    if (x.prefix.empty())
      x.prefix = name + "::";
    a.push_back(x);
  }
  return a;
}
static const D dLeaf{{{{"a"}, false, 'i', nullptr, "a", ""}, {{"ab"}, false, 'i', nullptr, "ab", ""}, {{"abc"}, false, 'i', nullptr, "abc", ""},
                      {{"name"}, false, 's', nullptr, "name", ""}}};
static const D dOne{{{{"only"}, false, 'i', nullptr, "only", ""}}};
static const D dAli{{{{"first"}, false, 'i', nullptr, "first", ""},
                     {{"second", "sec", "second_member_with_a_long_alias"}, false, 'i', nullptr, "second", ""},
                     {{"Third Name"}, false, 'i', nullptr, "third", ""},
                     {{"4", "four", "first_alias"}, false, 'i', nullptr, "fourth", ""},
                     {{"opt", "o"}, true, 'i', nullptr, "opt", ""}}};
static const D dGrand{{{{"g1"}, false, 'i', nullptr, "g1", ""}, {{"g2"}, false, 's', nullptr, "g2", ""}}};
static const D dBase1{with({{{"p1"}, false, 'i', nullptr, "p1", ""}, {{"p2"}, true, 'q', nullptr, "p2", ""}}, dGrand, "GrandBase")};
static const D dBase2{{{{"q1"}, false, 'i', nullptr, "q1", ""}, {{"q2", "q2alias", "shared"}, false, 'i', nullptr, "q2", ""}, {{"q3"}, false, 'i', nullptr, "q3", ""}}};
static const D dBase3{{{{"r1"}, false, 'i', nullptr, "r1", ""}}};
static const D dDerived{with(with(with({{{"d1"}, false, 'i', nullptr, "d1", ""},
                                        {{"leaf"}, false, 'o', &dLeaf, "leaf", ""},
                                        {{"leaves"}, false, 'v', &dLeaf, "leaves", ""},
                                        {{"sopt"}, true, 'q', nullptr, "sopt", ""},
                                        {{"uptr"}, true, 'q', nullptr, "uptr", ""},
                                        {{"shared"}, false, 'i', nullptr, "shared", ""}},
                                       dBase1, "Base1"),
                                  dBase2, "Base2"),
                             dBase3, "Base3")};
static const D dMid{with({{{"mid1"}, false, 'i', nullptr, "mid1", ""}, {{"mid2"}, true, 'i', nullptr, "mid2", ""}}, dGrand, "GrandBase")};
static const D dDeep{with(with({{{"deep1"}, false, 'i', nullptr, "deep1", ""}}, dMid, "Mid"), dOne, "One")};
static const D dLate{with(with(with({{{"late1"}, false, 'i', nullptr, "late1", ""}, {{"late2"}, false, 'o', &dLeaf, "late2", ""}}, dBase3, "Base3"), dDeep, "Deep"), dBase2, "Base2")};
static const D dLast{with(with({{{"last1", "last_one"}, false, 'i', nullptr, "last1", ""}}, dBase3, "Base3"), dDeep, "Deep")};
static const D dExt{{{{"e1"}, false, 'i', nullptr, "e1", ""}, {{"ali"}, false, 'o', &dAli, "ali", ""}}};
static const D dExtD{with({{{"f1"}, false, 'i', nullptr, "f1", ""}, {{"one"}, false, 'o', &dOne, "one", ""}}, dExt, "Ext")};
static const D dRoot{{{{"der"}, false, 'o', &dDerived, "der", ""},
                      {{"ext"}, false, 'o', &dExtD, "ext", ""},
                      {{"alis"}, false, 'v', &dAli, "alis", ""},
                      {{"l1"}, false, 'o', &dLeaf, "l1", ""},
                      {{"l2"}, false, 'o', &dLeaf, "l2", ""},
                      {{"grid"}, false, 'g', &dOne, "grid", ""},
                      {{"nleaf"}, false, 'n', &dLeaf, "nleaf", ""},
                      {{"pleaf"}, true, 'p', &dLeaf, "pleaf", ""}}};
static const D dPlain{{{{"x"}, false, 'z', nullptr, "x", ""}, {{"y"}, false, 'z', nullptr, "y", ""}, {{"z"}, true, 'z', nullptr, "z", ""}}};
extern const D dNode;
const D dNode{{{{"id"}, false, 'i', nullptr, "id", ""},
               {{"tag"}, false, 's', nullptr, "tag", ""},
               {{"opt"}, true, 'i', nullptr, "opt", ""},
               {{"kids"}, false, 'v', &dNode, "kids", ""},
               {{"next"}, true, 'p', &dNode, "next", ""},
               {{"named"}, false, 'm', &dNode, "named", ""},
               {{"plains"}, false, 'v', &dPlain, "plains", ""}}};
static const D dFresh{{{{"ml"}, false, 'm', &dLeaf, "ml", ""},
                       {{"mp"}, false, 'm', &dPlain, "mp", ""},
                       {{"oom"}, false, 'O', &dLeaf, "oom", ""},
                       {{"oop"}, false, 'O', &dPlain, "oop", ""},
                       {{"so"}, true, 'e', &dLeaf, "so", ""},
                       {{"sp"}, true, 'e', &dPlain, "sp", ""},
                       {{"vd"}, false, 'v', &dDerived, "vd", ""},
                       {{"mv"}, false, 'M', &dPlain, "mv", ""},
                       {{"ol"}, true, 'o', &dLeaf, "ol", ""},
                       {{"sl"}, false, 'p', &dLeaf, "sl", ""}}};
static D make_many()
{
  D d;
  for (int i = 0; i < 140; i++)
    d.m.push_back({{"m" + std::to_string(i)}, false, 'i', nullptr, "m" + std::to_string(i), ""});
  return d;
}
static const D dMany = make_many();
static const D dManyD{with(with({{{"z1"}, false, 'i', nullptr, "z1", ""}, {{"z2"}, true, 'i', nullptr, "z2", ""}}, dBase3, "Base3"), dMany, "Many")};

// ---- dumps ----
static void put(Flat &f, const std::string &p, int v) { f[p] = std::to_string(v); }
static void put(Flat &f, const std::string &p, const std::string &v) { f[p] = v; }
static void dump(Flat &f, const std::string &p, const Leaf &v) { put(f, p + ".a", v.a), put(f, p + ".ab", v.ab), put(f, p + ".abc", v.abc), put(f, p + ".name", v.name); }
static void dump(Flat &f, const std::string &p, const One &v) { put(f, p + ".only", v.only); }
static void dump(Flat &f, const std::string &p, const Ali &v)
{
  put(f, p + ".first", v.first), put(f, p + ".second", v.second), put(f, p + ".third", v.third), put(f, p + ".fourth", v.fourth), put(f, p + ".opt", v.opt.data);
}
static void dump(Flat &f, const std::string &p, const Derived &v)
{
  put(f, p + ".g1", v.g1), put(f, p + ".g2", v.g2), put(f, p + ".p1", v.p1);
  f[p + ".p2"] = v.p2.assigned ? std::to_string(v.p2.data) : "none";
  put(f, p + ".q1", v.q1), put(f, p + ".q2", v.q2), put(f, p + ".q3", v.q3), put(f, p + ".r1", v.r1), put(f, p + ".d1", v.d1);
  dump(f, p + ".leaf", v.leaf);
  for (size_t i = 0; i < v.leaves.size(); i++)
    dump(f, p + ".leaves[" + std::to_string(i) + "]", v.leaves[i]);
  f[p + ".sopt"] = v.sopt ? std::to_string(*v.sopt) : "none";
  f[p + ".uptr"] = v.uptr ? std::to_string(*v.uptr) : "none";
  put(f, p + ".shared", v.shared);
}
static void dump(Flat &f, const std::string &p, const Deep &v)
{
  put(f, p + ".g1", v.g1), put(f, p + ".g2", v.g2), put(f, p + ".mid1", v.mid1), put(f, p + ".mid2", v.mid2.data), put(f, p + ".only", v.only), put(f, p + ".deep1", v.deep1);
}
static void dump(Flat &f, const std::string &p, const Late &v)
{
  dump(f, p, static_cast<const Deep &>(v));
  put(f, p + ".q1", v.q1), put(f, p + ".q2", v.q2), put(f, p + ".q3", v.q3), put(f, p + ".r1", v.r1), put(f, p + ".late1", v.late1);
  dump(f, p + ".late2", v.late2);
}
static void dump(Flat &f, const std::string &p, const Last &v)
{
  dump(f, p, static_cast<const Deep &>(v));
  put(f, p + ".r1", v.r1), put(f, p + ".last1", v.last1);
}
static void dump(Flat &f, const std::string &p, const ExtD &v)
{
  put(f, p + ".e1", v.e1), put(f, p + ".f1", v.f1);
  dump(f, p + ".ali", v.ali);
  dump(f, p + ".one", v.one);
}
static void dump(Flat &f, const std::string &p, const Root &v)
{
  dump(f, p + ".der", v.der);
  dump(f, p + ".ext", v.ext);
  for (size_t i = 0; i < v.alis.size(); i++)
    dump(f, p + ".alis[" + std::to_string(i) + "]", v.alis[i]);
  dump(f, p + ".l1", v.l1);
  dump(f, p + ".l2", v.l2);
  for (size_t i = 0; i < v.grid.size(); i++)
    for (size_t j = 0; j < v.grid[i].size(); j++)
      dump(f, p + ".grid[" + std::to_string(i) + "][" + std::to_string(j) + "]", v.grid[i][j]);
  dump(f, p + ".nleaf", v.nleaf.data);
  if (v.pleaf)
    dump(f, p + ".pleaf", *v.pleaf);
}
static void dump(Flat &f, const std::string &p, const Many &v)
{
  const int *q = &v.m0;
  for (int i = 0; i < 140; i++)
    put(f, p + ".m" + std::to_string(i), q[i]);
}
static void dump(Flat &f, const std::string &p, const ManyD &v)
{
  dump(f, p, static_cast<const Many &>(v));
  put(f, p + ".r1", v.r1), put(f, p + ".z1", v.z1), put(f, p + ".z2", v.z2.data);
}

static void dump(Flat &f, const std::string &p, const Plain &v) { put(f, p + ".x", v.x), put(f, p + ".y", v.y), put(f, p + ".z", v.z.data); }
template <class V>
static void dump_vec(Flat &f, const std::string &p, const V &v)
{
  for (size_t i = 0; i < v.size(); i++)
    dump(f, p + "[" + std::to_string(i) + "]", v[i]);
}
template <class M>
static void dump_map(Flat &f, const std::string &p, const M &v)
{
  for (auto &x : v)
    dump(f, p + "[" + x.first + "]", x.second);
}
static void dump(Flat &f, const std::string &p, const Node &v)
{
  put(f, p + ".id", v.id), put(f, p + ".tag", v.tag), put(f, p + ".opt", v.opt.data);
  dump_vec(f, p + ".kids", v.kids);
  if (v.next)
    dump(f, p + ".next", *v.next);
  dump_map(f, p + ".named", v.named);
  dump_vec(f, p + ".plains", v.plains);
}
static void dump(Flat &f, const std::string &p, const Fresh &v)
{
  dump_map(f, p + ".ml", v.ml);
  dump_map(f, p + ".mp", v.mp);
  dump_vec(f, p + ".oom", v.oom.data);
  dump_vec(f, p + ".oop", v.oop.data);
  if (v.so)
    dump(f, p + ".so", *v.so);
  if (v.sp)
    dump(f, p + ".sp", *v.sp);
  dump_vec(f, p + ".vd", v.vd);
  for (auto &x : v.mv)
    dump_vec(f, p + ".mv[" + x.first + "]", x.second);
  dump(f, p + ".ol", v.ol.data);
  if (v.sl)
    dump(f, p + ".sl", *v.sl);
}

// ---- document generator ----
static int counter, level;
struct Level
{
  Level() { level++; }
  ~Level() { level--; }
};
static std::vector<std::string> all_names(const D &d)
{
  std::vector<std::string> n;
  for (auto &m : d.m)
    for (auto &x : m.names)
      n.push_back(x);
  return n;
}
static bool known(const D &d, const std::string &n)
{
  for (auto &m : d.m)
    for (auto &x : m.names)
      if (x == n)
        return true;
  return false;
}
static Val gen_obj(Rng &r, const D &d, int miss, int extra, int dup);
static Val gen_val(Rng &r, const Mem &m, int miss, int extra, int dup)
{
  Val v;
  switch (m.kind)
  {
  case 'i':
  case 'z':
  case 'q':
    v.k = ref::Num;
    v.raw = std::to_string(++counter);
    break;
  case 's':
    v.k = ref::Str;
    v.raw = "s" + std::to_string(++counter);
    break;
  case 'M':
  case 'm':
  {
    v.k = ref::Obj;
    static const char *keys[] = {"a", "b", "c", "kids", "id", "x"};
    for (int n = r.chance(20) || level > 2 ? 0 : r.range(1, 3); n > 0; n--)
    {
      Val e;
      if (m.kind == 'm')
        e = gen_obj(r, *m.child, miss, extra, dup);
      else
      {
        e.k = ref::Arr;
        for (int k = r.range(0, 3); k > 0; k--)
          e.a.push_back(gen_obj(r, *m.child, miss, extra, dup));
      }
      v.o.emplace_back(r.pick(keys), e);
    }
    break;
  }
  case 'O':
    if (r.chance(50))
      return gen_obj(r, *m.child, miss, extra, dup);
    v.k = ref::Arr;
    for (int n = r.range(0, 3); n > 0; n--)
      v.a.push_back(gen_obj(r, *m.child, miss, extra, dup));
    break;
  case 'e':
  case 'o':
  case 'n':
  case 'p': return gen_obj(r, *m.child, miss, extra, dup);
  case 'v':
    v.k = ref::Arr;
    for (int n = r.chance(20) || level > 2 ? 0 : r.range(1, 3); n > 0; n--)
      v.a.push_back(gen_obj(r, *m.child, miss, extra, dup));
    break;
  case 'g':
    v.k = ref::Arr;
    for (int n = r.range(0, 2); n > 0; n--)
    {
      Val w;
      w.k = ref::Arr;
      for (int k = r.range(0, 2); k > 0; k--)
        w.a.push_back(gen_obj(r, *m.child, miss, extra, dup));
      v.a.push_back(w);
    }
    break;
  }
  return v;
}
static std::string near_name(Rng &r, const D &d)
{
  std::vector<std::string> n = all_names(d);
  std::string s = r.pick(n);
  switch (r.below(7))
  {
  case 0: s += char('a' + r.below(26)); break;
  case 1: s.pop_back(); break;
  case 2: {
    char &c = s[r.below(s.size())];
    c = isalpha((unsigned char)c) ? char(c ^ 0x20) : 'X';
    break;
  }
  case 3: s.insert(s.begin(), '_'); break;
  case 4: s += s; break;
  case 5: s[r.below(s.size())] = char('a' + r.below(26)); break;
  case 6:
    s.clear();
    for (size_t k = r.below(40); k > 0; k--)
      s += char('a' + r.below(26));
    break;
  }
  return s;
}
// an unknown member's value: anything, preferably holding names that are members outside it
static Val gen_unknown(Rng &r, const D &d, int depth = 0)
{
  Val v;
  switch (r.below(depth > 3 ? 4 : 7))
  {
  case 0: v.k = ref::Null; break;
  case 1:
    v.k = ref::Bool;
    v.b = r.chance(50);
    break;
  case 2:
    v.k = ref::Num;
    v.raw = "-77";
    break;
  case 3:
    v.k = ref::Str;
    v.raw = r.chance(50) ? "}" : "x]\\\"{";
    break;
  case 4:
    v.k = ref::Arr;
    for (int n = r.range(0, 3); n > 0; n--)
      v.a.push_back(gen_unknown(r, d, depth + 1));
    break;
  default:
    v.k = ref::Obj;
    std::vector<std::string> nm = all_names(d);
    for (int n = r.range(0, 3); n > 0; n--)
      v.o.emplace_back(r.pick(nm), gen_unknown(r, d, depth + 1));
  }
  return v;
}
static Val gen_obj(Rng &r, const D &d, int miss, int extra, int dup)
{
  Val v;
  v.k = ref::Obj;
  Level lv;
  for (auto &m : d.m)
  {
    if (r.chance(miss) || (m.kind == 'p' && level > 4))
      continue;
    v.o.emplace_back(m.names[r.chance(60) ? 0 : r.below(m.names.size())], gen_val(r, m, miss, extra, dup));
    while (r.chance(dup))
      v.o.emplace_back(r.pick(m.names), gen_val(r, m, miss, extra, dup));
  }
  if (r.chance(extra))
    for (int n = r.range(1, 3); n > 0; n--)
    {
      std::string s = near_name(r, d);
      if (!known(d, s))
        v.o.emplace_back(s, gen_unknown(r, d));
    }
  for (size_t i = v.o.size(); i > 1 && !r.chance(2); i--)
    std::swap(v.o[i - 1], v.o[r.below(i)]);
  return v;
}

// ---- model ----
struct Model
{
  bool allow_missing, allow_unassigned;
  std::vector<std::string> missing, unassigned;
  bool failed = false;
  Flat flat;
  void erase(const std::string &p)
  {
    for (auto it = flat.lower_bound(p); it != flat.end() && it->first.compare(0, p.size(), p) == 0;)
      if (it->first.size() == p.size() || it->first[p.size()] == '.' || it->first[p.size()] == '[')
        it = flat.erase(it);
      else
        ++it;
  }
  void defaults(const D &d, const std::string &p)
  {
    for (auto &m : d.m)
    {
      std::string q = p + "." + m.slot;
      if (m.kind == 'i')
        flat[q] = "-1";
      else if (m.kind == 'z')
        flat[q] = "0";
      else if (m.kind == 'q')
        flat[q] = "none";
      else if (m.kind == 's')
        flat[q] = "dflt";
      else if (m.kind == 'o' || m.kind == 'n')
        defaults(*m.child, q);
    }
  }
  void obj(const D &d, const std::string &p, const Val &v)
  {
    std::set<size_t> assigned;
    for (auto &mv : v.o)
    {
      size_t at = d.m.size();
      for (size_t i = 0; i < d.m.size() && at == d.m.size(); i++)
        if (d.m[i].names[0] == mv.first)
          at = i;
      for (size_t i = 0; i < d.m.size() && at == d.m.size(); i++)
        for (size_t k = 1; k < d.m[i].names.size(); k++)
          if (d.m[i].names[k] == mv.first)
            at = i;
      if (at == d.m.size())
      {
        missing.push_back(mv.first);
        if (!allow_missing)
          failed = true;
      }
      else
      {
        assigned.insert(at);
        const Mem &m = d.m[at];
        std::string q = p + "." + m.slot;
        if (m.kind == 'i' || m.kind == 'z' || m.kind == 'q' || m.kind == 's')
          flat[q] = mv.second.raw;
        else if (m.kind == 'o' || m.kind == 'n')
          obj(*m.child, q, mv.second);
        else if (m.kind == 'p')
        {
          if (!flat.count(q + "." + m.child->m[0].slot)) // an existing object is filled in place
            defaults(*m.child, q);
          obj(*m.child, q, mv.second);
        }
        else if (m.kind == 'e')
        {
          erase(q);
          defaults(*m.child, q);
          obj(*m.child, q, mv.second);
        }
        else if (m.kind == 'm' || m.kind == 'M')
        {
          for (size_t i = 0; i < mv.second.o.size() && !failed; i++)
          {
            std::string e = q + "[" + mv.second.o[i].first + "]";
            erase(e);
            if (m.kind == 'm')
            {
              defaults(*m.child, e);
              obj(*m.child, e, mv.second.o[i].second);
            }
            else
              for (size_t j = 0; j < mv.second.o[i].second.a.size() && !failed; j++)
              {
                std::string f = e + "[" + std::to_string(j) + "]";
                defaults(*m.child, f);
                obj(*m.child, f, mv.second.o[i].second.a[j]);
              }
          }
        }
        else if (m.kind == 'O' && mv.second.k == ref::Obj)
        {
          erase(q);
          defaults(*m.child, q + "[0]");
          obj(*m.child, q + "[0]", mv.second);
        }
        else
        {
          erase(q);
          for (size_t i = 0; i < mv.second.a.size() && !failed; i++)
          {
            std::string e = q + "[" + std::to_string(i) + "]";
            if (m.kind == 'v' || m.kind == 'O')
            {
              defaults(*m.child, e);
              obj(*m.child, e, mv.second.a[i]);
            }
            else
              for (size_t j = 0; j < mv.second.a[i].a.size() && !failed; j++)
              {
                std::string f = e + "[" + std::to_string(j) + "]";
                defaults(*m.child, f);
                obj(*m.child, f, mv.second.a[i].a[j]);
              }
          }
        }
      }
      if (failed)
        return;
    }
    bool un = false;
    for (size_t i = 0; i < d.m.size(); i++)
      if (!assigned.count(i) && !d.m[i].optional)
      {
        un = true;
        unassigned.push_back(d.m[i].prefix + d.m[i].names[0]);
      }
    if (un && !allow_unassigned)
      failed = true;
  }
};
static std::string join(const std::vector<std::string> &v)
{
  std::string s;
  for (auto &x : v)
    s += x + "|";
  return s;
}
template <class T>
static void one(Rng &r, const D &d, const char *tn)
{
  static const int rates[] = {0, 0, 3, 10, 30, 70};
  bool clean_names = r.chance(30);
  int miss = r.pick(rates), extra = clean_names ? 0 : r.pick(rates), dup = r.chance(70) ? 0 : 10;
  counter = 0;
  Val v = gen_obj(r, d, miss, extra, dup);
  std::string text = ref::print(v, &r, int(r.below(3)));
  Model m;
  m.allow_missing = r.chance(60);
  m.allow_unassigned = r.chance(60);
  bool track = r.chance(85);
  T t{};
  m.defaults(d, "");
  if (r.chance(30))
  {
    // the target already holds values: members not named by the document have to keep them
    Val v0 = gen_obj(r, d, 30, 0, 0);
    std::string t0 = ref::print(v0);
    m.obj(d, "", v0);
    bool prior_failed = m.failed;
    m.failed = false;
    m.unassigned.clear();
    m.missing.clear();
    if (prior_failed)
    {
      m.flat.clear();
      m.defaults(d, "");
    }
    else
    {
      JS::ParseContext c0(t0);
      if (c0.parseTo(t) != JS::Error::NoError)
        violation("prior-parse", t0);
      count("prior_contents");
    }
  }
  m.obj(d, "", v);
  JS::ParseContext c;
  c.allow_missing_members = m.allow_missing;
  c.allow_unasigned_required_members = m.allow_unassigned;
  c.track_member_assignement_state = track;
  std::vector<size_t> cu;
  if (r.chance(30))
    cu = cuts(r, text.size());
  std::vector<std::string> parts = split(text, cu);
  std::vector<Exact> bufs;
  bufs.reserve(parts.size());
  for (auto &p : parts)
  {
    bufs.emplace_back(p);
    c.tokenizer.addData(bufs.back().p, bufs.back().n);
  }
  JS::Error e = c.parseTo(t);
  eval();
  count(m.failed ? "strict_failures" : "successes");
  count("names_missing", m.missing.size());
  count("members_unassigned", m.unassigned.size());
  if (text.size() > 20)
    seen(text);
  sample(text);
  std::string info = std::string(tn) + " allow_missing=" + (m.allow_missing ? "1" : "0") + " allow_unassigned=" + (m.allow_unassigned ? "1" : "0") + " track=" +
                     (track ? "1" : "0") + " doc=" + show(text, 1500) + " cuts=" + showcuts(cu) + " err=" + std::to_string(int(e));
  if ((e != JS::Error::NoError) != m.failed)
  {
    violation(m.failed ? "strict-not-failed" : "unexpected-error", info + " " + show(c.makeErrorString(), 300));
    return;
  }
  std::vector<std::string> got = c.missing_members, want = m.missing, gu = c.unassigned_required_members, wu = m.unassigned;
  if (!track)
    want.clear(), wu.clear();
  std::sort(gu.begin(), gu.end());
  std::sort(wu.begin(), wu.end());
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  if (got != want)
    violation("missing-list", info + " want=" + join(want) + " got=" + join(got));
  if (gu != wu)
    violation("unassigned-list", info + " want=" + join(wu) + " got=" + join(gu));
  if (m.failed)
  {
    if (track && e == JS::Error::MissingPropertyMember)
    {
      count("error_texts");
      if (c.makeErrorString().find(m.missing.back()) == std::string::npos)
        violation("error-text-names-member", info + " " + show(c.makeErrorString(), 300));
    }
    return;
  }
  Flat f;
  dump(f, "", t);
  count("members_compared", f.size());
  if (f != m.flat)
  {
    std::string diff;
    for (auto &x : m.flat)
      if (!f.count(x.first) || f[x.first] != x.second)
        diff += x.first + " want " + x.second + " got " + (f.count(x.first) ? f[x.first] : "nothing") + "; ";
    for (auto &x : f)
      if (!m.flat.count(x.first))
        diff += x.first + " unexpected " + x.second + "; ";
    violation("member-values", info + " " + diff.substr(0, 600));
  }
}
int main(int argc, char **argv)
{
  return run(argc, argv, "C13", [](uint64_t, Rng &r) {
    switch (r.below(13))
    {
    case 10:
    case 11: one<Node>(r, dNode, "Node"); break;
    case 12: one<Fresh>(r, dFresh, "Fresh"); break;
    case 0: one<Leaf>(r, dLeaf, "Leaf"); break;
    case 1: one<One>(r, dOne, "One"); break;
    case 2: one<Ali>(r, dAli, "Ali"); break;
    case 3:
    case 4: one<Derived>(r, dDerived, "Derived"); break;
    case 8: one<Late>(r, dLate, "Late"); break;
    case 9: one<Last>(r, dLast, "Last"); break;
    case 5: one<ExtD>(r, dExtD, "ExtD"); break;
    case 6:
      if (r.chance(60))
        one<Leaf>(r, dLeaf, "Leaf");
      else if (r.chance(50))
        one<Many>(r, dMany, "Many");
      else
        one<ManyD>(r, dManyD, "ManyD");
      break;
    default: one<Root>(r, dRoot, "Root");
    }
  });
}
