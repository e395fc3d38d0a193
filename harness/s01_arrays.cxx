// Arrays, views, vectors and hyperslabs in HDF5 files (marray_hdf5.hxx).
#include "world.hxx"
#include <opengm/datastructures/marray/marray_hdf5.hxx>
#include <sys/stat.h>
#include <unistd.h>
using tr::Rec; using tr::J;
namespace h5 = marray::hdf5;
template<class T> struct Ty; 
#define TY(T) template<> struct Ty<T> { static const char* n() { return #T; } };
TY(double) TY(float) TY(int) TY(unsigned char) TY(short) TY(long long) TY(unsigned long) TY(signed char)
static marray::CoordinateOrder ord(long o) { return o ? marray::LastMajorOrder : marray::FirstMajorOrder; }
template<class A> std::vector<double> canon(const A& a) { Vs s; for(size_t i = 0; i < a.dimension(); ++i) s.push_back(a.shape(i)); std::vector<double> t; Vs x(s.size(), 0); do t.push_back(static_cast<double>(a(x.begin()))); while(nextLabeling(s, x)); return t; }
template<class A> Vs shp(const A& a) { Vs s; for(size_t i = 0; i < a.dimension(); ++i) s.push_back(a.shape(i)); return s; }
struct World {
   Rec& r; tr::Rng& g; std::map<std::string, Vs> known; std::map<std::string, long> order;
   World(Rec& q) : r(q), g(q.rng) {}
   struct Loc { std::string p, gr, d; hid_t f, h; };
   std::string path() { static const char* const n[] = {"a.h5", "b.h5"}; return n[g.chance(75) ? 0 : 1]; }
   std::string grp() { static const char* const n[] = {"", "", "g", "h"}; return n[g.below(4)]; }
   std::string set() { static const char* const n[] = {"x", "y", "z", "g"}; return n[g.chance(4) ? 3 : g.below(3)]; }
   Loc any() { if(!known.empty() && g.chance(85)) { auto it = known.begin(); std::advance(it, g.below(known.size())); std::string k = it->first; size_t a = k.find('|'), b = k.rfind('|'); Loc l; l.p = k.substr(0, a); l.gr = k.substr(a + 1, b - a - 1); l.d = k.substr(b + 1); return l; } Loc l; l.p = path(); l.gr = grp(); l.d = set(); return l; }
   static std::string key(const Loc& l) { return l.p + "|" + l.gr + "|" + l.d; }
   J& at(J& j, const Loc& l) { return j.s("p", l.p).s("g", l.gr).s("d", l.d); }
   // run an operation inside the group; a refusal anywhere becomes the event `no`
   template<class F> bool in(Loc& l, bool write, J no, F body) {
      bool ok = true; l.f = l.h = -1;
      try { l.f = h5::openFile(l.p, write ? h5::READ_WRITE : h5::READ_ONLY); l.h = l.gr.empty() ? l.f : h5::openGroup(l.f, l.gr); body(l.h); } catch(std::runtime_error& e) { if(std::string(e.what()).find("Assertion") != std::string::npos) throw; ok = false; }
      if(!l.gr.empty() && l.h >= 0) h5::closeGroup(l.h); if(l.f >= 0) h5::closeFile(l.f); if(!ok) r.ev(no); return ok;
   }
   Vs shape() { Vs s; size_t n = 1 + g.below(4); do { s.clear(); for(size_t i = 0; i < n; ++i) s.push_back(1 + g.below(4)); } while(prodOf(s) > 60); return s; }
   template<class T> marray::Marray<T> fill(const Vs& s, long o, long lo = std::numeric_limits<T>::is_signed ? -60 : 0) { marray::Marray<T> m(s.begin(), s.end(), T(), ord(o)); for(size_t i = 0; i < m.size(); ++i) m(i) = static_cast<T>(g.range(lo, 99)); return m; }
   template<class T> void save() {
      Loc l = any(); if(g.chance(70)) { l.gr = grp(); l.d = set(); } size_t how = g.below(4); J no("nosave"); at(no, l); J e("save"); at(e, l).s("ty", Ty<T>::n()); Vs sh; bool ok; long o = static_cast<long>(g.below(2));
      if(how == 0) { Vs s = Vs(1, 1 + g.below(12)); std::vector<T> v; for(size_t i = 0; i < s[0]; ++i) v.push_back(static_cast<T>(g.range(0, 99))); sh = s; o = 1; e.a("sh", s).i("o", 1).a("t", v); ok = in(l, true, no, [&](hid_t h) { h5::save(h, l.d, v); }); }
      else if(how == 1) {   // a view: permuted, bound or cut out
         Vs s = shape(); marray::Marray<T> m = fill<T>(s, o); marray::View<T> v; size_t k = g.below(3); if(k == 0 || (k == 1 && s.size() == 1)) v = marray::View<T>(m);
         if(k == 0) { Vs p = somePick(g, s.size(), s.size()); v.permute(p.begin()); } else if(k == 1) { size_t d = g.below(s.size()); if(s.size() > 1) v = m.boundView(d, g.below(s[d])); } else { Vs b, q; for(size_t x : s) { b.push_back(g.below(x)); q.push_back(1 + g.below(x - b.back())); } v = m.view(b.begin(), q.begin()); }
         sh = shp(v); o = v.coordinateOrder() == marray::LastMajorOrder; e.a("sh", sh).i("o", o).a("t", canon(v)); ok = in(l, true, no, [&](hid_t h) { h5::save(h, l.d, v); });
      } else { marray::Marray<T> m = fill<T>(shape(), o); sh = shp(m); e.a("sh", sh).i("o", o).a("t", canon(m)); ok = in(l, true, no, [&](hid_t h) { h5::save(h, l.d, m); }); }
      if(ok) { r.ev(e); known[key(l)] = sh; order[key(l)] = o; }
   }
   template<class T> void create() {
      Loc l = any(); l.gr = grp(); l.d = set(); Vs s = shape(); long o = static_cast<long>(g.below(2)); J no("nosave"); at(no, l); if(in(l, true, no, [&](hid_t h) { h5::create<T>(h, l.d, s.begin(), s.end(), ord(o)); })) { J e("create"); r.ev(at(e, l).s("ty", Ty<T>::n()).a("sh", s).i("o", o)); known[key(l)] = s; order[key(l)] = o; }
   }
   void box(const Loc& l, Vs& base, Vs& sh, bool& in) { Vs s = known.count(key(l)) ? known[key(l)] : shape(); in = known.count(key(l)) != 0; base.clear(); sh.clear(); for(size_t x : s) { base.push_back(g.below(x)); sh.push_back(1 + g.below(x - base.back())); } if(g.chance(8)) { size_t i = g.below(s.size()); sh[i] = s[i] - base[i] + 1; in = false; } }
   template<class T> void slab() {
      Loc l = any(); Vs base, sh; bool inside; box(l, base, sh, inside); long o = order.count(key(l)) && g.chance(85) ? order[key(l)] : static_cast<long>(g.below(2)); marray::Marray<T> m = fill<T>(sh, o, 0); J no("noslab"); at(no, l).a("base", base).a("sh", sh).i("o", o);
      if(in(l, true, no, [&](hid_t h) { h5::saveHyperslab(h, l.d, base.begin(), base.end(), sh.begin(), m); })) { J e("slab"); r.ev(at(e, l).a("base", base).a("sh", sh).i("o", o).a("t", canon(m))); }
   }
   template<class T> void load() {
      Loc l = any(); size_t how = g.below(4); J no(how == 1 ? "noshape" : how == 3 ? "noloadslab" : "noload"); at(no, l).s("ty", Ty<T>::n()); Vs base, sh; bool inside; if(how == 3) { box(l, base, sh, inside); no.a("base", base).a("want", sh); }
      J e(how == 0 ? "load" : how == 1 ? "loadshape" : how == 2 ? "loadvec" : "loadslab"); at(e, l).s("ty", Ty<T>::n());
      bool ok = in(l, false, no, [&](hid_t h) {
         if(how == 1) { marray::Vector<size_t> v; h5::loadShape(h, l.d, v); Vs s; for(size_t i = 0; i < v.size(); ++i) s.push_back(v(i)); e.a("sh", s); }
         else if(how == 2) { std::vector<T> v(g.below(4)); h5::loadVec(h, l.d, v); e.a("t", v); }
         else { marray::Marray<T> m; if(g.chance(40)) m = fill<T>(shape(), static_cast<long>(g.below(2))); if(how == 0) h5::load(h, l.d, m); else { h5::loadHyperslab(h, l.d, base.begin(), base.end(), sh.begin(), m); e.a("base", base).a("want", sh); } e.a("sh", shp(m)).i("o", m.coordinateOrder() == marray::LastMajorOrder).a("t", canon(m)); }
      });
      if(ok) r.ev(e);
   }
   void file() { std::string p = path(); hid_t f = h5::createFile(p); h5::closeFile(f); std::vector<std::string> gone; for(auto& k : known) if(k.first.compare(0, p.size() + 1, p + "|") == 0) gone.push_back(k.first); for(auto& k : gone) { known.erase(k); order.erase(k); } r.ev(J("newfile").s("p", p)); }
   void group() { Loc l; l.p = path(); std::string n = g.chance(50) ? "g" : "h"; bool ok = true; hid_t f = -1; try { f = h5::openFile(l.p, h5::READ_WRITE); hid_t h = h5::createGroup(f, n); h5::closeGroup(h); } catch(std::runtime_error&) { ok = false; } if(f >= 0) h5::closeFile(f); 
      if(!ok && known.count(l.p + "||" + n)) return;   // the name is taken by a data set
      r.ev(J(ok ? "group" : "nogroup").s("p", l.p).s("g", n)); }
};
template<class T, class U> void run(Rec& r) {
   H5Eset_auto2(H5E_DEFAULT, 0, 0); char dir[] = "s01XXXXXX"; if(!mkdtemp(dir) || chdir(dir)) throw std::logic_error("scratch");
   World w(r); w.file(); size_t n = r.thorough ? 60 : 30;
   for(size_t i = 0; i < n; ++i) { size_t k = w.g.below(100); if(k < 22) w.save<T>(); else if(k < 27) w.save<U>(); else if(k < 36) w.create<T>(); else if(k < 52) w.slab<T>(); else if(k < 56) w.slab<U>(); else if(k < 86) w.load<T>(); else if(k < 92) w.load<U>(); else if(k < 97) w.group(); else w.file(); }
   ::unlink("a.h5"); ::unlink("b.h5"); if(chdir("..") || ::rmdir(dir)) throw std::logic_error("scratch");
}
template<class T, class U> void reg(tr::Driver& d, const char* n) { for(size_t i = 0; i < d.n(14, 200); ++i) d.add(std::string("h5-") + n + "-" + std::to_string(i), run<T, U>); }
void part(tr::Driver& d) { reg<double, int>(d, "double-int"); reg<int, float>(d, "int-float"); reg<unsigned char, double>(d, "uchar-double"); reg<float, long long>(d, "float-ll"); reg<unsigned long, short>(d, "ulong-short"); reg<signed char, unsigned long>(d, "schar-ulong"); }
DRIVER_MAIN(part)
