// Random access sets, buffer vectors and fast sequences.
#include "trace.hxx"
#include "gen.hxx"
#include <list>
#include <opengm/opengm.hxx>
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/datastructures/fast_sequence.hxx>
using tr::Rec; using tr::J;
static long gLive = 0;
// element that counts its live instances: leaks and double frees change the count
struct Elem { int v; Elem() : v(-7) { ++gLive; } Elem(int x) : v(x) { ++gLive; } Elem(const Elem& o) : v(o.v) { ++gLive; } Elem& operator=(const Elem& o) { v = o.v; return *this; } ~Elem() { --gLive; } operator int() const { return v; } };
template<class C> std::string idxs(const C& c) { std::vector<int> r; for(size_t i = 0; i < c.size(); ++i) r.push_back(c[i]); std::string b = "["; for(size_t i = 0; i < r.size(); ++i) { if(i) b += ','; b += std::to_string(r[i]); } return b + "]"; }
template<class I> std::string its(I a, I b) { std::string o = "["; bool f = true; for(; a != b; ++a) { if(!f) o += ','; f = false; o += std::to_string(int(*a)); } return o + "]"; }
template<class C> struct Seqs {
   typedef typename C::ValueType V; std::unique_ptr<C> s[4]; Rec& r;
   Seqs(Rec& rec) : r(rec) { for(int o = 1; o <= 3; ++o) s[o].reset(new C()); }
   void show(J& j, int o) {
      std::string c = "[", it = "[", sz = "[", em = "[";
      for(int q = 1; q <= 3; ++q) { std::string k = q > 1 ? "," : ""; c += k + idxs(*s[q]); if((o + q) % 2) it += k + its(s[q]->begin(), s[q]->end()); else { const C& cc = *s[q]; it += k + its(cc.begin(), cc.end()); } sz += k + std::to_string(s[q]->size()); em += k + (s[q]->empty() ? "1" : "0"); }
      j.raw("c", c + "]").raw("it", it + "]").raw("sz", sz + "]").raw("em", em + "]");
      if(s[o]->size()) { const C& cc = *s[o]; j.i("fr", r.rng.chance(50) ? int(s[o]->front()) : int(cc.front())).i("ba", r.rng.chance(50) ? int(s[o]->back()) : int(cc.back())); } else j.i("fr", 0).i("ba", 0);
      r.ev(j);
   }
   void run(const Op& op) {
      int k = static_cast<int>(op[0]), o = op.size() > 1 ? static_cast<int>(op[1]) : 0; if(!k) return; long a = op.size() > 2 ? op[2] : 0, x = op.size() > 3 ? op[3] : 0; J j("seq"); j.i("o", o); C& c = *s[o]; std::vector<int> v;
      switch(k) {
         case 1: s[o].reset(new C()); j.s("k", "new"); break;
         case 2: { s[o].reset(new C(static_cast<size_t>(a))); for(long i = 0; i < a; ++i) { v.push_back(int(r.rng.range(0, 99))); (*s[o])[i] = V(v.back()); } j.s("k", "sized").a("v", v); break; }
         case 3: { V val(x); s[o].reset(new C(static_cast<size_t>(a), val)); } j.s("k", "filled").i("n", a).i("x", x); break;
         case 4: { C* n = new C(*s[a]); s[o].reset(n); } j.s("k", "copy").i("p", a); break;
         case 5: c = *s[a]; j.s("k", "assign").i("p", a); break;
         case 6: c.push_back(V(a)); j.s("k", "push").i("x", a); break;
         case 7: c.push_back(c[a]); j.s("k", "pushown").i("n", a); break;
         case 8: { size_t old = c.size(); c.resize(static_cast<size_t>(a)); for(size_t i = old; i < static_cast<size_t>(a); ++i) { v.push_back(int(r.rng.range(0, 99))); c[i] = V(v.back()); } j.s("k", "resize").i("n", a).a("v", v); break; }
         case 9: c.reserve(static_cast<size_t>(a)); j.s("k", "reserve").i("n", a); break;
         case 10: c.clear(); j.s("k", "clear"); break;
         case 11: { for(long i = 0; i < a; ++i) v.push_back(int(r.rng.range(0, 99))); std::list<V> l; std::vector<V> w; for(int q : v) { l.push_back(V(q)); w.push_back(V(q)); } if(r.rng.chance(50)) c.assign(l.begin(), l.end()); else c.assign(w.begin(), w.end()); j.s("k", "range").a("v", v); break; }
         case 12: c[a] = V(x); j.s("k", "write").i("n", a).i("x", x); break;
      }
      show(j, o);
   }
};
template<class C> void replay(Rec& r, const Behaviour& b) { gLive = 0; { Seqs<C> s(r); for(const Op& op : b) s.run(op); } r.ev(J("live").i("n", gLive)); }
template<class C> void randomSeq(Rec& r) {
   gLive = 0; { Seqs<C> s(r); tr::Rng& g = r.rng; size_t n = 5 + g.below(25);
   for(size_t i = 0; i < n; ++i) {
      long o = 1 + static_cast<long>(g.below(3)), p = 1 + static_cast<long>(g.below(3)); size_t sz = s.s[o]->size(); long m = static_cast<long>(g.below(g.chance(20) ? 20 : 8));
      switch(g.below(16)) {
         case 0: s.run(Op{1, o}); break; case 1: s.run(Op{2, o, m}); break; case 2: s.run(Op{3, o, m, g.range(0, 9)}); break; case 3: s.run(Op{4, o, p}); break; case 4: case 5: s.run(Op{5, o, p}); break;
         case 6: case 7: case 8: case 9: s.run(Op{6, o, g.range(0, 99)}); break; case 10: if(sz) s.run(Op{7, o, static_cast<long>(g.below(sz))}); break; case 11: s.run(Op{8, o, m}); break; case 12: s.run(Op{9, o, m}); break;
         case 13: s.run(Op{10, o}); break; case 14: s.run(Op{11, o, m}); break; case 15: if(sz) s.run(Op{12, o, static_cast<long>(g.below(sz)), g.range(0, 99)}); break;
      }
   } }
   r.ev(J("live").i("n", gLive));
}
// ---- sets
struct Cmp { int d; Cmp(int k = 0) : d(k) {} template<class A, class B> bool operator()(const A& x, const B& y) const { long a = long(x), b = long(y); return d == 0 ? a < b : (d == 1 ? a > b : (a % 10) < (b % 10)); } };
template<class K, class F> struct SetOf { static opengm::RandomAccessSet<K, Cmp>* make(int d) { return new opengm::RandomAccessSet<K, Cmp>(Cmp(d)); } };
template<class S> void showSet(Rec& r, J& j, S& s) {
   const S& c = s; j.raw("c", idxs(c)).raw("it", its(s.begin(), s.end())).raw("cit", its(c.begin(), c.end())).raw("rev", its(s.rbegin(), s.rend())).raw("crev", its(c.rbegin(), c.rend())).i("sz", static_cast<long>(c.size())).t("em", c.empty()); r.ev(j);
}
template<class K, class CMP> void setCase(Rec& r, std::vector<int> ds, std::function<CMP(int)> mk) {
   typedef opengm::RandomAccessSet<K, CMP> S; tr::Rng& g = r.rng; std::unique_ptr<S> s[4]; int dd[4];
   long range = g.chance(50) ? 8 : 30;
   auto key = [&]() { return g.range(0, range); };
   auto vals = [&](size_t mx) { std::vector<long> v; size_t n = g.below(mx); for(size_t i = 0; i < n; ++i) v.push_back(key()); return v; };
   for(int o = 1; o <= 3; ++o) { int d = ds[g.below(ds.size())]; dd[o] = d; if(g.chance(30)) s[o].reset(new S(g.below(9), mk(d))); else s[o].reset(new S(mk(d))); J j("set"); j.s("k", "new").i("o", o).i("d", d); showSet(r, j, *s[o]); }
   size_t n = 5 + g.below(25);
   for(size_t i = 0; i < n; ++i) {
      int o = 1 + static_cast<int>(g.below(3)), p = 1 + static_cast<int>(g.below(3)); S& c = *s[o]; const S& cc = c; J j("set"); j.i("o", o);
      switch(g.below(18)) {
         case 0: { int d = ds[g.below(ds.size())]; std::vector<long> v = vals(8); std::vector<K> kv(v.begin(), v.end()); dd[o] = d; s[o].reset(new S(kv.begin(), kv.end(), mk(d))); j.s("k", "from").i("d", d).a("v", v); break; }
         case 1: { S* q = new S(*s[p]); s[o].reset(q); dd[o] = dd[p]; j.s("k", "copy").i("p", p); break; }
         case 2: c = *s[p]; dd[o] = dd[p]; j.s("k", "assign").i("p", p); break;
         case 3: case 4: case 5: case 6: { long x = key(); auto q = c.insert(K(x)); typename S::const_iterator b = cc.begin(); j.s("k", "ins").i("x", x).t("ok", q.second).i("pos", q.first - b); break; }
         case 7: case 8: { long x = key(); size_t h = g.below(c.size() + 1); typename S::const_iterator b = cc.begin(); typename S::const_iterator q = c.insert(b + h, K(x)); b = cc.begin(); j.s("k", "hint").i("x", x).i("pos", q - b); break; }
         case 9: { std::vector<long> v = vals(6); std::vector<K> kv(v.begin(), v.end()); c.insert(kv.begin(), kv.end()); j.s("k", "insall").a("v", v); break; }
         case 10: { long x = key(); size_t q = c.erase(K(x)); j.s("k", "del").i("x", x).t("ok", q == 1); if(q > 1) j.i("bad", 1); break; }
         case 11: if(c.size()) { size_t q = g.below(c.size()); c.erase(c.begin() + q); j.s("k", "delat").i("n", static_cast<long>(q)); } else { c.clear(); j.s("k", "clear"); } break;
         case 12: { size_t a = g.below(c.size() + 1), b = a + g.below(c.size() - a + 1); typename S::const_iterator f = cc.begin(); c.erase(f + a, f + b); j.s("k", "delrange").i("n", static_cast<long>(a)).i("m", static_cast<long>(b)); break; }
         case 13: if(g.chance(40)) { c.clear(); j.s("k", "clear"); } else { size_t m = g.below(20); c.reserve(m); j.s("k", "reserve").i("n", static_cast<long>(m)).i("cap", static_cast<long>(c.capacity())); } break;
         case 14: if(o != p) { c.swap(*s[p]); std::swap(dd[o], dd[p]); j.s("k", "swap").i("p", p); break; } // fallthrough
         case 15: if(dd[o] != 2) { std::set<long> t; std::vector<long> v = vals(8); t.insert(v.begin(), v.end()); v.assign(t.begin(), t.end()); if(dd[o] == 1) std::reverse(v.begin(), v.end()); std::vector<K> kv(v.begin(), v.end()); c.assignFromSet(kv); j.s("k", "fromset").a("v", v); break; } // fallthrough
         default: {
            long x = key(), y = key(); K kx(x), ky(y); j.s("k", "query").i("x", x).i("y", y).i("find", c.find(kx) - c.begin()).i("cfind", cc.find(kx) - cc.begin()).i("count", static_cast<long>(cc.count(kx)));
            j.i("lo", c.lower_bound(kx) - c.begin()).i("clo", cc.lower_bound(kx) - cc.begin()).i("up", c.upper_bound(kx) - c.begin()).i("cup", cc.upper_bound(kx) - cc.begin());
            auto e = c.equal_range(kx); auto f = cc.equal_range(kx); j.i("r1", e.first - c.begin()).i("r2", e.second - c.begin()).i("cr1", f.first - cc.begin()).i("cr2", f.second - cc.begin()).t("lt", cc.key_comp()(kx, ky)).t("vlt", cc.value_comp()(kx, ky)); break; }
      }
      showSet(r, j, *s[o]);
      // the others did not change
      int q = 1 + static_cast<int>(g.below(3)); J k("set"); k.i("o", q).s("k", "query"); { const S& z = *s[q]; long x = key(); K kx(x); k.i("x", x).i("y", x).i("find", z.find(kx) - z.begin()).i("cfind", z.find(kx) - z.begin()).i("count", static_cast<long>(z.count(kx))).i("lo", z.lower_bound(kx) - z.begin()).i("clo", z.lower_bound(kx) - z.begin()).i("up", z.upper_bound(kx) - z.begin()).i("cup", z.upper_bound(kx) - z.begin()); auto f = z.equal_range(kx); k.i("r1", f.first - z.begin()).i("r2", f.second - z.begin()).i("cr1", f.first - z.begin()).i("cr2", f.second - z.begin()).t("lt", z.key_comp()(kx, kx)).t("vlt", z.value_comp()(kx, kx)); } showSet(r, k, *s[q]);
   }
}
void part(tr::Driver& d) {
#if PART == 0
   for(size_t i = 0; i < d.n(120, 3000); ++i) { std::string k = std::to_string(i);
      d.add("set-cmp-" + k, [](Rec& r) { setCase<int, Cmp>(r, {0, 1, 2}, [](int q) { return Cmp(q); }); });
      d.add("set-less-" + k, [](Rec& r) { setCase<size_t, std::less<size_t> >(r, {0}, [](int) { return std::less<size_t>(); }); });
      d.add("set-greater-" + k, [](Rec& r) { setCase<double, std::greater<double> >(r, {1}, [](int) { return std::greater<double>(); }); });
   }
#else
   std::vector<Behaviour> b = readBehaviours("containers.gen");
   for(size_t i = 0; i < b.size(); ++i) { std::string k = std::to_string(i); Behaviour x = b[i]; d.add("gen-buffervector-" + k, [x](Rec& r) { replay<opengm::BufferVector<Elem> >(r, x); }); d.add("gen-fastsequence3-" + k, [x](Rec& r) { replay<opengm::FastSequence<Elem, 3> >(r, x); }); }
   for(size_t i = 0; i < d.n(100, 3000); ++i) { std::string k = std::to_string(i);
      d.add("buffervector-" + k, randomSeq<opengm::BufferVector<Elem> >); d.add("buffervector-int-" + k, randomSeq<opengm::BufferVector<int> >);
      d.add("fastsequence1-" + k, randomSeq<opengm::FastSequence<Elem, 1> >); d.add("fastsequence4-" + k, randomSeq<opengm::FastSequence<Elem, 4> >); d.add("fastsequence-double-" + k, randomSeq<opengm::FastSequence<double> >);
   }
#endif
}
DRIVER_MAIN(part)
