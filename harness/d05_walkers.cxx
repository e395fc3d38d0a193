// Shape walkers and the iterators built on accessors and index lists.
#include "trace.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/utilities/indexing.hxx>
#include <opengm/utilities/subsequence_iterator.hxx>
#include <opengm/utilities/accessor_iterator.hxx>
#include <opengm/utilities/shape_accessor.hxx>
#include <opengm/utilities/vector_view.hxx>
using tr::Rec; using tr::J; using namespace opengm;
template<class V> void header(Rec& r, const V& s, const char* o, std::vector<std::vector<size_t> > f, std::vector<size_t> vs = {}, std::vector<size_t> va = {}, std::vector<size_t> vb = {}) {
   r.ev(J("walk").a("s", s).s("o", o).aa("f", f).a("vs", vs).a("va", va).a("vb", vb));
}
template<class S> std::vector<S> shape(Rec& r, size_t lo) { tr::Rng& g = r.rng; size_t d = g.chance(15) ? 6 + g.below(2) : lo + g.below(5 - lo); std::vector<S> s(d); size_t p = 1; for(auto& x : s) { x = static_cast<S>(g.chance(25) ? 1 : 1 + g.below(4)); if(p * x > 120) x = 1; p *= x; } return s; }
template<class S> size_t prod(const std::vector<S>& s) { size_t p = 1; for(auto x : s) p *= x; return p; }
template<class S> void shapeWalk(Rec& r) {
   std::vector<S> s = shape<S>(r, 1); size_t n = prod(s), stop = r.rng.chance(70) ? n : 1 + r.rng.below(n);
   { header(r, s, "first", {}); ShapeWalker<typename std::vector<S>::const_iterator> w(s.begin(), s.size()); for(size_t k = 0;; ) { r.ev(J("at").a("c", w.coordinateTuple())); if(++k == stop) break; ++w; r.ev(J("step")); } if(stop == n) r.ev(J("end"));
     w.reset(); r.ev(J("back")); r.ev(J("at").a("c", w.coordinateTuple())); if(n > 1) { ++w; r.ev(J("step")); r.ev(J("at").a("c", w.coordinateTuple())); } }
   { header(r, s, "last", {}); ShapeWalkerSwitchedOrder<S*> w(&s[0], s.size()); for(size_t k = 0;; ) { r.ev(J("at").a("c", w.coordinateTuple())); if(++k == stop) break; ++w; r.ev(J("step")); } if(stop == n) r.ev(J("end")); }
}
template<class S> void subWalk(Rec& r) {
   tr::Rng& g = r.rng; std::vector<S> s = shape<S>(r, 1); std::vector<size_t> fi; for(size_t d = 0; d < s.size(); ++d) if(g.chance(40)) fi.push_back(d); if(g.chance(30)) g.shuffle(fi);
   std::vector<S> fv; std::vector<std::vector<size_t> > f; size_t n = prod(s); for(size_t d : fi) { fv.push_back(static_cast<S>(g.below(s[d]))); f.push_back({d, fv.back()}); n /= s[d]; }
   header(r, s, "first", f); FastSequence<size_t> fif; fif.assign(fi.begin(), fi.end());
   auto go = [&](auto& w) {
      r.ev(J("wsize").i("n", static_cast<long>(w.subSize())));
      for(int round = 0; round < 2; ++round) { size_t stop = round || g.chance(50) ? n : 1 + g.below(n); for(size_t k = 0;; ) { r.ev(J("at").a("c", w.coordinateTuple())); if(++k == stop) break; ++w; r.ev(J("step")); } if(stop == n) r.ev(J("end")); if(!round) { w.resetCoordinate(); r.ev(J("back")); } }
   };
   if(g.chance(50)) { SubShapeWalker<S*, FastSequence<size_t>, std::vector<S> > w(&s[0], s.size(), fif, fv); go(w); } else { SubShapeWalker<typename std::vector<S>::const_iterator, std::vector<size_t>, std::vector<S> > w(s.begin(), s.size(), fi, fv); go(w); }
}
template<class S> void multiWalk(Rec& r) {
   tr::Rng& g = r.rng; std::vector<S> s = shape<S>(r, 1); size_t n = prod(s); std::vector<size_t> vs, va, vb; size_t v = g.below(3); bool small = g.chance(30);
   for(size_t d = 0; d < s.size(); ++d) { vs.push_back(v); size_t k = g.below(small ? 2 : 3); if(k == 0 || k == 2) va.push_back(v); if(k == 1 || k == 2) vb.push_back(v); v += 1 + g.below(3); }
   if(va.empty()) va.push_back(vs[g.below(vs.size())]); if(vb.empty()) vb.push_back(vs[g.below(vs.size())]);
   { header(r, s, "first", {}, vs, va, vb); TripleShapeWalker<S*> w(&s[0], s.size(), vs, va, vb); for(size_t k = 0;; ) { r.ev(J("at").a("c", w.coordinateTupleAB()).a("ca", w.coordinateTupleA()).a("cb", w.coordinateTupleB())); if(++k == n) break; ++w; r.ev(J("step")); } r.ev(J("end")); }
   { header(r, s, "first", {}, vs, va, vb); DoubleShapeWalker<typename std::vector<S>::const_iterator> w(s.begin(), s.size(), vs, va); for(size_t k = 0;; ) { r.ev(J("at").a("c", w.coordinateTupleAB()).a("ca", w.coordinateTupleA())); if(++k == n) break; ++w; r.ev(J("step")); } r.ev(J("end")); }
}
// ---- iterators: val(it) gives the number behind an iterator
template<class It, class VAL> void drive(Rec& r, It begin, size_t n, const std::vector<long>& v, VAL val) {
   tr::Rng& g = r.rng; r.ev(J("seq").a("v", v).i("n", static_cast<long>(n))); It a[3] = {begin, begin, begin}; long p[3] = {0, 0, 0}; long N = static_cast<long>(n);
   for(size_t s = 0; s < 30; ++s) {
      int i = 1 + static_cast<int>(g.below(2)), k = 1 + static_cast<int>(g.below(2)); It& x = a[i]; long q = g.range(0, N);
      auto at = [&](const It& y, long pos) { return pos < N && pos >= 0 ? val(y) : -99L; };
      switch(g.below(11)) {
         case 0: if(p[i] < N) { It& y = ++x; ++p[i]; r.ev(J("pre").i("i", i).i("n", 1).i("at", &y == &x ? at(y, p[i]) : -98)); } break;
         case 1: if(p[i] > 0) { It& y = --x; --p[i]; r.ev(J("pre").i("i", i).i("n", -1).i("at", &y == &x ? at(y, p[i]) : -98)); } break;
         case 2: if(p[i] < N) { It y = x++; ++p[i]; r.ev(J("post").i("i", i).i("n", 1).i("at", at(y, p[i] - 1))); } break;
         case 3: if(p[i] > 0) { It y = x--; --p[i]; r.ev(J("post").i("i", i).i("n", -1).i("at", at(y, p[i] + 1))); } break;
         case 4: { long d = q - p[i]; It y = d >= 0 ? (x += d) : (x -= -d); p[i] = q; r.ev(J("pre").i("i", i).i("n", d).i("at", at(y, q))); break; }
         case 5: { long d = q - p[k]; It y = d >= 0 ? a[k] + d : a[k] - (-d); x = y; p[i] = q; r.ev(J("set").i("i", i).i("k", k).i("n", d)); break; }
         case 6: { It y(a[k]); x = y; p[i] = p[k]; r.ev(J("set").i("i", i).i("k", k).i("n", 0)); break; }
         case 7: case 8: r.ev(J("cmp").t("eq", a[1] == a[2]).t("ne", a[1] != a[2]).t("lt", a[1] < a[2]).t("gt", a[1] > a[2]).t("le", a[1] <= a[2]).t("ge", a[1] >= a[2]).i("d", static_cast<long>(static_cast<std::ptrdiff_t>(a[1] - a[2])))); break;
         default: { const It& c = x; J j("look"); long o = q - p[i]; bool off = o >= 0 && q < N; bool in = p[i] < N; It y(x); if(off) y += o; j.i("i", i).i("n", o).i("at", in ? val(x) : -99).i("cat", in ? val(c) : -99).i("ar", in ? static_cast<long>(*(It(x))) : -99).i("off", off ? static_cast<long>(x[o]) : -99).i("coff", off ? static_cast<long>(c[o]) : -99); r.ev(j); }
      }
   }
}
template<class V> void subseq(Rec& r) {
   tr::Rng& g = r.rng; std::vector<V> base; size_t n = 1 + g.below(9); for(size_t i = 0; i < n; ++i) base.push_back(static_cast<V>(g.range(0, 99))); size_t m = g.below(9); std::vector<size_t> ix; std::vector<long> v; for(size_t i = 0; i < m; ++i) { ix.push_back(g.below(n)); v.push_back(static_cast<long>(base[ix.back()])); }
   typedef SubsequenceIterator<typename std::vector<V>::const_iterator, std::vector<size_t>::const_iterator> It; size_t o = m ? g.below(m + 1) : 0; It b = g.chance(50) ? It(base.begin(), ix.begin()) : It(base.begin(), ix.begin(), o) - static_cast<long>(o);
   if(g.chance(20)) { It z; z = b; b = z; } drive(r, b, m, v, [](const It& i) { return static_cast<long>(*i); });
   It e(base.begin(), ix.begin(), m); std::vector<long> all(b, e); r.ev(J("seq").a("v", all).i("n", static_cast<long>(std::distance(b, e)))); r.ev(J("seq").a("v", v).i("n", static_cast<long>(all.size())));
   if(all != v) r.ev(J("bad"));
}
struct Cell { long x; Cell(long v = 0) : x(v) {} operator long() const { return x; } };
// the documented example of an accessor, over fundamental and other elements
template<class T, bool C> class VectorAccessor {
public:
   typedef T value_type; typedef typename meta::If<C, const T&, T&>::type reference; typedef typename meta::If<C, const T*, T*>::type pointer; typedef typename meta::If<C, const std::vector<T>&, std::vector<T>&>::type vector_reference; typedef typename meta::If<C, const std::vector<T>*, std::vector<T>*>::type vector_pointer;
   VectorAccessor(vector_pointer v = 0) : v_(v) {} VectorAccessor(vector_reference v) : v_(&v) {}
   size_t size() const { return v_ == 0 ? 0 : v_->size(); } reference operator[](const size_t j) { return (*v_)[j]; } const T& operator[](const size_t j) const { return (*v_)[j]; }
   template<bool D> bool operator==(const VectorAccessor<T, D>& o) const { return v_ == o.v_; } vector_pointer v_;
};
template<class T, bool C> void accessorVec(Rec& r) {
   tr::Rng& g = r.rng; std::vector<T> v; std::vector<long> l; size_t n = g.below(9); for(size_t i = 0; i < n; ++i) { l.push_back(g.range(0, 99)); v.push_back(T(l.back())); }
   typedef AccessorIterator<VectorAccessor<T, C>, C> It; VectorAccessor<T, C> a(v); size_t o = g.below(n + 1); It b = g.chance(50) ? It(a) : It(a, o) - o; drive(r, b, n, l, [](const It& i) { return static_cast<long>(*i); });
   if(n) { It i(a, n - 1); long z = static_cast<long>(*(i.operator->())); const It j(a, 0); long y = static_cast<long>(*(j.operator->())); r.ev(J("seq").a("v", std::vector<long>{z, y}).i("n", 2)); r.ev(J("look").i("i", 1).i("n", 1).i("at", l[n - 1]).i("cat", l[n - 1]).i("ar", l[n - 1]).i("off", l[0]).i("coff", l[0])); }
}
void accessorWrite(Rec& r) {
   tr::Rng& g = r.rng; std::vector<Cell> v; std::vector<long> l; size_t n = 1 + g.below(9); for(size_t i = 0; i < n; ++i) { l.push_back(g.range(0, 99)); v.push_back(Cell(l.back())); }
   typedef AccessorIterator<VectorAccessor<Cell, false>, false> It; VectorAccessor<Cell, false> a(v); It i(a); r.ev(J("seq").a("v", l).i("n", static_cast<long>(n))); size_t p = 0;
   for(int s = 0; s < 10; ++s) { size_t q = g.below(n); if(q >= p) i += q - p; else i -= p - q; r.ev(J("pre").i("i", 1).i("n", static_cast<long>(q) - static_cast<long>(p)).i("at", (*i).x)); p = q; size_t o = g.below(n - p); long x = g.range(0, 99); if(o == 0 && g.chance(50)) { if(g.chance(50)) *i = Cell(x); else i->x = x; } else i[o] = Cell(x); r.ev(J("write").i("i", 1).i("n", static_cast<long>(o)).i("x", x)); r.ev(J("look").i("i", 1).i("n", static_cast<long>(o)).i("at", (*i).x).i("cat", (*i).x).i("ar", i->x).i("off", v[p + o].x).i("coff", i[o].x)); }
}
// accessors of the library: shapes of functions and factors, their variables, sub-labelings
void modelIters(Rec& r) {
   typedef DiscreteSpace<unsigned, unsigned char> Sp; typedef GraphicalModel<double, Adder, meta::TypeListGenerator<ExplicitFunction<double, unsigned, unsigned char>, PottsFunction<double, unsigned, unsigned char> >::type, Sp> GM;
   tr::Rng& g = r.rng; std::vector<unsigned char> L; size_t n = 2 + g.below(6); for(size_t i = 0; i < n; ++i) L.push_back(static_cast<unsigned char>(1 + g.below(5))); GM gm(Sp(L.begin(), L.end())); std::vector<unsigned> vs; for(size_t i = 0; i < n; ++i) if(g.chance(60) && vs.size() < 4) vs.push_back(static_cast<unsigned>(i)); if(vs.empty()) vs.push_back(0);
   std::vector<unsigned char> sh; std::vector<long> shl, vl; for(unsigned v : vs) { sh.push_back(L[v]); shl.push_back(L[v]); vl.push_back(v); } ExplicitFunction<double, unsigned, unsigned char> f(sh.begin(), sh.end(), 0.0); GM::FunctionIdentifier id = gm.addFunction(f); gm.addFactor(id, vs.begin(), vs.end());
   typedef GM::FactorType F; const F& fa = gm[0];
   drive(r, fa.shapeBegin(), std::distance(fa.shapeBegin(), fa.shapeEnd()), shl, [](const F::ShapeIteratorType& i) { return static_cast<long>(*i); });
   typedef ExplicitFunction<double, unsigned, unsigned char>::FunctionShapeIteratorType SI; drive(r, f.functionShapeBegin(), std::distance(f.functionShapeBegin(), f.functionShapeEnd()), shl, [](const SI& i) { return static_cast<long>(*i); });
   typedef AccessorIterator<FactorVariablesAccessor<F>, true> VI; drive(r, VI(FactorVariablesAccessor<F>(fa)), FactorVariablesAccessor<F>(fa).size(), vl, [](const VI& i) { return static_cast<long>(*i); });
   typedef AccessorIterator<FactorShapeAccessor<F>, true> HI; drive(r, HI(FactorShapeAccessor<F>(fa)), FactorShapeAccessor<F>(fa).size(), shl, [](const HI& i) { return static_cast<long>(*i); });
   std::vector<unsigned char> lab; std::vector<long> sub; for(size_t i = 0; i < n; ++i) lab.push_back(static_cast<unsigned char>(g.below(L[i]))); for(unsigned v : vs) sub.push_back(lab[v]);
   typedef SubsetAccessor<std::vector<unsigned>::const_iterator, std::vector<unsigned char>::const_iterator> SA; typedef AccessorIterator<SA, true> AI; SA sa(vs.begin(), vs.end(), lab.begin()); drive(r, AI(sa), sa.size(), sub, [](const AI& i) { return static_cast<long>(*i); });
   typedef GmLabelFactorLabelAccessor<F, std::vector<unsigned char>::const_iterator> GA; typedef AccessorIterator<GA, true> GI; GA ga(fa, lab.begin()); drive(r, GI(ga), ga.size(), sub, [](const GI& i) { return static_cast<long>(*i); });
   drive(r, fa.variableIndicesBegin(), std::distance(fa.variableIndicesBegin(), fa.variableIndicesEnd()), vl, [](const F::VariablesIteratorType& i) { return static_cast<long>(*i); });
   size_t m = g.below(n + 1), o = g.below(n - m + 1); VectorView<std::vector<unsigned char>, unsigned> vv(lab, static_cast<unsigned>(o), static_cast<unsigned>(m)); std::vector<long> part(lab.begin() + o, lab.begin() + o + m), byIx; for(size_t i = 0; i < vv.size(); ++i) byIx.push_back(vv[i]);
   drive(r, vv.begin(), std::distance(vv.begin(), vv.end()), part, [](const std::vector<unsigned char>::const_iterator& i) { return static_cast<long>(*i); }); if(byIx != part) r.ev(J("bad"));
}
void part(tr::Driver& d) {
   for(size_t i = 0; i < d.n(40, 1500); ++i) { std::string k = std::to_string(i);
      d.add("walk-size_t-" + k, shapeWalk<size_t>); d.add("walk-uchar-" + k, shapeWalk<unsigned char>); d.add("sub-size_t-" + k, subWalk<size_t>); d.add("sub-uint-" + k, subWalk<unsigned>); d.add("multi-size_t-" + k, multiWalk<size_t>); d.add("multi-uchar-" + k, multiWalk<unsigned char>);
      d.add("subsequence-double-" + k, subseq<double>); d.add("subsequence-int-" + k, subseq<int>); d.add("accessor-int-" + k, accessorVec<int, true>); d.add("accessor-cell-" + k, accessorVec<Cell, true>); d.add("accessor-mutable-" + k, accessorVec<Cell, false>); d.add("accessor-write-" + k, accessorWrite); d.add("model-" + k, modelIters);
   }
}
DRIVER_MAIN(part)
