// Drives GraphicalModel construction histories and records every public call.
#include "fnzoo.hxx"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

template<class Op> struct OpName;
template<> struct OpName<Adder> { static const char* n() { return "add"; } static long lo() { return -5; } static long hi() { return 9; } };
template<> struct OpName<Multiplier> { static const char* n() { return "mul"; } static long lo() { return -2; } static long hi() { return 3; } };
template<> struct OpName<And> { static const char* n() { return "and"; } static long lo() { return 0; } static long hi() { return 1; } };
template<> struct OpName<Or> { static const char* n() { return "or"; } static long lo() { return 0; } static long hi() { return 1; } };
template<> struct OpName<Minimizer> { static const char* n() { return "min"; } static long lo() { return -5; } static long hi() { return 9; } };
template<> struct OpName<Maximizer> { static const char* n() { return "max"; } static long lo() { return -5; } static long hi() { return 9; } };

// ------------------------------------------------ type list walking
template<class TL> struct Walk;
template<class H, class T> struct Walk<meta::TypeList<H, T> > {
   static void kinds(std::vector<std::string>& v) { v.push_back(Make<H>::kind()); Walk<T>::kinds(v); }
   // which: position in type list
   template<class GM> static typename GM::FunctionIdentifier add(GM& gm, size_t which, const Fn& f, int how) {
      if(which == 0) {
         if(how == 0) return gm.addFunction(Make<H>::make(f));
         if(how == 1) return gm.addSharedFunction(Make<H>::make(f));
         std::pair<typename GM::FunctionIdentifier, H&> r = gm.addFunctionWithRefReturn(H());
         r.second = Make<H>::make(f);       // filled in through the returned reference
         return r.first;
      }
      return Walk<T>::add(gm, which - 1, f, how);
   }
   template<class GM> static void mutate(GM& gm, size_t which, typename GM::FunctionIdentifier id, const Fn& f) {
      if(which == 0) { gm.template getFunction<H>(id) = Make<H>::make(f); return; }
      Walk<T>::mutate(gm, which - 1, id, f);
   }
   template<class GM> static void reserve(GM& gm, size_t which, size_t n) { if(which == 0) gm.template reserveFunctions<H>(n); else Walk<T>::reserve(gm, which - 1, n); }
};
template<> struct Walk<meta::ListEnd> {
   static void kinds(std::vector<std::string>&) {}
   template<class GM> static typename GM::FunctionIdentifier add(GM&, size_t, const Fn&, int) { throw std::logic_error("which"); }
   template<class GM> static void mutate(GM&, size_t, typename GM::FunctionIdentifier, const Fn&) { throw std::logic_error("which"); }
   template<class GM> static void reserve(GM&, size_t, size_t) {}
};

template<class S> struct MakeSpace;
template<class I, class L> struct MakeSpace<DiscreteSpace<I, L> > {
   static Shape pick(tr::Rng& g) { Shape s(g.below(6)); if(g.chance(90) && s.empty()) s.resize(3); for(size_t& v : s) v = 1 + g.below(3); return s; }
   static DiscreteSpace<I, L> make(const Shape& s) { return DiscreteSpace<I, L>(s.begin(), s.end()); }
   static bool canAdd(const Shape&, size_t) { return true; }
};
template<class I, class L> struct MakeSpace<SimpleDiscreteSpace<I, L> > {
   static Shape pick(tr::Rng& g) { return Shape(1 + g.below(5), 1 + g.below(3)); }
   static SimpleDiscreteSpace<I, L> make(const Shape& s) { return SimpleDiscreteSpace<I, L>(s.size(), s[0]); }
   static bool canAdd(const Shape& s, size_t n) { return n == s[0]; }
};
template<size_t N, class I, class L> struct MakeSpace<StaticSimpleDiscreteSpace<N, I, L> > {
   static Shape pick(tr::Rng& g) { return Shape(1 + g.below(5), N); }
   static StaticSimpleDiscreteSpace<N, I, L> make(const Shape& s) { return StaticSimpleDiscreteSpace<N, I, L>(s.size()); }
   static bool canAdd(const Shape& s, size_t n) { return n == s[0]; }
};
template<class I, class L> struct MakeSpace<GridSpace<I, L> > {
   static Shape pick(tr::Rng& g) { static const size_t a[5] = {1, 2, 4, 6, 6}; return Shape(a[g.below(5)], 1 + g.below(3)); }
   static GridSpace<I, L> make(const Shape& s) { size_t w = s.size() % 2 == 0 ? 2 : 1; return GridSpace<I, L>(w, s.size() / w, s[0]); }
   static bool canAdd(const Shape&, size_t) { return false; }
};

// maxNumberOfLabels is only available when index and label types coincide
template<class GM> typename std::enable_if<std::is_same<typename GM::IndexType, typename GM::LabelType>::value, long>::type maxLabels(const GM& gm) { return tr::idx(gm.maxNumberOfLabels()); }
template<class GM> typename std::enable_if<!std::is_same<typename GM::IndexType, typename GM::LabelType>::value, long>::type maxLabels(const GM& gm) { size_t m = 0; for(size_t i = 0; i < gm.numberOfVariables(); ++i) m = std::max<size_t>(m, gm.numberOfLabels(i)); return tr::idx(m); }

template<class GM> struct Sess {
   typedef typename GM::FunctionIdentifier FID;
   GM gm; Shape sp; std::vector<Fn> fns; std::vector<FID> ids; std::vector<size_t> which;
   std::vector<std::vector<size_t> > fv; std::vector<size_t> fid;
   long fnIndex(FID id) const { for(size_t i = 0; i < ids.size(); ++i) if(ids[i] == id) return static_cast<long>(i); return -1; }
};

template<class GM> void observe(Rec& r, const char* h, const Sess<GM>& s) {
   const GM& gm = s.gm;
   J j("obs"); j.s("h", h).i("nv", tr::idx(gm.numberOfVariables())).i("nf", tr::idx(gm.numberOfFactors())).i("ord", tr::idx(gm.factorOrder()));
   Shape sp; for(size_t v = 0; v < gm.numberOfVariables(); ++v) { if(gm.space().numberOfLabels(v) != gm.numberOfLabels(v)) sp.push_back(99999); else sp.push_back(gm.numberOfLabels(v)); }
   j.a("sp", sp).i("maxl", maxLabels(gm));
   std::vector<std::vector<long> > fv, fs, ft, adj; std::vector<long> fsz;
   for(size_t i = 0; i < gm.numberOfFactors(); ++i) {
      const typename GM::FactorType& f = gm[i];
      std::vector<long> v, sh, t; Shape shp;
      for(size_t k = 0; k < f.numberOfVariables(); ++k) {
         v.push_back(f.variableIndex(k) == gm.variableOfFactor(i, k) ? tr::idx(f.variableIndex(k)) : -1);
         sh.push_back(f.shape(k) == f.numberOfLabels(k) ? tr::idx(f.shape(k)) : -1); shp.push_back(f.shape(k));
      }
      if(gm.numberOfVariables(i) != f.numberOfVariables()) v.push_back(-7);
      // value table read through the factor
      std::vector<size_t> x(std::max<size_t>(shp.size(), 1), 0);
      if(shp.size() <= 6 && prodOf(shp) <= 4096) do { t.push_back(tr::num(static_cast<double>(f(x.begin())))); } while(nextLabeling(shp, x));
      fv.push_back(v); fs.push_back(sh); ft.push_back(t); fsz.push_back(tr::idx(f.size()));
   }
   for(size_t v = 0; v < gm.numberOfVariables(); ++v) {
      std::vector<long> a; for(size_t k = 0; k < gm.numberOfFactors(v); ++k) a.push_back(tr::idx(gm.factorOfVariable(v, k))); adj.push_back(a);
   }
   size_t nfn = 0; for(size_t t = 0; t < GM::NrOfFunctionTypes; ++t) nfn += gm.numberOfFunctions(t);
   j.aa("fv", fv).aa("fs", fs).aa("ft", ft).a("fsz", fsz).aa("adj", adj).i("nfn", tr::idx(nfn));
   r.ev(j);
}
template<class GM> void evalAll(Rec& r, const char* h, const Sess<GM>& s) {
   std::vector<std::vector<size_t> > xs; std::vector<long> val;
   size_t n = prodOf(s.sp);
   auto one = [&](const std::vector<size_t>& x) {
      xs.push_back(x);
      // alternate label containers / iterator kinds
      double v;
      if(xs.size() % 3 == 0) v = static_cast<double>(s.gm.evaluate(x.begin()));
      else if(xs.size() % 3 == 1) { std::vector<typename GM::LabelType> y(x.begin(), x.end()); v = static_cast<double>(s.gm.evaluate(y)); }
      else { std::vector<int> y(x.begin(), x.end()); y.push_back(0); v = static_cast<double>(s.gm.evaluate(&y[0])); }
      val.push_back(tr::num(v));
   };
   if(n <= 64) { std::vector<size_t> x(s.sp.size(), 0); do one(x); while(nextLabeling(s.sp, x)); }
   else for(int k = 0; k < 24; ++k) { std::vector<size_t> x; for(size_t l : s.sp) x.push_back(r.rng.below(l)); one(x); }
   r.ev(J("eval").s("h", h).aa("x", xs).a("val", val));
}

template<class GM> void history(Rec& r) {
   typedef typename GM::OperatorType Op; typedef typename GM::SpaceType Space; typedef typename GM::FunctionTypeList TL;
   typedef Sess<GM> S; typedef typename GM::IndexType I;
   std::vector<std::string> kinds; Walk<TL>::kinds(kinds);
   tr::Rng& g = r.rng; const long lo = OpName<Op>::lo(), hi = OpName<Op>::hi();
   std::map<std::string, std::unique_ptr<S> > live;
   const char* names[3] = {"a", "b", "c"};
   auto newModel = [&](const char* h) {
      std::unique_ptr<S> s(new S()); s->sp = MakeSpace<Space>::pick(g);
      if(g.chance(50)) s->gm = GM(MakeSpace<Space>::make(s->sp), g.below(4)); else s->gm.assign(MakeSpace<Space>::make(s->sp));
      r.ev(J("new").s("h", h).s("opr", OpName<Op>::n()).a("sp", s->sp)); live[h] = std::move(s);
   };
   auto pickVars = [&](const S& s) {
      std::vector<size_t> all; for(size_t i = 0; i < s.sp.size(); ++i) all.push_back(i);
      g.shuffle(all); size_t o = g.below(std::min<size_t>(all.size(), 4) + 1); if(o == 0 && g.chance(80)) o = std::min<size_t>(2, all.size());
      all.resize(o); std::sort(all.begin(), all.end()); return all;
   };
   newModel("a");
   size_t steps = 10 + g.below(r.thorough ? 40 : 22); size_t nfac = 0;
   for(size_t st = 0; st < steps; ++st) {
      std::vector<std::string> hs; for(auto& kv : live) hs.push_back(kv.first);
      const char* h = 0; { std::string hh = g.pick(hs); for(const char* n : names) if(hh == n) h = n; }
      S& s = *live[h]; size_t c = g.below(100);
      if(c < 30) {   // add a function and usually a factor on it
         std::vector<size_t> vs = pickVars(s); Shape sh; for(size_t v : vs) sh.push_back(s.sp[v]);
         Fn f; size_t w = 0; bool ok = false;
         for(int t = 0; t < 20 && !ok; ++t) { w = g.below(kinds.size()); ok = randomFn(g, kinds[w], sh, lo, hi, f); }
         if(!ok) { for(w = 0; kinds[w] != "explicit"; ++w) {} randomFn(g, "explicit", sh, lo, hi, f); }
         int how = static_cast<int>(g.below(3)); if(f.s.empty()) how = 0;  // == on order-0 functions trips a debug-only assertion (see DESIGN.md)
         if(how == 1 && g.chance(40) && !s.fns.empty()) { size_t q = g.below(s.fns.size()); f = s.fns[q]; w = s.which[q]; if(f.s.empty()) how = 0; }
         if(g.chance(10)) Walk<TL>::reserve(s.gm, w, 3);
         typename S::FID id = Walk<TL>::add(s.gm, w, f, how); long at = s.fnIndex(id);
         if(at < 0) { at = static_cast<long>(s.ids.size()); s.ids.push_back(id); s.fns.push_back(f); s.which.push_back(w); }
         r.ev(J(how == 1 ? "addsh" : "addfn").s("h", h).raw("f", f.json()).i("ret", at));
      }
      if(c < 55 && !s.fns.empty() && nfac < 12) {   // add a factor referring to any stored function
         size_t q = c < 30 ? s.fns.size() - 1 : g.below(s.fns.size());
         std::vector<size_t> vs; bool ok = false;
         for(int t = 0; t < 30 && !ok; ++t) { vs = pickVars(s); ok = vs.size() == s.fns[q].s.size(); for(size_t i = 0; ok && i < vs.size(); ++i) ok = s.sp[vs[i]] == s.fns[q].s[i]; }
         if(ok) {
            bool fin = g.chance(75); std::vector<I> vi(vs.begin(), vs.end());
            if(g.chance(10)) { s.gm.reserveFactors(4); s.gm.reserveFactorsVarialbeIndices(8); }
            size_t ret = fin ? s.gm.addFactor(s.ids[q], vi.begin(), vi.end()) : s.gm.addFactorNonFinalized(s.ids[q], vi.begin(), vi.end());
            s.fv.push_back(vs); s.fid.push_back(q); ++nfac;
            r.ev(J(fin ? "addfac" : "addfacnf").s("h", h).i("id", static_cast<long>(q)).a("v", vs).i("ret", tr::idx(ret)));
         }
      } else if(c < 62) { s.gm.finalize(); r.ev(J("finalize").s("h", h)); }
      else if(c < 68) {
         size_t n = s.sp.empty() ? 2 : (g.chance(50) ? s.sp[0] : 1 + g.below(3));
         if(MakeSpace<Space>::canAdd(s.sp, n) && s.sp.size() < 7) { size_t ret = s.gm.addVariable(n); s.sp.push_back(n); r.ev(J("addvar").s("h", h).i("n", static_cast<long>(n)).i("ret", tr::idx(ret))); }
      } else if(c < 76 && !s.fns.empty()) {
         size_t q = g.below(s.fns.size()); Fn f;
         if(randomFn(g, s.fns[q].k, s.fns[q].s, lo, hi, f)) { Walk<TL>::mutate(s.gm, s.which[q], s.ids[q], f); s.fns[q] = f; r.ev(J("mutfn").s("h", h).i("id", static_cast<long>(q)).raw("f", f.json())); }
      } else if(c < 90) {   // copy / assign / assign through another type list / self assign
         const char* d = names[g.below(3)]; size_t how = g.below(4);
         std::unique_ptr<S> t;
         if(how == 0 || !live.count(d) || d == h) {
            if(d == h) { S* self = &s; s.gm = self->gm; }
            else { t.reset(new S(s)); live[d] = std::move(t); }
         } else if(how == 1) { S& o = *live[d]; o = s; }
         else if(how == 2) { S& o = *live[d]; GM tmp; tmp = s.gm; tmp = tmp; o.gm = tmp; o.sp = s.sp; o.fns = s.fns; o.ids = s.ids; o.which = s.which; o.fv = s.fv; o.fid = s.fid; }
         else { S& o = *live[d]; { GM tmp(s.gm); o.gm = tmp; } o.sp = s.sp; o.fns = s.fns; o.ids = s.ids; o.which = s.which; o.fv = s.fv; o.fid = s.fid; }
         r.ev(J("copy").s("src", h).s("dst", d));
         observe(r, d, *live[d]); evalAll(r, d, *live[d]);
      } else if(c < 93) {
         s.sp = MakeSpace<Space>::pick(g); s.gm.assign(MakeSpace<Space>::make(s.sp)); s.fns.clear(); s.ids.clear(); s.which.clear(); s.fv.clear(); s.fid.clear(); nfac = 0;
         r.ev(J("assign").s("h", h).a("sp", s.sp));
      } else if(live.size() < 3) newModel(names[live.size()] == std::string(h) ? "c" : (live.count("b") ? "c" : "b"));
      if(live.count(h)) { S& q = *live[h]; if(g.chance(35)) observe(r, h, q); if(g.chance(35)) evalAll(r, h, q); }
   }
   for(auto& kv : live) { observe(r, kv.first.c_str(), *kv.second); evalAll(r, kv.first.c_str(), *kv.second); }
   // an illegal factor is refused
   S& s = *live.begin()->second; std::string h = live.begin()->first;
   if(s.sp.size() >= 2) {
      std::vector<I> bad; size_t m = g.below(3);
      if(m == 0) { bad.push_back(1); bad.push_back(0); } else if(m == 1) { bad.push_back(0); bad.push_back(0); } else { bad.push_back(0); bad.push_back(static_cast<I>(s.sp.size())); }
      Fn f; Shape sh(2, 1); randomFn(g, "explicit", sh, lo, hi, f); size_t w = 0; while(kinds[w] != "explicit") ++w;
      typename S::FID id = Walk<TL>::add(s.gm, w, f, 0); bool thrown = false;
      try { if(g.chance(50)) s.gm.addFactor(id, bad.begin(), bad.end()); else s.gm.addFactorNonFinalized(id, bad.begin(), bad.end()); } catch(std::runtime_error&) { thrown = true; }
      r.ev(J(thrown ? "reject" : "accepted-illegal-factor").s("h", h).a("v", bad));
   }
}

// type lists
template<class T, class I, class L> struct TLs {
   typedef ExplicitFunction<T, I, L> E; typedef PottsFunction<T, I, L> P; typedef PottsNFunction<T, I, L> PN; typedef PottsGFunction<T, I, L> PG;
   typedef AbsoluteDifferenceFunction<T, I, L> AD; typedef SquaredDifferenceFunction<T, I, L> SD;
   typedef TruncatedAbsoluteDifferenceFunction<T, I, L> TAD; typedef TruncatedSquaredDifferenceFunction<T, I, L> TSD;
   typedef SparseFunction<T, I, L> SP; typedef ConstantFunction<T, I, L> C;
   typedef meta::TypeList<E, meta::ListEnd> One;
   typedef typename meta::TypeListGenerator<E, P>::type Two;
   typedef typename meta::TypeListGenerator<P, E>::type TwoR;
   typedef typename meta::TypeListGenerator<C, SP, E>::type Three;
   typedef typename meta::TypeListGenerator<E, C, P, PN, PG, AD, SD, TAD, TSD, SP>::type Ten;
   typedef typename meta::TypeListGenerator<SP, TSD, TAD, SD, AD, PG, PN, P, C, E>::type TenR;
};
template<int N> struct CF { typedef CustomFunction<double, size_t, size_t, N> t; };
typedef ExplicitFunction<double, size_t, size_t> ED; typedef PottsFunction<double, size_t, size_t> PD;
// user-defined kinds: no operator==, so these lists only use addFunction
#define L0(x) meta::TypeList<x,
typedef meta::TypeList<CF<0>::t, meta::TypeList<CF<1>::t, meta::TypeList<CF<2>::t, meta::TypeList<CF<3>::t, meta::TypeList<CF<4>::t, meta::TypeList<CF<5>::t,
        meta::TypeList<CF<6>::t, meta::TypeList<CF<7>::t, meta::TypeList<CF<8>::t, meta::TypeList<CF<9>::t, meta::TypeList<CF<10>::t, meta::TypeList<CF<11>::t,
        meta::TypeList<CF<12>::t, meta::TypeList<CF<13>::t, meta::TypeList<CF<14>::t, meta::TypeList<CF<15>::t, meta::TypeList<CF<16>::t, meta::TypeList<CF<17>::t,
        meta::TypeList<ED, meta::TypeList<PD, meta::ListEnd> > > > > > > > > > > > > > > > > > > > Many;

#ifndef PART
#define PART 0
#endif
template<class T, class Op, class TL, class Sp> void reg(tr::Driver& d, const char* name, size_t n) {
   for(size_t i = 0; i < n; ++i) d.add(std::string(name) + "-" + std::to_string(i), history<GraphicalModel<T, Op, TL, Sp> >);
}
#if PART == 0
void part(tr::Driver& d) { typedef TLs<double, size_t, size_t> A; reg<double, Adder, A::Ten, DiscreteSpace<size_t, size_t> >(d, "add-ten-disc", d.n(60, 600)); }
#elif PART == 1
void part(tr::Driver& d) {
   typedef TLs<double, size_t, size_t> A; typedef TLs<float, unsigned, unsigned short> B;
   reg<double, Multiplier, A::Two, SimpleDiscreteSpace<size_t, size_t> >(d, "mul-two-simple", d.n(25, 250));
   reg<float, Adder, B::One, DiscreteSpace<unsigned, unsigned short> >(d, "add-one-disc-u16", d.n(25, 250));
   reg<float, Adder, B::Three, GridSpace<unsigned, unsigned short> >(d, "add-three-grid", d.n(25, 250));
}
#elif PART == 2
void part(tr::Driver& d) {
   typedef TLs<double, unsigned, unsigned char> B; typedef TLs<int, size_t, size_t> C;
   reg<double, Adder, B::TenR, StaticSimpleDiscreteSpace<3, unsigned, unsigned char> >(d, "add-ten-static-u8", d.n(25, 250));
   reg<int, Multiplier, C::TwoR, DiscreteSpace<size_t, size_t> >(d, "mulint-two-disc", d.n(20, 200));
}
#elif PART == 3
void part(tr::Driver& d) {
   typedef TLs<double, size_t, size_t> A; typedef TLs<unsigned char, size_t, size_t> B;
   reg<unsigned char, And, B::One, DiscreteSpace<size_t, size_t> >(d, "and-one-disc", d.n(10, 100));
   reg<unsigned char, Or, B::Two, DiscreteSpace<size_t, size_t> >(d, "or-two-disc", d.n(10, 100));
   reg<double, Minimizer, A::Two, DiscreteSpace<size_t, size_t> >(d, "min-two-disc", d.n(10, 100));
   reg<double, Maximizer, A::TwoR, DiscreteSpace<size_t, size_t> >(d, "max-two-disc", d.n(10, 100));
}
#else
void part(tr::Driver& d) { reg<double, Adder, Many, DiscreteSpace<size_t, size_t> >(d, "add-many-disc", d.n(40, 400)); }
#endif
DRIVER_MAIN(part)
