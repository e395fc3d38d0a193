// Models and functions written to HDF5 files and read back (graphicalmodel_hdf5.hxx).
#include "constr.hxx"
#include "gen.hxx"
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <sys/stat.h>
#include <unistd.h>
using namespace opengm;
using tr::Rec; using tr::J;
#ifndef PART
#define PART 0
#endif
#if PART == 3
static const double SC = 1000;      // real-valued functions: values are recorded in thousandths
#else
static const double SC = 1;
#endif
static long val(double v) { return SC == 1 ? tr::num(v) : tr::fix(v, SC); }

struct Ctx { tr::Rng& g; long lo, hi; learning::Weights<double> w; };
struct D { std::string json, cls; Shape s; };
template<class F> std::string tableJson(const F& f, const std::string& cls, const Shape& s) {
   std::vector<long> t; std::vector<size_t> x(std::max<size_t>(1, s.size()), 0); do t.push_back(val(static_cast<double>(f(x.begin())))); while(nextLabeling(s, x));
   return J().s("k", "explicit").s("c", cls).a("s", s).a("p", t).str();
}
// ---- builders: one per function class
template<class F> struct Bld {
   enum { shared = 1 };
   static std::string cls() { return Make<F>::kind(); }
   static bool make(Ctx& c, const Shape& s, D& d, F& f) { Fn q; if(!randomFn(c.g, cls(), s, c.lo, c.hi, q)) return false; f = Make<F>::make(q); d.cls = cls(); d.s = s; d.json = SC == 1 ? q.json() : tableJson(f, cls(), s); return true; }
   static void post(F&, Ctx&) {}
};
#define OPAQUE(TYPE, NAME, BUILD, POST) template<class T, class I, class L> struct Bld<TYPE> { \
   typedef TYPE F; typedef Constr<T, I, L> C; typedef Learn<T, I, L> W; enum { shared = 0 }; static std::string cls() { return NAME; } \
   static bool make(Ctx& c, const Shape& want, D& d, F& f) { tr::Rng& g = c.g; std::string txt; Vs s; Ent e; BUILD; if(prodOf(s) > 200 || FunctionSerialization<F>::valueSequenceSize(f) == 0) return false; d.cls = NAME; d.s = s; d.json = tableJson(f, NAME, s); return true; } \
   static void post(F& f, Ctx& c) { POST; } };
#define COMMA ,
OPAQUE(LabelOrderFunction<T COMMA I COMMA L>, "order", f = C::order(g, txt, s), )
OPAQUE(NumLabelsLimitationFunction<T COMMA I COMMA L>, "limit", f = C::limit(g, txt, s), )
OPAQUE(LinearConstraintFunction<T COMMA I COMMA L>, "linear", f = C::linear(g, txt, s), )
OPAQUE(LabelCostFunction<T COMMA I COMMA L>, "cost", f = C::cost(g, txt, s), )
OPAQUE(SumConstraintFunction<T COMMA I COMMA L>, "sumc", f = C::sum(g, txt, s), )
OPAQUE(functions::learnable::LPotts<T COMMA I COMMA L>, "lpotts", f = W::potts(g, c.w, 1 + g.below(4), e); s = e.s, f.setWeights(c.w))
OPAQUE(functions::learnable::LUnary<T COMMA I COMMA L>, "lunary", f = W::unary(g, c.w, 1 + g.below(4), e); s = e.s, f.setWeights(c.w))
OPAQUE(functions::learnable::LWeightedSumOfFunctions<T COMMA I COMMA L>, "lsum", s = C::shape(g, 3, 24); f = W::sum(g, c.w, s, e), f.setWeights(c.w))
template<class T, class I, class L> FoEFunction<T, I, L> foe(tr::Rng& g, Vs& s) {
   if(g.chance(5)) { FoEFunction<T, I, L> d; d.setDefault(); s = Vs(4, 256); return d; }
   size_t m = 1 + g.below(3), n = 1 + g.below(3), l = 1 + g.below(4); s = Vs(n, l); std::vector<T> a, e; for(size_t i = 0; i < m; ++i) a.push_back(static_cast<T>(g.range(0, 8)) / 4); for(size_t i = 0; i < m * n; ++i) e.push_back(static_cast<T>(g.range(-8, 8)) / 4); return FoEFunction<T, I, L>(e, a, static_cast<L>(l));
}
OPAQUE(FoEFunction<T COMMA I COMMA L>, "foe", f = (foe<T COMMA I COMMA L>(g, s)), )

// ---- type list walking
template<class TL> struct Walk;
template<class H, class T> struct Walk<meta::TypeList<H, T> > {
   static void classes(std::vector<std::string>& v) { v.push_back(Bld<H>::cls()); Walk<T>::classes(v); }
   template<class GM> static typename GM::FunctionIdentifier addF(GM& gm, const H& f, bool sh, std::true_type) { return sh ? gm.addSharedFunction(f) : gm.addFunction(f); }
   template<class GM> static typename GM::FunctionIdentifier addF(GM& gm, const H& f, bool, std::false_type) { return gm.addFunction(f); }
   template<class GM> static bool add(GM& gm, size_t k, Ctx& c, const Shape& s, bool& sh, D& d, typename GM::FunctionIdentifier& id) {
      if(k) return Walk<T>::add(gm, k - 1, c, s, sh, d, id);
      H f; if(!Bld<H>::make(c, s, d, f)) return false; if(!Bld<H>::shared || d.s.empty()) sh = false; id = addF(gm, f, sh, std::integral_constant<bool, Bld<H>::shared>()); return true;
   }
   template<class GM> static bool mutate(GM& gm, const std::string& cls, Ctx& c, typename GM::FunctionIdentifier id, D& d) {
      if(cls != Bld<H>::cls()) return Walk<T>::mutate(gm, cls, c, id, d);
      H f; D e; for(int t = 0; t < 20; ++t) if(Bld<H>::make(c, d.s, e, f) && e.s == d.s) { gm.template getFunction<H>(id) = f; d = e; return true; } return false;
   }
   template<class GM> static void post(GM& gm, const std::string& cls, Ctx& c, typename GM::FunctionIdentifier id) { if(cls == Bld<H>::cls()) Bld<H>::post(gm.template getFunction<H>(id), c); else Walk<T>::post(gm, cls, c, id); }
   // a function through its serialised form
   static void serial(Rec& r, size_t k, Ctx& c, const Shape& s) {
      if(k) return Walk<T>::serial(r, k - 1, c, s);
      H f; D d; if(!Bld<H>::make(c, s, d, f)) return; typedef FunctionSerialization<H> S; typedef typename H::ValueType V;
      size_t n = S::indexSequenceSize(f), m = S::valueSequenceSize(f); std::vector<UInt64Type> ix(n + 2, 77); std::vector<V> vx(m + 2, static_cast<V>(77)); S::serialize(f, ix.begin(), vx.begin()); bool ok = ix[n] == 77 && ix[n + 1] == 77 && vx[m] == 77 && vx[m + 1] == 77;
      H h; if(c.g.chance(40)) { D e; Bld<H>::make(c, s, e, h); } S::deserialize(ix.begin(), vx.begin(), h); Bld<H>::post(h, c); ok = ok && S::indexSequenceSize(h) == n && S::valueSequenceSize(h) == m;
      std::vector<long> t; Shape hs; for(size_t i = 0; i < h.dimension(); ++i) hs.push_back(h.shape(i)); if(hs == d.s) { std::vector<size_t> x(std::max<size_t>(1, hs.size()), 0); do t.push_back(val(static_cast<double>(h(x.begin())))); while(nextLabeling(hs, x)); }
      r.ev(J("ser").raw("f", d.json).t("ok", ok).a("s", hs).a("t", t));
   }
};
template<> struct Walk<meta::ListEnd> {
   static void classes(std::vector<std::string>&) {}
   template<class GM> static bool add(GM&, size_t, Ctx&, const Shape&, bool&, D&, typename GM::FunctionIdentifier&) { throw std::logic_error("class"); }
   template<class GM> static bool mutate(GM&, const std::string&, Ctx&, typename GM::FunctionIdentifier, D&) { throw std::logic_error("class"); }
   template<class GM> static void post(GM&, const std::string&, Ctx&, typename GM::FunctionIdentifier) { throw std::logic_error("class"); }
   static void serial(Rec&, size_t, Ctx&, const Shape&) {}
};
template<class S> struct Sp { static const long nl = 0; static S make(const Shape& s) { return S(s.begin(), s.end()); } };
template<class I, class L> struct Sp<SimpleDiscreteSpace<I, L> > { static const long nl = -1; static SimpleDiscreteSpace<I, L> make(const Shape& s) { return SimpleDiscreteSpace<I, L>(s.size(), s.empty() ? 1 : s[0]); } };
template<size_t N, class I, class L> struct Sp<StaticSimpleDiscreteSpace<N, I, L> > { static const long nl = N; static StaticSimpleDiscreteSpace<N, I, L> make(const Shape& s) { return StaticSimpleDiscreteSpace<N, I, L>(s.size()); } };
template<class Op> struct On;
template<> struct On<Adder> { static const char* n() { return "add"; } }; template<> struct On<Multiplier> { static const char* n() { return "mul"; } }; template<> struct On<And> { static const char* n() { return "and"; } };
template<> struct On<Or> { static const char* n() { return "or"; } }; template<> struct On<Minimizer> { static const char* n() { return "min"; } }; template<> struct On<Maximizer> { static const char* n() { return "max"; } };

// ---- a handle of some model type
struct Snap { std::vector<D> fns; Shape sp; };
struct Hd {
   std::vector<D> fns; Shape sp; std::string name; virtual ~Hd() {}
   virtual void open(Rec&, Ctx&) = 0; virtual void grow(Rec&, Ctx&) = 0; virtual void mutate(Rec&, Ctx&) = 0; virtual void finalize(Rec&) = 0;
   virtual bool save(Rec&, const std::string&, const std::string&) = 0; virtual bool load(Rec&, Ctx&, const std::string&, const std::string&, const Snap*) = 0;
   virtual bool copyFrom(Rec&, Hd&) = 0; virtual void look(Rec&) = 0;
};
template<class GM> struct HM : Hd {
   typedef typename GM::FunctionTypeList TL; typedef typename GM::FunctionIdentifier FID; typedef typename GM::IndexType I;
   GM gm; std::vector<FID> ids; std::vector<std::string> classes;
   HM() { Walk<TL>::classes(classes); }
   static const long nl = Sp<typename GM::SpaceType>::nl;
   static Shape randomSpace(tr::Rng& g) { Shape s(g.chance(10) ? 0 : 1 + g.below(5)); size_t u = nl > 0 ? nl : 1 + g.below(3); for(size_t& x : s) x = nl != 0 ? u : 1 + g.below(3); return s; }
   void open(Rec& r, Ctx& c) override {
      sp = randomSpace(c.g); gm = GM(Sp<typename GM::SpaceType>::make(sp)); fns.clear(); ids.clear();
      std::string cl; for(auto& k : classes) cl += (cl.empty() ? "\"" : ",\"") + k + "\""; if(nl == -1 && sp.empty()) sp.clear();
      r.ev(J("open").s("h", name).raw("classes", "[" + cl + "]").i("nl", nl).s("opr", On<typename GM::OperatorType>::n()).a("sp", sp));
   }
   long indexOf(FID id) const { for(size_t i = 0; i < ids.size(); ++i) if(ids[i] == id) return static_cast<long>(i); return -1; }
   // ascending variables of the wanted shape; new variables are added where none fit
   bool place(Rec& r, tr::Rng& g, const Shape& s, std::vector<I>& v) {
      for(int t = 0; t < 12; ++t) { Vs p = somePick(g, sp.size(), s.size()); std::sort(p.begin(), p.end()); if(p.size() != s.size()) break; bool ok = true; for(size_t i = 0; ok && i < p.size(); ++i) ok = sp[p[i]] == s[i]; if(ok) { v.assign(p.begin(), p.end()); return true; } }
      if(nl != 0 || sp.size() + s.size() > 10) return false;
      v.clear(); for(size_t l : s) { size_t ret = gm.addVariable(static_cast<typename GM::LabelType>(l)); sp.push_back(l); v.push_back(static_cast<I>(sp.size() - 1)); r.ev(J("addvar").s("h", name).i("n", static_cast<long>(l)).i("ret", tr::idx(ret))); } return true;
   }
   void grow(Rec& r, Ctx& c) override {
      tr::Rng& g = c.g; size_t n = 1 + g.below(4);
      for(size_t q = 0; q < n; ++q) {
         size_t at = fns.size();
         if(fns.empty() || g.chance(70)) {
            Vs p = somePick(g, sp.size(), 1 + g.below(3)); std::sort(p.begin(), p.end()); Shape s; for(size_t v : p) s.push_back(sp[v]); if(s.empty()) s = Shape(1 + g.below(2), nl > 0 ? nl : 2);
            D d; FID id; bool sh = g.chance(35), ok = false; for(int t = 0; t < 12 && !ok; ++t) ok = Walk<TL>::add(gm, g.below(classes.size()), c, s, sh, d, id); if(!ok) continue;
            long i = indexOf(id); if(i < 0) { i = static_cast<long>(ids.size()); ids.push_back(id); fns.push_back(d); } at = static_cast<size_t>(i);
            r.ev(J(sh ? "addsh" : "addfn").s("h", name).raw("f", d.json).i("ret", i)); if(g.chance(12)) continue;    // a function no factor uses
         } else at = g.below(fns.size());
         std::vector<I> v; if(!place(r, g, fns[at].s, v)) continue;
         bool fin = g.chance(75); size_t ret = fin ? gm.addFactor(ids[at], v.begin(), v.end()) : gm.addFactorNonFinalized(ids[at], v.begin(), v.end());
         r.ev(J(fin ? "addfac" : "addfacnf").s("h", name).i("id", static_cast<long>(at)).a("v", v).i("ret", tr::idx(ret)));
      }
   }
   void mutate(Rec& r, Ctx& c) override { if(fns.empty()) return; size_t i = c.g.below(fns.size()); if(Walk<TL>::mutate(gm, fns[i].cls, c, ids[i], fns[i])) r.ev(J("mutfn").s("h", name).i("id", static_cast<long>(i)).raw("f", fns[i].json)); }
   void finalize(Rec& r) override { gm.finalize(); r.ev(J("finalize").s("h", name)); }
   bool save(Rec& r, const std::string& p, const std::string& ds) override {
      hdf5::save(gm, p, ds);
      r.ev(J("save").s("h", name).s("p", p).s("ds", ds)); return true;
   }
   bool load(Rec& r, Ctx& c, const std::string& p, const std::string& ds, const Snap* snap) override {
      try { hdf5::load(gm, p, ds); } catch(std::runtime_error&) { r.ev(J("noload").s("h", name).s("p", p).s("ds", ds)); return false; }
      r.ev(J("load").s("h", name).s("p", p).s("ds", ds)); fns.clear(); ids.clear(); sp.clear(); if(!snap) return true;
      fns = snap->fns; sp = snap->sp; std::map<std::string, size_t> seen;
      for(const D& d : fns) { size_t t = 0; while(t < classes.size() && classes[t] != d.cls) ++t; if(t == classes.size()) return true; ids.push_back(FID(static_cast<I>(seen[d.cls]++), static_cast<typename FID::FunctionTypeIndexType>(t))); Walk<TL>::post(gm, d.cls, c, ids.back()); }
      return true;
   }
   bool copyFrom(Rec& r, Hd& o) override { HM* s = dynamic_cast<HM*>(&o); if(!s) return false; if(s != this) { gm = s->gm; ids = s->ids; fns = s->fns; sp = s->sp; } r.ev(J("copy").s("src", o.name).s("dst", name)); return true; }
   void look(Rec& r) override {
      J j("obs"); j.s("h", name).i("nv", tr::idx(gm.numberOfVariables())).i("nf", tr::idx(gm.numberOfFactors())).i("ord", tr::idx(gm.factorOrder())); Shape q; size_t ml = 0; for(size_t v = 0; v < gm.numberOfVariables(); ++v) { q.push_back(gm.numberOfLabels(v)); ml = std::max<size_t>(ml, q.back()); } j.a("sp", q).i("maxl", tr::idx(ml));
      std::vector<std::vector<long> > fv, fs, ft, adj; std::vector<long> fsz, fid; std::string fc;
      for(size_t i = 0; i < gm.numberOfFactors(); ++i) {
         const typename GM::FactorType& f = gm[i]; std::vector<long> v, sh, t; Shape shp; for(size_t k = 0; k < f.numberOfVariables(); ++k) { v.push_back(tr::idx(f.variableIndex(k))); sh.push_back(tr::idx(f.numberOfLabels(k))); shp.push_back(f.shape(k)); }
         std::vector<size_t> x(std::max<size_t>(1, shp.size()), 0); if(shp.size() <= 8 && prodOf(shp) <= 4096) do t.push_back(val(static_cast<double>(f(x.begin())))); while(nextLabeling(shp, x));
         fv.push_back(v); fs.push_back(sh); ft.push_back(t); fsz.push_back(tr::idx(f.size())); fid.push_back(indexOf(FID(f.functionIndex(), f.functionType())));
         fc += (fc.empty() ? "\"" : ",\"") + (f.functionType() < classes.size() ? classes[f.functionType()] : std::string("none")) + "\"";
      }
      for(size_t v = 0; v < gm.numberOfVariables(); ++v) { std::vector<long> a; for(size_t k = 0; k < gm.numberOfFactors(v); ++k) a.push_back(tr::idx(gm.factorOfVariable(v, k))); adj.push_back(a); }
      size_t nfn = 0; for(size_t t = 0; t < GM::NrOfFunctionTypes; ++t) nfn += gm.numberOfFunctions(t);
      r.ev(j.aa("fv", fv).aa("fs", fs).aa("ft", ft).a("fsz", fsz).aa("adj", adj).i("nfn", tr::idx(nfn)).raw("fc", "[" + fc + "]").a("fid", fid));
      if(SC != 1 || q != sp) return; std::vector<Vs> xs; std::vector<long> vals; for(int k = 0; k < 8; ++k) { Vs x; for(size_t l : sp) x.push_back(r.rng.below(l)); xs.push_back(x); x.push_back(0); vals.push_back(tr::num(static_cast<double>(gm.evaluate(x.begin())))); } r.ev(J("eval").s("h", name).aa("x", xs).a("val", vals));
   }
};
typedef std::function<Hd*()> Mk;
template<class GM> Mk mk() { return []() -> Hd* { return new HM<GM>(); }; }

static void run(Rec& r, const std::vector<Mk>& mks, const Behaviour& ops, long lo, long hi) {
   tr::Rng& g = r.rng; Ctx c{g, lo, hi, learning::Weights<double>(6)}; for(size_t i = 0; i < 6; ++i) c.w.setWeight(i, static_cast<double>(g.range(-3, 3)));
   H5Eset_auto2(H5E_DEFAULT, 0, 0);
   char dir[] = "s01XXXXXX"; if(!mkdtemp(dir)) throw std::logic_error("scratch"); if(chdir(dir)) throw std::logic_error("scratch");
   std::unique_ptr<Hd> h[3]; std::map<std::string, Snap> snaps; static const char* const hn[3] = {"a", "b", "c"}; static const char* const pn[3] = {"x.h5", "y.h5", "none.h5"}; static const char* const dn[2] = {"gm", "model-2"};
   auto ensure = [&](size_t i) { if(h[i]) return; h[i].reset(g.pick(mks)()); h[i]->name = hn[i]; h[i]->open(r, c); };
   for(const Op& o : ops) {
      if(o.size() < 2 || o[0] < 1 || o[0] > 7) continue; size_t i = static_cast<size_t>(o[1]); if(o[0] == 1) h[i].reset(); ensure(i); Hd& m = *h[i];
      switch(o[0]) {
      case 1: m.grow(r, c); break;
      case 2: m.grow(r, c); break;
      case 3: if(m.save(r, pn[o[2]], dn[o[3]])) snaps[pn[o[2]]] = Snap{m.fns, m.sp}; break;
      case 4: if(!m.load(r, c, pn[o[2]], dn[o[3]], snaps.count(pn[o[2]]) ? &snaps[pn[o[2]]] : 0)) { h[i].reset(); break; } m.look(r); break;
      case 5: m.mutate(r, c); break;
      case 6: m.finalize(r); break;
      default: { size_t k = static_cast<size_t>(o[2]); ensure(k); if(!m.copyFrom(r, *h[k])) m.grow(r, c); }
      }
      if(h[i] && g.chance(30)) h[i]->look(r);
   }
   for(int i = 0; i < 3; ++i) if(h[i]) h[i]->look(r);
   for(const char* p : pn) ::unlink(p); if(chdir("..") || ::rmdir(dir)) throw std::logic_error("scratch");
}
template<class TL> void serials(Rec& r, long lo, long hi) {
   tr::Rng& g = r.rng; Ctx c{g, lo, hi, learning::Weights<double>(6)}; for(size_t i = 0; i < 6; ++i) c.w.setWeight(i, static_cast<double>(g.range(-3, 3))); std::vector<std::string> cl; Walk<TL>::classes(cl);
   for(size_t k = 0; k < cl.size(); ++k) for(int t = 0; t < 4; ++t) { Shape s; size_t o = cl[k] == "potts" || cl[k] == "ad" || cl[k] == "sd" || cl[k] == "tad" || cl[k] == "tsd" ? 2 : 1 + g.below(4); for(size_t i = 0; i < o; ++i) s.push_back(1 + g.below(4)); Walk<TL>::serial(r, k, c, s); }
}
template<class S, class F> void single(Rec& r, F make) {   // single-site functions are not a model's function class, but have a serialised form
   for(int t = 0; t < 4; ++t) {
      Fn d; d.k = "single"; S f = make(r.rng, d); typedef FunctionSerialization<S> Z; size_t n = Z::indexSequenceSize(f), m = Z::valueSequenceSize(f); std::vector<UInt64Type> ix(n + 1, 77); std::vector<double> vx(m + 1, 77); Z::serialize(f, ix.begin(), vx.begin()); bool ok = ix[n] == 77 && vx[m] == 77;
      Fn e; e.k = "single"; S h; if(r.rng.chance(50)) h = make(r.rng, e); Z::deserialize(ix.begin(), vx.begin(), h); std::vector<long> tb; for(size_t i = 0; i < h.size(); ++i) tb.push_back(tr::num(static_cast<double>(h(&i)))); Shape s; for(size_t i = 0; i < h.dimension(); ++i) s.push_back(h.shape(i));
      r.ev(J("ser").raw("f", d.json()).t("ok", ok).a("s", s).a("t", tb));
   }
}
template<class T, class I, class L> struct Z {
   typedef ExplicitFunction<T, I, L> E; typedef PottsFunction<T, I, L> P; typedef PottsNFunction<T, I, L> PN; typedef PottsGFunction<T, I, L> PG; typedef AbsoluteDifferenceFunction<T, I, L> AD; typedef SquaredDifferenceFunction<T, I, L> SD;
   typedef TruncatedAbsoluteDifferenceFunction<T, I, L> TAD; typedef TruncatedSquaredDifferenceFunction<T, I, L> TSD; typedef SparseFunction<T, I, L> SP; typedef ConstantFunction<T, I, L> C;
   typedef typename meta::TypeListGenerator<E, C, P, PN, PG, AD, SD, TAD, TSD, SP>::type Ten; typedef typename meta::TypeListGenerator<SP, TSD, TAD, SD, AD, PG, PN, P, C, E>::type TenR;
   typedef typename meta::TypeListGenerator<C, SP, E>::type Three; typedef typename meta::TypeListGenerator<PG, E, TAD, AD, PN>::type Five; typedef meta::TypeList<E, meta::ListEnd> One; typedef meta::TypeList<SP, meta::ListEnd> OneS; typedef typename meta::TypeListGenerator<P, E>::type Two;
   typedef LabelOrderFunction<T, I, L> LO; typedef NumLabelsLimitationFunction<T, I, L> LI; typedef LinearConstraintFunction<T, I, L> LC; typedef LabelCostFunction<T, I, L> CO; typedef SumConstraintFunction<T, I, L> SU;
   typedef functions::learnable::LPotts<T, I, L> LP; typedef functions::learnable::LUnary<T, I, L> LU; typedef functions::learnable::LWeightedSumOfFunctions<T, I, L> LS; typedef FoEFunction<T, I, L> FO;
   typedef DiscreteSpace<I, L> DS; typedef SimpleDiscreteSpace<I, L> SS;
};
static std::vector<Behaviour> behaviours(const tr::Driver& d, size_t& n) { static std::vector<Behaviour> b = readBehaviours("persistence.gen"); if(b.empty()) throw std::logic_error("no generated histories"); n = b.size(); return b; }
static void reg(tr::Driver& d, const char* name, size_t q, size_t th, const std::vector<Mk>& mks, size_t off, long lo = -2, long hi = 3) {
   size_t n; std::vector<Behaviour> b = behaviours(d, n); for(size_t i = 0; i < d.n(q, th); ++i) { Behaviour ops = b[(i + off) % n]; d.add(std::string(name) + "-" + std::to_string(i), [mks, ops, lo, hi](Rec& r) { run(r, mks, ops, lo, hi); }); }
}
template<class TL> void regSer(tr::Driver& d, const char* name, size_t q, size_t th, long lo = -9, long hi = 9) { for(size_t i = 0; i < d.n(q, th); ++i) d.add(std::string("ser-") + name + "-" + std::to_string(i), [lo, hi](Rec& r) { serials<TL>(r, lo, hi); }); }
void part(tr::Driver& d) {
#if PART == 0
   typedef Z<double, size_t, size_t> A; typedef Z<float, unsigned, unsigned short> B; typedef Z<int, size_t, unsigned char> C;
   std::vector<Mk> m = {mk<GraphicalModel<double, Adder, A::Ten, A::DS> >(), mk<GraphicalModel<float, Adder, B::TenR, B::DS> >(), mk<GraphicalModel<int, Multiplier, C::Three, C::DS> >(), mk<GraphicalModel<double, Adder, A::Two, A::DS> >()};
   reg(d, "types", 50, 600, m, 0);
   regSer<A::Ten>(d, "d", 4, 60); regSer<B::TenR>(d, "f", 4, 60); regSer<C::Three>(d, "i", 4, 60);
#elif PART == 1
   typedef Z<double, size_t, size_t> A; typedef Z<long long, unsigned, unsigned> B;
   std::vector<Mk> m = {mk<GraphicalModel<double, Multiplier, A::Five, A::SS> >(), mk<GraphicalModel<long long, Adder, B::One, StaticSimpleDiscreteSpace<2, unsigned, unsigned> > >(), mk<GraphicalModel<double, Minimizer, A::OneS, A::DS> >(), mk<GraphicalModel<double, Maximizer, A::Five, A::DS> >()};
   reg(d, "spaces", 50, 600, m, 7);
   regSer<A::Five>(d, "five", 3, 60); regSer<B::One>(d, "ll", 3, 60);
   for(size_t i = 0; i < d.n(4, 40); ++i) { d.add("ser-dyn-" + std::to_string(i), [](Rec& r) { single<DynamicSingleSiteFunction<double> >(r, [](tr::Rng& g, Fn& f) { f.s.assign(1, 1 + g.below(5)); f.p.clear(); DynamicSingleSiteFunction<double> q(f.s[0]); for(size_t k = 0; k < f.s[0]; ++k) { f.p.push_back(g.range(-9, 9)); q[k] = f.p.back(); } return q; }); });
      d.add("ser-static-" + std::to_string(i), [](Rec& r) { single<StaticSingleSiteFunction<double, 3, StackStorage> >(r, [](tr::Rng& g, Fn& f) { f.s.assign(1, 3); f.p.clear(); StaticSingleSiteFunction<double, 3, StackStorage> q; for(size_t k = 0; k < 3; ++k) { f.p.push_back(g.range(-9, 9)); q(&k) = f.p.back(); } return q; }); }); }
#elif PART == 2
   typedef Z<double, size_t, size_t> A; typedef Z<unsigned char, size_t, size_t> B; typedef Z<unsigned, unsigned, unsigned> C;
   std::vector<Mk> m = {mk<GraphicalModel<unsigned char, And, B::Two, B::DS> >(), mk<GraphicalModel<unsigned, Adder, C::Three, C::DS> >(), mk<GraphicalModel<unsigned char, Or, B::Two, B::DS> >(), mk<GraphicalModel<double, Adder, A::Two, A::DS> >()};
   reg(d, "unsigned", 30, 300, m, 13, 0, 1);
   typedef meta::TypeListGenerator<A::E, A::LO, A::LI, A::LC, A::CO, A::SU, A::LP, A::LU, A::LS>::type X; typedef meta::TypeListGenerator<A::LS, A::LU, A::SU, A::E, A::LC, A::LO>::type Y;
   std::vector<Mk> x = {mk<GraphicalModel<double, Adder, X, A::DS> >(), mk<GraphicalModel<double, Adder, Y, A::DS> >()};
   reg(d, "constraints", 50, 600, x, 29); regSer<X>(d, "x", 8, 80);
#else
   typedef Z<double, size_t, size_t> A; typedef meta::TypeListGenerator<A::FO, A::E>::type X; typedef meta::TypeListGenerator<A::E, A::TAD, A::FO>::type Y;
   std::vector<Mk> x = {mk<GraphicalModel<double, Adder, X, A::DS> >(), mk<GraphicalModel<double, Adder, Y, A::DS> >()};
   reg(d, "foe", 20, 200, x, 41); regSer<X>(d, "foe", 4, 60);
#endif
}
DRIVER_MAIN(part)
