// Model zoo: abstract models (exactly what is logged) and their realisation as
// opengm graphical models over mixed function classes.
#pragma once
#include "fnzoo.hxx"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>

typedef std::vector<size_t> Vs;
struct TFac { Vs v; Fn f; };
struct TModel {
   std::string op; Shape sp; std::vector<TFac> fa;
   tr::J& json(tr::J& j) const {
      std::vector<Vs> fv; std::vector<std::string> fn; for(const TFac& f : fa) { fv.push_back(f.v); fn.push_back(f.f.json()); }
      return j.s("opr", op).a("sp", sp).aa("fv", fv).raw("fn", tr::jarr(fn));
   }
   Shape shapeOf(const Vs& v) const { Shape s; for(size_t x : v) s.push_back(sp[x]); return s; }
   size_t states() const { return prodOf(sp); }
};

// ------------------------------------------------ type lists and model types
template<class TL> struct AddAny;
template<class H, class T> struct AddAny<opengm::meta::TypeList<H, T> > {
   static bool has(const std::string& k) { return k == Make<H>::kind() || AddAny<T>::has(k); }
   template<class GM> static typename GM::FunctionIdentifier add(GM& gm, const Fn& f) { if(f.k == Make<H>::kind()) return gm.addFunction(Make<H>::make(f)); return AddAny<T>::add(gm, f); }
};
template<> struct AddAny<opengm::meta::ListEnd> {
   static bool has(const std::string&) { return false; }
   template<class GM> static typename GM::FunctionIdentifier add(GM&, const Fn& f) { throw std::logic_error("no class for " + f.k); }
};
template<class Op, class T = double, class I = size_t, class L = size_t> struct Models {
   typedef opengm::DiscreteSpace<I, L> Space;
   typedef opengm::GraphicalModel<T, Op, opengm::ExplicitFunction<T, I, L>, Space> Ex;
   typedef typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<T, I, L>, opengm::PottsFunction<T, I, L>, opengm::SparseFunction<T, I, L>, opengm::TruncatedAbsoluteDifferenceFunction<T, I, L>, opengm::PottsNFunction<T, I, L>, opengm::ConstantFunction<T, I, L> >::type MixTL;
   typedef opengm::GraphicalModel<T, Op, MixTL, Space> Mix;
};
template<class Op> struct OpStr;
template<> struct OpStr<opengm::Adder> { static const char* n() { return "add"; } };
template<> struct OpStr<opengm::Multiplier> { static const char* n() { return "mul"; } };
template<> struct OpStr<opengm::Minimizer> { static const char* n() { return "min"; } };
template<> struct OpStr<opengm::Maximizer> { static const char* n() { return "max"; } };
template<class A> struct AccStr;
template<> struct AccStr<opengm::Minimizer> { static const char* n() { return "min"; } };
template<> struct AccStr<opengm::Maximizer> { static const char* n() { return "max"; } };

template<class GM> GM realise(const TModel& m) {
   typedef typename GM::IndexType I; typedef typename GM::LabelType L;
   std::vector<L> ls(m.sp.begin(), m.sp.end()); GM gm((typename GM::SpaceType(ls.begin(), ls.end())));
   for(const TFac& f : m.fa) { std::vector<I> v(f.v.begin(), f.v.end()); gm.addFactor(AddAny<typename GM::FunctionTypeList>::add(gm, f.f), v.begin(), v.end()); }
   return gm;
}

// ------------------------------------------------ generators
struct GenCfg {
   size_t minV = 1, maxV = 6, minL = 1, maxL = 3, maxOrder = 3, maxStates = 256, maxFac = 10;
   long lo = -5, hi = 9; bool uniform = false, consts = true, dup = true, unaryAll = false;
   std::string structure = "any";            // any tree chain grid cycle unary pair binary-pair
   std::vector<std::string> kinds;           // allowed function classes (subset of the model's type list)
};
inline void addFac(tr::Rng& g, TModel& m, const GenCfg& c, Vs v) {
   std::sort(v.begin(), v.end()); TFac f; f.v = v; Shape s = m.shapeOf(v); bool ok = false;
   if(v.empty()) { f.f.k = std::find(c.kinds.begin(), c.kinds.end(), "const") != c.kinds.end() && g.chance(50) ? "const" : "explicit"; f.f.s = s; f.f.p.assign(1, g.range(c.lo, c.hi)); m.fa.push_back(f); return; }
   for(int t = 0; t < 10 && !ok && !c.kinds.empty(); ++t) ok = randomFn(g, g.pick(c.kinds), s, c.lo, c.hi, f.f);
   if(!ok) randomFn(g, "explicit", s, c.lo, c.hi, f.f);
   m.fa.push_back(f);
}
inline Vs somePick(tr::Rng& g, size_t n, size_t o) { Vs a; for(size_t i = 0; i < n; ++i) a.push_back(i); g.shuffle(a); a.resize(std::min(o, n)); return a; }
inline TModel genModel(tr::Rng& g, const GenCfg& c, const std::string& op) {
   TModel m; m.op = op; std::string st = c.structure;
   if(st == "any") { static const std::vector<std::string> all = {"tree", "chain", "grid", "cycle", "unary", "pair", "random", "random", "hyper", "discon"}; st = g.pick(all); }
   size_t n = c.minV + g.below(c.maxV - c.minV + 1); size_t R = 1, C = n;
   if(st == "grid") { R = n >= 6 && n % 2 == 0 ? 2 : (n >= 9 ? 3 : (n >= 4 ? 2 : 1)); C = n / R; n = R * C; }
   size_t u = c.minL + g.below(c.maxL - c.minL + 1); bool uni = c.uniform || g.chance(40);
   m.sp.resize(n); for(size_t& x : m.sp) x = uni ? u : c.minL + g.below(c.maxL - c.minL + 1);
   while(m.states() > c.maxStates) { if(uni) { --u; if(u < c.minL) u = c.minL; for(size_t& x : m.sp) x = u; if(u == c.minL) break; } else { size_t k = g.below(n); if(m.sp[k] > c.minL) --m.sp[k]; } }
   // relabel variables so that structure does not follow index order
   Vs p = somePick(g, n, n); std::vector<Vs> sc;
   if(st == "chain") for(size_t i = 0; i + 1 < n; ++i) sc.push_back(Vs{p[i], p[i + 1]});
   else if(st == "cycle") { for(size_t i = 0; i + 1 < n; ++i) sc.push_back(Vs{p[i], p[i + 1]}); if(n > 2) sc.push_back(Vs{p[0], p[n - 1]}); }
   else if(st == "grid") { for(size_t a = 0; a < R; ++a) for(size_t b = 0; b < C; ++b) { if(a + 1 < R) sc.push_back(Vs{p[a * C + b], p[(a + 1) * C + b]}); if(b + 1 < C) sc.push_back(Vs{p[a * C + b], p[a * C + b + 1]}); } }
   else if(st == "tree" || st == "pairtree") {
      size_t done = 1;
      while(done < n) { size_t o = st == "pairtree" ? 1 : 1 + g.below(std::max<size_t>(1, c.maxOrder > 1 ? c.maxOrder - 1 : 1)); Vs v; if(g.chance(85)) v.push_back(p[g.below(done)]); for(size_t k = 0; k < o && done < n; ++k) v.push_back(p[done++]); if(v.size() > 1) sc.push_back(v); }
   } else if(st == "unary") {}
   else if(st == "discon") { for(size_t i = 0; i + 1 < n; i += 2) sc.push_back(Vs{p[i], p[i + 1]}); }
   else {
      size_t k = g.below(c.maxFac) + (st == "hyper" ? 1 : 0);
      for(size_t i = 0; i < k; ++i) {
         if(c.dup && !sc.empty() && g.chance(8)) { sc.push_back(g.pick(sc)); continue; }
         size_t o = st == "pair" ? 2 : (st == "hyper" ? std::min<size_t>(c.maxOrder, 3 + g.below(2)) : 1 + g.below(c.maxOrder)); if(o > c.maxOrder) o = c.maxOrder; sc.push_back(somePick(g, n, o));
      }
      if(!c.dup) { for(Vs& v : sc) std::sort(v.begin(), v.end()); std::sort(sc.begin(), sc.end()); sc.erase(std::unique(sc.begin(), sc.end()), sc.end()); }
   }
   for(size_t i = 0; i < n; ++i) if(c.unaryAll || g.chance(st == "unary" ? 85 : 55)) sc.push_back(Vs{i});
   if(c.consts && g.chance(12)) sc.push_back(Vs());
   if(c.dup && g.chance(15) && n) sc.push_back(Vs{g.below(n)});
   g.shuffle(sc);
   for(Vs& v : sc) { std::sort(v.begin(), v.end()); addFac(g, m, c, v); }
   return m;
}
inline GenCfg mixCfg() { GenCfg c; c.kinds = {"explicit", "explicit", "potts", "sparse", "tad", "pottsn", "const"}; return c; }
inline GenCfg exCfg() { GenCfg c; c.kinds = {"explicit"}; return c; }
template<class GM> GenCfg cfgFor() { GenCfg c = mixCfg(); std::vector<std::string> k; for(const std::string& s : c.kinds) if(AddAny<typename GM::FunctionTypeList>::has(s)) k.push_back(s); c.kinds = k; if(std::string(OpStr<typename GM::OperatorType>::n()) == "mul") { c.lo = 1; c.hi = 4; c.maxFac = 6; c.maxV = std::min<size_t>(c.maxV, 5); } return c; }
inline Vs someLabeling(tr::Rng& g, const Shape& sp) { Vs x; for(size_t l : sp) x.push_back(g.below(l)); return x; }
inline bool validLabeling(const Shape& sp, const Vs& x) { if(x.size() != sp.size()) return false; for(size_t i = 0; i < x.size(); ++i) if(x[i] >= sp[i]) return false; return true; }
template<class GM> std::vector<long> fullTable(const GM& gm) {
   Shape s; for(size_t i = 0; i < gm.numberOfVariables(); ++i) s.push_back(gm.numberOfLabels(i));
   std::vector<long> t; std::vector<size_t> x(std::max<size_t>(1, s.size()), 0); do t.push_back(tr::num(static_cast<double>(gm.evaluate(x.begin())))); while(nextLabeling(s, x)); return t;
}
