// Derived properties of functions, factors and independent factors.
#include "gmzoo.hxx"
#include "fnset.hxx"
#include <opengm/functions/function_properties.hxx>
#include <opengm/functions/singlesitefunction.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

template<class T> struct Vals { std::vector<double> v; void operator()(const T x) { v.push_back(static_cast<double>(x)); } };
template<class T> struct CVals { size_t dim; std::vector<double> v; std::vector<Vs> c; template<class IT> void operator()(const T x, IT it) { v.push_back(static_cast<double>(x)); c.push_back(Vs(it, it + static_cast<long>(dim))); } };
template<class O> std::string submodular(O& o) { try { return o.isSubmodular() ? "true" : "false"; } catch(const RuntimeError&) { return "undefined"; } }

template<class T, class O> void common(J& e, O& o, const Fn& d) {
   const size_t n = d.s.size(); const double smallP = static_cast<double>(o.product());
   e.n("min", static_cast<double>(o.min())).n("max", static_cast<double>(o.max())).n("sum", static_cast<double>(o.sum())).n("prod", smallP);
   if(n >= 2) e.t("potts", o.isPotts());
   if(n >= 2) e.t("gpotts", o.isGeneralizedPotts());
   e.s("sub", submodular(o));
   if(n != 2 || d.s[0] > 1) { std::string q = "["; q += o.isSquaredDifference() ? "true," : "false,"; q += o.isTruncatedSquaredDifference() ? "true," : "false,"; q += o.isAbsoluteDifference() ? "true," : "false,"; q += o.isTruncatedAbsoluteDifference() ? "true]" : "false]"; e.raw("diff", q); }
}
template<class T, class O> void sweeps(J& e, const O& o) {
   Vals<T> a, b, c, u; o.forAllValuesInOrder(a); o.forAllValuesInSwitchedOrder(b); o.forAllValuesInAnyOrder(c); o.forAtLeastAllUniqueValues(u);
   e.a("ord", a.v).a("sw", b.v).a("any", c.v).a("uniq", u.v);
}
template<class F> void propsFn(Rec& r, long slot, const F& f, const Fn& d) {
   typedef typename F::ValueType T; J e("props"); e.i("slot", slot); Shape s; for(size_t i = 0; i < f.dimension(); ++i) s.push_back(static_cast<size_t>(f.shape(i))); e.a("s", s);
   common<T>(e, f, d); sweeps<T>(e, f); MinMaxFunctor<T> mm = f.minMax(); std::vector<double> m = {static_cast<double>(mm.min()), static_cast<double>(mm.max())}; e.a("mm", m);
   std::vector<double> acc = {static_cast<double>(f.template accumulate<Minimizer>()), static_cast<double>(f.template accumulate<Maximizer>()), static_cast<double>(f.template accumulate<Adder>()), static_cast<double>(f.template accumulate<Integrator>()), static_cast<double>(f.template accumulate<Multiplier>())}; e.a("acc", acc);
   std::vector<double> vp = {static_cast<double>(ValueFunctionProperties<ValueProperties::Sum, F>::op(f)), static_cast<double>(ValueFunctionProperties<ValueProperties::Product, F>::op(f)), static_cast<double>(ValueFunctionProperties<ValueProperties::Minimum, F>::op(f)), static_cast<double>(ValueFunctionProperties<ValueProperties::Maximum, F>::op(f))}; e.a("vp", vp);
   CVals<T> c1, c2, c3; c1.dim = c2.dim = c3.dim = d.s.size(); f.forAllValuesInOrderWithCoordinate(c1); f.forAllValuesInAnyOrderWithCoordinate(c2); f.forAtLeastAllUniqueValuesWithCoordinate(c3);
   CVals<T>& c = r.rng.chance(50) ? c1 : (r.rng.chance(50) ? c2 : c3); e.aa("co", c.c).a("cv", c.v).t("lin", f.isLinearConstraint());
   if(d.s.size() >= 2 && f.size() > 2) e.t("bp", BinaryFunctionProperties<BinaryProperties::IsPotts, F>::op(f));
   r.ev(e);
}
template<class FA> void propsFactor(Rec& r, long slot, const FA& f, const Fn& d) {
   typedef typename FA::ValueType T; J e("props"); e.i("slot", slot); Shape s; for(size_t i = 0; i < f.numberOfVariables(); ++i) s.push_back(static_cast<size_t>(f.shape(i))); e.a("s", s);
   common<T>(e, f, d); sweeps<T>(e, f); e.t("lin", f.isLinearConstraint());
   std::vector<double> vp = {static_cast<double>(f.template valueProperty<ValueProperties::Sum>()), static_cast<double>(f.template valueProperty<ValueProperties::Product>()), static_cast<double>(f.template valueProperty<ValueProperties::Minimum>()), static_cast<double>(f.template valueProperty<ValueProperties::Maximum>())}; e.a("vp", vp);
   if(d.s.size() >= 2 && f.size() > 2) e.t("bp", f.template binaryProperty<BinaryProperties::IsPotts>());
   r.ev(e);
}
template<class IF> void propsIndependent(Rec& r, long slot, IF& f, const Fn& d) {
   typedef typename IF::ValueType T; J e("props"); e.i("slot", slot); Shape s; for(size_t i = 0; i < f.numberOfVariables(); ++i) s.push_back(static_cast<size_t>(f.shape(i))); e.a("s", s);
   common<T>(e, f, d); sweeps<T>(e, f.function()); r.ev(e);
}

// tables that have, almost have, or do not have the structures
static Shape someShape(tr::Rng& g, size_t o) { Shape s; bool uni = g.chance(50); size_t u = 1 + g.below(4), n = 1; for(size_t i = 0; i < o; ++i) { size_t l = uni ? u : 1 + g.below(4); while(l > 1 && n * l > 27) --l; n *= l; s.push_back(l); } return s; }
static void structuredTable(tr::Rng& g, const Shape& s, Fn& f) {
   f.k = "explicit"; f.s = s; f.p.clear(); size_t w = g.below(8); std::vector<size_t> x(std::max<size_t>(1, s.size()), 0); long a = g.range(-2, 2), b = g.range(-2, 2), c = g.range(-2, 2); std::map<size_t, long> part;
   if(w >= 2 && w <= 5 && s.size() != 2) w = g.below(2); if((w == 4 || w == 5) && ((c < 0) != (a < 0))) c = -c;
   do {
      long v = 0; bool eq = true; for(size_t i = 1; i < s.size(); ++i) eq = eq && x[i] == x[0];
      long dd = s.size() == 2 ? std::labs(static_cast<long>(x[0]) - static_cast<long>(x[1])) : 0, d2 = dd * dd;
      switch(w) {
      case 0: v = eq ? a : b; break;
      case 1: { size_t n = 0, bit = 1; for(size_t i = 1; i < s.size(); ++i) for(size_t j = 0; j < i; ++j) { if(x[i] == x[j]) n += bit; bit *= 2; } if(!part.count(n)) part[n] = g.range(-2, 2); v = part[n]; break; }
      case 2: v = a * dd; break; case 3: v = a * d2; break;
      case 4: v = a < 0 ? std::max(a * dd, c * 2) : std::min(a * dd, c * 2); break; case 5: v = a < 0 ? std::max(a * d2, c * 3) : std::min(a * d2, c * 3); break;
      default: v = g.range(-2, 2);
      }
      f.p.push_back(v);
   } while(nextLabeling(s, x));
   for(size_t k = g.below(3); k > 0 && g.chance(50); --k) f.p[g.below(f.p.size())] += g.range(-2, 2);
   // keep the product of all values small
   double p = 1; for(long& v : f.p) { if(std::fabs(p * static_cast<double>(v)) > 1.5e7) v = g.range(-1, 1); p *= static_cast<double>(v); }
}
static bool smallProduct(const Fn& d, double maxAbs) { return std::pow(std::max(1.0, maxAbs), static_cast<double>(prodOf(d.s))) < 1.5e7; }
static bool randomDesc(tr::Rng& g, const std::string& k, Fn& f) {
   for(int t = 0; t < 60; ++t) {
      size_t o = k == "potts" || k == "ad" || k == "sd" || k == "tad" || k == "tsd" ? 2 : (k == "single" ? 1 : 1 + g.below(4)); Shape s = someShape(g, o);
      if(k == "explicit") { structuredTable(g, s, f); return true; }
      if(k == "single") { f.k = k; f.s = s; f.p.clear(); for(size_t i = 0; i < s[0]; ++i) f.p.push_back(g.range(-5, 5)); return true; }
      long m = prodOf(s) > 18 ? 1 : (prodOf(s) > 9 ? 2 : 3); if(!randomFn(g, k, s, -m, m, f)) continue;
      double big = 0; size_t z = std::max<size_t>(*std::max_element(s.begin(), s.end()), 1) - 1; double D = static_cast<double>(z);
      if(k == "ad") big = std::fabs(double(f.p[0])) * D; else if(k == "sd") big = std::fabs(double(f.p[0])) * D * D; else if(k == "tad" || k == "tsd") big = std::fabs(double(f.p[1] * f.p[0])); else for(long v : f.p) big = std::max(big, std::fabs(double(v)));
      if(k.compare(0, 6, "custom") == 0) { big = std::fabs(double(f.p[0])) + std::fabs(double(f.p[1])) * D * 10; }
      if(smallProduct(f, big)) return true;
   }
   return false;
}
template<class F> void history(Rec& r, const std::string& kind) {
   tr::Rng& g = r.rng; std::unique_ptr<F> f[3]; Fn d[3];
   for(size_t t = 0; t < (r.thorough ? 20u : 10u); ++t) {
      long i = static_cast<long>(g.below(3)), j = static_cast<long>(g.below(3)); size_t w = g.below(8);
      if(!f[i] || w <= 1) { if(!randomDesc(g, kind, d[i])) return; f[i].reset(new F(Make<F>::make(d[i]))); r.ev(J("new").i("slot", i).raw("f", d[i].json())); propsFn(r, i, *f[i], d[i]); }
      else if(w == 2 && f[j] && i != j) { *f[i] = *f[j]; d[i] = d[j]; r.ev(J("copy").i("slot", i).i("from", j)); propsFn(r, i, *f[i], d[i]); }
      else if(w <= 4 && setter(r, i, *f[i], d[i], 2L)) propsFn(r, i, *f[i], d[i]);
      else if(f[j]) r.ev(J("eq").i("a", i).i("b", j).t("eq", *f[i] == *f[j]));
   }
}
template<class GM> void factors(Rec& r) {   // properties seen through factors and independent factors
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L; tr::Rng& g = r.rng;
   static const std::vector<std::string> ks = {"explicit", "explicit", "potts", "sparse", "tad", "pottsn", "const"};
   for(int n = 0; n < 4; ++n) {
      Fn d; const std::string k = g.pick(ks); if(!randomDesc(g, k, d)) continue; size_t m = d.s.size(), extra = g.below(3);
      std::vector<L> ls; Vs vi; for(size_t i = 0; i < m; ++i) { for(size_t e = 0; e < extra; ++e) ls.push_back(static_cast<L>(1 + g.below(4))); vi.push_back(ls.size()); ls.push_back(static_cast<L>(d.s[i])); }
      GM gm((typename GM::SpaceType(ls.begin(), ls.end()))); std::vector<I> v(vi.begin(), vi.end());
      typename GM::FunctionIdentifier other = gm.addFunction(ExplicitFunction<T, I, L>(ls.begin(), ls.begin() + 1, T(7))); I z = 0; gm.addFactor(other, &z, &z + 1);
      I fi = gm.addFactor(AddAny<typename GM::FunctionTypeList>::add(gm, d), v.begin(), v.end());
      r.ev(J("new").i("slot", 0).raw("f", d.json())); propsFactor(r, 0, gm[fi], d);
      IndependentFactor<T, I, L> ind(gm[fi]); Fn e = d; if(e.k != "explicit") { e.k = "explicit"; e.p.clear(); std::vector<size_t> x(e.s.size(), 0); do e.p.push_back(static_cast<long>(gm[fi](x.begin()))); while(nextLabeling(e.s, x)); r.ev(J("new").i("slot", 1).raw("f", e.json())); } else r.ev(J("copy").i("slot", 1).i("from", 0));
      propsIndependent(r, 1, ind, e);
   }
}
template<class F> void reg(tr::Driver& d, const std::string& t, size_t q, size_t th) { std::string k = Make<F>::kind(); for(size_t i = 0; i < d.n(q, th); ++i) d.add(k + "-" + t + "-" + std::to_string(i), [k](Rec& r) { history<F>(r, k); }); }
template<class T, class I, class L> void all(tr::Driver& d, const std::string& t) {
   reg<ExplicitFunction<T, I, L> >(d, t, 60, 800); reg<PottsFunction<T, I, L> >(d, t, 12, 150); reg<PottsNFunction<T, I, L> >(d, t, 12, 150); reg<PottsGFunction<T, I, L> >(d, t, 12, 150);
   reg<AbsoluteDifferenceFunction<T, I, L> >(d, t, 8, 100); reg<SquaredDifferenceFunction<T, I, L> >(d, t, 8, 100); reg<TruncatedAbsoluteDifferenceFunction<T, I, L> >(d, t, 8, 100); reg<TruncatedSquaredDifferenceFunction<T, I, L> >(d, t, 8, 100);
   reg<ConstantFunction<T, I, L> >(d, t, 8, 100); reg<SparseFunction<T, I, L> >(d, t, 12, 150); reg<CustomFunction<T, I, L, 0> >(d, t, 12, 150);
   for(size_t i = 0; i < d.n(20, 300); ++i) d.add("factors-" + t + "-" + std::to_string(i), factors<typename Models<Adder, T, I, L>::Mix>);
}
void part(tr::Driver& d) {
#if PART == 0
   all<double, size_t, size_t>(d, "d");
#elif PART == 1
   all<float, unsigned, unsigned char>(d, "fu8");
#else
   all<int, size_t, size_t>(d, "i");
#endif
}
DRIVER_MAIN(part)
