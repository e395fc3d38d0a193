// Marginals of belief propagation and tree-reweighted belief propagation on forests.
#include "solver.hxx"
#include <opengm/operations/logsumexp.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/messagepassing/messagepassing_bp.hxx>
#include <opengm/inference/messagepassing/messagepassing_trbp.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

template<class ACC> struct Kind { static const char* n() { return AccStr<ACC>::n(); } };
template<> struct Kind<Integrator> { static const char* n() { return "sum"; } };
template<> struct Kind<Logsumexp> { static const char* n() { return "sum"; } };
static const double SC = 10000;

template<class ACC> struct Optimising { static const bool value = true; };
template<> struct Optimising<Integrator> { static const bool value = false; };
template<> struct Optimising<Logsumexp> { static const bool value = false; };
// the best labelings with given labels (at most one per component), and the labelwise best ones
template<class ACC, class INF, class GM> typename std::enable_if<!Optimising<ACC>::value>::type completions(Rec&, const GM&, const INF&) {}
template<class ACC, class INF, class GM> typename std::enable_if<Optimising<ACC>::value>::type completions(Rec& r, const GM& gm, const INF& inf) {
   typedef typename GM::IndexType I; typedef typename GM::LabelType L; tr::Rng& g = r.rng; size_t n = gm.numberOfVariables(); if(n == 0) return;
   std::vector<size_t> c(n); for(size_t i = 0; i < n; ++i) c[i] = i;
   for(size_t q = 0; q < n; ++q) for(size_t k = 0; k < gm.numberOfFactors(); ++k) { size_t lo = n; for(size_t i = 0; i < gm[k].numberOfVariables(); ++i) lo = std::min(lo, c[gm[k].variableIndex(i)]); for(size_t i = 0; i < gm[k].numberOfVariables(); ++i) c[gm[k].variableIndex(i)] = lo; }
   for(size_t t = 0; t < 2; ++t) {
      std::vector<I> v; std::vector<L> l; std::vector<bool> used(n, false); Vs o = somePick(g, n, n);
      for(size_t x : o) if(!used[c[x]] && g.chance(75)) { used[c[x]] = true; v.push_back(static_cast<I>(x)); l.push_back(static_cast<L>(g.below(gm.numberOfLabels(x)))); }
      std::vector<L> x(g.below(3), 0); long st = static_cast<long>(inf.constrainedOptimum(v, l, x)); r.ev(J("given").i("st", st).a("v", v).a("l", l).a("x", x).s("kind", AccStr<ACC>::n()));
   }
   std::vector<L> x; long st = static_cast<long>(inf.modeFromMarginal(x)); r.ev(J("modes").i("st", st).a("x", x).s("kind", AccStr<ACC>::n()));
   std::vector<L> y; st = static_cast<long>(inf.modeFromFactorMarginal(y)); r.ev(J("given").i("st", st).a("v", std::vector<I>()).a("l", std::vector<L>()).a("x", y).s("kind", AccStr<ACC>::n()));
}
template<class INF, bool LOG, class GM> void marginals(Rec& r, const GM& gm) {
   tr::Rng& g = r.rng; typename INF::Parameter p; typedef typename INF::AccumulationType ACC;
   p.maximumNumberOfSteps_ = 2 * gm.numberOfVariables() + 2 * gm.numberOfFactors() + 4; p.inferSequential_ = g.chance(50);
   size_t a = g.below(3); p.isAcyclic_ = a == 0 ? Tribool(Tribool::True) : (a == 1 ? Tribool(Tribool::Maybe) : Tribool(Tribool::False));
   const bool norm = g.chance(60); p.useNormalization_ = norm;
   if(g.chance(40)) { Vs o = somePick(g, gm.numberOfVariables(), gm.numberOfVariables()); p.sortedNodeList_.assign(o.begin(), o.end()); }
   INF inf(gm, p); if(inf.infer() != NORMAL) { r.ev(J("bad")); return; } if(g.chance(20)) { if(g.chance(50)) inf.reset(); inf.infer(); }
   typedef typename GM::IndependentFactorType IF; 
   auto emit = [&](long st, const IF& f, const Vs& vars) {
      std::vector<size_t> got, sh; for(size_t i = 0; i < f.numberOfVariables(); ++i) { got.push_back(f.variableIndex(i)); sh.push_back(f.numberOfLabels(i)); }
      std::vector<double> v; for(size_t i = 0; i < f.size(); ++i) { double q = f(i); if(LOG) q = std::exp(q); v.push_back(q); }
      double mx = 0; for(double q : v) mx = std::max(mx, std::fabs(q));
      // unnormalised sums are compared as ratios: bring them to a common scale first
      double s = SC; if(std::string(Kind<ACC>::n()) == "sum" && !norm) { s = mx > 0 ? 10000.0 / mx : 1; } else if(std::string(OpStr<typename GM::OperatorType>::n()) == "mul" && !norm) s = 100000000.0 / (mx > 0 ? mx : 1);
      std::vector<long> t; for(double q : v) t.push_back(tr::fix(q, s));
      r.ev(J("marg").i("st", st).a("vars", vars).a("got", got).a("shape", sh).s("kind", Kind<ACC>::n()).t("norm", norm).a("t", t));
   };
   completions<ACC>(r, gm, inf);
   for(size_t v = 0; v < gm.numberOfVariables(); ++v) { IF f; long st = inf.marginal(v, f); emit(st, f, Vs(1, v)); }
   for(size_t k = 0; k < gm.numberOfFactors(); ++k) if(gm[k].numberOfVariables() > 0) { IF f; long st = inf.factorMarginal(k, f); Vs vars; for(size_t i = 0; i < gm[k].numberOfVariables(); ++i) vars.push_back(gm[k].variableIndex(i)); emit(st, f, vars); }
}
template<class GM> struct ToLog { typedef typename Models<Adder, typename GM::ValueType>::Ex type; };
static TModel forestModel(tr::Rng& g, const GenCfg& base, const char* op, bool sum) {
   for(;;) {
      GenCfg c = base; c.maxV = 6; c.maxStates = 200; c.maxL = 4; c.dup = false; c.maxOrder = 3; if(sum) { c.lo = g.chance(40) ? 0 : 1; c.hi = 3; }
      static const std::vector<std::string> st = {"tree", "tree", "tree", "chain", "unary", "discon", "pairtree"}; c.structure = g.pick(st);
      TModel m = genModel(g, c, op); if(!sum) return m;
      typedef Models<Multiplier>::Mix MMix; MMix gm = realise<MMix>(m); std::vector<long> t = fullTable(gm); double z = 0; for(long v : t) z += static_cast<double>(v);
      if(z > 0 && z <= 1e5) return m;
   }
}
template<class GM, class INF> void reg(tr::Driver& d, const std::string& name, size_t q, size_t t, bool sum) {
   for(size_t i = 0; i < d.n(q, t); ++i) d.add(name + "-" + std::to_string(i), [sum](Rec& r) {
      TModel m = forestModel(r.rng, cfgFor<GM>(), OpStr<typename GM::OperatorType>::n(), sum); modelEv(r, m); r.ev(J("acyclic")); GM gm = realise<GM>(m); marginals<INF, false>(r, gm); checkModelEv(r, gm); });
}
// additive model of logarithms, Logsumexp accumulation
template<class RULES, class GML> void regLog(tr::Driver& d, const std::string& name, size_t q, size_t t) {
   for(size_t i = 0; i < d.n(q, t); ++i) d.add(name + "-" + std::to_string(i), [](Rec& r) {
      typedef Models<Multiplier>::Ex GM; TModel m = forestModel(r.rng, exCfg(), "mul", true); modelEv(r, m); r.ev(J("acyclic")); GM gm = realise<GM>(m);
      std::vector<size_t> ls(m.sp.begin(), m.sp.end()); GML gl((typename GML::SpaceType(ls.begin(), ls.end())));
      for(size_t k = 0; k < gm.numberOfFactors(); ++k) { std::vector<size_t> v; for(size_t q = 0; q < gm[k].numberOfVariables(); ++q) v.push_back(gm[k].variableIndex(q)); std::vector<size_t> s = m.shapeOf(v); ExplicitFunction<double> f(s.begin(), s.end(), 0.0); std::vector<size_t> x(s.size(), 0); do f(x.begin()) = std::log(static_cast<double>(gm[k](x.begin())) + 0.0); while(nextLabeling(s, x)); gl.addFactor(gl.addFunction(f), v.begin(), v.end()); }
      marginals<MessagePassing<GML, Logsumexp, RULES, MaxDistance>, true>(r, gl); });
}
#define MARGS(GMT, ACC, tag, sum) \
   { typedef MessagePassing<GMT, ACC, BeliefPropagationUpdateRules<GMT, ACC>, MaxDistance> BP; typedef MessagePassing<GMT, ACC, TrbpUpdateRules<GMT, ACC>, MaxDistance> TR; \
   reg<GMT, BP>(d, std::string("bp-") + tag, 90, 1200, sum); reg<GMT, TR>(d, std::string("trbp-") + tag, 60, 800, sum); }
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM;
#if PART == 0
   MARGS(MM::Ex, Integrator, "sum", true);
#elif PART == 1
   MARGS(MA::Mix, Minimizer, "add-min", false);
#elif PART == 2
   MARGS(MM::Mix, Maximizer, "mul-max", false);
#elif PART == 3
   MARGS(MM::Mix, Integrator, "summix", true); 
#else
   typedef Models<Adder>::Ex GL; regLog<BeliefPropagationUpdateRules<GL, Logsumexp>, GL>(d, "bp-log", 60, 600);
   MARGS(MA::Ex, Maximizer, "add-max", false);
#endif
}
DRIVER_MAIN(part)
