// Gibbs and Swendsen-Wang sampling.  Parts 0 and 1 replace the random numbers
// by logged ones, so that every step is determined by what was drawn; parts 2
// and 3 use the library's generator.
#ifndef PART
#define PART 0
#endif
#include "trace.hxx"
struct Script { tr::Rng* g; long var, label, q, ints; Script() : g(0), var(-1), label(-1), q(-1), ints(0) {} void clear() { var = label = q = -1; ints = 0; } };
static Script& script() { static Script s; return s; }
#if PART < 2
#define OPENGM_RANDOM_HXX
#include <opengm/opengm.hxx>
namespace opengm {
template<class T, bool FP> struct ScriptedUniform;
template<class T> struct ScriptedUniform<T, false> { static T draw(T lo, T hi) { T r = lo + static_cast<T>(script().g->below(static_cast<size_t>(hi - lo))); if(script().ints++ == 0) script().var = static_cast<long>(r); script().label = static_cast<long>(r); return r; } };
template<class T> struct ScriptedUniform<T, true> { static T draw(T lo, T hi) { long q = static_cast<long>(script().g->below(64)); if(script().g->chance(30)) q = static_cast<long>(script().g->below(4)); script().q = q; return lo + (hi - lo) * static_cast<T>(q) / 64; } };
template<class T> class RandomUniform { T lo_, hi_; public: RandomUniform(const T lo = 0, const T hi = 1) : lo_(lo), hi_(hi) {} RandomUniform(const T lo, const T hi, const size_t) : lo_(lo), hi_(hi) {} T operator()() const { return ScriptedUniform<T, std::is_floating_point<T>::value>::draw(lo_, hi_); } };
}
#endif
#include "solver.hxx"
#include <opengm/utilities/random.hxx>
#include <opengm/inference/gibbs.hxx>
#include <opengm/inference/swendsenwang.hxx>
using namespace opengm;
using tr::Rec; using tr::J;
typedef std::vector<std::vector<size_t> > VV;

template<class S> Vs markov(const S& s) { Vs x; for(size_t i = 0; i < s.graphicalModel().numberOfVariables(); ++i) x.push_back(s.markovState(i)); return x; }
template<class S> Vs best(const S& s) { Vs x; for(size_t i = 0; i < s.graphicalModel().numberOfVariables(); ++i) x.push_back(s.currentBestState(i)); return x; }
template<class S> void show(const S& s, J& j) { j.a("x", markov(s)).n("v", s.markovValue()).a("bx", best(s)).n("bv", s.currentBestValue()); }
template<class F> void hist(const F& f, std::vector<long>& t) { Vs s, x(f.numberOfVariables() + 1, 0); for(size_t i = 0; i < f.numberOfVariables(); ++i) s.push_back(f.numberOfLabels(i)); t.clear(); do t.push_back(tr::num(static_cast<double>(f(x.begin())))); while(nextLabeling(s, x)); }
template<class MV> void addMarginals(MV& mv, const VV& ms, bool single) { for(auto& s : ms) if(s.size() == 1 && single) mv.addMarginal(s[0]); else mv.addMarginal(s.begin(), s.end()); }
template<class MV> void counts(const MV& mv, J& j) { std::vector<std::vector<long> > h; for(size_t i = 0; i < mv.numberOfMarginals(); ++i) { h.emplace_back(); hist(mv.marginal(i), h.back()); } j.i("ns", tr::idx(mv.numberOfSamples())).i("na", tr::idx(mv.numberOfAcceptedSamples())).i("nr", tr::idx(mv.numberOfRejectedSamples())).aa("hist", h); }

// records every call and passes it on to the marginal visitor
template<class S> struct GibbsRec {
   Rec& r; GibbsMarginalVisitor<S>& mv; long stopAt, n; bool cyc;
   GibbsRec(Rec& rr, GibbsMarginalVisitor<S>& m, long s, bool c) : r(rr), mv(m), stopAt(s), n(0), cyc(c) {}
   void begin(S& s) { mv.begin(s); J j("begin"); show(s, j); r.ev(j); script().clear(); }
   size_t operator()(S& s) {
      mv(s); ++n; bool ask = stopAt > 0 && n >= stopAt; Script& c = script(); long var = cyc ? -1 : (c.ints >= 2 ? c.var : -1), label = c.ints >= (cyc ? 1 : 2) ? c.label : -1;
      J j("step"); show(s, j); j.t("burn", s.burningIn()).t("acc", s.lastMoveAccepted()).i("var", var).i("label", label).i("q", c.q).t("ask", ask); r.ev(j); c.clear(); return ask ? 2 : 0;
   }
   void end(S& s) { mv.end(s); J j("end"); show(s, j); r.ev(j); }
   void addLog(const std::string&) {} void log(const std::string&, double) {}
};
template<class S> struct SWRec {
   Rec& r; SwendsenWangMarginalVisitor<S>& mv; SWRec(Rec& rr, SwendsenWangMarginalVisitor<S>& m) : r(rr), mv(m) {}
   void operator()(const S& s, size_t it, size_t cs, bool acc, bool burn) { mv(s, it, cs, acc, burn); J j("step"); show(s, j); j.i("n", tr::idx(it)).i("size", tr::idx(cs)).t("acc", acc).t("burn", burn); r.ev(j); }
};
static VV marginalSets(tr::Rng& g, size_t n) { VV ms; for(size_t k = g.below(4); k > 0; --k) { Vs v = somePick(g, n, 1 + g.below(2)); std::sort(v.begin(), v.end()); ms.push_back(v); } return ms; }
template<class S, class MV> void resEv(Rec& r, S& s, MV& mv, long ret) {
   J j("res"); std::vector<typename S::LabelType> x, y; long st = s.arg(x), st2 = s.arg(y, 2); j.a("x", x).i("st", st).i("st2", st2).i("ret", ret).n("v", s.value()); counts(mv, j); r.ev(j);
}
static void newEv2(Rec& r, const char* alg, const std::string& acc, bool cyc, bool temp, size_t steps, size_t burn, const Vs& start, const Vs& x, const VV& ms) {
   r.ev(J("new").s("alg", alg).s("acc", acc).t("cyclic", cyc).t("temp", temp).i("steps", steps).i("burn", burn).a("start", start).a("x", x).aa("ms", ms));
}
template<class GM, class ACC> void gibbs(Rec& r, const TModel& m) {
   typedef Gibbs<GM, ACC> S; GM gm = realise<GM>(m); tr::Rng& g = r.rng; script().g = &g; srand(static_cast<unsigned>(g.below(100000)));
   size_t steps = g.below(40), burn = g.chance(50) ? g.below(12) : 0; bool temp = g.chance(20), cyc = g.chance(40); Vs start; if(g.chance(60)) start = someLabeling(g, m.sp);
   size_t periods = 1 + g.below(4); if(temp) steps = std::max(steps, periods);
   typename S::Parameter p(steps, burn, temp, static_cast<typename GM::ValueType>(0.0625), 1, periods, cyc ? S::Parameter::CYCLIC : S::Parameter::RANDOM, start);
   if(g.chance(5)) { typename S::Parameter q = p; q.startPoint_.assign(m.sp.size() + 1, 0); bool ok = false; try { S bad(gm, q); } catch(RuntimeError&) { ok = true; } r.ev(J("refuse").t("ok", ok)); }
   S s(gm, p); VV ms = marginalSets(g, m.sp.size()); newEv2(r, "gibbs", AccStr<ACC>::n(), cyc, temp, steps, burn, start, markov(s), ms);
   GibbsMarginalVisitor<S> mv; if(g.chance(50)) mv = GibbsMarginalVisitor<S>(gm); else mv.assign(gm); addMarginals(mv, ms, g.chance(50));
   for(size_t runs = 1 + g.below(2); runs > 0; --runs) {
      GibbsRec<S> v(r, mv, g.chance(15) ? 1 + static_cast<long>(g.below(20)) : -1, cyc); r.ev(J("run")); long ret = s.infer(v); resEv(r, s, mv, ret);
      if(runs > 1) { size_t w = g.below(3); if(w == 0) { s.reset(); r.ev(J("reset").a("x", markov(s)).n("bv", s.currentBestValue())); } else if(w == 1) { Vs y = someLabeling(g, m.sp); std::vector<typename GM::LabelType> z(y.begin(), y.end()); s.setStartingPoint(z.begin()); r.ev(J("from").a("start", y).a("x", markov(s)).n("bv", s.currentBestValue())); } }
   }
   {  // the marginal visitor on its own sees the same samples
      unsigned seed = static_cast<unsigned>(g.below(100000)); tr::Rng g1(seed), g2(seed); std::vector<std::vector<long> > h[2]; size_t ns[2], na[2]; Rec quiet(open("/dev/null", O_WRONLY), 1, false);
      for(int k = 0; k < 2; ++k) { srand(seed); script().g = k ? &g2 : &g1; S t(gm, p); GibbsMarginalVisitor<S> w(gm); addMarginals(w, ms, false); if(k) t.infer(w); else { GibbsRec<S> v(quiet, w, -1, cyc); t.infer(v); } ns[k] = w.numberOfSamples(); na[k] = w.numberOfAcceptedSamples(); for(size_t i = 0; i < w.numberOfMarginals(); ++i) { h[k].emplace_back(); hist(w.marginal(i), h[k].back()); } }
      script().g = &g; r.ev(J("replay").t("same", ns[0] == ns[1] && ns[0] == steps && na[0] == na[1] && h[0] == h[1]));
   }
   if(g.chance(30)) { S t(gm, p); t.infer(); std::vector<typename S::LabelType> x; t.arg(x); (void)x; }
   checkModelEv(r, gm);
}
template<class GM, class ACC> void sw(Rec& r, const TModel& m) {
   typedef SwendsenWang<GM, ACC> S; GM gm = realise<GM>(m); tr::Rng& g = r.rng; script().g = &g; srand(static_cast<unsigned>(g.below(100000)));
   size_t steps = g.below(40), burn = g.chance(50) ? g.below(12) : 0; Vs start; if(g.chance(60)) start = someLabeling(g, m.sp); std::vector<typename GM::LabelType> st(start.begin(), start.end());
   typename S::Parameter p(steps, burn, 0, st); S s(gm, p); VV ms = marginalSets(g, m.sp.size()); newEv2(r, "sw", AccStr<ACC>::n(), false, false, steps, burn, start, markov(s), ms);
   SwendsenWangMarginalVisitor<S> mv; if(g.chance(50)) mv = SwendsenWangMarginalVisitor<S>(gm); else mv.assign(gm); addMarginals(mv, ms, g.chance(50));
   for(size_t runs = 1 + g.below(2); runs > 0; --runs) {
      SWRec<S> v(r, mv); r.ev(J("run")); long ret = s.infer(v); resEv(r, s, mv, ret);
      if(runs > 1 && g.chance(60)) { s.reset(); r.ev(J("reset").a("x", markov(s)).n("bv", s.currentBestValue())); }
   }
   if(g.chance(30)) { S t(gm, p); t.infer(); std::vector<typename S::LabelType> x; t.arg(x); (void)x; }
   checkModelEv(r, gm);
}
template<class GM, class F> void reg(tr::Driver& d, const std::string& name, size_t q, size_t t, long lo, long hi, F f) {
   for(size_t i = 0; i < d.n(q, t); ++i) d.add(name + "-" + std::to_string(i), [=](Rec& r) {
      GenCfg c = cfgFor<GM>(); c.minV = 1; c.maxV = 5; c.maxStates = 100; c.lo = lo; c.hi = hi; c.dup = false; TModel m = genModel(r.rng, c, OpStr<typename GM::OperatorType>::n()); modelEv(r, m); f(r, m); });
}
static void build(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM;
#if PART == 0 || PART == 2
   reg<MA::Ex>(d, "gibbs-add", 120, 1500, -3, 5, gibbs<MA::Ex, Minimizer>); reg<MA::Mix>(d, "gibbs-addmix", 60, 800, -2, 3, gibbs<MA::Mix, Minimizer>);
#else
   reg<MM::Ex>(d, "gibbs-mul", 120, 1500, 0, 4, gibbs<MM::Ex, Maximizer>); reg<MM::Mix>(d, "gibbs-mulmix", 60, 800, 1, 4, gibbs<MM::Mix, Maximizer>);
#endif
#if PART == 2
   reg<MA::Ex>(d, "sw-add", 120, 1500, -3, 5, sw<MA::Ex, Minimizer>); reg<MA::Mix>(d, "sw-addmix", 60, 800, -2, 3, sw<MA::Mix, Minimizer>);
#elif PART == 3
   reg<MM::Ex>(d, "sw-mul", 120, 1500, 1, 4, sw<MM::Ex, Maximizer>);
#endif
}
DRIVER_MAIN(build)
