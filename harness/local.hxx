// Runners for the local-search and move-making solvers: each builds a solver on
// model m with random parameters, records one or several runs and what follows.
#pragma once
#include "solver.hxx"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/infandflip.hxx>
#ifdef WITH_CUT
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#endif
using namespace opengm;
using tr::Rec; using tr::J;

inline void add(Pars& p, const char* k, long v) { p.push_back(std::make_pair(k, v)); }
template<class L> std::vector<L> lab(const Vs& x) { return std::vector<L>(x.begin(), x.end()); }
template<class INF> void restart(Rec& r, INF& inf, const Vs& x) { std::vector<typename INF::LabelType> y = lab<typename INF::LabelType>(x); inf.setStartingPoint(y.begin()); J j("restart"); j.a("start", x); argOf(inf, j); r.ev(j); }
inline RunOpt anyRun(tr::Rng& g, int stopPct) { RunOpt o; if(g.chance(stopPct)) { o.stopAt = 1 + static_cast<long>(g.below(4)); o.flag = 1 + static_cast<long>(g.below(2)); } return o; }

// a first run, then possibly: results again, a warm start, a plain second run, reset
template<class INF> void history(Rec& r, INF& inf, const TModel& m, int stopPct, bool resets) {
   tr::Rng& g = r.rng; runEv(r, inf, anyRun(g, stopPct), g.chance(65));
   { std::vector<typename INF::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); }
   size_t more = g.below(3);
   for(size_t i = 0; i < more; ++i) {
      size_t w = g.below(resets ? 4 : 3);
      if(w == 0) { J j("again"); argOf(inf, j); j.n("v", inf.value()); r.ev(j); }
      else if(w == 1) { restart(r, inf, someLabeling(g, m.sp)); runEv(r, inf, anyRun(g, stopPct), g.chance(50)); }
      else if(w == 2) runEv(r, inf, RunOpt(), g.chance(50));
      else { inf.reset(); J j("reset"); argOf(inf, j); r.ev(j); runEv(r, inf, RunOpt(), g.chance(50)); }
   }
}
template<class GM, class ACC> void icm(Rec& r, const TModel& m, int stopPct = 15) {
   typedef ICM<GM, ACC> INF; typedef typename GM::LabelType L; GM gm = realise<GM>(m); tr::Rng& g = r.rng; bool fac = g.chance(45); Pars ps; add(ps, "factor", fac); Vs s; if(g.chance(75)) s = someLabeling(g, m.sp);
   typename INF::Parameter p(fac ? INF::FACTOR : INF::SINGLE_VARIABLE, lab<L>(s)); INF inf(gm, p); newEv(r, "icm", ps, s, inf); history(r, inf, m, stopPct, true); checkModelEv(r, gm);
}
template<class GM, class ACC> void lf(Rec& r, const TModel& m, int stopPct = 15, size_t kmax = 4) {
   typedef LazyFlipper<GM, ACC> INF; typedef typename GM::LabelType L; GM gm = realise<GM>(m); tr::Rng& g = r.rng; size_t k = 1 + g.below(kmax); bool bin = true; for(size_t x : m.sp) if(x != 2) bin = false;
   size_t t = g.below(3); Tribool ml = t == 0 ? Tribool(Tribool::True) : (t == 1 && bin ? Tribool(Tribool::False) : Tribool(Tribool::Maybe));
   Pars ps; add(ps, "k", static_cast<long>(k)); Vs s; if(g.chance(70)) s = someLabeling(g, m.sp); std::vector<L> y = lab<L>(s);
   typename INF::Parameter p(k, ml); if(!s.empty()) p = typename INF::Parameter(k, y.begin(), y.end(), ml);
   INF inf(gm, p); if(g.chance(20)) { size_t k2 = 1 + g.below(kmax); inf.setMaxSubgraphSize(k2); ps.clear(); add(ps, "k", static_cast<long>(k2)); } newEv(r, "lazyflipper", ps, s, inf); history(r, inf, m, stopPct, false); checkModelEv(r, gm);
}
template<class GM, class ACC> void flip(Rec& r, const TModel& m, int stopPct = 15) {
   typedef ICM<GM, ACC> SUB; typedef InfAndFlip<GM, ACC, SUB> INF; GM gm = realise<GM>(m); tr::Rng& g = r.rng; Pars ps; typename INF::Parameter p(g.below(4)); add(ps, "k", static_cast<long>(p.maxSubgraphSize_)); p.warmStartableInf_ = g.chance(50);
   p.subPara_ = typename SUB::Parameter(g.chance(50) ? SUB::FACTOR : SUB::SINGLE_VARIABLE); INF inf(gm, p); newEv(r, "infandflip", ps, Vs(), inf); if(g.chance(75)) restart(r, inf, someLabeling(g, m.sp)); history(r, inf, m, stopPct, false); checkModelEv(r, gm);
}
#ifdef WITH_CUT
// models of the class the move-making solvers are for
inline TModel pairModel(tr::Rng& g, const std::string& op, int kind, size_t maxV = 6, size_t maxL = 4, size_t maxStates = 256, bool mix = true) {   // kind 0: metric, 1: semi-metric, 2: no promise
   GenCfg c = exCfg(); c.maxOrder = 2; c.uniform = true; c.minV = 1; c.maxV = maxV; c.maxL = maxL; c.maxStates = maxStates; static const std::vector<std::string> st = {"chain", "grid", "cycle", "pair", "random", "tree", "discon"}; c.structure = g.pick(st); if(c.structure == "grid") c.minV = 4;
   TModel m = genModel(g, c, op); size_t L = m.sp.empty() ? 1 : m.sp[0]; for(size_t x : m.sp) if(x != L) { for(size_t& y : m.sp) y = L; break; }
   for(TFac& f : m.fa) {
      f.f.s = m.shapeOf(f.v);
      if(f.v.size() == 1) { Fn q; randomFn(g, "explicit", f.f.s, -6, 9, q); f.f = q; }
      if(f.v.size() != 2) continue;
      size_t w = g.below(mix ? 3 : 1);
      if(w == 1) { f.f.k = "potts"; f.f.p = {0, g.range(0, 6)}; continue; }
      if(w == 2) { f.f.k = "tad"; f.f.p = {g.range(1, 3), g.range(0, 4)}; continue; }
      std::vector<long> t(L * L, 0); for(size_t a = 0; a < L; ++a) for(size_t b = a + 1; b < L; ++b) t[a + L * b] = t[b + L * a] = g.range(0, 9);
      if(kind == 0) for(size_t k = 0; k < L; ++k) for(size_t a = 0; a < L; ++a) for(size_t b = 0; b < L; ++b) t[a + L * b] = std::min(t[a + L * b], t[a + L * k] + t[k + L * b]);
      f.f.k = "explicit"; f.f.p = t;
   }
   return m;
}
template<class GM, class ACC, BoostMaxFlowAlgorithm A> struct Cut { typedef MinSTCutBoost<size_t, double, A> M; typedef GraphCut<GM, ACC, M> type; };
template<class INF> void aexp(Rec& r, const TModel& m, int stopPct = 15) {
   typedef typename INF::GraphicalModelType GM; typedef typename GM::LabelType L; GM gm = realise<GM>(m); tr::Rng& g = r.rng; typename INF::Parameter p; Pars ps; Vs s; size_t n = 0; for(size_t x : m.sp) n = std::max(n, x);
   size_t w = g.below(4); if(w == 1) { p.labelInitialType_ = INF::Parameter::EXPLICIT_LABEL; s = someLabeling(g, m.sp); p.label_ = lab<L>(s); } else if(w == 2) { p.labelInitialType_ = INF::Parameter::LOCALOPT_LABEL; } else if(w == 3) { p.labelInitialType_ = INF::Parameter::RANDOM_LABEL; p.randSeedLabel_ = static_cast<unsigned>(g.below(1000)); }
   w = g.below(3); if(w == 1) { p.orderType_ = INF::Parameter::EXPLICIT_ORDER; p.labelOrder_ = lab<L>(somePick(g, n, n)); } else if(w == 2) { p.orderType_ = INF::Parameter::RANDOM_ORDER; p.randSeedOrder_ = static_cast<unsigned>(g.below(1000)); }
   INF inf(gm, p); newEv(r, "alphaexpansion", ps, s, inf); history(r, inf, m, stopPct, true); checkModelEv(r, gm);
}
template<class INF> void aswap(Rec& r, const TModel& m, int stopPct = 15) {
   typedef typename INF::GraphicalModelType GM; GM gm = realise<GM>(m); tr::Rng& g = r.rng; INF inf(gm); newEv(r, "alphabetaswap", Pars(), Vs(), inf); if(g.chance(70)) restart(r, inf, someLabeling(g, m.sp)); history(r, inf, m, stopPct, true); checkModelEv(r, gm);
}
#endif
template<class GM, class F> void regModel(tr::Driver& d, const std::string& name, size_t q, size_t t, GenCfg c, F f) {
   for(size_t i = 0; i < d.n(q, t); ++i) d.add(name + "-" + std::to_string(i), [f, c](Rec& r) { TModel m = genModel(r.rng, c, OpStr<typename GM::OperatorType>::n()); modelEv(r, m); f(r, m); });
}
template<class F> void regGen(tr::Driver& d, const std::string& name, size_t q, size_t t, std::function<TModel(tr::Rng&)> gen, F f) {
   for(size_t i = 0; i < d.n(q, t); ++i) d.add(name + "-" + std::to_string(i), [f, gen](Rec& r) { TModel m = gen(r.rng); modelEv(r, m); f(r, m); });
}
