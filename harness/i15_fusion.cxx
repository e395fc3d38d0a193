// Fusion moves: every back end that can be built here, proposal generators,
// fusion-based inference, self fusion around several solvers, expansion fusion.
// Parts 2, 3 are built WITH_QPBO against the stand-in library in standin/.
#if PART >= 2
#define WITH_QPBO
#include <QPBO.h>
#endif
#define WITH_CUT
#include "local.hxx"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/gibbs.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
#include <opengm/inference/self_fusion.hxx>
#ifdef WITH_QPBO
#include <opengm/inference/alphaexpansionfusion.hxx>
#endif
static Rec* REC = 0;
template<class GM> GenCfg fcfg(size_t maxV = 6, size_t maxStates = 200) { GenCfg c = cfgFor<GM>(); c.maxV = std::min(c.maxV, maxV); c.maxStates = maxStates; c.maxL = 4; return c; }

// back ends that fail, that answer as badly as they can, that answer anything
template<class GM, class ACC, int KIND> struct Poor : Inference<GM, ACC> {
   typedef GM GraphicalModelType; typedef ACC AccumulationType; OPENGM_GM_TYPE_TYPEDEFS;
   struct Parameter { size_t seed; Parameter(size_t s = 0) : seed(s) {} };
   const GM& gm; Parameter p; std::vector<LabelType> x; Poor(const GM& g, const Parameter& q) : gm(g), p(q), x(g.numberOfVariables(), 0) {}
   std::string name() const { return "poor"; } const GM& graphicalModel() const { return gm; } void setStartingPoint(typename std::vector<LabelType>::const_iterator) {}
   InferenceTermination infer() {
      if(KIND == 0) return UNKNOWN;
      std::vector<LabelType> y(x.size(), 0); size_t n = y.size(); ValueType worst = gm.evaluate(y.begin()); x = y;
      for(size_t k = 1; k < (size_t(1) << n); ++k) { for(size_t i = 0; i < n; ++i) y[i] = (k >> i) & 1; ValueType v = gm.evaluate(y.begin()); if(KIND == 1 ? ACC::bop(worst, v) : k == p.seed % (size_t(1) << n)) { worst = v; x = y; } }
      return NORMAL;
   }
   InferenceTermination arg(std::vector<LabelType>& z, const size_t n = 1) const { z = x; return n == 1 ? NORMAL : UNKNOWN; }
};
// the interface of AD3 that the fusion mover uses, solved by trying everything
template<class GM, class ACC> struct FullSearch {
   typedef typename GM::ValueType V; struct Parameter {}; struct F { Vs vi; std::vector<V> t; };
   size_t n; std::vector<F> fs; std::vector<size_t> best;
   FullSearch(size_t nv, size_t, const Parameter&, bool) : n(nv) {}
   template<class It, class Fn_> void addFactor(It b, It e, const Fn_& f) { F q; q.vi.assign(b, e); size_t k = q.vi.size(); for(size_t a = 0; a < (size_t(1) << k); ++a) { std::vector<typename GM::LabelType> y(k); for(size_t i = 0; i < k; ++i) y[i] = (a >> i) & 1; q.t.push_back(f(y.begin())); } fs.push_back(q); }
   void infer() { bool first = true; V bv = V(); for(size_t a = 0; a < (size_t(1) << n); ++a) { V v; GM::OperatorType::neutral(v); for(const F& f : fs) { size_t k = 0; for(size_t i = 0; i < f.vi.size(); ++i) k |= ((a >> f.vi[i]) & 1) << i; GM::OperatorType::op(f.t[k], v); } if(first || ACC::bop(v, bv)) { first = false; bv = v; best.assign(n, 0); for(size_t i = 0; i < n; ++i) best[i] = (a >> i) & 1; } } }
   template<class L> void arg(std::vector<L>& x) const { x.assign(best.begin(), best.end()); }
};
template<class GM, class ACC, class F> void fuseEv(Rec& r, const GM& gm, const Vs& a, const Vs& b, const char* kind, long k, F f) {
   typedef typename GM::LabelType L; std::vector<L> la = lab<L>(a), lb = lab<L>(b), x(a.size(), 0); bool any = false; long d = 0; double v = f(gm, la, lb, x, any, d);
   r.ev(J("fuse").s("acc", AccStr<ACC>::n()).s("kind", kind).i("k", k).a("a", a).a("b", b).t("any", any).i("d", d).a("x", toVs(x)).n("v", any ? v : 0));
}
template<class GM, class ACC> struct Mover {
   typedef FusionMover<GM, ACC> M; typedef typename M::SubGmType S; typedef typename GM::LabelType L; typedef std::vector<L> X;
   template<class SOLVER> static void run(Rec& r, const GM& gm, const Vs& a, const Vs& b, const char* kind, long k, const typename SOLVER::Parameter& p, bool warm) {
      fuseEv<GM, ACC>(r, gm, a, b, kind, k, [&](const GM& g, X& la, X& lb, X& x, bool& any, long& d) { M m(g); m.setup(la, lb, x, g.evaluate(la), g.evaluate(lb)); d = static_cast<long>(m.numberOfFusionMoveVariable()); any = d > 0; double v = any ? m.template fuse<SOLVER>(p, warm) : 0; if(any && m.valueResult() != v) v = -77777; return v; });
   }
   static void one(Rec& r, const GM& gm, const Vs& a, const Vs& b) {
      tr::Rng& g = r.rng; typedef LazyFlipper<S, ACC> LF;
      switch(g.below(9)) {
      case 0: { size_t k = 1 + g.below(4); const bool w = g.chance(60); run<LF>(r, gm, a, b, w ? "flip" : "coldflip", static_cast<long>(k), typename LF::Parameter(k), w); break; }
      case 1: run<Bruteforce<S, ACC> >(r, gm, a, b, "exact", 0, typename Bruteforce<S, ACC>::Parameter(), false); break;
      case 2: run<AStar<S, ACC> >(r, gm, a, b, "exact", 0, typename AStar<S, ACC>::Parameter(), false); break;
      case 3: { typedef ICM<S, ACC> IC; const bool w = g.chance(50); run<IC>(r, gm, a, b, w ? "flip" : "coldflip", 1, typename IC::Parameter(IC::SINGLE_VARIABLE), w); break; }
      case 4: run<Poor<S, ACC, 0> >(r, gm, a, b, "any", 0, typename Poor<S, ACC, 0>::Parameter(), g.chance(50)); break;
      case 5: run<Poor<S, ACC, 1> >(r, gm, a, b, "any", 0, typename Poor<S, ACC, 1>::Parameter(), g.chance(50)); break;
      case 6: run<Poor<S, ACC, 2> >(r, gm, a, b, "any", 0, typename Poor<S, ACC, 2>::Parameter(g.below(64)), g.chance(50)); break;
      case 7: fuseEv<GM, ACC>(r, gm, a, b, "exact", 0, [&](const GM& q, X& la, X& lb, X& x, bool& any, long& d) { M m(q); m.setup(la, lb, x, q.evaluate(la), q.evaluate(lb)); d = static_cast<long>(m.numberOfFusionMoveVariable()); any = d > 0; return any ? static_cast<double>(m.template fuseAd3<FullSearch<S, ACC> >(typename FullSearch<S, ACC>::Parameter())) : 0.0; }); break;
      default: hl(r, gm, a, b); break;
      }
   }
   static void hl(Rec& r, const GM& gm, const Vs& a, const Vs& b) {
      typedef HlFusionMover<GM, ACC> H; tr::Rng& g = r.rng; size_t k = 1 + g.below(4);
#ifdef WITH_QPBO
      bool lf = false;
#else
      bool lf = true;
#endif
      if(g.chance(30)) lf = true;
      typename H::Parameter p(lf ? H::LazyFlipperFusion : H::DefaulFusion, k); bool pair = gm.factorOrder() <= 2;
      fuseEv<GM, ACC>(r, gm, a, b, lf ? "flip" : (pair ? "cut" : "any"), static_cast<long>(k), [&](const GM& q, X& la, X& lb, X& x, bool& any, long& d) { H m(q, p); d = 0; for(size_t i = 0; i < la.size(); ++i) d += la[i] != lb[i]; typename GM::ValueType v = -77777; any = m.fuse(la, lb, x, q.evaluate(la), q.evaluate(lb), v); return static_cast<double>(v); });
   }
#ifdef WITH_QPBO
   static void qpbo(Rec& r, const GM& gm, const Vs& a, const Vs& b) {
      tr::Rng& g = r.rng; typedef kolmogorov::qpbo::QPBO<double> Q; bool fix = gm.factorOrder() > 2 || g.chance(50);
      if(g.chance(25)) { hl(r, gm, a, b); return; }
      if(g.chance(25)) { typedef HQPBO<S, ACC> HQ; run<HQ>(r, gm, a, b, "any", 0, typename HQ::Parameter(), g.chance(70)); return; }
      fuseEv<GM, ACC>(r, gm, a, b, fix ? "any" : "cut", 0, [&](const GM& q, X& la, X& lb, X& x, bool& any, long& d) { M m(q); m.setup(la, lb, x, q.evaluate(la), q.evaluate(lb)); d = static_cast<long>(m.numberOfFusionMoveVariable()); any = d > 0; if(!any) return 0.0; return static_cast<double>(fix ? m.template fuseFixQpbo<Q>() : m.template fuseQpbo<Q>()); });
   }
#endif
};


template<class GM, class ACC> void moves(Rec& r, const TModel& m, bool qp) {
   GM gm = realise<GM>(m); tr::Rng& g = r.rng; Vs a = someLabeling(g, m.sp);
   for(size_t i = 0; i < 6; ++i) { Vs b = someLabeling(g, m.sp); if(g.chance(10)) b = a; else if(g.chance(30)) for(size_t q = 0; q < b.size(); ++q) if(g.chance(50)) b[q] = a[q];
#ifdef WITH_QPBO
      if(qp) Mover<GM, ACC>::qpbo(r, gm, a, b); else
#endif
      Mover<GM, ACC>::one(r, gm, a, b);
      if(g.chance(50)) a = b; }
   checkModelEv(r, gm); (void)qp;
}
// a proposal generator that shows what it proposes
template<class GEN> struct Spy {
   typedef typename GEN::AccumulationType AccumulationType; typedef typename GEN::GraphicalModelType GraphicalModelType; typedef typename GraphicalModelType::LabelType L;
   typedef typename GEN::Parameter Parameter; GEN gen; Spy(const GraphicalModelType& gm, const Parameter& p) : gen(gm, p) {}
   void reset() { gen.reset(); } size_t defaultNumStopIt() { return gen.defaultNumStopIt(); }
   void getProposal(const std::vector<L>& c, std::vector<L>& p) { gen.getProposal(c, p); REC->ev(J("propose").a("x", toVs(c)).a("p", toVs(p))); }
};
template<class GEN> void based(Rec& r, const TModel& m, long code, const typename GEN::Parameter& gp, bool poor = false) {
   typedef Spy<GEN> G; typedef typename GEN::GraphicalModelType GM; typedef typename GEN::AccumulationType ACC; typedef FusionBasedInf<GM, G> INF; typedef HlFusionMover<GM, ACC> H;
   REC = &r; GM gm = realise<GM>(m); tr::Rng& g = r.rng; size_t k = g.chance(40) ? 6 : 1 + g.below(3); size_t it = g.chance(50) ? 60 : 1 + g.below(8), stop = g.chance(60) ? 0 : 1 + g.below(5);
   bool lf = true;
#ifdef WITH_QPBO
   lf = g.chance(30);
#endif
   Pars ps; add(ps, "numIt", static_cast<long>(it)); add(ps, "numStop", static_cast<long>(stop)); add(ps, "gen", code); if(lf) add(ps, "k", static_cast<long>(k));
   typename H::Parameter hp(lf ? H::LazyFlipperFusion : H::DefaulFusion, k); typename INF::Parameter p(gp, hp, it, stop); INF inf(gm, p);
   newEv(r, "fusion", ps, Vs(), inf); if(g.chance(65)) restart(r, inf, someLabeling(g, m.sp));
   runEv(r, inf, anyRun(g, 15), g.chance(80)); { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); }
   J j("again"); argOf(inf, j); j.n("v", inf.value()); r.ev(j); checkModelEv(r, gm); (void)poor;
}
// a solver that shows what it tells its visitor
template<class INF> struct Shown : INF {
   typedef typename INF::GraphicalModelType GraphicalModelType; typedef typename INF::AccumulationType AccumulationType; OPENGM_GM_TYPE_TYPEDEFS;
   struct Parameter : INF::Parameter { Parameter() {} Parameter(const typename INF::Parameter& p) : INF::Parameter(p) {} };
   template<class V> struct Vis { V& v; Shown& me; Vis(V& w, Shown& s) : v(w), me(s) {}
      void show(const char* w) { J j("inner"); j.s("w", w); argOf(me, j); REC->ev(j); }
      template<class I> void begin(I&) { show("begin"); v.begin(me); } template<class I> size_t operator()(I&) { show("step"); return v(me); } template<class I> void end(I&) { show("end"); v.end(me); } void addLog(const std::string&) {} void log(const std::string&, double) {} };
   Shown(const GraphicalModelType& gm, const Parameter& p) : INF(gm, p) {}
   template<class V> InferenceTermination infer(V& v) { Vis<V> w(v, *this); return INF::infer(w); }
};
template<class INF> void self(Rec& r, const TModel& m, const typename INF::Parameter& ip) {
   typedef Shown<INF> S; typedef SelfFusion<S> SF; typedef typename INF::GraphicalModelType GM; REC = &r; GM gm = realise<GM>(m); tr::Rng& g = r.rng; size_t nth = g.chance(60) ? 1 : 1 + g.below(4), k = 1 + g.below(3);
   typename SF::FusionSolver fs = SF::LazyFlipperFusion;
#ifdef WITH_QPBO
   if(g.chance(70)) fs = SF::QpboFusion;
#endif
   Pars ps; add(ps, "nth", static_cast<long>(nth)); typename SF::Parameter p(nth, fs, typename S::Parameter(ip), k, false, false, false, 100.0, g.chance(50) ? 10 : 1 + g.below(3)); SF inf(gm, p);
   newEv(r, "selffusion", ps, Vs(), inf); if(g.chance(40)) restart(r, inf, someLabeling(g, m.sp));
   runEv(r, inf, anyRun(g, 15), g.chance(75)); { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); } J j("again"); argOf(inf, j); j.n("v", inf.value()); r.ev(j);
   if(g.chance(30)) { if(g.chance(50)) restart(r, inf, someLabeling(g, m.sp)); runEv(r, inf, anyRun(g, 15), g.chance(75)); } checkModelEv(r, gm);
}
template<class GM, class ACC> void anySelf(Rec& r, const TModel& m) {
   tr::Rng& g = r.rng; typedef BeliefPropagationUpdateRules<GM, ACC> UR; typedef MessagePassing<GM, ACC, UR, MaxDistance> BP; typedef ICM<GM, ACC> IC; typedef LazyFlipper<GM, ACC> LF; typedef Bruteforce<GM, ACC> BF; typedef AStar<GM, ACC> AS;
   switch(g.below(6)) {
   case 0: { typename IC::Parameter p(g.chance(50) ? IC::FACTOR : IC::SINGLE_VARIABLE); self<IC>(r, m, p); break; }
   case 1: self<LF>(r, m, typename LF::Parameter(1 + g.below(2))); break;
   case 2: self<BF>(r, m, typename BF::Parameter()); break;
   case 3: { typename BP::Parameter p(1 + g.below(12), 0.0, g.chance(50) ? 0.0 : 0.3); self<BP>(r, m, p); break; }
   case 4: if constexpr(std::is_same<ACC, Minimizer>::value) { typedef Gibbs<GM, ACC> GB; typename GB::Parameter p(3 + g.below(20), g.below(5)); self<GB>(r, m, p); break; }
   default: self<AS>(r, m, typename AS::Parameter()); break;
   }
}
// generators; the grid generators want a grid with a unary for every variable
inline TModel gridModel(tr::Rng& g) {
   size_t H = 2 + g.below(2), W = 2 + g.below(2), L = 2 + g.below(H * W > 4 ? 1 : 3); TModel m; m.op = "add"; m.sp.assign(H * W, L); auto at = [&](size_t i, size_t j) { return i + j * H; };
   GenCfg c = exCfg(); for(size_t v = 0; v < H * W; ++v) addFac(g, m, c, {v}); for(size_t i = 0; i < H; ++i) for(size_t j = 0; j < W; ++j) { if(i + 1 < H) addFac(g, m, c, {at(i, j), at(i + 1, j)}); if(j + 1 < W) addFac(g, m, c, {at(i, j), at(i, j + 1)}); }
   return m;
}
template<class GM, class ACC> void anyBased(Rec& r, const TModel& m, bool rnd = true) {
   namespace P = proposal_gen; tr::Rng& g = r.rng; typedef P::AlphaExpansionGen<GM, ACC> AE; typedef P::AlphaBetaSwapGen<GM, ACC> AB; typedef P::UpDownGen<GM, ACC> UD; typedef P::RandomGen<GM, ACC> RG; typedef P::Random2Gen<GM, ACC> R2; typedef P::RandomLFGen<GM, ACC> RL; typedef P::NonUniformRandomGen<GM, ACC> NU; typedef P::DynamincGen<GM, ACC> DY;
   switch(g.below(9)) {
   case 0: case 1: based<AE>(r, m, 0, typename AE::Parameter()); break;
   case 2: based<AB>(r, m, 1, typename AB::Parameter()); break;
   case 3: { static const std::vector<std::string> d = {"up", "down", "random"}; based<UD>(r, m, 2, typename UD::Parameter(g.pick(d))); break; }
   case 4: based<RG>(r, m, 3, typename RG::Parameter()); break;
   case 5: based<R2>(r, m, 4, typename R2::Parameter()); break;
   case 6: based<RL>(r, m, 5, typename RL::Parameter()); break;
   case 7: based<NU>(r, m, 6, typename NU::Parameter(g.chance(50) ? 1.0f : 0.2f)); break;
   default: { typename DY::Parameter p; size_t w = g.below(6); static const typename DY::GeneratorType ty[] = {DY::AlphaExpansion, DY::AlphaBetaSwap, DY::UpDown, DY::Random, DY::RandomLF, DY::NonUniformRandom}; static const long co[] = {0, 1, 2, 3, 5, 6}; p.gen_ = ty[w]; based<DY>(r, m, co[w], p); break; }
   }
   (void)rnd;
}
template<class GM, class ACC> void gridBased(Rec& r, const TModel& m) {
   namespace P = proposal_gen; tr::Rng& g = r.rng; typedef P::BlurGen<GM, ACC> BG; typedef P::EnergyBlurGen<GM, ACC> EB; double s = g.chance(50) ? 0.7 : 1.5;
   if(g.chance(50)) based<BG>(r, m, 7, typename BG::Parameter(s)); else based<EB>(r, m, 8, typename EB::Parameter(s, g.chance(50), 1.0));
}
#ifdef WITH_QPBO
template<class GM> void expf(Rec& r, const TModel& m) {
   typedef AlphaExpansionFusion<GM, Minimizer> INF; typedef typename GM::LabelType L; GM gm = realise<GM>(m); tr::Rng& g = r.rng; typename INF::Parameter p(1 + g.below(30)); Pars ps; Vs s; size_t n = 0; for(size_t x : m.sp) n = std::max(n, x);
   size_t w = g.below(4); if(w == 1) { p.labelInitialType_ = INF::Parameter::EXPLICIT_LABEL; s = someLabeling(g, m.sp); p.label_ = lab<L>(s); } else if(w == 2) p.labelInitialType_ = INF::Parameter::LOCALOPT_LABEL; else if(w == 3) { p.labelInitialType_ = INF::Parameter::RANDOM_LABEL; p.randSeedLabel_ = static_cast<unsigned>(g.below(1000)); }
   w = g.below(3); if(w == 1) { p.orderType_ = INF::Parameter::EXPLICIT_ORDER; p.labelOrder_ = lab<L>(somePick(g, n, n)); } else if(w == 2) { p.orderType_ = INF::Parameter::RANDOM_ORDER; p.randSeedOrder_ = static_cast<unsigned>(g.below(1000)); }
   INF inf(gm, p); newEv(r, "expansionfusion", ps, s, inf); history(r, inf, m, 15, true); checkModelEv(r, gm);
}
#endif
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM;
#if PART == 0
   regModel<MA::Ex>(d, "fuse-min", 60, 900, fcfg<MA::Ex>(), [](Rec& r, const TModel& m) { moves<MA::Ex, Minimizer>(r, m, false); });
   regModel<MA::Mix>(d, "fuse-max", 50, 800, fcfg<MA::Mix>(), [](Rec& r, const TModel& m) { moves<MA::Mix, Maximizer>(r, m, false); });
   regModel<MM::Ex>(d, "fuse-mul", 30, 500, fcfg<MM::Ex>(), [](Rec& r, const TModel& m) { moves<MM::Ex, Maximizer>(r, m, false); });
   regModel<MA::Ex>(d, "based-min", 80, 1200, fcfg<MA::Ex>(5, 100), [](Rec& r, const TModel& m) { anyBased<MA::Ex, Minimizer>(r, m); });
   regModel<MA::Ex>(d, "based-max", 30, 500, fcfg<MA::Ex>(5, 100), [](Rec& r, const TModel& m) { anyBased<MA::Ex, Maximizer>(r, m); });
   regGen(d, "based-grid", 30, 400, gridModel, [](Rec& r, const TModel& m) { gridBased<MA::Ex, Minimizer>(r, m); });
#elif PART == 1
   regModel<MA::Ex>(d, "self-min", 70, 1000, fcfg<MA::Ex>(5, 120), [](Rec& r, const TModel& m) { anySelf<MA::Ex, Minimizer>(r, m); });
   regModel<MA::Mix>(d, "self-max", 40, 600, fcfg<MA::Mix>(5, 120), [](Rec& r, const TModel& m) { anySelf<MA::Mix, Maximizer>(r, m); });
#else
   GenCfg c = fcfg<MA::Ex>(5, 120), u = c; u.uniform = true; u.minL = 2;
   regModel<MA::Ex>(d, "qfuse-min", 70, 1000, c, [](Rec& r, const TModel& m) { moves<MA::Ex, Minimizer>(r, m, true); });
   regGen(d, "qfuse-pair", 40, 600, [](tr::Rng& g) { return pairModel(g, "add", static_cast<int>(g.below(3)), 6, 4, 200, false); }, [](Rec& r, const TModel& m) { moves<MA::Ex, Minimizer>(r, m, true); });
   regModel<MA::Ex>(d, "qbased-min", 40, 600, c, [](Rec& r, const TModel& m) { anyBased<MA::Ex, Minimizer>(r, m); });
   regModel<MA::Ex>(d, "qself-min", 40, 600, c, [](Rec& r, const TModel& m) { anySelf<MA::Ex, Minimizer>(r, m); });
   regModel<MA::Ex>(d, "expf-min", 40, 600, u, [](Rec& r, const TModel& m) { expf<MA::Ex>(r, m); });
#endif
}
DRIVER_MAIN(part)
