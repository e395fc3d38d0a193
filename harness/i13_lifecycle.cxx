// The life of inference objects: several objects of one algorithm on one
// model, calls interleaved; reruns, resets, warm starts, repeated queries.
#define WITH_QPBO
#if PART == 1
#include <QPBO.h>
#endif
#define WITH_CUT
#include "local.hxx"
#include <memory>
#if PART == 0
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/greedygremlin.hxx>
#elif PART == 1
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/mqpbo.hxx>
#include <opengm/inference/hqpbo.hxx>
#include <opengm/inference/reducedinference.hxx>
#include <opengm/inference/partition-move.hxx>
#include <opengm/inference/alphaexpansionfusion.hxx>
#else
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
#include <opengm/inference/dualdecomposition/dddualvariableblock.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#endif
typedef Models<Adder>::Ex GmA; typedef Models<Multiplier>::Ex GmP; typedef Models<Adder>::Mix GmM; typedef Minimizer Min;
template<class INF, class = void> struct HasReset : std::false_type {};
template<class INF> struct HasReset<INF, decltype(std::declval<INF&>().reset(), void())> : std::true_type {};
template<class INF> typename std::enable_if<HasReset<INF>::value>::type callReset(INF& i) { i.reset(); }
template<class INF> typename std::enable_if<!HasReset<INF>::value>::type callReset(INF&) {}
// what the object says right now
template<class INF> void say(Rec& r, J& j, const INF& inf, long rt = -9) { argOf(inf, j); j.n("v", static_cast<double>(inf.value())).i("b", tr::fix(static_cast<double>(inf.bound()), 1000)); if(rt != -9) j.i("rt", rt); r.ev(j); }
struct Can { bool reset, start, many; };
template<class INF> void beyond(Rec& r, const INF& inf, long o, size_t n) { long st = 0; try { std::vector<typename INF::LabelType> x; st = static_cast<long>(inf.arg(x, n)); } catch(const std::exception&) { st = 4; } r.ev(J("beyond").i("o", o).i("n", static_cast<long>(n)).i("st", st)); }
template<class INF> void lives(Rec& r, const TModel& m, const char* name, const typename INF::Parameter& p, Can can, size_t sols = 1, const Vs& start = Vs()) {
   typedef typename INF::GraphicalModelType GM; typedef typename INF::LabelType L; tr::Rng& g = r.rng; modelEv(r, m); GM gm = realise<GM>(m), copy = realise<GM>(m);
   std::unique_ptr<INF> ob[3]; size_t steps = 4 + g.below(10); std::vector<Vs> starts; for(int i = 0; i < 2; ++i) starts.push_back(someLabeling(g, m.sp)); bool ran[3] = {false, false, false};
   for(size_t s = 0; s < steps; ++s) {
      size_t o = g.below(s < 2 ? 1 : 3); INF* q = ob[o].get(); long id = static_cast<long>(o) + 1;
      if(!q) { ob[o].reset(new INF(g.chance(75) ? gm : copy, p)); J j("make"); j.i("o", id).s("solver", name).a("start", start); say(r, j, *ob[o]); continue; }
      switch(g.below(8)) {
         case 0: case 1: case 2: { long rt; if(g.chance(50)) { typename INF::EmptyVisitorType v; rt = static_cast<long>(q->infer(v)); } else rt = static_cast<long>(q->infer()); ran[o] = true; J j("infer"); j.i("o", id); say(r, j, *q, rt); break; }
         case 3: { if(!can.reset) break; callReset(*q); ran[o] = false; J j("reset"); j.i("o", id); say(r, j, *q); break; }
         case 4: { if(!can.start) break; const Vs& x = g.pick(starts); std::vector<L> y = lab<L>(x); q->setStartingPoint(y.begin()); J j("start"); j.i("o", id).a("start", x); say(r, j, *q); break; }
         case 5: { if(ran[o] || !can.many) beyond(r, *q, id, g.chance(50) ? sols + 1 : sols + 1 + g.below(3)); break; }
         case 6: { if(g.chance(50)) checkModelEv(r, gm); break; }
         default: { J j("look"); j.i("o", id); say(r, j, *q); }
      }
   }
   for(int o = 0; o < 3; ++o) if(ob[o]) { J j("look"); j.i("o", o + 1); say(r, j, *ob[o]); if(g.chance(40)) ob[o].reset(); }
   checkModelEv(r, gm); checkModelEv(r, copy);
}
template<class INF> void lives0(Rec& r, const TModel& m, const char* name, Can can) { lives<INF>(r, m, name, typename INF::Parameter(), can); }
static GenCfg base(size_t order, size_t minL, size_t maxL) { GenCfg c = exCfg(); c.maxOrder = order; c.minV = 1; c.maxV = 6; c.minL = minL; c.maxL = maxL; c.maxStates = 160; return c; }
template<class F> void life(tr::Driver& d, const std::string& name, size_t q, GenCfg c, const std::string& op, F f) { for(size_t i = 0; i < d.n(q, q * 15); ++i) d.add(name + "-" + std::to_string(i), [f, c, op](Rec& r) { TModel m = genModel(r.rng, c, op); f(r, m); }); }
template<class F> void lifeG(tr::Driver& d, const std::string& name, size_t q, std::function<TModel(tr::Rng&)> gen, F f) { for(size_t i = 0; i < d.n(q, q * 15); ++i) d.add(name + "-" + std::to_string(i), [f, gen](Rec& r) { TModel m = gen(r.rng); f(r, m); }); }
#if PART == 0
template<class GM, class ACC> void local(tr::Driver& d, const std::string& t, GenCfg c, const std::string& op) {
   typedef typename GM::LabelType L;
   life(d, "icm" + t, 20, c, op, [](Rec& r, const TModel& m) { typedef ICM<GM, ACC> I; Vs s; if(r.rng.chance(60)) s = someLabeling(r.rng, m.sp); lives<I>(r, m, "icm", typename I::Parameter(r.rng.chance(50) ? I::FACTOR : I::SINGLE_VARIABLE, lab<L>(s)), {true, true, false}, 1, s); });
   life(d, "lf" + t, 20, c, op, [](Rec& r, const TModel& m) { typedef LazyFlipper<GM, ACC> I; Vs s; if(r.rng.chance(60)) s = someLabeling(r.rng, m.sp); size_t k = 1 + r.rng.below(4); std::vector<L> y = lab<L>(s); typename I::Parameter p(k); if(!s.empty()) p = typename I::Parameter(k, y.begin(), y.end()); lives<I>(r, m, "lazyflipper", p, {false, true, false}, 1, s); });
   life(d, "flip" + t, 12, c, op, [](Rec& r, const TModel& m) { typedef InfAndFlip<GM, ACC, ICM<GM, ACC> > I; lives<I>(r, m, "infandflip", typename I::Parameter(1 + r.rng.below(3)), {false, false, false}); });
   life(d, "bf" + t, 14, c, op, [](Rec& r, const TModel& m) { lives0<Bruteforce<GM, ACC> >(r, m, "bruteforce", {true, false, true}); });
   life(d, "astar" + t, 20, c, op, [](Rec& r, const TModel& m) { typedef AStar<GM, ACC> I; typename I::Parameter p; p.numberOfOpt_ = 1 + r.rng.below(3); lives<I>(r, m, "astar", p, {false, false, true}, p.numberOfOpt_); });
   GenCfg ct = c; ct.structure = "pairtree"; ct.maxOrder = 2; ct.dup = false; life(d, "dp" + t, 16, ct, op, [](Rec& r, const TModel& m) { lives0<DynamicProgramming<GM, ACC> >(r, m, "dynprog", {false, false, false}); });
   typedef MessagePassing<GM, ACC, BeliefPropagationUpdateRules<GM, ACC>, MaxDistance> BP; typedef MessagePassing<GM, ACC, TrbpUpdateRules<GM, ACC>, MaxDistance> TR;
   life(d, "bp" + t, 25, c, op, [](Rec& r, const TModel& m) { typename BP::Parameter p; p.maximumNumberOfSteps_ = 1 + r.rng.below(6); if(r.rng.chance(30)) p.bound_ = 0.1; p.inferSequential_ = r.rng.chance(40); lives<BP>(r, m, "bp", p, {true, false, false}); });
   life(d, "trbp" + t, 25, c, op, [](Rec& r, const TModel& m) { typename TR::Parameter p; p.maximumNumberOfSteps_ = 1 + r.rng.below(6); if(r.rng.chance(30)) p.bound_ = 0.1; p.inferSequential_ = r.rng.chance(40); lives<TR>(r, m, "trbp", p, {true, false, false}); });
   life(d, "gremlin" + t, 12, c, op, [](Rec& r, const TModel& m) { lives0<GreedyGremlin<GM, ACC> >(r, m, "gremlin", {true, false, true}); });
}
void part(tr::Driver& d) {
   local<GmA, Min>(d, "-a", base(3, 1, 4), "add"); GenCfg c = base(3, 1, 4); c.lo = 1; c.hi = 4; local<GmP, Maximizer>(d, "-p", c, "mul");
   typedef Cut<GmM, Min, PUSH_RELABEL>::type GC; typedef AlphaExpansion<GmM, GC> AE; typedef AlphaBetaSwap<GmM, GC> AB;
   lifeG(d, "gc", 20, [](tr::Rng& g) { TModel m; do m = pairModel(g, "add", 0, 6, 2); while(std::any_of(m.sp.begin(), m.sp.end(), [](size_t x) { return x != 2; })); return m; }, [](Rec& r, const TModel& m) { lives0<GC>(r, m, "graphcut", {false, false, false}); });
   lifeG(d, "ae", 30, [](tr::Rng& g) { return pairModel(g, "add", 0); }, [](Rec& r, const TModel& m) { AE::Parameter p; tr::Rng& g = r.rng; p.maxNumberOfSteps_ = g.chance(30) ? 1 + g.below(3) : 1000; size_t n = 0; for(size_t x : m.sp) n = std::max(n, x); Vs s;
      if(g.chance(25)) { p.labelInitialType_ = AE::Parameter::EXPLICIT_LABEL; s = someLabeling(g, m.sp); p.label_ = lab<size_t>(s); } else if(g.chance(25)) { p.labelInitialType_ = AE::Parameter::LOCALOPT_LABEL; } else if(g.chance(25)) { p.labelInitialType_ = AE::Parameter::RANDOM_LABEL; p.randSeedLabel_ = static_cast<unsigned>(g.below(1000)); }
      if(g.chance(30)) { p.orderType_ = AE::Parameter::EXPLICIT_ORDER; p.labelOrder_ = lab<size_t>(somePick(g, n, n)); } else if(g.chance(30)) { p.orderType_ = AE::Parameter::RANDOM_ORDER; p.randSeedOrder_ = static_cast<unsigned>(g.below(1000)); }
      lives<AE>(r, m, "alphaexpansion", p, {true, true, false}, 1, s); });
   lifeG(d, "ab", 25, [](tr::Rng& g) { return pairModel(g, "add", 1); }, [](Rec& r, const TModel& m) { AB::Parameter p; if(r.rng.chance(30)) p.maxNumberOfIterations_ = 1 + r.rng.below(3); lives<AB>(r, m, "alphabetaswap", p, {true, true, false}); });
}
#elif PART == 1
void part(tr::Driver& d) {
   typedef ReducedInferenceHelper<GmM>::InfGmType SG; typedef ReducedInference<GmM, Min, AStar<SG, Min> > RI; typedef AlphaExpansionFusion<GmM, Min> AEF;
   life(d, "mqpbo", 25, base(2, 2, 4), "add", [](Rec& r, const TModel& m) { typedef MQPBO<GmA, Min> I; I::Parameter p; p.useKovtunsMethod_ = false; p.strongPersistency_ = true; p.rounds_ = 1; lives<I>(r, m, "mqpbo", p, {false, false, false}); });
   life(d, "hqpbo", 25, base(3, 2, 2), "add", [](Rec& r, const TModel& m) { lives0<HQPBO<GmA, Min> >(r, m, "hqpbo", {false, r.rng.chance(60), false}); });
   life(d, "reduced", 25, base(3, 2, 2), "add", [](Rec& r, const TModel& m) { lives<RI>(r, m, "reduced", RI::Parameter(r.rng.chance(50), r.rng.chance(50), r.rng.chance(50)), {false, false, false}); });
   lifeG(d, "aefusion", 25, [](tr::Rng& g) { return pairModel(g, "add", 2); }, [](Rec& r, const TModel& m) { tr::Rng& g = r.rng; AEF::Parameter p; p.maxNumberOfSteps_ = g.chance(30) ? 1 + g.below(3) : 1000; Vs s; if(g.chance(25)) { p.labelInitialType_ = AEF::Parameter::EXPLICIT_LABEL; s = someLabeling(g, m.sp); p.label_ = lab<size_t>(s); } lives<AEF>(r, m, "expansionfusion", p, {true, true, false}, 1, s); });
   for(size_t i = 0; i < d.n(25, 300); ++i) d.add("partition-" + std::to_string(i), [](Rec& r) { tr::Rng& g = r.rng; TModel m; m.op = "add"; size_t n = 2 + g.below(3); m.sp.assign(n, n); for(size_t a = 0; a < n; ++a) for(size_t b = a + 1; b < n; ++b) if(g.chance(75)) { TFac f; f.v = {a, b}; f.f.s = m.shapeOf(f.v); f.f.k = "potts"; f.f.p = {0, g.range(-5, 5)}; m.fa.push_back(f); } lives0<PartitionMove<GmM, Min> >(r, m, "partitionmove", {false, false, false}); });
}
#else
static TModel unaryPairs(tr::Rng& g) {
   GenCfg c = exCfg(); TModel m; m.op = "add"; size_t n = 1 + g.below(5); m.sp.resize(n); for(size_t& x : m.sp) x = 1 + g.below(3); for(size_t i = 0; i < n; ++i) addFac(g, m, c, Vs{i}); for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(g.chance(55)) addFac(g, m, c, Vs{i, j}); return m;
}
void part(tr::Driver& d) {
   lifeG(d, "trws", 40, unaryPairs, [](Rec& r, const TModel& m) { typedef TRWSi<GmA, Min> I; I::Parameter p(1 + r.rng.below(8)); lives<I>(r, m, "trws", p, {false, false, true}); });
   lifeG(d, "adsal", 30, unaryPairs, [](Rec& r, const TModel& m) { typedef ADSal<GmA, Min> I; I::Parameter p(1 + r.rng.below(6), r.rng.chance(50) ? 1e-3 : 0.5); p.numberOfInternalIterations() = 1 + r.rng.below(4); lives<I>(r, m, "adsal", p, {false, false, true}); });
   lifeG(d, "nesterov", 30, unaryPairs, [](Rec& r, const TModel& m) { typedef NesterovAcceleratedGradient<GmA, Min> I; I::Parameter p(1 + r.rng.below(6), r.rng.chance(50) ? 1e-3 : 0.5); p.numberOfInternalIterations() = 1 + r.rng.below(4); lives<I>(r, m, "nesterov", p, {false, false, true}); });
   typedef DDDualVariableBlock<marray::Marray<double> > B; typedef DualDecompositionBase<GmA, B>::SubGmType S; typedef DualDecompositionSubGradient<GmA, Bruteforce<S, Min>, B> DD;
   GenCfg c = base(2, 1, 3); c.maxV = 4; c.maxStates = 60;
   life(d, "dd", 30, c, "add", [](Rec& r, const TModel& m) { DD::Parameter p; p.decompositionId_ = DD::Parameter::BLOCKS; p.numberOfBlocks_ = 1 + r.rng.below(std::min<size_t>(m.sp.size(), 3)); p.maximalNumberOfIterations_ = 1 + r.rng.below(8); lives<DD>(r, m, "dd", p, {false, false, true}); });
}
#endif
DRIVER_MAIN(part)
