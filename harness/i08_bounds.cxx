// Solvers with dual bounds: dual decomposition (subgradient), TRW-S, ADSal and
// Nesterov smoothing; PART 3: bounds shown by the other solvers.
#define WITH_CUT
#include "local.hxx"
#if PART <= 2
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
#endif
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/dualdecomposition/dddualvariableblock.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>

#include "unarypair.hxx"
// fully labelled run; a run may be stopped, repeated
template<class INF> void dual(Rec& r, INF& inf, int stopPct) {
   tr::Rng& g = r.rng; RunOpt o = anyRun(g, stopPct); o.maxEvents = 100; runEv(r, inf, o, g.chance(75)); if(g.chance(30)) { J j("again"); argOf(inf, j); j.n("v", inf.value()); r.ev(j); }
}
#if PART <= 2
template<class INF, class F> bool refusal(Rec& r, const char* name, int dec, F make) {
   bool ok = true; INF* q = 0; try { q = make(); } catch(const std::exception&) { ok = false; } r.ev(J("accept").s("solver", name).i("decomp", dec).t("ok", ok)); delete q; return ok;
}
template<class GM, class ACC> void trws(Rec& r, const TModel& m) {
   typedef TRWSi<GM, ACC> INF; typedef typename INF::Parameter P; typedef typename P::Storage S; GM gm = realise<GM>(m); tr::Rng& g = r.rng; int dec = static_cast<int>(g.below(3));
   bool lg = g.chance(40); P p(lg ? 200 : 1 + g.below(12), dec == 0 ? S::GENERALSTRUCTURE : (dec == 1 ? S::GRIDSTRUCTURE : S::EDGESTRUCTURE), lg ? 1e-7 : (g.chance(50) ? 1e-7 : 0.5 + static_cast<double>(g.below(3))), lg || g.chance(80));
   if(!lg && g.chance(30)) p.minRelativeDualImprovement() = 0.01; p.fastComputations() = g.chance(60); p.canonicalNormalization() = g.chance(40); if(!lg && g.chance(30)) p.setTreeAgreeMaxStableIter(1 + g.below(4));
   if(!refusal<INF>(r, "trws", dec, [&]() { return new INF(gm, p); })) { checkModelEv(r, gm); return; }
   Pars ps; add(ps, "long", lg && p.isAbsolutePrecision() ? 1 : 0); add(ps, "dec", dec);
   { INF inf(gm, p); newEv(r, "trws", ps, Vs(), inf); dual(r, inf, 20);
     if(g.chance(25)) { std::vector<double> dd; inf.getDDVector(&dd); P q(p); q.initPoint_ = dd; if(!dd.empty()) { INF again(gm, q); newEv(r, "trws", ps, Vs(), again); dual(r, again, 20); } }
     std::vector<bool> ag; std::vector<typename GM::LabelType> l; inf.getTreeAgreement(ag, &l); std::vector<int> ai(ag.begin(), ag.end()); r.ev(J("agree").a("ag", ai).a("l", toVs(l))); }
   checkModelEv(r, gm);
}
template<class INF> void smooth(Rec& r, const TModel& m, const char* name) {
   typedef typename INF::GraphicalModelType GM; typedef typename INF::Parameter P; typedef typename P::Storage S; typedef typename P::SmoothingParametersType SP; GM gm = realise<GM>(m); tr::Rng& g = r.rng; int dec = static_cast<int>(g.below(3));
   bool lg = g.chance(30); P p(lg ? 100 : 1 + g.below(10), lg || g.chance(50) ? 1e-3 : 0.5); p.decompositionType() = dec == 0 ? S::GENERALSTRUCTURE : (dec == 1 ? S::GRIDSTRUCTURE : S::EDGESTRUCTURE);
   p.numberOfInternalIterations() = 1 + g.below(4); size_t st = g.below(5); 
   p.smoothingStrategy() = st == 0 ? SP::ADAPTIVE_DIMINISHING : (st == 1 ? SP::WC_DIMINISHING : (st == 2 ? SP::ADAPTIVE_PRECISIONORIENTED : (st == 3 ? SP::WC_PRECISIONORIENTED : SP::FIXED)));
   if(st == 4 || (st != 3 && g.chance(20))) p.setStartSmoothingValue(0.125 * static_cast<double>(1 + g.below(8))); 
   if(g.chance(40)) p.smoothingGapRatio() = 2; p.setFastComputations(g.chance(60)); p.setCanonicalNormalization(g.chance(60)); p.lazyLPPrimalBoundComputation() = g.chance(60); if(g.chance(50)) p.maxNumberOfPresolveIterations() = 1 + g.below(5);
   if(g.chance(30)) p.maxPrimalBoundIterationNumber() = 10;
   if(!refusal<INF>(r, name, dec, [&]() { return new INF(gm, p); })) { checkModelEv(r, gm); return; }
   Pars ps; add(ps, "long", lg && st == 0 ? 1 : 0); add(ps, "dec", dec); add(ps, "strategy", static_cast<long>(st)); add(ps, "mono", 0);
   { INF inf(gm, p); newEv(r, name, ps, Vs(), inf); dual(r, inf, 25); }
   checkModelEv(r, gm);
}
#endif
#if PART == 3
template<class GM, class ACC, class BLOCK, class SUB> void dd(Rec& r, const TModel& m) {
   typedef DualDecompositionSubGradient<GM, SUB, BLOCK> INF; typedef typename INF::Parameter P; GM gm = realise<GM>(m); tr::Rng& g = r.rng; P p; Pars ps; int dec = static_cast<int>(g.below(6)); size_t n = m.sp.size();
   static const typename DualDecompositionBaseParameter::DecompositionId ids[] = {P::TREE, P::SPANNINGTREES, P::BLOCKS, P::KFANS, P::MANUAL, P::MANUALVARCLOSE};
   bool treeSub = std::is_same<SUB, DynamicProgramming<typename SUB::GraphicalModelType, ACC> >::value; if(treeSub) dec = static_cast<int>(g.below(2));
   // k-fans are for factors of at most two variables, and a decomposition by factors covers only variables with factors
   size_t hi = 0; std::set<size_t> cov; for(const TFac& f : m.fa) { hi = std::max(hi, f.v.size()); cov.insert(f.v.begin(), f.v.end()); } if((dec == 3 && hi > 2) || (dec == 4 && cov.size() < n)) dec = 2;
   // a tree decomposition copies variables: not for enumeration if there would be many
   double copies = 1; for(const TFac& f : m.fa) for(size_t v : f.v) copies *= static_cast<double>(m.sp[v]); if(!treeSub && dec < 2 && copies > 5000) dec = 2;
   p.decompositionId_ = ids[dec]; p.maximalNumberOfIterations_ = 1 + g.below(12); if(g.chance(10)) p.maximalNumberOfIterations_ = 60;
   if(dec == 2) p.numberOfBlocks_ = 1 + g.below(std::min<size_t>(n, 3)); if(dec == 3) p.k_ = 1 + g.below(3);
   if(dec == 4) { size_t k = 1 + g.below(3); p.subFactors_.resize(k); for(size_t f = 0; f < m.fa.size(); ++f) { bool put = false; for(size_t s = 0; s < k; ++s) if(g.chance(50)) { p.subFactors_[s].push_back(f); put = true; } if(!put) p.subFactors_[g.below(k)].push_back(f); } }
   if(dec == 5) { size_t k = 1 + g.below(3); p.subVariables_.resize(k); for(size_t v = 0; v < n; ++v) { bool put = false; for(size_t s = 0; s < k; ++s) if(g.chance(45)) { p.subVariables_[s].insert(v); put = true; } if(!put) p.subVariables_[g.below(k)].insert(v); } }
   size_t s = g.below(5); if(s == 0) p.useAdaptiveStepsize_ = true; else if(s == 1) p.useProjectedAdaptiveStepsize_ = true; else if(s == 2) p.stepsizePrimalDualGapStride_ = true; else if(s == 3) p.stepsizeNormalizedSubgradient_ = true;
   if(g.chance(30)) p.stepsizeStride_ = 0.5; if(g.chance(30)) p.stepsizeScale_ = 0.5; p.fillSubLabelings_ = g.chance(50); if(g.chance(30)) p.minimalAbsAccuracy_ = 0.25 * static_cast<double>(g.below(5)); if(g.chance(20)) p.minimalRelAccuracy_ = 0.1;
   add(ps, "tree", dec < 2 ? 1 : 0); add(ps, "iters", static_cast<long>(p.maximalNumberOfIterations_)); add(ps, "dec", dec); add(ps, "step", static_cast<long>(s));
   INF inf(gm, p); newEv(r, "dd", ps, Vs(), inf, false); dual(r, inf, 20); { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); } checkModelEv(r, gm);
}
template<class GM, class ACC> void ddAll(tr::Driver& d, const std::string& tag, bool pw) {
   typedef DDDualVariableBlock<marray::Marray<double> > B1; typedef DDDualVariableBlock<marray::View<double, false> > B2; typedef DDDualVariableBlock2<marray::View<double, false> > B3;
   typedef typename DualDecompositionBase<GM, B1>::SubGmType S1; typedef typename DualDecompositionBase<GM, B2>::SubGmType S2; typedef typename DualDecompositionBase<GM, B3>::SubGmType S3;
   GenCfg c = cfgFor<GM>(); c.maxV = 5; c.maxStates = 128; c.consts = true;
   GenCfg cp = c; cp.maxOrder = 2; GenCfg ct = cp; ct.structure = "pairtree"; ct.dup = false; (void)pw;
   regModel<GM>(d, "dd-dp-" + tag, 30, 600, cp, dd<GM, ACC, B1, DynamicProgramming<S1, ACC> >); regModel<GM>(d, "dd-dptree-" + tag, 30, 600, ct, dd<GM, ACC, B2, DynamicProgramming<S2, ACC> >);
   regModel<GM>(d, "dd-bf-" + tag, 40, 900, c, dd<GM, ACC, B2, Bruteforce<S2, ACC> >); regModel<GM>(d, "dd-bf3-" + tag, 30, 600, c, dd<GM, ACC, B3, Bruteforce<S3, ACC> >); regModel<GM>(d, "dd-astar-" + tag, 20, 300, c, dd<GM, ACC, B1, AStar<S1, ACC> >);
}
// everything else that has a bound(): never beyond the optimum, at any visit
template<class GM, class ACC> void others(tr::Driver& d, const std::string& tag) {
   GenCfg c = cfgFor<GM>(); c.maxV = 5; c.maxStates = 128;
   regModel<GM>(d, "icm-" + tag, 10, 200, c, [](Rec& r, const TModel& m) { icm<GM, ACC>(r, m); }); regModel<GM>(d, "lf-" + tag, 10, 200, c, [](Rec& r, const TModel& m) { lf<GM, ACC>(r, m); });
   regModel<GM>(d, "astar-" + tag, 20, 400, c, [](Rec& r, const TModel& m) { typedef AStar<GM, ACC> INF; GM gm = realise<GM>(m); INF inf(gm); newEv(r, "astar", Pars(), Vs(), inf, false); RunOpt o; o.labels = false; runEv(r, inf, o, r.rng.chance(70)); checkModelEv(r, gm); });
   regModel<GM>(d, "bf-" + tag, 10, 200, c, [](Rec& r, const TModel& m) { typedef Bruteforce<GM, ACC> INF; GM gm = realise<GM>(m); INF inf(gm); newEv(r, "bruteforce", Pars(), Vs(), inf, false); RunOpt o; o.labels = false; runEv(r, inf, o, r.rng.chance(70)); checkModelEv(r, gm); });
}
#endif
template<class F> void regUP(tr::Driver& d, const std::string& name, size_t q, size_t t, GenCfg c, F f) {
   regGen(d, name, q, t, [c](tr::Rng& g) { static const int ks[] = {0, 0, 1, 1, 2, 2, 3}; return unaryPair(g, c, ks[g.below(7)]); }, f);
}
void part(tr::Driver& d) {
   typedef Models<Adder> M; GenCfg ex = cfgFor<M::Ex>(), mix = cfgFor<M::Mix>(); (void)ex; (void)mix;
#if PART == 0
   regUP(d, "trws-min", 170, 3000, ex, trws<M::Ex, Minimizer>); regUP(d, "trwsmix-min", 60, 1500, mix, trws<M::Mix, Minimizer>); regUP(d, "trws-max", 100, 2000, ex, trws<M::Ex, Maximizer>);
#elif PART == 1
   regUP(d, "adsal-min", 110, 2000, ex, [](Rec& r, const TModel& m) { smooth<ADSal<M::Ex, Minimizer> >(r, m, "adsal"); });
   regUP(d, "adsal-max", 60, 1200, ex, [](Rec& r, const TModel& m) { smooth<ADSal<M::Ex, Maximizer> >(r, m, "adsal"); });
#elif PART == 2
   regUP(d, "nest-min", 110, 2000, ex, [](Rec& r, const TModel& m) { smooth<NesterovAcceleratedGradient<M::Ex, Minimizer> >(r, m, "nesterov"); });
   regUP(d, "nest-max", 60, 1200, ex, [](Rec& r, const TModel& m) { smooth<NesterovAcceleratedGradient<M::Ex, Maximizer> >(r, m, "nesterov"); });
#else
   ddAll<M::Ex, Minimizer>(d, "min", true); ddAll<M::Ex, Maximizer>(d, "max", true); others<M::Mix, Minimizer>(d, "min"); others<M::Ex, Maximizer>(d, "max");
#endif
}
DRIVER_MAIN(part)
