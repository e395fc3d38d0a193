// Solvers that reduce a model: MQPBO, HQPBO, ReducedInference, DMC and the
// optimiser of sub-models.  QPBO itself is the stand-in of this framework.
#define WITH_QPBO
#include <QPBO.h>
#include <memory>
#include "local.hxx"
#include <opengm/inference/mqpbo.hxx>
#include <opengm/inference/hqpbo.hxx>
#include <opengm/inference/reducedinference.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dmc.hxx>
#include <opengm/inference/auxiliary/submodel/submodel_builder.hxx>
#ifndef PART
#define PART 0
#endif
typedef Models<Adder, double, size_t, size_t>::Ex GmA; typedef Models<Adder, double, size_t, size_t>::Mix GmM; typedef Models<Adder, double, unsigned, unsigned char>::Mix GmS; typedef Models<Multiplier, double, size_t, size_t>::Ex GmP;
typedef Minimizer Min; typedef Maximizer Max;

static GenCfg pw(size_t maxOrder, bool binary) { GenCfg c = exCfg(); c.maxOrder = maxOrder; c.minV = 1; c.maxV = 5; c.minL = 2; c.maxL = binary ? 2 : 4; c.maxStates = 256; return c; }
// Potts models with unaries
static TModel pottsModel(tr::Rng& g, bool uniform) {
   GenCfg c = pw(2, false); c.uniform = uniform; TModel m = genModel(g, c, "add"); long lo = g.chance(70) ? 0 : -4;
   for(TFac& f : m.fa) { f.f.s = m.shapeOf(f.v); if(f.v.size() == 1) { Fn q; randomFn(g, "explicit", f.f.s, -6, 9, q); f.f = q; } if(f.v.size() == 2) { f.f.k = "potts"; f.f.p = {g.chance(70) ? 0 : g.range(-2, 2), g.range(lo, 5)}; if(lo == 0 && f.f.p[1] < f.f.p[0]) std::swap(f.f.p[0], f.f.p[1]); } }
   if(g.chance(40) && !m.sp.empty()) { TFac f; f.v = {g.below(m.sp.size())}; f.f.s = m.shapeOf(f.v); Fn q; randomFn(g, "explicit", f.f.s, -20, 20, q); f.f = q; m.fa.push_back(f); }
   return m;
}
// part 1
#if PART == 0
template<class INF> void leftEv(Rec& r, const INF& inf, const TModel& m, bool strong, bool kovtun) {
   typedef typename INF::LabelType L; J j("left"); std::vector<Vs> left; Vs opt, lb; size_t n = 0, dec = 0;
   for(size_t v = 0; v < m.sp.size(); ++v) {
      const std::vector<Tribool>& t = inf.partialOptimality(v); Vs s, yes; for(size_t l = 0; l < t.size(); ++l) { if(t[l] == Tribool::True) yes.push_back(l); if(!(t[l] == Tribool::False)) s.push_back(l); }
      if(!yes.empty()) s = yes; left.push_back(s); L l = 0; bool o = inf.partialOptimality(v, l); opt.push_back(o); lb.push_back(o ? static_cast<size_t>(l) : 0); n += t.size(); (void)dec;
   }
   std::vector<L> x; inf.arg(x); j.aa("left", left).a("opt", opt).a("lab", lb).i("strong", strong).i("kovtun", kovtun).a("x", toVs(x)).i("share", static_cast<long>(inf.optimality() * 1000 + 1e-6)); r.ev(j); (void)n;
}
template<class GM> void mqpbo(Rec& r, const TModel& m) {
   typedef MQPBO<GM, Min> INF; tr::Rng& g = r.rng; GM gm = realise<GM>(m); typename INF::Parameter p; p.useKovtunsMethod_ = g.chance(50); p.rounds_ = p.useKovtunsMethod_ && g.chance(50) ? 0 : 1 + g.below(3); p.strongPersistency_ = p.rounds_ > 1 ? true : g.chance(60);
   size_t w = g.below(3); p.permutationType_ = w == 0 ? INF::NONE : (w == 1 ? INF::RANDOM : INF::MINMARG); std::unique_ptr<INF> q; bool ok = true; try { q.reset(new INF(gm, p)); } catch(RuntimeError&) { ok = false; }
   r.ev(J("construct").s("solver", "mqpbo").s("acc", "min").t("ok", ok)); if(!ok) { checkModelEv(r, gm); return; }
   INF& inf = *q; newEv(r, "mqpbo", Pars(), Vs(), inf); bool strong = p.strongPersistency_ || p.rounds_ == 0; RunOpt o = anyRun(g, 15); runEv(r, inf, o, g.chance(70)); leftEv(r, inf, m, strong, p.useKovtunsMethod_ && o.stopAt < 0);
   if(strong && g.chance(30)) { runEv(r, inf, RunOpt(), g.chance(50)); leftEv(r, inf, m, strong, p.useKovtunsMethod_); }
   { std::vector<typename INF::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); } checkModelEv(r, gm);
}
template<class GM> void hqpbo(Rec& r, const TModel& m) {
   typedef HQPBO<GM, Min> INF; tr::Rng& g = r.rng; GM gm = realise<GM>(m); INF inf(gm); newEv(r, "hqpbo", Pars(), Vs(), inf); size_t n = 1 + g.below(3);
   for(size_t i = 0; i < n; ++i) { if(g.chance(60)) restart(r, inf, someLabeling(g, m.sp)); runEv(r, inf, RunOpt(), g.chance(60)); } checkModelEv(r, gm);
   { std::vector<typename INF::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); }
}
static void build1(tr::Driver& d) {
   regGen(d, "mq-potts", 60, 600, [](tr::Rng& g) { return pottsModel(g, g.chance(75)); }, [](Rec& r, const TModel& m) { mqpbo<GmM>(r, m); });
   regModel<GmA>(d, "mq-any", 50, 500, pw(2, false), [](Rec& r, const TModel& m) { mqpbo<GmA>(r, m); });
   regModel<GmA>(d, "mq-binary", 20, 200, pw(2, true), [](Rec& r, const TModel& m) { mqpbo<GmA>(r, m); });
   regModel<GmA>(d, "mq-order", 8, 80, pw(3, false), [](Rec& r, const TModel& m) { mqpbo<GmA>(r, m); });
   GenCfg c = pw(4, true); c.maxV = 6; regModel<GmA>(d, "hq", 60, 600, c, [](Rec& r, const TModel& m) { hqpbo<GmA>(r, m); });
   c = pw(2, true); regModel<GmM>(d, "hq-pair", 30, 300, c, [](Rec& r, const TModel& m) { hqpbo<GmM>(r, m); });
}
#endif
#if PART == 1
template<class GM, class SUB> void reduced(Rec& r, const TModel& m, bool exact) {
   typedef ReducedInference<GM, Min, SUB> INF; tr::Rng& g = r.rng; GM gm = realise<GM>(m); Pars ps; add(ps, "exact", exact); bool per = g.chance(60), ten = g.chance(50), cc = g.chance(50); add(ps, "per", per); add(ps, "ten", ten); add(ps, "cc", cc);
   typename INF::Parameter p(per, ten, cc); INF inf(gm, p); newEv(r, "reduced", ps, Vs(), inf); runEv(r, inf, anyRun(g, 15), g.chance(75)); if(g.chance(30)) runEv(r, inf, RunOpt(), g.chance(50)); checkModelEv(r, gm);
   { std::vector<typename INF::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); }
}
template<class GM> void anyReduced(Rec& r, const TModel& m) {
   typedef typename ReducedInferenceHelper<GM>::InfGmType SG;
   switch(r.rng.below(4)) { case 0: reduced<GM, AStar<SG, Min> >(r, m, true); break; case 1: reduced<GM, ICM<SG, Min> >(r, m, false); break; default: reduced<GM, Bruteforce<SG, Min> >(r, m, true); }
}
static void build2(tr::Driver& d) {
   regGen(d, "red-potts", 40, 400, [](tr::Rng& g) { return pottsModel(g, g.chance(75)); }, [](Rec& r, const TModel& m) { anyReduced<GmM>(r, m); });
   regModel<GmM>(d, "red-any", 50, 500, pw(2, false), [](Rec& r, const TModel& m) { anyReduced<GmM>(r, m); });
   GenCfg c = pw(4, true); c.maxV = 6; regModel<GmM>(d, "red-high", 40, 400, c, [](Rec& r, const TModel& m) { anyReduced<GmM>(r, m); });
   c = pw(2, true); c.structure = "tree"; c.maxV = 7; regModel<GmM>(d, "red-tree", 20, 200, c, [](Rec& r, const TModel& m) { anyReduced<GmM>(r, m); });
   c = pw(2, false); c.structure = "discon"; c.maxV = 6; regModel<GmM>(d, "red-discon", 20, 200, c, [](Rec& r, const TModel& m) { anyReduced<GmM>(r, m); });
}
#endif
#if PART == 2
// exact multicut solver for the sub-problems
template<class GM, class ACC> struct Exact : public Bruteforce<GM, ACC> {
   typedef Bruteforce<GM, ACC> Base; typedef typename Base::Parameter Parameter; template<class G2, class A2> struct rebind { typedef Exact<G2, A2> type; };
   Exact(const GM& gm, const Parameter& p = Parameter()) : Base(gm, p) {}
};
// multicut models: as many labels as variables, a Potts function on every edge
static TModel cutModel(tr::Rng& g, bool wrong) {
   TModel m; m.op = "add"; size_t n = 1 + g.below(5); m.sp.assign(n, n); bool par = g.chance(40), shifted = g.chance(25); long lo = -5, hi = g.chance(30) ? 1 : 5;
   for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(g.chance(65)) { size_t k = par ? 1 + g.below(3) : 1; for(size_t q = 0; q < k; ++q) { TFac f; f.v = {i, j}; f.f.s = m.shapeOf(f.v); f.f.k = "potts"; f.f.p = {shifted ? g.range(-2, 2) : 0, 0}; f.f.p[1] = f.f.p[0] + g.range(lo, hi); m.fa.push_back(f); } }
   if(wrong) { TFac f; f.v = {g.below(n)}; f.f.s = m.shapeOf(f.v); f.f.k = "explicit"; f.f.p.assign(n, 1); m.fa.push_back(f); }
   g.shuffle(m.fa); return m;
}
template<class GM> void dmc(Rec& r, const TModel& m) {
   typedef Exact<GM, Min> SUB; typedef DMC<GM, SUB> INF; tr::Rng& g = r.rng; GM gm = realise<GM>(m); Pars ps; long thr = g.chance(60) ? 0 : g.range(-2, 3); typename INF::Parameter p(thr == 0 && g.chance(50) ? -0.000000001 : static_cast<double>(thr)); if(p.threshold_ != thr) add(ps, "thr", -1); else add(ps, "thr", thr);
   // weights are integers: every threshold in [-1, 0) separates as -1 does
   add(ps, "exact", 1); INF inf(gm, p); newEv(r, "dmc", ps, Vs(), inf); bool vis = g.chance(70);
   bool pairs = true; for(const TFac& f : m.fa) if(f.v.size() != 2) pairs = false;
   if(!pairs) { bool ok = true; try { inf.infer(); } catch(RuntimeError&) { ok = false; } r.ev(J("refuse").t("ok", ok)); checkModelEv(r, gm); return; }
   runEv(r, inf, RunOpt(), vis); if(g.chance(30)) runEv(r, inf, RunOpt(), g.chance(50)); { std::vector<typename INF::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); } checkModelEv(r, gm);
}
template<class GM, class ACC> void submodel(Rec& r, const TModel& m, bool dp) {
   typedef SubmodelOptimizer<GM, ACC> S; typedef typename S::SubGmType SG; tr::Rng& g = r.rng; GM gm = realise<GM>(m); S s(gm); size_t N = m.sp.size(); Vs x = someLabeling(g, m.sp); for(size_t v = 0; v < N; ++v) s.setLabel(v, x[v]);
   size_t rounds = 1 + g.below(4);
   for(size_t i = 0; i < rounds; ++i) {
      size_t k = 1 + g.below(N); Vs vs = somePick(g, N, k); std::sort(vs.begin(), vs.end()); if(vs.empty()) continue; s.setVariableIndices(vs.begin(), vs.end()); std::vector<typename S::LabelType> y; bool ch;
      if(dp) ch = s.mergeFactorsAndInferDp(y);
      else if(g.chance(50)) { typedef Bruteforce<SG, ACC> I; ch = s.template inferSubmodel<I>(typename I::Parameter(), y, true, g.chance(50)); }
      else { typedef AStar<SG, ACC> I; ch = s.template inferSubmodel<I>(typename I::Parameter(), y, true, g.chance(50)); }
      s.unsetVariableIndices(); r.ev(J("sub").s("acc", AccStr<ACC>::n()).a("x0", x).a("vs", vs).a("ls", toVs(y)).i("ch", ch));
      if(g.chance(70)) for(size_t q = 0; q < vs.size(); ++q) { x[vs[q]] = y[q]; s.setLabel(vs[q], y[q]); } else { size_t v = g.below(N); x[v] = g.below(m.sp[v]); s.setLabel(v, x[v]); }
   }
   checkModelEv(r, gm);
}
static void build3(tr::Driver& d) {
   regGen(d, "dmc", 60, 600, [](tr::Rng& g) { return cutModel(g, g.chance(6)); }, [](Rec& r, const TModel& m) { dmc<GmM>(r, m); });
   GenCfg c = exCfg(); c.minV = 1; c.maxV = 5; c.maxOrder = 3; c.maxStates = 256; regModel<GmM>(d, "sub-min", 40, 400, c, [](Rec& r, const TModel& m) { submodel<GmM, Min>(r, m, false); });
   regModel<GmS>(d, "sub-max", 30, 300, c, [](Rec& r, const TModel& m) { submodel<GmS, Max>(r, m, false); });
   c.maxOrder = 2; c.structure = "tree"; c.dup = 50; regModel<GmM>(d, "sub-dp", 30, 300, c, [](Rec& r, const TModel& m) { submodel<GmM, Min>(r, m, true); });
   c.lo = 0; c.hi = 4; regModel<GmP>(d, "sub-dp-mul", 20, 200, c, [](Rec& r, const TModel& m) { submodel<GmP, Max>(r, m, true); });
}
#endif
static void build(tr::Driver& d) {
#if PART == 0
   build1(d);
#endif
#if PART == 1
   build2(d);
#endif
#if PART == 2
   build3(d);
#endif
}
DRIVER_MAIN(build)
