// Tree solvers: dynamic programming, belief propagation, tree-reweighted BP on
// acyclic models; marginals of I03 use the same file with PART >= 4.
#include "solver.hxx"
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/messagepassing/messagepassing_bp.hxx>
#include <opengm/inference/messagepassing/messagepassing_trbp.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

static GenCfg forest(tr::Rng& g, GenCfg c, bool pairwise) {
   c.maxV = std::min<size_t>(c.maxV + 1, 7); c.maxStates = 300; c.maxL = 4; c.dup = false; c.maxOrder = pairwise ? 2 : 3;
   static const std::vector<std::string> st = {"tree", "tree", "tree", "chain", "unary", "discon", "pairtree"}; c.structure = g.pick(st); if(pairwise && c.structure == "tree") c.structure = "pairtree"; return c;
}
template<class INF> void mp(Rec& r, const TModel& m, const char* name) {
   typedef typename INF::GraphicalModelType GM; GM gm = realise<GM>(m); tr::Rng& g = r.rng; typename INF::Parameter p; Pars ps;
   p.maximumNumberOfSteps_ = 2 * m.sp.size() + 2 * m.fa.size() + 4; p.inferSequential_ = g.chance(50);
   size_t a = g.below(3); p.isAcyclic_ = a == 0 ? Tribool(Tribool::True) : (a == 1 ? Tribool(Tribool::Maybe) : Tribool(Tribool::False));
   size_t z = g.below(3); p.useNormalization_ = z == 0 ? Tribool(Tribool::True) : (z == 1 ? Tribool(Tribool::Maybe) : Tribool(Tribool::False));
   if(g.chance(40)) { Vs o = somePick(g, m.sp.size(), m.sp.size()); p.sortedNodeList_.assign(o.begin(), o.end()); }
   if(g.chance(25)) p.bound_ = 1e-9;
   ps.push_back(std::make_pair("seq", p.inferSequential_)); ps.push_back(std::make_pair("ac", static_cast<long>(a))); ps.push_back(std::make_pair("norm", static_cast<long>(z)));
   INF inf(gm, p); newEv(r, name, ps, Vs(), inf, false); RunOpt o; o.maxEvents = 4; o.labels = g.chance(50); if(g.chance(15)) o.stopAt = 1 + static_cast<long>(g.below(3)); bool vis = g.chance(50); if(!vis) o.stopAt = -1;
   runEv(r, inf, o, vis);
   if(g.chance(35)) { if(g.chance(50)) inf.reset(); RunOpt o2; o2.maxEvents = 2; runEv(r, inf, o2, g.chance(40)); }
   checkModelEv(r, gm);
}
template<class GM, class ACC> void dp(Rec& r, const TModel& m) {
   typedef DynamicProgramming<GM, ACC> INF; GM gm = realise<GM>(m); tr::Rng& g = r.rng; typename INF::Parameter p; Pars ps;
   if(g.chance(60)) { Vs o = somePick(g, m.sp.size(), 1 + g.below(m.sp.size())); p.roots_.assign(o.begin(), o.end()); }
   INF inf(gm, p); newEv(r, "dynprog", ps, Vs(), inf, true); RunOpt o; o.maxEvents = 4;
   bool high = false; for(auto& f : m.fa) if(f.v.size() > 2) high = true;
   if(high) { bool refused = false; try { inf.infer(); } catch(const std::runtime_error&) { refused = true; } r.ev(J("refuse").t("ok", refused)); return; }
   runEv(r, inf, o, g.chance(50)); { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, 2))); }
   if(!p.roots_.empty()) {
      std::vector<double> v; std::vector<std::vector<typename GM::LabelType> > s; std::vector<typename GM::IndexType> n; inf.getNodeInfo(p.roots_[0], v, s, n);
      r.ev(J("nodeinfo").i("r", tr::idx(p.roots_[0])).a("vals", v).aa("sub", s).a("nodes", n));
   }
   if(g.chance(35)) runEv(r, inf, o, g.chance(40));
   checkModelEv(r, gm);
}
template<class GM, class F> void reg(tr::Driver& d, const std::string& name, size_t q, size_t t, bool pairwise, F f) {
   for(size_t i = 0; i < d.n(q, t); ++i) d.add(name + "-" + std::to_string(i), [f, pairwise](Rec& r) { TModel m = genModel(r.rng, forest(r.rng, cfgFor<GM>(), pairwise && !r.rng.chance(6)), OpStr<typename GM::OperatorType>::n()); modelEv(r, m); f(r, m); });
}
#define TREES(GMT, ACC, tag) \
   typedef MessagePassing<GMT, ACC, BeliefPropagationUpdateRules<GMT, ACC>, MaxDistance> BP; typedef MessagePassing<GMT, ACC, TrbpUpdateRules<GMT, ACC>, MaxDistance> TR; \
   reg<GMT>(d, std::string("dp-") + tag, 90, 1200, true, dp<GMT, ACC>); \
   reg<GMT>(d, std::string("bp-") + tag, 110, 1500, false, [](Rec& r, const TModel& m) { mp<BP>(r, m, "bp"); }); \
   reg<GMT>(d, std::string("trbp-") + tag, 90, 1200, false, [](Rec& r, const TModel& m) { mp<TR>(r, m, "trbp"); })
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM;
#if PART == 0
   TREES(MA::Ex, Minimizer, "add-min");
#elif PART == 1
   TREES(MA::Mix, Maximizer, "addmix-max");
#elif PART == 2
   TREES(MM::Ex, Minimizer, "mul-min");
#else
   TREES(MM::Mix, Maximizer, "mulmix-max");
#endif
}
DRIVER_MAIN(part)
