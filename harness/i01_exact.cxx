// Exhaustive and best-first search: optimality, n-best lists, visitor protocol.
#include "solver.hxx"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

static GenCfg small(GenCfg c) { c.maxV = std::min<size_t>(c.maxV, 6); c.maxStates = 120; c.maxL = 4; return c; }

template<class GM, class ACC> void brute(Rec& r, const TModel& m) {
   typedef Bruteforce<GM, ACC> INF; GM gm = realise<GM>(m); tr::Rng& g = r.rng;
   std::unique_ptr<INF> inf; if(g.chance(50)) inf.reset(new INF(gm)); else inf.reset(new INF(gm, typename INF::Parameter()));
   newEv(r, "bruteforce", Pars(), Vs(), *inf, false); RunOpt o; o.maxEvents = 12;
   if(g.chance(25)) o.stopAt = 1 + static_cast<long>(g.below(6));
   runEv(r, *inf, o, g.chance(70)); { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", inf->arg(x, 2))); }
   if(g.chance(50)) { if(g.chance(50)) inf->reset(); runEv(r, *inf, RunOpt(o).stopAt < 0 ? o : RunOpt(), false); }
   checkModelEv(r, gm);
}
template<class GM, class ACC> void astar(Rec& r, const TModel& m) {
   typedef AStar<GM, ACC> INF; GM gm = realise<GM>(m); tr::Rng& g = r.rng; typename INF::Parameter p;
   size_t k = 1 + (g.chance(60) ? g.below(6) : 0); if(g.chance(10)) k = m.states() + g.below(3); p.numberOfOpt_ = k;
  
   size_t h = g.below(3); p.heuristic_ = h; Pars ps; ps.push_back(std::make_pair("k", static_cast<long>(k))); ps.push_back(std::make_pair("heur", static_cast<long>(h)));
   if(g.chance(40)) { Vs o = somePick(g, m.sp.size(), m.sp.size()); p.nodeOrder_.assign(o.begin(), o.end()); }
   INF inf(gm, p); newEv(r, "astar", ps, Vs(), inf, false); RunOpt o; o.maxEvents = 10; if(g.chance(15)) o.stopAt = 1 + static_cast<long>(g.below(6)); bool vis = g.chance(60); if(!vis) o.stopAt = -1;
   r.ev(J("run").i("vis", vis).i("stopAt", o.stopAt)); long st; if(vis) { o.labels = false; RecVisitor<INF> v(r, o); st = inf.infer(v); } else st = inf.infer(); r.ev(J("ret").i("st", st)); resultEv(r, inf);
   if(o.stopAt < 0) {
      std::vector<std::vector<typename GM::LabelType> > all, xs; inf.args(all); std::vector<Vs> a, b; for(auto& q : all) a.push_back(toVs(q)); for(size_t i = 0; i < all.size(); ++i) { std::vector<typename GM::LabelType> x; if(inf.arg(x, i + 1) == NORMAL) b.push_back(toVs(x)); }
      r.ev(J("kbest").i("k", static_cast<long>(k)).aa("xs", b).aa("all", a)); std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", inf.arg(x, all.size() + 1)));
   }
   if(g.chance(30)) { if(g.chance(50)) inf.reset(); RunOpt o2; o2.labels = false; o2.maxEvents = 3; runEv(r, inf, o2, g.chance(50)); }
   checkModelEv(r, gm);
}
template<class GM, class ACC, class F> void reg(tr::Driver& d, const std::string& name, size_t q, size_t t, F f) {
   for(size_t i = 0; i < d.n(q, t); ++i) d.add(name + "-" + std::to_string(i), [f](Rec& r) { TModel m = genModel(r.rng, small(cfgFor<GM>()), OpStr<typename GM::OperatorType>::n()); modelEv(r, m); f(r, m); });
}
#define BOTH(GMT, ACC, tag) reg<GMT, ACC>(d, std::string("brute-") + tag, 45, 600, brute<GMT, ACC>); reg<GMT, ACC>(d, std::string("astar-") + tag, 150, 1800, astar<GMT, ACC>)
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM; typedef Models<Adder, double, unsigned, unsigned char> MU;
#if PART == 0
   BOTH(MA::Ex, Minimizer, "add-min");
#elif PART == 1
   BOTH(MA::Mix, Maximizer, "addmix-max");
#elif PART == 2
   BOTH(MM::Ex, Minimizer, "mul-min");
#else
   BOTH(MM::Mix, Maximizer, "mulmix-max"); reg<MU::Mix, Minimizer>(d, "brute-u8", 10, 100, brute<MU::Mix, Minimizer>);
#endif
}
DRIVER_MAIN(part)
