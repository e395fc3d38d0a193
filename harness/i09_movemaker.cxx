// The move maker: TLC-generated operation histories and random ones.
#include "solver.hxx"
#include "gen.hxx"
#include <opengm/inference/movemaker.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
using namespace opengm; using tr::Rec; using tr::J;
template<class GM, class ACC> struct Play {
   typedef Movemaker<GM> MM; typedef typename GM::LabelType L; typedef typename GM::IndexType I; Rec& r; const TModel& m; GM gm; std::unique_ptr<MM> mm;
   Play(Rec& rr, const TModel& t) : r(rr), m(t), gm(realise<GM>(t)) {
      Vs y(m.sp.size(), 0); if(r.rng.chance(50)) { y = someLabeling(r.rng, m.sp); std::vector<L> z(y.begin(), y.end()); mm.reset(new MM(gm, z.begin())); } else mm.reset(new MM(gm));
      J j("new"); j.a("y", y); rep(j);
   }
   void rep(J& j) { Vs x(mm->stateBegin(), mm->stateEnd()); for(size_t i = 0; i < x.size(); ++i) if(mm->state(i) != x[i]) x[i] = 999; j.s("acc", AccStr<ACC>::n()).a("x", x).n("v", mm->value()); r.ev(j); }
   void op(long c, const Vs& sv, const Vs& yv) {
      std::vector<I> s(sv.begin(), sv.end()); std::vector<L> y(yv.begin(), yv.end());
      if(c == 1) { mm->initialize(y.begin()); J j("init"); j.a("y", yv); rep(j); }
      else if(c == 2) { mm->reset(); J j("reset"); rep(j); }
      else if(c == 3) { double v = mm->valueAfterMove(s.begin(), s.end(), y.begin()); J j("after"); j.a("s", sv).a("y", yv).n("r", v); rep(j); }
      else if(c == 4) { double v = mm->move(s.begin(), s.end(), y.begin()); J j("move"); j.a("s", sv).a("y", yv).n("r", v); rep(j); }
      else if(c == 5) { double v = mm->template moveOptimally<ACC>(s.begin(), s.end()); J j("opt"); j.a("s", sv).n("r", v); rep(j); }
      else if(c == 6) { double v = mm->template moveOptimallyWithAllLabelsChanging<ACC>(s.begin(), s.end()); J j("allchg"); j.a("s", sv).n("r", v); rep(j); }
      else if(c == 7) {
         typedef typename MM::SubGmType SG; std::vector<L> p;
         if(r.rng.chance(50)) { typedef Bruteforce<SG, ACC> BF; typename BF::Parameter par; mm->template proposeMoveAccordingToInference<BF, typename BF::Parameter, typename std::vector<I>::iterator, typename std::vector<L>::iterator>(par, s.begin(), s.end(), p); }
         else { typedef AStar<SG, ACC> AS; typename AS::Parameter par; par.heuristic_ = par.STANDARDHEURISTIC; mm->template proposeMoveAccordingToInference<AS, typename AS::Parameter, typename std::vector<I>::iterator, typename std::vector<L>::iterator>(par, s.begin(), s.end(), p); }
         J j("propose"); j.a("s", sv).a("p", p); rep(j);
      }
   }
};
template<class GM> TModel modelFor(tr::Rng& g, const Shape* sp) {
   GenCfg c = cfgFor<GM>(); c.maxStates = 150; c.maxL = 4; bool mul = OpStr<typename GM::OperatorType>::n() == std::string("mul"); if(mul) { c.lo = g.chance(50) ? 0 : 1; c.hi = 3; }
   TModel m = genModel(g, c, OpStr<typename GM::OperatorType>::n()); if(!sp) return m;
   m.sp = *sp; m.fa.clear(); size_t n = sp->size(), k = 2 + g.below(mul ? 4 : 6); for(size_t i = 0; i < k; ++i) addFac(g, m, c, somePick(g, n, g.chance(8) ? 0 : 1 + g.below(3))); return m;
}
template<class GM, class ACC> void regs(tr::Driver& d, const std::string& tag, size_t q, size_t t) {
   static const std::vector<Behaviour> bs = readBehaviours("movemaker.gen");
   for(size_t b = 0; b < bs.size(); ++b) d.add("gen-" + tag + "-" + std::to_string(b), [b](Rec& r) {
      Shape sp{2, 3, 2, 4}; TModel m = modelFor<GM>(r.rng, &sp); modelEv(r, m); Play<GM, ACC> p(r, m);
      for(const Op& o : bs[b]) { if(o.size() < 2) continue; size_t k = static_cast<size_t>(o[1]); Vs s(o.begin() + 2, o.begin() + 2 + k), y(o.begin() + 2 + k, o.end()); p.op(o[0], s, y); }
   });
   for(size_t i = 0; i < d.n(q, t); ++i) d.add("rnd-" + tag + "-" + std::to_string(i), [](Rec& r) {
      tr::Rng& g = r.rng; TModel m = modelFor<GM>(g, 0); modelEv(r, m); Play<GM, ACC> p(r, m); size_t k = 6 + g.below(14), n = m.sp.size();
      for(size_t i = 0; i < k; ++i) { long c = 1 + static_cast<long>(g.below(7)); Vs s = somePick(g, n, 1 + g.below(std::min<size_t>(n, 4))); if(c == 7) std::sort(s.begin(), s.end()); Vs y; for(size_t v : s) y.push_back(g.below(m.sp[v])); if(c == 1) y = someLabeling(g, m.sp); p.op(c, s, y); }
   });
}
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM; typedef Models<Adder, double, unsigned, unsigned char> MU;
#if PART == 0
   regs<MA::Mix, Minimizer>(d, "add-min", 120, 1500);
#elif PART == 1
   regs<MM::Ex, Maximizer>(d, "mul-max", 80, 1000);
#elif PART == 2
   regs<MM::Ex, Minimizer>(d, "mul-min", 60, 800);
#else
   regs<MU::Mix, Maximizer>(d, "u8-max", 80, 1000);
#endif
}
DRIVER_MAIN(part)
