// Inference through linear programs (LPCplex2 / LPGurobi2 on a stand-in back
// end): models with ordinary factors, hard and soft constraints and costs.
#include "local.hxx"
#include "constr.hxx"
#include "standin/lp_standin.hxx"
typedef double T; typedef size_t I; typedef size_t L; typedef Constr<T, I, L> C; typedef DiscreteSpace<I, L> Space;
typedef GraphicalModel<T, Adder, meta::TypeListGenerator<ExplicitFunction<T, I, L>, PottsFunction<T, I, L>, C::Order, C::Limit, C::Linear, C::Cost, C::Sum>::type, Space> GM;
typedef GraphicalModel<T, Adder, ExplicitFunction<T, I, L>, Space> Plain; typedef GraphicalModel<T, Multiplier, ExplicitFunction<T, I, L>, Space> Mult;

struct Con { Vs v; std::string d; std::function<bool(const std::vector<L>&)> ok; std::function<void(GM&)> put; };
template<class F> void store(Con& c, const F& f, long yes) { std::shared_ptr<F> p(new F(f)); Vs v = c.v; c.ok = [p, v, yes](const std::vector<L>& x) { std::vector<L> y; for(size_t a : v) y.push_back(x[a]); return (*p)(y.begin()) == static_cast<T>(yes); }; c.put = [p, v](GM& gm) { gm.addFactor(gm.addFunction(*p), v.begin(), v.end()); }; }
static Con hard(tr::Rng& g, const TModel& m, long no) {
   Con c; size_t n = m.sp.size(); c.v = somePick(g, n, 1 + g.below(n)); std::sort(c.v.begin(), c.v.end()); Vs s = m.shapeOf(c.v); std::vector<L> ls(s.begin(), s.end());
   if(s.size() == 2 && g.chance(25)) { std::vector<T> o; for(size_t i = 0; i < std::max(s[0], s[1]); ++i) o.push_back(static_cast<T>(g.range(-2, 2))); c.d = J("").s("k", "order").a("s", s).a("ord", o).i("yes", 0).i("no", no).str(); store(c, C::Order(ls[0], ls[1], o, 0.0, static_cast<T>(no)), 0); }
   else if(s.size() > 1 && g.chance(30)) { long most = 1 + static_cast<long>(g.below(2)); c.d = J("").s("k", "limit").a("s", s).i("most", most).i("yes", 0).i("no", no).str(); store(c, C::Limit(ls.begin(), ls.end(), static_cast<L>(most), 0.0, static_cast<T>(no)), 0); }
   else { std::vector<C::LC> cs; size_t k = 1 + g.below(3); for(size_t i = 0; i < k; ++i) cs.push_back(C::constraint(g, s)); c.d = J("").s("k", "linear").a("s", s).raw("cons", jCons(cs.begin(), cs.end())).i("yes", 0).i("no", no).str(); store(c, C::Linear(ls.begin(), ls.end(), cs, 0.0, static_cast<T>(no)), 0); }
   return c;
}
static Con cost(tr::Rng& g, const TModel& m) {
   Con c; size_t n = m.sp.size(); c.v = somePick(g, n, 1 + g.below(std::min<size_t>(n, 3))); std::sort(c.v.begin(), c.v.end()); Vs s = m.shapeOf(c.v); std::vector<L> ls(s.begin(), s.end()); size_t mx = *std::max_element(s.begin(), s.end()), tot = 0; for(size_t q : s) tot += q;
   if(g.chance(35)) { long l = static_cast<long>(g.below(mx)), k = g.range(0, 6); c.d = J("").s("k", "cost1").a("s", s).i("label", l).i("cost", k).str(); store(c, C::Cost(ls.begin(), ls.end(), static_cast<L>(l), static_cast<T>(k)), 0); }
   else if(g.chance(50)) { std::vector<T> cs; for(size_t i = 0; i < mx; ++i) cs.push_back(static_cast<T>(g.range(0, 6))); c.d = J("").s("k", "costs").a("s", s).a("costs", cs).str(); store(c, C::Cost(ls.begin(), ls.end(), cs.begin(), cs.end()), 0); }
   else { bool share = g.chance(50); std::vector<T> co; for(size_t i = 0; i < (share ? mx : tot); ++i) co.push_back(static_cast<T>(g.range(-3, 4))); long lam = g.range(0, 3), b = g.range(-4, 4); c.d = J("").s("k", "sum").a("s", s).a("co", co).t("share", share).i("lambda", lam).i("bound", b).str(); store(c, C::Sum(ls.begin(), ls.end(), co.begin(), co.end(), share, static_cast<T>(lam), static_cast<T>(b)), 0); }
   return c;
}
template<class LP> void fresh(Rec& r, const LP& s, const Pars& ps) { J j("new"); j.raw("par", parsJson(ps)); argOf(s, j); r.ev(j.n("v", static_cast<double>(s.value())).i("b", tr::fix(static_cast<double>(s.bound()), 1000))); }
template<class LP> typename LP::Parameter setup(tr::Rng& g, Pars& ps, bool trans, long relax, bool integer) {
   typename LP::Parameter p; bool node = integer && g.chance(75), fac = integer && (!node || g.chance(30)); p.integerConstraintNodeVar_ = node; p.integerConstraintFactorVar_ = fac; p.useSoftConstraints_ = g.chance(25); p.useFunctionTransfer_ = trans; p.mergeParallelFactors_ = g.chance(50); p.nameConstraints_ = g.chance(20);
   p.relaxation_ = relax == 0 ? LP::Parameter::LocalPolytope : relax == 1 ? LP::Parameter::LoosePolytope : LP::Parameter::TightPolytope; p.maxNumIterations_ = g.chance(80) ? 0 : 1 + g.below(6); p.maxNumConstraintsPerIter_ = g.chance(45) ? 0 : 1 + g.below(relax == 1 ? 12 : 4); p.challengeHeuristic_ = g.chance(50) ? LP::Parameter::Random : LP::Parameter::Weighted;
   ps = Pars{{"node", node}, {"factor", fac}, {"soft", p.useSoftConstraints_}, {"trans", trans}, {"merge", p.mergeParallelFactors_}, {"relax", relax}, {"iters", static_cast<long>(p.maxNumIterations_)}, {"per", static_cast<long>(p.maxNumConstraintsPerIter_)}}; return p;
}
template<class LP> void timed(Rec& r, LP& s) { r.ev(J("run").i("vis", 0).i("stopAt", -1)); typename LP::TimingVisitorType v(1, 0, false); long st = static_cast<long>(s.infer(v)); r.ev(J("ret").i("st", st)); resultEv(r, s, true); }
template<class LP> void several(Rec& r, const typename LP::GraphicalModelType& gm, bool trans, size_t n) {
   tr::Rng& g = r.rng; long r0 = static_cast<long>(g.below(3)); bool alike = g.chance(50), integer = g.chance(60); uint64_t seed = g.next();
   for(size_t k = 0; k < n; ++k) {
      // the same program with different relaxations, or different programs
      Pars ps; tr::Rng h(alike ? seed : g.next()); typename LP::Parameter p = setup<LP>(h, ps, trans && (alike || g.chance(60)), (r0 + static_cast<long>(k)) % 3, alike ? integer : h.chance(60)); LP s(gm, p); fresh(r, s, ps);
      for(size_t runs = 1 + (g.chance(15) ? 1 : 0); runs > 0; --runs) { if(g.chance(12)) timed(r, s); else { RunOpt o = anyRun(g, 8); runEv(r, s, o, g.chance(75)); } }
   }
   checkModelEv(r, gm);
}
static TModel base(tr::Rng& g, size_t what) {
   GenCfg c; c.kinds = {"explicit", "explicit", "potts"}; c.maxV = 4; c.maxL = what == 1 ? 2 : 3; c.maxStates = 40; c.maxFac = 5; c.lo = -4; c.hi = 6; if(what == 1) { c.minL = 2; c.maxOrder = 2; c.maxV = 5; static const std::vector<std::string> st = {"cycle", "grid", "pair", "any"}; c.structure = g.pick(st); if(c.structure == "grid") c.minV = 4; c.maxFac = 8; } else if(what == 2) { static const std::vector<std::string> st = {"tree", "chain"}; c.structure = g.pick(st); c.dup = false; c.maxV = 5; c.maxStates = 80; }
   return genModel(g, c, "add");
}
template<class LPc, class ACC> void lp(Rec& r, size_t what) {
   tr::Rng& g = r.rng; TModel m = base(g, what); bool mn = std::string(AccStr<ACC>::n()) == "min"; long no = mn ? 1000 : -1000; std::vector<Con> cs; bool trans = false;
   std::vector<std::vector<L> > all(1, std::vector<L>(m.sp.size(), 0)); for(size_t v = 0; v < m.sp.size(); ++v) { std::vector<std::vector<L> > q; for(auto x : all) for(size_t l = 0; l < m.sp[v]; ++l) { x[v] = l; q.push_back(x); } all.swap(q); }
   bool none = g.chance(3);
   if(what == 0) {
      for(size_t t = 0; t < 6 && cs.size() < 3; ++t) { Con c = hard(g, m, no); std::vector<std::vector<L> > q; for(const auto& x : all) if(c.ok(x)) q.push_back(x); if(q.empty() && !none) continue; all.swap(q); cs.push_back(c); if(all.empty()) break; if(g.chance(35)) break; }
      if(g.chance(50) || !mn) for(size_t t = g.below(3); t > 0; --t) { cs.push_back(cost(g, m)); trans = mn; }
   }
   J j("model"); j.s("acc", AccStr<ACC>::n()).a("sp", m.sp); std::vector<L> ls(m.sp.begin(), m.sp.end()); GM gm((Space(ls.begin(), ls.end()))); std::vector<Vs> fv; std::vector<std::string> fn; size_t i = 0;
   auto con = [&]() { fv.push_back(cs[i].v); fn.push_back(cs[i].d); cs[i].put(gm); ++i; };
   for(const TFac& f : m.fa) { while(i < cs.size() && g.chance(30)) con(); fv.push_back(f.v); fn.push_back(f.f.json()); gm.addFactor(AddAny<meta::TypeListGenerator<ExplicitFunction<T, I, L>, PottsFunction<T, I, L> >::type>::add(gm, f.f), f.v.begin(), f.v.end()); } while(i < cs.size()) con();
   r.ev(j.aa("fv", fv).raw("fn", tr::jarr(fn)));
   if(all.empty()) { for(long rx = 0; rx < 3; ++rx) { typename LPc::Parameter p; p.integerConstraintNodeVar_ = true; p.relaxation_ = rx == 0 ? LPc::Parameter::LocalPolytope : rx == 1 ? LPc::Parameter::LoosePolytope : LPc::Parameter::TightPolytope; p.maxNumIterations_ = 0; LPc s(gm, p); r.ev(J("infeasible").i("st", static_cast<long>(s.infer()))); } return; }
   several<LPc>(r, gm, trans, 3 + g.below(2));
}
template<class ACC> void plain(Rec& r) {
   tr::Rng& g = r.rng; GenCfg c = exCfg(); c.maxV = 4; c.maxStates = 40; c.maxFac = 5; TModel m = genModel(g, c, "add"); J j("model"); std::vector<Vs> fv; std::vector<std::string> fn; for(const TFac& f : m.fa) { fv.push_back(f.v); fn.push_back(f.f.json()); } r.ev(j.s("acc", AccStr<ACC>::n()).a("sp", m.sp).aa("fv", fv).raw("fn", tr::jarr(fn)));
   Plain gm = realise<Plain>(m); several<LPCplex2<Plain, ACC> >(r, gm, false, 3);
   { Mult mm = realise<Mult>(m); bool ok = false; try { LPCplex2<Mult, ACC> s(mm); } catch(opengm::RuntimeError&) { ok = true; } r.ev(J("refused").t("ok", ok)); }
}
void part(tr::Driver& d) {
#if PART == 0
   for(size_t i = 0; i < d.n(110, 1600); ++i) d.add("min-" + std::to_string(i), [](Rec& r) { lp<LPCplex2<GM, Minimizer>, Minimizer>(r, 0); });
   for(size_t i = 0; i < d.n(25, 300); ++i) d.add("min2-" + std::to_string(i), [](Rec& r) { lp<LPCplex2<GM, Minimizer>, Minimizer>(r, 1); });
   for(size_t i = 0; i < d.n(25, 300); ++i) d.add("tree-" + std::to_string(i), [](Rec& r) { lp<LPCplex2<GM, Minimizer>, Minimizer>(r, 2); });
#elif PART == 1
   for(size_t i = 0; i < d.n(60, 900); ++i) d.add("max-" + std::to_string(i), [](Rec& r) { lp<LPCplex2<GM, Maximizer>, Maximizer>(r, 0); });
   for(size_t i = 0; i < d.n(20, 200); ++i) d.add("max2-" + std::to_string(i), [](Rec& r) { lp<LPCplex2<GM, Maximizer>, Maximizer>(r, 1 + r.rng.below(2)); });
   for(size_t i = 0; i < d.n(20, 200); ++i) d.add("plain-" + std::to_string(i), plain<Minimizer>);
#else
   for(size_t i = 0; i < d.n(60, 900); ++i) d.add("gur-" + std::to_string(i), [](Rec& r) { lp<LPGurobi2<GM, Minimizer>, Minimizer>(r, 0); });
   for(size_t i = 0; i < d.n(30, 400); ++i) d.add("gur2-" + std::to_string(i), [](Rec& r) { lp<LPGurobi2<GM, Maximizer>, Maximizer>(r, r.rng.below(3)); });
#endif
}
DRIVER_MAIN(part)
