// Reparametrisation: LPReparametrizer, the reparametrizers of TRWSi and ADSal,
// spreading over a decomposition, files; CombiLP on an exact stand-in solver.
#include "local.hxx"
#include <unistd.h>
#include "unarypair.hxx"
#include <opengm/inference/auxiliary/lp_reparametrization.hxx>
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#if PART == 2
#define OPENGM_LP_CPLEX_HXX   // the real one needs a commercial solver
#include "standin/lpcplex_standin.hxx"
#include <opengm/inference/combilp.hxx>
#endif
#ifdef WITH_HDF5
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx>
#endif
typedef Models<Adder> M;
static long fx(double v) { return tr::fix(v, 1000); }
template<class C> std::string seq(const C& c) { std::vector<std::string> q; for(auto v : c) q.push_back(std::to_string(fx(static_cast<double>(v)))); return tr::jarr(q); }
template<class GM> std::string duals(const LPReparametrisationStorage<GM>& s, const GM& gm) {
   std::vector<std::string> a; for(size_t f = 0; f < gm.numberOfFactors(); ++f) { std::vector<std::string> b; if(gm[f].numberOfVariables() > 1) for(size_t k = 0; k < gm[f].numberOfVariables(); ++k) b.push_back(seq(s.get(f, k))); a.push_back(tr::jarr(b)); } return tr::jarr(a);
}
template<class F> void each(const std::vector<size_t>& sh, F f) { std::vector<size_t> y(sh.size(), 0); for(;;) { f(y); size_t i = 0; while(i < y.size() && ++y[i] == sh[i]) y[i++] = 0; if(i == y.size()) break; } }
template<class GM> std::vector<size_t> shapeOfFactor(const GM& gm, size_t f) { std::vector<size_t> s; for(size_t k = 0; k < gm[f].numberOfVariables(); ++k) s.push_back(gm[f].numberOfLabels(k)); return s; }
template<class GM> std::vector<size_t> shapeOfModel(const GM& gm) { std::vector<size_t> s; for(size_t k = 0; k < gm.numberOfVariables(); ++k) s.push_back(gm.numberOfLabels(k)); return s; }
// everything the reparametrised model and the storage say
template<class R> void tables(Rec& r, const R& rp, const LPReparametrisationStorage<typename R::GraphicalModelType>& st) {
   typedef typename R::GraphicalModelType GM; const GM& gm = rp.graphicalModel(); typename R::ReparametrizedGMType q; rp.getReparametrizedModel(q);
   std::vector<Vs> fv; std::vector<std::string> fac, sto, vars; std::vector<double> all; Vs sp;
   for(size_t v = 0; v < q.numberOfVariables(); ++v) sp.push_back(q.numberOfLabels(v));
   for(size_t f = 0; f < q.numberOfFactors(); ++f) { Vs v; for(size_t k = 0; k < q[f].numberOfVariables(); ++k) v.push_back(q[f].variableIndex(k)); fv.push_back(v); std::vector<double> t, u; each(shapeOfFactor(q, f), [&](const std::vector<size_t>& y) { t.push_back(q[f](y.begin())); u.push_back(st.getFactorValue(f, y.begin())); }); fac.push_back(seq(t)); sto.push_back(seq(u)); }
   for(size_t v = 0; v < gm.numberOfVariables(); ++v) { std::vector<double> t; for(size_t l = 0; l < gm.numberOfLabels(v); ++l) t.push_back(st.getVariableValue(v, l)); vars.push_back(seq(t)); }
   each(shapeOfModel(q), [&](const std::vector<size_t>& y) { all.push_back(q.evaluate(y.begin())); });
   r.ev(J("tables").a("sp", sp).aa("fv", fv).raw("fac", tr::jarr(fac)).raw("sto", tr::jarr(sto)).raw("vars", tr::jarr(vars)).raw("all", seq(all)));
}
template<class R> void arc(Rec& r, R& rp, size_t order) { std::vector<bool> m; std::vector<typename R::LabelType> x; if(order == 2) rp.getArcConsistency(&m, &x); else rp.getArcConsistency(&m, &x, order); std::vector<int> mi(m.begin(), m.end()); r.ev(J("arc").a("mask", mi).a("x", toVs(x))); }
template<class GM> void serial(Rec& r, const LPReparametrisationStorage<GM>& st) {
   const GM& gm = st.graphicalModel(); std::vector<double> s; st.serialize(&s); r.ev(J("serial").raw("s", seq(s)));
   tr::Rng& g = r.rng; std::vector<double> t; size_t n = s.size(); long d = g.chance(60) ? 0 : g.range(-2, 2); if(d < 0 && static_cast<size_t>(-d) > n) d = -static_cast<long>(n); t.resize(n + static_cast<size_t>(d)); for(double& v : t) v = static_cast<double>(g.range(-5, 5));
   LPReparametrisationStorage<GM> other(gm); bool ok = true; try { other.deserialize(t); } catch(const std::runtime_error&) { ok = false; }
   r.ev(J("deserial").i("len", static_cast<long>(t.size())).t("ok", ok).raw("s", seq(t)).raw("d", duals(other, gm)));
#ifdef WITH_HDF5
   if(n > 0) { std::string file = "repa" + std::to_string(getpid()) + ".h5"; opengm::hdf5::save(st, file, "repa"); LPReparametrisationStorage<GM> back(gm); opengm::hdf5::load(&back, file, "repa"); std::vector<double> u; back.serialize(&u); r.ev(J("file").raw("s", seq(u))); std::remove(file.c_str()); }
#endif
}
template<class R> void write(Rec& r, R& rp) {
   typedef typename R::GraphicalModelType GM; const GM& gm = rp.graphicalModel(); tr::Rng& g = r.rng; typename R::RepaStorageType& st = rp.Reparametrization();
   for(size_t f = 0; f < gm.numberOfFactors(); ++f) if(gm[f].numberOfVariables() > 1) for(size_t k = 0; k < gm[f].numberOfVariables(); ++k) if(g.chance(80)) { auto it = st.getIterators(f, k); for(; it.first != it.second; ++it.first) *it.first = static_cast<double>(g.range(-6, 6)) / (g.chance(20) ? 2 : 1); }
   r.ev(J("write").raw("d", duals(st, gm)));
}
static TModel model(tr::Rng& g, bool higher, size_t maxL = 3) {
   GenCfg c = exCfg(); c.lo = -6; c.hi = 9; TModel m = unaryPair(g, c, static_cast<int>(g.below(3)), 5, maxL); 
   if(higher) for(size_t k = g.below(3); k > 0 && m.sp.size() >= 3; --k) { Vs p = somePick(g, m.sp.size(), 3 + (m.sp.size() > 3 ? g.below(2) : 0)); std::sort(p.begin(), p.end()); addFac(g, m, c, p); }
   if(higher) g.shuffle(m.fa);
   return m;
}
template<class ACC> void modelOf(Rec& r, const TModel& m) { J j("model"); r.ev(m.json(j).s("acc", AccStr<ACC>::n())); }
template<class GM, class ACC> void plain(Rec& r) {
   tr::Rng& g = r.rng; TModel m = model(g, true); modelOf<ACC>(r, m); GM gm = realise<GM>(m); typedef LPReparametrizer<GM, ACC> R; R rp(gm); r.ev(J("plain")); size_t top = 2; for(const TFac& f : m.fa) top = std::max(top, f.v.size());
   if(g.chance(40)) tables(r, rp, rp.Reparametrization());
   for(size_t k = 1 + g.below(3); k > 0; --k) { write(r, rp); if(g.chance(50)) r.ev(J("read").raw("d", duals(rp.Reparametrization(), gm))); tables(r, rp, rp.Reparametrization()); if(g.chance(70)) arc(r, rp, top); if(g.chance(50)) serial(r, rp.Reparametrization()); }
   checkModelEv(r, gm);
}
template<class S, class GM> void decomp(Rec& r, const LPReparametrisationStorage<GM>& st, S& ds) {
   LPtoDecompositionStorage(st, &ds); const GM& gm = ds.masterModel(); std::vector<double> all;
   each(shapeOfModel(gm), [&](const std::vector<size_t>& x) { double v = 0; for(size_t i = 0; i < ds.numberOfModels(); ++i) { auto& q = ds.subModel(i); for(size_t k = 0; k < q.size(); ++k) { v += *(q.ufBegin(k) + static_cast<long>(x[q.varIndex(k)])); if(k + 1 < q.size()) { const auto& f = gm[q.pwForwardFactor(k)]; size_t y[2] = {x[f.variableIndex(0)], x[f.variableIndex(1)]}; v += f(y); } } } all.push_back(v); });
   r.ev(J("decomp").raw("all", seq(all)));
}
template<class INF> void trees(Rec& r, INF& inf, bool keeps) {
   typedef typename INF::GraphicalModelType GM; typedef typename INF::ReparametrizerType R; const GM& gm = inf.graphicalModel(); tr::Rng& g = r.rng;
   typename R::Parameter rpp(g.chance(60)); std::unique_ptr<R> rp(inf.getReparametrizer(rpp)); r.ev(J("solved").i("b", fx(inf.bound())));
   for(size_t k = 1 + g.below(3); k > 0; --k) {
      size_t w = g.below(10);
      if(w < 4) { rp->reparametrize(); r.ev(J("trees").t("keeps", keeps).raw("d", duals(rp->Reparametrization(), gm))); }
      else if(w < 7) { std::vector<bool> mask(gm.numberOfVariables()); for(size_t i = 0; i < mask.size(); ++i) mask[i] = g.chance(55); rp->reparametrize(&mask); std::vector<int> mi(mask.begin(), mask.end()); r.ev(J("trees").t("keeps", keeps).a("mask", mi).raw("d", duals(rp->Reparametrization(), gm))); }
      else { std::vector<std::vector<bool> > imm(gm.numberOfVariables()); std::vector<Vs> is; size_t p = g.below(3) * 50; for(size_t v = 0; v < imm.size(); ++v) { imm[v].resize(gm.numberOfLabels(v)); Vs q; for(size_t l = 0; l < imm[v].size(); ++l) { imm[v][l] = g.chance(static_cast<int>(p)); q.push_back(imm[v][l]); } is.push_back(q); }
         rp->reparametrize(imm); r.ev(J("immovable").aa("imm", is).raw("d", duals(rp->Reparametrization(), gm))); }
      if(g.chance(60)) tables(r, *rp, rp->Reparametrization());
      if(g.chance(60)) arc(r, *rp, 2);
      if(g.chance(25)) serial(r, rp->Reparametrization());
   }
   if(g.chance(30)) { write(r, *rp); tables(r, *rp, rp->Reparametrization()); }
   if(g.chance(60)) decomp(r, rp->Reparametrization(), inf.getDecompositionStorage());
}
template<class GM, class ACC> void trws(Rec& r) {
   tr::Rng& g = r.rng; TModel m = model(g, false, 4); modelOf<ACC>(r, m); GM gm = realise<GM>(m); typedef TRWSi<GM, ACC> INF; typedef typename INF::Parameter P; typedef typename P::Storage S;
   P p(1 + g.below(g.chance(50) ? 4 : 40), g.chance(50) ? S::GENERALSTRUCTURE : S::EDGESTRUCTURE, 1e-7, true); p.fastComputations() = g.chance(60); p.canonicalNormalization() = g.chance(40);
   INF inf(gm, p); bool run = g.chance(85); if(run) inf.infer(); trees(r, inf, run); checkModelEv(r, gm);
}
template<class GM, class ACC> void adsal(Rec& r) {
   tr::Rng& g = r.rng; TModel m = model(g, false, 3); modelOf<ACC>(r, m); GM gm = realise<GM>(m); typedef ADSal<GM, ACC> INF; typedef typename INF::Parameter P; typedef typename P::Storage S;
   P p; p.numOfExternalIterations_ = 1 + g.below(4); p.maxNumberOfIterations() = 1 + g.below(4); p.decompositionType() = g.chance(50) ? S::GENERALSTRUCTURE : S::EDGESTRUCTURE;
   INF inf(gm, p); inf.infer(); trees(r, inf, false); checkModelEv(r, gm);
}
#if PART == 2
template<class GM, class ACC, class LP> void combi(Rec& r) {
   tr::Rng& g = r.rng; TModel m = model(g, false, 3); modelOf<ACC>(r, m); GM gm = realise<GM>(m); typedef CombiLP<GM, ACC, LP> INF; typedef typename LP::Parameter P; typedef typename P::Storage S; typename INF::Parameter cp;
   { P p; p.maxNumberOfIterations() = 1 + g.below(g.chance(50) ? 3 : 12); p.decompositionType() = g.chance(50) ? S::GENERALSTRUCTURE : S::EDGESTRUCTURE; p.precision() = 1e-7; cp.lpsolverParameter_ = p; }
   cp.singleReparametrization_ = g.chance(60); cp.maxNumberOfILPCycles_ = g.chance(85) ? 100 : g.below(3); StandinTies::seed() = g.below(7); StandinTies::calls() = 0; StandinTies::failAt() = g.chance(10) ? 1 + g.below(3) : 0;
   bool file = g.chance(15); std::string fn = "combi" + std::to_string(getpid()) + ".h5"; if(file) cp.reparametrizedModelFileName_ = fn;
   INF inf(gm, cp); r.ev(J("combi"));
   bool vis = g.chance(60); long stopAt = g.chance(20) ? 1 + static_cast<long>(g.below(3)) : -1; bool stopped = false; 
   if(vis) { struct V { Rec& r; long at, n; bool& hit; void ev(const char* o, INF& i, long ask) { std::vector<typename GM::LabelType> x; i.arg(x); r.ev(J(o).a("x", toVs(x)).i("v", fx(i.value())).i("b", fx(i.bound())).i("ask", ask)); } void begin(INF& i) { r.ev(J("begin")); } void end(INF& i) { ev("end", i, 0); } size_t operator()(INF& i) { ++n; bool s = n == at; if(s) hit = true; ev("step", i, s); return s ? 1 : 0; } } v{r, stopAt, 0, stopped}; inf.infer(v); }
   else inf.infer();
   if(file) { std::ifstream is(fn.c_str()); if(is.good()) { typedef GraphicalModel<double, Adder, ExplicitFunction<double, size_t, size_t>, typename GM::SpaceType> EG; EG q; opengm::hdf5::load(q, fn, "gm"); std::vector<double> all; each(shapeOfModel(q), [&](const std::vector<size_t>& y) { all.push_back(q.evaluate(y.begin())); }); r.ev(J("decomp").raw("all", seq(all))); } std::remove(fn.c_str()); }
   bool failed = StandinTies::failAt() != 0 && StandinTies::calls() >= StandinTies::failAt(); std::vector<typename GM::LabelType> x; inf.arg(x);
   r.ev(J("ret").i("vis", vis).t("stopped", stopped).t("finished", !stopped && !failed && cp.maxNumberOfILPCycles_ == 100).a("x", toVs(x)).i("v", fx(inf.value())).i("b", fx(inf.bound())));
   checkModelEv(r, gm);
}
#endif
void part(tr::Driver& d) {
   typedef M::Ex Ex; typedef M::Mix Mix;
#if PART == 0
   for(size_t i = 0; i < d.n(70, 1200); ++i) d.add("plain-min-" + std::to_string(i), plain<Ex, Minimizer>);
   for(size_t i = 0; i < d.n(40, 800); ++i) d.add("plain-max-" + std::to_string(i), plain<Mix, Maximizer>);
#elif PART == 1
   for(size_t i = 0; i < d.n(90, 1600); ++i) d.add("trws-min-" + std::to_string(i), trws<Ex, Minimizer>);
   for(size_t i = 0; i < d.n(50, 900); ++i) d.add("trws-max-" + std::to_string(i), trws<Mix, Maximizer>);
   for(size_t i = 0; i < d.n(40, 700); ++i) d.add("adsal-" + std::to_string(i), adsal<Ex, Minimizer>);
#else
   for(size_t i = 0; i < d.n(130, 2500); ++i) d.add("combi-min-" + std::to_string(i), combi<Ex, Minimizer, TRWSi<Ex, Minimizer> >);
   for(size_t i = 0; i < d.n(60, 1000); ++i) d.add("combi-max-" + std::to_string(i), combi<Mix, Maximizer, TRWSi<Mix, Maximizer> >);
#endif
}
DRIVER_MAIN(part)
