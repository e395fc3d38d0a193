// Decompositions: automatic kinds, manual construction histories, completion,
// weighted sub-model values.
#include "gmzoo.hxx"
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx>
#include <opengm/functions/modelviewfunction.hxx>
using namespace opengm;
using tr::Rec; using tr::J;
typedef GraphicalModelDecomposition Dec;

static std::string cp(size_t m, const Vs& s) { std::string b = "[" + std::to_string(tr::idx(m)) + ",["; for(size_t i = 0; i < s.size(); ++i) { if(i) b += ','; b += std::to_string(tr::idx(s[i])); } return b + "]]"; }
static J& lists(J& j, const Dec& d, size_t nv) {
   std::vector<long> a, b; for(size_t m = 0; m < d.numberOfSubModels(); ++m) { a.push_back(tr::idx(d.numberOfSubVariables(m))); b.push_back(tr::idx(d.numberOfSubFactors(m))); }
   std::vector<std::string> vl, fl, el;
   for(const auto& l : d.getVariableLists()) { std::vector<std::string> q; for(const auto& x : l) q.push_back("[" + std::to_string(tr::idx(x.subModelId_)) + "," + std::to_string(tr::idx(x.subVariableId_)) + "]"); vl.push_back(tr::jarr(q)); }
   for(const auto& l : d.getFactorLists()) { std::vector<std::string> q; for(const auto& x : l) q.push_back(cp(x.subModelId_, x.subIndices_)); fl.push_back(tr::jarr(q)); }
   for(size_t v = 0; v < nv; ++v) { std::vector<std::string> q; auto it = d.getEmptyFactorLists().find(Vs(1, v)); if(it != d.getEmptyFactorLists().end()) for(const auto& x : it->second) q.push_back(cp(x.subModelId_, x.subIndices_)); el.push_back(tr::jarr(q)); }
   return j.i("nm", tr::idx(d.numberOfSubModels())).a("nsv", a).a("nsf", b).raw("vl", tr::jarr(vl)).raw("fl", tr::jarr(fl)).raw("el", tr::jarr(el));
}
template<class GM> bool valid(const Dec& d, const GM& gm) { try { return d.isValid(gm); } catch(const std::exception&) { return false; } }

// build the sub-models of views divided by multiplicity, evaluate all at consistent labelings
template<class GM> void weighted(Rec& r, const Dec& d, const GM& gm, const TModel& tm) {
   typedef ModelViewFunction<GM, marray::Marray<double> > VF; typedef GraphicalModel<double, Adder, VF, DiscreteSpace<size_t, size_t> > Sub;
   std::vector<Shape> ss(d.numberOfSubModels()); std::vector<Vs> own(ss.size());
   for(size_t m = 0; m < ss.size(); ++m) { ss[m].resize(d.numberOfSubVariables(m)); own[m].resize(ss[m].size()); }
   for(size_t v = 0; v < tm.sp.size(); ++v) for(const auto& x : d.getVariableLists()[v]) { ss[x.subModelId_][x.subVariableId_] = gm.numberOfLabels(v); own[x.subModelId_][x.subVariableId_] = v; }
   std::vector<Sub> sub; for(auto& s : ss) sub.push_back(Sub(DiscreteSpace<size_t, size_t>(s.begin(), s.end())));
   for(size_t f = 0; f < gm.numberOfFactors(); ++f) { const auto& l = d.getFactorLists()[f]; for(const auto& x : l) { VF fn(gm, f, 1.0 / static_cast<double>(l.size())); sub[x.subModelId_].addFactor(sub[x.subModelId_].addFunction(fn), x.subIndices_.begin(), x.subIndices_.end()); } }
   std::vector<Vs> xs; std::vector<double> vals;
   for(int k = 0; k < 5; ++k) { Vs x = someLabeling(r.rng, tm.sp); double t = 0; for(size_t m = 0; m < ss.size(); ++m) { Vs y; for(size_t v : own[m]) y.push_back(x[v]); y.push_back(0); t += sub[m].evaluate(y.begin()); } xs.push_back(x); vals.push_back(t); }
   r.ev(J("weighted").aa("x", xs).a("val", vals));
}
template<class GM> TModel start(Rec& r, const std::string& st, size_t order) { GenCfg c = cfgFor<GM>(); c.structure = st; c.maxOrder = order; c.maxV = r.thorough ? 8 : 6; TModel m = genModel(r.rng, c, "add"); J j("model"); r.ev(m.json(j)); return m; }
static std::vector<std::set<size_t> > cover(tr::Rng& g, size_t n, size_t k) { std::vector<std::set<size_t> > s(k); for(size_t v = 0; v < n; ++v) { s[g.below(k)].insert(v); if(g.chance(30)) s[g.below(k)].insert(v); } return s; }
template<class GM> void automatic(Rec& r, const std::string& kind, const std::string& st) {
   tr::Rng& g = r.rng; TModel tm = start<GM>(r, st, kind == "kfan" || kind == "kfann" ? (g.chance(90) ? 2 : 3) : 3); GM gm = realise<GM>(tm); size_t n = tm.sp.size();
   GraphicalModelDecomposer<GM> D; Dec d; std::vector<std::set<size_t> > gs; std::vector<std::vector<size_t> > mg; size_t k = 0;
   bool high = false; for(const TFac& f : tm.fa) if(f.v.size() > 2) high = true;
   if(kind == "manual") { size_t q = 1 + g.below(4); mg.resize(q); for(size_t f = 0; f < tm.fa.size(); ++f) { mg[g.below(q)].push_back(f); if(g.chance(40)) { size_t m = g.below(q); if(mg[m].empty() || mg[m].back() != f) mg[m].push_back(f); } } if(g.chance(10)) mg[0].clear(); for(auto& m : mg) g.shuffle(m); d = D.decomposeManual(gm, mg); }
   else if(kind == "tree") d = D.decomposeIntoTree(gm);
   else if(kind == "spanning") d = D.decomposeIntoSpanningTrees(gm);
   else if(kind == "kfan" || kind == "kfann") {
      gs = cover(g, n, 1 + g.below(3)); k = 1 + g.below(n + 1); bool threw = false;
      try { d = kind == "kfan" ? D.decomposeIntoKFans(gm, gs) : D.decomposeIntoKFans(gm, k); } catch(const std::exception&) { threw = true; }
      if(high || threw) { bool any = false; if(kind == "kfan") any = true; else any = true; (void)any; r.ev(J("refuse").t("threw", threw)); if(threw) return; }
   }
   else if(kind == "open") { gs = cover(g, n, 1 + g.below(3)); d = D.decomposeIntoOpenBlocks(gm, gs); }
   else if(kind == "closed") { gs = cover(g, n, 1 + g.below(3)); d = D.decomposeIntoClosedBlocks(gm, gs); }
   else { k = 1 + g.below(n + 1); d = D.decomposeIntoClosedBlocks(gm, k); }
   std::vector<std::vector<size_t> > groups = mg; for(auto& s : gs) groups.push_back(std::vector<size_t>(s.begin(), s.end()));
   J j("decomp"); r.ev(lists(j, d, n)); r.ev(J("promise").s("kind", kind).aa("groups", groups).i("k", static_cast<long>(k)).t("valid", valid(d, gm)));
   bool covered = true; for(const auto& l : d.getFactorLists()) covered = covered && !l.empty();
   if(covered) weighted(r, d, gm, tm);
   if(g.chance(70)) { d.complete(); J c("complete"); r.ev(lists(c, d, n)); r.ev(J("completed").t("valid", valid(d, gm))); if(g.chance(50)) { d.complete(); J c2("complete"); r.ev(lists(c2, d, n)); r.ev(J("completed").t("valid", valid(d, gm))); } if(covered) weighted(r, d, gm, tm); }
   if(g.chance(50)) { d.reorder(); r.ev(J("reorder")); J l("lists"); r.ev(lists(l, d, n)); if(covered) weighted(r, d, gm, tm); }
}
template<class GM> void manual(Rec& r) {
   tr::Rng& g = r.rng; TModel tm = start<GM>(r, "any", 3); GM gm = realise<GM>(tm); size_t n = tm.sp.size();
   Dec d(n, tm.fa.size(), 0); std::vector<std::vector<long> > copyOf; // per submodel: owner of sub-variable
   size_t steps = 6 + g.below(30); bool proper = true;
   for(size_t t = 0; t < steps; ++t) {
      size_t w = g.below(13);
      if(w == 0 || copyOf.empty()) { size_t q = d.addSubModel(); copyOf.push_back(std::vector<long>()); r.ev(J("addsm").i("ret", tr::idx(q))); }
      else if(w < 6) { size_t m = g.below(copyOf.size()), v = g.below(n); size_t q = d.addSubVariable(m, v); copyOf[m].push_back(static_cast<long>(v)); r.ev(J("addsv").i("m", static_cast<long>(m)).i("v", static_cast<long>(v)).i("ret", tr::idx(q))); }
      else if(w >= 6 && w <= 8) {
         // a place holder for a missing unary factor
         size_t m = g.below(copyOf.size()); if(copyOf[m].empty()) continue; size_t s = g.below(copyOf[m].size()); Vs v(1, static_cast<size_t>(copyOf[m][s]));
         size_t q = d.addSubFactor(m, v, Vs(1, s)); r.ev(J("addef").i("m", static_cast<long>(m)).i("v", static_cast<long>(v[0])).i("s", static_cast<long>(s)).i("ret", tr::idx(q)));
      }
      else if(!tm.fa.empty()) {
         size_t m = g.below(copyOf.size()), f = g.below(tm.fa.size()); Vs subs;
         for(size_t v : tm.fa[f].v) { Vs c; for(size_t s = 0; s < copyOf[m].size(); ++s) if(copyOf[m][s] == static_cast<long>(v)) c.push_back(s); if(c.empty()) { size_t q = d.addSubVariable(m, v); copyOf[m].push_back(static_cast<long>(v)); r.ev(J("addsv").i("m", static_cast<long>(m)).i("v", static_cast<long>(v)).i("ret", tr::idx(q))); c.push_back(q); } subs.push_back(g.pick(c)); }
         if(g.chance(4) && !subs.empty() && g.chance(50)) { size_t k = g.below(subs.size()); subs[k] = g.below(copyOf[m].size()); proper = false; }   // maybe a wrong copy: isValid must see it
         size_t q = d.addSubFactor(m, f, subs); r.ev(J("addsf").i("m", static_cast<long>(m)).i("f", static_cast<long>(f)).a("subs", subs).i("ret", tr::idx(q)));
      }
      if(g.chance(15)) { J l("lists"); r.ev(lists(l, d, n)); r.ev(J("isvalid").t("valid", valid(d, gm))); }
   }
   for(size_t f = 0; g.chance(70) && f < tm.fa.size() && !copyOf.empty(); ++f) { size_t m = g.below(copyOf.size()); Vs subs; for(size_t v : tm.fa[f].v) { size_t q = d.addSubVariable(m, v); copyOf[m].push_back(static_cast<long>(v)); r.ev(J("addsv").i("m", static_cast<long>(m)).i("v", static_cast<long>(v)).i("ret", tr::idx(q))); subs.push_back(q); } size_t q = d.addSubFactor(m, f, subs); r.ev(J("addsf").i("m", static_cast<long>(m)).i("f", static_cast<long>(f)).a("subs", subs).i("ret", tr::idx(q))); }
   J l("lists"); r.ev(lists(l, d, n)); r.ev(J("isvalid").t("valid", valid(d, gm)));
   Dec e(d);
   if(proper && g.chance(60)) { e.complete(); J c("complete"); r.ev(lists(c, e, n)); r.ev(J("completed").t("valid", valid(e, gm))); }
   bool asc = true; try { e.reorder(); } catch(const std::exception&) { asc = false; }
   if(asc) { r.ev(J("reorder")); J l2("lists"); r.ev(lists(l2, e, n)); }
}
template<class GM> void reg(tr::Driver& d, const std::string& t) {
   static const char* st[9] = {"any", "any", "tree", "chain", "cycle", "grid", "pair", "hyper", "discon"}; static const char* ki[8] = {"manual", "tree", "spanning", "kfan", "kfann", "open", "closed", "closedn"};
   for(size_t k = 0; k < d.n(560, 6000); ++k) { std::string s = st[(k / 8) % 9], q = ki[k % 8]; if(q.substr(0, 4) == "kfan" && s == "hyper") s = "pair"; d.add("auto-" + t + "-" + q + "-" + s + "-" + std::to_string(k), [q, s](Rec& r) { automatic<GM>(r, q, s); }); }
   for(size_t k = 0; k < d.n(300, 3000); ++k) d.add("manual-" + t + "-" + std::to_string(k), [](Rec& r) { manual<GM>(r); });
}
void part(tr::Driver& d) { reg<Models<Adder>::Mix>(d, "mix"); }
DRIVER_MAIN(part)
