// Alternative storages: ConvertToExplicit, ExplicitStorage, CanonicalView.
#include "gmzoo.hxx"
#include <opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx>
#include <opengm/utilities/canonical_view.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

template<class G> J& contents(J& j, const G& g) {
   Shape sp; for(size_t i = 0; i < g.numberOfVariables(); ++i) sp.push_back(g.numberOfLabels(i));
   std::vector<Vs> v; std::vector<Shape> s; std::vector<std::vector<long> > t;
   for(size_t f = 0; f < g.numberOfFactors(); ++f) {
      Vs a; Shape b; for(size_t k = 0; k < g[f].numberOfVariables(); ++k) { a.push_back(g[f].variableIndex(k)); b.push_back(g[f].numberOfLabels(k)); }
      std::vector<long> q; std::vector<size_t> x(std::max<size_t>(1, b.size()), 0); do q.push_back(tr::num(static_cast<double>(g[f](x.begin())))); while(nextLabeling(b, x));
      v.push_back(a); s.push_back(b); t.push_back(q);
   }
   return j.a("sp", sp).aa("v", v).aa("s", s).aa("t", t).a("full", fullTable(g));
}
// a model whose functions are shared between factors of equal shape and added in a random order over classes
template<class GM> GM realiseShared(tr::Rng& g, const TModel& m, bool shuffle) {
   typedef typename GM::IndexType I; typedef typename GM::LabelType L; typedef typename GM::FunctionIdentifier Fid;
   std::vector<L> ls(m.sp.begin(), m.sp.end()); GM gm((typename GM::SpaceType(ls.begin(), ls.end())));
   Vs ord; for(size_t i = 0; i < m.fa.size(); ++i) ord.push_back(i); if(shuffle) g.shuffle(ord);
   std::vector<Fid> id(m.fa.size()); std::map<std::string, Fid> seen;
   for(size_t i : ord) { std::string key = m.fa[i].f.json(); if(seen.count(key)) id[i] = seen[key]; else { id[i] = AddAny<typename GM::FunctionTypeList>::add(gm, m.fa[i].f); seen[key] = id[i]; } }
   for(size_t i = 0; i < m.fa.size(); ++i) { std::vector<I> v(m.fa[i].v.begin(), m.fa[i].v.end()); gm.addFactor(id[i], v.begin(), v.end()); }
   return gm;
}
template<class GM> void go(Rec& r, const std::string& what) {
   tr::Rng& g = r.rng; GenCfg c = cfgFor<GM>(); c.maxV = r.thorough ? 6 : 5; c.maxFac = 14; c.maxStates = 128; c.consts = what == "canon0" || what == "canon"; c.dup = true; if(std::string(OpStr<typename GM::OperatorType>::n()) == "mul") c.maxFac = 5;
   if(what == "canon") c.consts = false;
   TModel m = genModel(g, c, OpStr<typename GM::OperatorType>::n());
   // duplicates: repeat some scopes with another function or with the same one
   size_t extra = g.below(5); for(size_t k = 0; k < extra && !m.fa.empty(); ++k) { TFac f = g.pick(m.fa); if(g.chance(60)) { GenCfg d = c; size_t q = m.fa.size(); addFac(g, m, d, f.v); if(m.fa.size() == q) m.fa.push_back(f); } else m.fa.push_back(f); }
   J j("model"); r.ev(m.json(j)); GM gm = realiseShared<GM>(g, m, g.chance(70));
   if(what == "explicit") { typename ConvertToExplicit<GM>::ExplicitGraphicalModelType ex; ConvertToExplicit<GM>::convert(gm, ex); J e("explicit"); r.ev(contents(e, ex)); ConvertToExplicit<GM>::convert(gm, ex); J e2("explicit"); r.ev(contents(e2, ex)); }
   else if(what == "storage") { ExplicitStorage<GM> st(gm); std::vector<std::vector<long> > t; for(size_t f = 0; f < gm.numberOfFactors(); ++f) { const auto* p = st[gm[f]]; std::vector<long> q; for(size_t i = 0; i < gm[f].size(); ++i) q.push_back(tr::num(static_cast<double>(p[i]))); t.push_back(q); } r.ev(J("storage").aa("t", t)); }
   else {
      { CanonicalView<GM, canonical_view::CloneNever> v(gm); J e("canonical"); r.ev(contents(e, v)); }
      if(what == "canon") { { CanonicalView<GM, canonical_view::CloneViews> v(gm); J e("canonical"); r.ev(contents(e, v)); } CanonicalView<GM, canonical_view::CloneDeep> v(gm); J e("canonical"); r.ev(contents(e, v)); }
   }
}
template<class GM> void reg(tr::Driver& d, const std::string& t) {
   static const char* w[4] = {"explicit", "storage", "canon", "canon0"};
   for(size_t k = 0; k < d.n(120, 2000); ++k) { std::string s = w[k % 4]; d.add(s + "-" + t + "-" + std::to_string(k), [s](Rec& r) { go<GM>(r, s); }); }
}
void part(tr::Driver& d) {
#if PART == 0
   reg<Models<Adder>::Mix>(d, "add"); reg<Models<Adder, int>::Mix>(d, "add-int"); 
#else
   reg<Models<Multiplier>::Mix>(d, "mul"); reg<Models<Minimizer>::Mix>(d, "min"); reg<Models<Adder, float>::Ex>(d, "add-ex-f");
#endif
}
DRIVER_MAIN(part)
