// Model manipulation: fix / free / lock / build histories, tentacles.
#include "gmzoo.hxx"
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

static std::vector<std::vector<long> > lv(const std::vector<Vs>& a) { std::vector<std::vector<long> > r; for(const Vs& v : a) r.push_back(std::vector<long>(v.begin(), v.end())); return r; }
template<class GM> Shape shapeOf(const GM& g) { Shape s; for(size_t i = 0; i < g.numberOfVariables(); ++i) s.push_back(g.numberOfLabels(i)); return s; }
template<class M, class L> void flags(Rec& r, const M& man, size_t n) { std::vector<int> f; for(size_t i = 0; i < n; ++i) f.push_back(man.isFixed(i)); r.ev(J("flags").t("locked", man.isLocked()).a("fixed", f)); }

template<class GM> void built(Rec& r, GraphicalModelManipulator<GM>& man) {
   typedef typename GM::LabelType L;
   const typename GraphicalModelManipulator<GM>::MGM& m = man.getModifiedModel(); Shape s = shapeOf(m);
   J j("built"); j.a("s", s).a("t", fullTable(m)); std::vector<Vs> ml, ol;
   for(int k = 0; k < 4; ++k) { Vs y = someLabeling(r.rng, s); std::vector<L> a(y.begin(), y.end()), o; man.modifiedState2OriginalState(a, o); ml.push_back(y); ol.push_back(Vs(o.begin(), o.end())); }
   r.ev(j.aa("ml", ml).aa("ol", ol));
}
static std::string aaa(const std::vector<std::vector<Vs> >& v) { std::vector<std::string> q; for(const auto& a : v) { J j; j.aa("x", a); std::string s = j.str(); q.push_back(s.substr(5, s.size() - 6)); } return tr::jarr(q); }
template<class GM> void sub(Rec& r, GraphicalModelManipulator<GM>& man) {
   typedef typename GM::LabelType L; size_t k = man.numberOfSubmodels(); std::vector<Shape> ss; std::vector<std::vector<long> > tt;
   for(size_t i = 0; i < k; ++i) { ss.push_back(shapeOf(man.getModifiedSubModel(i))); tt.push_back(fullTable(man.getModifiedSubModel(i))); }
   std::vector<std::vector<Vs> > sl; std::vector<Vs> ol;
   for(int q = 0; q < 4; ++q) { std::vector<Vs> a; std::vector<std::vector<L> > b; for(size_t i = 0; i < k; ++i) { Vs y = someLabeling(r.rng, ss[i]); a.push_back(y); b.push_back(std::vector<L>(y.begin(), y.end())); } std::vector<L> o; man.modifiedSubStates2OriginalState(b, o); sl.push_back(a); ol.push_back(Vs(o.begin(), o.end())); }
   r.ev(J("sub").i("k", tr::idx(k)).aa("s", ss).aa("t", tt).raw("sl", aaa(sl)).aa("ol", ol));
}
template<class GM, class ACC> void tentBuilt(Rec& r, GraphicalModelManipulator<GM>& man) {
   typedef typename GM::LabelType L; typedef typename GraphicalModelManipulator<GM>::MGM MGM;
   man.buildModifiedModel(); const MGM& m = man.getModifiedModel(); Shape s = shapeOf(m); std::vector<long> t = fullTable(m);
   std::vector<Vs> xs; std::vector<size_t> y(std::max<size_t>(1, s.size()), 0);
   do { std::vector<L> a(y.begin(), y.begin() + static_cast<long>(s.size())), o; man.modifiedState2OriginalState(a, o); xs.push_back(Vs(o.begin(), o.end())); } while(nextLabeling(s, y));
   // the independent sub-models solved one by one
   man.buildModifiedSubModels(); std::vector<std::vector<L> > best; double total; GM::OperatorType::neutral(total);
   for(size_t i = 0; i < man.numberOfSubmodels(); ++i) {
      const MGM& q = man.getModifiedSubModel(i); Shape qs = shapeOf(q); std::vector<size_t> z(std::max<size_t>(1, qs.size()), 0), bz = z; double bv = q.evaluate(z.begin());
      do { double v = q.evaluate(z.begin()); if(ACC::bop(v, bv)) { bv = v; bz = z; } } while(nextLabeling(qs, z));
      best.push_back(std::vector<L>(bz.begin(), bz.begin() + static_cast<long>(qs.size()))); GM::OperatorType::op(bv, total);
   }
   std::vector<L> o; man.modifiedSubStates2OriginalState(best, o); Vs ox(o.begin(), o.end());
   r.ev(J("tentbuilt").s("acc", AccStr<ACC>::n()).a("s", s).a("t", t).aa("x", xs).a("sx", ox).n("sv", total));
}
template<class GM, class ACC> void history(Rec& r, const std::string& structure, bool tentacles) {
   tr::Rng& g = r.rng; GenCfg c = cfgFor<GM>(); c.structure = structure; c.maxV = r.thorough ? 7 : 6; if(structure == "tree") c.maxOrder = 2 + g.below(2);
   TModel tm = genModel(g, c, OpStr<typename GM::OperatorType>::n());
   J j("model"); r.ev(tm.json(j)); GM gm = realise<GM>(tm); typedef GraphicalModelManipulator<GM> M; typedef typename GM::LabelType L;
   bool drop = !tentacles && g.chance(25); M man(gm, drop ? M::DROP : M::FIX); r.ev(J("manip").s("mode", drop ? "drop" : "fix"));
   size_t n = tm.sp.size();
   for(int round = 0; round < 3; ++round) {
      size_t steps = g.below(n + 3);
      for(size_t k = 0; k < steps; ++k) {
         size_t v = g.below(n), what = g.below(10);
         if(what < 7) { size_t l = g.below(tm.sp[v]); man.fixVariable(v, static_cast<L>(l)); r.ev(J("fix").i("v", static_cast<long>(v)).i("lab", static_cast<long>(l))); }
         else if(what < 9) { man.freeVariable(v); r.ev(J("free").i("v", static_cast<long>(v))); }
         else if(g.chance(30)) { man.freeAllVariables(); r.ev(J("freeall")); }
      }
      flags<M, L>(r, man, n);
      if(tentacles && g.chance(80)) {
         man.template lockAndTentacelElimination<ACC>(); r.ev(J("tent")); flags<M, L>(r, man, n); tentBuilt<GM, ACC>(r, man);
      } else {
         // locking happens explicitly or by building
         if(g.chance(60)) { man.lock(); r.ev(J("lock")); size_t w = g.below(3);
            if(w == 0) { man.buildModifiedModel(); man.buildModifiedSubModels(); built(r, man); sub(r, man); }
            else if(w == 1) { man.buildModifiedSubModels(); sub(r, man); man.buildModifiedModel(); built(r, man); }
            else { man.buildModifiedModel(); built(r, man); man.buildModifiedModel(); built(r, man); man.buildModifiedSubModels(); sub(r, man); } }
         else if(g.chance(50)) { man.buildModifiedModel(); r.ev(J("lock")); built(r, man); }
         else { man.buildModifiedSubModels(); r.ev(J("lock")); sub(r, man); }
         flags<M, L>(r, man, n);
      }
      man.unlock(); r.ev(J("unlock")); flags<M, L>(r, man, n);
   }
}
template<class GM, class ACC> void reg(tr::Driver& d, const std::string& t) {
   static const char* st[9] = {"any", "any", "tree", "chain", "cycle", "grid", "random", "hyper", "discon"};
   for(size_t k = 0; k < d.n(72, 1200); ++k) { std::string s = st[k % 9]; d.add("fix-" + t + "-" + s + "-" + std::to_string(k), [s](Rec& r) { history<GM, ACC>(r, s, false); }); }
   for(size_t k = 0; k < d.n(72, 1200); ++k) { std::string s = st[k % 9]; d.add("tent-" + t + "-" + s + "-" + std::to_string(k), [s](Rec& r) { history<GM, ACC>(r, s, true); }); }
}
void part(tr::Driver& d) {
#if PART == 0
   reg<Models<Adder>::Mix, Minimizer>(d, "add-min-mix"); reg<Models<Adder>::Ex, Maximizer>(d, "add-max-ex");
#else
   reg<Models<Multiplier>::Mix, Maximizer>(d, "mul-max-mix"); reg<Models<Adder, float, unsigned, unsigned>::Ex, Minimizer>(d, "add-min-f");
#endif
}
DRIVER_MAIN(part)
