// View functions: plain, scaled, converting, fixing, accumulating, with offset.
#include "world.hxx"
#include <opengm/functions/view.hxx>
#include <opengm/functions/scaled_view.hxx>
#include <opengm/functions/view_convert_function.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/functions/accumulated_view.hxx>
#include <opengm/functions/modelviewfunction.hxx>
using namespace opengm; using tr::Rec; using tr::J;

template<class Op, class T, class I, class L> struct Bench {
   typedef Learn<T, I, L> LE; typedef DiscreteSpace<I, L> Space; typedef marray::Marray<T> Arr;
   typedef GraphicalModel<T, Op, typename meta::TypeListGenerator<ExplicitFunction<T, I, L>, PottsFunction<T, I, L>, typename LE::Potts, typename LE::Sum>::type, Space> G1;
   typedef ViewFunction<G1> V1; typedef ScaledViewFunction<G1> S1; typedef ViewFixVariablesFunction<G1> F1; typedef AccumulatedViewFunction<G1> A1; typedef ModelViewFunction<G1, Arr> M1;
   typedef GraphicalModel<T, Op, typename meta::TypeListGenerator<V1, S1, F1, A1, M1, ExplicitFunction<T, I, L> >::type, Space> G2;
   typedef ViewFunction<G2> V2; typedef ScaledViewFunction<G2> S2; typedef ViewFixVariablesFunction<G2> F2; typedef AccumulatedViewFunction<G2> A2; typedef ModelViewFunction<G2, Arr> M2;
   Rec& r; tr::Rng& g; bool mul; Vs sp; typename LE::W w; size_t nEnt = 0; std::vector<std::unique_ptr<Arr> > arrs; Vs arrId; std::vector<Vs> arrS;
   G1 g1; std::vector<Vs> fv1; Vs id1; G2 g2; std::vector<Vs> fv2; Vs id2; std::vector<std::function<void()> > looks;
   explicit Bench(Rec& rec) : r(rec), g(rec.rng), mul(std::string(OpStr<Op>::n()) == "mul"), w(3) {}
   long val() { return mul ? g.range(1, 3) : g.range(-4, 5); }
   size_t def(const Ent& e) { r.ev(J("def").raw("e", e.json())); return ++nEnt; }
   Vs shapeOf(const Vs& v) { Vs s; for(size_t a : v) s.push_back(sp[a]); return s; }
   Vs scope(size_t lo, size_t hi) { Vs v = somePick(g, sp.size(), lo + g.below(hi - lo + 1)); std::sort(v.begin(), v.end()); return v; }
   template<class GM> void put(GM& gm, const typename GM::FunctionIdentifier& f, const Vs& v) { std::vector<I> vi(v.begin(), v.end()); gm.addFactor(f, vi.begin(), vi.end()); }
   size_t array(const Vs& s) { Ent e; e.k = "arr"; e.s = s; for(size_t i = 0; i < prodOf(s); ++i) e.t.push_back(val()); arrs.emplace_back(new Arr(arrayOf<T>(s, e.t))); arrId.push_back(def(e)); arrS.push_back(s); return arrs.size() - 1; }
   void base() {
      size_t n = 3 + g.below(3); size_t u = 1 + g.below(3); bool uni = g.chance(50); for(size_t i = 0; i < n; ++i) sp.push_back(uni ? u : 1 + g.below(3));
      Ls ws; for(size_t i = 0; i < 3; ++i) { ws.push_back(mul ? g.range(1, 2) : g.range(-2, 3)); w.setWeight(i, static_cast<T>(ws[i])); }
      r.ev(J("start").s("opr", OpStr<Op>::n()).a("w", ws)); std::vector<L> ls(sp.begin(), sp.end()); g1 = G1(Space(ls.begin(), ls.end())); g2 = G2(Space(ls.begin(), ls.end()));
      size_t nf = 4 + g.below(4);
      for(size_t i = 0; i < nf; ++i) {
         Vs v = (i > 0 && g.chance(45)) ? fv1[g.below(fv1.size())] : scope(1, 3); Vs s = shapeOf(v); Ent e; size_t kind = g.below(4); typename G1::FunctionIdentifier id;
         if(kind == 1 && v.size() == 2) { long a = val(), b = val(); e.k = "tab"; e.s = s; for(size_t y = 0; y < s[1]; ++y) for(size_t x = 0; x < s[0]; ++x) e.t.push_back(x == y ? a : b); id = g1.addFunction(PottsFunction<T, I, L>(static_cast<L>(s[0]), static_cast<L>(s[1]), static_cast<T>(a), static_cast<T>(b))); }
         else if(kind == 2 && v.size() == 2 && s[0] == s[1] && !mul) id = g1.addFunction(LE::potts(g, w, s[0], e));
         else if(kind == 3) id = g1.addFunction(LE::sum(g, w, s, e, mul ? 1 : -3, mul ? 2 : 3));
         else { e.k = "tab"; e.s = s; for(size_t k = 0; k < prodOf(s); ++k) e.t.push_back(val()); Fn f; f.k = "explicit"; f.s = s; f.p = e.t; id = g1.addFunction(Make<ExplicitFunction<T, I, L> >::make(f)); }
         put(g1, id, v); fv1.push_back(v); id1.push_back(def(e));
      }
   }
   template<class GM> std::vector<PositionAndLabel<I, L> > fixing(const Vs& v, Ent& e, Vs& rest) {
      std::vector<PositionAndLabel<I, L> > pl; Vs ps; for(size_t p = 0; p < v.size(); ++p) if(g.chance(g.chance(15) ? 100 : 45)) ps.push_back(p); else rest.push_back(v[p]);
      if(g.chance(30)) g.shuffle(ps); for(size_t p : ps) { size_t l = g.below(sp[v[p]]); pl.push_back(PositionAndLabel<I, L>(static_cast<I>(p), static_cast<L>(l))); e.pos.push_back(p); e.lab.push_back(l); } return pl;
   }
   // one view of a factor of gm; keep(function, variables, entity) stores it
   template<class GM, class K> void view(GM& gm, const std::vector<Vs>& fv, const Vs& id, K keep) {
      size_t f = g.below(fv.size()); Ent e; Vs v = fv[f], rest; e.of.push_back(id[f]); long c = mul ? g.range(1, 2) : g.range(-2, 3);
      switch(g.below(9)) {
      case 0: { e.k = "view"; ViewFunction<GM> q(gm[f]); keep(q, v, def(e)); break; }
      case 1: { e.k = "scale"; e.c = c; ScaledViewFunction<GM> q(gm, static_cast<I>(f), static_cast<T>(c)); keep(q, v, def(e)); break; }
      case 2: { e.of.clear(); v = scope(1, 3); e.k = "const"; e.s = shapeOf(v); e.c = mul ? 1 : 0; std::vector<I> s(e.s.begin(), e.s.end()); ScaledViewFunction<GM> q(s); keep(q, v, def(e)); break; }
      case 3: case 4: { e.k = "fix"; auto pl = fixing<GM>(v, e, rest); if(g.chance(50)) { ViewFixVariablesFunction<GM> q(gm[f], pl); keep(q, rest, def(e)); } else { FastSequence<PositionAndLabel<I, L> > fs; for(size_t i = 0; i < pl.size(); ++i) fs.push_back(pl[i]); ViewFixVariablesFunction<GM> q(gm[f], fs); keep(q, rest, def(e)); } break; }
      case 5: { e.k = "comb"; e.of.clear(); std::vector<typename GM::FactorType const*> ps; for(size_t j = 0; j < fv.size(); ++j) if(fv[j] == v && (j == f || g.chance(70))) { ps.push_back(&gm[j]); e.of.push_back(id[j]); } if(ps.size() == 1) { AccumulatedViewFunction<GM> q(*ps[0]); keep(q, v, def(e)); } else { AccumulatedViewFunction<GM> q(ps.begin(), ps.end()); keep(q, v, def(e)); } break; }
      case 6: { e.k = "scale"; e.c = c; ModelViewFunction<GM, Arr> q(gm, static_cast<I>(f), static_cast<T>(c)); keep(q, v, def(e)); break; }
      case 7: { if(v.empty()) return; size_t a = array(shapeOf(v)); e.k = "sumoff"; e.c = c; e.of.push_back(arrId[a]); ModelViewFunction<GM, Arr> q(gm, static_cast<I>(f), static_cast<T>(c), arrs[a].get()); keep(q, v, def(e)); break; }
      default: { v = scope(1, 2); size_t a = array(shapeOf(v)); e.k = "view"; e.of.assign(1, arrId[a]); ModelViewFunction<GM, Arr> q(arrs[a].get()); keep(q, v, def(e)); }
      }
   }
   template<class GM> void convert(GM& gm, const std::vector<Vs>& fv, const Vs& id) {
      size_t f = g.below(fv.size()); if(fv[f].empty()) return; long c = 1 + static_cast<long>(g.below(2)); bool hot = g.chance(50); if(!hot) c = 1;
      if(g.chance(50)) { typedef ViewConvertFunction<GM, Maximizer, double> C; conv(hot ? C(gm[f], static_cast<double>(c)) : C(gm[f]), id[f], mul ? "id" : "log", c); }
      else { typedef ViewConvertFunction<GM, Minimizer, double> C; conv(hot ? C(gm[f], static_cast<double>(c)) : C(gm[f]), id[f], mul ? "rec" : "log", -c); }
   }
   template<class F> void conv(const F& f, size_t id, const std::string& how, long c) {
      Vs s = shapeOfF(f); std::vector<double> t = tableOfF<L>(f, s); auto rd = [&](double v) { return how == "id" ? v : how == "rec" ? 1.0 / v : std::log(v); }; for(double& v : t) v = rd(v);
      J e("conv"); e.i("i", static_cast<long>(id)).s("conv", how == "rec" ? "id" : how).i("c", c).a("s", s).i("dim", tr::idx(f.dimension())).i("size", tr::idx(f.size())).a("t", t);
      if(how != "rec") e.n("mx", rd(static_cast<double>(f.max()))).n("mn", rd(static_cast<double>(f.min()))); r.ev(e);
   }
   void total() { Vs x = someLabeling(g, sp); std::vector<L> y(x.begin(), x.end()); r.ev(J("total").a("of", id2).aa("vs", fv2).a("x", x).n("v", static_cast<double>(g2.evaluate(y.begin())))); }
   void run() {
      base(); for(size_t i = 0; i < fv1.size(); ++i) seeFactor<L>(r, id1[i], g1[i]);
      size_t nv = 4 + g.below(mul ? 3 : 6);
      for(size_t i = 0; i < nv; ++i) view(g1, fv1, id1, [&](const auto& q, const Vs& v, size_t id) { see<L>(r, id, q); auto c = q; looks.push_back([this, id, c]() { see<L>(r, id, c); }); put(g2, g2.addFunction(q), v); fv2.push_back(v); id2.push_back(id); });
      if(fv2.empty()) return;
      for(size_t i = 0; i < fv2.size(); ++i) seeFactor<L>(r, id2[i], g2[i]);
      for(size_t i = 0; i < (mul ? 2u : 4u); ++i) view(g2, fv2, id2, [&](const auto& q, const Vs&, size_t id) { see<L>(r, id, q); auto c = q; looks.push_back([this, id, c]() { see<L>(r, id, c); }); });
      if(!mul) total(); convert(g1, fv1, id1); convert(g2, fv2, id2);
      for(size_t t = 0; t < (r.thorough ? 30u : 10u); ++t) {
         switch(g.below(4)) {
         case 0: { size_t k = g.below(3); long v = mul ? g.range(1, 2) : g.range(-2, 3); w.setWeight(k, static_cast<T>(v)); r.ev(J("setw").i("k", static_cast<long>(k)).i("v", v)); break; }
         case 1: { if(arrs.empty()) break; size_t a = g.below(arrs.size()); size_t k = g.below(prodOf(arrS[a])); long v = val(); size_t q = k; Vs x; for(size_t l : arrS[a]) { x.push_back(q % l); q /= l; } (*arrs[a])(x.begin()) = static_cast<T>(v); r.ev(J("seta").i("i", static_cast<long>(arrId[a])).i("r", static_cast<long>(k)).i("v", v)); break; }
         case 2: convert(g1, fv1, id1); break;
         default: if(!mul) total(); }
         looks[g.below(looks.size())](); size_t j = g.below(fv2.size()); seeFactor<L>(r, id2[j], g2[j]);
      }
   }
};
template<class Op, class T, class I, class L> void one(Rec& r) { Bench<Op, T, I, L> b(r); b.run(); }
void part(tr::Driver& d) {
#if PART == 0
   for(size_t i = 0; i < d.n(110, 1500); ++i) d.add("add-" + std::to_string(i), one<Adder, double, size_t, size_t>);
#elif PART == 1
   for(size_t i = 0; i < d.n(50, 800); ++i) d.add("mul-" + std::to_string(i), one<Multiplier, double, unsigned, unsigned char>);
#else
   for(size_t i = 0; i < d.n(50, 800); ++i) d.add("int-" + std::to_string(i), one<Adder, int, size_t, size_t>);
#endif
}
DRIVER_MAIN(part)
