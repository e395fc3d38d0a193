// Indicator variables, linear constraints, constraint and cost functions.
#include "constr.hxx"
using namespace opengm; using tr::Rec; using tr::J;

template<class T, class I, class L> struct Bench : Constr<T, I, L> {
   typedef Constr<T, I, L> C; typedef typename C::IV IV; typedef typename C::LC LC; typedef typename C::VL VL; typedef DiscreteSpace<I, L> Space;
   typedef GraphicalModel<T, Adder, typename meta::TypeListGenerator<typename C::Order, typename C::Limit, typename C::Linear, typename C::Cost, typename C::Sum>::type, Space> GM;
   Rec& r; tr::Rng& g; explicit Bench(Rec& rec) : r(rec), g(rec.rng) {}
   template<class F> Ls evalAll(const F& f, const Vs& s) { Ls t; Vs x(s.size(), 0); std::vector<L> y(x.size(), 0); do { std::copy(x.begin(), x.end(), y.begin()); t.push_back(tr::num(static_cast<double>(f(y.begin())))); } while(nextLabeling(s, x)); return t; }
   void indicators() {
      Vs s = C::shape(g); std::vector<IV> all; std::vector<std::string> js;
      for(size_t i = 0; i < 6; ++i) {
         std::vector<VL> p; typename IV::LogicalOperatorType o = C::lop(g);
         if(i > 0 && g.chance(40)) { p.assign(all[0].begin(), all[0].end()); g.shuffle(p); o = all[0].getLogicalOperatorType(); if(!p.empty() && g.chance(60)) { size_t k = g.below(p.size()); p[k].second = static_cast<L>(g.below(s[p[k].first])); } } else p = C::pairs(g, s, g.below(4));
         IV v = C::build(g, p, o); r.ev(J("iv").a("s", s).raw("iv", C::jPairs(p, o)).raw("got", jIv(v)).a("t", evalAll(v, s))); all.push_back(v); js.push_back(C::jPairs(p, o));
      }
      for(size_t i = 0; i < all.size(); ++i) for(size_t j = 0; j < all.size(); ++j)
         r.ev(J("cmp").raw("a", js[i]).raw("b", js[j]).t("eq", all[i] == all[j]).t("ne", all[i] != all[j]).t("lt", all[i] < all[j]).t("gt", all[i] > all[j]).t("le", all[i] <= all[j]).t("ge", all[i] >= all[j]));
   }
   void constraints() {
      typedef typename LC::LinearConstraintOperatorType R; Vs s = C::shape(g); std::vector<std::string> iv; Ls co; long b = 0; std::string rel = "LE"; LC c;
      auto name = [](typename LC::LinearConstraintOperatorValueType o) { return o == R::LessEqual ? "LE" : o == R::Equal ? "EQ" : "GE"; };
      auto some = [&](std::vector<IV>& v, std::vector<T>& k) { size_t n = g.below(4); for(size_t i = 0; i < n; ++i) { v.push_back(C::indicator(g, s)); k.push_back(static_cast<T>(g.range(-3, 3))); iv.push_back(jIv(v.back())); co.push_back(static_cast<long>(k.back())); } };
      { std::vector<IV> v; std::vector<T> k; long bb = g.range(-2, 3); auto o = C::rel(g);
        switch(g.below(4)) {
        case 0: some(v, k); b = bb; rel = name(o); c = LC(v, k, static_cast<T>(bb), o); break;
        case 1: some(v, k); b = bb; rel = name(o); c = LC(v.begin(), v.end(), k.begin(), static_cast<T>(bb), o); break;
        case 2: some(v, k); b = bb; c = LC(v, k, static_cast<T>(bb)); break;
        default: if(g.chance(50)) c.reserve(4); } }
      for(size_t t = 0; t < 6; ++t) {
         std::vector<IV> v; std::vector<T> k;
         switch(g.below(5)) {
         case 0: { some(v, k); if(g.chance(50)) c.add(v, k); else c.add(v.begin(), v.end(), k.begin()); break; }
         case 1: { some(v, k); for(size_t i = 0; i < v.size(); ++i) c.add(v[i], k[i]); break; }
         case 2: b = g.range(-3, 4); c.setBound(static_cast<T>(b)); break;
         case 3: { auto o = C::rel(g); rel = name(o); c.setConstraintOperator(o); break; }
         default: { LC d(c); if(g.chance(50)) c = d; } }
         r.ev(J("con").a("s", s).raw("con", J().raw("iv", tr::jarr(iv)).a("c", co).i("b", b).s("r", rel).str()).raw("got", jCon(c)).a("t", evalAll(c, s))); if(co.size() > 10) break;
      }
   }
   template<class F> void seeFn(const F& f, const std::string& d) { seeFn(f, d, std::integral_constant<bool, std::is_base_of<LinearConstraintFunctionBase<F>, F>::value>(), 0); }
   template<class F> J base(const F& f, const std::string& d) {
      Vs s = shapeOfF(f); auto mm = f.minMax(); return J("fn").raw("f", d).a("s", s).i("dim", tr::idx(f.dimension())).i("size", tr::idx(f.size())).a("t", tableOfF<L>(f, s)).n("mn", static_cast<double>(f.min())).n("mx", static_cast<double>(f.max())).a("mm", std::vector<double>{static_cast<double>(mm.min()), static_cast<double>(mm.max())}).t("lin", f.isLinearConstraint());
   }
   template<class F> void seeFn(const F& f, const std::string& d, std::true_type, int) { J e = base(f, d); e.raw("cons", jCons(f.linearConstraintsBegin(), f.linearConstraintsEnd())).raw("ord", jIvs(f.indicatorVariablesOrderBegin(), f.indicatorVariablesOrderEnd())); r.ev(e); }
   template<class F> void seeFn(const F& f, const std::string& d, std::false_type, int) { J e = base(f, d); e.raw("cons", "[]").raw("ord", "[]"); r.ev(e); }
   // violated constraints for a labeling, and for values given to the indicators
   template<class F> void challenge(const F& f, size_t n) { challenge(f, n, std::integral_constant<bool, std::is_base_of<LinearConstraintFunctionBase<F>, F>::value>()); }
   template<class F> void challenge(const F&, size_t, std::false_type) {}
   template<class F> void challenge(const F& f, size_t n, std::true_type) {
      typedef LinearConstraintFunctionTraits<F> Tr; Vs s = shapeOfF(f); const double scale = std::is_integral<T>::value ? 1 : 4; size_t m = static_cast<size_t>(std::distance(f.indicatorVariablesOrderBegin(), f.indicatorVariablesOrderEnd()));
      for(size_t t = 0; t < n; ++t) {
         typename Tr::ViolatedLinearConstraintsIteratorType b, e; typename Tr::ViolatedLinearConstraintsWeightsIteratorType w; bool rel = g.chance(50), def = g.chance(40); long tol = def ? 0 : static_cast<long>(g.below(std::is_integral<T>::value ? 3 : 9)); J ev(rel ? "relaxed" : "challenge");
         if(rel) { Ls y; std::vector<double> z; bool half = g.chance(50); for(size_t i = 0; i < m; ++i) { long q = half ? static_cast<long>(g.below(5)) : 4 * static_cast<long>(g.below(2)); if(scale == 1) q = g.range(-1, 2); y.push_back(q); z.push_back(q / scale); } ev.a("y", y); if(def) f.challengeRelaxed(b, e, w, z.begin()); else f.challengeRelaxed(b, e, w, z.begin(), static_cast<T>(tol / scale)); }
         else { Vs x = someLabeling(g, s); std::vector<L> y(x.begin(), x.end()); ev.a("x", x); if(def) f.challenge(b, e, w, y.begin()); else f.challenge(b, e, w, y.begin(), static_cast<T>(tol / scale)); }
         Ls ids, ws; for(; b != e; ++b) { ids.push_back(static_cast<long>(&*b - &*f.linearConstraintsBegin())); ws.push_back(tr::fix(static_cast<double>(*w), scale)); ++w; if(ids.size() > 50) break; }
         r.ev(ev.i("scale", static_cast<long>(scale)).i("tol", tol).a("ids", ids).a("ws", ws));
      }
   }
   template<class F> void all(const F& f0, const std::string& d, const Vs& s) {
      F f(f0); size_t way = g.below(4); if(way == 1) { F h; h = f; f = h; }
      if(way == 2 || way == 3) {   // the serialised form restores the function
         typedef FunctionSerialization<F> Ser; std::vector<unsigned long long> ix(Ser::indexSequenceSize(f) + 2, 77); std::vector<T> vx(Ser::valueSequenceSize(f) + 2, static_cast<T>(77));
         std::vector<unsigned long long> i0 = ix; std::vector<T> v0 = vx; Ser::serialize(f, ix.begin(), vx.begin()); bool ok = ix[ix.size() - 1] == 77 && ix[ix.size() - 2] == 77 && vx[vx.size() - 1] == 77 && vx[vx.size() - 2] == 77;
         F h; Ser::deserialize(ix.begin(), vx.begin(), h); f = h; r.ev(J("serial").t("ok", ok));
      }
      seeFn(f, d); challenge(f, r.thorough ? 14 : 8);
      GM gm; { std::vector<L> ls(s.begin(), s.end()); gm = GM(Space(ls.begin(), ls.end())); std::vector<I> vi; for(size_t i = 0; i < s.size(); ++i) vi.push_back(static_cast<I>(i)); gm.addFactor(gm.addFunction(f), vi.begin(), vi.end()); }
      struct Ev { const GM& m; double operator()(typename std::vector<L>::const_iterator y) const { return static_cast<double>(m.evaluate(y)); } }; Ev ev = {gm}; if(g.chance(50)) r.ev(J("model").a("t", tableOfF<L>(gm[0], s))); else { Vs x(s.size(), 0); std::vector<L> y(x.size(), 0); Ls t; do { std::copy(x.begin(), x.end(), y.begin()); t.push_back(tr::num(ev(y.begin()))); } while(nextLabeling(s, x)); r.ev(J("model").a("t", t)); }
   }
   void functions(bool big) {
      std::string d; Vs s;
      { auto f = C::order(g, d, s); all(f, d, s); } { auto f = C::limit(g, d, s, big); all(f, d, s); } { auto f = C::linear(g, d, s, big); all(f, d, s); } { auto f = C::cost(g, d, s, big); all(f, d, s); } { auto f = C::sum(g, d, s, big); all(f, d, s); }
   }
};
template<class T, class I, class L> void iv(Rec& r) { Bench<T, I, L>(r).indicators(); }
template<class T, class I, class L> void con(Rec& r) { Bench<T, I, L>(r).constraints(); }
template<class T, class I, class L> void fn(Rec& r) { Bench<T, I, L>(r).functions(false); }
template<class T, class I, class L> void big(Rec& r) { Bench<T, I, L>(r).functions(true); }
template<class T, class I, class L> void reg(tr::Driver& d, const char* n, size_t a) {
   std::string p = n; for(size_t i = 0; i < d.n(a, a * 15); ++i) { std::string k = "-" + std::to_string(i); d.add(p + "fn" + k, fn<T, I, L>); if(i % 3 == 0) { d.add(p + "iv" + k, iv<T, I, L>); d.add(p + "con" + k, con<T, I, L>); } if(i % 20 == 0) d.add(p + "big" + k, big<T, I, L>); }
}
void part(tr::Driver& d) {
#if PART == 0
   reg<double, size_t, size_t>(d, "d", 110);
#elif PART == 1
   reg<float, unsigned, unsigned char>(d, "f", 60);
#else
   reg<int, size_t, unsigned short>(d, "i", 60);
#endif
}
DRIVER_MAIN(part)
