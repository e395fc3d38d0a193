// Algebra of factors, independent factors and scalars.
#include "gmzoo.hxx"
#include <opengm/operations/integrator.hxx>
using namespace opengm;
using tr::Rec; using tr::J;

template<class F> std::string tableOf(const F& f) {
   Vs v, s; for(size_t i = 0; i < f.numberOfVariables(); ++i) { v.push_back(f.variableIndex(i)); s.push_back(f.numberOfLabels(i)); if(f.numberOfLabels(i) != f.shape(i)) s.back() = 999; }
   std::vector<double> t; std::vector<size_t> x(std::max<size_t>(1, s.size()), 0); if(f.size() == prodOf(s)) do t.push_back(static_cast<double>(f(x.begin()))); while(nextLabeling(s, x));
   Vs w(f.variableIndicesBegin(), f.variableIndicesEnd()), sh; if(!v.empty()) sh.assign(f.shapeBegin(), f.shapeEnd()); if(w != v || sh != s) v.push_back(999);
   return J().a("v", v).a("s", s).a("t", t).str();
}
template<class T> struct Max2F { T operator()(T a, T b) const { return a > b ? a : b; } };
template<class T> struct LinF { T operator()(T a, T b) const { return a - 2 * b; } };      // not symmetric
template<class T> struct Neg { T operator()(T a) const { return -a; } }; template<class T> struct Dbl { T operator()(T a) const { return 2 * a; } };
template<class T> struct Inc { T operator()(T a) const { return a + 1; } }; template<class T> struct Sqr { T operator()(T a) const { return a * a; } };

template<class GM> struct Bench {
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L; typedef IndependentFactor<T, I, L> IF;
   Rec& r; tr::Rng& g; GM gm; std::vector<size_t> big; IF s[6]; Shape sp;
   // slots 0-5 are independent factors, slots 6-11 factors of the model
   explicit Bench(Rec& rec) : r(rec), g(rec.rng) {}
   void look(size_t i) {
      Vs x = someLabeling(g, sp); std::vector<L> xl(x.begin(), x.end()); std::string q; J e("look"); e.i("i", static_cast<long>(6 + i)).raw("r", tableOf(gm[i])); std::vector<T> cv(gm[i].size()), sw(gm[i].size()); gm[i].copyValues(cv.begin()); gm[i].copyValuesSwitchedOrder(sw.begin());
      Vs sub; for(auto it = gm[i].gmToFactorLabelsBegin(xl.begin()); it != gm[i].gmToFactorLabelsEnd(xl.begin()); ++it) sub.push_back(*it); if(sub.empty()) return;
      r.ev(e.a("cv", cv).a("sw", sw).a("x", x).a("sub", sub).n("fx", static_cast<double>(gm[i](gm[i].gmToFactorLabelsBegin(xl.begin())))));
   }
   void build() {
      GenCfg c = cfgFor<GM>(); c.minV = 3; c.maxV = 6; c.maxStates = 200; c.lo = -4; c.hi = 4; TModel m = genModel(g, c, "add"); while(m.fa.size() < 6) addFac(g, m, c, somePick(g, m.sp.size(), 1 + g.below(3))); m.fa.resize(6); sp = m.sp; gm = realise<GM>(m);
      for(size_t i = 0; i < 6; ++i) { r.ev(J("new").i("dst", static_cast<long>(6 + i)).a("w", m.fa[i].v).a("s", m.shapeOf(m.fa[i].v)).raw("t", tab(m.fa[i].f)).raw("r", tableOf(gm[i]))); look(i); }
      for(size_t i = 0; i < 6; ++i) fresh(i);
   }
   std::string tab(const Fn& f) { typename GM::FunctionIdentifier id; (void)id; TModel m; m.sp = f.s; TFac a; for(size_t i = 0; i < f.s.size(); ++i) a.v.push_back(i); a.f = f; m.fa.push_back(a); if(f.s.empty()) return J().a("t", f.p).str().substr(4, std::string::npos).substr(0, 0) + "[" + std::to_string(f.p[0]) + "]"; std::vector<long> t = fullTable(realise<GM>(m)); std::string q = "["; for(size_t i = 0; i < t.size(); ++i) q += (i ? "," : "") + std::to_string(t[i]); return q + "]"; }
   Vs scope() { Vs v = somePick(g, sp.size(), g.below(4)); std::sort(v.begin(), v.end()); return v; }
   Vs shapeOf(const Vs& v) { Vs q; for(size_t a : v) q.push_back(sp[a]); return q; }
   bool small(size_t i) { double m = 0; for(size_t k = 0; k < s[i].size(); ++k) m = std::max(m, std::fabs(static_cast<double>(s[i].function()(k)))); return m < 2000; }
   void fill(size_t i, long lo, long hi, long mult = 1, bool nozero = false) {
      Vs v = scope(), q = shapeOf(v); std::vector<I> vi(v.begin(), v.end()); IF f; 
      switch(g.below(4)) { case 0: f = IF(vi.begin(), vi.end(), q.begin(), q.end(), T(1)); break; case 1: f.assign(vi.begin(), vi.end(), q.begin(), q.end(), T(1)); break; case 2: f = IF(gm, vi.begin(), vi.end(), T(1)); break; default: f.assign(gm, vi.begin(), vi.end(), T(1)); }
      std::vector<long> t; std::vector<size_t> x(std::max<size_t>(1, v.size()), 0); do { long a = g.range(lo, hi); if(nozero && a == 0) a = 1; t.push_back(a * mult); f(x.begin()) = static_cast<T>(a * mult); } while(nextLabeling(q, x));
      s[i] = f; r.ev(J("new").i("dst", static_cast<long>(i)).a("w", v).a("s", q).a("t", t).raw("r", tableOf(s[i])));
   }
   void fresh(size_t i) {
      if(g.chance(70)) { fill(i, -4, 4); return; }
      Vs v = scope(), q = shapeOf(v); std::vector<I> vi(v.begin(), v.end()); long c = g.range(-4, 4);
      switch(g.below(6)) { case 0: s[i] = IF(vi.begin(), vi.end(), q.begin(), q.end(), static_cast<T>(c)); break; case 1: s[i].assign(vi.begin(), vi.end(), q.begin(), q.end(), static_cast<T>(c)); break;
      case 2: s[i] = IF(gm, vi.begin(), vi.end(), static_cast<T>(c)); break; case 3: s[i].assign(gm, vi.begin(), vi.end(), static_cast<T>(c)); break;
      case 4: s[i].assign(static_cast<T>(c)); v.clear(); q.clear(); break; default: s[i] = IF(static_cast<T>(c)); v.clear(); q.clear(); }
      r.ev(J("const").i("dst", static_cast<long>(i)).a("w", v).a("s", q).i("c", c).raw("r", tableOf(s[i])));
   }
   static std::string so(size_t i) { return J().s("k", "slot").i("i", static_cast<long>(i)).str(); }
   static std::string vo(long c) { return J().s("k", "val").i("i", c).str(); }
   J bin(const std::string& f, const std::string& a, const std::string& b, size_t d) { return J("bin").s("f", f).raw("a", a).raw("b", b).i("dst", static_cast<long>(d)).raw("r", tableOf(s[d])); }
   template<class Op> void binary(const std::string& f, Op op) {
      size_t a = g.below(6), b = g.below(6), d = g.below(6), m = g.below(6), n = g.below(6); long c = g.range(-3, 3);
      while(d == a || d == b) d = g.below(6);
      switch(g.below(13)) {
      case 0: operateBinary(s[a], s[b], s[d], op); r.ev(bin(f, so(a), so(b), d)); break;
      case 1: operateBinary(s[a], gm[m], s[d], op); r.ev(bin(f, so(a), so(6 + m), d)); break;
      case 2: operateBinary(gm[m], s[b], s[d], op); r.ev(bin(f, so(6 + m), so(b), d)); break;
      case 3: operateBinary(gm[m], gm[n], s[d], op); r.ev(bin(f, so(6 + m), so(6 + n), d)); break;
      case 4: operateBinary(s[a], static_cast<T>(c), s[d], op); r.ev(bin(f, so(a), vo(c), d)); break;
      case 5: operateBinary(static_cast<T>(c), s[b], s[d], op); r.ev(bin(f, vo(c), so(b), d)); break;
      case 6: operateBinary(gm[m], static_cast<T>(c), s[d], op); r.ev(bin(f, so(6 + m), vo(c), d)); break;
      case 7: s[d].operateBinary(s[a], s[b], op); r.ev(bin(f, so(a), so(b), d)); break;
      case 8: s[d].operateBinary(s[a], op); r.ev(bin(f, so(d), so(a), d)); break;
      case 9: s[d].operateBinary(gm[m], op); r.ev(bin(f, so(d), so(6 + m), d)); break;
      case 10: s[d].operateBinary(static_cast<T>(c), op); r.ev(bin(f, so(d), vo(c), d)); break;
      case 11: operateBinary(s[d], s[a], op); r.ev(bin(f, so(d), so(a), d)); break;
      default: operateBinary(s[d], static_cast<T>(c), op); r.ev(bin(f, so(d), vo(c), d));
      }
   }
   template<class Op> void unary(const std::string& f, Op op) {
      size_t a = g.below(6), d = g.below(6), m = g.below(6); J e("un"); e.s("f", f);
      switch(g.below(4)) { case 0: if(a == d) return; operateUnary(s[a], s[d], op); e.raw("a", so(a)); break; case 1: operateUnary(gm[m], s[d], op); e.raw("a", so(6 + m)); break; case 2: operateUnary(s[d], op); e.raw("a", so(d)); break; default: s[d].operateUnary(op); e.raw("a", so(d)); }
      r.ev(e.i("dst", static_cast<long>(d)).raw("r", tableOf(s[d])));
   }
   void symbols() {   // the operators of the language
      size_t a = g.below(6), b = g.below(6), d = g.below(6), m = g.below(6), n = g.below(6); T c = static_cast<T>(g.range(-3, 3)); long cl = static_cast<long>(c); std::string A = so(a), B = so(b);
#define SYM(NAME, O, OI) switch(g.below(11)) { \
      case 0: s[d] = s[a] O s[b]; break; case 1: s[d] = s[a] O c; B = vo(cl); break; case 2: s[d] = c O s[b]; A = vo(cl); break; \
      case 3: s[d] = gm[m] O gm[n]; A = so(6 + m); B = so(6 + n); break; case 4: s[d] = gm[m] O s[b]; A = so(6 + m); break; case 5: s[d] = s[a] O gm[n]; B = so(6 + n); break; \
      case 6: s[d] = gm[m] O c; A = so(6 + m); B = vo(cl); break; case 7: s[d] = c O gm[n]; A = vo(cl); B = so(6 + n); break; \
      case 8: s[d] OI s[b]; A = so(d); break; case 9: s[d] OI gm[n]; A = so(d); B = so(6 + n); break; default: s[d] OI c; A = so(d); B = vo(cl); } r.ev(bin(NAME, A, B, d));
      switch(g.below(5)) { case 0: SYM("plus", +, +=) break; case 1: SYM("minus", -, -=) break; case 2: SYM("times", *, *=) break; case 3: SYM("or", ||, |=) break; default: SYM("and", &&, &=) }
   }
   void divide() {
      fill(0, -4, 4, 12); fill(1, -3, 3, 1, true); static const long ds[6] = {1, 2, 3, 4, -2, -1};
      switch(g.below(4)) { case 0: s[2] = s[0] / s[1]; r.ev(bin("divides", so(0), so(1), 2)); break; case 1: s[0] /= s[1]; r.ev(bin("divides", so(0), so(1), 0)); break;
      case 2: { long c = ds[g.below(6)]; s[2] = s[0] / static_cast<T>(c); r.ev(bin("divides", so(0), vo(c), 2)); break; } default: s[2] = static_cast<T>(12) / s[1]; r.ev(bin("divides", vo(12), so(1), 2)); }
   }
   template<class F> bool tooBig(const F& f) {   // a product of all values that the specification could not compute
      double p = 1; Vs sh; for(size_t i = 0; i < f.numberOfVariables(); ++i) sh.push_back(f.numberOfLabels(i)); std::vector<size_t> x(std::max<size_t>(1, sh.size()), 0);
      do p *= std::max(1.0, std::fabs(static_cast<double>(f(x.begin())))); while(nextLabeling(sh, x)); return p > 1e6;
   }
   template<class ACC, bool S = false> void acc(const std::string& f, bool state = false) {
      size_t a = g.below(6), d = g.below(6), m = g.below(6); T v = 0; std::vector<L> x; J e("accall"); e.s("f", f);
      switch(g.below(4)) {
      case 0: if(f == "prod" && tooBig(s[a])) return; if(S && state) { if constexpr(S) s[a].template accumulate<ACC>(v, x); e.a("x", x); } else s[a].template accumulate<ACC>(v); r.ev(e.raw("a", so(a)).n("val", static_cast<double>(v))); return;
      case 1: if(f == "prod" && tooBig(gm[m])) return; if(S && state) { if constexpr(S) opengm::accumulate<ACC>(gm[m], v, x); e.a("x", x); } else opengm::accumulate<ACC>(gm[m], v); r.ev(e.raw("a", so(6 + m)).n("val", static_cast<double>(v))); return;
      default: break;
      }
      std::vector<I> w; for(size_t k = 0; k < sp.size(); ++k) if(g.chance(g.chance(15) ? 100 : 45)) w.push_back(static_cast<I>(k)); g.shuffle(w); Vs wl(w.begin(), w.end()); J q("acc"); q.s("f", f).a("w", wl);
      switch(g.below(4)) {
      case 0: if(a == d || (f == "prod" && tooBig(s[a]))) return; s[a].template accumulate<ACC>(w.begin(), w.end(), s[d]); q.raw("a", so(a)); break;
      case 1: if(f == "prod" && tooBig(gm[m])) return; opengm::accumulate<ACC>(gm[m], w.begin(), w.end(), s[d]); q.raw("a", so(6 + m)); break;
      case 2: if(f == "prod" && tooBig(s[d])) return; s[d].template accumulate<ACC>(w.begin(), w.end()); q.raw("a", so(d)); break;
      default: if(f == "prod" && tooBig(s[d])) return; opengm::accumulate<ACC>(s[d], w.begin(), w.end()); q.raw("a", so(d)); }
      r.ev(q.i("dst", static_cast<long>(d)).raw("r", tableOf(s[d])));
   }
   void fixVars() {
      size_t d = g.below(6); std::vector<I> w; std::vector<L> l; for(size_t k = 0; k < sp.size(); ++k) if(g.chance(g.chance(20) ? 100 : 45)) { w.push_back(static_cast<I>(k)); l.push_back(static_cast<L>(g.below(sp[k]))); }
      s[d].fixVariables(w.begin(), w.end(), l.begin()); Vs wl(w.begin(), w.end()), ll(l.begin(), l.end()); r.ev(J("fix").raw("a", so(d)).a("w", wl).a("l", ll).i("dst", static_cast<long>(d)).raw("r", tableOf(s[d])));
   }
   void copy() {
      size_t a = g.below(6), d = g.below(6), m = g.below(6); std::string A = so(a);
      switch(g.below(4)) { case 0: s[d] = s[a]; break; case 1: { IF t(s[a]); s[d] = t; break; } case 2: s[d] = gm[m]; A = so(6 + m); break; default: { IF t(gm[m]); s[d] = t; A = so(6 + m); } }
      r.ev(J("copy").raw("a", A).i("dst", static_cast<long>(d)).raw("r", tableOf(s[d])));
   }
   void run() {
      build();
      for(size_t t = 0; t < (r.thorough ? 60u : 22u); ++t) {
         for(size_t i = 0; i < 6; ++i) if(!small(i) || s[i].size() > 150) fresh(i);
         switch(g.below(16)) {
         case 0: case 1: symbols(); break; case 2: binary("lin", LinF<T>()); break; case 3: binary("max", Max2F<T>()); break; case 4: binary("times", std::multiplies<T>()); break; case 5: binary("plus", std::plus<T>()); break;
         case 6: unary("neg", Neg<T>()); break; case 7: g.chance(50) ? unary("dbl", Dbl<T>()) : unary("inc", Inc<T>()); break; case 8: acc<Minimizer, true>("min", g.chance(70)); break; case 9: acc<Maximizer, true>("max", g.chance(70)); break;
         case 10: acc<Adder>("sum"); break; case 11: g.chance(50) ? acc<Integrator>("sum") : acc<Multiplier>("prod"); break; case 12: fixVars(); break; case 13: copy(); break;
         case 14: { size_t d = g.below(6); if(g.chance(50)) { s[d].subtractOffset(); r.ev(J("offset").raw("a", so(d)).i("dst", static_cast<long>(d)).raw("r", tableOf(s[d]))); } else setOne(d); break; }
         default: divide();
         }
      }
      for(size_t i = 0; i < 6; ++i) r.ev(J("copy").raw("a", so(i)).i("dst", static_cast<long>(i)).raw("r", tableOf(s[i])));   // nothing else changed
      for(size_t i = 0; i < 6; ++i) look(i);
   }
   void setOne(size_t d) {
      Vs x; for(size_t i = 0; i < s[d].numberOfVariables(); ++i) x.push_back(g.below(s[d].shape(i))); if(x.empty()) return; long c = g.range(-4, 4); T v = static_cast<T>(c);
      if(x.size() == 1) s[d](x[0]) = v; else if(x.size() == 2) s[d](x[0], x[1]) = v; else if(x.size() == 3 && g.chance(50)) s[d](x[0], x[1], x[2]) = v; else if(x.size() == 4 && g.chance(50)) s[d](x[0], x[1], x[2], x[3]) = v; else s[d](x.begin()) = v;
      r.ev(J("set").i("dst", static_cast<long>(d)).a("x", x).i("c", c).raw("r", tableOf(s[d])));
   }
};
template<class GM> void one(Rec& r) { Bench<GM> b(r); b.run(); }
template<class T, class I, class L> struct Small { typedef GraphicalModel<T, Adder, typename meta::TypeListGenerator<PottsFunction<T, I, L>, ExplicitFunction<T, I, L>, SparseFunction<T, I, L> >::type, DiscreteSpace<I, L> > GM; };
void part(tr::Driver& d) {
#if PART == 0
   for(size_t i = 0; i < d.n(150, 2000); ++i) d.add("d-" + std::to_string(i), one<Small<double, size_t, size_t>::GM>);
#elif PART == 1
   for(size_t i = 0; i < d.n(60, 800); ++i) d.add("fu8-" + std::to_string(i), one<Small<float, unsigned, unsigned char>::GM>);
#else
   for(size_t i = 0; i < d.n(60, 800); ++i) d.add("i-" + std::to_string(i), one<Models<Adder, int, size_t, size_t>::Ex>);
#endif
}
DRIVER_MAIN(part)
