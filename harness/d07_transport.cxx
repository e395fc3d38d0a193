// The transportation solver and the primal local-polytope bound built on it.
#include "gmzoo.hxx"
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/inference/auxiliary/primal_lpbound.hxx>
using tr::Rec; using tr::J; using namespace opengm; using TransportSolver::MatrixWrapper; using TransportSolver::TransportationSolver;
std::vector<long> masses(tr::Rng& g, size_t n, long N, bool zeros) {
   std::vector<long> m(n, 0); long left = N; if(!zeros) for(auto& x : m) { x = 1; --left; }
   size_t hot = g.chance(40) ? g.below(n) : n; while(left-- > 0) ++m[hot < n && g.chance(60) ? hot : g.below(n)]; return m;
}
std::vector<double> frac(const std::vector<long>& m, double d) { std::vector<double> v; for(long x : m) v.push_back(static_cast<double>(x) / d); return v; }
template<class M> std::vector<double> flat(const M& m, size_t xs, size_t ys, double sc) { std::vector<double> v; for(size_t y = 0; y < ys; ++y) for(size_t x = 0; x < xs; ++x) v.push_back(m(x, y) * sc); return v; }
template<class ACC> void transport(Rec& r, size_t maxN) {
   typedef MatrixWrapper<double> MW; typedef TransportationSolver<ACC, MW> S; tr::Rng& g = r.rng; std::unique_ptr<S> s; MW costs;
   for(int k = 0; k < 6; ++k) {
      size_t xs = 1 + g.below(maxN), ys = 1 + g.below(maxN); costs = MW(xs, ys); bool flatc = g.chance(25); for(auto& c : costs) c = static_cast<double>(flatc ? g.range(0, 1) : g.range(-9, 9));
      J p("problem"); p.a("c", flat(costs, xs, ys, 1)).i("xs", static_cast<long>(xs)).i("ys", static_cast<long>(ys)).s("opt", AccStr<ACC>::n()); r.ev(p);
      if(g.chance(30)) { MW t; TransportSolver::transpose(costs, t); r.ev(J("transpose").a("t", std::vector<double>(t.begin(), t.end())).i("xs", static_cast<long>(t.xsize())).i("ys", static_cast<long>(t.ysize()))); }
      if(!s || g.chance(40)) { if(g.chance(50)) s.reset(new S(xs, ys, costs)); else { s.reset(new S()); s->Init(xs, ys, costs); } } else s->Init(xs, ys, costs);
      size_t reps = 1 + g.below(3);
      for(size_t q = 0; q < reps; ++q) {
         long N = static_cast<long>(std::max(xs, ys)) + g.range(0, 12); std::vector<long> a = masses(g, xs, N, g.chance(50)), b = masses(g, ys, N, g.chance(50)); std::vector<double> fa = frac(a, N), fb = frac(b, N);
         double v = s->Solve(fa.begin(), fb.begin()); MW out(xs, ys, 7.0); double v2 = s->GetSolution(&out);
         r.ev(J("solved").a("a", a).a("b", b).a("p", flat(out, xs, ys, static_cast<double>(N))).n("v", v * N).n("v2", v2 * N).n("v3", s->GetObjectiveValue() * N));
      }
   }
}
template<class ACC> void bound(Rec& r) {
   typedef typename Models<Adder>::Mix GM; tr::Rng& g = r.rng; GenCfg c; c.minL = 1; c.kinds = {"explicit", "explicit", "potts", "tad", "sparse"}; c.lo = -6; c.hi = 6;
   size_t n = 2 + g.below(3); TModel m; m.op = "add"; m.sp.resize(n); for(auto& x : m.sp) x = 1 + g.below(3);
   std::vector<Vs> sc; for(size_t v = 0; v < n; ++v) if(g.chance(70)) sc.push_back(Vs{v}); size_t np = 1 + g.below(4); for(size_t i = 0; i < np; ++i) { size_t a = g.below(n), b = g.below(n); if(a != b) sc.push_back(Vs{a, b}); } g.shuffle(sc);
   for(auto& v : sc) addFac(g, m, c, v); GM gm = realise<GM>(m);
   std::vector<std::string> fs; for(size_t f = 0; f < gm.numberOfFactors(); ++f) { J j; std::vector<size_t> v(gm[f].variableIndicesBegin(), gm[f].variableIndicesEnd()); std::vector<double> t(gm[f].size()); gm[f].copyValues(t.begin()); j.a("v", v).a("t", t); fs.push_back(j.str()); }
   long N = g.chance(20) ? 1 : g.range(2, 6); typedef PrimalLPBound<GM, ACC> B; B b(gm); r.ev(J("bound").a("sp", m.sp).raw("fa", tr::jarr(fs)).s("opt", AccStr<ACC>::n()).i("n", N));
   double dN = static_cast<double>(N);
   auto set = [&](size_t v) { std::vector<long> mu = masses(g, m.sp[v], N, true); std::vector<double> q = frac(mu, dN); b.setVariable(v, q.begin()); r.ev(J("marginal").i("v", static_cast<long>(v)).a("m", mu)); };
   for(size_t v = 0; v < n; ++v) set(v);
   for(int k = 0; k < 18; ++k) {
      size_t v = g.below(n), f = gm.numberOfFactors() ? g.below(gm.numberOfFactors()) : 0;
      switch(g.below(8)) {
         case 0: case 1: set(v); break;
         case 2: { std::vector<double> q(m.sp[v]); b.getVariable(v, q.begin()); for(auto& x : q) x *= dN; r.ev(J("get").i("v", static_cast<long>(v)).a("m", q)); break; }
         case 3: r.ev(J("variable").i("v", static_cast<long>(v)).n("x", b.getVariableValue(v) * dN)); break;
         case 4: if(f < gm.numberOfFactors()) { if(gm[f].numberOfVariables() == 2) r.ev(J("factor").i("f", static_cast<long>(f)).n("x", b.getFactorValue(f) * dN)); else { bool t = false; try { b.getFactorValue(f); } catch(const std::runtime_error&) { t = true; } r.ev(J("refused").t("t", t)); } } break;
         case 5: case 6: if(f < gm.numberOfFactors() && gm[f].numberOfVariables() == 2) { size_t xs = gm[f].shape(0), ys = gm[f].shape(1); MatrixWrapper<double> out(xs, ys, 5.0); double x = b.getFactorVariable(f, out); r.ev(J("plan").i("f", static_cast<long>(f)).a("p", flat(out, xs, ys, dN)).n("x", x * dN)); } break;
         default: if(g.chance(15)) { b.ResetBuffer(); r.ev(J("reset")); } r.ev(J("total").n("x", b.getTotalValue() * dN));
      }
   }
   r.ev(J("total").n("x", b.getTotalValue() * dN));
}
void refusals(Rec& r) {
   typedef typename Models<Adder>::Ex GM; TModel m; m.op = "add"; m.sp = {2, 2, 2}; GenCfg c; addFac(r.rng, m, c, Vs{0}); addFac(r.rng, m, c, Vs{1, 2}); addFac(r.rng, m, c, Vs{0});
   { GM gm = realise<GM>(m); bool t = false; try { PrimalLPBound<GM, Minimizer> b(gm); } catch(const std::runtime_error&) { t = true; } r.ev(J("refused").t("t", t)); }
   m.fa.pop_back(); addFac(r.rng, m, c, Vs{0, 1, 2}); { GM gm = realise<GM>(m); bool t = false; PrimalLPBound<GM, Minimizer> b(gm); std::vector<double> q = {.5, .5}; for(size_t v = 0; v < 3; ++v) b.setVariable(v, q.begin()); try { b.getTotalValue(); } catch(const std::runtime_error&) { t = true; } r.ev(J("refused").t("t", t)); }
}
void build(tr::Driver& d) {
   auto add = [&](const std::string& n, size_t q, size_t th, std::function<void(Rec&)> f) { for(size_t i = 0; i < d.n(q, th); ++i) d.add(n + std::to_string(i), f); };
   add("transport-min", 60, 3000, [](Rec& r) { transport<Minimizer>(r, 4); }); add("transport-max", 40, 2000, [](Rec& r) { transport<Maximizer>(r, 4); }); add("transport-large", 6, 300, [](Rec& r) { transport<Minimizer>(r, 7); });
   add("bound-min", 60, 3000, bound<Minimizer>); add("bound-max", 40, 2000, bound<Maximizer>); add("refusals", 1, 1, refusals);
}
DRIVER_MAIN(build)
