// Part 0: partition moves on Potts models; part 1: greedy construction.
#include "local.hxx"
#if PART == 0
#include <opengm/inference/partition-move.hxx>
static TModel graphModel(tr::Rng& g, bool mix) {
   TModel m; m.op = "add"; size_t n = 1 + g.below(8), L = n + g.below(3), dens = 20 + g.below(80), neg = g.below(4); m.sp.assign(n, L); if(g.chance(20)) for(size_t& q : m.sp) q = L + g.below(2);
   auto pair = [&](size_t u, size_t v) { TFac f; f.v = {u, v}; f.f.s = m.shapeOf(f.v); long b = g.chance(70) ? 0 : g.range(-2, 3), d = neg == 0 ? g.range(-6, 6) : neg == 1 ? g.range(-1, 1) : neg == 2 ? g.range(-8, 2) : g.range(-2, 8);
      if(mix && g.chance(50)) { f.f.k = "potts"; f.f.p = {b, b + d}; } else { f.f.k = "explicit"; for(size_t y = 0; y < f.f.s[1]; ++y) for(size_t x = 0; x < f.f.s[0]; ++x) f.f.p.push_back(x == y ? b : b + d); } m.fa.push_back(f); };
   for(size_t u = 0; u < n; ++u) for(size_t v = u + 1; v < n; ++v) if(g.chance(dens)) { pair(u, v); if(g.chance(10)) pair(u, v); }
   if(g.chance(30)) { TFac f; f.f.k = "explicit"; f.f.p = {g.range(-4, 4)}; m.fa.push_back(f); }
   size_t odd = g.below(100);
   if(odd == 0) { TFac f; f.v = {g.below(n)}; f.f.s = m.shapeOf(f.v); f.f.k = "explicit"; f.f.p.assign(f.f.s[0], 1); m.fa.push_back(f); }
   else if(odd == 1 && n > 1) m.sp.assign(n, n - 1), m.fa.clear(); else if(odd == 2 && !m.fa.empty() && m.fa[0].v.size() == 2) { TFac& f = m.fa[0]; f.f.k = "explicit"; f.f.p.assign(prodOf(f.f.s), 1); f.f.p[g.below(f.f.p.size())] = 4; }
   for(size_t i = m.fa.size(); i > 1; --i) std::swap(m.fa[i - 1], m.fa[g.below(i)]);
   return m;
}
template<class GM> std::vector<double> image(const GM& gm) { std::vector<double> t; for(size_t f = 0; f < gm.numberOfFactors(); ++f) { std::vector<double> q(gm[f].size()); gm[f].copyValues(q.begin()); for(double x : q) t.push_back(x); t.push_back(static_cast<double>(gm[f].numberOfVariables())); } return t; }
template<class GM, bool mix> void kl(Rec& r) {
   typedef PartitionMove<GM, Minimizer> S; tr::Rng& g = r.rng; TModel m = graphModel(g, mix); modelEv(r, m); GM gm = realise<GM>(m); std::vector<double> before = image(gm); std::unique_ptr<S> s; try { s.reset(new S(gm)); } catch(RuntimeError&) {}
   r.ev(J("built").t("ok", static_cast<bool>(s))); if(!s) return; { J j("new"); argOf(*s, j); r.ev(j.n("v", s->value())); }
   for(size_t runs = 1 + g.below(2); runs > 0; --runs) { runEv(r, *s, anyRun(g, 15), g.chance(65)); if(g.chance(30)) { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", s->arg(x, 2 + g.below(2)))); } }
   r.ev(J("untouched").t("ok", image(gm) == before));
}
#else
#include <opengm/inference/greedygremlin.hxx>
template<class GM, class ACC> void gremlin(Rec& r, const TModel& m) {
   typedef GreedyGremlin<GM, ACC> S; tr::Rng& g = r.rng; GM gm = realise<GM>(m); S s(gm); newEv(r, "gremlin", Pars(), Vs(), s);
   for(size_t runs = 1 + g.below(2); runs > 0; --runs) {
      runEv(r, s, anyRun(g, 12), g.chance(70)); if(g.chance(30)) { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", s.arg(x, 2))); }
      if(runs > 1 && g.chance(50)) { s.reset(); J j("reset"); argOf(s, j); r.ev(j); }
   }
   checkModelEv(r, gm);
}
#endif
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM; (void)sizeof(MM);
#if PART == 0
   for(size_t i = 0; i < d.n(350, 6000); ++i) { d.add("mix-" + std::to_string(i), kl<MA::Mix, true>); if(i % 4 == 0) d.add("ex-" + std::to_string(i), kl<Models<Adder, float>::Ex, false>); }
#else
   GenCfg c = exCfg(); c.maxV = 6; c.maxStates = 150; GenCfg q = c; q.lo = 0; q.hi = 4;
   regModel<MA::Mix>(d, "add-min", 150, 2000, c, gremlin<MA::Mix, Minimizer>); regModel<MA::Ex>(d, "add-max", 80, 1000, c, gremlin<MA::Ex, Maximizer>); regModel<MM::Ex>(d, "mul-max", 80, 1000, q, gremlin<MM::Ex, Maximizer>);
#endif
}
DRIVER_MAIN(part)
