// 2-SAT and quadratic pseudo-boolean optimisation.
#define WITH_CUT
#include "local.hxx"
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/inference/sat.hxx>
#include <opengm/inference/qpbo.hxx>
struct Calls { std::vector<std::string> c; template<class I> void begin(I& i) { c.push_back("begin"); (void)i.value(); } template<class I> size_t operator()(I&) { c.push_back("step"); return 0; } template<class I> void end(I& i) { c.push_back("end"); (void)i.value(); }
   std::string json() const { std::string s = "["; for(size_t i = 0; i < c.size(); ++i) s += (i ? ",\"" : "\"") + c[i] + "\""; return s + "]"; } };
#if PART == 0
template<class T> void sat(Rec& r) {
   typedef GraphicalModel<T, And, ExplicitFunction<T>, DiscreteSpace<> > GM; typedef SAT<GM> S; tr::Rng& g = r.rng; TModel m; m.op = "mul"; size_t n = 2 + g.below(6); m.sp.assign(n, 2); bool odd = g.chance(8);
   size_t k = g.below(3 * n), style = g.below(4);
   for(size_t i = 0; i < k; ++i) {
      TFac f; f.v = somePick(g, n, odd && g.chance(20) ? 1 : 2); if(f.v.size() > n) continue; std::sort(f.v.begin(), f.v.end()); f.f.k = "explicit"; f.f.s = m.shapeOf(f.v); f.f.p.assign(prodOf(f.f.s), 1);
      if(style == 0) f.f.p[g.below(f.f.p.size())] = 0; else if(style == 1) { bool eq = g.chance(50); for(size_t q = 0; q < f.f.p.size(); ++q) f.f.p[q] = (q == 0 || q == 3) == eq; } else for(long& q : f.f.p) q = g.chance(style == 2 ? 75 : 55);
      m.fa.push_back(f);
   }
   modelEv(r, m); GM gm = realise<GM>(m); S s(gm); if(g.chance(50)) r.ev(J("satbefore").i("v", s.value()));
   for(size_t runs = 1 + g.below(2); runs > 0; --runs) {
      Calls c; bool ok = true; long ret = 1; try { size_t w = g.below(3); if(w == 0) ret = s.infer(c); else { c.c.push_back("begin"); if(w == 1) ret = s.infer(); else { typename S::TimingVisitorType t; ret = s.infer(t); } c.c.push_back("end"); } } catch(RuntimeError&) { ok = false; c.c.assign(1, "begin"); }
      r.ev(J("sat").t("ok", ok).i("v", ok ? static_cast<long>(s.value()) : -1).i("ret", ret).raw("calls", c.json())); if(g.chance(30)) s.reset();
   }
   checkModelEv(r, gm);
}
#endif
static TModel binModel(tr::Rng& g) {
   GenCfg c = exCfg(); c.minL = c.maxL = 2; c.minV = 1; c.maxV = 6; c.maxOrder = 2; c.maxFac = 12; c.maxStates = 64; c.lo = g.chance(50) ? -4 : 0; c.hi = 5; if(g.chance(6)) { c.maxOrder = 3; } if(g.chance(6)) c.maxL = 3;
   TModel m = genModel(g, c, "add"); size_t w = g.below(4);
   for(TFac& f : m.fa) if(f.v.size() == 2 && f.f.s[0] == 2 && f.f.s[1] == 2 && w < 3) { f.f.k = "explicit"; long a = g.range(c.lo, c.hi), b = g.range(c.lo, c.hi), q = g.range(c.lo, c.hi), e = g.range(0, 4); f.f.p = {a, b, q, w == 0 || (w == 1 && g.chance(50)) ? b + q - a - e : b + q - a + e}; }
   if(w == 2 && g.chance(50)) for(TFac& f : m.fa) if(f.v.size() == 1) f.f.k = "explicit", f.f.p.assign(f.f.s[0], 0);
   return m;
}
template<class GM, class M> void qpbo(Rec& r) {
   typedef QPBO<GM, M> S; tr::Rng& g = r.rng; TModel m = binModel(g); modelEv(r, m); GM gm = realise<GM>(m); std::unique_ptr<S> s; try { s.reset(new S(gm)); } catch(std::runtime_error&) {}
   r.ev(J("built").t("ok", static_cast<bool>(s))); if(!s) return;
   if(g.chance(50)) { J j("before"); argOf(*s, j); r.ev(j.n("v", s->value()).n("b", s->bound())); }
   for(size_t runs = 1 + g.below(2); runs > 0; --runs) {
      Calls c; long ret; size_t w = g.below(3); if(w == 0) ret = s->infer(c); else { c.c = {"begin", "end"}; if(w == 1) ret = s->infer(); else { typename S::TimingVisitorType t; ret = s->infer(t); } }
      std::vector<bool> opt; double share = s->partialOptimality(opt); std::string os = "["; for(size_t i = 0; i < opt.size(); ++i) os += std::string(i ? "," : "") + (opt[i] ? "true" : "false"); std::vector<typename GM::LabelType> y;
      J j("qpbo"); argOf(*s, j); r.ev(j.n("v", s->value()).n("b", s->bound()).i("ret", ret).i("st2", s->arg(y, 2)).raw("opt", os + "]").n("share", std::floor(share * m.sp.size() * 1000 + 0.5) / 1000).raw("calls", c.json()));
   }
   checkModelEv(r, gm);
}
void part(tr::Driver& d) {
#if PART == 0
   for(size_t i = 0; i < d.n(250, 4000); ++i) d.add("sat-bool-" + std::to_string(i), sat<bool>); for(size_t i = 0; i < d.n(60, 600); ++i) d.add("sat-int-" + std::to_string(i), sat<int>);
   typedef Models<Adder> MA; for(size_t i = 0; i < d.n(150, 1500); ++i) d.add("kol-" + std::to_string(i), qpbo<MA::Mix, MinSTCutBoost<size_t, double, KOLMOGOROV> >);
#else
   typedef Models<Adder> MA; typedef Models<Adder, long> ML; typedef Models<Adder, float> MF;
   for(size_t i = 0; i < d.n(120, 1500); ++i) { d.add("pr-" + std::to_string(i), qpbo<MA::Mix, MinSTCutBoost<size_t, double, PUSH_RELABEL> >); d.add("ek-" + std::to_string(i), qpbo<MF::Ex, MinSTCutBoost<size_t, float, EDMONDS_KARP> >); d.add("int-" + std::to_string(i), qpbo<ML::Ex, MinSTCutBoost<size_t, long, KOLMOGOROV> >); }
#endif
}
DRIVER_MAIN(part)
