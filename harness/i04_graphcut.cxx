// Graph cut: exact on binary submodular models, refuses what it cannot handle.
#define WITH_CUT
#include "local.hxx"
// a random function submodular (sign +1) or supermodular (sign -1) in n <= 3 binary variables
static std::vector<long> submod(tr::Rng& g, size_t n, int sign) {
   size_t N = static_cast<size_t>(1) << n; std::vector<long> t(N, 0); size_t w = g.below(4);
   if(n == 1) { t = {g.range(-7, 9), g.range(-7, 9)}; return t; }
   for(size_t x = 0; x < N; ++x) for(size_t i = 0; i < n; ++i) t[x] += 0;
   std::vector<long> u(n); for(long& q : u) q = g.range(-5, 5);
   for(size_t x = 0; x < N; ++x) { for(size_t i = 0; i < n; ++i) if(x >> i & 1) t[x] += u[i]; }
   for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) { long c = g.chance(25) ? 0 : g.range(0, 6), e = g.range(0, 4); for(size_t x = 0; x < N; ++x) { bool a = x >> i & 1, b = x >> j & 1; if(!a && b) t[x] += c; if(a && !b) t[x] += e; } }
   if(n == 3) { long c = g.range(0, 5); for(size_t x = 0; x < N; ++x) { if(w == 0 && x == 7) t[x] -= c; if(w == 1 && x == 0) t[x] -= c; if(w == 2 && (x == 7 || x == 0)) t[x] -= c; if(w == 3 && (x == 5 || x == 6 || x == 3 || x == 7)) t[x] += 0; } }
   long k = g.range(-3, 3); for(long& q : t) q = sign * (q + k);
   return t;
}
static TModel cutModel(tr::Rng& g, int sign, bool third) {
   GenCfg c = exCfg(); c.minL = c.maxL = 2; c.minV = 1; c.maxV = third ? 6 : 8; c.maxOrder = third ? 3 : 2; c.maxFac = 12; c.maxStates = 256; static const std::vector<std::string> st = {"random", "grid", "cycle", "pair", "chain", "random", "discon", "unary"}; c.structure = third ? "random" : g.pick(st); if(c.structure == "grid") c.minV = 4;
   TModel m = genModel(g, c, "add"); for(TFac& f : m.fa) { if(f.v.empty()) continue; f.f.k = "explicit"; f.f.p = submod(g, f.v.size(), sign); if(f.v.size() == 2 && g.chance(20)) { f.f.k = "potts"; f.f.p = {sign > 0 ? 0 : 4, sign > 0 ? 3 : 0}; } }
   return m;
}
template<class GM, class ACC, class M> void cut(Rec& r, const TModel& m) {
   typedef GraphCut<GM, ACC, M> INF; GM gm = realise<GM>(m); tr::Rng& g = r.rng; typename INF::Parameter p(static_cast<typename GM::ValueType>(std::is_integral<typename M::ValueType>::value ? g.range(1, 5) : 1));
   bool plain = true; for(size_t x : m.sp) if(x != 2) plain = false; for(const TFac& f : m.fa) if(f.v.size() > 3) plain = false;
   if(plain && g.chance(25)) {   // built factor by factor
      bool order3 = false; std::vector<size_t> dim(4, 0); for(const TFac& f : m.fa) { ++dim[f.v.size()]; if(f.v.size() > 2) order3 = true; }
      if(!(order3 && AccStr<ACC>::n() == std::string("max"))) {
         INF inf(m.sp.size(), dim, p); r.ev(J("new").s("solver", "graphcut").s("acc", AccStr<ACC>::n()).raw("par", parsJson(Pars())).a("start", Vs()).i("st", -1).a("x", Vs()));
         for(size_t f = 0; f < gm.numberOfFactors(); ++f) inf.addFactor(gm[f]);
         size_t k = 1 + g.below(2); for(size_t i = 0; i < k; ++i) { inf.infer(); J j("optarg"); argOf(inf, j); r.ev(j); } return;
      }
   }
   std::unique_ptr<INF> inf; try { inf.reset(new INF(gm, p)); } catch(const std::runtime_error&) {}
   r.ev(J("construct").s("solver", "graphcut").s("acc", AccStr<ACC>::n()).t("ok", static_cast<bool>(inf))); if(!inf) return;
   newEv(r, "graphcut", Pars(), Vs(), *inf, true); RunOpt o; o.labels = false; size_t k = 1 + g.below(3);
   for(size_t i = 0; i < k; ++i) { r.ev(J("run").i("vis", i % 2).i("stopAt", -1)); struct V { Rec& r; void begin(INF&) { ev("begin"); } size_t operator()(INF&) { ev("step"); return 0; } void end(INF&) { ev("end"); } void ev(const char* o) { r.ev(J(o).i("v", 0).i("b", 0).i("ask", 0).i("st", -1).a("x", Vs())); } } v{r}; long st = i % 2 ? inf->infer(v) : inf->infer(); r.ev(J("ret").i("st", st)); resultEv(r, *inf); }
   { std::vector<typename GM::LabelType> x; r.ev(J("beyond").i("st", inf->arg(x, 2))); }
   checkModelEv(r, gm);
}
template<class GM, class ACC, class V, BoostMaxFlowAlgorithm A> void regs(tr::Driver& d, const char* n, size_t q, size_t t, bool third) {
   int sign = AccStr<ACC>::n() == std::string("min") ? 1 : -1;
   regGen(d, n, q, t, [sign, third](tr::Rng& g) { return cutModel(g, sign, third); }, cut<GM, ACC, MinSTCutBoost<size_t, V, A> >);
}
static TModel odd(tr::Rng& g) {   // mostly models that must be refused
   GenCfg c = exCfg(); c.minL = g.chance(50) ? 2 : 1; c.maxL = g.chance(50) ? 2 : 3; c.maxV = 5; c.maxOrder = 4; c.maxStates = 100; c.consts = false; TModel m = genModel(g, c, "add");
   bool bin = true; for(size_t x : m.sp) if(x != 2) bin = false; if(bin) for(TFac& f : m.fa) { f.f.k = "explicit"; f.f.p.assign(prodOf(f.f.s), 1); } return m;
}
void part(tr::Driver& d) {
   typedef Models<Adder> MA;
#if PART == 0
   regs<MA::Mix, Minimizer, double, KOLMOGOROV>(d, "kol-min", 110, 1500, false); regs<MA::Mix, Minimizer, double, KOLMOGOROV>(d, "kol-min3", 130, 1500, true); regs<MA::Mix, Maximizer, int, KOLMOGOROV>(d, "kol-max", 60, 900, false);
#elif PART == 1
   regs<MA::Mix, Minimizer, int, PUSH_RELABEL>(d, "pr-min", 90, 1200, false); regs<MA::Mix, Minimizer, double, PUSH_RELABEL>(d, "pr-min3", 60, 900, true); regs<MA::Mix, Maximizer, double, PUSH_RELABEL>(d, "pr-max", 70, 900, false);
#else
   regs<MA::Mix, Minimizer, double, EDMONDS_KARP>(d, "ek-min", 90, 1200, false); regs<MA::Mix, Maximizer, double, EDMONDS_KARP>(d, "ek-max", 60, 900, false);
   regGen(d, "refuse-min", 60, 700, odd, cut<MA::Mix, Minimizer, MinSTCutBoost<size_t, double, EDMONDS_KARP> >); regGen(d, "refuse-max", 60, 700, odd, cut<MA::Mix, Maximizer, MinSTCutBoost<size_t, double, EDMONDS_KARP> >);
#endif
}
DRIVER_MAIN(part)
