// Expansion and swap optimality at termination, for all maximum-flow back ends.
#define WITH_CUT
#include "local.hxx"
// small, fully connected and frustrated: many rounds of moves
static TModel frustrated(tr::Rng& g, bool metric) {
   TModel m; m.op = "add"; size_t L = 4 + g.below(2), n = 3 + g.below(2); m.sp.assign(n, L); long hi = g.range(3, 9), lo = g.range(4, 9);
   for(size_t i = 0; i < n; ++i) { TFac f; f.v = {i}; f.f.s = m.shapeOf(f.v); f.f.k = "explicit"; for(size_t a = 0; a < L; ++a) f.f.p.push_back(g.range(0, lo)); m.fa.push_back(f); }
   for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) {
      TFac f; f.v = {i, j}; f.f.s = m.shapeOf(f.v); f.f.k = "explicit"; std::vector<long> t(L * L, 0); long w = g.range(1, 3); bool lin = g.chance(30);
      for(size_t a = 0; a < L; ++a) for(size_t b = a + 1; b < L; ++b) t[a + L * b] = t[b + L * a] = lin ? w * static_cast<long>(b - a) : g.range(0, hi);
      if(metric) for(size_t k = 0; k < L; ++k) for(size_t a = 0; a < L; ++a) for(size_t b = 0; b < L; ++b) t[a + L * b] = std::min(t[a + L * b], t[a + L * k] + t[k + L * b]);
      f.f.p = t; m.fa.push_back(f);
   }
   return m;
}
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef MA::Mix GM;
#if PART == 0
#define ALG KOLMOGOROV
#elif PART == 1
#define ALG PUSH_RELABEL
#else
#define ALG EDMONDS_KARP
#endif
   typedef AlphaExpansion<GM, Cut<GM, Minimizer, ALG>::type> AE; typedef AlphaBetaSwap<GM, Cut<GM, Minimizer, ALG>::type> AS;
   regGen(d, "expansion", 130, 1500, [](tr::Rng& g) { return pairModel(g, "add", 0, 6, 4); }, [](Rec& r, const TModel& m) { aexp<AE>(r, m, 0); });
   regGen(d, "swap", 110, 1500, [](tr::Rng& g) { return pairModel(g, "add", g.chance(30) ? 0 : 1, 6, 4); }, [](Rec& r, const TModel& m) { aswap<AS>(r, m, 0); });
   regGen(d, "expansion3", 40, 700, [](tr::Rng& g) { return pairModel(g, "add", 0, 5, 5, 700, false); }, [](Rec& r, const TModel& m) { aexp<AE>(r, m, 0); });
   regGen(d, "swap3", 40, 700, [](tr::Rng& g) { return pairModel(g, "add", 1, 5, 5, 700, false); }, [](Rec& r, const TModel& m) { aswap<AS>(r, m, 0); });
   regGen(d, "expansion-frustrated", 60, 700, [](tr::Rng& g) { return frustrated(g, true); }, [](Rec& r, const TModel& m) { aexp<AE>(r, m, 0); });
   regGen(d, "swap-frustrated", 120, 1200, [](tr::Rng& g) { return frustrated(g, false); }, [](Rec& r, const TModel& m) { aswap<AS>(r, m, 0); });
}
DRIVER_MAIN(part)
