// Local search and move making: valid labelings, exact values, never worse.
#define WITH_CUT
#include "local.hxx"
template<class GM> GenCfg lcfg() { GenCfg c = cfgFor<GM>(); c.maxStates = 200; c.maxL = 4; return c; }
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM; typedef Models<Adder, double, unsigned, unsigned char> MU;
#if PART == 0
   regModel<MA::Mix>(d, "icm-min", 90, 1200, lcfg<MA::Mix>(), [](Rec& r, const TModel& m) { icm<MA::Mix, Minimizer>(r, m); });
   regModel<MA::Mix>(d, "lf-min", 80, 1000, lcfg<MA::Mix>(), [](Rec& r, const TModel& m) { lf<MA::Mix, Minimizer>(r, m); });
   regModel<MA::Mix>(d, "flip-min", 70, 900, lcfg<MA::Mix>(), [](Rec& r, const TModel& m) { flip<MA::Mix, Minimizer>(r, m); });
#elif PART == 1
   regModel<MM::Ex>(d, "icm-mulmax", 60, 900, lcfg<MM::Ex>(), [](Rec& r, const TModel& m) { icm<MM::Ex, Maximizer>(r, m); });
   regModel<MM::Ex>(d, "lf-mulmax", 50, 800, lcfg<MM::Ex>(), [](Rec& r, const TModel& m) { lf<MM::Ex, Maximizer>(r, m); });
   regModel<MU::Mix>(d, "icm-u8", 30, 400, lcfg<MU::Mix>(), [](Rec& r, const TModel& m) { icm<MU::Mix, Maximizer>(r, m); });
   regModel<MU::Mix>(d, "flip-u8", 30, 400, lcfg<MU::Mix>(), [](Rec& r, const TModel& m) { flip<MU::Mix, Maximizer>(r, m); });
#else
   typedef AlphaExpansion<MA::Mix, Cut<MA::Mix, Minimizer, KOLMOGOROV>::type> AE; typedef AlphaBetaSwap<MA::Mix, Cut<MA::Mix, Minimizer, PUSH_RELABEL>::type> AS;
   regGen(d, "expansion", 90, 1200, [](tr::Rng& g) { return pairModel(g, "add", 0); }, [](Rec& r, const TModel& m) { aexp<AE>(r, m); });
   regGen(d, "swap", 90, 1200, [](tr::Rng& g) { return pairModel(g, "add", 1); }, [](Rec& r, const TModel& m) { aswap<AS>(r, m); });
#endif
}
DRIVER_MAIN(part)
