// Local optimality at termination: iterated conditional modes, lazy flipper.
#include "local.hxx"
template<class GM> GenCfg lcfg(bool bin) { GenCfg c = cfgFor<GM>(); c.maxV = 7; c.maxStates = 200; c.maxL = bin ? 2 : 4; if(bin) c.minL = 2; return c; }
void part(tr::Driver& d) {
   typedef Models<Adder> MA; typedef Models<Multiplier> MM;
#if PART == 0
   regModel<MA::Ex>(d, "icm-min", 120, 1800, lcfg<MA::Ex>(false), [](Rec& r, const TModel& m) { icm<MA::Ex, Minimizer>(r, m, 0); });
   regModel<MA::Ex>(d, "lf-min", 90, 1500, lcfg<MA::Ex>(false), [](Rec& r, const TModel& m) { lf<MA::Ex, Minimizer>(r, m, 0); });
   regModel<MA::Ex>(d, "lfbin-min", 100, 1500, lcfg<MA::Ex>(true), [](Rec& r, const TModel& m) { lf<MA::Ex, Minimizer>(r, m, 0, 5); });
#elif PART == 1
   regModel<MA::Mix>(d, "icm-max", 90, 1500, lcfg<MA::Mix>(false), [](Rec& r, const TModel& m) { icm<MA::Mix, Maximizer>(r, m, 0); });
   regModel<MA::Mix>(d, "lf-max", 60, 900, lcfg<MA::Mix>(false), [](Rec& r, const TModel& m) { lf<MA::Mix, Maximizer>(r, m, 0); });
   regModel<MA::Mix>(d, "lfbin-max", 80, 1200, lcfg<MA::Mix>(true), [](Rec& r, const TModel& m) { lf<MA::Mix, Maximizer>(r, m, 0, 5); });
#else
   regModel<MM::Ex>(d, "icm-mul", 70, 900, lcfg<MM::Ex>(false), [](Rec& r, const TModel& m) { icm<MM::Ex, Maximizer>(r, m, 0); });
   regModel<MM::Ex>(d, "lf-mul", 60, 900, lcfg<MM::Ex>(false), [](Rec& r, const TModel& m) { lf<MM::Ex, Minimizer>(r, m, 0); });
#endif
}
DRIVER_MAIN(part)
