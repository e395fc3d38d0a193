// Visitors: what they record, print and answer.  PART 0: fed by a scripted
// algorithm; the others: watching the real solvers.
#define WITH_QPBO
#if PART == 2
#include <QPBO.h>
#endif
#define WITH_CUT
#include "local.hxx"
#include <memory>
#include <sstream>
#include <iostream>
#if PART == 1
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/gibbs.hxx>
#elif PART == 2
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/mqpbo.hxx>
#include <opengm/inference/hqpbo.hxx>
#include <opengm/inference/reducedinference.hxx>
#include <opengm/inference/self_fusion.hxx>
#include <opengm/inference/dmc.hxx>
#include <opengm/inference/partition-move.hxx>
#elif PART == 3
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
#include <opengm/inference/dualdecomposition/dddualvariableblock.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#endif
namespace ov = opengm::visitors;

static std::string ints(const std::vector<long>& x) { std::string s = "["; for(size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + std::to_string(x[i]); return s + "]"; }
static std::string lists(const std::vector<std::vector<long> >& x) { std::string s = "["; for(size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + ints(x[i]); return s + "]"; }
static long q3(double x) { return tr::fix(x, 1000); }
// std::cout into a buffer for as long as it lives
struct Hear {
   std::ostringstream s; std::streambuf* old; Hear() : old(std::cout.rdbuf(s.rdbuf())) {} ~Hear() { std::cout.rdbuf(old); }
   void stop() { std::cout.rdbuf(old); old = std::cout.rdbuf(); }
   // first word and numbers of the first line, number of lines; k: at most so many numbers
   void put(J& j, size_t k) {
      std::cout.flush(); std::istringstream all(s.str()); std::string line, w; std::vector<long> x; long lines = 0; bool first = true;
      while(std::getline(all, line)) { if(line.empty()) continue; ++lines; if(!first) continue; first = false; std::istringstream t(line); std::string q; t >> w; while(x.size() < k && t >> q) { char* e = 0; double d = strtod(q.c_str(), &e); if(*e == 0) x.push_back(q3(d)); else if(q.find_first_of("0123456789") == 0) x.push_back(-1); } }
      J o; o.s("w", w).raw("x", ints(x)); j.raw("out", o.str()).i("lines", lines);
   }
};
static double cpuNow() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) * 1e9 + static_cast<double>(t.tv_nsec); }
// since when the visitor exists; CPU time surely spent between begin and end
static double born = 0, busy = 0;
static void cpu(J& j) { j.i("busy", tr::fix(busy, 1)).i("span", tr::fix(cpuNow() - born, 1)); }
struct Config { std::string kind; size_t nth; double gap, limit; int mem; bool polite, silent; };
static void visitorEv(Rec& r, const Config& c) { born = cpuNow(); busy = 0; r.ev(J("visitor").s("kind", c.kind).i("nth", static_cast<long>(c.nth)).i("gap", q3(c.gap)).i("mem", c.mem).i("polite", c.polite).i("silent", c.silent)); }
// ------------------------------------------------ what a protocolling visitor has recorded
template<class V> void columnsEv(Rec& r, const V& v, const std::vector<std::string>& names, const Config& c) {
   typedef std::vector<double> D; auto s3 = [](const D& d) { std::vector<long> x; for(double y : d) x.push_back(q3(y)); return x; }; auto ns = [](const D& d) { std::vector<long> x; for(double y : d) x.push_back(tr::fix(y, 1e9)); return x; };
   const std::map<std::string, D>& m = v.protocolMap(); std::vector<std::vector<long> > logs; for(auto& n : names) { auto it = m.find(n); logs.push_back(it == m.end() ? std::vector<long>() : s3(it->second)); }
   std::vector<long> its, mem; for(double y : v.getIterations()) its.push_back(tr::num(y)); auto it = m.find("mem"); if(it != m.end()) for(double y : it->second) mem.push_back(tr::fix(y, 1));
   auto same = [&](const char* k, const D& d) { auto i = m.find(k); return i != m.end() && (i->second == d); };
   bool ok = same("values", v.getValues()) && same("bounds", v.getBounds()) && same("times", v.getTimes()) && same("iteration", v.getIterations()) && same("ctime", v.getConstructionTime());
   for(double y : v.getValues()) if(std::isnan(y)) ok = true;
   for(double y : v.getBounds()) if(std::isnan(y)) ok = true;
   std::set<std::string> known = {"values", "bounds", "times", "iteration", "ctime"}; if(c.mem) known.insert("mem"); known.insert(names.begin(), names.end()); for(auto& q : m) if(!known.count(q.first)) ok = false;
   J j("columns"); j.raw("values", ints(s3(v.getValues()))).raw("bounds", ints(s3(v.getBounds()))).raw("its", ints(its)).raw("times", ints(ns(v.getTimes()))).raw("ctimes", ints(ns(v.getConstructionTime()))).raw("logs", lists(logs)).t("mapok", ok).raw("mem", ints(mem)); r.ev(j);
}
#if PART == 0
struct Mock { typedef double ValueType; double v, b; Mock() : v(0), b(0) {} double value() const { return v; } double bound() const { return b; } };
static double number(tr::Rng& g, bool inf) { if(inf && g.chance(12)) return g.chance(50) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); return static_cast<double>(g.range(-40, 40)) / 4; }
// one protocol of any of the six visitors, through the wrapper or not
template<class V> struct Play {
   static void begin(V& v, Mock& m, bool w) { if(w) ov::VisitorWrapper<V, Mock>(&v, &m).begin(); else v.begin(m); }
   static size_t step(V& v, Mock& m, bool w) { return w ? ov::VisitorWrapper<V, Mock>(&v, &m)() : v(m); }
   static void end(V& v, Mock& m, bool w) { if(w) ov::VisitorWrapper<V, Mock>(&v, &m).end(); else v.end(m); }
   static void addLog(V& v, Mock& m, const std::string& n, bool w) { if(w) ov::VisitorWrapper<V, Mock>(&v, &m).addLog(n); else v.addLog(n); }
   static void log(V& v, Mock& m, const std::string& n, double x, bool w) { if(w) ov::VisitorWrapper<V, Mock>(&v, &m).log(n, x); else v.log(n, x); }
};
template<class V> struct PlayEx {
   static void begin(V& v, Mock& m, bool w) { if(w) ov::ExplicitVisitorWrapper<V, Mock>(&v, &m).begin(m.v, m.b); else v.begin(m, m.v, m.b); }
   static size_t step(V& v, Mock& m, bool w) { return w ? ov::ExplicitVisitorWrapper<V, Mock>(&v, &m)(m.v, m.b) : v(m, m.v, m.b); }
   static void end(V& v, Mock& m, bool w) { if(w) ov::ExplicitVisitorWrapper<V, Mock>(&v, &m).end(m.v, m.b); else v.end(m, m.v, m.b); }
   static void addLog(V&, Mock&, const std::string&, bool) {} static void log(V&, Mock&, const std::string&, double, bool) {}
};
template<class V> struct Columns { static void put(Rec&, const V&, const std::vector<std::string>&, const Config&) {} static bool late(const V&, const Config&) { return false; } };
template<class I> struct Columns<ov::TimingVisitor<I> > { static void put(Rec& r, const ov::TimingVisitor<I>& v, const std::vector<std::string>& n, const Config& c) { columnsEv(r, v, n, c); } static bool late(const ov::TimingVisitor<I>& v, const Config& c) { return !v.getTimes().empty() && v.getTimes().back() > c.limit; } };
template<class I> struct Columns<ov::ExplicitTimingVisitor<I> > { static void put(Rec& r, const ov::ExplicitTimingVisitor<I>& v, const std::vector<std::string>& n, const Config& c) { columnsEv(r, v, n, c); } static bool late(const ov::ExplicitTimingVisitor<I>& v, const Config& c) { return !v.getTimes().empty() && v.getTimes().back() > c.limit; } };
static void work(tr::Rng& g, bool count) { if(!g.chance(30)) return; double a = cpuNow(), b = a; volatile double s = 0; for(int i = 0; i < 3000000 && b - a < 50000; ++i) { s = s + 1; if(i % 1000 == 0) b = cpuNow(); } if(count) busy += cpuNow() - a; }
template<class P, class V> void play(Rec& r, V& v, const Config& c) {
   tr::Rng& g = r.rng; Mock m; std::vector<std::string> names; static const char* ns[] = {"alpha", "beta", "gamma"}; bool logs = c.kind == "timing" || c.kind == "verbose" || c.kind == "empty", infs = g.chance(25);
   size_t runs = g.below(4), steps; 
   auto put = [&](J& j, Hear& h, size_t k) { h.stop(); if(k > 1) { cpu(j); j.t("late", Columns<V>::late(v, c)); } h.put(j, k); r.ev(j); };
   auto set = [&]() { m.v = number(g, infs); m.b = g.chance(20) ? m.v : (g.chance(20) ? m.v + static_cast<double>(g.range(-4, 4)) / 4 : number(g, infs)); };
   auto maybeLog = [&]() { if(!logs) return; while(g.chance(25) && names.size() < 3) { std::string n = ns[names.size()]; if(!names.empty() && g.chance(25)) n = names[0]; else names.push_back(n); P::addLog(v, m, n, g.chance(50)); r.ev(J("addlog").s("n", n)); } };
   for(size_t k = 0; k < runs; ++k) {
      if(g.chance(60)) maybeLog();
      set(); { Hear h; work(g, false); P::begin(v, m, g.chance(50)); J j("begin"); j.i("v", q3(m.v)).i("b", q3(m.b)); put(j, h, 2); }
      steps = g.below(8);
      for(size_t i = 0; i < steps; ++i) {
         maybeLog(); if(g.chance(85)) set();
         size_t f; { Hear h; work(g, true); f = P::step(v, m, g.chance(50)); J j("step"); j.i("v", q3(m.v)).i("b", q3(m.b)).i("flag", static_cast<long>(f)).t("close", false); put(j, h, 3); }
         for(auto& n : names) if(g.chance(60)) { double x = number(g, false); Hear h; P::log(v, m, n, x, g.chance(50)); J j("log"); j.s("n", n).i("x", q3(x)); put(j, h, 1); }
         if(f && g.chance(60)) break;
      }
      if(g.chance(80)) set();
      { Hear h; work(g, true); P::end(v, m, g.chance(50)); J j("end"); j.i("v", q3(m.v)).i("b", q3(m.b)); put(j, h, 2); }
      Columns<V>::put(r, v, names, c);
   }
   Columns<V>::put(r, v, names, c);
}
static double someLimit(tr::Rng& g) { static const double l[] = {-1, 0, 1e-5, 1e-4, 3e-4}; return l[g.below(5)]; }
static void anyVisitor(Rec& r, int kind) {
   tr::Rng& g = r.rng; Config c; c.nth = g.chance(45) ? 1 : 1 + g.below(4); c.gap = 0; c.limit = 1e9; c.mem = 0; c.polite = false; c.silent = true; bool multi = g.chance(50); size_t reserve = g.below(3) * 5;
   switch(kind) {
      case 0: { c.kind = "timing"; if(g.chance(50)) c.gap = static_cast<double>(g.below(8)) / 4; if(g.chance(40)) c.limit = someLimit(g); c.mem = static_cast<int>(g.below(3)); c.silent = g.chance(50); visitorEv(r, c); ov::TimingVisitor<Mock> v(c.nth, reserve, !c.silent, multi, c.limit, c.gap, static_cast<size_t>(c.mem)); play<Play<ov::TimingVisitor<Mock> > >(r, v, c); break; }
      case 1: { c.kind = "etiming"; if(g.chance(50)) c.gap = static_cast<double>(g.below(8)) / 4; if(g.chance(40)) c.limit = someLimit(g); c.mem = static_cast<int>(g.below(3)); c.silent = g.chance(50); visitorEv(r, c); ov::ExplicitTimingVisitor<Mock> v(c.nth, reserve, !c.silent, multi, c.limit, c.gap, static_cast<size_t>(c.mem)); play<PlayEx<ov::ExplicitTimingVisitor<Mock> > >(r, v, c); break; }
      case 2: { c.kind = "verbose"; c.silent = false; visitorEv(r, c); ov::VerboseVisitor<Mock> v(c.nth, multi); play<Play<ov::VerboseVisitor<Mock> > >(r, v, c); break; }
      case 3: { c.kind = "everbose"; c.silent = false; visitorEv(r, c); ov::ExplicitVerboseVisitor<Mock> v(c.nth, multi); play<PlayEx<ov::ExplicitVerboseVisitor<Mock> > >(r, v, c); break; }
      case 4: { c.kind = "empty"; c.nth = 1; visitorEv(r, c); ov::EmptyVisitor<Mock> v; play<Play<ov::EmptyVisitor<Mock> > >(r, v, c); break; }
      default: { c.kind = "eempty"; c.nth = 1; visitorEv(r, c); ov::ExplicitEmptyVisitor<Mock> v; play<PlayEx<ov::ExplicitEmptyVisitor<Mock> > >(r, v, c); break; }
   }
}
void part(tr::Driver& d) {
   static const char* n[] = {"timing", "etiming", "verbose", "everbose", "empty", "eempty"}; static const size_t q[] = {220, 120, 60, 30, 6, 6};
   for(int k = 0; k < 6; ++k) for(size_t i = 0; i < d.n(q[k], q[k] * 20); ++i) d.add(std::string(n[k]) + "-" + std::to_string(i), [k](Rec& r) { anyVisitor(r, k); });
}
#else
// a TimingVisitor at work in an algorithm, and everything it is told and answers
template<class INF> struct Watch {
   Rec& r; ov::TimingVisitor<INF>& v; double gap, limit; std::vector<std::string>& names;
   Watch(Rec& rr, ov::TimingVisitor<INF>& vv, double g, double t, std::vector<std::string>& n) : r(rr), v(vv), gap(g), limit(t), names(n) {}
   template<class F> void say(const char* op, INF& inf, size_t k, F f) { double val = static_cast<double>(inf.value()), b = static_cast<double>(inf.bound()); Hear h; long flag = static_cast<long>(f()); h.stop(); J j(op); cpu(j); j.t("late", !v.getTimes().empty() && v.getTimes().back() > limit).i("v", q3(val)).i("b", q3(b)); if(k == 3) j.i("flag", flag).t("close", std::fabs(b - val) <= gap); h.put(j, k); r.ev(j); last = flag; }
   long last = 0;
   void begin(INF& inf) { say("begin", inf, 2, [&]() { v.begin(inf); return 0; }); }
   size_t operator()(INF& inf) { say("step", inf, 3, [&]() { return v(inf); }); return static_cast<size_t>(last); }
   void end(INF& inf) { say("end", inf, 2, [&]() { v.end(inf); return 0; }); }
   void addLog(const std::string& n) { if(std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n); v.addLog(n); r.ev(J("addlog").s("n", n)); }
   void log(const std::string& n, double x) { Hear h; v.log(n, x); h.stop(); J j("log"); j.s("n", n).i("x", q3(x)); h.put(j, 1); r.ev(j); }
};
template<class INF> void watched(Rec& r, INF& inf, bool again = true, bool best = true) {
   tr::Rng& g = r.rng; Config c; c.kind = "timing"; c.polite = true; c.silent = true; c.nth = g.chance(55) ? 1 : 1 + g.below(4); c.gap = g.chance(60) ? -1 : (g.chance(50) ? 0 : static_cast<double>(g.below(8)) / 2); c.limit = g.chance(15) ? -1 : (g.chance(15) ? 1e-5 : 1e9); c.mem = static_cast<int>(g.below(3));
   visitorEv(r, c); std::vector<std::string> names; ov::TimingVisitor<INF> v(c.nth, 0, false, true, c.limit, c.gap, static_cast<size_t>(c.mem)); Watch<INF> w(r, v, c.gap, c.limit, names);
   for(int k = 0; k < 2; ++k) {
      long st = static_cast<long>(inf.infer(w)); r.ev(J("after").i("v", q3(static_cast<double>(inf.value()))).i("b", q3(static_cast<double>(inf.bound()))).t("hasv", best).i("st", st)); columnsEv(r, v, names, c);
      if(!again || g.chance(70)) break;
   }
}
typedef Models<Adder>::Ex GmA; typedef Models<Multiplier>::Ex GmP; typedef Models<Adder>::Mix GmM; typedef Minimizer Min;
static GenCfg base(size_t order, size_t minL, size_t maxL) { GenCfg c = exCfg(); c.maxOrder = order; c.minV = 1; c.maxV = 6; c.minL = minL; c.maxL = maxL; c.maxStates = 200; return c; }
template<class F> void watch(tr::Driver& d, const std::string& name, size_t q, GenCfg c, const std::string& op, F f) { for(size_t i = 0; i < d.n(q, q * 15); ++i) d.add(name + "-" + std::to_string(i), [f, c, op](Rec& r) { TModel m = genModel(r.rng, c, op); f(r, m); }); }
template<class F> void watchG(tr::Driver& d, const std::string& name, size_t q, std::function<TModel(tr::Rng&)> gen, F f) { for(size_t i = 0; i < d.n(q, q * 15); ++i) d.add(name + "-" + std::to_string(i), [f, gen](Rec& r) { TModel m = gen(r.rng); f(r, m); }); }
template<class INF> void plain(Rec& r, const TModel& m) { typename INF::GraphicalModelType gm = realise<typename INF::GraphicalModelType>(m); INF inf(gm); watched(r, inf); }
#if PART == 1
template<class GM, class ACC> void local(tr::Driver& d, const std::string& t, GenCfg c, const std::string& op) {
   watch(d, "icm" + t, 12, c, op, [](Rec& r, const TModel& m) { typedef ICM<GM, ACC> I; GM gm = realise<GM>(m); I inf(gm, typename I::Parameter(r.rng.chance(50) ? I::FACTOR : I::SINGLE_VARIABLE, lab<typename GM::LabelType>(someLabeling(r.rng, m.sp)))); watched(r, inf); });
   watch(d, "lf" + t, 12, c, op, [](Rec& r, const TModel& m) { typedef LazyFlipper<GM, ACC> I; GM gm = realise<GM>(m); I inf(gm, typename I::Parameter(1 + r.rng.below(4))); watched(r, inf); });
   watch(d, "flip" + t, 8, c, op, [](Rec& r, const TModel& m) { typedef InfAndFlip<GM, ACC, ICM<GM, ACC> > I; GM gm = realise<GM>(m); I inf(gm, typename I::Parameter(1 + r.rng.below(3))); watched(r, inf); });
   watch(d, "bf" + t, 8, c, op, [](Rec& r, const TModel& m) { plain<Bruteforce<GM, ACC> >(r, m); });
   watch(d, "astar" + t, 12, c, op, [](Rec& r, const TModel& m) { typedef AStar<GM, ACC> I; GM gm = realise<GM>(m); typename I::Parameter p; p.numberOfOpt_ = 1 + r.rng.below(3); I inf(gm, p); watched(r, inf); });
   GenCfg ct = c; ct.structure = "pairtree"; ct.maxOrder = 2; ct.dup = false; watch(d, "dp" + t, 10, ct, op, [](Rec& r, const TModel& m) { plain<DynamicProgramming<GM, ACC> >(r, m); });
   typedef MessagePassing<GM, ACC, BeliefPropagationUpdateRules<GM, ACC>, MaxDistance> BP; typedef MessagePassing<GM, ACC, TrbpUpdateRules<GM, ACC>, MaxDistance> TR;
   watch(d, "bp" + t, 12, c, op, [](Rec& r, const TModel& m) { GM gm = realise<GM>(m); typename BP::Parameter p; p.maximumNumberOfSteps_ = 1 + r.rng.below(8); if(r.rng.chance(30)) p.bound_ = 0.1; BP inf(gm, p); watched(r, inf); });
   watch(d, "trbp" + t, 12, c, op, [](Rec& r, const TModel& m) { GM gm = realise<GM>(m); typename TR::Parameter p; p.maximumNumberOfSteps_ = 1 + r.rng.below(8); if(r.rng.chance(30)) p.bound_ = 0.1; p.inferSequential_ = r.rng.chance(50); TR inf(gm, p); watched(r, inf); });
   watch(d, "gibbs" + t, 10, c, op, [](Rec& r, const TModel& m) { typedef Gibbs<GM, ACC> I; GM gm = realise<GM>(m); srand(static_cast<unsigned>(r.rng.below(9999))); typename I::Parameter p; p.maxNumberOfSamplingSteps_ = r.rng.below(30); p.numberOfBurnInSteps_ = r.rng.below(20); I inf(gm, p); watched(r, inf, true, false); });
}
void part(tr::Driver& d) {
   local<GmA, Min>(d, "-a", base(3, 1, 4), "add"); GenCfg c = base(3, 1, 4); c.lo = 1; c.hi = 4; local<GmP, Maximizer>(d, "-p", c, "mul");
   typedef Cut<GmM, Min, PUSH_RELABEL>::type GC; typedef AlphaExpansion<GmM, GC> AE; typedef AlphaBetaSwap<GmM, GC> AB;
   watchG(d, "gc", 12, [](tr::Rng& g) { return pairModel(g, "add", 0, 6, 2); }, [](Rec& r, const TModel& m) { for(size_t x : m.sp) if(x != 2) return; plain<GC>(r, m); });
   watchG(d, "ae", 15, [](tr::Rng& g) { return pairModel(g, "add", 0); }, [](Rec& r, const TModel& m) { GmM gm = realise<GmM>(m); AE::Parameter p; p.maxNumberOfSteps_ = r.rng.chance(30) ? 1 + r.rng.below(3) : 1000; AE inf(gm, p); watched(r, inf); });
   watchG(d, "ab", 15, [](tr::Rng& g) { return pairModel(g, "add", 1); }, [](Rec& r, const TModel& m) { GmM gm = realise<GmM>(m); AB::Parameter p; if(r.rng.chance(30)) p.maxNumberOfIterations_ = 1 + r.rng.below(3); AB inf(gm, p); watched(r, inf); });
}
#elif PART == 2
void part(tr::Driver& d) {
   typedef ReducedInferenceHelper<GmM>::InfGmType SG; typedef ReducedInference<GmM, Min, AStar<SG, Min> > RI;
   watch(d, "mqpbo", 20, base(2, 2, 4), "add", [](Rec& r, const TModel& m) { typedef MQPBO<GmA, Min> I; GmA gm = realise<GmA>(m); I::Parameter p; p.rounds_ = r.rng.below(3); p.useKovtunsMethod_ = false; p.strongPersistency_ = true; if(p.rounds_ == 0) p.rounds_ = 1; std::unique_ptr<I> q; try { q.reset(new I(gm, p)); } catch(RuntimeError&) { return; } watched(r, *q); });
   watch(d, "hqpbo", 15, base(3, 2, 2), "add", [](Rec& r, const TModel& m) { plain<HQPBO<GmA, Min> >(r, m); });
   watch(d, "reduced", 20, base(3, 2, 2), "add", [](Rec& r, const TModel& m) { GmM gm = realise<GmM>(m); RI inf(gm, RI::Parameter(r.rng.chance(50), r.rng.chance(50), r.rng.chance(50))); watched(r, inf); });
   watch(d, "selffusion", 20, base(2, 2, 3), "add", [](Rec& r, const TModel& m) { typedef ICM<GmA, Min> I; typedef SelfFusion<I> S; GmA gm = realise<GmA>(m); S::Parameter p; p.fuseNth_ = 1 + r.rng.below(3); p.fusionSolver_ = S::LazyFlipperFusion; p.maxSubgraphSize_ = 2; S inf(gm, p); watched(r, inf); });
   GenCfg pm = base(2, 4, 4); pm.structure = "pair"; pm.uniform = true; pm.maxV = 4;
   for(size_t i = 0; i < d.n(15, 200); ++i) d.add("partition-" + std::to_string(i), [](Rec& r) { tr::Rng& g = r.rng; TModel m; m.op = "add"; size_t n = 2 + g.below(4); m.sp.assign(n, n); for(size_t a = 0; a < n; ++a) for(size_t b = a + 1; b < n; ++b) if(g.chance(75)) { TFac f; f.v = {a, b}; f.f.s = m.shapeOf(f.v); f.f.k = "potts"; f.f.p = {0, g.range(-5, 5)}; m.fa.push_back(f); } plain<PartitionMove<GmM, Min> >(r, m); });
}
#else
static TModel unaryPairs(tr::Rng& g) {
   GenCfg c = exCfg(); TModel m; m.op = "add"; size_t n = 1 + g.below(5); m.sp.resize(n); for(size_t& x : m.sp) x = 1 + g.below(3); for(size_t i = 0; i < n; ++i) addFac(g, m, c, Vs{i}); for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(g.chance(55)) addFac(g, m, c, Vs{i, j}); return m;
}
template<class I> void smooth(Rec& r, const TModel& m) { typename I::GraphicalModelType gm = realise<typename I::GraphicalModelType>(m); typename I::Parameter p(1 + r.rng.below(6), r.rng.chance(50) ? 1e-3 : 0.5); p.numberOfInternalIterations() = 1 + r.rng.below(4); std::unique_ptr<I> q; try { q.reset(new I(gm, p)); } catch(const std::exception&) { return; } watched(r, *q, false); }
void part(tr::Driver& d) {
   watchG(d, "trws", 40, unaryPairs, [](Rec& r, const TModel& m) { typedef TRWSi<GmA, Min> I; GmA gm = realise<GmA>(m); I::Parameter p(1 + r.rng.below(8)); std::unique_ptr<I> q; try { q.reset(new I(gm, p)); } catch(const std::exception&) { return; } watched(r, *q, false); });
   watchG(d, "adsal", 30, unaryPairs, [](Rec& r, const TModel& m) { smooth<ADSal<GmA, Min> >(r, m); });
   watchG(d, "nesterov", 30, unaryPairs, [](Rec& r, const TModel& m) { smooth<NesterovAcceleratedGradient<GmA, Min> >(r, m); });
   typedef DDDualVariableBlock<marray::Marray<double> > B; typedef DualDecompositionBase<GmA, B>::SubGmType S; typedef DualDecompositionSubGradient<GmA, Bruteforce<S, Min>, B> DD;
   GenCfg c = base(2, 1, 3); c.maxV = 4; c.maxStates = 60;
   watch(d, "dd", 30, c, "add", [](Rec& r, const TModel& m) { GmA gm = realise<GmA>(m); DD::Parameter p; p.decompositionId_ = DD::Parameter::BLOCKS; p.numberOfBlocks_ = 1 + r.rng.below(std::min<size_t>(m.sp.size(), 3)); p.maximalNumberOfIterations_ = 1 + r.rng.below(8); DD inf(gm, p); watched(r, inf, false); });
}
#endif
#endif
DRIVER_MAIN(part)
