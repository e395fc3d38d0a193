// Generic recording of inference algorithms: construction, visitor calls,
// return status and results.  One trace = one model + a history of runs.
#pragma once
#include "gmzoo.hxx"
#include <opengm/inference/inference.hxx>
#include <opengm/inference/visitors/visitors.hxx>
#include <opengm/operations/integrator.hxx>

typedef std::vector<std::pair<std::string, long> > Pars;
inline std::string parsJson(const Pars& p) { tr::J j; j.i("zz", 0); for(const auto& q : p) j.i(q.first.c_str(), q.second); return j.str(); }
template<class C> Vs toVs(const C& c) { return Vs(c.begin(), c.end()); }

// labeling as the solver reports it right now
template<class INF> void argOf(const INF& inf, tr::J& j, const char* kx = "x", const char* kst = "st", size_t n = 1) {
   std::vector<typename INF::LabelType> x; long st = static_cast<long>(inf.arg(x, n)); Vs y; for(auto q : x) y.push_back(static_cast<size_t>(q) > 1000000 ? 999999 : static_cast<size_t>(q)); j.i(kst, st).a(kx, y);
}
struct RunOpt { long stopAt = -1; long flag = 1; bool labels = true; long maxEvents = 400; bool bound = true; double scale = 1.0; };

template<class INF> struct RecVisitor {
   tr::Rec& r; RunOpt o; long n; long ev;
   RecVisitor(tr::Rec& rr, const RunOpt& oo) : r(rr), o(oo), n(0), ev(0) {}
   template<class I2> void emit(const char* op, I2& inf, long ask) {
      if(ev++ > o.maxEvents && std::string(op) == "step") return;
      tr::J j(op); j.i("v", tr::num(static_cast<double>(inf.value()) * o.scale)).i("b", o.bound ? tr::fix(static_cast<double>(inf.bound()), 1000) : 0).i("ask", ask);
      if(o.labels) argOf(inf, j); else j.i("st", -1).a("x", Vs());
      r.ev(j);
   }
   template<class I2, class... A> void begin(I2& inf, A...) { emit("begin", inf, 0); }
   template<class I2, class... A> size_t operator()(I2& inf, A...) { ++n; long ask = (o.stopAt > 0 && n >= o.stopAt) ? o.flag : 0; emit("step", inf, ask); return static_cast<size_t>(ask); }
   template<class I2, class... A> void end(I2& inf, A...) { emit("end", inf, 0); }
   void addLog(const std::string&) {}
   void log(const std::string&, double) {}
};

template<class INF> void resultEv(tr::Rec& r, const INF& inf, bool bound = true) {
   tr::J j("res"); argOf(inf, j); j.n("v", static_cast<double>(inf.value())).i("b", bound ? tr::fix(static_cast<double>(inf.bound()), 1000) : 0); r.ev(j);
}
// emits new/run/begin/step/end/ret/res for one run of a freshly constructed solver
template<class INF> void newEv(tr::Rec& r, const char* solver, const Pars& p, const Vs& start, const INF& inf, bool labels = true) {
   tr::J j("new"); j.s("solver", solver).s("acc", AccStr<typename INF::AccumulationType>::n()).raw("par", parsJson(p)).a("start", start);
   if(labels) argOf(inf, j); else j.i("st", -1).a("x", Vs());
   r.ev(j);
}
template<class INF> void runEv(tr::Rec& r, INF& inf, const RunOpt& o, bool visitor = true) {
   r.ev(tr::J("run").i("vis", visitor ? 1 : 0).i("stopAt", o.stopAt));
   long st; if(visitor) { RecVisitor<INF> v(r, o); st = static_cast<long>(inf.infer(v)); } else st = static_cast<long>(inf.infer());
   r.ev(tr::J("ret").i("st", st)); resultEv(r, inf, o.bound);
}
inline void modelEv(tr::Rec& r, const TModel& m) { tr::J j("model"); r.ev(m.json(j)); }
// the model as it is now: every factor's table (to see that a solver did not touch it)
template<class GM> void checkModelEv(tr::Rec& r, const GM& gm) {
   std::vector<long> sp; for(size_t i = 0; i < gm.numberOfVariables(); ++i) sp.push_back(tr::idx(gm.numberOfLabels(i)));
   r.ev(tr::J("same").i("nf", tr::idx(gm.numberOfFactors())).a("sp", sp).a("tab", fullTable(gm)));
}
