// Combination operations, accumulators, functors, weighted operations, normalisation and Tribool.
#include "trace.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/graphicalmodel_factor.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/operations/logsumexp.hxx>
#include <opengm/operations/normalize.hxx>
#include <opengm/operations/weightedoperations.hxx>
#include <opengm/utilities/accumulation.hxx>
#include <opengm/utilities/functors.hxx>
#include <opengm/utilities/tribool.hxx>
using tr::Rec; using tr::J; using namespace opengm;
const double INF = std::numeric_limits<double>::infinity();
template<class T> T ext(tr::Rng& g, bool inf) { if(inf && std::numeric_limits<T>::has_infinity && g.chance(20)) return g.chance(50) ? static_cast<T>(INF) : static_cast<T>(-INF); return static_cast<T>(g.range(-9, 9)); }
template<class O, class T> void core(J& j, T a, T b) {
   j.n("a", a).n("b", b); T e = O::template neutral<T>(); j.n("e1", e); T f = static_cast<T>(7); O::neutral(f); j.n("e2", f);
   T r = b; O::op(a, r); j.n("r", r); T r3 = static_cast<T>(5); O::op(a, b, r3); j.n("r3", r3);
}
template<class O, class T> void inverse(J& j, T x, T y) { T e = O::template ineutral<T>(); j.n("i1", e); T f = static_cast<T>(7); O::ineutral(f); j.n("i2", f); j.n("x", x).n("y", y); T r = x; O::iop(y, r); j.n("ir", r); T r3 = static_cast<T>(5); O::iop(x, y, r3); j.n("ir3", r3); }
template<class T> void algebra(Rec& r) {
   tr::Rng& g = r.rng;
   for(int k = 0; k < 40; ++k) {
      T a = ext<T>(g, false), b = ext<T>(g, false), ia = ext<T>(g, true), ib = ext<T>(g, true), nz = static_cast<T>(g.chance(50) ? g.range(1, 9) : g.range(-9, -1));
      { J j("alg"); j.s("o", "add"); core<Adder>(j, a, b); inverse<Adder>(j, a, b); j.t("hb", Adder::hasbop()); r.ev(j); }
      { J j("alg"); j.s("o", "mul"); core<Multiplier>(j, a, b); inverse<Multiplier>(j, static_cast<T>(std::abs(a) * std::abs(nz)), static_cast<T>(std::abs(nz))); j.t("hb", Multiplier::hasbop()); r.ev(j); }
      { J j("alg"); j.s("o", "min"); core<Minimizer>(j, ia, ib); inverse<Minimizer>(j, a, ib); j.t("hb", Minimizer::hasbop()).t("bo", Minimizer::bop(ia, ib)).t("ib", Minimizer::ibop(ia, ib)); r.ev(j); }
      { J j("alg"); j.s("o", "max"); core<Maximizer>(j, ia, ib); inverse<Maximizer>(j, a, ib); j.t("hb", Maximizer::hasbop()).t("bo", Maximizer::bop(ia, ib)).t("ib", Maximizer::ibop(ia, ib)); r.ev(j); }
      { J j("alg"); j.s("o", "int"); core<Integrator>(j, a, ib); if(std::numeric_limits<T>::has_infinity) inverse<Integrator>(j, a, b); else { T x = a; Integrator::iop(b, x); T y; Integrator::iop(a, b, y); j.n("x", a).n("y", b).n("ir", x).n("ir3", y); } j.t("hb", Integrator::hasbop()); r.ev(j); }
   }
}
void logsum(Rec& r) {
   tr::Rng& g = r.rng;
   for(int k = 0; k < 30; ++k) {
      long a = g.chance(15) ? 0 : g.range(1, 40), b = g.chance(15) ? 0 : g.range(1, 40); double la = std::log(static_cast<double>(a)), lb = std::log(static_cast<double>(b)), sh = g.chance(50) ? 0 : (g.chance(50) ? 800 : -800);
      J j("alg"); j.s("o", "lse").i("a", a).i("b", b); double e = Logsumexp::neutral<double>(); j.n("e1", std::exp(e)); e = 7; Logsumexp::neutral(e); j.n("e2", std::exp(e));
      // a common shift of the arguments shifts the result, also where the exponentials themselves leave the range of double
      double x = lb + sh; Logsumexp::op(la + sh, x); j.n("r", std::exp(x - sh)); double y = 3; Logsumexp::op(la + sh, lb + sh, y); j.n("r3", std::exp(y - sh));
      if(a > b) { double z = 3; Logsumexp::iop(la, lb, z); j.i("x", a).i("y", b).n("ir3", std::exp(z)); }
      j.t("hb", Logsumexp::hasbop()); r.ev(j);
   }
}
template<class T> void logic(Rec& r) {
   for(int a = 0; a < 2; ++a) for(int b = 0; b < 2; ++b) {
      { J j("alg"); j.s("o", "and"); core<And>(j, static_cast<T>(a), static_cast<T>(b)); r.ev(j); }
      { J j("alg"); j.s("o", "or"); core<Or>(j, static_cast<T>(a), static_cast<T>(b)); r.ev(j); }
   }
}
// ---- accumulators
template<class O, class T, class C, class F> void accumulate(Rec& r, const char* o, F val) {
   tr::Rng& g = r.rng; Accumulation<T, size_t, O> acc; r.ev(J("new").s("o", o)); size_t d = 1 + g.below(6);
   auto see = [&]() {
      std::vector<size_t> st; acc.state(st); FastSequence<size_t> fs; acc.state(fs); std::vector<size_t> each; for(size_t i = 0; i < acc.size(); ++i) each.push_back(acc.state(i));
      r.ev(J("see").n("v", acc.value()).n("e", acc.neutral()).a("st", st).a("st2", fs).a("st3", each));
   };
   for(int k = 0; k < 14; ++k) {
      if(g.chance(10)) { acc.clear(); r.ev(J("clear")); if(g.chance(50)) d = 1 + g.below(6); }
      C st; st.resize(d); for(size_t i = 0; i < d; ++i) st[i] = g.below(5);
      T v = val(g); acc(v, st); { std::vector<size_t> now; acc.state(now); r.ev(J("feed").n("v", v).a("st", st).a("s", now)); } if(g.chance(50)) see();
   }
   see();
}
template<class O, class T> void plain(Rec& r, const char* o) {
   tr::Rng& g = r.rng; Accumulation<T, size_t, O> acc; r.ev(J("new").s("o", o)); std::vector<size_t> none;
   for(int k = 0; k < 10; ++k) { T v = static_cast<T>(g.range(-3, 3)); acc(v); r.ev(J("feed").n("v", v).a("st", none).a("s", none)); r.ev(J("see").n("v", acc.value()).n("e", acc.neutral()).a("st", none).a("st2", none).a("st3", none)); if(g.chance(10)) { acc.clear(); r.ev(J("clear")); } }
}
void accs(Rec& r) {
   auto small = [](tr::Rng& g) { return static_cast<double>(g.range(-4, 4)); }; auto inf = [](tr::Rng& g) { return g.chance(60) ? INF : static_cast<double>(g.range(-2, 2)); }; auto ninf = [](tr::Rng& g) { return g.chance(60) ? -INF : static_cast<double>(g.range(-2, 2)); };
   auto fl = [](tr::Rng& g) { return static_cast<float>(g.range(-4, 4)); }; auto in = [](tr::Rng& g) { return static_cast<int>(g.range(-4, 4)); };
   accumulate<Minimizer, double, std::vector<size_t> >(r, "min", small); accumulate<Minimizer, double, FastSequence<size_t> >(r, "min", inf);
   accumulate<Maximizer, double, FastSequence<size_t> >(r, "max", small); accumulate<Maximizer, double, std::vector<size_t> >(r, "max", ninf); accumulate<Minimizer, double, std::vector<size_t> >(r, "min", inf);
   accumulate<Minimizer, float, FastSequence<size_t> >(r, "min", fl); accumulate<Maximizer, int, std::vector<unsigned short> >(r, "max", in); accumulate<Integrator, double, FastSequence<size_t> >(r, "int", small);
   plain<Minimizer, double>(r, "min"); plain<Maximizer, float>(r, "max"); plain<Integrator, double>(r, "int"); plain<Adder, int>(r, "add"); plain<Multiplier, double>(r, "mul");
}
// ---- functors
struct Minus { template<class A, class B> double operator()(A a, B b) { return a - b; } };
void functors(Rec& r) {
   tr::Rng& g = r.rng;
   for(int k = 0; k < 8; ++k) {
      std::vector<double> v(1 + g.below(6)); for(auto& x : v) x = static_cast<double>(g.range(-9, 9)); long lo = g.range(-9, 0), hi = g.range(0, 9); std::vector<long> b = {lo, hi};
      MinMaxFunctor<double> m, m2(static_cast<double>(lo), static_cast<double>(hi)); AccumulationFunctor<Minimizer, double> ai; AccumulationFunctor<Maximizer, double> ax; AccumulationFunctor<Integrator, double> as(0); std::vector<double> out(v.size()); CopyFunctor<double*> cp(&out[0]);
      for(double x : v) { m(x); m2(x); ai(x); ax(x); as(x); cp(x); }
      Minus mi; SwapArgumemtFunctor<double, Minus> sw(mi); SwapArgumemtFunctor<double, Minus> sw2(sw); BinaryToUnaryFunctor<double, Minus, true> L(b[0], mi); BinaryToUnaryFunctor<double, Minus, false> R(b[0], mi);
      const char* os[] = {"min", "max", "int"}; int w = static_cast<int>(g.below(3));
      r.ev(J("fun").s("o", os[w]).a("v", v).a("b", b).n("ac", w == 0 ? ai.value() : w == 1 ? ax.value() : as.value()).n("mi", m.min()).n("ma", m.max()).n("mi2", m2.min()).n("ma2", m2.max()).n("sw", sw2(b[0], v[0])).n("left", L(v[0])).n("right", R(v[0])).a("copy", out));
   }
}
// ---- weighted operations and normalisation
typedef GraphicalModel<double, Adder> GM; typedef IndependentFactor<double, size_t, size_t> IF;
const char* WN[] = {"wop", "iwop", "wiop", "iwiop", "mean"};
template<class OP, class T> void weigh(int w, const T& a, double x, T& b) {
   switch(w) { case 0: WeightedOperations::wop<OP>(a, x, b); break; case 1: WeightedOperations::iwop<OP>(a, x, b); break; case 2: WeightedOperations::wiop<OP>(a, x, b); break; case 3: WeightedOperations::iwiop<OP>(a, x, b); break; default: { T in2 = b; WeightedOperations::weightedMean<OP>(a, in2, x, b); } }
}
IF factor(tr::Rng& g, size_t d, std::vector<size_t> sh, std::vector<size_t>& vi, std::vector<double>& t, bool expo) {
   IF f(vi.begin(), vi.end(), sh.begin(), sh.end()); t.clear(); for(size_t i = 0; i < f.size(); ++i) t.push_back(static_cast<double>(g.range(-4, 4)));
   size_t k = 0; if(d == 0) { size_t c[1] = {0}; f(c) = expo ? std::exp2(t[0]) : t[0]; } else { ShapeWalker<std::vector<size_t>::const_iterator> w(sh.begin(), d); for(; k < t.size(); ++k, ++w) f(w.coordinateTuple().begin()) = expo ? std::exp2(t[k]) : t[k]; }
   return f;
}
std::vector<double> table(const IF& f, const std::vector<size_t>& sh, double sc, bool lg) { std::vector<double> o; ShapeWalker<std::vector<size_t>::const_iterator> w(sh.begin(), sh.size()); for(size_t k = 0; k < f.size(); ++k, ++w) { double v = f(w.coordinateTuple().begin()); o.push_back((lg ? std::log2(v) : v) * sc); } return o; }
void weighted(Rec& r) {
   tr::Rng& g = r.rng; double wi[] = {1, 2, 4, 8, 16};
   for(int k = 0; k < 12; ++k) {
      double w4 = wi[g.below(5)]; int w = static_cast<int>(g.below(5)); if((w == 1 || w == 3)) {} else if(g.chance(50)) w4 = static_cast<double>(g.range(0, 12));
      { double a = static_cast<double>(g.range(-9, 9)), b = static_cast<double>(g.range(-9, 9)), x = b; weigh<Adder>(w, a, w4 / 4, x); std::vector<double> va = {a}, vb = {b}, vr = {4 * x}; r.ev(J("weighted").s("w", WN[w]).n("w4", w4).a("a", va).a("b", vb).a("r", vr)); }
      { double a = static_cast<double>(g.range(-9, 9)), x = a, y = 0, v4 = wi[g.below(5)]; std::vector<double> va = {a, a}, vb = {0, 0}, vr; Adder::hop(v4 / 4, x); Adder::hop(a, v4 / 4, y); vr = {4 * x, 4 * y}; r.ev(J("weighted").s("w", "hop").n("w4", v4).a("a", va).a("b", vb).a("r", vr)); x = a; Adder::ihop(v4 / 4, x); Adder::ihop(a, v4 / 4, y); vr = {4 * x, 4 * y}; r.ev(J("weighted").s("w", "ihop").n("w4", v4).a("a", va).a("b", vb).a("r", vr)); }
      size_t d = 1 + g.below(3); std::vector<size_t> sh, vi; for(size_t i = 0; i < d; ++i) { sh.push_back(1 + g.below(3)); vi.push_back(2 * i + 1); }
      { std::vector<double> ta, tb; IF a = factor(g, d, sh, vi, ta, false), b = factor(g, d, sh, vi, tb, false); weigh<Adder>(w, a, w4 / 4, b); r.ev(J("weighted").s("w", WN[w]).n("w4", w4).a("a", ta).a("b", tb).a("r", table(b, sh, 4, false))); }
      { std::vector<double> ta, tb; IF a = factor(g, d, sh, vi, ta, true), b = factor(g, d, sh, vi, tb, true); weigh<Multiplier>(w, a, w4 / 4, b); r.ev(J("weighted").s("w", WN[w]).n("w4", w4).a("a", ta).a("b", tb).a("r", table(b, sh, 4, true))); }
      { std::vector<double> ta, z; double v4 = wi[g.below(5)]; IF a = factor(g, d, sh, vi, ta, true), x = a, y; z.assign(ta.size(), 0); Multiplier::hop(v4 / 4, x); r.ev(J("weighted").s("w", "hop").n("w4", v4).a("a", ta).a("b", z).a("r", table(x, sh, 4, true))); x = a; Multiplier::ihop(v4 / 4, x); r.ev(J("weighted").s("w", "ihop").n("w4", v4).a("a", ta).a("b", z).a("r", table(x, sh, 4, true)));
        Multiplier::hop(a, v4 / 4, y); r.ev(J("weighted").s("w", "hop").n("w4", v4).a("a", ta).a("b", z).a("r", table(y, sh, 4, true))); IF y2; Multiplier::ihop(a, v4 / 4, y2); r.ev(J("weighted").s("w", "ihop").n("w4", v4).a("a", ta).a("b", z).a("r", table(y2, sh, 4, true))); }
      // normalisation
      std::vector<double> t; IF f = factor(g, d, sh, vi, t, false), q = f; double z; f.template accumulate<Minimizer>(z); Normalization::normalize<Minimizer, Adder>(q); r.ev(J("normalize").s("acc", "min").s("o", "add").a("t", t).n("z", z).a("r", table(q, sh, 1, false)));
      q = f; f.template accumulate<Maximizer>(z); Normalization::normalize<Maximizer, Adder>(q); r.ev(J("normalize").s("acc", "max").s("o", "add").a("t", t).n("z", z).a("r", table(q, sh, 1, false)));
      for(auto& x : t) x = std::fabs(x); { ShapeWalker<std::vector<size_t>::const_iterator> wk(sh.begin(), d); for(size_t i = 0; i < t.size(); ++i, ++wk) f(wk.coordinateTuple().begin()) = t[i]; }
      q = f; f.template accumulate<Integrator>(z); Normalization::normalize<Integrator, Multiplier>(q); r.ev(J("normalize").s("acc", "int").s("o", "mul").a("t", t).n("z", z).a("r", table(q, sh, z == 0 ? 1 : z, false)));
      q = f; f.template accumulate<Maximizer>(z); Normalization::normalize<Maximizer, Multiplier>(q); r.ev(J("normalize").s("acc", "max").s("o", "mul").a("t", t).n("z", z).a("r", table(q, sh, z == 0 ? 1 : z, false)));
   }
}
// ---- Tribool
void tribool(Rec& r) {
   tr::Rng& g = r.rng; Tribool t[3]; Tribool::State S[] = {Tribool::Maybe, Tribool::False, Tribool::True};
   auto see = [&](int i) {
      const Tribool& x = t[i]; std::ostringstream os; os << x; J j("tsee"); j.i("i", i + 1).i("pr", atol(os.str().c_str())).t("b", x ? true : false).t("n", !x).t("m", x.maybe()).t("et", x == true).t("ef", x == false).t("nt", x != true).t("nf", x != false);
      std::vector<int> es, ns, ei, eq, ne; for(int k = 0; k < 3; ++k) { es.push_back(x == S[k]); ns.push_back(x != S[k]); ei.push_back(x == (k - 1)); eq.push_back(x == t[k]); ne.push_back(x != t[k]); }
      r.ev(j.a("es", es).a("ns", ns).a("ei", ei).a("eq", eq).a("ne", ne));
   };
   for(int i = 0; i < 3; ++i) see(i);
   for(int k = 0; k < 40; ++k) {
      int i = static_cast<int>(g.below(3)), j = static_cast<int>(g.below(3)), v = static_cast<int>(g.range(-1, 3)); size_t s = g.below(3);
      switch(g.below(9)) {
         case 0: t[i] = Tribool(); r.ev(J("tset").i("i", i + 1).i("k", -1)); break;
         case 1: t[i] = Tribool(v); r.ev(J("tset").i("i", i + 1).i("k", v)); break;
         case 2: t[i] = v; r.ev(J("tset").i("i", i + 1).i("k", v)); break;
         case 3: t[i] = (v > 0); r.ev(J("tset").i("i", i + 1).i("k", v > 0)); break;
         case 4: t[i] = S[s]; r.ev(J("tset").i("i", i + 1).i("k", static_cast<long>(s) - 1)); break;
         case 5: { Tribool c(t[j]); t[i] = c; r.ev(J("tcopy").i("i", i + 1).i("j", j + 1)); break; }
         case 6: { Tribool c(S[s]); t[i] = c; r.ev(J("tset").i("i", i + 1).i("k", static_cast<long>(s) - 1)); break; }
         default: t[i] &= S[s]; r.ev(J("tand").i("i", i + 1).i("k", static_cast<long>(s) - 1));
      }
      see(i);
   }
}
void build(tr::Driver& d) {
   auto add = [&](const std::string& n, size_t q, size_t th, std::function<void(Rec&)> f) { for(size_t i = 0; i < d.n(q, th); ++i) d.add(n + std::to_string(i), f); };
   add("algebra-double", 6, 200, algebra<double>); add("algebra-float", 4, 100, algebra<float>); add("algebra-int", 4, 100, algebra<int>); add("algebra-long", 3, 100, algebra<long>);
   add("logsum", 8, 200, logsum); add("logic-bool", 1, 1, logic<bool>); add("logic-int", 1, 1, logic<int>);
   add("accumulation", 40, 2000, accs); add("functors", 10, 300, functors); add("weighted", 25, 800, weighted); add("tribool", 25, 800, tribool);
}
DRIVER_MAIN(build)
