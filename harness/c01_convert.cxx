// The converters between UAI text files and stored models, run as programs on
// files (their main functions, with exit code or exception as the outcome).
#include "gmzoo.hxx"
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
#include <limits>
#include <algorithm>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#define main converter_main
namespace uai2h5 {
#include <opengm/../../src/converter/uai2opengm.cxx>
}
namespace h52uai {
#include <opengm/../../src/converter/opengm2uai.cxx>
}
#undef main
#include <unistd.h>
using namespace opengm;
using tr::Rec; using tr::J;

static const double U = 2e7;
static const long FORBID = 1900000000;
static long energy(double e) { return e > 1e6 ? FORBID : tr::fix(e, U); }

static bool runProgram(int (*f)(int, const char**), const std::vector<std::string>& a) {
   std::vector<const char*> v; for(size_t i = 0; i < a.size(); ++i) v.push_back(a[i].c_str());
   try { return f(static_cast<int>(v.size()), &v[0]) == 0; } catch(std::exception&) { return false; }
}

// ---- texts
typedef std::vector<std::string> Words;
struct Text { std::string head; Words w; };
static std::string num17(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
static long natOf(const std::string& w) { if(w.empty() || w.size() > 9) return -1; for(char c : w) if(c < '0' || c > '9') return -1; return atol(w.c_str()); }
static long valOf(const std::string& w) {
   char* e = 0; double v = strtod(w.c_str(), &e);
   if(w.empty() || *e || !(v >= 0) || !std::isfinite(v)) return tr::S_NAN;
   return v == 0 ? FORBID : energy(-std::log(v));
}
static std::string clean(const std::string& s) { std::string r; for(char c : s) if(c > 32 && c < 127 && c != '"' && c != '\\') r += c; return r; }
static void textFields(J& j, const Text& t) {
   j.s("head", clean(t.head)); std::vector<std::string> q;
   for(size_t i = 0; i < t.w.size(); ++i) q.push_back(J().i("i", natOf(t.w[i])).i("e", valOf(t.w[i])).str());
   j.raw("w", tr::jarr(q));
}
static void writeText(tr::Rng& g, const std::string& p, const Text& t) {
   std::ofstream f(p.c_str()); static const char* seps[] = {" ", "\n", "  ", "\t", " \n\n"};
   bool plain = g.chance(50), end = g.chance(70);
   if(g.chance(20)) f << "  "; f << t.head; if(g.chance(20)) f << " "; f << "\n";
   for(size_t i = 0; i < t.w.size(); ++i) { f << t.w[i]; if(i + 1 < t.w.size() || end) f << (plain ? (i % 5 == 4 ? "\n" : " ") : seps[g.below(5)]); }
}
static bool readText(const std::string& p, Text& t) {
   std::ifstream f(p.c_str()); if(!f) return false; t = Text(); std::getline(f, t.head); std::string w; while(f >> w) t.w.push_back(w); return true;
}
static std::string value(tr::Rng& g) {
   switch(g.below(8)) {
      case 0: return "0"; case 1: return "1"; case 2: return "0.5"; case 3: return "2"; case 4: return "1e-3"; case 5: return "12.25";
      default: return num17(std::exp(-static_cast<double>(g.range(-4000000, 4000000)) / 1e6));
   }
}
static Text randomText(tr::Rng& g) {
   Text t; t.head = "MARKOV"; size_t n = g.chance(5) ? 0 : 1 + g.below(4); Vs lab; size_t st = 1;
   for(size_t i = 0; i < n; ++i) { size_t l = 1 + g.below(4); if(st * l > 64) l = 1; st *= l; lab.push_back(l); }
   t.w.push_back(std::to_string(n)); for(size_t i = 0; i < n; ++i) t.w.push_back(std::to_string(lab[i]));
   size_t m = g.below(6); std::vector<Vs> sc; Words tables; t.w.push_back(std::to_string(m));
   for(size_t f = 0; f < m; ++f) {
      Vs v = somePick(g, n, g.chance(8) ? 0 : 1 + g.below(3 + g.below(2))); if(g.chance(40)) std::sort(v.begin(), v.end());
      t.w.push_back(std::to_string(v.size())); size_t s = 1; for(size_t i = 0; i < v.size(); ++i) { t.w.push_back(std::to_string(v[i])); s *= lab[v[i]]; }
      tables.push_back(std::to_string(s)); bool zero = g.chance(15);
      for(size_t k = 0; k < s; ++k) { std::string x = value(g); if(x == "0" && !zero) x = "3"; tables.push_back(x); }
   }
   t.w.insert(t.w.end(), tables.begin(), tables.end());
   return t;
}
static void spoil(tr::Rng& g, Text& t) {
   size_t n = t.w.size(), k = g.below(n);
   switch(g.below(12)) {
      case 0: t.w.resize(k); break;
      case 1: t.w.resize(n - 1); break;
      case 2: t.w.erase(t.w.begin() + k); break;
      case 3: t.w.insert(t.w.begin() + k, std::to_string(g.below(4))); break;
      case 4: t.w[k] = "x"; break;
      case 5: t.w[k] = "-" + t.w[k]; break;
      case 6: t.w[k] += "y"; break;
      case 7: { long v = natOf(t.w[k]); if(v < 0) v = 1; t.w[k] = std::to_string(v + g.range(1, 3)); break; }
      case 8: { long v = natOf(t.w[k]); if(v > 0) t.w[k] = std::to_string(v - 1); else t.w[k] = "0.5"; break; }
      case 9: { static const char* h[] = {"BAYES", "", "MARKOVX", "markov"}; t.head = h[g.below(4)]; break; }
      case 10: { size_t nv = static_cast<size_t>(natOf(t.w[0])); size_t i = 1 + g.below(nv + 4); if(i < n) t.w[i] = g.chance(50) ? "0" : "40"; break; }
      default: if(k + 1 < n) std::swap(t.w[k], t.w[k + 1]); else t.w.clear();
   }
}

// ---- stored models
typedef GraphicalModel<double, Adder, meta::TypeListGenerator<ExplicitFunction<double> >::type, DiscreteSpace<> > GmE;
typedef GraphicalModel<double, Adder, meta::TypeListGenerator<ExplicitFunction<double>, PottsFunction<double>, PottsNFunction<double>, PottsGFunction<double>, TruncatedSquaredDifferenceFunction<double>, TruncatedAbsoluteDifferenceFunction<double> >::type, DiscreteSpace<> > GmAll;
typedef GraphicalModel<double, Adder, meta::TypeListGenerator<TruncatedAbsoluteDifferenceFunction<double>, PottsFunction<double>, ExplicitFunction<double> >::type, DiscreteSpace<> > GmSome;
typedef GraphicalModel<double, Adder, meta::TypeListGenerator<ExplicitFunction<double>, SparseFunction<double, size_t, size_t> >::type, DiscreteSpace<> > GmSparse;

template<class GM> void modelFields(J& j, const GM& gm) {
   Vs lab; for(size_t v = 0; v < gm.numberOfVariables(); ++v) lab.push_back(gm.numberOfLabels(v)); j.a("lab", lab);
   std::vector<std::string> fs;
   for(size_t f = 0; f < gm.numberOfFactors(); ++f) {
      Vs v(gm[f].variableIndicesBegin(), gm[f].variableIndicesEnd()), s, x(v.size() + 1, 0); std::vector<long> t;
      for(size_t i = 0; i < v.size(); ++i) s.push_back(gm.numberOfLabels(v[i]));
      do t.push_back(energy(gm[f](x.begin()))); while(nextLabeling(s, x));
      fs.push_back(J().a("v", v).a("t", t).str());
   }
   j.raw("fac", tr::jarr(fs));
}
template<class GM, class F> void put(tr::Rng& g, GM& gm, const F& f, const Vs& v) { typename GM::FunctionIdentifier id = g.chance(50) ? gm.addSharedFunction(f) : gm.addFunction(f); gm.addFactor(id, v.begin(), v.end()); }
static double en(tr::Rng& g) { return g.chance(30) ? static_cast<double>(g.range(-4, 4)) : static_cast<double>(g.range(-4000000, 4000000)) / 1e6; }
template<class GM> struct AddOther { static void add(tr::Rng& g, GM& gm, const Vs& v, const Vs& s) {} };
static bool two(const Vs& s) { return s.size() == 2; }
static double w1(tr::Rng& g, const Vs& s, bool sq) { double m = static_cast<double>(std::max(s[0], s[1])); (void)m; return en(g) / (sq ? 9 : 3); }
template<> struct AddOther<GmAll> { static void add(tr::Rng& g, GmAll& gm, const Vs& v, const Vs& s) {
   switch(g.below(5)) {
      case 0: if(two(s)) return put(g, gm, PottsFunction<double>(s[0], s[1], en(g), en(g)), v); break;
      case 1: if(!s.empty()) return put(g, gm, PottsNFunction<double>(s.begin(), s.end(), en(g), en(g)), v); break;
      case 2: if(!s.empty() && s.size() <= 3) { static const size_t bell[] = {1, 1, 2, 5}; std::vector<double> q; for(size_t i = 0; i < bell[s.size()]; ++i) q.push_back(en(g)); return put(g, gm, PottsGFunction<double>(s.begin(), s.end(), q.begin()), v); } break;
      case 3: if(two(s)) return put(g, gm, TruncatedSquaredDifferenceFunction<double>(s[0], s[1], 1 + static_cast<double>(g.below(4)), w1(g, s, true)), v); break;
      default: if(two(s)) return put(g, gm, TruncatedAbsoluteDifferenceFunction<double>(s[0], s[1], 1 + static_cast<double>(g.below(3)), w1(g, s, false)), v);
   }
   return put(g, gm, PottsNFunction<double>(s.begin(), s.end(), en(g), en(g)), v);
} };
template<> struct AddOther<GmSome> { static void add(tr::Rng& g, GmSome& gm, const Vs& v, const Vs& s) {
   if(s.size() != 2) return; if(g.chance(50)) put(g, gm, PottsFunction<double>(s[0], s[1], en(g), en(g)), v); else put(g, gm, TruncatedAbsoluteDifferenceFunction<double>(s[0], s[1], 2, w1(g, s, false)), v);
} };
template<> struct AddOther<GmSparse> { static void add(tr::Rng& g, GmSparse& gm, const Vs& v, const Vs& s) {
   if(s.empty()) return; SparseFunction<double, size_t, size_t> f(s.begin(), s.end(), 1.0); Vs x(s.size(), 0); f.insert(x.begin(), 2.0); gm.addFactor(gm.addFunction(f), v.begin(), v.end());
} };
template<class GM> GM randomModel(tr::Rng& g) {
   size_t n = g.chance(5) ? 0 : 1 + g.below(5); Vs lab; size_t st = 1;
   for(size_t i = 0; i < n; ++i) { size_t l = 1 + g.below(4); if(st * l > 72) l = 1; st *= l; lab.push_back(l); }
   GM gm((DiscreteSpace<>(lab.begin(), lab.end())));
   for(size_t m = g.below(5); m > 0; --m) {
      Vs v = somePick(g, n, g.chance(8) ? 0 : 1 + g.below(4)); std::sort(v.begin(), v.end()); Vs s; for(size_t i : v) s.push_back(lab[i]);
      if(!s.empty() && g.chance(50)) AddOther<GM>::add(g, gm, v, s);
      else {
         ExplicitFunction<double> f(s.begin(), s.end()); Vs x(s.size() + 1, 0); bool inf = g.chance(10);
         do f(x.begin()) = inf && g.chance(30) ? (g.chance(50) ? 1e7 : std::numeric_limits<double>::infinity()) : en(g); while(nextLabeling(s, x));
         put(g, gm, f, v);
      }
   }
   return gm;
}

static bool readModel(const std::string& p, GmE& gm) { try { hdf5::load(gm, p, "gm"); return true; } catch(std::exception&) { return false; } }

static void toH5(Rec& r, const std::string& in, const std::string& out) {
   unlink(out.c_str());
   bool ok = runProgram(uai2h5::converter_main, {"uai2opengm", in, out});
   J j("uai2h5"); j.s("n", in).s("out", out).t("done", ok); GmE gm; if(ok) { hdf5::load(gm, out, "gm"); modelFields(j, gm); } r.ev(j);
}
static void toUai(Rec& r, const std::string& in, const std::string& out) {
   unlink(out.c_str());
   bool ok = runProgram(h52uai::converter_main, {"opengm2uai", in, out});
   J j("h52uai"); j.s("n", in).s("out", out).t("done", ok); Text t; if(ok) { readText(out, t); textFields(j, t); } r.ev(j);
}
static void newText(Rec& r, const std::string& n, const Text& t) { writeText(r.rng, n, t); J j("text"); j.s("n", n); textFields(j, t); r.ev(j); }
template<class GM> void newModel(Rec& r, const std::string& n) {
   GM gm = randomModel<GM>(r.rng); bool known = !std::is_same<GM, GmSparse>::value;
   hdf5::save(gm, n, "gm"); J j("model"); j.s("n", n); modelFields(j, gm); j.t("known", known); r.ev(j);
}
static std::string sandbox() { char d[] = "convXXXXXX"; std::string s = mkdtemp(d); if(chdir(s.c_str())) throw std::runtime_error("chdir"); return s; }
static void done(const std::string& s) { std::string c = "cd .. && rm -rf ./" + s; if(system(c.c_str())) {} }

static void good(Rec& r) { std::string d = sandbox(); newText(r, "a.uai", randomText(r.rng)); toH5(r, "a.uai", "a.h5"); toUai(r, "a.h5", "b.uai"); toH5(r, "b.uai", "b.h5"); done(d); }
static void bad(Rec& r) {
   std::string d = sandbox(); Text t = randomText(r.rng);
   for(int i = 0; i < 6; ++i) { Text q = t; spoil(r.rng, q); if(r.rng.chance(20)) { if(!q.w.empty()) spoil(r.rng, q); } newText(r, "a.uai", q); toH5(r, "a.uai", "a.h5"); }
   done(d);
}
template<class GM> void stored(Rec& r) { std::string d = sandbox(); newModel<GM>(r, "m.h5"); toUai(r, "m.h5", "m.uai"); toH5(r, "m.uai", "n.h5"); toUai(r, "n.h5", "n.uai"); done(d); }
static void args(Rec& r) {
   std::string d = sandbox(); newText(r, "a.uai", randomText(r.rng)); newModel<GmE>(r, "m.h5");
   toH5(r, "missing", "x.h5"); toUai(r, "missing", "x.uai");
   toUai(r, "a.uai", "x.uai"); toH5(r, "m.h5", "x.h5");
   for(size_t n = 1; n < 5; ++n) if(n != 3) for(int k = 0; k < 2; ++k) { std::vector<std::string> a(n, k ? "m.h5" : "a.uai"); bool ok = runProgram(k ? h52uai::converter_main : uai2h5::converter_main, a); r.ev(J("argc").i("rc", ok ? 0 : 1)); }
   done(d);
}
static void build(tr::Driver& d) {
   auto add = [&](const std::string& n, size_t q, size_t t, void (*f)(Rec&)) { for(size_t i = 0; i < d.n(q, t); ++i) d.add(n + std::to_string(i), f); };
   add("text", 120, 2000, good); add("bad", 150, 2500, bad); add("explicit", 40, 500, stored<GmE>); add("all", 80, 1000, stored<GmAll>); add("some", 40, 500, stored<GmSome>);
   add("args", 4, 20, args);
}
DRIVER_MAIN(build)
