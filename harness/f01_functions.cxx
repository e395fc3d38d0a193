// Built-in function classes: construction, copying, assignment, setters, values.
#include "fnzoo.hxx"
#include "fnset.hxx"
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/unary_loss_function.hxx>
using namespace opengm;
using tr::Rec; using tr::J;
typedef std::vector<size_t> Vs;

// ---- extra makers
template<class T> struct Make<DynamicSingleSiteFunction<T> > { static const char* kind() { return "single"; } static DynamicSingleSiteFunction<T> make(const Fn& f) { DynamicSingleSiteFunction<T> r(f.s[0]); for(size_t i = 0; i < f.s[0]; ++i) r[i] = static_cast<T>(f.p[i]); return r; } };
template<class T, size_t N, template<typename, size_t> class S> struct Make<StaticSingleSiteFunction<T, N, S> > { static const char* kind() { return "single"; } static StaticSingleSiteFunction<T, N, S> make(const Fn& f) { StaticSingleSiteFunction<T, N, S> r; for(size_t i = 0; i < N; ++i) r(&i) = static_cast<T>(f.p[i]); return r; } };
template<class T, class I, class L> struct Make<FoEFunction<T, I, L> > { static const char* kind() { return "foe"; }
   static FoEFunction<T, I, L> make(const Fn& f) { size_t m = static_cast<size_t>(f.p[0]); std::vector<T> a(f.p.begin() + 1, f.p.begin() + 1 + static_cast<long>(m)), e(f.p.begin() + 1 + static_cast<long>(m), f.p.end()); if(m % 2) return FoEFunction<T, I, L>(e, a, static_cast<L>(f.s[0])); return FoEFunction<T, I, L>(e.begin(), a.begin(), static_cast<L>(f.s[0]), static_cast<I>(f.s.size()), m); } };

static bool randomFn2(tr::Rng& g, const std::string& kind, const Shape& s, Fn& f) {
   if(kind == "single") { f.k = kind; f.s = Shape(1, s[0]); f.p.clear(); for(size_t i = 0; i < s[0]; ++i) f.p.push_back(g.range(-9, 9)); return true; }
   if(kind == "foe") { f.k = kind; f.s = s; size_t m = 1 + g.below(3); f.p.assign(1, static_cast<long>(m)); long sum = 0; for(size_t i = 0; i < m; ++i) { long a = g.range(0, 2); if(sum + a > 3) a = 0; sum += a; f.p.push_back(a); } for(size_t i = 0; i < m * s.size(); ++i) f.p.push_back(g.range(-2, 2)); return true; }
   if(kind == "pottsg" && s.size() > 4) { static const size_t bell[7] = {1, 1, 2, 5, 15, 52, 203}; if(s.size() > 6) return false; f.k = kind; f.s = s; f.p.clear(); for(size_t i = 0; i < bell[s.size()]; ++i) f.p.push_back(g.range(-9, 9)); return true; }
   return randomFn(g, kind, s, -9, 9, f);
}
template<class F> double valueOf(const F& f, const Fn&, const size_t* x) { return static_cast<double>(f(x)); }
template<class T, class I, class L> double valueOf(const FoEFunction<T, I, L>& f, const Fn& d, const size_t* x) { long a = 0; for(long i = 0; i < d.p[0]; ++i) a += d.p[1 + static_cast<size_t>(i)]; return std::exp(static_cast<double>(f(x))) * std::pow(2.0, static_cast<double>(a)); }

template<class F> void obs(Rec& r, long slot, const F& f, const Fn& d) {
   Shape s; for(size_t i = 0; i < f.dimension(); ++i) s.push_back(f.shape(i));
   if(prodOf(d.s) <= 300 && (d.s.size() <= 6)) { std::vector<double> t; Vs x(std::max<size_t>(1, d.s.size()), 0); do t.push_back(valueOf(f, d, x.data())); while(nextLabeling(d.s, x)); r.ev(J("obs").i("slot", slot).i("dim", tr::idx(f.dimension())).a("s", s).i("size", tr::idx(f.size())).a("t", t)); }
   else { std::vector<Vs> xs; std::vector<double> v; for(int k = 0; k < 12; ++k) { Vs x; for(size_t q : d.s) x.push_back(k == 0 ? q - 1 : r.rng.below(q)); xs.push_back(x); v.push_back(valueOf(f, d, x.data())); } r.ev(J("probe").i("slot", slot).i("dim", tr::idx(f.dimension())).a("s", s).i("size", tr::idx(f.size())).aa("x", xs).a("val", v)); }
}
template<class T> bool setSingle(Rec& r, long slot, T& f, Fn& d) { Vs x(1, r.rng.below(d.s[0])); long v = r.rng.range(-9, 9); f(x.begin()) = static_cast<typename T::ValueType>(v); d.p[x[0]] = v; r.ev(J("set").i("slot", slot).a("x", x).i("v", v)); return true; }
template<class T> bool setter(Rec& r, long slot, DynamicSingleSiteFunction<T>& f, Fn& d, long = 9) {
   if(r.rng.chance(35)) { size_t n = 1 + r.rng.below(5); long v = r.rng.range(-9, 9); f.assign(n, static_cast<T>(v)); d.s.assign(1, n); d.p.assign(n, v); r.ev(J("resize").i("slot", slot).i("n", static_cast<long>(n)).i("v", v)); return true; }
   if(r.rng.chance(20)) { size_t n = 1 + r.rng.below(5); f.assign(n); if(n != d.s[0]) { r.ev(J("resize").i("slot", slot).i("n", static_cast<long>(n)).i("v", 0)); d.s.assign(1, n); d.p.assign(n, 0); for(size_t i = 0; i < n; ++i) f[i] = 0; } return true; }
   return setSingle(r, slot, f, d);
}
template<class T, size_t N, template<typename, size_t> class S> bool setter(Rec& r, long slot, StaticSingleSiteFunction<T, N, S>& f, Fn& d, long = 9) { return setSingle(r, slot, f, d); }
template<class F> void history(Rec& r, const std::string& kind, const Shape& fixedShape, bool big) {
   tr::Rng& g = r.rng; std::unique_ptr<F> f[3]; Fn d[3];
   auto fresh = [&](Fn& q) { for(int t = 0; t < 50; ++t) {
      Shape s = fixedShape;
      if(s.empty()) { size_t o = kind == "potts" || kind == "ad" || kind == "sd" || kind == "tad" || kind == "tsd" ? 2 : (kind == "single" ? 1 : (kind == "foe" ? 1 + g.below(3) : (big ? 5 + g.below(kind == "pottsg" ? 2 : 13) : g.below(5)))); if(kind != "const" && kind != "explicit" && o == 0) o = 1; if(kind == "explicit" && o == 0) o = 1;
         size_t u = 1 + g.below(4), states = 1; for(size_t i = 0; i < o; ++i) { size_t l = kind == "foe" ? u : 1 + g.below(o > 4 ? 3 : 5); while(l > 1 && states * l > 200) --l; states *= l; s.push_back(l); } }
      if(kind == "const" && s.empty()) { q.k = kind; q.s = s; q.p.assign(1, g.range(-9, 9)); return true; }
      if(randomFn2(g, kind, s, q)) return true; } return false; };
   size_t steps = r.thorough ? 30 : 12;
   for(size_t t = 0; t < steps; ++t) {
      long i = static_cast<long>(g.below(3)), j = static_cast<long>(g.below(3)); size_t w = g.below(10);
      if(!f[i] || w == 0) { if(!fresh(d[i])) return; f[i].reset(new F(Make<F>::make(d[i]))); r.ev(J("new").i("slot", i).raw("f", d[i].json())); obs(r, i, *f[i], d[i]); }
      else if(w <= 2 && f[j]) { if(i != j) { f[i].reset(); f[i].reset(new F(*f[j])); d[i] = d[j]; r.ev(J("copy").i("slot", i).i("from", j)); obs(r, i, *f[i], d[i]); } }
      else if(w <= 4 && f[j]) { *f[i] = *f[j]; d[i] = d[j]; r.ev(J("copy").i("slot", i).i("from", j)); obs(r, i, *f[i], d[i]); }
      else if(setter(r, i, *f[i], d[i])) { obs(r, i, *f[i], d[i]); if(f[j] && j != i) obs(r, j, *f[j], d[j]); }
   }
   // assignment to a default-constructed object
   for(long i = 0; i < 3; ++i) if(f[i] && g.chance(50)) { F e; e = *f[i]; obs(r, i, e, d[i]); F h(e); obs(r, i, h, d[i]); }
}
template<class F> void reg(tr::Driver& d, const std::string& t, size_t q, size_t th, const Shape& s = Shape(), bool big = false) { std::string k = Make<F>::kind(); for(size_t i = 0; i < d.n(q, th); ++i) d.add(k + "-" + t + "-" + std::to_string(i), [k, s, big](Rec& r) { history<F>(r, k, s, big); }); }
template<class T, class I, class L> void all(tr::Driver& d, const std::string& t) {
   reg<ExplicitFunction<T, I, L> >(d, t, 15, 150); reg<PottsFunction<T, I, L> >(d, t, 15, 150); reg<PottsNFunction<T, I, L> >(d, t, 15, 150); reg<PottsGFunction<T, I, L> >(d, t, 15, 200);
   reg<AbsoluteDifferenceFunction<T, I, L> >(d, t, 10, 150); reg<SquaredDifferenceFunction<T, I, L> >(d, t, 10, 150); reg<TruncatedAbsoluteDifferenceFunction<T, I, L> >(d, t, 10, 150); reg<TruncatedSquaredDifferenceFunction<T, I, L> >(d, t, 10, 150);
   reg<ConstantFunction<T, I, L> >(d, t, 10, 150); reg<SparseFunction<T, I, L> >(d, t, 15, 150); reg<SparseFunction<T, I, L> >(d, t + "-big", 15, 150, Shape(), true); reg<PottsGFunction<T, I, L> >(d, t + "-big", 8, 60, Shape(), true); reg<PottsNFunction<T, I, L> >(d, t + "-big", 6, 60, Shape(), true);
}
static void foeDefault(Rec& r) {   // the built-in experts are those documented in the header
   FoEFunction<double> f; f.setDefault(); const double a[3] = {0.586612685392731, 1.157638405566669, 0.846059486257292};
   const double e[12] = {-0.0582774013402734, 0.0339010363051084, -0.0501593018104054, 0.0745568557931712, 0.0492112815304123, -0.0307820846538285, -0.123247230948424, 0.104812330861557, 0.0562633568728865, 0.0152832583489560, -0.0576215592718086, -0.0139673758425540};
   FoEFunction<double> h(std::vector<double>(e, e + 12), std::vector<double>(a, a + 3), 256); std::vector<long> x, y;
   x.push_back(tr::idx(f.dimension())); x.push_back(tr::idx(f.shape(3))); y.push_back(4); y.push_back(256);
   for(int k = 0; k < 30; ++k) { size_t l[4]; for(size_t& q : l) q = r.rng.below(256); x.push_back(tr::fix(f(l), 1e4)); y.push_back(tr::fix(h(l), 1e4)); }
   r.ev(J("same").a("a", x).a("b", y));
}
static void loss(Rec& r) {
   typedef UnaryLossFunction<double, size_t, size_t> F; tr::Rng& g = r.rng; size_t n = 1 + g.below(5), gt = g.below(n), type = g.below(6); long mult = g.range(-3, 3); Fn d; d.k = "loss"; d.s.assign(1, n); d.p = {static_cast<long>(type), static_cast<long>(gt), mult};
   F::SharedMultiplers sm; std::vector<size_t> sh(type == 3 ? 2 : 1, n); sm.labelMult_ = marray::Marray<double>(sh.begin(), sh.end()); for(size_t i = 0; i < sm.labelMult_.size(); ++i) { long v = g.range(-5, 5); sm.labelMult_(i) = static_cast<double>(v); d.p.push_back(v); }
   F f(n, gt, static_cast<F::LossType>(type), static_cast<double>(mult), sm, false); r.ev(J("new").i("slot", 0).raw("f", d.json())); obs(r, 0, f, d); F h(f); obs(r, 0, h, d);
}
void part(tr::Driver& d) {
#if PART == 0
   all<double, size_t, size_t>(d, "d");
   reg<FoEFunction<double, size_t, size_t> >(d, "d", 20, 200); for(size_t k = 0; k < d.n(4, 20); ++k) d.add("foe-default-" + std::to_string(k), foeDefault);
   for(size_t k = 0; k < d.n(40, 400); ++k) d.add("loss-" + std::to_string(k), loss);
#elif PART == 1
   all<float, unsigned, unsigned char>(d, "fu8"); reg<SparseFunction<float, size_t, unsigned char> >(d, "u8-wide", 10, 60, Shape{16, 16, 2}); reg<SparseFunction<float, size_t, unsigned char> >(d, "u8-odd", 10, 60, Shape{7, 11, 5}); reg<SparseFunction<double, size_t, unsigned short> >(d, "u16-wide", 6, 60, Shape{200, 2, 200, 3});
#else
   all<int, size_t, size_t>(d, "i"); reg<DynamicSingleSiteFunction<double> >(d, "dyn", 40, 400); reg<DynamicSingleSiteFunction<int> >(d, "dyni", 20, 200);
   reg<StaticSingleSiteFunction<double, 3, StackStorage> >(d, "stack", 15, 100, Shape{3}); reg<StaticSingleSiteFunction<float, 4, HeapStorage> >(d, "heap", 15, 100, Shape{4}); reg<StaticSingleSiteFunction<int, 1, HeapStorage> >(d, "heap1", 5, 50, Shape{1});
#endif
}
DRIVER_MAIN(part)
