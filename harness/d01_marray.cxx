// Multi-dimensional arrays and views: three arrays, four views on them.
#include "trace.hxx"
#include <opengm/datastructures/marray/marray.hxx>
using tr::Rec; using tr::J;
typedef std::vector<size_t> Vs; typedef marray::View<int, false> V; typedef marray::View<int, true> CV; typedef marray::Marray<int> A; typedef marray::Vector<int> Vec; typedef marray::Matrix<int> Mat;
static marray::CoordinateOrder ord(size_t o) { return o ? marray::LastMajorOrder : marray::FirstMajorOrder; }
static long onum(marray::CoordinateOrder o) { return o == marray::LastMajorOrder ? 1 : 0; }
static size_t prod(const Vs& s) { size_t p = 1; for(size_t x : s) p *= x; return p; }
static bool next(Vs& c, const Vs& sh) { for(size_t j = 0; j < c.size(); ++j) { if(++c[j] < sh[j]) return true; c[j] = 0; } return false; }
template<class W> int& at(W& w, const Vs& c) { switch(c.size()) { case 2: return w(c[0], c[1]); case 3: return w(c[0], c[1], c[2]); case 4: return w(c[0], c[1], c[2], c[3]); case 5: return w(c[0], c[1], c[2], c[3], c[4]); default: return w(c.begin()); } }
struct World {
   Rec& r; tr::Rng& g; int kind; // kind 0: arrays are Marray, 1: vector and matrix classes
   std::vector<std::shared_ptr<A> > arr; std::vector<std::shared_ptr<V> > view; std::vector<int> base; std::vector<int> cls;
   World(Rec& rr, int k) : r(rr), g(rr.rng), kind(k), arr(3), view(4), base(4, -1), cls(3, 0) { if(kind) { cls = {1, 2, 0}; } for(size_t i = 0; i < 3; ++i) arr[i] = make(i); }
   std::shared_ptr<A> make(size_t i) { if(cls[i] == 1) return std::make_shared<Vec>(); if(cls[i] == 2) return std::make_shared<Mat>(); return std::make_shared<A>(); }
   bool live(size_t s) { return s < 3 ? arr[s]->size() != 0 : base[s - 3] >= 0; }
   V& at(size_t s) { return s < 3 ? static_cast<V&>(*arr[s]) : *view[s - 3]; }
   int owner(size_t s) { return s < 3 ? static_cast<int>(s) : base[s - 3]; }
   Vs shape(size_t s) { V& v = at(s); Vs x; for(size_t j = 0; j < v.dimension(); ++j) x.push_back(v.shape(j)); return x; }
   void drop(size_t a) { for(size_t i = 0; i < 4; ++i) if(base[i] == static_cast<int>(a)) { base[i] = -1; view[i].reset(); } }
   std::vector<size_t> alive() { std::vector<size_t> x; for(size_t s = 0; s < 7; ++s) if(live(s)) x.push_back(s); return x; }
   Vs rshape(size_t maxd) { Vs s(g.below(maxd + 1)); for(auto& x : s) x = g.chance(25) ? 1 : 1 + g.below(4); while(prod(s) > 48) s.pop_back(); return s; }
   Vs shapeFor(size_t a) { Vs s = rshape(g.chance(10) ? 5 : 4); if(cls[a] == 1) s = Vs{1 + g.below(6)}; if(cls[a] == 2) s = Vs{1 + g.below(4), 1 + g.below(4)}; return s; }
   bool fits(size_t a, size_t d) { return cls[a] == 0 || static_cast<size_t>(cls[a]) == d; }
   // ---- observation
   void dump(size_t s) {
      V& v = at(s); const V& cvw = v; Vs sh = shape(s), st; for(size_t j = 0; j < v.dimension(); ++j) st.push_back(v.strides(j)); std::vector<long> co, cv, ix, it, ci, ri, cc, ti, fi, of; Vs c(sh.size(), 0);
      do { co.push_back(sh.empty() ? v(0) : sh.size() == 1 ? v(c[0]) : ::at(v, c)); if(sh.empty()) cv.push_back(cvw(0)); else cv.push_back(cvw(c.begin())); size_t k; v.coordinatesToIndex(c.begin(), k); ti.push_back(static_cast<long>(k)); } while(next(c, sh));
      auto rank = [&](const Vs& x) { size_t k = 0; if(v.coordinateOrder() == marray::LastMajorOrder) for(size_t j = sh.size(); j-- > 0;) k = k * sh[j] + x[j]; else for(size_t j = 0; j < sh.size(); ++j) k = k * sh[j] + x[j]; return static_cast<long>(k); };
      for(size_t k = 0; k < v.size(); ++k) { ix.push_back(v(k)); Vs x(sh.size()); if(!sh.empty()) v.indexToCoordinates(k, x.begin()); fi.push_back(rank(x)); size_t o; v.indexToOffset(k, o); of.push_back(static_cast<long>(o)); }
      for(auto i = v.begin(); i != v.end(); ++i) { it.push_back(*i); Vs x(sh.size()); if(!sh.empty()) i.coordinate(x.begin()); cc.push_back(rank(x)); }
      { auto i = cvw.begin(); while(i.hasMore()) ci.push_back(*i++); } for(auto i = v.rbegin(); i != v.rend(); ++i) ri.push_back(*i);
      r.ev(J("dump").i("s", static_cast<long>(s)).a("sh", Vs(v.shapeBegin(), v.shapeEnd())).i("dim", static_cast<long>(v.dimension())).i("sz", static_cast<long>(v.size())).a("st", st).i("o", onum(v.coordinateOrder())).t("sim", v.isSimple()).a("co", co).a("cv", cv).a("ix", ix).a("it", it).a("ci", ci).a("ri", ri).a("cc", cc).a("ti", ti).a("fi", fi).a("of", of));
   }
   void walk(size_t s) {
      V& v = at(s); size_t n = v.size(), d = v.dimension(); auto i = v.begin(); std::vector<std::vector<long> > w; size_t cur = 0;
      for(int k = 0; k < 14; ++k) {
         size_t kind = g.below(6), x = g.below(4);
         switch(kind) {
            case 0: if(cur >= n) continue; if(g.chance(50)) ++i; else i++; ++cur; break;
            case 1: if(cur == 0) continue; if(g.chance(50)) --i; else i--; --cur; break;
            case 2: if(g.chance(50)) i += static_cast<std::ptrdiff_t>(x); else i = i + static_cast<std::ptrdiff_t>(x); cur = std::min(n, cur + x); break;
            case 3: if(x > cur) continue; if(g.chance(60)) i -= static_cast<std::ptrdiff_t>(x); else if(g.chance(50)) i += -static_cast<std::ptrdiff_t>(x); else i = i - static_cast<std::ptrdiff_t>(x); cur -= x; break;
            case 4: i = v.end(); cur = n; break;
            default: i = v.begin(); cur = 0;
         }
         long val = 0, ct = -1; if(cur < n) { val = *i; Vs c(d); if(d) i.coordinate(c.begin()); size_t q = 0; v.coordinatesToIndex(c.begin(), q); ct = static_cast<long>(q); if(*i.operator->() != val) val = -77777; }
         size_t p = cur + g.below(5); long pv = 0; if(p < n) pv = i[p - cur]; else p = n;
         w.push_back({static_cast<long>(kind), static_cast<long>(x), static_cast<long>(i.index()), i.hasMore() ? 1 : 0, val, ct, static_cast<long>(p), pv, static_cast<long>(i - v.begin()), static_cast<long>(v.end() - i)});
      }
      r.ev(J("walk").i("s", static_cast<long>(s)).aa("w", w));
   }
   // ---- changes
   void fill(size_t s) {
      V& v = at(s); std::vector<long> x(v.size()); for(auto& y : x) y = g.range(-9, 9); J e("fill"); e.i("s", static_cast<long>(s)).a("v", x); int how = static_cast<int>(g.below(2));
      if(how == 0) for(size_t k = 0; k < x.size(); ++k) v(k) = static_cast<int>(x[k]); else { size_t k = 0; for(auto i = v.begin(); i.hasMore(); ++i) *i = static_cast<int>(x[k++]); } r.ev(e);
   }
   void put(size_t s) { V& v = at(s); size_t k = g.below(v.size()); int x = static_cast<int>(g.range(-99, 99)); Vs c(v.dimension()); if(v.dimension()) v.indexToCoordinates(k, c.begin()); if(v.dimension() && g.chance(60)) { if(v.dimension() == 1) v(c[0]) = x; else ::at(v, c) = x; } else *(v.begin() + static_cast<std::ptrdiff_t>(k)) = x; r.ev(J("put").i("s", static_cast<long>(s)).i("i", static_cast<long>(k)).i("x", x)); }
   void fresh(size_t a) {
      Vs sh = shapeFor(a); size_t o = g.below(2); int x = static_cast<int>(g.range(-9, 9)); drop(a);
      if(cls[a] == 1) { o = 1; arr[a] = std::make_shared<Vec>(sh[0], x); } else if(cls[a] == 2) arr[a] = std::make_shared<Mat>(sh[0], sh[1], x, ord(o)); else if(sh.empty()) arr[a] = std::make_shared<A>(x, ord(o)); else arr[a] = std::make_shared<A>(sh.begin(), sh.end(), x, ord(o));
      r.ev(J("new").i("s", static_cast<long>(a)).a("sh", sh).i("o", static_cast<long>(o)).i("x", x)); fill(a);
   }
   void copyTo(size_t a, size_t f) {
      V& v = at(f); if(!fits(a, v.dimension())) return; int how = static_cast<int>(g.below(5)); std::shared_ptr<V> keep; if(f >= 3) keep = view[f - 3];
      bool ctor = how < 2 && static_cast<int>(a) != owner(f);
      if(ctor) { drop(a);
         if(cls[a] == 1) arr[a] = f < 3 && cls[f] == 1 && g.chance(50) ? std::make_shared<Vec>(static_cast<Vec&>(*arr[f])) : std::make_shared<Vec>(v); else if(cls[a] == 2) arr[a] = f < 3 && cls[f] == 2 && g.chance(50) ? std::make_shared<Mat>(static_cast<Mat&>(*arr[f])) : std::make_shared<Mat>(v);
         else if(f < 3 && g.chance(50)) arr[a] = std::make_shared<A>(*arr[f]); else if(g.chance(50)) arr[a] = std::make_shared<A>(v); else { CV c(v); arr[a] = std::make_shared<A>(c); }
      } else {
         A& d = *arr[a];
         if(cls[a] == 1) { if(f < 3 && cls[f] == 1) static_cast<Vec&>(d) = static_cast<Vec&>(*arr[f]); else static_cast<Vec&>(d) = v; } else if(cls[a] == 2) { if(f < 3 && cls[f] == 2) static_cast<Mat&>(d) = static_cast<Mat&>(*arr[f]); else static_cast<Mat&>(d) = v; }
         else if(f < 3 && g.chance(50)) d = *arr[f]; else if(g.chance(60)) d = v; else { CV c(v); d = c; }
         if(f == a) { r.ev(J("overlap").i("s", static_cast<long>(a)).i("f", static_cast<long>(a)).t("t", true)); return; }
         drop(a);
      }
      r.ev(J("copy").i("s", static_cast<long>(a)).i("f", static_cast<long>(f)));
   }
   void resize(size_t a) {
      A& d = *arr[a]; Vs sh = shapeFor(a); if(g.chance(40) && live(a)) { sh = shape(a); if(!sh.empty()) { size_t j = g.below(sh.size()); sh[j] = 1 + g.below(5); } if(cls[a] == 0 && g.chance(30)) sh.push_back(1 + g.below(3)); if(cls[a] == 0 && !sh.empty() && g.chance(20)) sh.pop_back(); } while(prod(sh) > 48) sh.pop_back(); if(cls[a] && sh.size() != static_cast<size_t>(cls[a])) return;
      if(live(a) && g.chance(20)) { size_t n = d.size(); Vs t; if(cls[a] == 1) t = {n}; else if(cls[a] == 2) { size_t q = 1 + g.below(n); while(n % q) --q; t = {q, n / q}; } if(cls[a]) { drop(a); if(cls[a] == 1) static_cast<Vec&>(d).reshape(t[0]); else static_cast<Mat&>(d).reshape(t[0], t[1]); r.ev(J("reshapearr").i("s", static_cast<long>(a)).a("sh", t)); return; } }
      int x = static_cast<int>(g.range(-9, 9)); drop(a); if(cls[a] == 1) static_cast<Vec&>(d).resize(sh[0], x); else if(cls[a] == 2) static_cast<Mat&>(d).resize(sh[0], sh[1], x); else d.resize(sh.begin(), sh.end(), x);
      r.ev(J("resize").i("s", static_cast<long>(a)).a("sh", sh).i("x", x));
   }
   void geo(size_t k, size_t f) {
      V& v = at(f); size_t n = v.dimension(); Vs sh = shape(f); J e("geo"); e.i("s", static_cast<long>(k)).i("f", static_cast<long>(f)); bool inplace = k == f; std::shared_ptr<V> out; size_t kind = g.below(10);
      auto put = [&](const V& w) { out = std::make_shared<V>(w); };
      if(kind == 0 || kind == 1) { Vs b(n), s2(n); for(size_t j = 0; j < n; ++j) { b[j] = g.below(sh[j]); s2[j] = 1 + g.below(sh[j] - b[j]); if(g.chance(40)) { b[j] = 0; s2[j] = sh[j]; } } bool withOrder = g.chance(40); size_t o = withOrder ? g.below(2) : static_cast<size_t>(onum(v.coordinateOrder()));
         if(g.chance(50)) put(withOrder ? v.view(b.begin(), s2.begin(), ord(o)) : v.view(b.begin(), s2.begin())); else { V w; if(withOrder) v.view(b.begin(), s2.begin(), ord(o), w); else v.view(b.begin(), s2.begin(), w); put(w); } e.s("k", "sub").a("b", b).a("sh", s2).i("o", static_cast<long>(o)); }
      else if(kind == 2) { if(n == 0) return; size_t d = g.below(n), x = g.below(sh[d]); put(v.boundView(d, x)); e.s("k", "bound").i("x", static_cast<long>(d)).i("y", static_cast<long>(x)); }
      else if(kind == 3) { if(n == 0) return; Vs p(n); for(size_t j = 0; j < n; ++j) p[j] = j; g.shuffle(p); if(inplace) v.permute(p.begin()); else put(v.permutedView(p.begin())); e.s("k", "permute").a("b", p); }
      else if(kind == 4) { if(n == 0) return; size_t a = g.below(n), b = g.below(n); if(inplace) v.transpose(a, b); else put(v.transposedView(a, b)); e.s("k", "swap").i("x", static_cast<long>(a)).i("y", static_cast<long>(b)); }
      else if(kind == 5) { if(n == 0) return; if(inplace) v.transpose(); else put(v.transposedView()); e.s("k", "transpose"); }
      else if(kind == 6) { if(n == 0) return; int x = static_cast<int>(g.range(-5, 5)); if(inplace) v.shift(x); else put(v.shiftedView(x)); e.s("k", "shift").i("x", x); }
      else if(kind == 7) { if(inplace) v.squeeze(); else put(v.squeezedView()); e.s("k", "squeeze"); }
      else if(kind == 8) { Vs s2; size_t left = v.size(); while(left > 1 && s2.size() < 4) { size_t q = 1 + g.below(left); while(left % q) --q; s2.push_back(q); left /= q; } if(left > 1 || s2.empty()) s2.push_back(left);
         if(!v.isSimple()) { bool t = false; try { V w(v); w.reshape(s2.begin(), s2.end()); } catch(const std::runtime_error&) { t = true; } r.ev(J("refused").t("t", t)); return; } if(inplace) v.reshape(s2.begin(), s2.end()); else put(v.reshapedView(s2.begin(), s2.end())); e.s("k", "reshape").a("sh", s2); }
      else { if(f >= 3 || g.chance(30)) { if(inplace) return; V w; if(g.chance(50)) w = v; else w = V(v); put(w); e.s("k", "same"); } else { Vs s2 = rshape(3); if(s2.empty() || prod(s2) > v.size()) return; size_t x = g.below(2), o = g.below(2); int* p = &v(0);
            if(g.chance(60)) { put(V(s2.begin(), s2.end(), p, ord(x), ord(o))); e.s("k", "memory").a("sh", s2).i("x", static_cast<long>(x)).i("o", static_cast<long>(o)); }
            else { size_t step = 1 + g.below(3), len = (v.size() - 1) / step + 1; Vs s3 = {1 + g.below(len)}, st = {step}; put(V(s3.begin(), s3.end(), st.begin(), p, ord(o))); e.s("k", "strided").a("sh", s3).a("b", st).i("o", static_cast<long>(o)); } } }
      if(out) { view[k - 3] = out; base[k - 3] = owner(f); } r.ev(e);
   }
   void same(size_t s, size_t f, bool allowSet) { // s op= f
      V& v = at(s); V& w = at(f); size_t k = g.below(allowSet ? 4 : 3); if(w.dimension() == 0 && v.dimension() != 0 && k == 3) k = 0; const char* nm[] = {"add", "sub", "mul", "set"}; if(k == 3 && s < 3) return; bool c = g.chance(40); CV cw(w);
      if(k == 0) { if(c) v += cw; else v += w; } else if(k == 1) { if(c) v -= cw; else v -= w; } else if(k == 2) { if(c) v *= cw; else v *= w; } else { if(c) v = cw; else v = w; } r.ev(J("arith").i("s", static_cast<long>(s)).i("f", static_cast<long>(f)).s("k", nm[k]));
   }
   void scalar(size_t s) {
      V& v = at(s); size_t k = g.below(6); int x = static_cast<int>(g.range(-3, 3)); std::string nm;
      switch(k) { case 0: v += x; nm = "add"; break; case 1: v -= x; nm = "sub"; break; case 2: v *= x; nm = "mul"; break; case 3: if(s < 3) { if(cls[s] == 1) static_cast<Vec&>(*arr[s]) = x; else if(cls[s] == 2) static_cast<Mat&>(*arr[s]) = x; else *arr[s] = x; } else v = x; nm = "set"; break; case 4: ++v; nm = "add"; x = 1; break; default: --v; nm = "sub"; x = 1; }
      r.ev(J("scalar").i("s", static_cast<long>(s)).s("k", nm).i("x", x));
   }
   void expr(size_t s, size_t a, size_t b, size_t c, bool fresh) {
      V &x = at(a), &y = at(b), &z = at(c); long la = static_cast<long>(a), lb = static_cast<long>(b), lc = static_cast<long>(c); std::vector<std::vector<long> > ex; size_t k = g.below(8); int q = static_cast<int>(g.range(-3, 3));
      auto go = [&](auto const& e) {
         if(fresh) { if(g.chance(30)) { if(static_cast<int>(s) != owner(a) && static_cast<int>(s) != owner(b) && static_cast<int>(s) != owner(c)) { if(cls[s] == 1) arr[s] = std::make_shared<Vec>(e); else if(cls[s] == 2) arr[s] = std::make_shared<Mat>(e); else arr[s] = std::make_shared<A>(e); return; } }
            if(cls[s] == 1) static_cast<Vec&>(*arr[s]) = e; else if(cls[s] == 2) static_cast<Mat&>(*arr[s]) = e; else *arr[s] = e; }
         else at(s) = e; };
      switch(k) {
         case 0: go(x + y); ex = {{0, la}, {0, lb}, {2, 0}}; break;
         case 1: go(x - y); ex = {{0, la}, {0, lb}, {3, 0}}; break;
         case 2: go(x * y + z); ex = {{0, la}, {0, lb}, {4, 0}, {0, lc}, {2, 0}}; break;
         case 3: go(-x); ex = {{0, la}, {5, 0}}; break;
         case 4: go(q - x); ex = {{1, q}, {0, la}, {3, 0}}; break;
         case 5: go((x + y) * q); ex = {{0, la}, {0, lb}, {2, 0}, {1, q}, {4, 0}}; break;
         case 6: go(x - (y - z)); ex = {{0, la}, {0, lb}, {0, lc}, {3, 0}, {3, 0}}; break;
         default: go(-(q + x) * (y - q)); ex = {{1, q}, {0, la}, {2, 0}, {5, 0}, {0, lb}, {1, q}, {3, 0}, {4, 0}}; }
      r.ev(J("expr").i("s", static_cast<long>(s)).aa("ex", ex).t("n", fresh).s("k", "set")); if(fresh) drop(s);
   }
   void convert(size_t s) { V& v = at(s); marray::Marray<double> d(v); marray::Marray<double> e; e = v; bool eq = d.size() == e.size(); for(size_t k = 0; eq && k < d.size(); ++k) eq = d(k) == e(k); std::vector<double> x; for(size_t k = 0; k < d.size(); ++k) x.push_back(eq ? d(k) : -555); r.ev(J("convert").i("s", static_cast<long>(s)).a("v", x).a("sh", Vs(d.shapeBegin(), d.shapeEnd())).i("o", onum(e.coordinateOrder()))); }
   void step() {
      for(size_t a = 0; a < 3; ++a) if(live(a)) { bool big = false; for(size_t k = 0; k < arr[a]->size(); ++k) big = big || std::abs((*arr[a])(k)) > 300; if(big) fill(a); }
      std::vector<size_t> al = alive(); size_t op = g.below(20);
      if(al.empty() || op == 0) { fresh(g.below(3)); return; }
      size_t f = g.pick(al), s = g.pick(al);
      auto sameShape = [&](size_t q) { std::vector<size_t> x; Vs sh = shape(q); for(size_t z : al) if(shape(z) == sh) x.push_back(z); return x; };
      switch(op) {
         case 1: copyTo(g.below(3), f); break;
         case 2: resize(g.below(3)); break;
         case 3: case 4: case 5: case 6: geo(3 + g.below(4), f); break;
         case 7: if(f >= 3) geo(f, f); break;
         case 8: put(f); break;
         case 9: scalar(f); break;
         case 10: case 11: case 12: same(s, g.pick(sameShape(s)), true); break;
         case 13: { std::vector<size_t> sc; for(size_t z : al) if(shape(z).empty()) sc.push_back(z); if(!sc.empty()) same(s, g.pick(sc), false); break; }
         case 14: case 15: { if(s < 3 && shape(s).empty() && false) break; std::vector<size_t> x = sameShape(s); if(s >= 3) expr(s, g.pick(x), g.pick(x), g.pick(x), false); break; }
         case 16: { size_t a = g.below(3); std::vector<size_t> x = sameShape(f); if(fits(a, shape(f).size())) expr(a, f, g.pick(x), g.pick(x), true); break; }
         case 17: r.ev(J("overlap").i("s", static_cast<long>(s)).i("f", static_cast<long>(f)).t("t", at(s).overlaps(at(f)))); break;
         case 18: convert(f); break;
         default: walk(f);
      }
   }
   void run(int n) { for(int i = 0; i < n; ++i) { step(); if(i % 4 == 3) for(size_t s : alive()) if(g.chance(60)) dump(s); } for(size_t s : alive()) dump(s); }
};
void build(tr::Driver& d) {
   for(size_t i = 0; i < d.n(150, 8000); ++i) d.add("array" + std::to_string(i), [](Rec& r) { World w(r, 0); w.run(40); });
   for(size_t i = 0; i < d.n(60, 3000); ++i) d.add("matrix" + std::to_string(i), [](Rec& r) { World w(r, 1); w.run(40); });
}
DRIVER_MAIN(build)
