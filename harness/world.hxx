// Functions that refer to other functions, shared weights and offset arrays:
// the recorded vocabulary of spec/Views.tla.
#pragma once
#include "gmzoo.hxx"
#include <opengm/graphicalmodel/weights.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/datastructures/marray/marray.hxx>
#include <opengm/utilities/random.hxx>

typedef std::vector<long> Ls;
template<class F, class = void> struct ShapeOf { static size_t get(const F& f, size_t i) { return f.shape(i); } };
template<class F> Vs shapeOfF(const F& f) { Vs s; for(size_t i = 0; i < static_cast<size_t>(f.dimension()); ++i) s.push_back(static_cast<size_t>(f.shape(i))); return s; }
template<class L, class F> std::vector<double> tableOfF(const F& f, const Vs& s) {
   std::vector<double> t; if(prodOf(s) > 5000) return t; std::vector<size_t> x(std::max<size_t>(1, s.size()), 0); std::vector<L> y(x.size(), 0);
   do { std::copy(x.begin(), x.end(), y.begin()); t.push_back(static_cast<double>(f(y.begin()))); } while(nextLabeling(s, x)); return t;
}
// what a function says about itself; ext: also its extremes and its sum
template<class L, class F> void see(tr::Rec& r, size_t id, const F& f, bool ext = true) {
   Vs s = shapeOfF(f); tr::J e("see"); e.i("i", static_cast<long>(id)).a("s", s).i("dim", tr::idx(f.dimension())).i("size", tr::idx(f.size())).a("t", tableOfF<L>(f, s));
   if(ext && !s.empty()) { std::vector<double> mm = {static_cast<double>(f.minMax().min()), static_cast<double>(f.minMax().max())}; e.n("mn", static_cast<double>(f.min())).n("mx", static_cast<double>(f.max())).n("sm", static_cast<double>(f.sum())).a("mm", mm); }
   r.ev(e);
}
template<class L, class F> void seeFactor(tr::Rec& r, size_t id, const F& f) {
   Vs s; for(size_t i = 0; i < f.numberOfVariables(); ++i) s.push_back(f.numberOfLabels(i));
   r.ev(tr::J("see").i("i", static_cast<long>(id)).a("s", s).i("dim", tr::idx(f.numberOfVariables())).i("size", tr::idx(f.size())).a("t", tableOfF<L>(f, s)));
}
// number, indices and gradients of the weights of a learnable function
template<class L, class F> void grad(tr::Rec& r, size_t id, const F& f, size_t shift) {
   Vs s = shapeOfF(f), ix; std::vector<std::vector<double> > g; const size_t n = f.numberOfWeights(); std::vector<size_t> x(std::max<size_t>(1, s.size()), 0); std::vector<L> y(x.size(), 0);
   for(size_t k = 0; k < n && n < 100; ++k) { ix.push_back(f.weightIndex(k) + shift); g.push_back(std::vector<double>()); do { std::copy(x.begin(), x.end(), y.begin()); g.back().push_back(static_cast<double>(f.weightGradient(k, y.begin()))); } while(nextLabeling(s, x)); }
   r.ev(tr::J("grad").i("i", static_cast<long>(id)).i("n", static_cast<long>(n)).a("ix", ix).aa("g", g));
}
// descriptions of entities
struct Ent {
   std::string k; Vs s; Ls t; Vs ws; std::vector<Ls> fs; long c = 0; Vs of; Vs pos, lab;
   std::string json() const { return tr::J().s("k", k).a("s", s).a("t", t).a("ws", ws).aa("fs", fs).i("c", c).a("of", of).a("pos", pos).a("lab", lab).str(); }
};
template<class T> marray::Marray<T> arrayOf(const Vs& s, const Ls& t) { marray::Marray<T> m(s.begin(), s.end()); std::vector<size_t> x(s.size(), 0); size_t k = 0; do m(x.begin()) = static_cast<T>(t[k++]); while(nextLabeling(s, x)); return m; }
// random learnable functions together with their descriptions
template<class T, class I, class L> struct Learn {
   typedef opengm::functions::learnable::LPotts<T, I, L> Potts; typedef opengm::functions::learnable::LUnary<T, I, L> Unary; typedef opengm::functions::learnable::LWeightedSumOfFunctions<T, I, L> Sum; typedef opengm::learning::Weights<T> W;
   static Ls feats(tr::Rng& g, size_t n, long lo, long hi) { Ls f; for(size_t i = 0; i < n; ++i) f.push_back(g.range(lo, hi)); return f; }
   static Vs ids(tr::Rng& g, size_t n, size_t nw) { Vs w; for(size_t i = 0; i < n; ++i) w.push_back(g.below(nw)); return w; }
   static Potts potts(tr::Rng& g, const W& w, size_t nl, Ent& e, long lo = -3, long hi = 3, size_t shift = 0) {
      size_t n = g.below(4); if(n > w.size()) n = w.size(); Vs id = ids(g, n, w.size()); Ls f = feats(g, n, lo, hi); e.k = "learn"; e.s = Vs(2, nl); e.ws.clear(); e.fs.clear();
      for(size_t i = 0; i < n; ++i) { e.ws.push_back(id[i] + shift); Ls t; for(size_t b = 0; b < nl; ++b) for(size_t a = 0; a < nl; ++a) t.push_back(a != b ? f[i] : 0); e.fs.push_back(t); }
      std::vector<T> ft(f.begin(), f.end()); if(g.chance(30)) { Potts p(static_cast<L>(nl), id, ft); p.setWeights(w); return p; } return Potts(w, static_cast<L>(nl), id, ft);
   }
   static Sum sum(tr::Rng& g, const W& w, const Vs& s, Ent& e, long lo = -3, long hi = 3, size_t shift = 0) {
      size_t n = 1 + g.below(3); Vs id = ids(g, n, w.size()); e.k = "learn"; e.s = s; e.ws.clear(); e.fs.clear(); std::vector<marray::Marray<T> > ms;
      for(size_t i = 0; i < n; ++i) { e.ws.push_back(id[i] + shift); Ls t = feats(g, prodOf(s), lo, hi); e.fs.push_back(t); ms.push_back(arrayOf<T>(s, t)); }
      return Sum(std::vector<L>(s.begin(), s.end()), w, id, ms);
   }
   static Unary unary(tr::Rng& g, const W& w, size_t nl, Ent& e, long lo = -3, long hi = 3, size_t shift = 0) {
      e.k = "learn"; e.s = Vs(1, nl); e.ws.clear(); e.fs.clear(); size_t mode = g.below(3);
      if(mode == 0 && nl <= w.size()) {   // every label has its own features and weights; the weights are all different
         std::vector<opengm::functions::learnable::FeaturesAndIndices<T, I> > fi(nl); Vs all; for(size_t i = 0; i < w.size(); ++i) all.push_back(i); g.shuffle(all); size_t q = 0;
         for(size_t l = 0; l < nl; ++l) { size_t n = g.below(3); for(size_t i = 0; i < n && q < all.size(); ++i, ++q) { long f = g.range(lo, hi); fi[l].weightIds.push_back(static_cast<I>(all[q])); fi[l].features.push_back(static_cast<T>(f)); e.ws.push_back(all[q] + shift); Ls t(nl, 0); t[l] = f; e.fs.push_back(t); } }
         return Unary(w, fi);
      }
      bool cf = mode == 1 && nl > 1; size_t nf = 1 + g.below(3); Ls f = feats(g, nf, lo, hi); size_t rows = cf ? nl - 1 : nl; size_t sh[2] = {rows, nf}, fs[1] = {nf}; marray::Marray<size_t> id(sh, sh + 2); marray::Marray<T> fm(fs, fs + 1);
      for(size_t i = 0; i < nf; ++i) fm(i) = static_cast<T>(f[i]);
      for(size_t l = 0; l < rows; ++l) for(size_t i = 0; i < nf; ++i) { size_t k = g.below(w.size()); id(l, i) = k; e.ws.push_back(k + shift); Ls t(nl, 0); t[cf ? l + 1 : l] = f[i]; e.fs.push_back(t); }
      return Unary(w, static_cast<L>(nl), id, fm, cf);
   }
};
