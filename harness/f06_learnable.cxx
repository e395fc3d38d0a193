// Learnable functions: values, gradients, shared weights.
#include "world.hxx"
using namespace opengm; using tr::Rec; using tr::J;

template<class T, class I, class L> struct Bench {
   typedef Learn<T, I, L> LE; typedef DiscreteSpace<I, L> Space; typedef typename LE::W W;
   typedef GraphicalModel<T, Adder, typename meta::TypeListGenerator<ExplicitFunction<T, I, L>, typename LE::Potts, typename LE::Unary, typename LE::Sum>::type, Space> GM;
   Rec& r; tr::Rng& g; Vs sp; size_t nw; W w[2]; std::vector<std::function<void()> > looks, grads; std::vector<Ent> ents;
   GM gm; std::vector<Vs> fv; Vs ids;
   explicit Bench(Rec& rec) : r(rec), g(rec.rng), nw(0) {}
   size_t def(const Ent& e) { ents.push_back(e); r.ev(J("def").raw("e", e.json())); return ents.size(); }
   template<class F> void put(const F& f, const Vs& v, const Ent& e, size_t o) {
      size_t id = def(e); see<L>(r, id, f); grad<L>(r, id, f, o * nw); std::vector<I> vi(v.begin(), v.end()); bool sh = g.chance(50); typename GM::FunctionIdentifier fid = sh ? gm.addSharedFunction(f) : gm.addFunction(f);
      gm.addFactor(fid, vi.begin(), vi.end()); fv.push_back(v); ids.push_back(id);
      std::shared_ptr<F> c(new F(f)); std::shared_ptr<size_t> ob(new size_t(o)); looks.push_back([this, c, id]() { see<L>(r, id, *c); }); grads.push_back([this, c, id, ob]() { grad<L>(r, id, *c, *ob * nw); });
      rebind.push_back([this, c, id, ob, fid, sh]() {   // let the function refer to the other weights, or go through its serialised form
         if(sh || g.chance(40)) { size_t n = FunctionSerialization<F>::indexSequenceSize(*c), m = FunctionSerialization<F>::valueSequenceSize(*c); std::vector<unsigned long long> ix(n + 3, 777); std::vector<double> vv(m + 3, 777); FunctionSerialization<F>::serialize(*c, ix.begin(), vv.begin()); r.ev(J("serial").t("ok", ix[n] == 777 && vv[m] == 777)); F d; FunctionSerialization<F>::deserialize(ix.begin(), vv.begin(), d); d.setWeights(w[*ob]); *c = d; }
         else { *ob = 1 - *ob; c->setWeights(w[*ob]); Ent& e = ents[id - 1]; for(size_t& k : e.ws) k = k % nw + *ob * nw; r.ev(J("rebind").i("i", static_cast<long>(id)).a("ws", e.ws)); gm.template getFunction<F>(fid).setWeights(w[*ob]); }
      });
   }
   std::vector<std::function<void()> > rebind;
   void run() {
      nw = 1 + g.below(5); size_t n = 2 + g.below(3), u = 1 + g.below(4); bool uni = g.chance(60); for(size_t i = 0; i < n; ++i) sp.push_back(uni ? u : 1 + g.below(4));
      Ls all; for(size_t o = 0; o < 2; ++o) { w[o] = W(nw); for(size_t i = 0; i < nw; ++i) { long v = g.range(-4, 4); all.push_back(v); if(g.chance(50)) w[o].setWeight(i, static_cast<T>(v)); else w[o][i] = static_cast<T>(v); } }
      r.ev(J("start").s("opr", "add").a("w", all)); weights(); std::vector<L> ls(sp.begin(), sp.end()); gm = GM(Space(ls.begin(), ls.end()));
      size_t nf = 4 + g.below(4);
      for(size_t i = 0; i < nf; ++i) {
         size_t o = g.below(2); Vs v = somePick(g, n, 1 + g.below(3)); std::sort(v.begin(), v.end()); Vs s; for(size_t a : v) s.push_back(sp[a]); Ent e; size_t k = g.below(4);
         if(k == 0 && v.size() == 2 && s[0] == s[1]) { auto f = LE::potts(g, w[o], s[0], e, -3, 3, o * nw); put(f, v, e, o); }
         else if(k <= 2) { v.resize(1); auto f = LE::unary(g, w[o], s[0], e, -3, 3, o * nw); put(f, v, e, o); }
         else { auto f = LE::sum(g, w[o], s, e, -3, 3, o * nw); put(f, v, e, o); }
      }
      check(); 
      for(size_t t = 0; t < (r.thorough ? 40u : 14u); ++t) {
         switch(g.below(5)) {
         case 0: case 1: case 2: { size_t o = g.below(2), k = g.below(nw); long v = g.range(-5, 5); if(g.chance(70)) w[o].setWeight(k, static_cast<T>(v)); else w[o][k] = static_cast<T>(v); r.ev(J("setw").i("k", static_cast<long>(o * nw + k)).i("v", v)); break; }
         case 3: { size_t o = g.below(2); w[o] = w[1 - o]; for(size_t k = 0; k < nw; ++k) r.ev(J("setw").i("k", static_cast<long>(o * nw + k)).n("v", static_cast<double>(w[1 - o].getWeight(k)))); break; }
         default: rebind[g.below(rebind.size())](); }
         size_t k = g.below(looks.size()); looks[k](); grads[k](); if(g.chance(30)) total(); if(g.chance(20)) weights();
      }
      check(); bounds();
   }
   void weights() { Ls v; for(size_t o = 0; o < 2; ++o) for(size_t k = 0; k < nw; ++k) v.push_back(tr::num(static_cast<double>(g.chance(50) ? w[o].getWeight(k) : w[o][k]))); r.ev(J("weights").a("w", v).i("n", static_cast<long>(w[0].numberOfWeights() + w[1].numberOfWeights()))); }
   void total() { Vs x = someLabeling(g, sp); std::vector<L> y(x.begin(), x.end()); r.ev(J("total").a("of", ids).aa("vs", fv).a("x", x).n("v", static_cast<double>(gm.evaluate(y.begin())))); }
   void check() { for(size_t i = 0; i < looks.size(); ++i) { looks[i](); grads[i](); seeFactor<L>(r, ids[i], gm[i]); } for(size_t i = 0; i < 3; ++i) total(); weights(); }
   void bounds() {   // regularisers, bounds and constraints of weights
      for(size_t o = 0; o < 2; ++o) { long lam = g.range(0, 3); static const int norms[3] = {-1, 1, 2}; int nm = norms[g.below(3)]; learning::WeightRegularizer<T> wr(nm, static_cast<double>(lam)); Ls v; for(size_t k = 0; k < nw; ++k) v.push_back(tr::num(static_cast<double>(w[o].getWeight(k)))); r.ev(J("reg").i("norm", wr.regularizerNorm()).i("asked", nm).i("lam", lam).n("gotlam", wr.lambda()).a("w", v).n("v", wr.evaluate(w[o]))); }
      Ls lo, hi; for(size_t k = 0; k < nw; ++k) { lo.push_back(g.range(-5, 0)); hi.push_back(g.range(0, 5)); } std::vector<T> lt(lo.begin(), lo.end()), ht(hi.begin(), hi.end()); learning::WeightConstraints<T> wc; if(g.chance(50)) wc = learning::WeightConstraints<T>(lt.begin(), lt.end(), ht.begin()); else { wc = learning::WeightConstraints<T>(nw); wc.setLowerBounds(lt.begin(), lt.end()); wc.setUpperBounds(ht.begin(), ht.end()); }
      size_t nc = g.below(4); Ls cl, cu, cs; for(size_t c = 0; c < nc; ++c) { Vs ix = somePick(g, nw, 1 + g.below(nw)); std::vector<T> co(ix.size(), T(1)); cl.push_back(g.range(-4, 0)); cu.push_back(g.range(0, 4)); cs.push_back(static_cast<long>(ix.size())); wc.addConstraint(ix.begin(), ix.end(), co.begin(), static_cast<T>(cl.back()), static_cast<T>(cu.back())); }
      Ls glo, ghi, gcl, gcu, gcs; for(size_t k = 0; k < nw; ++k) { glo.push_back(tr::num(static_cast<double>(wc.weightLowerBound(k)))); ghi.push_back(tr::num(static_cast<double>(wc.weightUpperBound(k)))); }
      size_t m = wc.numberOfConstraints(); for(size_t c = 0; c < m && c < 10; ++c) { gcs.push_back(static_cast<long>(wc.constraintSize(c))); } if(wc.constraintLowerBounds().size() == m && wc.constraintUpperBounds().size() == m) for(size_t c = 0; c < m; ++c) { gcl.push_back(tr::num(static_cast<double>(wc.constraintLowerBound(c)))); gcu.push_back(tr::num(static_cast<double>(wc.constraintUpperBound(c)))); }
      r.ev(J("bounds").a("lo", lo).a("hi", hi).a("cl", cl).a("cu", cu).a("cs", cs).a("glo", glo).a("ghi", ghi).a("gcl", gcl).a("gcu", gcu).a("gcs", gcs).a("gcz", wc.constraintSizes()).i("m", static_cast<long>(m)));
   }
};
template<class T, class I, class L> void one(Rec& r) { Bench<T, I, L> b(r); b.run(); }
void part(tr::Driver& d) {
#if PART == 0
   for(size_t i = 0; i < d.n(120, 1500); ++i) d.add("d-" + std::to_string(i), one<double, size_t, size_t>);
#else
   for(size_t i = 0; i < d.n(60, 800); ++i) d.add("f-" + std::to_string(i), one<float, unsigned, unsigned char>);
   for(size_t i = 0; i < d.n(60, 800); ++i) d.add("i-" + std::to_string(i), one<int, size_t, size_t>);
#endif
}
DRIVER_MAIN(part)
