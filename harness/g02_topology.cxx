// Factor graph topology queries: small-scope exhaustive and random graphs,
// queried while the model grows.
#include "fnzoo.hxx"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/operations/adder.hxx>
using namespace opengm;
using tr::Rec; using tr::J;
typedef std::vector<size_t> Vs;
#if PART == 0
typedef GraphicalModel<double, Adder, OPENGM_TYPELIST_2(ExplicitFunction<double>, ConstantFunction<double>), DiscreteSpace<size_t, size_t> > GM;
#else
typedef GraphicalModel<float, Adder, ConstantFunction<float, unsigned, unsigned short>, DiscreteSpace<unsigned, unsigned short> > GM;
#endif
typedef GM::IndexType I; typedef GM::LabelType L; typedef GM::ValueType V;

struct World {
   GM gm; std::vector<Vs> fs;
   explicit World(size_t n) { std::vector<L> l(n); for(size_t i = 0; i < n; ++i) l[i] = static_cast<L>(1 + i % 3); gm = GM(GM::SpaceType(l.begin(), l.end())); }
   bool add(const Vs& v) {
      std::vector<I> vi(v.begin(), v.end());
      if(v.empty()) {
#if PART == 0
         Fn f; f.k = "explicit"; f.p = {3}; GM::FunctionIdentifier id = gm.addFunction(Make<ExplicitFunction<double> >::make(f)); gm.addFactor(id, vi.begin(), vi.end());
#else
         return false;
#endif
      } else {
         Shape sh; for(size_t x : v) sh.push_back(gm.numberOfLabels(x));
         GM::FunctionIdentifier id = gm.addFunction(ConstantFunction<V, I, L>(sh.begin(), sh.end(), static_cast<V>(2))); gm.addFactor(id, vi.begin(), vi.end());
      }
      fs.push_back(v); return true;
   }
};
// observations are bit lists / index lists; `wit` is a grid arrangement the generator knows to exist
static void topo(Rec& r, const World& w, const std::vector<std::vector<size_t> >& wit) {
   const GM& g = w.gm; size_t n = g.numberOfVariables(), m = g.numberOfFactors();
   J j("topo"); j.i("n", tr::idx(n)).i("m", tr::idx(m));
   std::vector<std::vector<long> > vf(n), fv(m), vv(n), ff(m), vof(m), fov(n), itv(m), itf(n), nth(n), nthl(n), sec(m), am(n);
   for(size_t f = 0; f < m; ++f) {
      for(size_t k = 0; k < g.numberOfVariables(f); ++k) vof[f].push_back(tr::idx(g.variableOfFactor(f, k)));
      for(GM::ConstVariableIterator it = g.variablesOfFactorBegin(f); it != g.variablesOfFactorEnd(f); ++it) itv[f].push_back(tr::idx(*it));
      for(size_t v = 0; v < n; ++v) fv[f].push_back(g.factorVariableConnection(f, v));
      for(size_t h = 0; h < m; ++h) ff[f].push_back(g.factorFactorConnection(f, h));
      if(g.numberOfVariables(f) == 2) { sec[f].push_back(tr::idx(g.secondVariableOfSecondOrderFactor(g.variableOfFactor(f, 0), f))); sec[f].push_back(tr::idx(g.secondVariableOfSecondOrderFactor(g.variableOfFactor(f, 1), f))); }
   }
   marray::Matrix<bool> mat; g.variableAdjacencyMatrix(mat);
   for(size_t v = 0; v < n; ++v) {
      for(size_t k = 0; k < g.numberOfFactors(v); ++k) fov[v].push_back(tr::idx(g.factorOfVariable(v, k)));
      for(GM::ConstFactorIterator it = g.factorsOfVariableBegin(v); it != g.factorsOfVariableEnd(v); ++it) itf[v].push_back(tr::idx(*it));
      for(size_t f = 0; f < m; ++f) vf[v].push_back(g.variableFactorConnection(v, f));
      for(size_t u = 0; u < n; ++u) { vv[v].push_back(g.variableVariableConnection(v, u)); am[v].push_back(mat(v, u)); }
      for(size_t o = 0; o <= 4; ++o) nth[v].push_back(tr::idx(g.numberOfNthOrderFactorsOfVariable(v, o)));
      size_t o = 1 + v % 3; marray::Vector<size_t> ids; nthl[v].push_back(static_cast<long>(o)); nthl[v].push_back(tr::idx(g.numberOfNthOrderFactorsOfVariable(v, o, ids)));
      for(size_t k = 0; k < ids.size(); ++k) nthl[v].push_back(tr::idx(ids(k)));
   }
   std::vector<std::set<I> > al, fl; std::vector<RandomAccessSet<I> > alr, flr;
   al.resize(2); al[0].insert(77);  // stale contents must be replaced
   g.variableAdjacencyList(al); g.variableAdjacencyList(alr); g.factorAdjacencyList(fl); g.factorAdjacencyList(flr);
   j.aa("vof", vof).aa("itv", itv).aa("fov", fov).aa("itf", itf).aa("vf", vf).aa("fv", fv).aa("vv", vv).aa("ff", ff).aa("sec", sec).aa("nth", nth).aa("nthl", nthl).aa("am", am).aa("al", al).aa("alr", alr).aa("fl", fl).aa("flr", flr);
   j.i("maxo", tr::idx(g.maxFactorOrder())).i("ford", tr::idx(g.factorOrder())); std::vector<int> mo; for(size_t k = 0; k < 6; ++k) mo.push_back(g.maxFactorOrder(k)); j.a("maxok", mo);
   j.t("acyc", g.isAcyclic());
   marray::Vector<size_t> reps, chain; marray::Matrix<size_t> grid;
   std::vector<long> rl; bool c = g.isConnected(reps); if(n > 0) for(size_t k = 0; k < reps.size(); ++k) rl.push_back(tr::idx(reps(k))); j.t("conn", c).a("reps", rl);
   std::vector<long> cl; c = g.isChain(chain); if(c) for(size_t k = 0; k < chain.size(); ++k) cl.push_back(tr::idx(chain(k))); j.t("chain", c).a("chids", cl);
   std::vector<std::vector<long> > gl; c = g.isGrid(grid); if(c) { gl.resize(grid.shape(0)); for(size_t a = 0; a < grid.shape(0); ++a) for(size_t b = 0; b < grid.shape(1); ++b) gl[a].push_back(tr::idx(grid(a, b))); } j.t("grid", c).aa("gids", gl);
   j.aa("wit", wit);
   r.ev(j);
}
static const std::vector<Vs> NOWIT;
static void build(Rec& r, World& w, size_t n) { w = World(n); r.ev(J("new").i("n", static_cast<long>(n))); }
static void addf(Rec& r, World& w, const Vs& v) { if(w.add(v)) r.ev(J("fac").a("v", v)); }

static Vs subsetOf(size_t mask) { Vs v; for(size_t i = 0; mask >> i; ++i) if(mask >> i & 1) v.push_back(i); return v; }
// all multisets of at most `k` factors over n variables, chunk c of nc
static void exhaustive(Rec& r, size_t n, size_t k, size_t c, size_t nc) {
   size_t S = size_t(1) << n, cnt = 0; std::vector<size_t> ms;
   std::function<void(size_t)> rec = [&](size_t from) {
      if(cnt++ % nc == c) { World w(n); r.ev(J("new").i("n", static_cast<long>(n))); std::vector<size_t> o(ms); r.rng.shuffle(o); for(size_t m : o) addf(r, w, subsetOf(m)); topo(r, w, NOWIT); }
      if(ms.size() < k) for(size_t m = from; m < S; ++m) { ms.push_back(m); rec(m); ms.pop_back(); }
   };
   rec(0);
}
// all pairwise graphs on n vertices
static void pairwise(Rec& r, size_t n, size_t c, size_t nc) {
   std::vector<Vs> e; for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) e.push_back(Vs{i, j});
   for(size_t m = c; m < (size_t(1) << e.size()); m += nc) { World w(n); r.ev(J("new").i("n", static_cast<long>(n))); for(size_t i = 0; i < e.size(); ++i) if(m >> i & 1) addf(r, w, e[i]); topo(r, w, NOWIT); }
}
static void randomGraph(Rec& r) {
   tr::Rng& g = r.rng; size_t n = g.below(8), mo = 1 + g.below(4); World w(n); r.ev(J("new").i("n", static_cast<long>(n)));
   topo(r, w, NOWIT);
   size_t m = g.below(10);
   for(size_t k = 0; k < m; ++k) {
      if(!w.fs.empty() && g.chance(12)) { Vs v = g.pick(w.fs); addf(r, w, v); }
      else { Vs all; for(size_t i = 0; i < n; ++i) all.push_back(i); g.shuffle(all); size_t o = g.chance(8) ? 0 : 1 + g.below(mo); if(o > all.size()) o = all.size(); all.resize(o); std::sort(all.begin(), all.end()); addf(r, w, all); }
      topo(r, w, NOWIT);
      if(g.chance(10) && n < 8) { w.gm.addVariable(2); ++n; r.ev(J("var")); topo(r, w, NOWIT); }
   }
}
// relabelled paths and grids, complete or disturbed by one edit
static void shaped(Rec& r, size_t R, size_t C) {
   tr::Rng& g = r.rng; size_t n = R * C; Vs perm; for(size_t i = 0; i < n; ++i) perm.push_back(i); g.shuffle(perm);
   std::vector<Vs> wit(R), e;
   for(size_t a = 0; a < R; ++a) for(size_t b = 0; b < C; ++b) { wit[a].push_back(perm[a * C + b]); if(a + 1 < R) e.push_back(Vs{perm[a * C + b], perm[(a + 1) * C + b]}); if(b + 1 < C) e.push_back(Vs{perm[a * C + b], perm[a * C + b + 1]}); }
   int edit = static_cast<int>(g.below(8)); bool whole = true; std::vector<Vs> extra;
   if(edit == 1 && !e.empty()) { e.erase(e.begin() + static_cast<long>(g.below(e.size()))); whole = false; }
   else if(edit == 2 && n >= 2) { size_t a = g.below(n), b = g.below(n); if(a != b) { e.push_back(Vs{a, b}); whole = false; } }
   else if(edit == 3 && e.size() >= 2) { size_t k = g.below(e.size()); size_t a = g.below(n), b = g.below(n); if(a != b) { e[k] = Vs{a, b}; whole = false; } }
   else if(edit == 4) { for(size_t i = 0; i < n; ++i) if(g.chance(50)) extra.push_back(Vs{i}); }
   else if(edit == 5 && e.size() >= 2) { size_t p = g.below(e.size()), q = g.below(e.size()); std::swap(e[p][1], e[q][1]); if(e[p][0] == e[p][1] || e[q][0] == e[q][1]) std::swap(e[p][1], e[q][1]); else if(p != q) whole = false; }
   for(Vs& v : e) if(v[0] > v[1]) std::swap(v[0], v[1]);
   g.shuffle(e); World w(n); r.ev(J("new").i("n", static_cast<long>(n)));
   for(const Vs& v : e) { addf(r, w, v); if(!extra.empty() && g.chance(50)) { addf(r, w, extra.back()); extra.pop_back(); } }
   for(const Vs& v : extra) addf(r, w, v);
   topo(r, w, whole ? wit : NOWIT);
}
void part(tr::Driver& d) {
   for(size_t k = 0; k < d.n(60, 1500); ++k) d.add("random-" + std::to_string(k), [](Rec& r) { randomGraph(r); });
   for(size_t R = 1; R <= 5; ++R) for(size_t C = 1; C <= 5; ++C) for(size_t k = 0; k < d.n(6, 60); ++k)
      d.add("shape-" + std::to_string(R) + "x" + std::to_string(C) + "-" + std::to_string(k), [R, C](Rec& r) { shaped(r, R, C); });
#if PART == 0
   for(size_t c = 0; c < 4; ++c) d.add("all-n2-k3-" + std::to_string(c), [c](Rec& r) { exhaustive(r, 2, 3, c, 4); });
   for(size_t c = 0; c < 8; ++c) d.add("all-n3-k3-" + std::to_string(c), [c](Rec& r) { exhaustive(r, 3, 3, c, 8); });
   for(size_t c = 0; c < 8; ++c) d.add("edges-n4-" + std::to_string(c), [c](Rec& r) { pairwise(r, 4, c, 8); });
   if(d.thorough) {
      for(size_t c = 0; c < 64; ++c) d.add("edges-n5-" + std::to_string(c), [c](Rec& r) { pairwise(r, 5, c, 64); });
      for(size_t c = 0; c < 64; ++c) d.add("all-n3-k4-" + std::to_string(c), [c](Rec& r) { exhaustive(r, 3, 4, c, 64); });
      for(size_t c = 0; c < 64; ++c) d.add("all-n4-k3-" + std::to_string(c), [c](Rec& r) { exhaustive(r, 4, 3, c, 64); });
   } else for(size_t c = 0; c < 8; ++c) d.add("edges-n5-" + std::to_string(c), [c](Rec& r) { pairwise(r, 5, c, 64); });
#endif
}
DRIVER_MAIN(part)
