// Minimum s-t cut back ends on random, degenerate and incrementally grown networks.
#include "trace.hxx"
#include <boost/graph/adjacency_list.hpp>
#include <opengm/opengm.hxx>
#include <queue>
#include <cassert>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
using tr::Rec; using tr::J; using namespace opengm;
template<class M> void net(Rec& r) {
   tr::Rng& g = r.rng; size_t n = 2 + g.below(7); M m(n, 40); r.ev(J("net").i("n", static_cast<long>(n)));
   std::vector<bool> seg; if(g.chance(40)) seg.assign(g.below(12), g.chance(50)); size_t rounds = 1 + g.below(3); int zero = static_cast<int>(g.below(3)) * 20; bool unit = g.chance(25); bool dag = g.chance(20), layers = g.chance(25);
   for(size_t q = 0; q < rounds; ++q) {
      size_t k = g.below(n * (2 + g.below(2)) + 1); std::pair<size_t, size_t> last(0, 1);
      for(size_t i = 0; i < k; ++i) {
         size_t u = g.below(n), v = g.below(n); size_t w = g.below(10);
         if(w == 0) { u = last.first; v = last.second; } else if(w == 1) { u = last.second; v = last.first; } else if(w == 2) u = 0; else if(w == 3) v = 1; else if(w == 4 && n > 2) { u = 2 + g.below(n - 2); v = 2 + g.below(n - 2); }
         if(layers && n > 4 && w > 4) { u = 2 + g.below(n - 2); v = u + 1 < n ? u + 1 : 1; }
         if(dag && u > v && v > 1) std::swap(u, v);
         if(u == v) continue;
         long c = g.chance(zero) ? 0 : (unit ? 1 : g.range(0, 12)); m.addEdge(u, v, static_cast<typename M::ValueType>(c)); r.ev(J("edge").i("u", u).i("v", v).i("c", c)); last = std::make_pair(u, v);
      }
      size_t again = 1 + g.below(2);
      for(size_t a = 0; a < again; ++a) { m.calculateCut(seg); std::vector<int> s(seg.begin(), seg.end()); r.ev(J("cut").a("seg", s)); if(g.chance(30)) seg.clear(); }
   }
}
template<class V> void regs(tr::Driver& d, const std::string& t) {
   for(size_t i = 0; i < d.n(120, 3000); ++i) { std::string k = t + "-" + std::to_string(i);
      d.add("kolmogorov-" + k, net<MinSTCutBoost<size_t, V, KOLMOGOROV> >); d.add("pushrelabel-" + k, net<MinSTCutBoost<size_t, V, PUSH_RELABEL> >); d.add("edmondskarp-" + k, net<MinSTCutBoost<unsigned, V, EDMONDS_KARP> >); }
}
void part(tr::Driver& d) { regs<double>(d, "double"); regs<int>(d, "int"); regs<long>(d, "long"); }
DRIVER_MAIN(part)
