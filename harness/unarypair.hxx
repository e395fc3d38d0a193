#pragma once
#include "gmzoo.hxx"
// one unary factor per variable and pairwise factors; kind 0: any graph, 1: forest, 2: grid in order, 3: something not accepted (maybe)
inline TModel unaryPair(tr::Rng& g, const GenCfg& c0, int kind, size_t maxV = 5, size_t maxL = 3) {
   GenCfg c = c0; TModel m; m.op = "add"; size_t n = 1 + g.below(maxV), W = n, H = 1;
   if(kind == 2) { static const size_t gr[][2] = {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {2, 2}, {2, 2}, {3, 2}, {2, 3}}; size_t k = g.below(8); W = gr[k][0]; H = gr[k][1]; n = W * H; }
   m.sp.resize(n); bool uni = g.chance(50); size_t u = 1 + g.below(maxL); for(size_t& x : m.sp) x = uni ? u : 1 + g.below(maxL);
   while(m.states() > 243) { size_t k = g.below(n); if(m.sp[k] > 1) --m.sp[k]; }
   std::vector<Vs> sc; bool first = kind == 2 || g.chance(50);
   if(kind == 2) { for(size_t y = 0; y < H; ++y) for(size_t x = 0; x < W; ++x) { size_t i = x + W * y; if(x + 1 < W) sc.push_back(Vs{i, i + 1}); if(y + 1 < H) sc.push_back(Vs{i, i + W}); } }
   else if(kind == 1) { Vs p = somePick(g, n, n); for(size_t i = 1; i < n; ++i) if(g.chance(85)) sc.push_back(Vs{p[g.below(i)], p[i]}); }
   else for(size_t i = 0; i < n; ++i) for(size_t j = i + 1; j < n; ++j) if(g.chance(n <= 3 ? 80 : 50)) { sc.push_back(Vs{i, j}); if(g.chance(8)) sc.push_back(Vs{i, j}); }
   if(kind != 2) g.shuffle(sc);
   std::vector<Vs> un; for(size_t i = 0; i < n; ++i) un.push_back(Vs{i}); if(kind != 2 && g.chance(50)) g.shuffle(un);
   sc.insert(sc.begin(), un.begin(), un.end()); if(!first) g.shuffle(sc);
   if(kind == 3) switch(g.below(5)) {
      case 0: sc.push_back(Vs()); break;
      case 1: sc.push_back(Vs{g.below(n)}); break;
      case 2: { Vs p = somePick(g, n, 3); std::sort(p.begin(), p.end()); sc.push_back(p); break; }
      case 3: sc.erase(sc.begin() + static_cast<long>(g.below(sc.size()))); break;
      default: if(sc.size() > 1) std::swap(sc[g.below(sc.size())], sc[g.below(sc.size())]);
   }
   for(Vs& v : sc) addFac(g, m, c, v);
   return m;
}
