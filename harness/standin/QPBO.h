// Stand-in for Kolmogorov's QPBO library, which this sandbox does not have: the
// same interface, an own plain implementation (roof duality by a maximum flow in
// the doubled network, Edmonds-Karp).  It lets the code of opengm that is written
// against that library be compiled and checked; the library itself is not opengm's.
#pragma once
#include <vector>
#include <queue>
#include <map>
#include <algorithm>
#include <limits>
#include <cstdlib>
namespace kolmogorov { namespace qpbo {
template<class REAL> class QPBO {
public:
   typedef int NodeId; typedef int EdgeId;
   struct ProbeOptions { int directed_constraints, weak_persistencies; REAL C; int* order_array; int order_seed, dilation; bool (*callback_fn)(int); ProbeOptions() : directed_constraints(2), weak_persistencies(0), C(100000), order_array(0), order_seed(0), dilation(3), callback_fn(0) {} };
   QPBO(int = 0, int = 0, void (*)(const char*) = 0) { Reset(); }
   void Reset() { n_ = 0; const_ = 0; u_.clear(); p_.clear(); d_.clear(); lab_.clear(); user_.clear(); edges_ = 0; }
   void SetMaxEdgeNum(int) {}
   int GetMaxEdgeNum() const { return edges_; }
   int GetNodeNum() const { return n_; }
   NodeId AddNode(int k = 1) { int r = n_; n_ += k; u_.resize(n_, 0); lab_.resize(n_, -1); user_.resize(n_, 0); return r; }
   void AddUnaryTerm(NodeId i, REAL a, REAL b) { const_ += a; u_.at(i) += b - a; }
   EdgeId AddPairwiseTerm(NodeId i, NodeId j, REAL a, REAL b, REAL c, REAL d) {          // E00 E01 E10 E11
      u_.at(i); u_.at(j);
      // a constraint (a huge cost) is kept as such, so that it does not swallow the small costs
      if(b - a >= REAL(1e20)) { const_ += a; u_[i] += d - a; d_[std::make_pair(i, j)] += b - a; if(c - d < 0) abort(); if(c - d > 0) d_[std::make_pair(j, i)] += c - d; return edges_++; }
      const_ += a; u_[i] += c - a; u_[j] += b - a; REAL q = a + d - b - c; if(q != 0) p_[i < j ? std::make_pair(i, j) : std::make_pair(j, i)] += q; return edges_++;
   }
   void MergeParallelEdges() {}
   int GetLabel(NodeId i) const { return lab_.at(i); }
   void SetLabel(NodeId i, int x) { user_.at(i) = x; }
   void Solve() { persistent(u_, false, lab_); }
   void ComputeWeakPersistencies() { persistent(u_, true, lab_); }
   void Stitch() {}
   REAL ComputeTwiceLowerBound() { std::vector<int> l; return 2 * const_ + persistent(u_, false, l); }
   REAL ComputeTwiceEnergy(int option = 0) { std::vector<int> x(n_); for(int i = 0; i < n_; ++i) x[i] = option == 0 && lab_[i] >= 0 ? lab_[i] : (option == 0 ? 0 : user_[i]); return 2 * energy(x); }
   // from the labels set by the user: fix node by node, take over what then is persistent; the energy never grows
   bool Improve(int N, int* order, int* = 0) {
      std::vector<REAL> u = u_; std::vector<int> l; REAL before = energy(user_), big = 1; for(REAL a : u_) big += std::abs(a); for(auto& q : p_) big += std::abs(q.second);
      persistent(u, false, l); take(l); for(int i = 0; i < N; ++i) { int v = order[i]; if(l[v] >= 0) continue; u[v] += user_[v] == 1 ? -4 * big : 4 * big; persistent(u, false, l); take(l); }
      lab_ = user_; return energy(user_) < before;
   }
   bool Improve() { std::vector<int> o(n_); for(int i = 0; i < n_; ++i) o[i] = i; for(int i = 0; i + 1 < n_; ++i) std::swap(o[i], o[i + rand() % (n_ - i)]); return Improve(n_, o.data()); }
   // no probing: every node stays its own
   void Probe(int* mapping, ProbeOptions&) { for(int i = 0; i < n_; ++i) mapping[i] = 2 * i; Solve(); }
   void MergeMappings(int k, int* m0, int* m1) { for(int i = 0; i < k; ++i) { int j = m0[i] / 2; m0[i] = m1[j] ^ (m0[i] & 1); } }
private:
   int n_, edges_; REAL const_; std::vector<REAL> u_; std::map<std::pair<int, int>, REAL> p_, d_; std::vector<int> lab_, user_;
   void take(const std::vector<int>& l) { for(int i = 0; i < n_; ++i) if(l[i] >= 0) user_[i] = l[i]; }
   REAL energy(const std::vector<int>& x) const { REAL e = const_; for(int i = 0; i < n_; ++i) e += u_[i] * x[i]; for(auto& q : p_) e += q.second * x[q.first.first] * x[q.first.second]; for(auto& q : d_) if(x[q.first.first] == 0 && x[q.first.second] == 1) e += q.second; return e; }
   // doubled network: node i is 2i, its complement 2i+1, source s means "label 0", sink "label 1"; returns twice the bound less twice the constant
   REAL persistent(const std::vector<REAL>& u, bool weak, std::vector<int>& out) const {
      int N = 2 * n_ + 2, S = N - 2, T = N - 1; std::vector<std::vector<REAL> > c(N, std::vector<REAL>(N, 0)); REAL base = 0; std::vector<REAL> w(u);
      auto edge = [&](int a, int b, REAL k) { c[a][b] += k; };
      // q x y with q > 0: x and the complement of y on opposite sides; q < 0: q x y = q x - q x (1 - y)
      for(auto& t : p_) { int i = t.first.first, j = t.first.second; REAL q = t.second; if(q > 0) { edge(2 * i + 1, 2 * j, q); edge(2 * j + 1, 2 * i, q); } else if(q < 0) { w[i] += q; edge(2 * j, 2 * i, -q); edge(2 * i + 1, 2 * j + 1, -q); } }
      for(auto& t : d_) { int i = t.first.first, j = t.first.second; edge(2 * i, 2 * j, t.second); edge(2 * j + 1, 2 * i + 1, t.second); }
      for(int i = 0; i < n_; ++i) if(w[i] > 0) { edge(S, 2 * i, w[i]); edge(2 * i + 1, T, w[i]); } else if(w[i] < 0) { base += 2 * w[i]; edge(2 * i, T, -w[i]); edge(S, 2 * i + 1, -w[i]); }
      REAL flow = 0;
      for(;;) { std::vector<int> par(N, -1); par[S] = S; std::queue<int> q; q.push(S); while(!q.empty() && par[T] < 0) { int a = q.front(); q.pop(); for(int b = 0; b < N; ++b) if(par[b] < 0 && c[a][b] > 0) { par[b] = a; q.push(b); } }
         if(par[T] < 0) break; REAL f = std::numeric_limits<REAL>::max(); for(int b = T; b != S; b = par[b]) f = std::min(f, c[par[b]][b]); for(int b = T; b != S; b = par[b]) { c[par[b]][b] -= f; c[b][par[b]] += f; } flow += f; }
      auto reach = [&](std::vector<char>& seen, std::vector<int> todo, bool back) { for(int s : todo) seen[s] = 1; while(!todo.empty()) { int a = todo.back(); todo.pop_back(); for(int b = 0; b < N; ++b) if(!seen[b] && (back ? c[b][a] : c[a][b]) > 0) { seen[b] = 1; todo.push_back(b); } } };
      std::vector<char> src(N, 0); reach(src, std::vector<int>(1, S), false); out.assign(n_, -1);
      // the source side is x = 0
      for(int i = 0; i < n_; ++i) { if(src[2 * i] && !src[2 * i + 1]) out[i] = 0; else if(!src[2 * i] && src[2 * i + 1]) out[i] = 1; }
      // weak persistencies: label a free node if what it implies does not contradict itself
      if(weak) for(int i = 0; i < n_; ++i) if(out[i] < 0) for(int a = 0; a < 2 && out[i] < 0; ++a) {
         std::vector<char> s(N, 0); reach(s, std::vector<int>(1, 2 * i + a), false); bool ok = !s[T]; for(int j = 0; j < n_ && ok; ++j) ok = !(s[2 * j] && s[2 * j + 1]) && !(out[j] == 0 && s[2 * j + 1]) && !(out[j] == 1 && s[2 * j]);
         if(ok) for(int j = 0; j < n_; ++j) if(out[j] < 0) { if(s[2 * j]) out[j] = 0; else if(s[2 * j + 1]) out[j] = 1; }
      }
      return base + flow;
   }
};
} }
