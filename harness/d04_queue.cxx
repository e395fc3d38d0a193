// Changeable priority queue and FIFO queue.
#include "trace.hxx"
#include "gen.hxx"
#include <opengm/opengm.hxx>
#include <opengm/utilities/queues.hxx>
using tr::Rec; using tr::J;
template<class T, class C> struct Q {
   opengm::ChangeablePriorityQueue<T, C> q; Rec& r; size_t n; std::set<int> in;
   Q(Rec& rec, size_t m, const char* mx) : q(m), r(rec), n(m) { r.ev(J("pqnew").i("n", static_cast<long>(m)).s("mx", mx)); show(); }
   void show() {
      J j("show"); j.i("sz", q.size()).t("em", q.empty()); std::vector<int> co; std::vector<T> pr; for(size_t i = 0; i <= n; ++i) { co.push_back(q.contains(static_cast<int>(i)) ? 1 : 0); pr.push_back(q.priority(static_cast<int>(i))); }
      j.a("co", co).a("pr", pr); if(!q.empty()) j.i("top", q.top()).n("tp", static_cast<double>(q.topPriority())); else j.i("top", -1).i("tp", -1); r.ev(j);
   }
   void push(long i, long p) { q.push(static_cast<int>(i), static_cast<T>(p)); in.insert(int(i)); r.ev(J("push").i("i", i).i("p", p)); show(); }
   void pop() { if(q.empty() || in.empty()) return; int t = q.top(); q.pop(); in.erase(t); r.ev(J("pop").i("i", t)); show(); }
   void del(long i) { if(!in.count(int(i))) return; q.deleteItem(static_cast<int>(i)); in.erase(int(i)); r.ev(J("delete").i("i", i)); show(); }
   void change(long i, long p) { if(!in.count(int(i))) return; q.changePriority(static_cast<int>(i), static_cast<T>(p)); r.ev(J("change").i("i", i).i("p", p)); show(); }
   void reset() { q.reset(); in.clear(); r.ev(J("reset")); show(); }
   void setall(long p) { q.setPriorities(static_cast<T>(p)); r.ev(J("setall").i("p", p)); show(); }
};
template<class T, class C> void replay(Rec& r, const Behaviour& b, const char* mx) {
   Q<T, C> q(r, 8, mx);
   for(const Op& o : b) switch(o[0]) { case 1: q.push(o[1], o[2]); break; case 2: q.reset(); break; case 3: q.del(o[1]); break; case 4: q.change(o[1], o[2]); break; case 5: q.pop(); break; }
   while(!q.in.empty()) { size_t k = q.in.size(); q.pop(); if(q.in.size() == k) break; }
}
template<class T, class C> void rnd(Rec& r, const char* mx) {
   tr::Rng& g = r.rng; size_t n = 1 + g.below(g.chance(30) ? 40 : 9); Q<T, C> q(r, n, mx); size_t lim = n; long range = g.chance(50) ? 4 : 50; size_t steps = 10 + g.below(40);
   // items 0..n are legal indices, at most n of them at a time
   for(size_t s = 0; s < steps; ++s) {
      long p = g.range(g.chance(30) ? -range : 0, range);
      switch(g.below(12)) {
         case 0: case 1: case 2: case 3: case 4: { long i = static_cast<long>(g.below(n + 1)); if(q.in.count(int(i)) || q.in.size() < lim) q.push(i, p); break; }
         case 5: case 6: q.pop(); break;
         case 7: case 8: if(!q.in.empty()) { auto it = q.in.begin(); std::advance(it, g.below(q.in.size())); q.del(*it); } break;
         case 9: case 10: if(!q.in.empty()) { auto it = q.in.begin(); std::advance(it, g.below(q.in.size())); q.change(*it, p); } break;
         case 11: if(g.chance(20)) q.reset(); else if(g.chance(20)) q.setall(p); break;
      }
   }
   if(g.chance(70)) while(!q.in.empty()) { size_t k = q.in.size(); q.pop(); if(q.in.size() == k) break; }
}
void fifo(Rec& r) {
   tr::Rng& g = r.rng; size_t m = 1 + g.below(12), used = 0, in = 0; opengm::FiFoQueue<int> f(m); r.ev(J("fnew"));
   for(size_t s = 0; s < 30; ++s) {
      size_t k = g.below(6); if(k < 3 && used < m) { int x = int(g.range(0, 99)); f.push(x); ++used; ++in; r.ev(J("fpush").i("x", x)); } else if(k < 5 && in) { f.pop(); --in; r.ev(J("fpop")); } else if(g.chance(30)) { f.clear(); used = in = 0; r.ev(J("fclear")); }
      J j("fshow"); j.i("sz", static_cast<long>(f.size())).t("em", f.empty()).i("fr", in ? f.front() : -1); r.ev(j);
   }
}
void part(tr::Driver& d) {
   std::vector<Behaviour> b = readBehaviours("pq.gen");
   for(size_t i = 0; i < b.size(); ++i) { std::string k = std::to_string(i); Behaviour x = b[i]; d.add("gen-min-" + k, [x](Rec& r) { replay<double, std::less<double> >(r, x, "min"); }); d.add("gen-max-" + k, [x](Rec& r) { replay<int, std::greater<int> >(r, x, "max"); }); }
   for(size_t i = 0; i < d.n(80, 3000); ++i) { std::string k = std::to_string(i); d.add("min-" + k, [](Rec& r) { rnd<double, std::less<double> >(r, "min"); }); d.add("max-" + k, [](Rec& r) { rnd<double, std::greater<double> >(r, "max"); }); d.add("min-int-" + k, [](Rec& r) { rnd<int, std::less<int> >(r, "min"); }); d.add("fifo-" + k, fifo); }
}
DRIVER_MAIN(part)
