// Union-find structures and set partition enumeration.
#include "trace.hxx"
#include "gen.hxx"
#include <opengm/opengm.hxx>
#include <opengm/datastructures/partition.hxx>
#include <opengm/utilities/disjoint-set.hxx>
#include <opengm/utilities/partitions.hxx>
using tr::Rec; using tr::J;
template<class T> struct UP {
   opengm::Partition<T> p; Rec& r; bool queryConstFirst;
   UP(Rec& rec) : r(rec), queryConstFirst(rec.rng.chance(50)) {}
   void report() {
      const opengm::Partition<T>& c = p; J j("report"); size_t n = static_cast<size_t>(p.numberOfElements()); j.i("n", static_cast<long>(n)).i("k", static_cast<long>(p.numberOfSets()));
      std::vector<long> a, b; std::vector<T> lab(n), reps(static_cast<size_t>(p.numberOfSets()) + 1, T(99)); c.elementLabeling(lab.begin()); c.representatives(reps.begin()); reps.resize(static_cast<size_t>(p.numberOfSets()));
      std::map<T, T> m; m[77] = 5; c.representativeLabeling(m); std::vector<long> rk, rv; for(auto& q : m) { rk.push_back(static_cast<long>(q.first)); rv.push_back(static_cast<long>(q.second)); }
      for(size_t i = 0; i < n; ++i) b.push_back(static_cast<long>(c.find(static_cast<T>(i))));
      for(size_t i = 0; i < n; ++i) a.push_back(r.rng.chance(60) ? static_cast<long>(p.find(static_cast<T>(i))) : static_cast<long>(c.find(static_cast<T>(i))));
      j.a("r", a).a("cr", b).a("reps", reps).a("lab", lab).a("rk", rk).a("rv", rv); r.ev(j);
   }
   void run(const Op& op) {
      switch(op[0]) {
         case 1: p = opengm::Partition<T>(static_cast<T>(op[1])); r.ev(J("new").i("m", op[1])); break;
         case 2: p.merge(static_cast<T>(op[1]), static_cast<T>(op[2])); r.ev(J("merge").i("a", op[1]).i("b", op[2])); break;
         case 3: { T x = p.find(static_cast<T>(op[1])); r.ev(J("find").i("a", op[1]).i("x", static_cast<long>(x))); return; }
         case 4: p.insert(static_cast<T>(op[1])); r.ev(J("insert").i("m", op[1])); break;
         case 5: p.reset(static_cast<T>(op[1])); r.ev(J("reset").i("m", op[1])); break;
      }
      if(r.rng.chance(60)) report();
   }
};
template<class T> void replay(Rec& r, const Behaviour& b) { UP<T> u(r); for(const Op& o : b) u.run(o); u.report(); }
// merges that build deep trees: equal ranks in rounds, in a random order of elements
template<class T> void deep(Rec& r) {
   tr::Rng& g = r.rng; UP<T> u(r); size_t n = g.chance(30) ? 1 + g.below(40) : 1 + g.below(12); u.run(Op{1, static_cast<long>(n)}); std::vector<long> roots; for(size_t i = 0; i < n; ++i) roots.push_back(static_cast<long>(i)); g.shuffle(roots);
   size_t steps = g.below(2 * n + 4);
   for(size_t s = 0; s < steps; ++s) {
      if(g.chance(10)) { long m = static_cast<long>(g.below(3)); if(n + m < 60) { for(long q = 0; q < m; ++q) roots.push_back(static_cast<long>(n + q)); n += m; u.run(Op{4, m}); } continue; }
      if(g.chance(3)) { n = g.below(20); u.run(Op{5, static_cast<long>(n)}); roots.clear(); for(size_t i = 0; i < n; ++i) roots.push_back(static_cast<long>(i)); continue; }
      if(n == 0) continue;
      size_t blk = size_t(1) << g.below(4); size_t i = g.below(n), k = i + blk < n ? i + blk : g.below(n); u.run(Op{2, roots[i], roots[k]}); if(g.chance(30)) u.run(Op{3, roots[g.below(n)]});
   }
   u.report();
}
template<class T> void ds(Rec& r) {
   tr::Rng& g = r.rng; size_t n = 1 + g.below(g.chance(30) ? 30 : 10); opengm::disjoint_set<T> d(static_cast<T>(n)); r.ev(J("new").i("m", static_cast<long>(n)));
   size_t steps = g.below(2 * n + 3);
   for(size_t s = 0; s <= steps; ++s) {
      if(s < steps) { T a = static_cast<T>(g.below(n)), b = static_cast<T>(g.below(n)); if(g.chance(75)) { d.join(a, b); r.ev(J("merge").i("a", a).i("b", b)); } else r.ev(J("find").i("a", a).i("x", static_cast<long>(d.find(a)))); }
      if(s < steps && g.chance(50)) continue;
      std::map<T, T> m; m[200] = 1; d.representativeLabeling(m); std::vector<long> rk, rv, a, sz; for(auto& q : m) { rk.push_back(static_cast<long>(q.first)); rv.push_back(static_cast<long>(q.second)); }
      for(size_t i = 0; i < n; ++i) { sz.push_back(static_cast<long>(d.size(static_cast<T>(i)))); a.push_back(static_cast<long>(d.find(static_cast<T>(i)))); }
      r.ev(J("reportds").i("k", static_cast<long>(d.numberOfSets())).a("r", a).a("s", sz).a("rk", rk).a("rv", rv));
   }
}
// ---- set partitions: sizes asked for in different orders (the table is shared)
template<class I, class L> void parts(Rec& r, std::vector<size_t> order) {
   opengm::Partitions<I, L> p; std::vector<long> bells; for(size_t i = 0; i < 12; ++i) bells.push_back(static_cast<long>(p.BellNumber(i))); r.ev(J("bells").a("b", bells));
   for(size_t n : order) {
      if(r.rng.chance(70)) p.resize(n); else { std::vector<L> z(n, L(0)); p.label2Index(z); }
      size_t B = p.BellNumber(n); std::vector<long> nums, inv, linv, linv2; std::vector<std::vector<L> > labs;
      for(size_t i = 0; i < B; ++i) { I q = p.getPartition(i); nums.push_back(static_cast<long>(q)); inv.push_back(static_cast<long>(p.number2Index(q))); std::vector<L> l(n); p.getPartition(i, l); labs.push_back(l); linv.push_back(static_cast<long>(p.label2Index(l))); linv2.push_back(static_cast<long>(p.label2Index(l.begin(), n))); }
      r.ev(J("parts").i("n", static_cast<long>(n)).i("bell", static_cast<long>(B)).a("nums", nums).aa("labs", labs).a("inv", inv).a("linv", linv).a("linv2", linv2));
      for(size_t k = 0; k < 6; ++k) {
         size_t m = 1 + r.rng.below(6); std::vector<L> x(m), back(m); for(size_t i = 0; i < m; ++i) x[i] = static_cast<L>(r.rng.below(r.rng.chance(50) ? 2 : 9)); size_t i = p.label2Index(x); size_t i2 = p.label2Index(x.begin(), m); p.getPartition(i, back);
         r.ev(J("part").a("x", x).i("num", static_cast<long>(p.label2Number(x))).i("num2", static_cast<long>(p.label2Number(x.begin(), m))).i("i", static_cast<long>(i)).i("i2", static_cast<long>(i2)).a("back", back));
         long q = r.rng.range(0, 63); p.resize(4); r.ev(J("nopart").i("n", 4).i("num", q).t("none", p.number2Index(static_cast<I>(q)) >= p.BellNumber(4)));
      }
   }
}
void bigParts(Rec& r) {
   for(size_t n = 7; n <= 9; ++n) { opengm::Partitions<unsigned long, unsigned> p; p.resize(n); size_t B = p.BellNumber(n); bool asc = true; size_t cnt = 0; for(size_t i = 0; i + 1 < B; ++i) if(!(p.getPartition(i) < p.getPartition(i + 1))) asc = false;
      std::set<std::vector<unsigned> > s; std::vector<unsigned> l(n); for(size_t i = 0; i < B; ++i) { p.getPartition(i, l); std::vector<unsigned> c(n); std::map<unsigned, unsigned> m; for(size_t k = 0; k < n; ++k) { unsigned z = static_cast<unsigned>(m.size()); if(!m.count(l[k])) m[l[k]] = z; c[k] = m[l[k]]; } s.insert(c); } cnt = s.size();
      std::vector<unsigned> all(n, 0); long last = p.label2Index(all) == B - 1 ? 1 : 0; r.ev(J("count").i("n", static_cast<long>(cnt)).i("bell", static_cast<long>(B)).i("last", last).t("asc", asc)); }
}
void part(tr::Driver& d) {
   std::vector<Behaviour> b = readBehaviours("unionfind.gen");
   for(size_t i = 0; i < b.size(); ++i) { std::string k = std::to_string(i); Behaviour x = b[i]; d.add("gen-size_t-" + k, [x](Rec& r) { replay<size_t>(r, x); }); if(i % 2) d.add("gen-uchar-" + k, [x](Rec& r) { replay<unsigned char>(r, x); }); else d.add("gen-int-" + k, [x](Rec& r) { replay<int>(r, x); }); }
   for(size_t i = 0; i < d.n(60, 2000); ++i) { std::string k = std::to_string(i); d.add("deep-size_t-" + k, deep<size_t>); d.add("deep-int-" + k, deep<int>); d.add("disjoint-" + k, ds<size_t>); d.add("disjoint-int-" + k, ds<int>); }
   std::vector<std::vector<size_t> > o; o.push_back({1, 2, 3, 4, 5, 6}); o.push_back({6, 3, 1}); o.push_back({4, 2, 5}); o.push_back({5, 6, 1, 2}); o.push_back({2}); o.push_back({3});
   for(size_t i = 0; i < o.size(); ++i) { std::string k = std::to_string(i); std::vector<size_t> x = o[i]; d.add("partitions-ulong-" + k, [x](Rec& r) { parts<unsigned long, size_t>(r, x); }); d.add("partitions-uint-" + k, [x](Rec& r) { parts<unsigned, unsigned char>(r, x); }); }
   d.add("partitions-big", bigParts);
}
DRIVER_MAIN(part)
