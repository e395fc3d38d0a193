// Label space classes under construct / assign / dense assign / add histories.
#include "fnzoo.hxx"
#include <list>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/graphicalmodel/space/vector_view_space.hxx>
#include <opengm/graphicalmodel/space/viewspace.hxx>
#include <opengm/operations/adder.hxx>
using namespace opengm;
using tr::Rec; using tr::J;
typedef std::vector<size_t> Ls;

template<class S> void obs(Rec& r, const S& s, const std::vector<long>& dims = std::vector<long>(), long k = 0) {
   std::vector<long> ls; size_t n = s.numberOfVariables(); for(size_t i = 0; i < n && i < 400; ++i) ls.push_back(tr::idx(s.numberOfLabels(static_cast<typename S::IndexType>(i))));
   r.ev(J("obs").i("nv", tr::idx(n)).a("ls", ls).t("simple", s.isSimpleSpace()).a("dims", dims).i("k", k));
}
static size_t LMAX = 4;
static Ls someList(tr::Rng& g, size_t minLen, bool uniform) { Ls l(minLen + g.below(7)); size_t c = 1 + g.below(LMAX); for(size_t& x : l) x = uniform ? c : 1 + g.below(LMAX); if(uniform && l.size() > 1 && g.chance(30)) l[g.below(l.size())] = 1 + g.below(LMAX); return l; }

template<class S> void dense(Rec& r, S& s, const Ls& l) {
   bool ref = false; size_t how = r.rng.below(3);
   try { if(how == 0) s.assignDense(l.begin(), l.end()); else if(how == 1) { std::list<int> q(l.begin(), l.end()); s.assignDense(q.begin(), q.end()); } else { std::vector<typename S::LabelType> q(l.begin(), l.end()); s.assignDense(q.begin(), q.end()); } }
   catch(const std::runtime_error&) { ref = true; }
   r.ev(J("dense").a("s", l).t("refused", ref));
}
template<class S> void add(Rec& r, S& s, size_t l) {
   bool ref = false; size_t ret = 0;
   try { ret = s.addVariable(static_cast<typename S::LabelType>(l)); } catch(const std::runtime_error&) { ref = true; }
   r.ev(J("add").i("l", static_cast<long>(l)).t("refused", ref).i("ret", tr::idx(ret)));
}
template<class I, class L> void disc(Rec& r) {
   tr::Rng& g = r.rng; Ls l = someList(g, 0, g.chance(40)); typedef DiscreteSpace<I, L> S; S s;
   if(g.chance(50)) s = S(l.begin(), l.end()); else { if(g.chance(50)) s.assign(l.begin(), l.begin() + static_cast<long>(l.size() / 2)); s.assign(l.begin(), l.end()); }
   r.ev(J("list").s("c", "disc").a("s", l)); obs(r, s);
   for(size_t k = 0; k < 20; ++k) {
      size_t c = g.below(5);
      if(c == 0) dense(r, s, someList(g, 0, g.chance(50))); else if(c == 1) add(r, s, 1 + g.below(LMAX));
      else if(c == 2) { s.reserve(static_cast<I>(g.below(20))); } else if(c == 3) { S t(s); s = t; }
      else { Ls q = someList(g, 0, true); s.assign(q.begin(), q.end()); r.ev(J("list").s("c", "disc").a("s", q)); }
      obs(r, s);
   }
}
template<class I, class L> void simple(Rec& r) {
   tr::Rng& g = r.rng; typedef SimpleDiscreteSpace<I, L> S; size_t n = g.below(8), l = 1 + g.below(LMAX); S s;
   if(g.chance(50)) s = S(static_cast<I>(n), static_cast<L>(l)); else s.assign(static_cast<I>(n), static_cast<L>(l));
   r.ev(J("uni").s("c", "simple").i("n", static_cast<long>(n)).i("l", static_cast<long>(l))); obs(r, s);
   for(size_t k = 0; k < 20; ++k) {
      size_t c = g.below(4);
      if(c == 0) dense(r, s, someList(g, 0, g.chance(80))); else if(c == 1) add(r, s, g.chance(60) && s.numberOfVariables() ? s.numberOfLabels(0) : 1 + g.below(LMAX));
      else if(c == 2) { n = g.below(8); l = 1 + g.below(LMAX); s.assign(static_cast<I>(n), static_cast<L>(l)); r.ev(J("uni").s("c", "simple").i("n", static_cast<long>(n)).i("l", static_cast<long>(l))); }
      else { S t(s); s = t; }
      obs(r, s);
   }
}
template<size_t N, class I, class L> void stat(Rec& r) {
   tr::Rng& g = r.rng; typedef StaticSimpleDiscreteSpace<N, I, L> S; size_t n = g.below(8); S s;
   if(g.chance(50)) s = S(static_cast<I>(n)); else s.assign(static_cast<I>(n));
   r.ev(J("uni").s("c", "static").i("n", static_cast<long>(n)).i("l", static_cast<long>(N))); obs(r, s);
   for(size_t k = 0; k < 20; ++k) {
      size_t c = g.below(4);
      if(c == 0) { Ls l(g.below(7), N); if(g.chance(30) && !l.empty()) l[g.below(l.size())] = 1 + g.below(LMAX); dense(r, s, l); }
      else if(c == 1) add(r, s, g.chance(60) ? N : 1 + g.below(LMAX));
      else if(c == 2) { n = g.below(8); s.assign(static_cast<I>(n)); r.ev(J("uni").s("c", "static").i("n", static_cast<long>(n)).i("l", static_cast<long>(N))); }
      else { S t(s); s = t; }
      obs(r, s);
   }
}
template<class I, class L> void grid(Rec& r) {
   tr::Rng& g = r.rng; typedef GridSpace<I, L> S; S s;
   for(size_t k = 0; k < 12; ++k) {
      size_t x = g.below(5), y = g.below(6), l = 1 + g.below(LMAX);
      if(g.chance(50)) s = S(static_cast<I>(x), static_cast<I>(y), static_cast<L>(l)); else s.assign(static_cast<I>(x), static_cast<I>(y), static_cast<L>(l));
      r.ev(J("grid").i("x", static_cast<long>(x)).i("y", static_cast<long>(y)).i("l", static_cast<long>(l)));
      auto o = [&]() { std::vector<long> d; d.push_back(tr::idx(s.dimX())); d.push_back(tr::idx(s.dimY())); obs(r, s, d, tr::idx(s.numberOfLabels())); };
      o(); add(r, s, l); o(); dense(r, s, someList(g, 1, true)); o();
   }
}
template<class I, class L> void vview(Rec& r) {
   tr::Rng& g = r.rng; typedef VectorViewSpace<I, L> S; Ls l = someList(g, 1, g.chance(50)); std::vector<L> back(l.begin(), l.end()); S s(back);
   r.ev(J("list").s("c", "vview").a("s", l)); obs(r, s);
   for(size_t k = 0; k < 12; ++k) {
      size_t c = g.below(3);
      if(c == 0) add(r, s, 1 + g.below(LMAX)); else if(c == 1) dense(r, s, someList(g, 1, true));
      else { l = someList(g, 1, g.chance(50)); back.assign(l.begin(), l.end()); r.ev(J("viewed").a("s", l)); }
      obs(r, s);
   }
}
template<class I, class L> void view(Rec& r) {
   typedef GraphicalModel<double, Adder, ExplicitFunction<double, I, L>, DiscreteSpace<I, L> > GM; typedef ViewSpace<GM> S;
   tr::Rng& g = r.rng; Ls l = someList(g, 1, g.chance(50)); GM gm(DiscreteSpace<I, L>(l.begin(), l.end())); S s(gm);
   r.ev(J("list").s("c", "view").a("s", l)); obs(r, s);
   GM other(DiscreteSpace<I, L>(l.begin(), l.end()));
   for(size_t k = 0; k < 12; ++k) {
      size_t c = g.below(4);
      if(c == 0) add(r, s, 1 + g.below(LMAX)); else if(c == 1) dense(r, s, someList(g, 1, true));
      else if(c == 2) { gm.addVariable(static_cast<L>(1 + g.below(LMAX))); Ls q; for(size_t i = 0; i < gm.numberOfVariables(); ++i) q.push_back(gm.numberOfLabels(static_cast<I>(i))); s.assign(gm); r.ev(J("viewed").a("s", q)); }
      else { Ls q; for(size_t i = 0; i < other.numberOfVariables(); ++i) q.push_back(other.numberOfLabels(static_cast<I>(i))); s.assign(other); r.ev(J("viewed").a("s", q)); }
      obs(r, s);
   }
}
template<class I, class L> void reg(tr::Driver& d, const std::string& t, bool big) {
   size_t N = d.n(14, 300);
   for(size_t k = 0; k < N; ++k) {
      std::string q = "-" + t + "-" + std::to_string(k); auto w = [big](void (*f)(Rec&)) { return [f, big](Rec& r) { LMAX = big ? (r.rng.chance(50) ? 300 : 4) : 4; f(r); }; };
      d.add("disc" + q, w(disc<I, L>)); d.add("simple" + q, w(simple<I, L>)); d.add("static3" + q, w(stat<3, I, L>)); d.add("static1" + q, w(stat<1, I, L>));
      d.add("grid" + q, w(grid<I, L>)); d.add("vview" + q, w(vview<I, L>)); if(sizeof(I) >= sizeof(L)) d.add("view" + q, w(view<I, L>));   // GraphicalModel reports label counts as IndexType
   }
}
void part(tr::Driver& d) {
   reg<size_t, size_t>(d, "zz", true); reg<unsigned, unsigned char>(d, "u8", false); reg<unsigned char, unsigned short>(d, "8u16", true); reg<int, int>(d, "ii", true);
}
DRIVER_MAIN(part)
