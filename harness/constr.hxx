// Random indicator variables, linear constraints and the functions built on
// them, with their descriptions in the vocabulary of spec/Constraints.tla.
#pragma once
#include "world.hxx"
#include <opengm/datastructures/indicator_variable.hxx>
#include <opengm/datastructures/linear_constraint.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>

template<class V> std::string jIv(const V& v) {
   static const char* const n[] = {"and", "or", "not"}; std::vector<Ls> p; for(auto it = v.begin(); it != v.end(); ++it) p.push_back(Ls{static_cast<long>(it->first), static_cast<long>(it->second)});
   return tr::J().s("o", n[static_cast<int>(v.getLogicalOperatorType())]).aa("p", p).str();
}
template<class It> std::string jIvs(It b, It e) { std::vector<std::string> v; for(; b != e; ++b) v.push_back(jIv(*b)); return tr::jarr(v); }
template<class C> std::string jCon(const C& c) {
   typedef typename C::LinearConstraintOperatorType R; std::vector<double> co; for(auto it = c.coefficientsBegin(); it != c.coefficientsEnd(); ++it) co.push_back(static_cast<double>(*it));
   auto r = c.getConstraintOperator(); return tr::J().raw("iv", jIvs(c.indicatorVariablesBegin(), c.indicatorVariablesEnd())).a("c", co).n("b", static_cast<double>(c.getBound())).s("r", r == R::LessEqual ? "LE" : r == R::Equal ? "EQ" : "GE").str();
}
template<class It> std::string jCons(It b, It e) { std::vector<std::string> v; for(; b != e; ++b) v.push_back(jCon(*b)); return tr::jarr(v); }

template<class T, class I, class L> struct Constr {
   typedef opengm::IndicatorVariable<I, L> IV; typedef opengm::LinearConstraint<T, I, L> LC; typedef std::pair<I, L> VL;
   typedef opengm::LabelOrderFunction<T, I, L> Order; typedef opengm::NumLabelsLimitationFunction<T, I, L> Limit; typedef opengm::LinearConstraintFunction<T, I, L> Linear;
   typedef opengm::LabelCostFunction<T, I, L> Cost; typedef opengm::SumConstraintFunction<T, I, L> Sum;
   static Vs shape(tr::Rng& g, size_t maxDim = 4, size_t maxSize = 48) {
      Vs s; size_t n = 1 + g.below(maxDim); bool uni = g.chance(50); size_t u = 1 + g.below(4);
      do { s.clear(); for(size_t i = 0; i < n; ++i) s.push_back(uni ? u : 1 + g.below(4)); if(prodOf(s) > maxSize) u = 1 + g.below(3); } while(prodOf(s) > maxSize); return s;
   }
   static typename IV::LogicalOperatorType lop(tr::Rng& g) { return g.chance(45) ? IV::And : g.chance(50) ? IV::Or : IV::Not; }
   static std::vector<VL> pairs(tr::Rng& g, const Vs& s, size_t n) { std::vector<VL> p; for(size_t i = 0; i < n; ++i) { size_t v = g.below(s.size()); p.push_back(VL(static_cast<I>(v), static_cast<L>(g.below(s[v])))); } return p; }
   static std::string jPairs(const std::vector<VL>& p, typename IV::LogicalOperatorType o) { std::vector<Ls> q; for(auto& a : p) q.push_back(Ls{static_cast<long>(a.first), static_cast<long>(a.second)}); return tr::J().s("o", o == IV::And ? "and" : o == IV::Or ? "or" : "not").aa("p", q).str(); }
   // one of the ways of building an indicator variable
   static IV build(tr::Rng& g, const std::vector<VL>& p, typename IV::LogicalOperatorType o) {
      switch(g.below(5)) {
      case 0: return IV(p, o);
      case 1: return IV(p.begin(), p.end(), o);
      case 2: { if(p.empty()) return IV(p, o); IV v = g.chance(50) ? IV(p[0], o) : IV(p[0].first, p[0].second, o); std::vector<VL> rest(p.begin() + 1, p.end()); if(g.chance(50)) v.add(rest); else v.add(rest.begin(), rest.end()); return v; }
      case 3: { IV v; v.reserve(p.size()); for(auto& a : p) if(g.chance(50)) v.add(a); else v.add(a.first, a.second); v.setLogicalOperatorType(o); return v; }
      default: { IV v; v.setLogicalOperatorType(g.chance(50) ? IV::Not : IV::Or); for(auto& a : p) v.add(a); v.setLogicalOperatorType(o); IV w; w = v; return IV(w); }
      }
   }
   static IV indicator(tr::Rng& g, const Vs& s) { return build(g, pairs(g, s, 1 + g.below(3)), g.chance(40) ? IV::And : lop(g)); }
   static typename LC::LinearConstraintOperatorValueType rel(tr::Rng& g) { typedef typename LC::LinearConstraintOperatorType R; return g.chance(40) ? R::LessEqual : g.chance(50) ? R::Equal : R::GreaterEqual; }
   static LC constraint(tr::Rng& g, const Vs& s) {
      std::vector<IV> iv; std::vector<T> co; size_t n = 1 + g.below(4); for(size_t i = 0; i < n; ++i) { iv.push_back(indicator(g, s)); co.push_back(static_cast<T>(g.range(-3, 3))); }
      LC c; for(size_t i = 0; i < n; ++i) c.add(iv[i], co[i]); c.setBound(static_cast<T>(g.range(-2, 3))); c.setConstraintOperator(rel(g)); return c;
   }
   // random functions; each returns the description in d
   static Order order(tr::Rng& g, std::string& d, Vs& s) {
      s = Vs{1 + g.below(5), 1 + g.below(5)}; std::vector<T> o; size_t m = std::max(s[0], s[1]); bool extra = g.chance(30); for(size_t i = 0; i < m + (extra ? 2 : 0); ++i) o.push_back(static_cast<T>(g.range(-4, 4)));
      long y = g.chance(50) ? 0 : g.range(-5, 5), n = g.chance(30) ? 1 : g.range(-5, 9); L a = static_cast<L>(s[0]), b = static_cast<L>(s[1]); bool it = g.chance(40), def = g.chance(20); if(def) { y = 0; n = 1; }
      d = tr::J().s("k", "order").a("s", s).a("ord", o).i("yes", y).i("no", n).str();
      if(it) return def ? Order(a, b, o.begin()) : Order(a, b, o.begin(), static_cast<T>(y), static_cast<T>(n)); return def ? Order(a, b, o) : Order(a, b, o, static_cast<T>(y), static_cast<T>(n));
   }
   static bool sameLabels(const Vs& s) { for(size_t v : s) if(v != s[0]) return false; return true; }
   static Limit limit(tr::Rng& g, std::string& d, Vs& s, bool big = false) {
      s = big ? Vs(2, 17) : shape(g); long y = g.range(-4, 5), n = g.range(-4, 9), m = static_cast<long>(g.below(5)); bool def = g.chance(20); if(def) { y = 0; n = 1; } std::vector<L> ls(s.begin(), s.end());
      d = tr::J().s("k", "limit").a("s", s).i("most", m).i("yes", y).i("no", n).str();
      if(sameLabels(s) && g.chance(50)) return def ? Limit(static_cast<I>(s.size()), ls[0], static_cast<L>(m)) : Limit(static_cast<I>(s.size()), ls[0], static_cast<L>(m), static_cast<T>(y), static_cast<T>(n));
      return def ? Limit(ls.begin(), ls.end(), static_cast<L>(m)) : Limit(ls.begin(), ls.end(), static_cast<L>(m), static_cast<T>(y), static_cast<T>(n));
   }
   static Linear linear(tr::Rng& g, std::string& d, Vs& s, bool big = false) {
      s = big ? Vs(2, 17) : shape(g); std::vector<LC> cs; size_t n = 1 + g.below(big ? 1 : 3); for(size_t i = 0; i < n; ++i) cs.push_back(constraint(g, s)); long y = g.range(-4, 5), q = g.range(-4, 9); bool def = g.chance(20); if(def) { y = 0; q = 1; } std::vector<L> ls(s.begin(), s.end());
      d = tr::J().s("k", "linear").a("s", s).raw("cons", jCons(cs.begin(), cs.end())).i("yes", y).i("no", q).str();
      if(g.chance(50)) return def ? Linear(ls.begin(), ls.end(), cs) : Linear(ls.begin(), ls.end(), cs, static_cast<T>(y), static_cast<T>(q));
      return def ? Linear(ls.begin(), ls.end(), cs.begin(), cs.end()) : Linear(ls.begin(), ls.end(), cs.begin(), cs.end(), static_cast<T>(y), static_cast<T>(q));
   }
   static Cost cost(tr::Rng& g, std::string& d, Vs& s, bool big = false) {
      s = big ? Vs(2, 17) : shape(g); size_t m = *std::max_element(s.begin(), s.end()); std::vector<L> ls(s.begin(), s.end()); bool same = sameLabels(s) && g.chance(50);
      if(g.chance(40)) {
         size_t l = g.below(m); long c = g.range(-4, 6); d = tr::J().s("k", "cost1").a("s", s).i("label", static_cast<long>(l)).i("cost", c).str();
         if(same) return Cost(static_cast<I>(s.size()), ls[0], static_cast<L>(l), static_cast<T>(c)); return Cost(ls.begin(), ls.end(), static_cast<L>(l), static_cast<T>(c));
      }
      std::vector<T> cs; for(size_t i = 0; i < m + (g.chance(20) ? 2 : 0); ++i) cs.push_back(static_cast<T>(g.chance(30) ? 0 : g.range(-4, 6))); d = tr::J().s("k", "costs").a("s", s).a("costs", cs).str();
      if(same) return Cost(static_cast<I>(s.size()), ls[0], cs.begin(), cs.end()); return Cost(ls.begin(), ls.end(), cs.begin(), cs.end());
   }
   static Sum sum(tr::Rng& g, std::string& d, Vs& s, bool big = false, bool nonneg = false, size_t* top = 0) {
      s = big ? Vs(2, 17) : shape(g); std::vector<L> ls(s.begin(), s.end()); bool share = g.chance(50), same = sameLabels(s) && g.chance(50); size_t m = *std::max_element(s.begin(), s.end()), n = 0; for(size_t v : s) n += v;
      std::vector<T> co; for(size_t i = 0; i < (share ? m : n); ++i) co.push_back(static_cast<T>(g.range(-3, 4))); long lam = nonneg ? g.range(0, 4) : g.range(-2, 4), b = g.range(-5, 5); bool def = g.chance(15); if(def) { lam = 1; b = 0; }
      d = tr::J().s("k", "sum").a("s", s).a("co", co).t("share", share).i("lambda", lam).i("bound", b).str(); if(top) *top = 4 * s.size() + 6;
      if(same) return def ? Sum(static_cast<I>(s.size()), ls[0], co.begin(), co.end(), share) : Sum(static_cast<I>(s.size()), ls[0], co.begin(), co.end(), share, static_cast<T>(lam), static_cast<T>(b));
      return def ? Sum(ls.begin(), ls.end(), co.begin(), co.end(), share) : Sum(ls.begin(), ls.end(), co.begin(), co.end(), share, static_cast<T>(lam), static_cast<T>(b));
   }
};
