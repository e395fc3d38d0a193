// Stand-in for the commercial LP/MIP back ends (CPLEX, Gurobi) behind
// opengm::LPSolverInterface: a dense bounded-variable simplex with branch and
// bound.  Everything above the interface is the library's own code.
#pragma once
#define OPENGM_LP_SOLVER_CPLEX_HXX_
#define OPENGM_LP_SOLVER_GUROBI_HXX_
#include <opengm/inference/auxiliary/lp_solver/lp_solver_interface.hxx>
#include <vector>
#include <string>
#include <cmath>
#include <limits>
#include <stdexcept>

namespace standin {
inline double inf() { return std::numeric_limits<double>::infinity(); }
struct Row { std::vector<long> v; std::vector<double> c; double b; int rel; };   // rel: -1 at most, 0 equal, 1 at least
// min c.x, lo <= x <= hi, rows; true if an optimum exists
struct Simplex {
   size_t m, n; std::vector<std::vector<double> > a; std::vector<double> b, ub, z; std::vector<long> basis; std::vector<char> flip, isb; 
   void doFlip(size_t j) { for(size_t i = 0; i < m; ++i) if(a[i][j] != 0) { b[i] -= a[i][j] * ub[j]; a[i][j] = -a[i][j]; } z[j] = -z[j]; flip[j] ^= 1; }
   void pivot(size_t r, size_t j) {
      double p = a[r][j]; for(double& q : a[r]) q /= p; b[r] /= p;
      for(size_t i = 0; i < m; ++i) if(i != r && std::fabs(a[i][j]) > 1e-13) { double f = a[i][j]; for(size_t k = 0; k < n; ++k) a[i][k] -= f * a[r][k]; b[i] -= f * b[r]; a[i][j] = 0; }
      double f = z[j]; if(f != 0) { for(size_t k = 0; k < n; ++k) z[k] -= f * a[r][k]; z[j] = 0; }
      isb[basis[r]] = 0; isb[j] = 1; basis[r] = static_cast<long>(j);
   }
   bool run() {
      for(size_t it = 0; it < 200000; ++it) {
         long e = -1; double best = -1e-9; bool bland = it > 300; for(size_t j = 0; j < n; ++j) if(!isb[j] && ub[j] > 0 && z[j] < best) { e = static_cast<long>(j); if(bland) break; best = z[j]; }
         if(e < 0) return true; double t = ub[e]; long r = -1; bool up = false;
         for(size_t i = 0; i < m; ++i) {
            double q = a[i][e], s; bool u; if(q > 1e-9) { s = b[i] / q; u = false; } else if(q < -1e-9 && ub[basis[i]] < inf()) { s = (ub[basis[i]] - b[i]) / -q; u = true; } else continue;
            if(s < 0) s = 0; if(s < t - 1e-12 || (r >= 0 && s <= t + 1e-12 && basis[i] < basis[r])) { t = s; r = static_cast<long>(i); up = u; }
         }
         if(t == inf()) return false;
         if(r < 0) { doFlip(e); continue; }
         if(up) { size_t k = basis[r]; for(size_t j = 0; j < n; ++j) if(j != k) a[r][j] = -a[r][j]; b[r] = ub[k] - b[r]; flip[k] ^= 1; }
         pivot(r, e);
      }
      throw std::runtime_error("stand-in LP solver: no convergence");
   }
   bool solve(const std::vector<double>& c, const std::vector<double>& lo, const std::vector<double>& hi, const std::vector<Row>& rows, std::vector<double>& x, double& val) {
      size_t nv = c.size(); m = rows.size(); size_t ns = 0; for(const Row& r : rows) if(r.rel != 0) ++ns; n = nv + ns + m; a.assign(m, std::vector<double>(n, 0.0)); b.assign(m, 0.0); ub.assign(n, inf()); flip.assign(n, 0); isb.assign(n, 0); basis.assign(m, 0);
      for(size_t j = 0; j < nv; ++j) { if(lo[j] > hi[j]) return false; ub[j] = hi[j] - lo[j]; }
      size_t s = nv; std::vector<char> art(n, 0);
      for(size_t i = 0; i < m; ++i) {
         const Row& r = rows[i]; b[i] = r.b; for(size_t k = 0; k < r.v.size(); ++k) { a[i][r.v[k]] += r.c[k]; b[i] -= r.c[k] * lo[r.v[k]]; }
         long sl = -1; if(r.rel != 0) { sl = static_cast<long>(s++); a[i][sl] = r.rel < 0 ? 1 : -1; }
         if(b[i] < 0) { b[i] = -b[i]; for(double& q : a[i]) q = -q; }
         size_t w = nv + ns + i; if(sl >= 0 && a[i][sl] > 0) { basis[i] = sl; ub[w] = 0; } else { a[i][w] = 1; basis[i] = static_cast<long>(w); art[w] = 1; } isb[basis[i]] = 1;
      }
      z.assign(n, 0.0); for(size_t i = 0; i < m; ++i) if(art[basis[i]]) for(size_t j = 0; j < n; ++j) if(!art[j]) z[j] -= a[i][j];
      if(!run()) return false; double rest = 0; for(size_t i = 0; i < m; ++i) if(art[basis[i]]) rest += b[i]; if(rest > 1e-7) return false;
      for(size_t j = nv + ns; j < n; ++j) ub[j] = 0;
      for(size_t i = 0; i < m; ++i) if(art[basis[i]]) { long e = -1; for(size_t j = 0; j < nv + ns; ++j) if(!isb[j] && std::fabs(a[i][j]) > 1e-7) { e = static_cast<long>(j); break; } if(e >= 0) pivot(i, e); }
      for(size_t j = 0; j < n; ++j) z[j] = j < nv ? (flip[j] ? -c[j] : c[j]) : 0.0;
      for(size_t i = 0; i < m; ++i) { double f = z[basis[i]]; if(f != 0) for(size_t j = 0; j < n; ++j) z[j] -= f * a[i][j]; }
      if(!run()) return false;
      std::vector<double> y(n, 0.0); for(size_t i = 0; i < m; ++i) y[basis[i]] = b[i]; x.assign(nv, 0.0); val = 0; for(size_t j = 0; j < nv; ++j) { double q = flip[j] ? ub[j] - y[j] : y[j]; x[j] = lo[j] + q; val += c[j] * x[j]; }
      return true;
   }
};
template<class D, class IDX> class Lp : public opengm::LPSolverInterface<D, double, IDX, std::vector<double>::const_iterator, double> {
public:
   typedef opengm::LPSolverInterface<D, double, IDX, std::vector<double>::const_iterator, double> Base; typedef typename Base::Parameter Parameter; friend class opengm::LPSolverInterface<D, double, IDX, std::vector<double>::const_iterator, double>;
   explicit Lp(const Parameter& p) : Base(p), sign_(1), done_(false), value_(0) {}
   size_t rows() const { return rows_.size(); } size_t solves = 0;
protected:
   std::vector<double> c_, lo_, hi_, x_; std::vector<char> int_; std::vector<Row> rows_, pending_; int sign_; bool done_; double value_;
   static double infinity_impl() { return inf(); }
   void vars(size_t k, double lo, double hi, char t) { c_.resize(c_.size() + k, 0.0); lo_.resize(lo_.size() + k, lo); hi_.resize(hi_.size() + k, hi); int_.resize(int_.size() + k, t); }
   void addContinuousVariables_impl(IDX k, double lo, double hi) { vars(k, lo, hi, 0); }
   void addIntegerVariables_impl(IDX k, double lo, double hi) { vars(k, lo, hi, 1); }
   void addBinaryVariables_impl(IDX k) { vars(k, 0, 1, 1); }
   void setObjective_impl(typename Base::Objective o) { sign_ = o == Base::Minimize ? 1 : -1; }
   void setObjectiveValue_impl(IDX v, double c) { c_.at(v) = c; }
   template<class It> void setObjectiveValue_impl(It b, It e) { size_t i = 0; for(; b != e; ++b) c_.at(i++) = *b; if(i != c_.size()) throw std::logic_error("objective size"); }
   template<class V, class C> void setObjectiveValue_impl(V b, V e, C c) { for(; b != e; ++b, ++c) c_.at(*b) = *c; }
   template<class V, class C> void row(V b, V e, C c, double bound, int rel) { Row r; r.b = bound; r.rel = rel; for(; b != e; ++b, ++c) { if(static_cast<size_t>(*b) >= c_.size()) throw std::out_of_range("variable"); r.v.push_back(static_cast<long>(*b)); r.c.push_back(static_cast<double>(*c)); } pending_.push_back(r); }
   template<class V, class C> void addEqualityConstraint_impl(V b, V e, C c, double d, const std::string& = "") { row(b, e, c, d, 0); }
   template<class V, class C> void addLessEqualConstraint_impl(V b, V e, C c, double d, const std::string& = "") { row(b, e, c, d, -1); }
   template<class V, class C> void addGreaterEqualConstraint_impl(V b, V e, C c, double d, const std::string& = "") { row(b, e, c, d, 1); }
   // constraints count from here on only
   void addConstraintsFinished_impl() { rows_.insert(rows_.end(), pending_.begin(), pending_.end()); pending_.clear(); }
   void addConstraintsFinished_impl(double& t) { t = 0; addConstraintsFinished_impl(); }
   template<class P, class V> void setParameter_impl(P, V) {}
   bool solve_impl() {
      ++solves; if(solves > 600) throw std::runtime_error("too many LP solves"); std::vector<double> c(c_); for(double& q : c) q *= sign_; bool found = false; double best = inf(); std::vector<double> bx;
      struct Node { std::vector<double> lo, hi; }; std::vector<Node> st(1); st[0].lo = lo_; st[0].hi = hi_; size_t nodes = 0;
      while(!st.empty()) {
         Node q = st.back(); st.pop_back(); if(++nodes > 20000) throw std::runtime_error("too many nodes"); Simplex s; std::vector<double> x; double v; if(!s.solve(c, q.lo, q.hi, rows_, x, v)) continue; if(found && v >= best - 1e-7) continue;
         long k = -1; double d = 1e-6; for(size_t j = 0; j < x.size(); ++j) if(int_[j]) { double f = std::fabs(x[j] - std::floor(x[j] + 0.5)); if(f > d) { d = f; k = static_cast<long>(j); } }
         if(k < 0) { found = true; best = v; bx = x; continue; }
         Node l = q, h = q; l.hi[k] = std::floor(x[k]); h.lo[k] = std::floor(x[k]) + 1; st.push_back(l); st.push_back(h);
      }
      if(!found) return false; x_ = bx; value_ = sign_ * best; done_ = true; return true;
   }
   bool solve_impl(double& t) { t = 0; return solve_impl(); }
   std::vector<double>::const_iterator solutionBegin_impl() const { need(); return x_.begin(); }
   std::vector<double>::const_iterator solutionEnd_impl() const { need(); return x_.end(); }
   double solution_impl(IDX v) const { need(); return x_.at(v); }
   double objectiveFunctionValue_impl() const { need(); return value_; }
   double objectiveFunctionValueBound_impl() const { return done_ ? value_ : sign_ > 0 ? -inf() : inf(); }
   void exportModel_impl(const std::string&) const {}
   void need() const { if(!done_) throw std::logic_error("no solution yet"); }
};
}
namespace opengm {
class LPSolverCplex : public standin::Lp<LPSolverCplex, long> {
public:
   typedef long CplexIndexType; typedef double CplexValueType; typedef std::vector<double>::const_iterator CplexSolutionIteratorType; typedef double CplexTimingType; typedef standin::Lp<LPSolverCplex, long> L; typedef L::Parameter Parameter;
   explicit LPSolverCplex(const Parameter& p = Parameter()) : L(p) {} friend class LPSolverInterface<LPSolverCplex, double, long, std::vector<double>::const_iterator, double>;
};
class LPSolverGurobi : public standin::Lp<LPSolverGurobi, int> {
public:
   typedef int GurobiIndexType; typedef double GurobiValueType; typedef std::vector<double>::const_iterator GurobiSolutionIteratorType; typedef double GurobiTimingType; typedef standin::Lp<LPSolverGurobi, int> L; typedef L::Parameter Parameter;
   explicit LPSolverGurobi(const Parameter& p = Parameter()) : L(p) {} friend class LPSolverInterface<LPSolverGurobi, double, int, std::vector<double>::const_iterator, double>;
};
}
#include <opengm/inference/lpcplex2.hxx>
#include <opengm/inference/lpgurobi2.hxx>
