// Stand-in for opengm/inference/lpcplex.hxx (CombiLP): an exact integer solver by
// enumeration behind the interface CombiLP uses.  Ties are broken by a seed.
#pragma once
#include <vector>
#include <cstddef>
#include <opengm/opengm.hxx>
#include <opengm/inference/inference.hxx>
namespace opengm {
struct StandinTies { static size_t& seed() { static size_t s = 0; return s; } static size_t& calls() { static size_t c = 0; return c; } static size_t& failAt() { static size_t f = 0; return f; } };
template<class GM, class ACC> class LPCplex {
public:
   typedef typename GM::LabelType LabelType; typedef typename GM::ValueType ValueType;
   struct Parameter { bool integerConstraint_; int numberOfThreads_; double timeLimit_; double workMem_; Parameter() : integerConstraint_(false), numberOfThreads_(0), timeLimit_(1e+75), workMem_(128.0) {} };
   LPCplex(const GM& gm, const Parameter& p = Parameter()) : gm_(gm), p_(p), x_(gm.numberOfVariables(), 0) {}
   InferenceTermination infer() {
      if(!p_.integerConstraint_) return UNKNOWN;
      ++StandinTies::calls(); if(StandinTies::failAt() == StandinTies::calls()) return TIMEOUT;
      std::vector<LabelType> y(gm_.numberOfVariables(), 0); std::vector<std::vector<LabelType> > best; ValueType b = ValueType();
      for(;;) {
         ValueType v = gm_.evaluate(y.begin());
         if(best.empty() || ACC::bop(v, b - (ACC::bop(0, 1) ? 1e-7 : -1e-7))) { best.assign(1, y); b = v; } else if(!ACC::bop(b + (ACC::bop(0, 1) ? 1e-7 : -1e-7), v)) best.push_back(y);
         size_t i = 0; while(i < y.size() && ++y[i] == gm_.numberOfLabels(i)) y[i++] = 0; if(i == y.size()) break;
      }
      x_ = best[StandinTies::seed() % best.size()]; return NORMAL;
   }
   InferenceTermination arg(std::vector<LabelType>& x, const size_t = 1) const { x = x_; return NORMAL; }
private:
   const GM& gm_; Parameter p_; std::vector<LabelType> x_;
};
}
