// Transfer of constraint and cost functions to a linear program.
#include "constr.hxx"
#include <opengm/inference/auxiliary/lp_functiontransfer.hxx>
using namespace opengm; using tr::Rec; using tr::J;

template<class T, class I, class L> struct Bench : Constr<T, I, L> {
   typedef Constr<T, I, L> C; typedef typename C::IV IV; typedef typename C::LC LC; typedef DiscreteSpace<I, L> Space; typedef LPFunctionTransfer<T, I, L> LP;
   typedef GraphicalModel<T, Adder, typename meta::TypeListGenerator<ExplicitFunction<T, I, L>, PottsFunction<T, I, L>, typename C::Order, typename C::Limit, typename C::Linear, typename C::Cost, typename C::Sum>::type, Space> GM;
   Rec& r; tr::Rng& g; explicit Bench(Rec& rec) : r(rec), g(rec.rng) {}
   std::vector<IV> junk() { std::vector<IV> v; if(g.chance(30)) for(size_t i = 0; i < 3; ++i) v.push_back(IV(static_cast<I>(i), static_cast<L>(1))); return v; }
   template<class F> void yes(const F& f, const std::string& d, size_t top, GM& gm, size_t factor) {
      std::vector<IV> slack = junk(), iv = junk(); std::vector<T> co; std::vector<LC> cons; if(g.chance(30)) { co.resize(5, static_cast<T>(7)); cons.resize(4); } bool can; long n;
      if(g.chance(50)) { can = LP::template isTransferable<F>(); n = static_cast<long>(LP::numSlackVariables(f)); LP::getSlackVariablesOrder(f, slack); LP::getSlackVariablesObjectiveCoefficients(f, co); LP::getIndicatorVariables(f, iv); LP::getLinearConstraints(f, cons); }
      else {
         typename LP::IsTransferableFunctor a; gm[factor].callFunctor(a); can = a.isTransferable_; typename LP::NumSlackVariablesFunctor b; gm[factor].callFunctor(b); n = static_cast<long>(b.numSlackVariables_);
         typename LP::GetSlackVariablesOrderFunctor c; c.order_ = &slack; gm[factor].callFunctor(c); typename LP::GetSlackVariablesObjectiveCoefficientsFunctor e; e.coefficients_ = &co; gm[factor].callFunctor(e);
         typename LP::GetIndicatorVariablesFunctor h; h.variables_ = &iv; gm[factor].callFunctor(h); typename LP::GetLinearConstraintsFunctor k; k.constraints_ = &cons; gm[factor].callFunctor(k);
      }
      r.ev(J("lp").raw("f", d).t("can", can).i("n", n).raw("slack", jIvs(slack.begin(), slack.end())).a("co", co).raw("iv", jIvs(iv.begin(), iv.end())).raw("cons", jCons(cons.begin(), cons.end())).i("top", static_cast<long>(top)));
   }
   template<class F> void no(const F& f) {
      size_t refused = 0; std::vector<IV> v; std::vector<T> co; std::vector<LC> cons;
      try { LP::numSlackVariables(f); } catch(opengm::RuntimeError&) { ++refused; } try { LP::getSlackVariablesOrder(f, v); } catch(opengm::RuntimeError&) { ++refused; } try { LP::getSlackVariablesObjectiveCoefficients(f, co); } catch(opengm::RuntimeError&) { ++refused; }
      try { LP::getIndicatorVariables(f, v); } catch(opengm::RuntimeError&) { ++refused; } try { LP::getLinearConstraints(f, cons); } catch(opengm::RuntimeError&) { ++refused; }
      r.ev(J("nolp").t("can", LP::template isTransferable<F>()).t("refused", refused == 5));
   }
   void run() {
      for(size_t t = 0; t < 6; ++t) {
         std::string d; Vs s; size_t top = 2; GM gm; auto put = [&](const auto& f) { std::vector<L> ls(s.begin(), s.end()); gm = GM(Space(ls.begin(), ls.end())); std::vector<I> vi; for(size_t i = 0; i < s.size(); ++i) vi.push_back(static_cast<I>(i)); gm.addFactor(gm.addFunction(f), vi.begin(), vi.end()); };
         if(g.chance(50)) { auto f = C::sum(g, d, s, false, true, &top); put(f); yes(f, d, top, gm, 0); } else { do { auto f = C::cost(g, d, s); if(prodOf(s) > 27) continue; put(f); yes(f, d, 2, gm, 0); break; } while(true); }
      }
      { std::string d; Vs s; no(C::order(g, d, s)); no(C::limit(g, d, s)); no(C::linear(g, d, s)); no(PottsFunction<T, I, L>(2, 2, 0, 1)); }
   }
};
template<class T, class I, class L> void one(Rec& r) { Bench<T, I, L>(r).run(); }
void part(tr::Driver& d) {
#if PART == 0
   for(size_t i = 0; i < d.n(120, 1500); ++i) d.add("d-" + std::to_string(i), one<double, size_t, size_t>);
#else
   for(size_t i = 0; i < d.n(70, 900); ++i) d.add("f-" + std::to_string(i), one<float, unsigned, unsigned char>);
#endif
}
DRIVER_MAIN(part)
