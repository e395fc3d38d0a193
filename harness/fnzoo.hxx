// Function zoo: an abstract function description (exactly what is logged) and
// its realisation as a real opengm function object.
#pragma once
#include "trace.hxx"
#include <opengm/opengm.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/function_properties_base.hxx>

typedef std::vector<size_t> Shape;
struct Fn {
   std::string k; Shape s; std::vector<long> p;
   std::string json() const { return tr::J().s("k", k.compare(0, 6, "custom") == 0 ? "custom" : k).s("c", k).a("s", s).a("p", p).str(); }
};
inline size_t prodOf(const Shape& s) { size_t n = 1; for(size_t v : s) n *= v; return n; }
inline bool nextLabeling(const Shape& s, std::vector<size_t>& x) {
   for(size_t i = 0; i < s.size(); ++i) { if(++x[i] < s[i]) return true; x[i] = 0; }
   return false;
}

// user-defined function class (a documented extension point)
template<class T, class I, class L, int N>
class CustomFunction : public opengm::FunctionBase<CustomFunction<T, I, L, N>, T, I, L> {
public:
   typedef T ValueType; typedef I IndexType; typedef L LabelType;
   CustomFunction() : a_(0), b_(0) {}
   CustomFunction(const Shape& s, T a, T b) : shape_(s), a_(a), b_(b) {}
   size_t dimension() const { return shape_.size(); }
   size_t size() const { return prodOf(shape_); }
   LabelType shape(size_t i) const { return static_cast<LabelType>(shape_[i]); }
   template<class IT> T operator()(IT it) const { T v = a_; for(size_t i = 0; i < shape_.size(); ++i) v += b_ * static_cast<T>((i + 1) * static_cast<size_t>(it[i])); return v; }
private:
   Shape shape_; T a_, b_;
};

template<class F> struct Make;
template<class T, class I, class L> struct Make<opengm::ExplicitFunction<T, I, L> > {
   static const char* kind() { return "explicit"; }
   typedef opengm::ExplicitFunction<T, I, L> F;
   static F make(const Fn& f) {
      F r(f.s.begin(), f.s.end());
      if(f.s.empty()) { std::vector<size_t> z(1, 0); r(z.begin()) = static_cast<T>(f.p[0]); return r; }
      std::vector<size_t> x(f.s.size(), 0); size_t k = 0;
      do { r(x.begin()) = static_cast<T>(f.p[k++]); } while(nextLabeling(f.s, x));
      return r;
   }
};
template<class T, class I, class L> struct Make<opengm::ConstantFunction<T, I, L> > {
   static const char* kind() { return "const"; }
   typedef opengm::ConstantFunction<T, I, L> F;
   static F make(const Fn& f) { return F(f.s.begin(), f.s.end(), static_cast<T>(f.p[0])); }
};
template<class T, class I, class L> struct Make<opengm::PottsFunction<T, I, L> > {
   static const char* kind() { return "potts"; }
   typedef opengm::PottsFunction<T, I, L> F;
   static F make(const Fn& f) { return F(f.s[0], f.s[1], static_cast<T>(f.p[0]), static_cast<T>(f.p[1])); }
};
template<class T, class I, class L> struct Make<opengm::PottsNFunction<T, I, L> > {
   static const char* kind() { return "pottsn"; }
   typedef opengm::PottsNFunction<T, I, L> F;
   static F make(const Fn& f) { return F(f.s.begin(), f.s.end(), static_cast<T>(f.p[0]), static_cast<T>(f.p[1])); }
};
template<class T, class I, class L> struct Make<opengm::PottsGFunction<T, I, L> > {
   static const char* kind() { return "pottsg"; }
   typedef opengm::PottsGFunction<T, I, L> F;
   static F make(const Fn& f) { std::vector<T> v(f.p.begin(), f.p.end()); return F(f.s.begin(), f.s.end(), v.begin()); }
};
template<class T, class I, class L> struct Make<opengm::AbsoluteDifferenceFunction<T, I, L> > {
   static const char* kind() { return "ad"; }
   typedef opengm::AbsoluteDifferenceFunction<T, I, L> F;
   static F make(const Fn& f) { return F(f.s[0], f.s[1], static_cast<T>(f.p[0])); }
};
template<class T, class I, class L> struct Make<opengm::SquaredDifferenceFunction<T, I, L> > {
   static const char* kind() { return "sd"; }
   typedef opengm::SquaredDifferenceFunction<T, I, L> F;
   static F make(const Fn& f) { return F(f.s[0], f.s[1], static_cast<T>(f.p[0])); }
};
template<class T, class I, class L> struct Make<opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> > {
   static const char* kind() { return "tad"; }
   typedef opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> F;
   static F make(const Fn& f) { return F(f.s[0], f.s[1], static_cast<T>(f.p[0]), static_cast<T>(f.p[1])); }
};
template<class T, class I, class L> struct Make<opengm::TruncatedSquaredDifferenceFunction<T, I, L> > {
   static const char* kind() { return "tsd"; }
   typedef opengm::TruncatedSquaredDifferenceFunction<T, I, L> F;
   static F make(const Fn& f) { return F(f.s[0], f.s[1], static_cast<T>(f.p[0]), static_cast<T>(f.p[1])); }
};
template<class T, class I, class L> struct Make<opengm::SparseFunction<T, I, L> > {
   static const char* kind() { return "sparse"; }
   typedef opengm::SparseFunction<T, I, L> F;
   static F make(const Fn& f) {
      F r(f.s.begin(), f.s.end(), static_cast<T>(f.p[0]));
      std::vector<L> x(f.s.size(), 0); size_t k = 1;
      std::vector<size_t> y(f.s.size(), 0);
      do { if(f.p[k] != f.p[0]) { for(size_t i = 0; i < y.size(); ++i) x[i] = static_cast<L>(y[i]); r.insert(x.begin(), static_cast<T>(f.p[k])); } ++k; } while(nextLabeling(f.s, y));
      return r;
   }
};
template<class T, class I, class L, int N> struct Make<CustomFunction<T, I, L, N> > {
   static std::string kind() { return "custom" + std::to_string(N); }   // one class per N
   typedef CustomFunction<T, I, L, N> F;
   static F make(const Fn& f) { return F(f.s, static_cast<T>(f.p[0]), static_cast<T>(f.p[1])); }
};

// random integer-valued description of a function of the given kind and shape;
// returns false if the kind does not exist for this shape
inline bool randomFn(tr::Rng& g, const std::string& kind, const Shape& s, long lo, long hi, Fn& f) {
   f.k = kind; f.s = s; f.p.clear();
   size_t n = prodOf(s);
   auto val = [&]() { return g.range(lo, hi); };
   if(kind == "explicit") { for(size_t i = 0; i < n; ++i) f.p.push_back(val()); return true; }
   if(kind == "const") { f.p.push_back(val()); return !s.empty(); }
   if(kind == "potts") { f.p = {val(), val()}; return s.size() == 2; }
   if(kind == "pottsn") { f.p = {val(), val()}; return !s.empty(); }
   if(kind == "pottsg") { static const size_t bell[5] = {1, 1, 2, 5, 15}; if(s.empty() || s.size() > 4) return false; for(size_t i = 0; i < bell[s.size()]; ++i) f.p.push_back(val()); return true; }
   if(kind == "ad" || kind == "sd") { f.p = {val()}; return s.size() == 2; }
   if(kind == "tad" || kind == "tsd") { f.p = {g.range(0, 3), val()}; return s.size() == 2; }
   if(kind == "sparse") { if(s.empty()) return false; long d = val(); f.p.push_back(d); for(size_t i = 0; i < n; ++i) f.p.push_back(g.chance(50) ? d : val()); return true; }
   if(kind.compare(0, 6, "custom") == 0) { f.p = {val(), g.range(-1, 1)}; return true; }
   return false;
}
