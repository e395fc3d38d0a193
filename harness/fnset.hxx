// Setters of the built-in function classes, recorded as events; false if the class has none.
#pragma once
#include "fnzoo.hxx"
// ---- setters per class; returns false if the class has none
template<class F> bool setter(tr::Rec&, long, F&, Fn&, long = 9) { return false; }
template<class T, class I, class L> bool setter(tr::Rec& r, long slot, opengm::ExplicitFunction<T, I, L>& f, Fn& d, long M = 9) {
   if(d.s.empty()) return false; std::vector<size_t> x; for(size_t q : d.s) x.push_back(r.rng.below(q)); long v = r.rng.range(-M, M);
   if(d.s.size() == 1 && r.rng.chance(50)) f(x[0]) = static_cast<T>(v); else if(d.s.size() == 2 && r.rng.chance(50)) f(x[0], x[1]) = static_cast<T>(v); else if(d.s.size() == 3 && r.rng.chance(50)) f(x[0], x[1], x[2]) = static_cast<T>(v); else f(x.begin()) = static_cast<T>(v);
   size_t k = 0, st = 1; for(size_t i = 0; i < x.size(); ++i) { k += st * x[i]; st *= d.s[i]; } d.p[k] = v;
   r.ev(tr::J("set").i("slot", slot).a("x", x).i("v", v)); return true;
}
template<class T, class I, class L> bool setter(tr::Rec& r, long slot, opengm::PottsFunction<T, I, L>& f, Fn& d, long M = 9) { size_t i = r.rng.below(2); long v = r.rng.range(-M, M); f.parameter(i) = static_cast<T>(v); d.p[i] = v; r.ev(tr::J("par").i("slot", slot).i("i", static_cast<long>(i)).i("v", v)); return true; }
template<class T, class I, class L> bool setter(tr::Rec& r, long slot, opengm::PottsGFunction<T, I, L>& f, Fn& d, long M = 9) {
   std::vector<size_t> x; for(size_t q : d.s) x.push_back(r.rng.below(q)); long v = r.rng.range(-M, M);
   if(r.rng.chance(60)) { f.setByLabel(x.begin(), static_cast<T>(v)); r.ev(tr::J("set").i("slot", slot).a("x", x).i("v", v)); }
   else { size_t n = 0, bit = 1; for(size_t i = 1; i < x.size(); ++i) for(size_t j = 0; j < i; ++j) { if(x[i] == x[j]) n += bit; bit *= 2; } f.setByPartition(n, static_cast<T>(v)); r.ev(tr::J("setpart").i("slot", slot).i("i", static_cast<long>(n)).i("v", v)); }
   return true;
}
template<class T, class I, class L> bool setter(tr::Rec& r, long slot, opengm::SparseFunction<T, I, L>& f, Fn& d, long M = 9) {
   std::vector<size_t> x; for(size_t q : d.s) x.push_back(r.rng.below(q)); long v = r.rng.range(-M, M); size_t k = 0, st = 1; for(size_t i = 0; i < x.size(); ++i) { k += st * x[i]; st *= d.s[i]; }
   if(d.p[k + 1] != d.p[0] || v == d.p[0]) return false;   // only entries not stored yet
   f.insert(x.begin(), static_cast<T>(v)); d.p[k + 1] = v; r.ev(tr::J("set").i("slot", slot).a("x", x).i("v", v)); return true;
}

