// random number library (trusted contracts): engines are opaque, a U01 variate is any number in [0,1), an N01 variate any real
#pragma once
#include "vc.h"
namespace trng {
struct vc_engine { unsigned long s = 0; unsigned n = 1, i = 0; void seed(unsigned long x) { s = x; } void split(unsigned a, unsigned b) { n *= a; i = i * a + b; } };
typedef vc_engine mrg5; typedef vc_engine lcg64_shift;
template <class T> struct uniform01_dist { template <class E> T operator()(E &) const { return __vc_realin("u01", 0, 1); } };
#ifdef VC_N01_HOOK
template <class T> struct normal_dist { normal_dist(T = 0, T = 1) {} template <class E> T operator()(E &) const { return vc_n01(); } };
#else
template <class T> struct normal_dist { normal_dist(T = 0, T = 1) {} template <class E> T operator()(E &) const { return __vc_real("n01"); } };
#endif
template <class T> struct lognormal_dist { lognormal_dist(T = 0, T = 1) {} template <class E> T operator()(E &) const { return __vc_pos("ln"); } };
}
