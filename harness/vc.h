// Contract vocabulary.  Symbolic mode (default): the functions below are uninterpreted and given their meaning by the
// deductive verifier (lib/models.py).  Native mode (-DVC_NATIVE): they run (replay / contract-directed execution).
#ifndef VC_H_
#define VC_H_
#include <cstddef>
#include <cstdint>
#include <cmath>
extern "C" {
double __vc_real(const char *name);                    // arbitrary real
int64_t __vc_int(const char *name, int64_t lo, int64_t hi); // arbitrary integer in [lo,hi]
bool __vc_bool(const char *name);
void __vc_assume(bool c);
void __vc_assert(bool c, const char *name);
void __vc_assert_eq(double a, double b, const char *name);
void __vc_assert_multiple(double d, double L, const char *name); // d is an integer times L (L: an input)
void __vc_assert_le(double a, double b, const char *name);
void __vc_cover(const char *name);                     // reachability witness
void __vc_unit3(double *v, const char *name);          // arbitrary unit vector
void __vc_unit4(double *v, const char *name);          // arbitrary unit quaternion
double __vc_realin(const char *name, double lo, double hi); // arbitrary real in [lo,hi]
double __vc_pos(const char *name);                     // arbitrary positive real
void __vc_abs(double expr, const char *name);          // names a polynomial: later terms are rewritten over the name (symbolic mode only)
void __vc_lemma_sos(double e, double s1, double s2, double s3); // machine-checked lemma  e == s1^2+s2^2+s3^2, then e >= 0 is used
void __vc_lemma_eq(double a, double b);                // machine-checked lemma a == b (then used)
void *__vc_buf(const char *name, int64_t nbytes, int kind); // arbitrary memory; kind 0: doubles 1: int32 2: bytes 3: raw undef
void __vc_abort(void);
bool __vc_native(void);
bool __vc_streq(const char *a, const char *b);
double __vc_yreal(const char *key, int64_t ix);        // value of a configuration entry (same entry, same value)
int64_t __vc_yint(const char *key, int64_t ix);
bool __vc_ybool(const char *key, int64_t ix);
double __vc_uf(const char *name, int64_t a, int64_t b, int64_t c);      // uninterpreted real function of three integers
bool __vc_same(double a, double b);                    // specification-level case choice: provably equal here (native: nearly equal)
double __vc_ufr(const char *name, int64_t a, double b, double c, double d);   // uninterpreted real function of an integer and three reals (not for native runs)
int64_t __vc_ufi(const char *name, int64_t a, int64_t b, int64_t c);    // uninterpreted integer function
int64_t __vc_size(const char *name, int64_t lo, int64_t bound, int64_t nativeMax); // size: any value >= lo (proof), <= bound (unit labelled bounded), <= nativeMax (native runs)
bool __vc_unbounded(void);
void __vc_unsupported(const char *why); // the code is organised in a way the contract cannot follow: undecided, never counted as proved
void __vc_throw(void);                                 // the code reports an error by throwing: the path ends there
void __vc_index(int64_t i);                            // a generic index at which quantified facts are instantiated
void __vc_inv(bool (*f)(void));                        // candidate loop invariant (kept only if established and preserved)
}
#define VC_HARNESS(n) extern "C" void vc_h_##n()
#ifdef VC_NATIVE
#define VC_SYMBOLIC 0
#else
#define VC_SYMBOLIC 1
#endif
#endif
