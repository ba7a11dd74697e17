// Contracts of the periodic-image search.
#include "vc_std.h"
#include "vc.h"
#include "Util/GeoUtil.hpp"
static void isImage(double x, double y, double L, const char *what) { __vc_assert_multiple(y - x, L, what); }   // x and y differ by a whole number of periods
VC_HARNESS(wrap) {
    double lb = __vc_real("lb"), L = __vc_pos("L"), ub = lb + L, x = __vc_real("x"), y = x, e = __vc_native() ? 1e-9 * (1 + std::fabs(lb) + L) : 0;
    if (__vc_native()) L = ub - lb;
    findPBCImage(lb, ub, y);
    __vc_assert_le(lb, y, "image is not below the box"); __vc_assert(y < ub || (__vc_native() && y < ub + e), "image is below the upper bound");
    isImage(x, y, L, "image differs by a whole number of periods");
    if (x >= lb && x < ub) { __vc_assert_eq(y, x, "a position inside is its own image"); __vc_cover("inside"); }
    __vc_cover("wrap");
}
VC_HARNESS(nearest) {
    double lb = __vc_real("lb"), L = __vc_pos("L"), ub = lb + L, x = __vc_real("x"), t = __vc_real("t"), y = x, u = t, e = __vc_native() ? 1e-9 * (1 + std::fabs(lb) + L) : 0;
    if (__vc_native()) L = ub - lb;
    findPBCImage(lb, ub, y, u);
    __vc_assert_le(lb, u, "target image is not below the box"); __vc_assert(u < ub || (__vc_native() && u < ub + e), "target image is below the upper bound");
    isImage(t, u, L, "target image differs by a whole number of periods"); isImage(x, y, L, "image differs by a whole number of periods");
    __vc_assert_le(y - u, 0.5 * L, "image is at most half a period away"); __vc_assert_le(u - y, 0.5 * L, "image is at most half a period away");
    __vc_cover("nearest");
}
