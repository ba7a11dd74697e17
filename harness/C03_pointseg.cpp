// Contract of the point-segment closest-point query.
#include "vc_std.h"
#include "vc.h"
#include "Collision/DCPQuery.hpp"
#include "Util/EigenDef.hpp"
static Evec3 vec(const char *n) { Evec3 v; for (int k = 0; k < 3; k++) v[k] = __vc_real(n); return v; }
static double dt(const Evec3 &a, const Evec3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
VC_HARNESS(pointseg) {
    Evec3 x = vec("x"), m = vec("m"), p = vec("p"), perp;
    double T = __vc_realin("T", 0, 1);
    double dist = DistPointSeg<Evec3>(x, m, p, perp);
    Evec3 u = p - m, r = x - perp;
    __vc_assert_le(0, dist, "distance >= 0");
    __vc_assert_eq(dist * dist, dt(r, r), "distance is |point - foot|");
    // foot lies on the segment: perp = m + t u with t in [0,1]
    double uu = dt(u, u), tu = dt(perp - m, u);
    for (int k = 0; k < 3; k++) __vc_assert_eq((perp[k] - m[k]) * uu, tu * u[k], "foot lies on the line of the segment");
    __vc_assert_le(0, tu, "foot is not before the first end"); __vc_assert_le(tu, uu, "foot is not after the second end");
    if (uu == 0) for (int k = 0; k < 3; k++) __vc_assert_eq(perp[k], m[k], "degenerate segment: foot is the point");
    // optimality: the residual makes an obtuse angle with every other point of the segment
    for (int i = 0; i < 2; i++) {
        Evec3 end = i ? p : m;
        __vc_assert_le(dt(r, end - perp), 0, "no end point direction decreases the distance");
    }
    __vc_cover("pointseg");
}
// lemma: the obtuse-angle conditions at both ends imply the minimum over the whole segment
VC_HARNESS(pointseg_min) {
    Evec3 x = vec("x"), m = vec("m"), p = vec("p"), q = vec("q");
    double T = __vc_realin("T", 0, 1);
    Evec3 y = m + T * (p - m), r = x - q;
    double g0 = dt(r, m - q), g1 = dt(r, p - q);
    __vc_assume(g0 <= 0); __vc_assume(g1 <= 0);
    double lhs = dt(x - y, x - y), rhs = dt(r, r), sq = dt(y - q, y - q);
    __vc_assert_eq(lhs, rhs + sq - 2 * ((1 - T) * g0 + T * g1), "expansion around the foot");
    __vc_assert_le((1 - T) * g0 + T * g1, 0, "first order term");
    __vc_cover("pointseg_min");
}
