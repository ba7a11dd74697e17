// Contract of the segment-segment closest-point query (all inputs, degenerate and parallel segments included).
#include "vc_std.h"
#include "vc.h"
#define private public
#include "Collision/DCPQuery.hpp"
#undef private
#include "Util/EigenDef.hpp"

static Evec3 vec(const char *n) { Evec3 v; for (int k = 0; k < 3; k++) v[k] = __vc_real(n); return v; }
static double dt(const Evec3 &a, const Evec3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

// the query depends on the end points only through these scalar products
#define ABSTRACT __vc_abs(dt(u, u), "a"); __vc_abs(dt(u, v), "b"); __vc_abs(dt(v, v), "c"); __vc_abs(dt(u, w), "d"); __vc_abs(dt(v, w), "e");
VC_HARNESS(segseg) {
    Evec3 P0 = vec("P0"), P1 = vec("P1"), Q0 = vec("Q0"), Q1 = vec("Q1");
    Evec3 u = P1 - P0, v = Q1 - Q0, w = P0 - Q0;
    ABSTRACT
    __vc_abs(dt(w, w), "f");
    double a = dt(u, u), b = dt(u, v), c = dt(v, v);
    double f = dt(w, w), cc; // Gram matrix facts (machine-checked identities)
    __vc_lemma_sos(a, u[0], u[1], u[2]);
    __vc_lemma_sos(c, v[0], v[1], v[2]);
    __vc_lemma_sos(a * c - b * b, u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]);
    __vc_lemma_sos(a * f - dt(u, w) * dt(u, w), u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]);
    __vc_lemma_sos(c * f - dt(v, w) * dt(v, w), v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]);
    Evec3 Pl, Ql; double s = -1, t = -1;
    DCPSegment3Segment3<double, Evec3> dcp;
    double dist = dcp(P0, P1, Q0, Q1, Pl, Ql, s, t);
    __vc_assert(s >= 0, "s >= 0"); __vc_assert(s <= 1, "s <= 1"); __vc_assert(t >= 0, "t >= 0"); __vc_assert(t <= 1, "t <= 1");
    double d = dt(u, w), e = dt(v, w);
    // first-order optimality on the unit square (sufficient by convexity: see kkt)
    double gs = a * s - b * t + d, gt = c * t - b * s - e;
    __vc_assert_le(gs * s, 0, "derivative in s points outwards at the minimum (lower side)");
    __vc_assert_le(0, gs * (1 - s), "derivative in s points outwards at the minimum (upper side)");
    __vc_assert_le(gt * t, 0, "derivative in t points outwards at the minimum (lower side)");
    __vc_assert_le(0, gt * (1 - t), "derivative in t points outwards at the minimum (upper side)");
    __vc_cover("segseg");
}
// the returned points and distance correspond to the returned parameters (no abstraction: any input)
VC_HARNESS(segseg_points) {
    Evec3 P0 = vec("P0"), P1 = vec("P1"), Q0 = vec("Q0"), Q1 = vec("Q1");
    Evec3 u = P1 - P0, v = Q1 - Q0, w = P0 - Q0;
    ABSTRACT
    Evec3 Pl, Ql, Pm, Qm; double s = -1, t = -1;
    DCPSegment3Segment3<double, Evec3> dcp;
    double dist = dcp(P0, P1, Q0, Q1, Pl, Ql, s, t);
    for (int k = 0; k < 3; k++) {
        __vc_assert_eq(Pl[k], P0[k] + s * (P1[k] - P0[k]), "Ploc is the point of P at parameter s");
        __vc_assert_eq(Ql[k], Q0[k] + t * (Q1[k] - Q0[k]), "Qloc is the point of Q at parameter t");
    }
    __vc_assert_le(0, dist, "distance >= 0");
    __vc_assert_eq(dist * dist, dt(Pl - Ql, Pl - Ql), "distance is |Ploc - Qloc|");
    __vc_cover("segseg_points");
}
// the 6-argument overload: checked against the contract of the 8-argument query (its callee is replaced by the contract)
typedef DCPSegment3Segment3<double, Evec3> DCP;
static double g_in[12], g_out[6], g_dist;
extern "C" double ct_query(DCP *self, const Evec3 &P0, const Evec3 &P1, const Evec3 &Q0, const Evec3 &Q1, Evec3 &Pl, Evec3 &Ql, double &s, double &t) {
    for (int k = 0; k < 3; k++) {
        __vc_assert_eq(P0[k], g_in[k], "overload passes P0"); __vc_assert_eq(P1[k], g_in[3 + k], "overload passes P1");
        __vc_assert_eq(Q0[k], g_in[6 + k], "overload passes Q0"); __vc_assert_eq(Q1[k], g_in[9 + k], "overload passes Q1");
        Pl[k] = g_out[k]; Ql[k] = g_out[3 + k];
    }
    s = __vc_real("s"); t = __vc_real("t");
    return g_dist;
}
VC_HARNESS(segseg_overload) {
    Evec3 P0 = vec("P0"), P1 = vec("P1"), Q0 = vec("Q0"), Q1 = vec("Q1");
    Evec3 Pl, Ql; DCP dcp;
    if (__vc_native()) {
        DCP d2; Evec3 Pm, Qm; double s, t; g_dist = d2(P0, P1, Q0, Q1, Pm, Qm, s, t);
        for (int k = 0; k < 3; k++) g_out[k] = Pm[k], g_out[3 + k] = Qm[k];
    } else {
        g_dist = __vc_real("dist"); for (int k = 0; k < 6; k++) g_out[k] = __vc_real("out");
        for (int k = 0; k < 3; k++) g_in[k] = P0[k], g_in[3 + k] = P1[k], g_in[6 + k] = Q0[k], g_in[9 + k] = Q1[k];
    }
    double dist = dcp(P0, P1, Q0, Q1, Pl, Ql);
    __vc_assert_eq(dist, g_dist, "both overloads return the same distance");
    for (int k = 0; k < 3; k++) { __vc_assert_eq(Pl[k], g_out[k], "both overloads return the same Ploc"); __vc_assert_eq(Ql[k], g_out[3 + k], "both overloads return the same Qloc"); }
    __vc_cover("segseg_overload");
}
// lemma: the optimality conditions imply that no pair of points is closer
VC_HARNESS(kkt) {
    double a = __vc_real("a"), b = __vc_real("b"), c = __vc_real("c"), d = __vc_real("d"), e = __vc_real("e"), f = __vc_real("f");
    double s = __vc_realin("s", 0, 1), t = __vc_realin("t", 0, 1), S = __vc_realin("S", 0, 1), T = __vc_realin("T", 0, 1);
    double gs = a * s - b * t + d, gt = c * t - b * s - e;
    __vc_assume(a >= 0); __vc_assume(c >= 0); __vc_assume(a * c >= b * b);
    __vc_assume(gs * s <= 0); __vc_assume(gs * (1 - s) >= 0); __vc_assume(gt * t <= 0); __vc_assume(gt * (1 - t) >= 0);
    double x = S - s, y = T - t;
    double R = a * s * s - 2 * b * s * t + c * t * t + 2 * d * s - 2 * e * t + f, Rp = a * S * S - 2 * b * S * T + c * T * T + 2 * d * S - 2 * e * T + f;
    double quad = a * x * x - 2 * b * x * y + c * y * y;
    __vc_assert_eq(Rp - R, quad + 2 * gs * x + 2 * gt * y, "expansion around the returned parameters");
    __vc_assert_le(0, gs * x, "first order term in s"); __vc_assert_le(0, gt * y, "first order term in t");
    __vc_assert_le(0, quad, "second order term");
    __vc_cover("kkt");
}
