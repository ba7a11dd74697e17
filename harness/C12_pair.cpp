// Contract of the constraint block made for one pair of particles (sphere/sphere, sphere/sylinder, sylinder/sylinder), on the
// real CalcSylinderNearForce, its closest-point queries replaced by their contracts (proved separately: C02, C03).
#include "vc_std.h"
#include "vc.h"
#define private public
#define protected public
#include "Sylinder/SylinderNear.hpp"
#undef private
#undef protected
static double dt(const Evec3 &a, const Evec3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static Evec3 rv(const char *n) { Evec3 v; for (int k = 0; k < 3; k++) v[k] = __vc_real(n); return v; }
// ---- contracts of the callees
extern "C" double ct_seg(DCPQuery<3, double, Evec3> *self, const Evec3 &P0, const Evec3 &P1, const Evec3 &Q0, const Evec3 &Q1, Evec3 &Pl, Evec3 &Ql, double &s, double &t) {
    s = __vc_realin("s", 0, 1); t = __vc_realin("t", 0, 1);
    Pl = P0 + s * (P1 - P0); Ql = Q0 + t * (Q1 - Q0);
    return (Pl - Ql).norm();
}
extern "C" double ct_seg6(DCPQuery<3, double, Evec3> *self, const Evec3 &P0, const Evec3 &P1, const Evec3 &Q0, const Evec3 &Q1, Evec3 &Pl, Evec3 &Ql) {
    double s, t; return ct_seg(self, P0, P1, Q0, Q1, Pl, Ql, s, t);
}
extern "C" double ct_point(const Evec3 &x, const Evec3 &m, const Evec3 &p, Evec3 &foot) {
    double t = __vc_realin("t", 0, 1); foot = m + t * (p - m);
    return (x - foot).norm();
}
// the stress of the pair (C19): an abstract tensor; what it was asked for is recorded
static int nStress; static Evec3 sDir[2], sC[2], sLoc[2]; static double sH[2], sR[2], sRho;
extern "C" void ct_stress(const Evec3 &dI, const Evec3 &dJ, const Evec3 &cI, const Evec3 &cJ, double hI, double hJ, const double rI, const double rJ, const double rho, const Evec3 &P, const Evec3 &Q, Emat3 &S) {
    nStress++; sDir[0] = dI; sDir[1] = dJ; sC[0] = cI; sC[1] = cJ; sLoc[0] = P; sLoc[1] = Q; sH[0] = hI; sH[1] = hJ; sR[0] = rI; sR[1] = rJ; sRho = rho;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S(i, j) = __vc_uf("stress", i, j, 0);
}
static SylinderNearEP ep(int which, bool sphere) {
    SylinderNearEP e; e.gid = (int)__vc_int("gid", 0, 1000000); e.globalIndex = (int)__vc_int("globalIndex", 0, 1000000); e.rank = 0;
    e.radius = __vc_pos("radius"); e.length = __vc_pos("length"); e.radiusCollision = __vc_pos("radiusCollision"); e.lengthCollision = __vc_realin("lengthCollision", 0, 8); e.colBuf = __vc_pos("colBuf");
    if (sphere) __vc_assume(e.lengthCollision < 2 * e.radiusCollision); else __vc_assume(e.lengthCollision >= 2 * e.radiusCollision);
    for (int k = 0; k < 3; k++) e.pos[k] = __vc_real("pos");
    __vc_unit3(e.direction, "dir");
    return e;
}
static double effRadius(const SylinderNearEP &e, bool sphere) { return sphere ? 0.5 * e.lengthCollision + e.radiusCollision : e.radiusCollision; }
// location x lies on the axis of e (the centre for a sphere)
static void onAxis(const SylinderNearEP &e, bool sphere, const double *x, const char *what, const char *inside) {
    double half = sphere ? 0 : 0.5 * e.lengthCollision, tau = 0, r[3];
    for (int k = 0; k < 3; k++) { r[k] = x[k] - e.pos[k]; tau += r[k] * e.direction[k]; }
    if (sphere) tau = 0;
    for (int k = 0; k < 3; k++) __vc_assert_eq(r[k], tau * e.direction[k], what);
    __vc_assert_le(tau, half, inside); __vc_assert_le(-half, tau, inside);
}
static double oracleDist(const SylinderNearEP &I, bool sI, const SylinderNearEP &J, bool sJ) {   // native only: independent minimum by projection
    double best = 1e300; int N = 400;
    for (int i = 0; i <= (sI ? 0 : N); i++) {
        double hI = sI ? 0 : (-0.5 + i / double(N)) * I.lengthCollision, p[3], s = 0, d = 0;
        for (int k = 0; k < 3; k++) p[k] = I.pos[k] + hI * I.direction[k];
        if (!sJ) { for (int k = 0; k < 3; k++) s += (p[k] - J.pos[k]) * J.direction[k]; double h = 0.5 * J.lengthCollision; s = s > h ? h : s < -h ? -h : s; }
        for (int k = 0; k < 3; k++) { double x = p[k] - J.pos[k] - s * J.direction[k]; d += x * x; }
        if (std::sqrt(d) < best) best = std::sqrt(d);
    }
    return best;
}
// side k of the recorded stress call is particle e with its contact point x (a sphere has no axis)
static bool stressSide(int k, const SylinderNearEP &e, bool sphere, const double *x) {
    bool r = (sH[k] == (sphere ? 0 : e.lengthCollision)) & (sR[k] == effRadius(e, sphere));
    for (int i = 0; i < 3; i++) r = r & (sC[k][i] == e.pos[i]) & (sLoc[k][i] == x[i]);
    if (!sphere) for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) r = r & (sDir[k][i] * sDir[k][j] == e.direction[i] * e.direction[j]);   // an axis, in either sense
    return r;
}
// what every block must say about its pair (A, B), A being the particle of side I of the block
static void check(bool made, const ConstraintBlock &b, const SylinderNearEP &A, bool sA, const SylinderNearEP &B, bool sB) {
    double rA = effRadius(A, sA), rB = effRadius(B, sB);
    if (made) {
        onAxis(A, sA, b.labI, "contact point of I is on the axis of I", "contact point of I is between the end points of I");
        onAxis(B, sB, b.labJ, "contact point of J is on the axis of J", "contact point of J is between the end points of J");
        Evec3 P(b.labI[0], b.labI[1], b.labI[2]), Q(b.labJ[0], b.labJ[1], b.labJ[2]), D = P - Q;
        double dist = D.norm(), sep = dist - (rA + rB);
        __vc_assert_eq(b.delta0, sep, "initial constraint value is the surface separation");
        __vc_assert_eq(b.gamma, sep < 0 ? -sep : 0, "initial force guess is the overlap depth");
        __vc_assert(sep < rA * A.colBuf + rB * B.colBuf || (__vc_native() && sep < rA * A.colBuf + rB * B.colBuf + 1e-9), "a block is made only inside the collision buffer");
        if (__vc_native()) { double o = oracleDist(A, sA, B, sB); __vc_assert(dist <= o + 1e-6 * (1 + o), "no pair of axis points is closer than the contact points"); }
        for (int k = 0; k < 3; k++) {
            if (dt(D, D) > 0) __vc_assert_eq(b.normI[k] * dist, D[k], "normal of I points from J to I with unit length");
            __vc_assert_eq(b.normJ[k], -b.normI[k], "normals are opposite");
            __vc_assert_eq(b.posI[k], b.labI[k] - A.pos[k], "position of I is relative to the centre of I");
            __vc_assert_eq(b.posJ[k], b.labJ[k] - B.pos[k], "position of J is relative to the centre of J");
        }
        __vc_assert(b.gidI == A.gid && b.gidJ == B.gid, "global ids of the pair");
        __vc_assert(b.globalIndexI == A.globalIndex && b.globalIndexJ == B.globalIndex, "matrix indices of the pair");
        __vc_assert(!b.oneSide && !b.bilateral, "two-sided, unilateral");
        __vc_assert_eq(b.kappa, 0, "no spring"); __vc_assert_eq(b.gammaLB, 0, "lower bound 0");
        if (!__vc_native()) {
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) __vc_assert_eq(b.stress[3 * i + j], __vc_uf("stress", i, j, 0), "stress is stored in row-major order");
            if (nStress != 1) __vc_unsupported("stress not computed by one call of collideStress");
            __vc_assert_eq(sRho, 1, "stress is that of particles of unit density");
            __vc_assert((stressSide(0, A, sA, b.labI) & stressSide(1, B, sB, b.labJ)) | (stressSide(1, A, sA, b.labI) & stressSide(0, B, sB, b.labJ)), "stress is that of the pair's collision shapes and contact points");
        } else {
            Evec3 z(0, 0, 1), P(b.labI[0], b.labI[1], b.labI[2]), Q(b.labJ[0], b.labJ[1], b.labJ[2]); Emat3 S;
            Evec3 cA(A.pos[0], A.pos[1], A.pos[2]), cB(B.pos[0], B.pos[1], B.pos[2]), dA(A.direction[0], A.direction[1], A.direction[2]), dB(B.direction[0], B.direction[1], B.direction[2]);
            CalcSylinderNearForce::collideStress(sA ? z : dA, sB ? z : dB, cA, cB, sA ? 0 : A.lengthCollision, sB ? 0 : B.lengthCollision, rA, rB, 1.0, P, Q, S);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) __vc_assert_eq(b.stress[3 * i + j], S(i, j), "stress is that of the pair's collision shapes and contact points");
        }
    }
}
static void missed(bool made, double sep, const SylinderNearEP &A, bool sA, const SylinderNearEP &B, bool sB) {
    double buf = effRadius(A, sA) * A.colBuf + effRadius(B, sB) * B.colBuf;
    __vc_assert(made || sep >= buf || (__vc_native() && sep >= buf - 1e-4 * (1 + buf)), "every pair inside the collision buffer gets a block");
}
static CalcSylinderNearForce *calc() { static CalcSylinderNearForce c; return &c; }
VC_HARNESS(sp_sp) {
    SylinderNearEP I = ep(0, true), J = ep(1, true); ForceNear f; ConstraintBlock b;
    bool made = calc()->sp_sp(I, J, f, b);
    check(made, b, I, true, J, true);
    Evec3 D; for (int k = 0; k < 3; k++) D[k] = I.pos[k] - J.pos[k];
    missed(made, D.norm() - effRadius(I, true) - effRadius(J, true), I, true, J, true);
    __vc_cover("sp_sp");
    if (made) __vc_cover("sp_sp made"); else __vc_cover("sp_sp none");
}
static double g_dist; static int g_n;
extern "C" double ct_point2(const Evec3 &x, const Evec3 &m, const Evec3 &p, Evec3 &foot) { g_n++; return g_dist = ct_point(x, m, p, foot); }
extern "C" double ct_seg2(DCPQuery<3, double, Evec3> *self, const Evec3 &P0, const Evec3 &P1, const Evec3 &Q0, const Evec3 &Q1, Evec3 &Pl, Evec3 &Ql, double &s, double &t) { g_n++; return g_dist = ct_seg(self, P0, P1, Q0, Q1, Pl, Ql, s, t); }
// the query is asked about the axis end points of the particle (checked where it is called)
static SylinderNearEP *gA, *gB; static bool gsA, gsB;
static bool isAxis(const SylinderNearEP &e, const Evec3 &a, const Evec3 &b) {   // {a,b} are the two end points of the axis, in either order
    bool r = true;
    for (int k = 0; k < 3; k++) r = r & (a[k] + b[k] == 2 * e.pos[k]);
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) r = r & ((a[i] - b[i]) * (a[j] - b[j]) == e.lengthCollision * e.lengthCollision * e.direction[i] * e.direction[j]);
    return r;
}
extern "C" double ct_point3(const Evec3 &x, const Evec3 &m, const Evec3 &p, Evec3 &foot) {
    for (int k = 0; k < 3; k++) __vc_assert_eq(x[k], gA->pos[k], "query point is the centre of the sphere");
    __vc_assert(isAxis(*gB, m, p), "query segment is the axis of the sylinder");
    return ct_point2(x, m, p, foot);
}
extern "C" double ct_seg3(DCPQuery<3, double, Evec3> *self, const Evec3 &P0, const Evec3 &P1, const Evec3 &Q0, const Evec3 &Q1, Evec3 &Pl, Evec3 &Ql, double &s, double &t) {
    __vc_assert((isAxis(*gA, P0, P1) & isAxis(*gB, Q0, Q1)) | (isAxis(*gB, P0, P1) & isAxis(*gA, Q0, Q1)), "query segments are the axes of I and J");
    return ct_seg2(self, P0, P1, Q0, Q1, Pl, Ql, s, t);
}
extern "C" double ct_seg3b(DCPQuery<3, double, Evec3> *self, const Evec3 &P0, const Evec3 &P1, const Evec3 &Q0, const Evec3 &Q1, Evec3 &Pl, Evec3 &Ql) {
    double s, t; return ct_seg3(self, P0, P1, Q0, Q1, Pl, Ql, s, t);
}
VC_HARNESS(sp_sy) {
    SylinderNearEP I = ep(0, true), J = ep(1, false); ForceNear f; ConstraintBlock b; bool rev = __vc_bool("reverse");
    gA = &I; gB = &J; g_n = 0;
    bool made = calc()->sp_sy(I, J, f, b, rev);
    if (rev) check(made, b, J, false, I, true); else check(made, b, I, true, J, false);
    if (__vc_native()) g_dist = oracleDist(I, true, J, false); else if (g_n != 1) __vc_unsupported("closest-point query not called once");
    missed(made, g_dist - effRadius(I, true) - effRadius(J, false), I, true, J, false);
    __vc_cover("sp_sy");
    if (made) __vc_cover("sp_sy made"); else __vc_cover("sp_sy none");
}
VC_HARNESS(sy_sy) {
    SylinderNearEP I = ep(0, false), J = ep(1, false); ForceNear f; ConstraintBlock b;
    gA = &I; gB = &J; g_n = 0;
    bool made = calc()->sy_sy(I, J, f, b);
    check(made, b, I, false, J, false);
    if (__vc_native()) g_dist = oracleDist(I, false, J, false); else if (g_n != 1) __vc_unsupported("closest-point query not called once");
    missed(made, g_dist - effRadius(I, false) - effRadius(J, false), I, false, J, false);
    __vc_cover("sy_sy");
    if (made) __vc_cover("sy_sy made"); else __vc_cover("sy_sy none");
}
