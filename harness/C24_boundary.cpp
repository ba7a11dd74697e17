// Contract of the boundary collision collection: every particle end that is outside a boundary or close to it yields exactly one
// one-sided block with the right geometry, for each boundary, and no other block is made.
#include "vc_deque.h"
#define VC_MAP_GHOST
#include "vc_system.h"
static int64_t vc_map_offset(int64_t local) { return __vc_native() ? 3 * local : __vc_ufi("mapoffset", local, 0, 0); }
static int64_t vc_map_total(int64_t local) { return __vc_native() ? 5 * local : __vc_ufi("maptotal", local, 0, 0); }
static void okmap(int64_t local) { int64_t a = vc_map_offset(local), b = vc_map_total(local); __vc_assume(a >= 0); __vc_assume(a + local <= b); __vc_assume(b <= (1 << 30)); }
static Sylinder *gP; static Sys *gSys; static int64_t gBase, gGen; static int gB; static int cMinus[2], cPlus[2]; static double gBuf;
static double plane[2][4];   // native runs: a half space per boundary
// arbitrary surface: the contract proved for the boundary classes (C01) - delta is +-(Q-P), its length the distance
struct ProbeBoundary : Boundary {
    int id;
    bool outside(const double q[3]) const { return __vc_native() ? plane[id][0] * q[0] + plane[id][1] * q[1] + plane[id][2] * q[2] < plane[id][3] : __vc_ufr("side", id, q[0], q[1], q[2]) < 0; }
    void proj(const double q[3], double p[3]) const {
        if (__vc_native()) { double d = plane[id][0] * q[0] + plane[id][1] * q[1] + plane[id][2] * q[2] - plane[id][3]; for (int k = 0; k < 3; k++) p[k] = q[k] - d * plane[id][k]; }
        else { p[0] = __vc_ufr("projx", id, q[0], q[1], q[2]); p[1] = __vc_ufr("projy", id, q[0], q[1], q[2]); p[2] = __vc_ufr("projz", id, q[0], q[1], q[2]); }
    }
    void initialize(const YAML::Node &) override {}
    void project(const double q[3], double p[3], double d[3]) const override {
        gB = id; proj(q, p); double s = outside(q) ? -1 : 1, r = 0; for (int k = 0; k < 3; k++) { d[k] = s * (q[k] - p[k]); r += d[k] * d[k]; }
        __vc_assume(r > 0);
    }
    bool check(const double *, const double *, const double *) const override { return true; }
    void echo() const override {}
};
static ProbeBoundary bd[2];
static bool sphere(const Sylinder &y) { return y.lengthCollision < 2 * y.radiusCollision; }
static void axis(const Sylinder &y, double *u) { const double *o = y.orientation, x = o[0], yy = o[1], z = o[2], w = o[3]; u[0] = 2 * (x * z + w * yy); u[1] = 2 * (yy * z - w * x); u[2] = 1 - 2 * (x * x + yy * yy); }
static double erad(const Sylinder &y) { return sphere(y) ? y.radiusCollision + 0.5 * y.lengthCollision : y.radiusCollision; }
// e: -1 minus end, +1 plus end, 0 centre
static void endOf(const Sylinder &y, int e, double *q) { double u[3]; axis(y, u); for (int k = 0; k < 3; k++) q[k] = y.pos[k] + e * 0.5 * y.lengthCollision * u[k]; }
static double distOf(const double *q, const double *p) { return std::sqrt((q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])); }
// native runs: within rounding of a threshold either verdict is right
static bool tie(const Sylinder &y, int id, int e) {
    if (!__vc_native()) return false;
    double q[3], p[3]; endOf(y, e, q); bd[id].proj(q, p); double d = distOf(q, p), m = 1 + std::fabs(plane[id][3]); for (int k = 0; k < 3; k++) m += std::fabs(y.pos[k]);
    m += y.lengthCollision + y.radiusCollision; return d < 1e-9 * m || std::fabs(d - (1 + 2 * gBuf) * erad(y)) < 1e-9 * m || std::fabs(y.lengthCollision - 2 * y.radiusCollision) < 1e-12 * m;
}
static void vc_push(void *, const ConstraintBlock &b) {
    int i = (int)(b.globalIndexI - gBase);
    const Sylinder &y = gP[i];
    __vc_assert(b.globalIndexI == b.globalIndexJ && b.gidI == y.gid && b.gidJ == y.gid, "the block belongs to the particle");
    __vc_assert(b.oneSide && !b.bilateral, "one-sided unilateral constraint");
    double q[3], p[3], u[3]; gSys->unitAt(i); axis(y, u);
    int e = 0;
    if (!sphere(y)) {
        double lam = 0; bool same = true; endOf(y, -1, q); for (int k = 0; k < 3; k++) { lam += (b.labI[k] - y.pos[k]) * u[k]; if (!__vc_native() && same) same = __vc_same(b.labI[k], q[k]); }
        if (__vc_native() ? lam < 0 : same) e = -1; else e = 1;
    }
    if (tie(y, gB, e)) return;
    endOf(y, e, q); const ProbeBoundary &B = bd[gB]; B.proj(q, p); double d = distOf(q, p); bool out = B.outside(q);
    double s = out ? -1 : 1;
    for (int k = 0; k < 3; k++) {
        __vc_assert_eq(b.labI[k], q[k], "contact on the particle: its centre (sphere) or end point (rod)");
        __vc_assert_eq(b.labJ[k], p[k], "contact on the boundary: the projection");
        __vc_assert_eq(b.posI[k], q[k] - y.pos[k], "lever arm from the centre"); __vc_assert_eq(b.posJ[k], q[k] - y.pos[k], "lever arm from the centre");
        __vc_assert_eq(b.normI[k] * d, s * (q[k] - p[k]), "unit direction towards the allowed side"); __vc_assert_eq(b.normJ[k] * d, s * (q[k] - p[k]), "unit direction towards the allowed side");
    }
    __vc_assert_eq(b.delta0, s * d - erad(y), "separation is the signed distance minus the effective radius");
    __vc_assert(b.gamma == 0 && b.gammaLB == 0 && b.kappa == 0, "no initial force");
    for (int k = 0; k < 9; k++) __vc_assert(b.stress[k] == 0, "no stress");
    if (i == gGen) { if (e < 0) cMinus[gB]++; else cPlus[gB]++; }
}
static bool due(const Sylinder &y, int id, int e) {
    double q[3], p[3], dl[3]; endOf(y, e, q); bd[id].project(q, p, dl); double d = distOf(q, p);
    if (bd[id].outside(q)) return true;
    return d < (1 + 2 * gBuf) * erad(y);
}
static void probe(int nb) {
    Sys S(3); int n = S.n, g = S.g; S.unitAt(g); okmap(n); okmap(6 * n);
    for (int i = 0; i < nb; i++) { bd[i].id = i; if (__vc_native()) { __vc_unit3(plane[i], "plane"); plane[i][3] = __vc_real("offset"); } S.s.runConfig.boundaryPtr.push_back(std::shared_ptr<Boundary>(std::shared_ptr<Boundary>(), &bd[i])); }
    for (int i = 0; i < 2; i++) cMinus[i] = cPlus[i] = 0;
    gSys = &S; gP = S.p; gGen = g; gBuf = S.s.runConfig.sylinderColBuf;
    S.s.conCollectorPtr = std::make_shared<ConstraintCollector>(); S.s.conCollectorPtr->constraintPoolPtr = std::make_shared<ConstraintBlockPool>(); S.s.conCollectorPtr->constraintPoolPtr->resize(1);
    S.s.updateSylinderMap(); gBase = S.p[0].globalIndex;
    __vc_assume(S.p[g].radiusCollision > 0); __vc_assume(S.p[g].lengthCollision >= 0);
    Sylinder o = S.p[g];
    S.s.collectBoundaryCollision();
    sameBody(S.p[g], o, "bodies are not moved");
    for (int i = 0; i < nb; i++) {
        if (sphere(o) ? tie(o, i, 0) : tie(o, i, -1) || tie(o, i, 1)) continue;
        if (sphere(o)) { bool w = due(o, i, 0); __vc_assert(cMinus[i] == 0 && cPlus[i] == (w ? 1 : 0), "a sphere yields one block per boundary exactly when it is outside or close"); __vc_cover(w ? "sphere hit" : "sphere free"); }
        else {
            bool w = due(o, i, -1), v = due(o, i, 1);
            __vc_assert(cMinus[i] == (w ? 1 : 0), "the minus end of a rod yields one block per boundary exactly when it is outside or close"); __vc_assert(cPlus[i] == (v ? 1 : 0), "the plus end of a rod yields one block per boundary exactly when it is outside or close");
            __vc_cover(w ? "minus hit" : "minus free"); __vc_cover(v ? "plus hit" : "plus free");
        }
    }
    __vc_cover("boundary");
}
VC_HARNESS(one) { probe(1); }
VC_HARNESS(two) { probe(2); }
