// Contracts of the mobility matrix, the distribution maps and the block vectors.
#define VC_MAP_GHOST
#include "vc_system.h"
// this process owns [offset, offset+local) of total indices
static int64_t vc_map_offset(int64_t local) { return __vc_native() ? 3 * local : __vc_ufi("mapoffset", local, 0, 0); }
static int64_t vc_map_total(int64_t local) { return __vc_native() ? 5 * local : __vc_ufi("maptotal", local, 0, 0); }
static void okmap(int64_t local) { int64_t a = vc_map_offset(local), b = vc_map_total(local); __vc_assume(a >= 0); __vc_assume(a + local <= b); __vc_assume(b <= (1 << 30)); }
struct Drag { double a, b, c; };
// contract of calcDragCoeff (proved in C21): positive coefficients depending on the sizes of the particle
extern "C" void ct_drag(const Sylinder *s, double mu, double &a, double &b, double &c) { a = mu * __vc_uf("para", s->gid, 0, 0); b = mu * __vc_uf("perp", s->gid, 0, 0); c = mu * __vc_uf("rot", s->gid, 0, 0); __vc_assume(a > 0); __vc_assume(b > 0); __vc_assume(c > 0); }
static void checkParticle(Sys &S, int g);
VC_HARNESS(mobility) {
    Sys S; int n = S.n, g = S.g; S.unitAt(g); okmap(n); okmap(6 * n);
    S.s.updateSylinderMap();
    S.s.calcMobOperator();
    if (g == 0) checkParticle(S, 0); else checkParticle(S, g);
}
static void checkParticle(Sys &S, int g) {
    const int n = S.n;
    Sylinder &y = S.p[g];
    double a = 0, b = 0, c = 0; y.calcDragCoeff(S.s.runConfig.viscosity, a, b, c);
    const double *q4 = y.orientation; double x = q4[0], yy = q4[1], z = q4[2], w = q4[3], q[3] = {2 * (x * z + w * yy), 2 * (yy * z - w * x), w * w - x * x - yy * yy + z * z};
    Teuchos::RCP<TCMAT> M = S.s.mobilityMatrixRcp;
    __vc_assert(M->filled && M->domainMap->getNodeNumElements() == (size_t)(6 * n) && M->rangeMap->getNodeNumElements() == (size_t)(6 * n) && M->rowMap->getNodeNumElements() == (size_t)(6 * n), "mobility has six rows and columns per particle");
    double f[6]; for (int k = 0; k < 6; k++) f[k] = __vc_real("f");
    if (y.isImmovable) __vc_cover("immovable"); else __vc_cover("movable");
    if (g == 0) __vc_cover("first"); else __vc_cover("other");
    int base = (int)M->colMap->getMinGlobalIndex();
    double va = y.isImmovable ? 0 : 1 / a, vb = y.isImmovable ? 0 : 1 / b, vc = y.isImmovable ? 0 : 1 / c;
    double qf = q[0] * f[0] + q[1] * f[1] + q[2] * f[2];
    for (int r = 0; r < 6; r++) {
        double v = 0; size_t row = (size_t)(6 * g + r);
        const size_t first = M->rp[row]; const int len = (int)(M->rp[row + 1] - first);
        __vc_assert(0 <= len && len <= 6, "at most one entry per column of the block");
        for (int e = 0; e < 6; e++) {
            if (e >= len) break;
            size_t k = first + e;
            int col = M->colMap->getGlobalElement(M->ci[k]) - base - 6 * g;
            if (col < 0 || col > 5) { __vc_assert(M->va[k] == 0, "a particle's velocity depends on its own force only"); continue; }
            for (int j = 0; j < 6; j++) if (col == j) v += M->va[k] * f[j];
        }
        if (r < 3) __vc_assert_eq(v, va * q[r] * qf + vb * (f[r] - q[r] * qf), "translation: parallel mobility along the axis, perpendicular mobility across");
        else __vc_assert_eq(v, vc * f[r], "rotation: isotropic rotational mobility");
    }
}
VC_HARNESS(maps) {
    Sys S; int n = S.n, g = S.g; okmap(n); okmap(6 * n);
    Sylinder o = S.p[g];
    S.s.updateSylinderMap();
    __vc_assert(S.p[g].globalIndex == vc_map_offset(n) + g, "global index counts the particles of all processes in order");
    __vc_assert(S.s.sylinderMapRcp->getNodeNumElements() == (size_t)n && S.s.sylinderMobilityMapRcp->getNodeNumElements() == (size_t)(6 * n), "one entry per particle and six per particle for velocities");
    sameBody(S.p[g], o, "bodies are not moved");
    __vc_cover("maps");
}
static int sz(const char *nm) { return (int)__vc_size(nm, 0, 2, 4); }
static Teuchos::RCP<TV> vec(const char *nm, const Teuchos::RCP<TMAP> &m) { double *d = (double *)__vc_buf(nm, (int64_t)m->getNodeNumElements() * 8, 0); return Teuchos::RCP<TV>(new TV(m, d)); }
VC_HARNESS(twoblock) {
    int n1 = sz("n1"), n2 = sz("n2"); __vc_assume(n1 != n2); okmap(n1); okmap(n2);
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    Teuchos::RCP<TMAP> m1 = getTMAPFromLocalSize(n1, comm), m2 = getTMAPFromLocalSize(n2, comm);
    Teuchos::RCP<TV> v1 = vec("v1", m1), v2 = vec("v2", m2);
    Teuchos::RCP<TMAP> m = getTMAPFromTwoBlockTMAP(m1, m2);
    Teuchos::RCP<TV> v = getTVFromTwoBlockTV(v1, v2);
    __vc_assert(v->getLocalLength() == (size_t)(n1 + n2) && m->getNodeNumElements() == (size_t)(n1 + n2), "both blocks are held");
    __vc_assert((int64_t)m->getGlobalNumElements() == vc_map_total(n1) + vc_map_total(n2), "global size is the sum");
    int i = (int)__vc_int("i", 0, 1 << 28); if (__vc_native() && n1 + n2) i %= n1 + n2; __vc_assume(i < n1 + n2); __vc_index(i);
    if (i < n1) { __vc_assert_eq(v->d[i], v1->d[i], "first block comes first"); __vc_assert(m->getGlobalElement(i) == vc_map_offset(n1) + i, "global indices of the first block"); __vc_cover("first"); }
    else { int j = i - n1; __vc_index(j); __vc_assert_eq(v->d[i], v2->d[j], "second block follows"); __vc_assert(m->getGlobalElement(i) == vc_map_total(n1) + vc_map_offset(n2) + j, "global indices of the second block follow all of the first"); __vc_cover("second"); }
}
VC_HARNESS(fromvector) {
    int n = sz("n"); okmap(n); double *d = (double *)__vc_buf("in", (int64_t)n * 8, 0); std::vector<double> in(d, d + n);
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    Teuchos::RCP<TV> v = getTVFromVector(in, comm);
    __vc_assert(v->getLocalLength() == (size_t)n, "same length");
    int i = (int)__vc_int("i", 0, 1 << 28); if (__vc_native() && n) i %= n; __vc_assume(i < n); __vc_index(i);
    __vc_assert_eq(v->d[i], d[i], "same entries"); __vc_cover("fromvector");
}
