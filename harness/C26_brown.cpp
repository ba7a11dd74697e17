// Contract of the Brownian velocities: the noise has the covariance 2 kBT/dt times the mobility, whatever random number goes where.
#define VC_N01_HOOK
static double vc_n01();
#include "vc_system.h"
// draws are numbered (per particle, from its drag coefficients on); in run k only draw k is one, the others are zero. The velocity is linear in the noise, so the sum of v v^T over
// the runs is the covariance of v for independent standard normal draws
static int nDraw, hot; static bool still; static int nllt, cur; static double mu0; static Sylinder *base;
static double vc_n01() { int k = __vc_native() ? nDraw % 12 : nDraw; nDraw++; return k == hot ? 1 : 0; }
extern "C" void ct_drag(const Sylinder *s, double mu, double &a, double &b, double &c) { nDraw = 0; cur = (int)(s - base); a = mu * __vc_uf("para", s->gid, 0, 0); b = mu * __vc_uf("perp", s->gid, 0, 0); c = mu * __vc_uf("rot", s->gid, 0, 0); __vc_assume(a > 0); __vc_assume(b > 0); __vc_assume(c > 0); }
static void axis(const Sylinder &y, double *u) { const double *o = y.orientation, x = o[0], yy = o[1], z = o[2], w = o[3]; u[0] = 2 * (x * z + w * yy); u[1] = 2 * (yy * z - w * x); u[2] = 1 - 2 * (x * x + yy * yy); }
// Eigen's in-place Cholesky factor of a 3x3 matrix, by columns (trusted contract); a non-positive pivot stops it, and only the zero matrix has one here
extern "C" Eigen::LLT<Emat3> &ct_llt(Eigen::LLT<Emat3> &self, const Emat3 &A) {
    self.m_matrix = A; self.m_isInitialized = true; self.m_info = Eigen::Success; double *m = self.m_matrix.data();
    if (base[cur].isImmovable) { for (int k = 0; k < 9; k++) __vc_assert(m[k] == 0, "immovable particles have zero mobility"); return self; }
    double l[6]; for (int k = 0; k < 6; k++) l[k] = __vc_uf("cholesky", k, cur, 0);   // L L^T = matrix
    const Sylinder &y = base[cur]; double a, b, c, q[3]; y.calcDragCoeff(mu0, a, b, c); axis(y, q);
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) __vc_assert_eq(m[3 * j + i], (1 / a - 1 / b) * q[i] * q[j] + (i == j ? 1 / b : 0), "the matrix factorised is the translational mobility of the particle");
    nllt = 1;
    m[0] = l[0]; m[1] = l[1]; m[2] = l[2]; m[4] = l[3]; m[5] = l[4]; m[8] = l[5];
    return self;
}
// contract of the rotation (C14): unchanged if there is none, else some orientation
extern "C" void ct_rot(Equatn &q, const Evec3 &w, const double &) { if (w[0] == 0 && w[1] == 0 && w[2] == 0) return; for (int k = 0; k < 4; k++) q.coeffs()[k] = __vc_uf("rotated", k, hot, 0); }
static void run(Sys &S, int h, double (*cov)[6]) {
    hot = h; nDraw = 0; const int g = S.g; Sylinder &y = S.p[g];
    S.s.calcVelocityBrown();
    double v[6]; for (int k = 0; k < 3; k++) { v[k] = y.velBrown[k]; v[3 + k] = y.omegaBrown[k]; }
    for (int k = 0; k < 6; k++) __vc_assert_eq(S.s.velocityBrownRcp->d[6 * g + k], v[k], "the vector of Brownian velocities has six entries per particle");
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) cov[i][j] += v[i] * v[j];
}
static void noise(bool fixed) {
    still = fixed; nllt = 0;
    Sys S(4, __vc_native() ? 0 : 1); int n = S.n, g = S.g; base = S.p; mu0 = S.s.runConfig.viscosity; S.unitAt(g); S.p[g].isImmovable = fixed; Sylinder o = S.p[g];
    const double kt = 2 * S.s.runConfig.KBT / S.s.runConfig.dt; __vc_assert(kt > 0, "positive temperature"); __vc_assume(kt > 0);
    S.s.rngPoolPtr = std::make_shared<TRngPool>(0); S.s.updateSylinderMap();
    Sylinder &y = S.p[g];
    double cov[6][6]; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) cov[i][j] = 0;
    run(S, 0, cov); run(S, 1, cov); run(S, 2, cov); run(S, 3, cov); run(S, 4, cov); run(S, 5, cov); run(S, 6, cov); run(S, 7, cov); run(S, 8, cov); run(S, 9, cov); run(S, 10, cov); run(S, 11, cov);
    double a = 0, b = 0, c = 0; y.calcDragCoeff(S.s.runConfig.viscosity, a, b, c);
    double q[3]; axis(o, q);
    if (!__vc_native() && nllt && !still) {   // cov = kt L L^T by the contract of the factorisation, and L L^T = mat is the mobility
        double L[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; L[0][0] = __vc_uf("cholesky", 0, g, 0); L[1][0] = __vc_uf("cholesky", 1, g, 0); L[2][0] = __vc_uf("cholesky", 2, g, 0);
        L[1][1] = __vc_uf("cholesky", 3, g, 0); L[2][1] = __vc_uf("cholesky", 4, g, 0); L[2][2] = __vc_uf("cholesky", 5, g, 0);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            double m = 0; for (int k = 0; k < 3; k++) m += L[i][k] * L[j][k];
            __vc_assert_eq(cov[i][j], kt * m, "covariance of the Brownian velocity is 2 kBT / dt times the matrix factorised");
        }
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) if (i > 2 || j > 2) __vc_assert_eq(cov[i][j], i == j ? kt / c : 0, "covariance of the Brownian velocity is 2 kBT / dt times the mobility");
    } else
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
        double m = 0, f = o.isImmovable ? 0 : kt;
        if (i < 3 && j < 3) m = (1 / a - 1 / b) * q[i] * q[j] + (i == j ? 1 / b : 0);
        else if (i == j) m = 1 / c;
        __vc_assert_eq(cov[i][j], f * m, "covariance of the Brownian velocity is 2 kBT / dt times the mobility");
    }
    sameBody(y, o, "bodies are not moved");
    for (int i : {VELCOL, OMEGACOL, VELBI, OMEGABI, VELNB, OMEGANB, FORCECOL, TORQUECOL, FORCEBI, TORQUEBI, FORCENB, TORQUENB}) for (int k = 0; k < 3; k++) __vc_assert_eq(vecOf(y, i)[k], vecOf(o, i)[k], "other parts are kept");
    __vc_cover("noise");
}
VC_HARNESS(layout) {   // any number of particles: the vector is the particles' velocities, nothing else changes
    Sys S; int g = S.g; base = S.p; mu0 = S.s.runConfig.viscosity; hot = 3; nDraw = 0; Sylinder o = S.p[g];
    S.s.rngPoolPtr = std::make_shared<TRngPool>(0); S.s.updateSylinderMap();
    S.s.calcVelocityBrown();
    Sylinder &y = S.p[g];
    __vc_assert(S.s.velocityBrownRcp->getLocalLength() == (size_t)(6 * S.n), "six entries per particle");
    for (int k = 0; k < 6; k++) __vc_assert_eq(S.s.velocityBrownRcp->d[6 * g + k], k < 3 ? y.velBrown[k] : y.omegaBrown[k - 3], "the vector of Brownian velocities has six entries per particle");
    if (o.isImmovable) for (int k = 0; k < 3; k++) { __vc_assert_eq(y.velBrown[k], 0, "immovable particles do not diffuse"); __vc_assert_eq(y.omegaBrown[k], 0, "immovable particles do not diffuse"); }
    sameBody(y, o, "bodies are not moved");
    for (int i : {VELCOL, OMEGACOL, VELBI, OMEGABI, VELNB, OMEGANB, FORCECOL, TORQUECOL, FORCEBI, TORQUEBI, FORCENB, TORQUENB}) for (int k = 0; k < 3; k++) __vc_assert_eq(vecOf(y, i)[k], vecOf(o, i)[k], "other parts are kept");
    __vc_cover("layout");
}
VC_HARNESS(moving) { noise(false); }
VC_HARNESS(immovable) { noise(true); }
