// Contracts of the bound-constrained quadratic program solver: projection, residual, default bounds, and both iterations.
#include "vc_std.h"
#define VC_APPLY_GHOST
#include "vc.h"
#include "Constraint/BCQPSolver.cpp"
#include "Trilinos/TpetraUtil.cpp"
// the operator: its k-th application gives the vector image(k); the argument is remembered at the generic index
static int n, g; static int64_t serial; static double lastX; static double lastRec[6]; static int nrec;
static double image(int64_t k, int64_t i) { return __vc_uf("image", k, i, 0); }
static bool vc_apply(int64_t, bool, const double *x, size_t, double *y, size_t ny, double, double) {
    if (__vc_native()) return false;
    serial = serial + 1; lastX = x[g];
    for (size_t i = 0; i < ny; i++) y[i] = image(serial, i);
    return true;
}
struct Op : public TOP {
    Teuchos::RCP<const TMAP> m; double c = 1;
    Teuchos::RCP<const TMAP> getDomainMap() const { return m; } Teuchos::RCP<const TMAP> getRangeMap() const { return m; }
    void apply(const TMV &X, TMV &Y, Teuchos::ETransp = Teuchos::NO_TRANS, double alpha = 1, double beta = 0) const {
        __vc_assert(alpha == 1 && beta == 0, "plain product");
        if (__vc_native()) { for (size_t i = 0; i < X.n; i++) Y.d[i] = (1 + c * (i % 3)) * X.d[i] + (i ? 0.2 * X.d[i - 1] : 0) + (i + 1 < X.n ? 0.2 * X.d[i + 1] : 0); return; }
        vc_apply(1, false, X.d, X.n, Y.d, Y.n, 1, 0);
    }
};
extern "C" void ct_push(IteHistory *, const std::array<double, 6> &r) { nrec = nrec + 1; for (int k = 0; k < 6; k++) lastRec[k] = r[k]; }
// Iterations: library vector operations act on every component alike, so one arbitrary component is followed (n = 1 stands for
// it); products and norms over all components are arbitrary numbers; the residual is used through its own contract.
static int64_t ndot, nres; static double resX, resY, resV;
extern "C" double ct_dot(const TV *, const TV &) { ndot = ndot + 1; return __vc_uf("dot", ndot, 0, 0); }
extern "C" double ct_norm(const TV *) { ndot = ndot + 1; double v = __vc_uf("norm", ndot, 0, 0); __vc_assume(v >= 0); return v; }
static double pg(double x, double y, double l, double u);
extern "C" double ct_residual(const BCQPSolver *s, const Teuchos::RCP<const TV> &x, const Teuchos::RCP<const TV> &y, const Teuchos::RCP<TV> &q) {
    nres = nres + 1; resX = x->d[0]; resY = y->d[0]; resV = __vc_uf("residual", nres, 0, 0); __vc_assume(resV >= 0);
    q->d[0] = __vc_uf("pg", nres, 0, 0); return resV;
}
static int64_t nproj;
extern "C" void ct_project(const BCQPSolver *s, Teuchos::RCP<TV> &v) { // contract proved by the harness "project"
    nproj = nproj + 1; double z = __vc_uf("proj", nproj, 0, 0); __vc_assume(s->lbRcp->d[0] <= z); __vc_assume(z <= s->ubRcp->d[0]); v->d[0] = z;
}
static double *arr(const char *nm_) { return (double *)__vc_buf(nm_, (int64_t)n * 8, 0); }
static double *plb, *pub, *pb; static Teuchos::RCP<TMAP> mp;
static Teuchos::RCP<TV> vec(double *d) { return Teuchos::RCP<TV>(new TV(Teuchos::RCP<const TMAP>(mp.get()), d)); }
static BCQPSolver *make(bool one = false) {
    if (one && VC_SYMBOLIC) { n = 1; g = 0; ndot = nres = nproj = 0; } else { n = (int)__vc_size("n", 1, 2, 5); g = (int)__vc_int("g", 0, 1 << 28); } if (__vc_native()) g %= n; __vc_assume(g < n); __vc_index(g);
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); mp = getTMAPFromLocalSize(n, comm);
    Op *o = new Op; o->m = mp; if (__vc_native()) o->c = __vc_realin("c", 0, 3); pb = arr("b");
    serial = 0; nrec = 0;
    return new BCQPSolver(Teuchos::RCP<const TOP>(o), Teuchos::RCP<const TV>(new TV(Teuchos::RCP<const TMAP>(mp.get()), pb)));
}
static void bounds(BCQPSolver *s) {
    plb = arr("lb"); pub = arr("ub");
    if (__vc_native()) for (int i = 0; i < n; i++) { double w = std::fabs(pub[i]); pub[i] = plb[i] + w; }
    __vc_assume(plb[g] <= pub[g]); s->setLowerBound(vec(plb)); s->setUpperBound(vec(pub));
}
// projected gradient (Dai & Fletcher 2005, eq. 2.2)
static double pg(double x, double y, double l, double u) { const double eps = std::numeric_limits<double>::epsilon() * 100; return x <= l + eps ? (y < 0 ? y : 0) : x >= u - eps ? (y > 0 ? y : 0) : y; }
VC_HARNESS(defaults) {
    BCQPSolver *s = make();
    __vc_assert_le(s->lbRcp->d[g], -1e300, "no lower bound unless set"); __vc_assert_le(1e300, s->ubRcp->d[g], "no upper bound unless set");
    __vc_assert(s->lbRcp->getLocalLength() == (size_t)n && s->ubRcp->getLocalLength() == (size_t)n, "one bound per unknown");
    bounds(s); s->prepareSolver(); __vc_assert(s->lbRcp->d == plb && s->ubRcp->d == pub, "bounds that were set are kept"); __vc_cover("defaults");
}
VC_HARNESS(project) {
    BCQPSolver *s = make(); bounds(s); double *x = arr("x"); double x0 = x[g], l = plb[g], u = pub[g]; Teuchos::RCP<TV> v = vec(x);
    s->boundProjection(v);
    __vc_assert_eq(v->d[g], x0 < l ? l : x0 > u ? u : x0, "projection moves each entry to the nearest value within its bounds"); __vc_assert(plb[g] == l && pub[g] == u, "bounds are not changed");
    __vc_cover(x0 < l ? "below" : x0 > u ? "above" : "inside");
}
VC_HARNESS(residual) {
    BCQPSolver *s = make(); bounds(s); double *x = arr("x"), *y = arr("y"), *q = arr("q");
    if (__vc_native()) for (int i = 0; i < n; i++) { if (x[i] < plb[i] || i % 3 == 0) x[i] = plb[i]; if (x[i] > pub[i] || i % 3 == 1) x[i] = pub[i]; }
    double r = s->checkProjectionResidual(Teuchos::RCP<const TV>(vec(x).get()), Teuchos::RCP<const TV>(vec(y).get()), vec(q));
    double sum = 0; for (int i = 0; i < n; i++) sum += q[i] * q[i];
    __vc_assert_eq(r * r, sum, "residual is the norm of the projected gradient"); __vc_assert(r >= 0, "not negative");
    __vc_assert_eq(q[g], pg(x[g], y[g], plb[g], pub[g]), "projected gradient"); __vc_cover("residual");
}
static void solver(bool bb) {
    BCQPSolver *s = make(true); bounds(s); double *x0 = arr("x0"); if (__vc_native()) for (int i = 0; i < n; i++) { if (x0[i] < plb[i]) x0[i] = plb[i]; if (x0[i] > pub[i]) x0[i] = pub[i]; }
    const double xg = x0[g]; __vc_assume(plb[g] <= xg); __vc_assume(xg <= pub[g]);
    double tol = __vc_native() ? 1e-6 : __vc_pos("tol"); int ite = (int)__vc_int("ite", 1, __vc_native() ? 60 : 1 << 28);
    Teuchos::RCP<TV> x = vec(x0); IteHistory h;
    int rc = bb ? s->solveBBPGD(x, tol, ite, h) : s->solveAPGD(x, tol, ite, h);
    if (__vc_native()) { nrec = h.size(); for (int k = 0; k < 6; k++) lastRec[k] = h.back()[k]; for (int i = 0; i < n; i++) if (std::isnan(x->d[i])) return; }
    __vc_assert(x->getLocalLength() == (size_t)n, "one value per unknown");
    if (!bb && rc != 0) { __vc_cover("stagnation"); return; }
    __vc_assert_le(plb[g], x->d[g], "solution not below the lower bound"); __vc_assert_le(x->d[g], pub[g], "solution not above the upper bound");
    __vc_assert_eq(x0[g], xg, "initial guess is not overwritten"); __vc_assert(nrec >= 1, "the last residual is recorded"); __vc_assert_le(lastRec[0], ite, "not more iterations than allowed");
    const bool conv = lastRec[4] < tol;
    if (!conv) { __vc_assert(rc == 1 || lastRec[0] == ite, "stops early only on convergence or stagnation"); __vc_cover("not converged"); if (!bb) return; } else { __vc_assert(rc == 0, "success is reported"); __vc_cover("converged"); }
    if (!bb && nrec == 1) return;
    double sum = 0;
    if (__vc_native()) { TV y(x->map); s->ARcp->apply(*x, y); for (int i = 0; i < n; i++) { double t = pg(x->d[i], y.d[i] + pb[i], plb[i], pub[i]); sum += t * t; } __vc_assert(std::fabs(std::sqrt(sum) - lastRec[4]) <= 1e-6 * (1 + std::sqrt(sum)), "recorded residual is the one of the returned solution"); return; }
    __vc_assert_eq(x->d[0], lastX, "the operator was last applied to the returned solution"); __vc_assert_eq(x->d[0], resX, "residual was computed for the returned solution");
    __vc_assert_eq(resY, image(serial, 0) + pb[0], "residual uses the gradient at the solution"); __vc_assert_eq(lastRec[4], resV, "recorded residual is the one of the returned solution");
}
VC_HARNESS(bbpgd) { solver(true); }
VC_HARNESS(apgd) { solver(false); }
