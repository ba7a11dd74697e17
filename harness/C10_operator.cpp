// Contracts of the constraint operator and of the bookkeeping of the constraint solver around the quadratic program.
// The linear operators are abstract: the image of a vector under an operator is an uninterpreted vector named by the
// operator and the vector it is applied to (vectors are identified by their value at a generic index).
#include "vc_deque.h"
#define VC_APPLY_GHOST
#include "vc_std.h"
#include "vc.h"
#include "Constraint/ConstraintSolver.cpp"
#include "Constraint/ConstraintOperator.cpp"
#include "Constraint/BCQPSolver.cpp"
#include "Constraint/ConstraintCollector.cpp"
#include "Trilinos/TpetraUtil.cpp"
#include "Util/Base64.cpp"
static void vc_push(void *, const ConstraintBlock &) {}
enum { OPD = 1, OPM = 2, OPT = 3 };   // D (forces from magnitudes), mobility, D transpose
static int nm, nc, gm, gc;            // sizes and generic indices of the velocity and of the constraint space
static int gc2;                       // second generic constraint (solver: gc unilateral, gc2 bilateral)
static int nk; static double kv[16], kw[16]; static int kt[16]; static bool ks[16];   // known vectors: values at the generic indices, name, space
static void known(double v, double w, int tag, bool con) { kv[nk] = v; kw[nk] = w; kt[nk] = tag; ks[nk] = con; nk++; }
static double image(int tag, int64_t i) { return __vc_uf("image", tag, i, 0); }
static int fresh = 1000;
static int64_t vc_opcode(int64_t id, bool trans) { return id == 2 ? OPM : (trans ? OPD : OPT); }
static bool vc_apply(int64_t id, bool trans, const double *x, size_t nx, double *y, size_t ny, double alpha, double beta) {
    if (__vc_native()) return false;
    const int op = (int)vc_opcode(id, trans); const bool con = op == OPD; const int g = con ? gc : gm, go = op == OPT ? gc : gm;
    __vc_assert(nx == (size_t)(con ? nc : nm) && ny == (size_t)(op == OPT ? nc : nm), "operator applied between the right spaces");
    int tag = ++fresh;
#pragma clang loop unroll(full)
    for (int k = 0; k < 16; k++) { if (k >= nk) break; if (ks[k] == con && __vc_same(x[g], kv[k]) && __vc_same(x[con ? gc2 : g], kw[k])) { tag = kt[k]; break; } }
    const int out = tag * 8 + op; known(image(out, go), image(out, op == OPT ? gc2 : go), out, op == OPT);
    if (beta == 0) { for (size_t i = 0; i < ny; i++) y[i] = alpha * image(out, i); }
    else { for (size_t i = 0; i < ny; i++) y[i] = alpha * image(out, i) + beta * y[i]; }
    return true;
}
struct Mob : public TOP {
    Teuchos::RCP<const TMAP> m;
    Teuchos::RCP<const TMAP> getDomainMap() const { return m; } Teuchos::RCP<const TMAP> getRangeMap() const { return m; }
    void apply(const TMV &X, TMV &Y, Teuchos::ETransp = Teuchos::NO_TRANS, double alpha = 1, double beta = 0) const {
        if (__vc_native()) { for (size_t i = 0; i < X.n; i++) Y.d[i] = alpha * (1 + 0.3 * (i % 3)) * X.d[i] + (beta == 0 ? 0 : beta * Y.d[i]); return; }
        Tpetra::vc_matvec(2, X.d, X.n, Y.d, Y.n, false, alpha, beta);
    }
};
static int sz(const char *nm_, int lo) { return (int)__vc_size(nm_, lo, 2, 6); }
static int ix(const char *nm_, int n) { int i = (int)__vc_int(nm_, 0, 1 << 28); if (__vc_native() && n) i %= n; __vc_assume(i < n); __vc_index(i); return i; }
static double *arr(const char *nm_, int n) { return (double *)__vc_buf(nm_, (int64_t)n * 8, 0); }
VC_HARNESS(apply) {
    nm = sz("nm", 1); nc = sz("nc", 1); __vc_assume(nm != nc); gm = ix("gm", nm); gc = gc2 = ix("gc", nc); nk = 0;
    const bool two = __vc_bool("two"); const int nv = two ? 2 : 1;
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); Teuchos::RCP<TMAP> mm = getTMAPFromLocalSize(nm, comm), mc = getTMAPFromLocalSize(nc, comm);
    Teuchos::RCP<Mob> mob(new Mob); mob->m = mm; Teuchos::RCP<TOP> top(mob.get());
    Teuchos::RCP<TCMAT> DT(new TCMAT(1, false, Teuchos::RCP<const TMAP>(mm.get()), Teuchos::RCP<const TMAP>(mc.get())));
    Teuchos::RCP<TV> ik(new TV(mc, arr("ik", nc)));
    ConstraintOperator A(top, DT, ik);
    TMV X(mc, nv), Y(mc, nv); X.d = arr("x", nv * nc); Y.d = arr("y", nv * nc);
    double alpha = __vc_real("alpha"), beta = __vc_bool("beta0") ? 0 : __vc_real("beta");
    const int c = two && __vc_bool("second") ? 1 : 0;
    double x0 = X.d[c * nc + gc], y0 = Y.d[c * nc + gc]; if (two) __vc_index(nc + gc);
    known(X.d[gc], X.d[gc], 1, true); if (two) known(X.d[nc + gc], X.d[nc + gc], 2, true);
    double want;
    if (__vc_native()) {
        std::vector<double> f(nm), v(nm); want = 0;
        for (int i = 0; i < nm; i++) { f[i] = 0; for (int k = 0; k < nc; k++) f[i] += __vc_uf("mat", 1, k, i) * X.d[c * nc + k]; v[i] = (1 + 0.3 * (i % 3)) * f[i]; }
        for (int i = 0; i < nm; i++) want += __vc_uf("mat", 1, gc, i) * v[i];
    } else want = image((((1 + c) * 8 + OPD) * 8 + OPM) * 8 + OPT, gc);
    __vc_assert(A.getDomainMap()->isSameAs(*mc) && A.getRangeMap()->isSameAs(*mc), "operator acts on the constraint space");
    A.apply(X, Y, Teuchos::NO_TRANS, alpha, beta);
    __vc_assert_eq(Y.d[c * nc + gc], alpha * (want + ik->d[gc] * x0) + beta * y0, "Y = alpha (D^T M D + K^-1) X + beta Y");
    __vc_assert_eq(X.d[c * nc + gc], x0, "input is not changed"); __vc_cover(two ? "two columns" : "one column"); if (beta == 0) __vc_cover("beta 0");
    if (!two) {
        if (__vc_native()) return;
        __vc_assert_eq(A.getForce()->d[gm], image(8 + OPD, gm), "force of the last application"); __vc_assert_eq(A.getVel()->d[gm], image((8 + OPD) * 8 + OPM, gm), "velocity of the last application");
    }
}

// ---- solver bookkeeping ----
static double *sol, *gd0, *gik, *gbi, *ggam; static double sd0, sik, sbi, sgam; static Teuchos::RCP<TMAP> mcon, mmob; static int nsolve, nwb, choice, itmax; static double tolr; static ConstraintSolver *cs; static const void *pool;
enum { TVNC = 1, TSOL = 2, TBI = 3 };
static Teuchos::RCP<TV> vc_(const Teuchos::RCP<TMAP> &m, double *d) { return Teuchos::RCP<TV>(new TV(Teuchos::RCP<const TMAP>(m.get()), d)); }
extern "C" int ct_build(const ConstraintCollector *c, Teuchos::RCP<const TMAP> &mobMap, Teuchos::RCP<TCMAT> &D, Teuchos::RCP<TV> &d0, Teuchos::RCP<TV> &ik, Teuchos::RCP<TV> &bi, Teuchos::RCP<TV> &g) {
    __vc_assert(mobMap.get() == mmob.get(), "constraint rows are built over the mobility map"); __vc_assert(c->constraintPoolPtr.get() == pool, "constraints given to the solver are the ones assembled");
    D = Teuchos::RCP<TCMAT>(new TCMAT(1, false, Teuchos::RCP<const TMAP>(mmob.get()), Teuchos::RCP<const TMAP>(mcon.get())));
    d0 = vc_(mcon, gd0); ik = vc_(mcon, gik); bi = vc_(mcon, gbi); g = vc_(mcon, ggam); return 0;
}
static int record(const BCQPSolver *s, Teuchos::RCP<TV> &x, double tol, int iteMax, IteHistory &h, int which) {
    nsolve++;
    __vc_assert((const TOP *)s->ARcp.get() == (const TOP *)cs->MOpRcp.get(), "the quadratic program uses the constraint operator");
    __vc_assert(which == (choice == 1 ? 1 : 0), "the chosen solver is used"); __vc_assert(iteMax == itmax, "iteration limit passed on"); __vc_assert_eq(tol, tolr, "tolerance passed on");
    __vc_assert_eq(s->bRcp->d[gc], sd0 / cs->dt + image(TVNC * 8 + OPT, gc), "q is the separation over the step plus the normal velocity of the free motion");
    __vc_assert_eq(x->d[gc], sgam, "initial guess is the one of the constraints");
    if (gc2 != gc) __vc_assert_le(s->lbRcp->d[gc2], -1e8, "bilateral forces are free below");
    if (sbi == 0) { __vc_assert_eq(s->lbRcp->d[gc], 0, "unilateral forces are not negative"); __vc_cover("unilateral"); } else { __vc_assert_le(s->lbRcp->d[gc], -1e8, "bilateral forces are free below"); __vc_cover("bilateral"); }
    __vc_assert_le(1e8, s->ubRcp->d[gc], "forces are free above");
    x = vc_(mcon, sol); std::array<double, 6> r{{0, 0, 0, 0, 0, 0}}; h.push_back(r);
    return 0;
}
extern "C" int ct_bbpgd(const BCQPSolver *s, Teuchos::RCP<TV> &x, double tol, int iteMax, IteHistory &h) { return record(s, x, tol, iteMax, h, 0); }
extern "C" int ct_apgd(const BCQPSolver *s, Teuchos::RCP<TV> &x, double tol, int iteMax, IteHistory &h) { return record(s, x, tol, iteMax, h, 1); }
extern "C" int ct_wb(ConstraintCollector *c, const Teuchos::RCP<const TV> &g) { nwb++; __vc_assert(c->constraintPoolPtr.get() == pool, "forces go back to the constraints that were solved"); __vc_assert(g->getLocalLength() == (size_t)nc, "one force per constraint"); __vc_assert_eq(g->d[gc], sol[gc], "the solution is what is written back"); return 0; }
static void nativeSolve() {
    int nb = 3; Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); mmob = getTMAPFromLocalSize(6 * nb, comm); Teuchos::RCP<Mob> mob(new Mob); mob->m = mmob; Teuchos::RCP<TOP> top(mob.get());
    ConstraintCollector c; c.constraintPoolPtr->clear(); c.constraintPoolPtr->resize(2); int k = (int)__vc_int("blocks", 1, 4); ConstraintBlock *B = (ConstraintBlock *)__vc_buf("blk", (int64_t)sizeof(ConstraintBlock) * k, 0);
    for (int i = 0; i < k; i++) { B[i].globalIndexI = (int)__vc_int("gi", 0, nb - 1); B[i].globalIndexJ = (B[i].globalIndexI + 1) % nb; B[i].oneSide = __vc_bool("one"); B[i].bilateral = __vc_bool("bi"); B[i].kappa = __vc_pos("kappa"); B[i].gamma = B[i].delta0 < 0 ? -B[i].delta0 : 0; for (int a = 0; a < 9; a++) B[i].stress[a] = 1; }
    int h = (int)__vc_int("split", 0, k); (*c.constraintPoolPtr)[0].d = B; (*c.constraintPoolPtr)[0].n = h; (*c.constraintPoolPtr)[1].d = B + h; (*c.constraintPoolPtr)[1].n = k - h;
    Teuchos::RCP<TV> vnc = vc_(mmob, (double *)__vc_buf("vnc", 6 * nb * 8, 0)); double dt = __vc_pos("dt"); if (dt < 0.01 || dt > 100) return;
    ConstraintSolver S; S.setup(c, top, vnc, dt); choice = (int)__vc_int("choice", 0, 2); S.setControlParams(1e-6, (int)__vc_int("ite", 1, 40), choice); 
    std::vector<double> D0(k), IK(k), Q(k);
    for (int i = 0; i < k; i++) { D0[i] = B[i].delta0 / dt; double s = 0; for (size_t e = S.DMatTransRcp->rp[i]; e < S.DMatTransRcp->rp[i + 1]; e++) s += S.DMatTransRcp->va[e] * vnc->d[S.DMatTransRcp->colMap->getGlobalElement(S.DMatTransRcp->ci[e])];
        __vc_assert_eq(S.qRcp->d[i], D0[i] + s, "q is the separation over the step plus the normal velocity of the free motion"); __vc_assert_eq(S.invKappaRcp->d[i], B[i].bilateral && B[i].kappa > 0 ? 1 / B[i].kappa / dt : 0, "compliance over the step"); }
    S.solveConstraints(); S.writebackGamma();
    std::vector<double> F(6 * nb), FB(6 * nb);
    for (int i = 0; i < k; i++) { if (std::isnan(S.gammaRcp->d[i])) return; if (!B[i].bilateral) __vc_assert(S.gammaRcp->d[i] >= 0, "unilateral forces are not negative"); __vc_assert_eq(B[i].gamma, S.gammaRcp->d[i], "the solution is what is written back"); __vc_assert_eq(B[i].stress[3], S.gammaRcp->d[i], "the solution is what is written back"); }
    for (int i = 0; i < k; i++) for (size_t e = S.DMatTransRcp->rp[i]; e < S.DMatTransRcp->rp[i + 1]; e++) { int r = S.DMatTransRcp->colMap->getGlobalElement(S.DMatTransRcp->ci[e]); double f = S.DMatTransRcp->va[e] * B[i].gamma; F[r] += f; if (B[i].bilateral) FB[r] += f; }
    for (int r = 0; r < 6 * nb; r++) { double m = 1 + 0.3 * (r % 3);
        __vc_assert_eq(S.getForceBi()->d[r], FB[r], "bilateral force is D times the bilateral magnitudes"); __vc_assert_eq(S.getForceUni()->d[r] + S.getForceBi()->d[r], F[r], "both forces add up to D times the magnitudes");
        __vc_assert_eq(S.getVelocityBi()->d[r], m * FB[r], "bilateral velocity is the mobility times the bilateral force"); __vc_assert_eq(S.getVelocityUni()->d[r] + S.getVelocityBi()->d[r], m * F[r], "both velocities add up to the mobility times the force"); }
    __vc_cover("native solve");
}
VC_HARNESS(solve) {
    if (__vc_native()) { nativeSolve(); return; }
    nm = sz("nm", 1); nc = sz("nc", 1); __vc_assume(nm != nc); gm = ix("gm", nm); gc = ix("gc", nc); nk = 0; nsolve = nwb = 0;
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); mmob = getTMAPFromLocalSize(nm, comm); mcon = getTMAPFromLocalSize(nc, comm);
    Teuchos::RCP<Mob> mob(new Mob); mob->m = mmob; Teuchos::RCP<TOP> top(mob.get());
    gd0 = arr("d0", nc); gik = arr("ik", nc); gbi = arr("bi", nc); ggam = arr("gam", nc); sol = arr("sol", nc); double *pv = arr("vnc", nm);
    // constraints: of both kinds (gc unilateral, gc2 bilateral), all unilateral, or all bilateral
    const bool both = __vc_bool("both kinds"), allb = both ? false : __vc_bool("all bilateral"); gc2 = gc;
    if (both) { gc2 = ix("gc2", nc); __vc_assume(gc2 != gc); __vc_assume(gbi[gc] == 0); __vc_assume(gbi[gc2] == 1); sbi = 0; __vc_cover("both kinds"); }
    else { sbi = allb ? 1 : 0; __vc_assume(gbi[gc] == sbi); __vc_cover(allb ? "all bilateral" : "all unilateral"); }
    sd0 = gd0[gc]; sik = gik[gc]; sgam = ggam[gc]; const double sd2 = gd0[gc2]; const int TB = !both && allb ? TSOL : TBI;
    Teuchos::RCP<TV> vnc = vc_(mmob, pv);
    known(pv[gm], 0, TVNC, false); kw[0] = pv[gm]; known(sol[gc], sol[gc2], TSOL, true); known(both || !allb ? 0 : sol[gc], both ? sol[gc2] : allb ? sol[gc] : 0, TB, true);
    ConstraintCollector *c = new ConstraintCollector; pool = c->constraintPoolPtr.get();
    double dt = __vc_pos("dt"); cs = new ConstraintSolver; cs->setup(*c, top, vnc, dt);
    tolr = __vc_pos("tol"); itmax = (int)__vc_int("ite", 0, 1 << 30); choice = (int)__vc_int("choice", -10, 10); cs->setControlParams(tolr, itmax, choice);
    __vc_assert_eq(cs->invKappaRcp->d[gc] * dt, sik, "compliance over the step"); __vc_assert(cs->MOpRcp->invKappa.get() == cs->invKappaRcp.get() && cs->MOpRcp->mobOpRcp.get() == top.get(), "operator uses the compliance and the mobility");
    cs->solveConstraints(); cs->writebackGamma();
    __vc_assert(nsolve == 1 && nwb == 1, "one solve and one write back");
    const double fb = image(TB * 8 + OPD, gm), f = image(TSOL * 8 + OPD, gm), vb = image((TB * 8 + OPD) * 8 + OPM, gm), v = image((TSOL * 8 + OPD) * 8 + OPM, gm);
    __vc_assert_eq(cs->getForceBi()->d[gm], fb, "bilateral force is D times the bilateral magnitudes"); __vc_assert_eq(cs->getForceUni()->d[gm] + cs->getForceBi()->d[gm], f, "both forces add up to D times the magnitudes");
    __vc_assert_eq(cs->getVelocityBi()->d[gm], vb, "bilateral velocity is the mobility times the bilateral force"); __vc_assert_eq(cs->getVelocityUni()->d[gm] + cs->getVelocityBi()->d[gm], v, "both velocities add up to the mobility times the force");
    __vc_cover("solve");
}
