// Contracts of the bookkeeping of forces and velocities between the solver vectors and the particles.
#include "vc_system.h"
static Teuchos::RCP<TV> vec(const char *n, const Teuchos::RCP<TMAP> &m) {
    double *d = (double *)__vc_buf(n, (int64_t)m->getNodeNumElements() * 8, 0);
    return Teuchos::RCP<TV>(new TV(m, d));
}
VC_HARNESS(sum) {
    Sys S; Sylinder o = S.p[S.g];
    S.s.sumForceVelocity();
    Sylinder &a = S.p[S.g];
    for (int k = 0; k < 3; k++) {
        __vc_assert_eq(a.vel[k], o.velNonB[k] + o.velBrown[k] + o.velCol[k] + o.velBi[k], "velocity is the sum of non-Brownian, Brownian, collision and bilateral parts");
        __vc_assert_eq(a.omega[k], o.omegaNonB[k] + o.omegaBrown[k] + o.omegaCol[k] + o.omegaBi[k], "angular velocity is the sum of its parts");
        __vc_assert_eq(a.force[k], o.forceNonB[k] + o.forceCol[k] + o.forceBi[k], "force is the sum of non-Brownian, collision and bilateral parts");
        __vc_assert_eq(a.torque[k], o.torqueNonB[k] + o.torqueCol[k] + o.torqueBi[k], "torque is the sum of its parts");
    }
    for (int i : {VELCOL, OMEGACOL, VELBI, OMEGABI, VELNB, OMEGANB, VELB, OMEGAB, FORCECOL, TORQUECOL, FORCEBI, TORQUEBI, FORCENB, TORQUENB}) for (int k = 0; k < 3; k++) __vc_assert_eq(vecOf(a, i)[k], vecOf(o, i)[k], "the parts are kept");
    sameBody(a, o, "bodies are not moved");
    __vc_cover("sum");
}
VC_HARNESS(save) {
    Sys S; Sylinder o = S.p[S.g];
    Teuchos::RCP<TMAP> m = getTMAPFromLocalSize(6 * S.n, S.s.commRcp);
    auto sol = std::make_shared<ConstraintSolver>(); S.s.conSolverPtr = sol;
    Teuchos::RCP<TV> fu = vec("fu", m), vu = vec("vu", m), fb = vec("fb", m), vb = vec("vb", m);
    sol->forceuRcp = fu; sol->veluRcp = vu; sol->forcebRcp = fb; sol->velbRcp = vb;
    S.s.saveForceVelocityConstraints();
    Sylinder &a = S.p[S.g];
    for (int k = 0; k < 3; k++) {
        __vc_assert_eq(a.velCol[k], vu->d[6 * S.g + k], "collision velocity"); __vc_assert_eq(a.omegaCol[k], vu->d[6 * S.g + 3 + k], "collision angular velocity");
        __vc_assert_eq(a.velBi[k], vb->d[6 * S.g + k], "bilateral velocity"); __vc_assert_eq(a.omegaBi[k], vb->d[6 * S.g + 3 + k], "bilateral angular velocity");
        __vc_assert_eq(a.forceCol[k], fu->d[6 * S.g + k], "collision force"); __vc_assert_eq(a.torqueCol[k], fu->d[6 * S.g + 3 + k], "collision torque");
        __vc_assert_eq(a.forceBi[k], fb->d[6 * S.g + k], "bilateral force"); __vc_assert_eq(a.torqueBi[k], fb->d[6 * S.g + 3 + k], "bilateral torque");
    }
    for (int i : {VELNB, OMEGANB, VELB, OMEGAB, FORCENB, TORQUENB}) for (int k = 0; k < 3; k++) __vc_assert_eq(vecOf(a, i)[k], vecOf(o, i)[k], "parts not computed by the constraint solver are kept");
    sameBody(a, o, "bodies are not moved");
    __vc_assert(S.s.getForceUni().get() == fu.get() && S.s.getVelocityUni().get() == vu.get() && S.s.getForceBi().get() == fb.get() && S.s.getVelocityBi().get() == vb.get(), "solver results stay accessible");
    __vc_cover("save");
}
static bool planar(int c) { return c == 2 || c == 3 || c == 4; }   // components that vanish in a monolayer: vz, omega_x, omega_y
VC_HARNESS(noncon) {
    Sys S; Sylinder o = S.p[S.g]; bool hasF = __vc_bool("hasF"), hasV = __vc_bool("hasV"), hasB = __vc_bool("hasB"), mono = S.s.runConfig.monolayer;
    Teuchos::RCP<TMAP> m = getTMAPFromLocalSize(6 * S.n, S.s.commRcp); S.s.sylinderMobilityMapRcp = m;
    Teuchos::RCP<TV> F = vec("F", m), V = vec("V", m), B = vec("B", m);
    double v0[6], b0[6]; for (int c = 0; c < 6; c++) { v0[c] = V->d[6 * S.g + c]; b0[c] = B->d[6 * S.g + c]; }
    if (hasF) S.s.forcePartNonBrownRcp = F; if (hasV) S.s.velocityPartNonBrownRcp = V; if (hasB) S.s.velocityBrownRcp = B;
    S.s.mobilityOperatorRcp = Teuchos::rcp(new TCMAT(1, false, m, m));
    S.s.calcVelocityNonCon();
    Sylinder &a = S.p[S.g];
    for (int c = 0; c < 6; c++) {
        double mf = 0; for (size_t j = 0; j < (size_t)(6 * S.n); j++) mf += __vc_uf("mat", 1, 6 * S.g + c, (int64_t)j) * F->d[j];
        double zero = mono && planar(c) ? 0 : 1, nb = (hasF ? zero * mf : 0) + (hasV ? zero * v0[c] : 0);
        __vc_assert_eq(c < 3 ? a.velNonB[c] : a.omegaNonB[c - 3], nb, "non-Brownian velocity is mobility times given force plus given velocity");
        __vc_assert_eq(S.s.getVelocityNonCon()->d[6 * S.g + c], nb + (hasB ? zero * b0[c] : 0), "velocity without constraints adds the Brownian velocity");
        double f = c < 3 ? a.forceNonB[c] : a.torqueNonB[c - 3], f0 = c < 3 ? o.forceNonB[c] : o.torqueNonB[c - 3];
        __vc_assert_eq(f, hasF ? F->d[6 * S.g + c] : f0, "given force is stored in the particle");
    }
    sameBody(a, o, "bodies are not moved");
    __vc_cover("noncon"); if (mono) __vc_cover("monolayer");
}
VC_HARNESS(setforce) {
    Sys S; S.s.sylinderMobilityMapRcp = getTMAPFromLocalSize(6 * S.n, S.s.commRcp);
    double *d = (double *)__vc_buf("given", (int64_t)S.n * 48, 0);
    std::vector<double> v(d, d + 6 * S.n);
    bool vel = __vc_bool("vel");
    if (vel) S.s.setVelocityNonBrown(v); else S.s.setForceNonBrown(v);
    Teuchos::RCP<TV> r = vel ? S.s.getVelocityPartNonBrown() : S.s.getForcePartNonBrown(), other = vel ? S.s.getForcePartNonBrown() : S.s.getVelocityPartNonBrown();
    __vc_assert(other.is_null(), "only the given quantity is set");
    __vc_assert(r->getLocalLength() == (size_t)(6 * S.n), "six components per particle");
    for (int c = 0; c < 6; c++) __vc_assert_eq(r->d[6 * S.g + c], d[6 * S.g + c], "given values are kept in particle order");
    __vc_cover("setforce");
}
// what a step does between the given velocities and the motion: the constraint parts are those of the solver
VC_HARNESS(mono) {
    Sys S; S.s.runConfig.monolayer = true; Sylinder o = S.p[S.g]; int g = S.g;
    Teuchos::RCP<TMAP> m = getTMAPFromLocalSize(6 * S.n, S.s.commRcp); S.s.sylinderMobilityMapRcp = m;
    Teuchos::RCP<TV> V = vec("V", m), B = vec("B", m); S.s.velocityPartNonBrownRcp = V; S.s.velocityBrownRcp = B;
    for (int k = 0; k < 3; k++) { S.p[g].velBrown[k] = B->d[6 * g + k]; S.p[g].omegaBrown[k] = B->d[6 * g + 3 + k]; }   // as calcVelocityBrown leaves them
    S.s.calcVelocityNonCon();
    S.s.sumForceVelocity();
    Sylinder &a = S.p[g];
    __vc_assert_eq(a.vel[2], o.velCol[2] + o.velBi[2], "no out-of-plane velocity except from the constraints");
    for (int k = 0; k < 2; k++) __vc_assert_eq(a.omega[k], o.omegaCol[k] + o.omegaBi[k], "no out-of-plane rotation except from the constraints");
    for (int k = 0; k < 6; k++) __vc_assert_eq(k < 3 ? a.vel[k] : a.omega[k - 3], S.s.getVelocityNonCon()->d[6 * g + k] + (k < 3 ? o.velCol[k] + o.velBi[k] : o.omegaCol[k - 3] + o.omegaBi[k - 3]), "the body moves with the velocity the constraints were solved for plus the constraint velocity");
    __vc_cover("mono");
}
