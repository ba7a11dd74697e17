// A SylinderSystem in an arbitrary state: n local particles with arbitrary contents.
#include "vc_std.h"
#include "vc.h"
#include "Sylinder/SylinderSystem.cpp"
#include "Sylinder/Sylinder.cpp"
#include "Sylinder/SylinderConfig.cpp"
#include "Boundary/Boundary.cpp"
#include "Trilinos/TpetraUtil.cpp"
#include "Constraint/ConstraintCollector.cpp"
#include "Constraint/ConstraintOperator.cpp"
#include "Constraint/ConstraintSolver.cpp"
#include "Constraint/BCQPSolver.cpp"
#include "Util/Base64.cpp"
#include "vc_yaml_impl.h"
struct Sys {
    SylinderSystem s; int n, g;   // g: a generic particle
    Sylinder *p;
    Sys(int nmax = 4, int fixed = 0) {
        n = fixed ? fixed : (int)__vc_size("n", 1, 2, nmax);
        p = (Sylinder *)__vc_buf("sy", (int64_t)sizeof(Sylinder) * n, 0);
        if (__vc_native()) for (int i = 0; i < n; i++) nativeFill(p[i], i);
        s.sylinderContainer.ptcl_ = p; s.sylinderContainer.n_ = n;
        s.commRcp = Teuchos::rcp(new Teuchos::MpiComm<int>(0));
        g = (int)__vc_int("g", 0, 1 << 30); if (__vc_native()) g %= n; __vc_assume(g < n); __vc_index(g);
        s.stepCount = (int)__vc_int("stepCount", 0, 1 << 20);
        s.runConfig.dt = __vc_pos("dt"); s.runConfig.viscosity = __vc_pos("viscosity"); s.runConfig.KBT = __vc_pos("kbt"); s.runConfig.monolayer = __vc_bool("monolayer");
        s.runConfig.sylinderFixed = __vc_bool("fixed"); s.runConfig.linkKappa = __vc_pos("kappa"); s.runConfig.linkGap = __vc_realin("gap", 0, 4); s.runConfig.sylinderColBuf = __vc_pos("colBuf");
        s.runConfig.sylinderDiameterColRatio = __vc_pos("dratio"); s.runConfig.sylinderLengthColRatio = __vc_pos("lratio");
        for (int k = 0; k < 3; k++) { s.runConfig.simBoxLow[k] = __vc_real("boxlo"); s.runConfig.simBoxHigh[k] = s.runConfig.simBoxLow[k] + __vc_pos("boxsize"); s.runConfig.simBoxPBC[k] = __vc_bool("pbc"); }
    }
    static void nativeFill(Sylinder &y, int i) {
        y.gid = (int)__vc_int("gid", 0, 1000); y.globalIndex = i; y.rank = 0; y.group = 0; y.isImmovable = __vc_bool("immovable");
        y.radius = __vc_pos("r"); y.radiusCollision = __vc_pos("rc"); y.length = __vc_pos("l"); y.lengthCollision = __vc_pos("lc"); y.radiusSearch = 1; y.sepmin = 1; y.colBuf = __vc_pos("cb");
        __vc_unit4(y.orientation, "q");
    }
    // particle i has a unit quaternion (native runs fill all of them with unit quaternions)
    void unitAt(int i) { double *q = p[i].orientation; if (!__vc_native()) __vc_assume(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] == 1); }
};
// all 18 velocity and force vectors of a particle
static double *vecOf(Sylinder &a, int i) {
    double *v[] = {a.vel, a.omega, a.velCol, a.omegaCol, a.velBi, a.omegaBi, a.velNonB, a.omegaNonB, a.velBrown, a.omegaBrown, a.force, a.torque, a.forceCol, a.torqueCol, a.forceBi, a.torqueBi, a.forceNonB, a.torqueNonB};
    return v[i];
}
enum { VEL, OMEGA, VELCOL, OMEGACOL, VELBI, OMEGABI, VELNB, OMEGANB, VELB, OMEGAB, FORCE, TORQUE, FORCECOL, TORQUECOL, FORCEBI, TORQUEBI, FORCENB, TORQUENB };
static void sameBody(Sylinder &a, Sylinder &b, const char *what) {
    for (int k = 0; k < 3; k++) __vc_assert_eq(a.pos[k], b.pos[k], what);
    for (int k = 0; k < 4; k++) __vc_assert_eq(a.orientation[k], b.orientation[k], what);
    __vc_assert_eq(a.radius, b.radius, what); __vc_assert_eq(a.length, b.length, what);
    __vc_assert(a.gid == b.gid && a.group == b.group && a.isImmovable == b.isImmovable, what);
}
