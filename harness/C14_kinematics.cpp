// Contracts of the rigid-body kinematics: quaternion rotation, Euler step, quaternion helper matrices.
#include "vc_std.h"
#include "vc.h"
#include "Sylinder/Sylinder.cpp"
static double dot3(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
struct Q4 { double w, x, y, z; };
static Q4 hamilton(const Q4 &a, const Q4 &b) {
    return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
            a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
static const double TH = std::numeric_limits<float>::epsilon();
// r (the code's result) is the rotation by omega*dt applied after q
static void rotated(const Q4 &q, const double *om, double dt, const Q4 &r) {
    double w2 = dot3(om, om), w = std::sqrt(w2);
    if (w < TH) {
        __vc_assert_eq(r.w, q.w, "negligible angular velocity leaves the orientation unchanged"); __vc_assert_eq(r.x, q.x, "negligible angular velocity leaves the orientation unchanged");
        __vc_assert_eq(r.y, q.y, "negligible angular velocity leaves the orientation unchanged"); __vc_assert_eq(r.z, q.z, "negligible angular velocity leaves the orientation unchanged");
        __vc_cover("small");
    } else {
        double c = std::cos(w * dt / 2), s = std::sin(w * dt / 2);
        Q4 p = hamilton({c, s * om[0] / w, s * om[1] / w, s * om[2] / w}, q);
        double n2 = p.w * p.w + p.x * p.x + p.y * p.y + p.z * p.z;
        __vc_assert_eq(n2, 1, "the composed rotation is a unit quaternion");
        __vc_assume(__vc_native() || n2 == 1);
        double R2 = r.w * r.w + r.x * r.x + r.y * r.y + r.z * r.z;
        __vc_assert_eq(R2, 1, "the orientation stays a unit quaternion");
        double n = std::sqrt(n2);
        __vc_assert_eq(r.w * n, p.w, "scalar part is that of the rotation by omega dt after q"); __vc_assert_eq(r.x * n, p.x, "x part is that of the rotation by omega dt after q");
        __vc_assert_eq(r.y * n, p.y, "y part is that of the rotation by omega dt after q"); __vc_assert_eq(r.z * n, p.z, "z part is that of the rotation by omega dt after q");
        __vc_cover("rotated");
    }
}
VC_HARNESS(rotate) {
    double u[4], om[3], dt = __vc_real("dt"); __vc_unit4(u, "q"); for (int k = 0; k < 3; k++) om[k] = __vc_real("omega");
    Equatn q(u[3], u[0], u[1], u[2]); Evec3 o(om[0], om[1], om[2]);
    EquatnHelper::rotateEquatn(q, o, dt);
    rotated({u[3], u[0], u[1], u[2]}, om, dt, {q.w(), q.x(), q.y(), q.z()});
}
static void fill(Sylinder &s) {
    s.gid = (int)__vc_int("gid", 0, 1000); s.globalIndex = (int)__vc_int("globalIndex", 0, 1000); s.rank = (int)__vc_int("rank", 0, 64); s.group = (int)__vc_int("group", -1, 9); s.isImmovable = __vc_bool("immovable");
    double *d[] = {&s.radius, &s.radiusCollision, &s.length, &s.lengthCollision, &s.radiusSearch, &s.sepmin, &s.colBuf};
    for (double *x : d) *x = __vc_pos("size");
    for (int k = 0; k < 3; k++) s.pos[k] = __vc_real("pos");
    __vc_unit4(s.orientation, "orientation");
    double *v[] = {s.vel, s.omega, s.velCol, s.omegaCol, s.velBi, s.omegaBi, s.velNonB, s.omegaNonB, s.force, s.torque, s.forceCol, s.torqueCol, s.forceBi, s.torqueBi, s.forceNonB, s.torqueNonB, s.velBrown, s.omegaBrown};
    for (double *x : v) for (int k = 0; k < 3; k++) x[k] = __vc_real("state");
}
static void sameState(const Sylinder &a, const Sylinder &b) {
    const double *va[] = {a.vel, a.omega, a.velCol, a.omegaCol, a.velBi, a.omegaBi, a.velNonB, a.omegaNonB, a.force, a.torque, a.forceCol, a.torqueCol, a.forceBi, a.torqueBi, a.forceNonB, a.torqueNonB, a.velBrown, a.omegaBrown};
    const double *vb[] = {b.vel, b.omega, b.velCol, b.omegaCol, b.velBi, b.omegaBi, b.velNonB, b.omegaNonB, b.force, b.torque, b.forceCol, b.torqueCol, b.forceBi, b.torqueBi, b.forceNonB, b.torqueNonB, b.velBrown, b.omegaBrown};
    for (int i = 0; i < 18; i++) for (int k = 0; k < 3; k++) __vc_assert_eq(va[i][k], vb[i][k], "velocities and forces are not changed by the step");
    __vc_assert_eq(a.radius, b.radius, "sizes are not changed by the step"); __vc_assert_eq(a.length, b.length, "sizes are not changed by the step");
    __vc_assert_eq(a.radiusCollision, b.radiusCollision, "sizes are not changed by the step"); __vc_assert_eq(a.lengthCollision, b.lengthCollision, "sizes are not changed by the step");
    __vc_assert(a.gid == b.gid && a.globalIndex == b.globalIndex && a.rank == b.rank && a.group == b.group && a.isImmovable == b.isImmovable, "identity is not changed by the step");
}
VC_HARNESS(euler) {
    Sylinder s, t; fill(s); t = s; double dt = __vc_real("dt");
    s.stepEuler(dt);
    for (int k = 0; k < 3; k++) __vc_assert_eq(s.pos[k], t.pos[k] + t.vel[k] * dt, "position moves by velocity times dt");
    // memory order of an orientation is x, y, z, w
    rotated({t.orientation[3], t.orientation[0], t.orientation[1], t.orientation[2]}, t.omega, dt, {s.orientation[3], s.orientation[0], s.orientation[1], s.orientation[2]});
    sameState(s, t);
    __vc_cover("euler");
}
// the orientation rotates the direction vector: R(q)(0,0,1) is the axis every other part of the code uses
VC_HARNESS(ctor) {
    double p[3], o[4]; for (int k = 0; k < 3; k++) p[k] = __vc_real("p"); __vc_unit4(o, "o"); int gid = (int)__vc_int("gid", 0, 100000);
    double r = __vc_pos("r"), rc = __vc_pos("rc"), l = __vc_pos("l"), lc = __vc_pos("lc"); bool hp = __vc_bool("hp"), ho = __vc_bool("ho");
    Sylinder s(gid, r, rc, l, lc, hp ? p : nullptr, ho ? o : nullptr);
    __vc_assert(s.gid == gid, "gid"); __vc_assert_eq(s.radius, r, "radius"); __vc_assert_eq(s.radiusCollision, rc, "collision radius"); __vc_assert_eq(s.length, l, "length"); __vc_assert_eq(s.lengthCollision, lc, "collision length");
    for (int k = 0; k < 3; k++) __vc_assert_eq(s.pos[k], hp ? p[k] : 0, "position");
    for (int k = 0; k < 4; k++) __vc_assert_eq(s.orientation[k], ho ? o[k] : k == 3 ? 1 : 0, "orientation defaults to identity");
    const double *va[] = {s.vel, s.omega, s.velCol, s.omegaCol, s.velBi, s.omegaBi, s.velNonB, s.omegaNonB, s.force, s.torque, s.forceCol, s.torqueCol, s.forceBi, s.torqueBi, s.forceNonB, s.torqueNonB, s.velBrown, s.omegaBrown};
    for (int i = 0; i < 18; i++) for (int k = 0; k < 3; k++) __vc_assert_eq(va[i][k], 0, "a new particle has zero velocity and force");
    __vc_cover("ctor");
}
VC_HARNESS(clear) {
    Sylinder s, t; fill(s); t = s; s.clear();
    const double *va[] = {s.vel, s.omega, s.velCol, s.omegaCol, s.velBi, s.omegaBi, s.velNonB, s.omegaNonB, s.force, s.torque, s.forceCol, s.torqueCol, s.forceBi, s.torqueBi, s.forceNonB, s.torqueNonB, s.velBrown, s.omegaBrown};
    for (int i = 0; i < 18; i++) for (int k = 0; k < 3; k++) __vc_assert_eq(va[i][k], 0, "clear zeroes every velocity and force");
    for (int k = 0; k < 3; k++) __vc_assert_eq(s.pos[k], t.pos[k], "clear keeps the position");
    for (int k = 0; k < 4; k++) __vc_assert_eq(s.orientation[k], t.orientation[k], "clear keeps the orientation");
    __vc_assert(s.gid == t.gid && s.group == t.group && s.isImmovable == t.isImmovable, "clear keeps gid, group and mobility flag");
    __vc_assert_eq(s.radius, t.radius, "clear keeps sizes"); __vc_assert_eq(s.length, t.length, "clear keeps sizes");
    __vc_assert_eq(s.radiusCollision, t.radiusCollision, "clear keeps sizes"); __vc_assert_eq(s.lengthCollision, t.lengthCollision, "clear keeps sizes");
    __vc_cover("clear");
}
// psi and cross-product matrices used with quaternions
VC_HARNESS(helpers) {
    double u[4]; __vc_unit4(u, "q"); Evec3 p(__vc_real("p"), __vc_real("p"), __vc_real("p")), v(__vc_real("v"), __vc_real("v"), __vc_real("v"));
    Emat3 P; EquatnHelper::getCrossProductMatrix(p, P); Evec3 c = P * v;
    __vc_assert_eq(c[0], p[1] * v[2] - p[2] * v[1], "cross-product matrix, x"); __vc_assert_eq(c[1], p[2] * v[0] - p[0] * v[2], "cross-product matrix, y"); __vc_assert_eq(c[2], p[0] * v[1] - p[1] * v[0], "cross-product matrix, z");
    Equatn q(u[3], u[0], u[1], u[2]); EmatPsi psi; EquatnHelper::getPsiMatFromEquatn(q, psi);
    // d/dt q = psi * omega = 1/2 (0,omega) * q
    Q4 d = hamilton({0, v[0], v[1], v[2]}, {u[3], u[0], u[1], u[2]}); Evec4 w = psi * v;
    __vc_assert_eq(w[0], 0.5 * d.w, "psi omega is the rate of the quaternion, w"); __vc_assert_eq(w[1], 0.5 * d.x, "psi omega is the rate of the quaternion, x");
    __vc_assert_eq(w[2], 0.5 * d.y, "psi omega is the rate of the quaternion, y"); __vc_assert_eq(w[3], 0.5 * d.z, "psi omega is the rate of the quaternion, z");
    __vc_cover("helpers");
}
