// Contract of the boundary classes: projection, side and distance (sphere, wall, tube), for every input.
#include "vc_std.h"
#include "vc.h"
#define private public
#include "Boundary/Boundary.cpp"
#undef private
#include "vc_yaml_impl.h"

static void vec(double *v, const char *n) { for (int k = 0; k < 3; k++) v[k] = __vc_real(n); }
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

// n: unit direction from the surface towards the side where particles belong, at the nearest surface point;
// dist: unsigned distance of the query point
static void post(const double *q, const double *p, const double *d, const double *n, double dist) {
    for (int k = 0; k < 3; k++) __vc_assert_eq(d[k], dist * n[k], "delta is the distance times the unit direction towards the allowed side");
    __vc_assert_eq(dot(d, d), (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2]), "|delta| = |query - project|");
}
static void sphere_post(const double *c, double R, bool inside, const double *q, const double *p, const double *d) {
    double Q[3] = {q[0] - c[0], q[1] - c[1], q[2] - c[2]}, P[3] = {p[0] - c[0], p[1] - c[1], p[2] - c[2]};
    double r = std::sqrt(dot(Q, Q));
    __vc_assert_eq(dot(P, P), R * R, "sphere: projection lies on the sphere");
    for (int k = 0; k < 3; k++) __vc_assert_eq(P[k] * r, R * Q[k], "sphere: projection is the radially nearest point");
    double s = inside ? -1 : 1, n[3] = {s * Q[0] / r, s * Q[1] / r, s * Q[2] / r};
    post(q, p, d, n, r > R ? r - R : R - r);
}
VC_HARNESS(sphere) {
    double c[3], q[3], p[3], d[3];
    vec(c, "c"); vec(q, "q");
    double R = __vc_pos("R");
    bool inside = __vc_bool("inside");
    double Q[3] = {q[0] - c[0], q[1] - c[1], q[2] - c[2]};
    __vc_assume(dot(Q, Q) > 0);
    SphereShell b(c, R, inside);
    const Boundary &B = b;
    B.project(q, p, d);
    sphere_post(c, R, inside, q, p, d);
    __vc_cover("sphere");
}
VC_HARNESS(sphere_config) {
    double c[3], q[3], p[3], d[3];
    vec(q, "q");
    for (int k = 0; k < 3; k++) c[k] = __vc_yreal("center", k);
    double R = __vc_yreal("radius", -1);
    bool inside = __vc_ybool("inside", -1);
    double Q[3] = {q[0] - c[0], q[1] - c[1], q[2] - c[2]};
    __vc_assume(dot(Q, Q) > 0); __vc_assume(R > 0);
    YAML::Node cfg;
    SphereShell b(cfg);
    const Boundary &B = b;
    B.project(q, p, d);
    sphere_post(c, R, inside, q, p, d);
    __vc_cover("sphere_config");
}
static void wall_post(const double *c, const double *n0, const double *q, const double *p, const double *d) {
    double l = std::sqrt(dot(n0, n0)), n[3] = {n0[0] / l, n0[1] / l, n0[2] / l};
    double P[3] = {p[0] - c[0], p[1] - c[1], p[2] - c[2]}, Q[3] = {q[0] - c[0], q[1] - c[1], q[2] - c[2]};
    __vc_assert_eq(dot(P, n), 0, "wall: projection lies on the plane");
    double t = dot(Q, n);
    for (int k = 0; k < 3; k++) __vc_assert_eq(q[k] - p[k], t * n[k], "wall: projection is along the normal");
    post(q, p, d, n, t < 0 ? -t : t);
}
VC_HARNESS(wall) {
    double c[3], n[3], q[3], p[3], d[3];
    vec(c, "c"); vec(n, "n"); vec(q, "q");
    __vc_assume(dot(n, n) > 0);
    Wall b(c, n);
    const Boundary &B = b;
    B.project(q, p, d);
    wall_post(c, n, q, p, d);
    __vc_cover("wall");
}
VC_HARNESS(wall_config) {
    double c[3], n[3], q[3], p[3], d[3];
    vec(q, "q");
    for (int k = 0; k < 3; k++) c[k] = __vc_yreal("center", k), n[k] = __vc_yreal("norm", k);
    __vc_assume(dot(n, n) > 0);
    YAML::Node cfg;
    Wall b(cfg);
    const Boundary &B = b;
    B.project(q, p, d);
    wall_post(c, n, q, p, d);
    __vc_cover("wall_config");
}
static void tube_post(const double *c, const double *a0, double R, bool inside, const double *q, const double *p, const double *d) {
    double l = std::sqrt(dot(a0, a0)), a[3] = {a0[0] / l, a0[1] / l, a0[2] / l};
    double Q[3] = {q[0] - c[0], q[1] - c[1], q[2] - c[2]}, P[3] = {p[0] - c[0], p[1] - c[1], p[2] - c[2]};
    double t = dot(Q, a), tp = dot(P, a);
    double W[3], U[3];
    for (int k = 0; k < 3; k++) W[k] = Q[k] - t * a[k], U[k] = P[k] - t * a[k];
    double r = std::sqrt(dot(W, W));
    __vc_assert_eq(tp, t, "tube: projection has the axial coordinate of the query");
    __vc_assert_eq(dot(U, U), R * R, "tube: projection lies on the tube");
    for (int k = 0; k < 3; k++) __vc_assert_eq(U[k] * r, R * W[k], "tube: projection is the radially nearest point");
    double s = inside ? -1 : 1, n[3] = {s * W[0] / r, s * W[1] / r, s * W[2] / r};
    post(q, p, d, n, r > R ? r - R : R - r);
}
VC_HARNESS(tube) {
    double c[3], a[3], q[3], p[3], d[3];
    vec(c, "c"); vec(a, "a"); vec(q, "q");
    double R = __vc_pos("R");
    bool inside = __vc_bool("inside");
    __vc_assume(dot(a, a) > 0);
    double Q[3] = {q[0] - c[0], q[1] - c[1], q[2] - c[2]}, l = std::sqrt(dot(a, a));
    double t = dot(Q, a) / l, W[3];
    for (int k = 0; k < 3; k++) W[k] = Q[k] - t * a[k] / l;
    __vc_assume(dot(W, W) > 1e-20);
    Tube b(c, a, R, inside);
    const Boundary &B = b;
    B.project(q, p, d);
    tube_post(c, a, R, inside, q, p, d);
    __vc_cover("tube");
}
VC_HARNESS(tube_config) {
    double c[3], a[3], q[3], p[3], d[3];
    vec(q, "q");
    for (int k = 0; k < 3; k++) c[k] = __vc_yreal("center", k), a[k] = __vc_yreal("axis", k);
    double R = __vc_yreal("radius", -1);
    bool inside = __vc_ybool("inside", -1);
    __vc_assume(R > 0); __vc_assume(dot(a, a) > 0);
    YAML::Node cfg;
    Tube b(cfg);
    for (int k = 0; k < 3; k++) __vc_assert_eq(b.axis[k] * std::sqrt(dot(a, a)), a[k], "tube: configured axis is normalised");
    for (int k = 0; k < 3; k++) __vc_assert_eq(b.center[k], c[k], "tube: configured center");
    __vc_assert_eq(b.radius, R, "tube: configured radius");
    __vc_assert(b.inside == inside, "tube: configured side");
    __vc_cover("tube_config");
}
