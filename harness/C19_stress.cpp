// Contract of the collision stress kernel: moment tensors of a spherocylinder and the stress of a unit contact force.
#include "vc_std.h"
#include "vc.h"
#define private public
#define protected public
#include "Sylinder/SylinderNear.hpp"
#undef private
#undef protected
static double pw(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r = r * x; return r; }
// second moments of a solid spherocylinder (axis z, radius r, cylinder length h, density rho), by direct integration
static double Nxx(double r, double h, double rho) { return rho * M_PI * (pw(r, 4) * h / 4 + 4 * pw(r, 5) / 15); }
static double Nzz(double r, double h, double rho) { double c = h / 2; return rho * M_PI * (2 * r * r * pw(c, 3) / 3 + 4 * pw(r, 3) * c * c / 3 + pw(r, 4) * c + 4 * pw(r, 5) / 15); }
VC_HARNESS(moments) {
    double r = __vc_pos("r"), h = __vc_realin("h", 0, 16), rho = __vc_pos("rho"); Emat3 N, G;
    CalcSylinderNearForce::InitializeSyN(N, r, h, rho); CalcSylinderNearForce::InitializeSyGA(G, r, h, rho);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        double n = i != j ? 0 : i < 2 ? Nxx(r, h, rho) : Nzz(r, h, rho), g = i != j ? 0 : i < 2 ? Nxx(r, h, rho) + Nzz(r, h, rho) : 2 * Nxx(r, h, rho);
        __vc_assert_eq(N(i, j), n, "second-moment tensor of the spherocylinder"); __vc_assert_eq(G(i, j), g, "inertia tensor of the spherocylinder");
    }
    __vc_cover("moments");
}
// callee contracts for the assembly: any positive diagonal tensors
static double gN[2][2], gG[2][2]; static int cN, cG;
extern "C" void ct_N(Emat3 &N, double r, double h, double rho) {
    double a = __vc_uf("Nxx", 0, 0, 0), b = 0; N.setZero();
    N(0, 0) = N(1, 1) = gN[cN & 1][0]; N(2, 2) = gN[cN & 1][1]; cN++;
}
extern "C" void ct_G(Emat3 &G, double r, double h, double rho) { G.setZero(); G(0, 0) = G(1, 1) = gG[cG & 1][0]; G(2, 2) = gG[cG & 1][1]; cG++; }
static void cross(const double *a, const double *b, double *c) { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; }
VC_HARNESS(assembly) {
    double d[2][3], c[2][3], P[2][3], r[2], h[2];
    for (int s = 0; s < 2; s++) {
        __vc_unit3(d[s], "dir"); for (int k = 0; k < 3; k++) { c[s][k] = __vc_real("center"); P[s][k] = __vc_real("loc"); }
        r[s] = __vc_pos("r"); h[s] = __vc_realin("h", 0, 8);
        if (__vc_native()) { gN[s][0] = Nxx(r[s], h[s], 1); gN[s][1] = Nzz(r[s], h[s], 1); gG[s][0] = gN[s][0] + gN[s][1]; gG[s][1] = 2 * gN[s][0]; }
        else { gN[s][0] = __vc_pos("Na"); gN[s][1] = __vc_pos("Nb"); gG[s][0] = __vc_pos("Ga"); gG[s][1] = __vc_pos("Gb"); }
    }
    cN = cG = 0;
    auto E = [](const double *x) { return Evec3(x[0], x[1], x[2]); };
    Emat3 S; CalcSylinderNearForce::collideStress(E(d[0]), E(d[1]), E(c[0]), E(c[1]), h[0], h[1], r[0], r[1], 1.0, E(P[0]), E(P[1]), S);
    double u[3], L2 = 0; for (int k = 0; k < 3; k++) { u[k] = P[1][k] - P[0][k]; L2 += u[k] * u[k]; }
    double L = std::sqrt(L2);
    if (!(L2 > 0)) { __vc_cover("coincident"); return; }
    double F[3]; for (int k = 0; k < 3; k++) F[k] = u[k] / L;       // unit force on J; I gets -F
    double T[3][3] = {{0}};
    for (int s = 0; s < 2; s++) {
        double sg = s ? 1 : -1, f[3], x[3], t[3];
        for (int k = 0; k < 3; k++) { f[k] = sg * F[k]; x[k] = P[s][k] - c[s][k]; }
        cross(x, f, t);
        double dt = d[s][0] * t[0] + d[s][1] * t[1] + d[s][2] * t[2], w[3];
        for (int k = 0; k < 3; k++) w[k] = t[k] / gG[s][0] + (1 / gG[s][1] - 1 / gG[s][0]) * dt * d[s][k];   // inverse inertia on the torque
        double N[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) N[i][j] = gN[s][0] * (i == j) + (gN[s][1] - gN[s][0]) * d[s][i] * d[s][j];
        // sum_l N(i,l) eps(j,k,l) w(k)  =  row i: (N row i) x ... : eps(j,k,l) w_k N_il = (w x N_i)_j
        for (int i = 0; i < 3; i++) { double ni[3] = {N[i][0], N[i][1], N[i][2]}, z[3]; cross(w, ni, z); for (int j = 0; j < 3; j++) T[i][j] += c[s][i] * f[j] + z[j]; }
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) __vc_assert_eq(S(i, j), T[i][j], "collision stress is the sum of virial and rotational parts of both bodies");
    __vc_cover("assembly");
}
