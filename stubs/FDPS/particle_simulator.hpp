// Interface of the particle framework used by the verified code (trusted): containers, domain info, tree.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <algorithm>
#include <cassert>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <limits>
#include <cstring>
#include "FDPS/vector3.hpp"
namespace ParticleSimulator {
typedef int S32; typedef unsigned int U32; typedef float F32; typedef double F64; typedef long long S64; typedef unsigned long long U64;
typedef Vector3<double> F64vec3; typedef Vector3<double> F64vec; typedef Vector3<float> F32vec3;
template <class T> class Orthotope3 { public: Vector3<T> low_, high_; };
typedef Orthotope3<double> F64ort;
enum BOUNDARY_CONDITION { BOUNDARY_CONDITION_OPEN, BOUNDARY_CONDITION_PERIODIC_X, BOUNDARY_CONDITION_PERIODIC_Y, BOUNDARY_CONDITION_PERIODIC_Z,
    BOUNDARY_CONDITION_PERIODIC_XY, BOUNDARY_CONDITION_PERIODIC_XZ, BOUNDARY_CONDITION_PERIODIC_YZ, BOUNDARY_CONDITION_PERIODIC_XYZ, BOUNDARY_CONDITION_SHEARING_BOX, BOUNDARY_CONDITION_USER_DEFINED };
class DomainInfo {
  public:
    int bc = BOUNDARY_CONDITION_OPEN; F64vec3 lo, hi; int nset = 0, ndecomp = 0; bool bcAfterPos = false;
    void initialize(double = 1.0) { bc = BOUNDARY_CONDITION_OPEN; nset = 0; }
    void setBoundaryCondition(BOUNDARY_CONDITION b) { bc = b; if (nset) bcAfterPos = true; }
    void setPosRootDomain(const F64vec3 &l, const F64vec3 &h) { lo = l; hi = h; nset++; bcAfterPos = false; }
    template <class T> void decomposeDomainAll(T &) { ndecomp++; }
    template <class T> void decomposeDomainAll(T &, double) { ndecomp++; }
    F64ort getPosRootDomain() const { F64ort o; o.low_ = lo; o.high_ = hi; return o; }
};
// Local particles live in one contiguous array; adjust/exchange are the framework's business (trusted contract: particles are kept)
template <class T> class ParticleSystem {
  public:
    T *ptcl_ = nullptr; long n_ = 0; long nglobal_ = -1; long nadd = 0; int nadjust = 0, nexchange = 0;
    void initialize() { n_ = 0; }
    void setAverageTargetNumberOfSampleParticlePerProcess(const S32 &) {}
    void setNumberOfParticleLocal(S32 n) { if (!ptcl_) ptcl_ = (T *)::operator new(sizeof(T) * (size_t)n + 1); n_ = n; }
    S32 getNumberOfParticleLocal() const { return (S32)n_; }
    S32 getNumberOfParticleGlobal() const { return nglobal_ >= 0 ? (S32)nglobal_ : (S32)n_; }
    T &operator[](const S32 id) { return ptcl_[id]; }
    const T &operator[](const S32 id) const { return ptcl_[id]; }
    void addOneParticle(const T &fp) { ptcl_[n_] = fp; n_++; nadd++; }
    template <class D> void adjustPositionIntoRootDomain(const D &) { nadjust++; }
    template <class D> void exchangeParticle(D &) { nexchange++; }
    template <class H> void writeParticleAscii(const char *, const H &) {}
    void removeParticle(const S32 *, const S32) {}
};
template <class F, class EPI, class EPJ> class TreeForForceShort {
  public:
    struct Symmetry {
        long ninit = 0; int ncalc = 0;
        void initialize(const U64 n, const F64 = 0.7, const U32 = 8, const U32 = 64) { ninit = n; }
        template <class Fn, class Sys, class Dom> void calcForceAll(Fn, Sys &, Dom &, const bool = true, const int = 0) { ncalc++; }
        template <class Fn, class Sys, class Dom> void calcForceAllAndWriteBack(Fn, Sys &, Dom &, const bool = true) { ncalc++; }
        template <class Fn, class Sys, class Dom> void calcForceAllAndWriteBackReuseList(Fn, Sys &, Dom &, const bool = true) { ncalc++; }
        F getForce(const S32) const { return F(); }
    };
    typedef Symmetry Scatter; typedef Symmetry Gather;
};
struct Comm { static int getRank() { return 0; } static int getNumberOfProc() { return 1; } static void barrier() {} static int getNumberOfThread() { return 1; } static int getThreadNum() { return 0; } };
inline void Initialize(int &, char **&) {} inline void Finalize() {} inline void Abort(int) { std::abort(); }
}
namespace PS = ParticleSimulator;
