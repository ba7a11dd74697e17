// Contract of the constraint collector: rows of D^T, vectors, write-back, counting and stress sums, for any number of blocks.
#include "vc_deque.h"
#define VC_MAP_GHOST
#define VC_LID_ABSTRACT   // local index of a global index: an unspecified function
#include "vc_std.h"
#include "vc.h"
#include "Constraint/ConstraintCollector.cpp"
#include "Trilinos/TpetraUtil.cpp"
#include "Util/Base64.cpp"
static int64_t vc_map_offset(int64_t local) { return __vc_native() ? 3 * local : __vc_ufi("mapoffset", local, 0, 0); }
static int64_t vc_map_total(int64_t local) { return __vc_native() ? 5 * local + 6 : __vc_ufi("maptotal", local, 0, 0); }
static void okmap(int64_t local) { int64_t a = vc_map_offset(local), b = vc_map_total(local); __vc_assume(a >= 0); __vc_assume(a + local <= b); __vc_assume(b <= (1 << 30)); }
static void vc_push(void *, const ConstraintBlock &) {}
// sorting and removing duplicates keep the set of values (library contract): the contents become arbitrary, membership is what
// the column map's getLocalElement assumes; native runs use the real library functions
extern "C" void ct_sort(int *b, int *e) { memcpy(b, __vc_buf("sorted", (char *)e - (char *)b, 1), (char *)e - (char *)b); }
extern "C" int *ct_unique(int *, int *e) { return e; }
extern "C" void ct_pushint(std::vector<int> *, const int *) {}
static int nq[2]; static ConstraintBlock *blk[2];
static void fill(ConstraintBlock *b, int n, int total) {
    for (int i = 0; i < n; i++) {
        ConstraintBlock &c = b[i]; c.globalIndexI = (int)__vc_int("gi", 0, total - 1); c.globalIndexJ = (int)__vc_int("gj", 0, total - 1); c.oneSide = __vc_bool("oneSide"); c.bilateral = __vc_bool("bilateral"); c.kappa = __vc_bool("kzero") ? 0 : __vc_pos("kappa");
        if (!c.oneSide && c.globalIndexI == c.globalIndexJ) c.globalIndexJ = (c.globalIndexI + 1) % total;
    }
}
static ConstraintCollector *make(int total) {
    ConstraintCollector *c = new ConstraintCollector; c->constraintPoolPtr = std::make_shared<ConstraintBlockPool>(); c->constraintPoolPtr->resize(2);
    for (int q = 0; q < 2; q++) {
        nq[q] = (int)__vc_size(q ? "n1" : "n0", 0, 2, 4); blk[q] = (ConstraintBlock *)__vc_buf(q ? "blk1" : "blk0", (int64_t)sizeof(ConstraintBlock) * nq[q], 0);
        if (__vc_native()) fill(blk[q], nq[q], total);
        (*c->constraintPoolPtr)[q].d = blk[q]; (*c->constraintPoolPtr)[q].n = nq[q];
    }
    __vc_assume(nq[0] != nq[1]);   // the ghost maps are functions of the local size
    return c;
}
static void generic(int &q, int &j) {
    q = __vc_bool("queue") ? 1 : 0; j = (int)__vc_int("j", 0, 1 << 28); if (__vc_native()) { if (nq[q] == 0) q = 1 - q; if (nq[q]) j %= nq[q]; }
    __vc_assume(j < nq[q]); __vc_index(j); __vc_index(q ? nq[0] + j : j);
}
VC_HARNESS(build) {
    int nl = (int)__vc_size("nl", 1, 2, 3); okmap(6 * nl); int total = (int)(vc_map_total(6 * nl) / 6);
    ConstraintCollector *c = make(__vc_native() ? total : 0); int q, j; generic(q, j); okmap(nq[0] + nq[1]);
    const ConstraintBlock &b = blk[q][j]; bool one = b.oneSide;
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    Teuchos::RCP<const TMAP> mob = getTMAPFromLocalSize(6 * nl, comm);
    Teuchos::RCP<TCMAT> D; Teuchos::RCP<TV> d0, ik, bi, gg;
    c->buildConstraintMatrixVector(mob, D, d0, ik, bi, gg);
    const int N = nq[0] + nq[1], row = (q ? nq[0] : 0) + j;
    __vc_assert(D->rowMap->getNodeNumElements() == (size_t)N && D->rangeMap->getNodeNumElements() == (size_t)N && D->domainMap->getNodeNumElements() == (size_t)(6 * nl), "one row per constraint, columns over the mobility map");
    __vc_assert(d0->getLocalLength() == (size_t)N && ik->getLocalLength() == (size_t)N && bi->getLocalLength() == (size_t)N && gg->getLocalLength() == (size_t)N, "one entry per constraint");
    __vc_assert_eq(d0->d[row], b.delta0, "separation"); __vc_assert_eq(gg->d[row], b.gamma, "initial guess");
    if (b.bilateral) { __vc_assert_eq(bi->d[row], 1, "bilateral flag"); if (b.kappa > 0) { __vc_assert_eq(ik->d[row] * b.kappa, 1, "inverse spring constant"); __vc_cover("spring"); } else { __vc_assert_eq(ik->d[row], 0, "no spring: zero compliance"); __vc_cover("rigid"); } }
    else { __vc_assert_eq(bi->d[row], 0, "unilateral flag"); __vc_assert_eq(ik->d[row], 0, "unilateral constraints have no compliance"); __vc_cover("unilateral"); }
    size_t first = D->rp[row]; int len = (int)(D->rp[row + 1] - first);
    __vc_assert(len == (one ? 6 : 12), "six entries per body"); __vc_cover(one ? "one side" : "two sides"); __vc_cover(q ? "second queue" : "first queue");
    const double *nI = b.normI, *pI = b.posI, *nJ = b.normJ, *pJ = b.posJ;
    double vI[6] = {nI[0], nI[1], nI[2], pI[1] * nI[2] - pI[2] * nI[1], pI[2] * nI[0] - pI[0] * nI[2], pI[0] * nI[1] - pI[1] * nI[0]};
    double vJ[6] = {nJ[0], nJ[1], nJ[2], pJ[1] * nJ[2] - pJ[2] * nJ[1], pJ[2] * nJ[0] - pJ[0] * nJ[2], pJ[0] * nJ[1] - pJ[1] * nJ[0]};
    if (__vc_native()) {
        // order of the entries within a row is free
        for (int k = 0; k < 6; k++) {
            double sI = 0, sJ = 0; int nIc = 0, nJc = 0;
            for (int e = 0; e < len; e++) { if (D->ci[first + e] < 0) { __vc_assert(false, "every column is in the column map"); continue; } int col = D->colMap->getGlobalElement(D->ci[first + e]); if (col == 6 * b.globalIndexI + k) { sI += D->va[first + e]; nIc++; } if (!one && col == 6 * b.globalIndexJ + k) { sJ += D->va[first + e]; nJc++; } }
            __vc_assert(nIc == 1, "one entry per velocity component of body I"); __vc_assert_eq(sI, vI[k], "row of body I: normal and normal torque");
            if (!one) { __vc_assert(nJc == 1, "one entry per velocity component of body J"); __vc_assert_eq(sJ, vJ[k], "row of body J: normal and normal torque"); }
        }
        for (size_t k = 1; k < D->colMap->getNodeNumElements(); k++) __vc_assert(D->colMap->getGlobalElement(k - 1) < D->colMap->getGlobalElement(k), "column map strictly increasing");
        for (int k = 0; k < 6 * nl; k++) { bool f = false; for (size_t m = 0; m < D->colMap->getNodeNumElements(); m++) f = f || D->colMap->getGlobalElement(m) == mob->getGlobalElement(k); __vc_assert(f, "column map covers the local part of the mobility map"); }
        return;
    }
#pragma clang loop unroll(full)
    for (int k = 0; k < 6; k++) {
        __vc_assert(D->ci[first + k] == D->colMap->getLocalElement(6 * b.globalIndexI + k), "columns of body I"); __vc_assert_eq(D->va[first + k], vI[k], "row of body I: normal and normal torque");
        if (!one) { __vc_assert(D->ci[first + 6 + k] == D->colMap->getLocalElement(6 * b.globalIndexJ + k), "columns of body J"); __vc_assert_eq(D->va[first + 6 + k], vJ[k], "row of body J: normal and normal torque"); }
    }
}
VC_HARNESS(writeback) {
    ConstraintCollector *c = make(5); int q, j; generic(q, j); okmap(nq[0] + nq[1]); const int N = nq[0] + nq[1], row = (q ? nq[0] : 0) + j;
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); Teuchos::RCP<const TMAP> m = getTMAPFromLocalSize(N, comm); double *g = (double *)__vc_buf("gamma", (int64_t)N * 8, 0);
    Teuchos::RCP<const TV> G(new TV(m, g)); ConstraintBlock o = blk[q][j]; double gr = g[row];
    c->writeBackGamma(G);
    const ConstraintBlock &b = blk[q][j];
    __vc_assert_eq(b.gamma, gr, "each constraint gets its own force");
    for (int k = 0; k < 9; k++) __vc_assert_eq(b.stress[k], o.stress[k] * gr, "stress is scaled by the force");
    __vc_assert_eq(g[row], gr, "solution is not changed");
    for (int k = 0; k < 3; k++) { __vc_assert_eq(b.normI[k], o.normI[k], "geometry kept"); __vc_assert_eq(b.normJ[k], o.normJ[k], "geometry kept"); __vc_assert_eq(b.posI[k], o.posI[k], "geometry kept"); __vc_assert_eq(b.posJ[k], o.posJ[k], "geometry kept"); }
    __vc_assert_eq(b.delta0, o.delta0, "separation kept"); __vc_assert(b.gidI == o.gidI && b.gidJ == o.gidJ && b.globalIndexI == o.globalIndexI && b.globalIndexJ == o.globalIndexJ, "ids kept");
    __vc_cover("writeback");
}
VC_HARNESS(count) {
    ConstraintCollector *c = make(5);
    __vc_assert(c->getLocalNumberOfConstraints() == nq[0] + nq[1], "number of constraints of all queues");
    std::vector<int> s, x; c->buildConIndex(s, x);
    __vc_assert(s.size() == 2 && x.size() == 3 && s[0] == nq[0] && s[1] == nq[1] && x[0] == 0 && x[1] == nq[0] && x[2] == nq[0] + nq[1], "sizes and start indices of the queues");
    c->clear(); __vc_assert(c->getLocalNumberOfConstraints() == 0, "no constraint after clear"); __vc_cover("count");
}
VC_HARNESS(stress) {
    ConstraintCollector *c = make(5); bool with = __vc_bool("with"); Emat3 u, b; __vc_cover(with ? "with one-sided" : "without one-sided");
    c->sumLocalConstraintStress(u, b, with);
    int r = (int)__vc_int("r", 0, 2), cc = (int)__vc_int("c", 0, 2), e = 0; for (int k = 0; k < 9; k++) if (k == 3 * r + cc) e = k;
    double su = 0, sb = 0;
    for (int q = 0; q < 2; q++) for (int i = 0; i < nq[q]; i++) { const ConstraintBlock &x = blk[q][i]; if (x.oneSide && !with) continue; if (x.bilateral) sb += x.stress[e]; else su += x.stress[e]; }
    double gu = 0, gb = 0; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) if (e == 3 * i + k) { gu = u(i, k); gb = b(i, k); }
    __vc_assert_eq(gu, su, "unilateral stress is the sum over unilateral blocks"); __vc_assert_eq(gb, sb, "bilateral stress is the sum over bilateral blocks"); __vc_cover("stress");
}
