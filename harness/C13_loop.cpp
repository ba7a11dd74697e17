// Contract of the pair loop: every ordered pair with gidI < gidJ is handed exactly once to the pair function matching its shapes,
// exactly the blocks reported as collisions are stored, and every target's force accumulator is cleared.
#include "vc_std.h"
#include "vc.h"
#define private public
#define protected public
#include "Sylinder/SylinderNear.hpp"
#undef private
#undef protected
static const SylinderNearEP *gI, *gJ; static int64_t ig, jg, gEval, gPush, gFree;
static bool sphere(const SylinderNearEP &e) { return e.lengthCollision < 2 * e.radiusCollision; }
static double hitOf(int64_t i, int64_t j) { return __vc_uf("collides", i, j, 0); }
// recording contract of the three pair functions: the verdict for pair (i,j) is an arbitrary function of the pair
static bool pair(const SylinderNearEP *t, const SylinderNearEP *s, bool ts, bool ss, ConstraintBlock &b) {
    int64_t i = t - gI, j = s - gJ;
    __vc_assert(t->gid < s->gid, "a pair is evaluated only when the target has the smaller global id");
    __vc_assert(sphere(*t) == ts, "shape of the target decides which pair function is used"); __vc_assert(sphere(*s) == ss, "shape of the source decides which pair function is used");
    if (i == ig && j == jg) gEval++;
    b.globalIndexI = (int)i; b.globalIndexJ = (int)j;
    return hitOf(i, j) > 0;
}
extern "C" bool ct_spsp(const CalcSylinderNearForce *, const SylinderNearEP &a, const SylinderNearEP &b, ForceNear &, ConstraintBlock &blk) { return pair(&a, &b, true, true, blk); }
extern "C" bool ct_sysy(const CalcSylinderNearForce *, const SylinderNearEP &a, const SylinderNearEP &b, ForceNear &, ConstraintBlock &blk) { return pair(&a, &b, false, false, blk); }
extern "C" bool ct_spsy(const CalcSylinderNearForce *, const SylinderNearEP &sp, const SylinderNearEP &sy, ForceNear &, ConstraintBlock &blk, bool reverse) {
    if (reverse) return pair(&sy, &sp, false, true, blk);
    return pair(&sp, &sy, true, false, blk);
}
extern "C" void ct_push(ConstraintBlockQue *q, const ConstraintBlock &b) {
    __vc_assert(hitOf(b.globalIndexI, b.globalIndexJ) > 0, "only colliding pairs are stored");
    if (b.globalIndexI == ig && b.globalIndexJ == jg) gPush++;
}
static void fillNative(SylinderNearEP *e, int n, const SylinderNearEP *from, int nf) {
    for (int k = 0; k < n; k++) {
        if (from && nf && __vc_bool("same")) { e[k] = from[__vc_int("which", 0, nf - 1)]; continue; }
        e[k].gid = (int)__vc_int("gid", 0, 12); e[k].globalIndex = e[k].gid; e[k].rank = 0; e[k].radius = e[k].radiusCollision = __vc_pos("r"); e[k].length = e[k].lengthCollision = __vc_realin("l", 0, 3); e[k].colBuf = 0.3;
        for (int d = 0; d < 3; d++) e[k].pos[d] = __vc_real("pos");
        __vc_unit3(e[k].direction, "dir");
    }
}
static bool sameBlock(const ConstraintBlock &a, const ConstraintBlock &b) {
    bool r = a.delta0 == b.delta0 && a.gamma == b.gamma && a.gidI == b.gidI && a.gidJ == b.gidJ && a.globalIndexI == b.globalIndexI && a.globalIndexJ == b.globalIndexJ && a.oneSide == b.oneSide && a.bilateral == b.bilateral && a.kappa == b.kappa;
    for (int k = 0; k < 3; k++) r = r && a.normI[k] == b.normI[k] && a.normJ[k] == b.normJ[k] && a.posI[k] == b.posI[k] && a.posJ[k] == b.posJ[k] && a.labI[k] == b.labI[k] && a.labJ[k] == b.labJ[k];
    return r;
}
VC_HARNESS(pairloop) {
    int nI = (int)__vc_size("nI", 0, 2, 5), nJ = (int)__vc_size("nJ", 0, 2, 6);
    SylinderNearEP *I = (SylinderNearEP *)__vc_buf("epI", (int64_t)sizeof(SylinderNearEP) * nI, 0), *J = (SylinderNearEP *)__vc_buf("epJ", (int64_t)sizeof(SylinderNearEP) * nJ, 0);
    ForceNear *f = (ForceNear *)__vc_buf("force", (int64_t)sizeof(ForceNear) * nI, 0);
    if (__vc_native()) { fillNative(I, nI, nullptr, 0); fillNative(J, nJ, I, nI); }
    gI = I; gJ = J; gEval = gPush = 0;
    ig = __vc_int("ig", 0, 1 << 30); jg = __vc_int("jg", 0, 1 << 30); if (__vc_native()) { if (nI) ig %= nI; if (nJ) jg %= nJ; }
    __vc_assume(nI == 0 || ig < nI); __vc_assume(nJ == 0 || jg < nJ); __vc_index(ig); __vc_index(jg);
    auto pool = std::make_shared<ConstraintBlockPool>(); pool->resize(1);
    CalcSylinderNearForce calc; calc.conPoolPtr = pool;
    calc(I, nI, J, nJ, f);
    if (nI > 0) for (int k = 0; k < 3; k++) { __vc_assert_eq(f[ig].forceNear[k], 0, "force of every target is cleared"); __vc_assert_eq(f[ig].torqueNear[k], 0, "torque of every target is cleared"); }
    if (!__vc_native()) {
        bool due = false;
        if (nI > 0 && nJ > 0) due = I[ig].gid < J[jg].gid;
        if (due) {
            __vc_assert(gEval == 1, "every pair with gidI < gidJ is evaluated exactly once");
            if (hitOf(ig, jg) > 0) __vc_assert(gPush == 1, "every collision is stored exactly once"); else __vc_assert(gPush == 0, "pairs that do not collide are not stored");
            __vc_cover("due");
        } else { __vc_assert(gEval == 0 && gPush == 0, "other pairs are skipped"); __vc_cover("skipped"); }
    } else {
        std::vector<ConstraintBlock> want, got;
        for (auto &q : *pool) for (auto &b : q) got.push_back(b);
        for (int i = 0; i < nI; i++) for (int j = 0; j < nJ; j++) {
            if (!(I[i].gid < J[j].gid)) continue;
            ConstraintBlock b; ForceNear d; bool a = sphere(I[i]), c = sphere(J[j]), hit = false;
            if (a && c) hit = calc.sp_sp(I[i], J[j], d, b); else if (a) hit = calc.sp_sy(I[i], J[j], d, b); else if (c) hit = calc.sp_sy(J[j], I[i], d, b, true); else hit = calc.sy_sy(I[i], J[j], d, b);
            if (hit) want.push_back(b);
        }
        __vc_assert(want.size() == got.size(), "as many blocks as colliding pairs with gidI < gidJ");
        for (auto &w : want) { int n = 0, m = 0; for (auto &g : got) n += sameBlock(w, g); for (auto &v : want) m += sameBlock(w, v); __vc_assert(n == m, "every colliding pair has its block"); }
        if (want.size()) __vc_cover("blocks");
    }
    __vc_cover("pairloop");
}
// shape test and data copied into the neighbour-search particle
VC_HARNESS(particle) {
    Sylinder s; SylinderNearEP e;
    s.gid = (int)__vc_int("gid", 0, 1 << 20); s.globalIndex = (int)__vc_int("gix", 0, 1 << 20); s.rank = (int)__vc_int("rank", 0, 99); s.radius = __vc_pos("r"); s.length = __vc_pos("l"); s.radiusCollision = __vc_pos("rc"); s.lengthCollision = __vc_pos("lc"); s.colBuf = __vc_pos("cb");
    for (int k = 0; k < 3; k++) s.pos[k] = __vc_real("p");
    __vc_unit4(s.orientation, "q");
    e.copyFromFP(s);
    __vc_assert(e.gid == s.gid && e.globalIndex == s.globalIndex && e.rank == s.rank, "identity is copied"); 
    __vc_assert_eq(e.radius, s.radius, "radius is copied"); __vc_assert_eq(e.length, s.length, "length is copied"); __vc_assert_eq(e.radiusCollision, s.radiusCollision, "collision radius is copied");
    __vc_assert_eq(e.lengthCollision, s.lengthCollision, "collision length is copied"); __vc_assert_eq(e.colBuf, s.colBuf, "collision buffer is copied");
    double x = s.orientation[0], y = s.orientation[1], z = s.orientation[2], w = s.orientation[3];
    __vc_assert_eq(e.direction[0], 2 * (x * z + w * y), "direction is the rotated z axis, x"); __vc_assert_eq(e.direction[1], 2 * (y * z - w * x), "direction is the rotated z axis, y"); __vc_assert_eq(e.direction[2], w * w - x * x - y * y + z * z, "direction is the rotated z axis, z");
    for (int k = 0; k < 3; k++) { __vc_assert_eq(e.pos[k], s.pos[k], "position is copied"); }
    PS::F64vec g = e.getPos(); __vc_assert_eq(g.x, s.pos[0], "search position x"); __vc_assert_eq(g.y, s.pos[1], "search position y"); __vc_assert_eq(g.z, s.pos[2], "search position z");
    double n[3]; for (int k = 0; k < 3; k++) n[k] = __vc_real("np");
    e.setPos(PS::F64vec3(n[0], n[1], n[2])); for (int k = 0; k < 3; k++) __vc_assert_eq(e.pos[k], n[k], "moving a search particle sets its position");
    PS::F64vec h = s.getPos(); __vc_assert_eq(h.x, s.pos[0], "particle position x"); __vc_assert_eq(h.y, s.pos[1], "particle position y"); __vc_assert_eq(h.z, s.pos[2], "particle position z");
    s.setPos(PS::F64vec3(n[0], n[1], n[2])); for (int k = 0; k < 3; k++) __vc_assert_eq(s.pos[k], n[k], "moving a particle sets its position");
    __vc_cover("particle");
}
// symmetric search: a pair is presented when its centres are no farther apart than the larger of the two search radii
VC_HARNESS(search) {
    SylinderNearEP e[2]; double cb = __vc_pos("cb"), need[2];
    for (int a = 0; a < 2; a++) {
        e[a].radius = __vc_pos("r"); e[a].length = __vc_realin("l", 0, 1e9); e[a].radiusCollision = __vc_pos("rc"); e[a].lengthCollision = __vc_realin("lc", 0, 1e9); e[a].colBuf = cb;
        // half extent plus this particle's share of the collision buffer
        double h = 0.5 * e[a].lengthCollision, r = e[a].radiusCollision;
        need[a] = h < r ? (h + r) * (1 + cb) : h + r * (1 + cb);
    }
    double R0 = e[0].getRSearch(), R1 = e[1].getRSearch(), R = R0 < R1 ? R1 : R0;
    __vc_assert_le(need[0] + need[1], R, "particles closer than the collision buffer are within the search radius");
    __vc_cover("search");
}
