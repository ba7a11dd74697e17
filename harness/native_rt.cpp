// Native meaning of the contract vocabulary: replays a verifier model and runs contract-directed random inputs on the real code.
#include "vc.h"
#include <cstdio>
#include <ctime>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
struct Skip {};
static std::map<std::string, double> model, used; static std::vector<std::string> order;
static std::map<std::string, int> names; static std::map<std::string, long> covers;
static std::mt19937_64 rng(1); static std::vector<double> prev; static bool useModel = false;
static std::string failed; static double fa, fb; static long nassert = 0; static std::vector<void *> bufs;
static int phase = 0; static uint64_t ufsalt = 1;
static std::string uname(const char *n) { int k = names[n]++; return k ? std::string(n) + "@" + std::to_string(k) : std::string(n); }
static double U() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static double gen() {
    static const double nice[] = {0, 1, -1, 0.5, 2, -2, 0.25, 3, -0.5, 1.5};
    double u = U();
    if (phase == 0) { if (u < 0.3) return nice[rng() % 10]; if (u < 0.45 && !prev.empty()) return prev[rng() % prev.size()] * (U() < 0.3 ? -1 : 1); }
    else if (phase == 1) { if (u < 0.75) return nice[rng() % 6]; }
    if (u < 0.9) return 4 * U() - 2;
    return (U() < 0.5 ? -1 : 1) * std::exp(6 * U() - 3);
}
static double rec(const std::string &n, double v) { if (!used.count(n)) order.push_back(n); used[n] = v; return v; }
static double value(const std::string &n, double dflt) {
    if (useModel) { auto it = model.find(n); if (it != model.end()) return rec(n, it->second); }
    prev.push_back(dflt);
    return rec(n, dflt);
}
static void fail(const char *n, double a, double b) { if (failed.empty()) { failed = n; fa = a; fb = b; } }
extern "C" {
double __vc_real(const char *n) { return value(uname(n), gen()); }
double __vc_realin(const char *n, double lo, double hi) {
    double u = U(), g = gen(), d = u < 0.1 ? lo : u < 0.2 ? hi : (u < 0.4 && g >= lo && g <= hi) ? g : lo + (hi - lo) * U();
    double v = value(uname(n), d);
    if (!(v >= lo && v <= hi)) throw Skip();
    return v;
}
double __vc_pos(const char *n) { double g = std::fabs(gen()); if (g < 1e-6) g = 0.75; double v = value(uname(n), g); if (!(v > 0)) throw Skip(); return v; }
int64_t __vc_int(const char *n, int64_t lo, int64_t hi) {
    double u = U(); int64_t d;
    uint64_t span = (uint64_t)(hi - lo) + 1;
    if (span == 0 || span > 64) { if (u < 0.7) d = lo + (int64_t)(rng() % 8); else if (u < 0.8 && span) d = hi - (int64_t)(rng() % 4); else d = lo + (int64_t)(rng() % (span && span < 64 ? span : 24)); if (d > hi) d = hi; }
    else d = lo + (int64_t)(rng() % span);
    double v = value(uname(n), (double)d);
    int64_t r = (int64_t)v; if (r < lo || r > hi) throw Skip();
    return r;
}
bool __vc_bool(const char *n) { return value(uname(n), (double)(rng() & 1)) != 0; }
static void unit(double *v, const char *n, int d) {
    std::string b = uname(n); double s = 0;
    for (int k = 0; k < d; k++) { v[k] = value(b + "." + std::to_string(k), gen()); s += v[k] * v[k]; }
    if (!(s > 1e-12)) throw Skip();
    s = std::sqrt(s); for (int k = 0; k < d; k++) v[k] /= s;
}
void __vc_unit3(double *v, const char *n) { unit(v, n, 3); }
void __vc_unit4(double *v, const char *n) { unit(v, n, 4); }
void __vc_assume(bool c) { if (!c) throw Skip(); }
void __vc_assert(bool c, const char *n) { nassert++; if (!c) fail(n, 0, 0); }
double vc_tol = 1e-8;
void __vc_assert_eq(double a, double b, const char *n) { nassert++; if (a == b) return; if (!(std::fabs(a - b) <= vc_tol * (1 + std::fabs(a) + std::fabs(b)))) fail(n, a, b); }
void __vc_assert_le(double a, double b, const char *n) { nassert++; if (a <= b) return; if (!(a <= b + vc_tol * (1 + std::fabs(a) + std::fabs(b)))) fail(n, a, b); }
void __vc_assert_multiple(double d, double L, const char *n) { nassert++; double k = d / L; if (!(std::fabs(k - std::round(k)) <= 1e-6 * (1 + std::fabs(k)))) fail(n, d, L); }
void __vc_cover(const char *n) { covers[n]++; }
void __vc_abs(double, const char *) {}
void __vc_lemma_sos(double, double, double, double) {}
void __vc_lemma_eq(double, double) {}
void *__vc_buf(const char *n, int64_t nb, int kind) {
    std::string b = uname(n); size_t sz = nb > 0 ? nb : 0; char *p = (char *)calloc(sz + 16, 1); bufs.push_back(p);
    auto nm = [&](size_t o) { return b + "[" + std::to_string(o) + "]"; };
    if (kind == 0) for (size_t o = 0; o + 8 <= sz; o += 8) { double v = value(nm(o), gen()); memcpy(p + o, &v, 8); }
    else if (kind == 1) for (size_t o = 0; o + 4 <= sz; o += 4) { int v = (int)value(nm(o), (double)((int)(rng() % 12) - 2)); memcpy(p + o, &v, 4); }
    else if (kind == 2) for (size_t o = 0; o < sz; o++) p[o] = (char)(int)value(nm(o), (double)((int)(rng() % 256) - 128));
    else for (size_t o = 0; o < sz; o++) p[o] = (char)0xA5;
    return p;
}
void __vc_abort(void) { throw Skip(); }
bool __vc_native(void) { return true; }
bool __vc_streq(const char *a, const char *b) { return !strcmp(a, b); }
static std::map<std::string, double> ymap;
static double ykey(const char *key, int64_t ix, double d) {
    std::string n = std::string("yaml.") + key + (ix >= 0 ? "[" + std::to_string(ix) + "]" : "");
    auto it = ymap.find(n); if (it != ymap.end()) return it->second;
    return ymap[n] = value(n, d);
}
static uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 33); }
static uint64_t ufh(const char *n, int64_t a, int64_t b, int64_t c) { uint64_t h = ufsalt; for (; *n; n++) h = mix(h * 31 + *n); h = mix(h + a * 0x9E3779B97F4A7C15ULL); h = mix(h ^ (b + 77)); return mix(h + 3 * c); }
double __vc_uf(const char *n, int64_t a, int64_t b, int64_t c) { return (double)(ufh(n, a, b, c) % 2001) / 1000.0 - 1.0; }
bool __vc_same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
double __vc_ufr(const char *, int64_t, double, double, double) { throw Skip(); }
int64_t __vc_ufi(const char *n, int64_t a, int64_t b, int64_t c) { return (int64_t)(ufh(n, a, b, c) % 1000); }
void __vc_unsupported(const char *) {}
void __vc_throw(void) { throw Skip(); }
void __vc_index(int64_t) {}
void __vc_inv(bool (*)(void)) {}
bool __vc_unbounded(void) { return false; }
int64_t __vc_size(const char *n, int64_t lo, int64_t, int64_t hi) {
    double v = value(uname(n), (double)(U() < 0.3 ? lo + (int64_t)(rng() % 3) : lo + (int64_t)(rng() % (uint64_t)(hi - lo + 1))));
    if (!(v >= lo)) throw Skip();
    return v > hi ? hi : (int64_t)v;
}
double __vc_yreal(const char *key, int64_t ix) { return ykey(key, ix, gen()); }
int64_t __vc_yint(const char *key, int64_t ix) { return (int64_t)ykey(key, ix, (double)((int)(rng() % 9) - 1)); }
bool __vc_ybool(const char *key, int64_t ix) { return ykey(key, ix, (double)(rng() & 1)) != 0; }
}
static char crashName[256];
static void dumpInputs(FILE *f) { for (auto &n : order) fprintf(f, "  %s %.17g\n", n.c_str(), used[n]); }
static FILE *out;
static void onsig(int sig) { fprintf(out, "FAIL crash or hang (signal %d)\n", sig); fflush(out); dumpInputs(out); fflush(out); _exit(1); }
int main(int argc, char **argv) {
    // native  HARNESS mode seed n [modelfile]
    std::string h = argv[1], mode = argv[2]; unsigned seed = atoi(argv[3]); long n = atol(argv[4]);
    double tmax = argc > 6 ? atof(argv[6]) : 30;
    if (argc > 5 && strcmp(argv[5], "-")) {
        FILE *f = fopen(argv[5], "r"); char nm[4096]; double v;
        while (f && fscanf(f, "%4095s %lf", nm, &v) == 2) model[nm] = v;
        if (f) fclose(f);
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, ("vc_h_" + h).c_str());
    if (!fn) { fprintf(stderr, "no harness %s\n", h.c_str()); return 2; }
    signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
    if (freopen("/dev/null", "w", stderr)) {}
    int realout = dup(1); if (!freopen("/dev/null", "w", stdout)) {}
    out = fdopen(realout, "w"); signal(SIGALRM, onsig);
    rng.seed(seed * 7919u + std::hash<std::string>()(h));
    long done = 0, skipped = 0; time_t t0 = time(0);
    for (long i = 0; i < n; i++) {
        alarm(20); names.clear(); used.clear(); order.clear(); prev.clear(); failed.clear(); ymap.clear();
        phase = i % 3; ufsalt = rng(); useModel = mode == "replay" || (mode == "near" && i % 2 == 0);
        if (mode == "near" && i > 0 && useModel) { // perturb a few entries of the model
            auto save = model; int k = 1 + rng() % 3; std::vector<std::string> ks; for (auto &x : model) ks.push_back(x.first);
            for (int j = 0; j < k && !ks.empty(); j++) { auto &v = model[ks[rng() % ks.size()]]; v = U() < 0.5 ? gen() : v + (U() - 0.5); }
            try { fn(); done++; } catch (Skip &) { skipped++; failed.clear(); }
            model = save;
        } else { try { fn(); done++; } catch (Skip &) { skipped++; failed.clear(); } }
        for (void *p : bufs) free(p);
        bufs.clear();
        if (!failed.empty()) {
            fprintf(out, "FAIL %s | got %.17g expected %.17g\n", failed.c_str(), fa, fb); for (auto &nm : order) fprintf(out, "  %s %.17g\n", nm.c_str(), used[nm]);
            fflush(out); _exit(1);
        }
        if ((i & 255) == 0 && difftime(time(0), t0) > tmax) break;
    }
    fprintf(out, "OK done %ld skipped %ld asserts %ld covers", done, skipped, nassert);
    for (auto &c : covers) fprintf(out, " %s=%ld", c.first.c_str(), c.second);
    fprintf(out, "\n"); fflush(out); _exit(0);
}
