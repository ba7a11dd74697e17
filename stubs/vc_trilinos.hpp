// Interface of the Trilinos types used by the verified code (trusted contracts, single process unless the ghost offsets say otherwise).
#pragma once
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <limits>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#include <algorithm>
#include <mpi.h>
#include "vc.h"
// ghost distribution of a contiguous map: offset of this rank and global size (harnesses may override)
#ifdef VC_MAP_GHOST
static int64_t vc_map_offset(int64_t local); static int64_t vc_map_total(int64_t local);
#endif
#ifdef VC_APPLY_GHOST
static bool vc_apply(int64_t id, bool trans, const double *x, size_t nx, double *y, size_t ny, double alpha, double beta);
#endif
#define TEUCHOS_TEST_FOR_EXCEPTION(c, e, m) do { if (c) { __vc_throw(); } } while (0);
#define TEUCHOS_ASSERT(c) do { if (!(c)) { __vc_throw(); } } while (0);
#define TEUCHOS_ASSERT_EQUALITY(a, b) TEUCHOS_ASSERT((a) == (b))
namespace Teuchos {
enum DataAccess { Copy, View };
enum ETransp { NO_TRANS, TRANS, CONJ_TRANS };
template <class T> class RCP {
  public:
    T *p = nullptr;
    RCP() = default; RCP(decltype(nullptr)) {}
    explicit RCP(T *q) : p(q) {}
    template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type> RCP(const RCP<U> &o) : p(o.p) {}
    T *operator->() const { return p; } T &operator*() const { return *p; } T *get() const { return p; } T *getRawPtr() const { return p; }
    RCP<const T> getConst() const { return RCP<const T>(p); }
    bool is_null() const { return p == nullptr; } bool is_valid_ptr() const { return p != nullptr; }
    void reset() { p = nullptr; } void swap(RCP &o) { T *t = p; p = o.p; o.p = t; }
    explicit operator bool() const { return p; }
    template <class U> bool operator==(const RCP<U> &o) const { return p == o.p; }
    template <class U> bool operator!=(const RCP<U> &o) const { return p != o.p; }
};
template <class T> RCP<T> rcp(T *p) { return RCP<T>(p); }
template <class T> RCP<T> rcp(T *p, bool) { return RCP<T>(p); }
template <class T> RCP<T> rcpFromRef(T &r) { return RCP<T>(&r); }
template <class T, class U> RCP<T> rcp_dynamic_cast(const RCP<U> &u, bool = false) { return RCP<T>((T *)u.p); }
template <class T, class U> RCP<T> rcp_static_cast(const RCP<U> &u) { return RCP<T>((T *)u.p); }
template <class T, class U> RCP<T> rcp_const_cast(const RCP<U> &u) { return RCP<T>((T *)u.p); }
template <class O> class Comm { public: int getRank() const { int r; MPI_Comm_rank(0, &r); return r; } int getSize() const { int r; MPI_Comm_size(0, &r); return r; } void barrier() const {} };
template <class O> class MpiComm : public Comm<O> { public: MpiComm(MPI_Comm) {} };
template <class O> class SerialComm : public Comm<O> {};
template <class O, class T> struct SumValueReductionOp { static T f(T a, T b) { return a + b; } };
template <class O, class T> struct MaxValueReductionOp { static T f(T a, T b) { return a > b ? a : b; } };
template <class O, class T> struct MinValueReductionOp { static T f(T a, T b) { return a < b ? a : b; } };
template <class O, class T, class Op> inline void reduceAll(const Comm<O> &, const Op &, O n, const T *a, T *b) { for (O i = 0; i < n; i++) b[i] = a[i]; }
template <class T> struct OrdinalTraits { static T invalid() { return (T)-1; } };
template <class T> struct ScalarTraits { static T one() { return T(1); } static T zero() { return T(0); } static T nan() { return T(0) / T(0); } };
struct ParameterList { template <class T> void set(const char *, T) {} template <class T> void set(const std::string &, T) {} };
inline RCP<ParameterList> parameterList() { return rcp(new ParameterList()); }
class Time { public: int on = 0; void enable() { on = 1; } void disable() { on = 0; } };
class TimeMonitor { public: TimeMonitor(Time &) {} static RCP<Time> getNewCounter(const std::string &) { return rcp(new Time()); } static void summarize() {} static void zeroOutTimers() {} };
class GlobalMPISession {}; class oblackholestream {};
template <class T> class ArrayView { public: const T *p; size_t n; const T &operator[](size_t i) const { return p[i]; } size_t size() const { return n; } };
// index view that is either an explicit list or a contiguous range
template <class T> class ArrayViewIx { public: const T *p; T base; size_t n; T operator[](size_t i) const { return p ? p[i] : (T)(base + (T)i); } size_t size() const { return n; } };
template <class O, class S> class SerialDenseMatrix {
    std::vector<S> d; O m, n;
  public:
    SerialDenseMatrix(O m_, O n_, bool = true) : d((size_t)m_ * n_, S(0)), m(m_), n(n_) {}
    S &operator()(O i, O j) { return d[(size_t)j * m + i]; } const S &operator()(O i, O j) const { return d[(size_t)j * m + i]; }
    int multiply(ETransp ta, ETransp tb, S al, const SerialDenseMatrix &A, const SerialDenseMatrix &B, S be) {
        O kk = ta == NO_TRANS ? A.n : A.m;
        for (O i = 0; i < m; i++) for (O j = 0; j < n; j++) { S s = 0; for (O k = 0; k < kk; k++) s += (ta == NO_TRANS ? A(i, k) : A(k, i)) * (tb == NO_TRANS ? B(k, j) : B(j, k)); (*this)(i, j) = al * s + (be == S(0) ? S(0) : be * (*this)(i, j)); }
        return 0;
    }
};
}
namespace Kokkos {
struct HostSpace {};
template <class T> class View;
template <class T> class View<T *> {
  public:
    T *p = nullptr; size_t n = 0;
    View() = default;
    View(const char *, size_t n_) : p((T *)calloc(n_ + 1, sizeof(T))), n(n_) {}
    View(const std::string &, size_t n_) : p((T *)calloc(n_ + 1, sizeof(T))), n(n_) {}
    T &operator[](size_t i) const { return p[i]; } T &operator()(size_t i) const { return p[i]; }
    size_t dimension_0() const { return n; } size_t size() const { return n; } size_t extent(int) const { return n; } T *data() const { return p; }
};
template <class T> class View2 {
  public:
    T *p; size_t n, nc;
    T &operator()(size_t i, size_t c) const { return p[i + c * n]; }
    size_t dimension_0() const { return n; } size_t dimension_1() const { return nc; } size_t extent(int d) const { return d ? nc : n; } T *data() const { return p; }
};
}
namespace Tpetra {
typedef size_t global_size_t;
enum LocalGlobal { LocallyReplicated, GloballyDistributed };
enum CombineMode { ADD, INSERT, REPLACE, ABSMAX, ZERO };
template <class L = int, class G = int, class N = int> class Map {
  public:
    typedef L local_ordinal_type; typedef G global_ordinal_type; typedef N node_type;
    Teuchos::RCP<const Teuchos::Comm<int>> comm; G base = 0; size_t nl = 0; size_t ng = 0; const G *ids = nullptr; bool contig = true;
    template <class S> Map(S global, size_t local, G indexBase, const Teuchos::RCP<const Teuchos::Comm<int>> &c) : comm(c), nl(local) {
#ifdef VC_MAP_GHOST
        base = (G)(indexBase + vc_map_offset((int64_t)local)); ng = (size_t)vc_map_total((int64_t)local);
#else
        base = indexBase; ng = local;
#endif
    }
    template <class S> Map(S global, const G *list, L n, G indexBase, const Teuchos::RCP<const Teuchos::Comm<int>> &c) : comm(c), base(indexBase), nl((size_t)n), ng((size_t)global), contig(false) {
        G *q = (G *)malloc(sizeof(G) * (size_t)n + 1); for (L i = 0; i < n; i++) q[i] = list[i]; ids = q;
    }
    template <class S> Map(S global, G indexBase, const Teuchos::RCP<const Teuchos::Comm<int>> &c, LocalGlobal = GloballyDistributed) : comm(c), base(indexBase), nl((size_t)global), ng((size_t)global) {}
    size_t getNodeNumElements() const { return nl; } size_t getLocalNumElements() const { return nl; } global_size_t getGlobalNumElements() const { return ng; }
    G getMinGlobalIndex() const { return ids ? ids[0] : base; } G getMaxGlobalIndex() const { return ids ? ids[nl - 1] : (G)(base + (G)nl - 1); }
    G getIndexBase() const { return 0; } G getMinAllGlobalIndex() const { return 0; } G getMaxAllGlobalIndex() const { return (G)ng - 1; }
    Teuchos::ArrayViewIx<G> getMyGlobalIndices() const { Teuchos::ArrayViewIx<G> v; v.p = ids; v.base = base; v.n = nl; return v; }
    Teuchos::ArrayViewIx<G> getNodeElementList() const { return getMyGlobalIndices(); }
    G getGlobalElement(L i) const { return ids ? ids[i] : base + i; }
    L getLocalElement(G g) const {
        if (!ids) return g - base;
        if (VC_SYMBOLIC) { L p = (L)__vc_ufi("lid", (int64_t)g, 0, 0); __vc_assume(p >= 0); __vc_assume((size_t)p < nl);
#ifndef VC_LID_ABSTRACT
            __vc_assume(ids[p] == g);
#endif
            return p; }
        for (size_t i = 0; i < nl; i++) if (ids[i] == g) return (L)i;
        return -1;
    }
    bool isContiguous() const { return contig; }
    bool isSameAs(const Map &o) const { return this == &o || (nl == o.nl && base == o.base && ids == o.ids); }
    bool isCompatible(const Map &o) const { return nl == o.nl; }
    const Teuchos::RCP<const Teuchos::Comm<int>> &getComm() const { return comm; }
    std::string description() const { return std::string(); }
};
template <class L = int, class G = int, class N = int> class Import { public: template <class A, class B> Import(const A &, const B &) {} };
template <class S, class L = int, class G = int, class N = int> class Vector;
template <class S = double, class L = int, class G = int, class N = int> class MultiVector {
  public:
    typedef S scalar_type; typedef L local_ordinal_type; typedef G global_ordinal_type; typedef N node_type; typedef Map<L, G, N> map_type;
    Teuchos::RCP<const map_type> map; S *d = nullptr; size_t n = 0; size_t nc = 1;
    MultiVector() = default;
    void alloc(bool zero) { d = zero ? (S *)calloc(n * nc + 1, sizeof(S)) : (S *)malloc(sizeof(S) * n * nc + 1); }
    MultiVector(const Teuchos::RCP<const map_type> &m, size_t nvec, bool zero = true) : map(m), n(m->getNodeNumElements()), nc(nvec) { alloc(zero); }
    const Teuchos::RCP<const map_type> &getMap() const { return map; }
    size_t getNumVectors() const { return nc; } size_t getLocalLength() const { return n; } global_size_t getGlobalLength() const { return map->getGlobalNumElements(); }
    template <class Sp> Kokkos::View2<S> getLocalView() const { Kokkos::View2<S> v; v.p = d; v.n = n; v.nc = nc; return v; }
    template <class Sp> void modify() {} template <class Sp> void sync() {}
    void putScalar(const S &v) { for (size_t i = 0; i < n * nc; i++) d[i] = v; }
    void scale(const S &a) { for (size_t i = 0; i < n; i++) d[i] = a * d[i]; }
    void scale(const S &a, const MultiVector &A) { for (size_t i = 0; i < n; i++) d[i] = a * A.d[i]; }
    void update(const S &a, const MultiVector &A, const S &b) {
        if (b == S(0)) { for (size_t i = 0; i < n; i++) d[i] = a * A.d[i]; }
        else { for (size_t i = 0; i < n; i++) d[i] = a * A.d[i] + b * d[i]; }
    }
    void update(const S &a, const MultiVector &A, const S &b, const MultiVector &B, const S &g) {
        if (g == S(0)) { for (size_t i = 0; i < n; i++) d[i] = a * A.d[i] + b * B.d[i]; }
        else { for (size_t i = 0; i < n; i++) d[i] = a * A.d[i] + b * B.d[i] + g * d[i]; }
    }
    void randomize(const S &lo, const S &hi) { for (size_t i = 0; i < n * nc; i++) d[i] = __vc_realin("randomized", lo, hi); }
    void randomize() { randomize(-1, 1); }
    void abs(const MultiVector &A) { for (size_t i = 0; i < n; i++) d[i] = std::fabs(A.d[i]); }
    void reciprocal(const MultiVector &A) { for (size_t i = 0; i < n; i++) d[i] = S(1) / A.d[i]; }
    template <class I> void doImport(const MultiVector &, const I &, CombineMode) {}
    Teuchos::RCP<const Vector<S, L, G, N>> getVector(size_t j) const { return Teuchos::RCP<const Vector<S, L, G, N>>(new Vector<S, L, G, N>(map, d + j * n)); }
    Teuchos::RCP<Vector<S, L, G, N>> getVectorNonConst(size_t j) { return Teuchos::RCP<Vector<S, L, G, N>>(new Vector<S, L, G, N>(map, d + j * n)); }
    std::string description() const { return std::string(); }
};
template <class S, class L, class G, class N> class Vector : public MultiVector<S, L, G, N> {
  public:
    typedef MultiVector<S, L, G, N> B; typedef typename B::map_type map_type;
    Vector(const Teuchos::RCP<const map_type> &m, bool zero = true) { this->map = m; this->n = m->getNodeNumElements(); this->alloc(zero); }
    Vector(const Teuchos::RCP<const map_type> &m, S *p) { this->map = m; this->n = m->getNodeNumElements(); this->d = p; }
    Vector(const Vector &o, Teuchos::DataAccess = Teuchos::Copy) { this->map = o.map; this->n = o.n; this->alloc(false); for (size_t i = 0; i < this->n; i++) this->d[i] = o.d[i]; }
    S dot(const Vector &o) const { S s = 0; for (size_t i = 0; i < this->n; i++) s += this->d[i] * o.d[i]; return s; }
    S norm2() const { S s = 0; for (size_t i = 0; i < this->n; i++) s += this->d[i] * this->d[i]; return std::sqrt(s); }
    S norm1() const { S s = 0; for (size_t i = 0; i < this->n; i++) s += std::fabs(this->d[i]); return s; }
    S normInf() const { S s = 0; for (size_t i = 0; i < this->n; i++) { S a = std::fabs(this->d[i]); s = a > s ? a : s; } return s; }
    void elementWiseMultiply(S a, const Vector &A, const Vector &Bv, S b) {
        if (b == S(0)) { for (size_t i = 0; i < this->n; i++) this->d[i] = a * A.d[i] * Bv.d[i]; }
        else { for (size_t i = 0; i < this->n; i++) this->d[i] = b * this->d[i] + a * A.d[i] * Bv.d[i]; }
    }
    Teuchos::RCP<Vector> offsetViewNonConst(const Teuchos::RCP<const map_type> &m, size_t off) { return Teuchos::RCP<Vector>(new Vector(m, this->d + off)); }
    void replaceLocalValue(L i, const S &v) { this->d[i] = v; } void sumIntoLocalValue(L i, const S &v) { this->d[i] += v; }
};
template <class S = double, class L = int, class G = int, class N = int> class Operator {
  public:
    typedef S scalar_type; typedef L local_ordinal_type; typedef G global_ordinal_type; typedef N node_type;
    virtual Teuchos::RCP<const Map<L, G, N>> getDomainMap() const = 0;
    virtual Teuchos::RCP<const Map<L, G, N>> getRangeMap() const = 0;
    virtual void apply(const MultiVector<S, L, G, N> &X, MultiVector<S, L, G, N> &Y, Teuchos::ETransp mode = Teuchos::NO_TRANS, S alpha = 1, S beta = 0) const = 0;
    virtual bool hasTransposeApply() const { return false; }
    virtual std::string description() const { return std::string(); }
};
// a linear operator given by an uninterpreted coefficient  a(id,i,j)
inline void vc_matvec(int64_t id, const double *x, size_t nx, double *y, size_t ny, bool trans, double alpha, double beta) {
#ifdef VC_APPLY_GHOST
    if (vc_apply(id, trans, x, nx, y, ny, alpha, beta)) return;
#endif
    for (size_t i = 0; i < ny; i++) {
        double s = 0;
        for (size_t j = 0; j < nx; j++) s += (trans ? __vc_uf("mat", id, (int64_t)j, (int64_t)i) : __vc_uf("mat", id, (int64_t)i, (int64_t)j)) * x[j];
        y[i] = beta == 0 ? alpha * s : alpha * s + beta * y[i];
    }
}
template <class S = double, class L = int, class G = int, class N = int> class CrsMatrix : public Operator<S, L, G, N> {
  public:
    typedef Map<L, G, N> map_type;
    Teuchos::RCP<const map_type> rowMap, colMap, domainMap, rangeMap; Kokkos::View<size_t *> rp; Kokkos::View<L *> ci; Kokkos::View<S *> va; bool filled = false;
    int64_t id = 0; bool tr = false;   // id != 0: abstract operator
    CrsMatrix(const Teuchos::RCP<const map_type> &r, const Teuchos::RCP<const map_type> &c, const Kokkos::View<size_t *> &p, const Kokkos::View<L *> &ix, const Kokkos::View<S *> &v) : rowMap(r), colMap(c), rp(p), ci(ix), va(v) {}
    CrsMatrix(int64_t id_, bool tr_, const Teuchos::RCP<const map_type> &dom, const Teuchos::RCP<const map_type> &ran) : rowMap(ran), domainMap(dom), rangeMap(ran), filled(true), id(id_), tr(tr_) {}
    void fillComplete(const Teuchos::RCP<const map_type> &d, const Teuchos::RCP<const map_type> &r) { domainMap = d; rangeMap = r; filled = true; }
    void fillComplete() { domainMap = rowMap; rangeMap = rowMap; filled = true; }
    Teuchos::RCP<const map_type> getDomainMap() const { return domainMap; } Teuchos::RCP<const map_type> getRangeMap() const { return rangeMap; }
    Teuchos::RCP<const map_type> getRowMap() const { return rowMap; } Teuchos::RCP<const map_type> getColMap() const { return colMap; }
    void apply(const MultiVector<S, L, G, N> &X, MultiVector<S, L, G, N> &Y, Teuchos::ETransp mode = Teuchos::NO_TRANS, S alpha = 1, S beta = 0) const {
        if (id) { vc_matvec(id, X.d, X.n, Y.d, Y.n, tr != (mode != Teuchos::NO_TRANS), alpha, beta); return; }
        for (size_t i = 0; i < Y.n; i++) { S s = 0; for (size_t k = rp[i]; k < rp[i + 1]; k++) s += va[k] * X.d[domainMap->getLocalElement(colMap->getGlobalElement(ci[k]))]; Y.d[i] = beta == S(0) ? alpha * s : alpha * s + beta * Y.d[i]; }
    }
    size_t getGlobalNumEntries() const { return va.size(); }
};
template <class S = double, class L = int, class G = int, class N = int> class RowMatrixTransposer {
    Teuchos::RCP<const CrsMatrix<S, L, G, N>> A;
  public:
    RowMatrixTransposer(const Teuchos::RCP<const CrsMatrix<S, L, G, N>> &a) : A(a) {}
    Teuchos::RCP<CrsMatrix<S, L, G, N>> createTranspose() {
        if (!VC_SYMBOLIC && !A->id) {   // native runs: explicit transpose, local indices of the domain as rows
            const size_t m = A->domainMap->getNodeNumElements(), n = A->rangeMap->getNodeNumElements(), nz = A->rp[n]; Kokkos::View<size_t *> rp("rp", m + 1); Kokkos::View<L *> ci("ci", nz); Kokkos::View<S *> va("va", nz); size_t k = 0;
            for (size_t r = 0; r < m; r++) { rp[r] = k; for (size_t i = 0; i < n; i++) for (size_t e = A->rp[i]; e < A->rp[i + 1]; e++) if ((size_t)A->domainMap->getLocalElement(A->colMap->getGlobalElement(A->ci[e])) == r) { ci[k] = (L)i; va[k] = A->va[e]; k++; } }
            rp[m] = k; auto t = Teuchos::rcp(new CrsMatrix<S, L, G, N>(A->domainMap, A->rangeMap, rp, ci, va)); t->fillComplete(A->rangeMap, A->domainMap); return t;
        }
        return Teuchos::rcp(new CrsMatrix<S, L, G, N>(A->id, !A->tr, A->rangeMap, A->domainMap)); }
};
namespace MatrixMarket {
template <class M> struct Writer {
    template <class... A> static void writeSparseFile(A &&...) {} template <class... A> static void writeDenseFile(A &&...) {} template <class... A> static void writeMapFile(A &&...) {}
};
}
}
namespace Belos {
enum ETrans { NOTRANS, TRANS, CONJTRANS };
template <class S, class MV, class OP> class OperatorTraits {};
}
