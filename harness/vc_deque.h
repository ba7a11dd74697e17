// Trusted stand-in for std::deque<ConstraintBlock> (contiguous storage, so that the verifier can index it): include before any repo header.
// Additions go to vc_push, which the harness defines (recording contract); in native runs they are stored as well.
#ifndef VC_DEQUE_H_
#define VC_DEQUE_H_
#include <deque>
#include <cstdlib>
#include <cstring>
#include "vc.h"
struct ConstraintBlock;
static void vc_push(void *que, const ConstraintBlock &b);
template <class T> struct VcQue {
    using value_type = T; using iterator = T *; using const_iterator = const T *; using size_type = std::size_t; using reference = T &; using const_reference = const T &;
    T *d = nullptr; std::size_t n = 0;
    std::size_t size() const { return n; }
    bool empty() const { return n == 0; }
    void clear() { n = 0; d = nullptr; }
    void shrink_to_fit() {}
    T &operator[](std::size_t i) { return d[i]; }
    const T &operator[](std::size_t i) const { return d[i]; }
    T &at(std::size_t i) { return d[i]; }
    const T &at(std::size_t i) const { return d[i]; }
    T *begin() { return d; } T *end() { return d + n; }
    const T *begin() const { return d; } const T *end() const { return d + n; }
    const T *cbegin() const { return d; } const T *cend() const { return d + n; }
    T &front() { return d[0]; } T &back() { return d[n - 1]; }
    const T &front() const { return d[0]; } const T &back() const { return d[n - 1]; }
    void push_back(const T &b) {
        if (__vc_native()) { T *e = (T *)malloc(sizeof(T) * (n + 1)); if (n) memcpy((void *)e, (void *)d, sizeof(T) * n); memcpy((void *)(e + n), (void *)&b, sizeof(T)); d = e; n++; }
        vc_push(this, b);
    }
    template <class... A> void emplace_back(A &&...a) { push_back(T(static_cast<A &&>(a)...)); }
};
namespace std { template <> class deque<ConstraintBlock> : public VcQue<ConstraintBlock> {}; }
#endif
