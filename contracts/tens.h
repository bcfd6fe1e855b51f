// Tensor building for contracts: real Tensor objects over memory owned by the harness.
#ifndef VERIF_TENS_H
#define VERIF_TENS_H
#include "vc.h"
#include "core/tensor.h"
#include "utils/except.h"
#include <string>
#include <vector>
namespace vt {
using namespace ts;
typedef int64_t I;
// exact element count of a shape, -1 when a prefix product of non-zero extents leaves int
inline I spec_count(const Shape &s) {
    I p = 1; bool zero = false;
    for (int i = 0; i < (int) s.size(); ++i) if (s[i] == 0) zero = true;
    if (zero) return 0;
    for (int i = 0; i < (int) s.size(); ++i) { p = p * s[i]; if (p > INT32_MAX || p < -(I) INT32_MAX) return -1; }
    return p;
}
inline Shape pick_shape(const char *rk, const char *dn, int rlo, int rhi, int lo, int hi) {
    int n = vc_pick(rk, rlo, rhi); Shape s;
    for (int i = 0; i < n; ++i) s.push_back(vc_i32(dn, lo, hi));
    return s;
}
inline Tensor over(void *p, size_t bytes, DTYPE t, const Shape &s) { return Tensor(Memory(MemoryDevice(CPU), p, bytes), Tensor::Prototype(t, s)); }
}
// body raises a library exception
#define VT_RAISES(flag, body) bool flag = false; try { body; } catch (const ts::Exception &) { flag = true; }
#endif
