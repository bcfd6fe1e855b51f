// C14: element type conversion converts every element exactly once.
#include "tens.h"
#include "core/tensor_builder.h"
#include "core/ieee754_float.h"
#include <cmath>
using namespace ts; using namespace vt;
#define NUM(X) X(BOOLEAN) X(INT8) X(UINT8) X(INT16) X(UINT16) X(INT32) X(UINT32) X(INT64) X(UINT64) X(FLOAT16) X(FLOAT32) X(FLOAT64) X(CHAR8) X(CHAR16) X(CHAR32)
static const DTYPE NT[] = {BOOLEAN, INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT16, FLOAT32, FLOAT64, CHAR8, CHAR16, CHAR32};
static const DTYPE BAD[] = {VOID, PTR, UNKNOWN8, UNKNOWN16, UNKNOWN32, UNKNOWN64, UNKNOWN128, COMPLEX32, COMPLEX64, COMPLEX128, SINK8Q0, SINK8Q1, SINK8Q7};
template <typename T> static bool real() { return false; }
template <> bool real<float>() { return true; }
template <> bool real<double>() { return true; }
template <> bool real<float16>() { return true; }
// a floating value converts to an integer type when its truncation is representable
template <typename D> static bool fits(double v) {
    double lo = (double) std::numeric_limits<D>::min(), hi = (double) std::numeric_limits<D>::max();
    if (sizeof(D) == 8) return (v >= lo) & (v < hi);       // hi rounds up to the next power of two
    return (v > lo - 1) & (v < hi + 1);
}
template <> bool fits<float>(double) { return true; }
template <> bool fits<double>(double) { return true; }
template <> bool fits<float16>(double) { return true; }
template <typename T> static uint64_t bits(const T &v) { uint64_t b = 0; memcpy(&b, &v, sizeof(T)); return b; }
template <DTYPE SD, DTYPE DD> static void pair(int n, int sym) {
    typedef typename dtype<SD>::declare S; typedef typename dtype<DD>::declare D;
    // `sym` < 0: every element arbitrary; otherwise element `sym` is arbitrary and the others are distinct constants
    S *p = (S *) vc_cells("a", n, sizeof(S), real<S>() && SD != FLOAT16 ? 1 : 0), *q = (S *) vc_out_array("b", n ? n : 1, sizeof(S), real<S>() && SD != FLOAT16 ? 1 : 0);
    for (int i = 0; i < n; ++i) {
        if (sym >= 0 && i != sym) p[i] = S(float(i + 1));
        if (real<S>() && !vc_symbolic()) { if (!real<D>()) vc_assume(fits<D>((double) (float) p[i]) & fits<D>((double) p[i])); }
        q[i] = p[i];
    }
    Shape d; d.push_back(n); if (n % 2 == 0) { d[0] = 2; d.push_back(n / 2); }
    Tensor a = over(p, n * sizeof(S), SD, d);
    Tensor r = tensor::cast(DD, a);
    vc_assert(r.dtype() == DD && r.sizes() == d, "same shape, requested type");
    vc_assert((I) r.weak_memory().size() == (I) (n * sizeof(D)), "block holds every element");
    for (int i = 0; i < n; ++i) vc_assert(bits<D>(r.data<D>()[i]) == bits<D>(static_cast<D>(q[i])), "element is the standard conversion of the element at its position");
    for (int i = 0; i < n; ++i) vc_assert(bits<S>(p[i]) == bits<S>(q[i]), "source unchanged");
    if (SD != DD) vc_assert(n == 0 || r.data() != (void *) p, "a converted tensor has its own block");
    vc_cover("end");
}
template <DTYPE SD> static void from() {
    int k = vc_pick("dst", 0, 14); bool half = NT[k] == FLOAT16 || SD == FLOAT16; int n = vc_pick("n", 0, half ? 5 : 9); int sym = -1;
    if (half) sym = n ? vc_pick("at", 0, n - 1) : 0;
    switch (NT[k]) {
#define X(D) case D: pair<SD, D>(n, sym); break;
        NUM(X)
#undef X
        default: break;
    }
}
VC_HARNESS(from_bool) { from<BOOLEAN>(); }
VC_HARNESS(from_i8) { from<INT8>(); }
VC_HARNESS(from_u8) { from<UINT8>(); }
VC_HARNESS(from_i16) { from<INT16>(); }
VC_HARNESS(from_u16) { from<UINT16>(); }
VC_HARNESS(from_i32) { from<INT32>(); }
VC_HARNESS(from_u32) { from<UINT32>(); }
VC_HARNESS(from_i64) { from<INT64>(); }
VC_HARNESS(from_u64) { from<UINT64>(); }
VC_HARNESS(from_f16) { from<FLOAT16>(); }
VC_HARNESS(from_f32) { from<FLOAT32>(); }
VC_HARNESS(from_f64) { from<FLOAT64>(); }
VC_HARNESS(from_c8) { from<CHAR8>(); }
VC_HARNESS(from_c16) { from<CHAR16>(); }
VC_HARNESS(from_c32) { from<CHAR32>(); }
VC_HARNESS(unsupported) {   // either side outside the numeric types
    DTYPE s = NT[vc_pick("s", 0, 14)], d = BAD[vc_pick("d", 0, 12)]; bool flip = vc_bool("flip"); int n = 2;
    if (flip) { DTYPE t = s; s = d; d = t; }
    char *p = (char *) vc_array("a", n * type_bytes(s) + 1, 1, 0); int k = vc_i32("k", 0, 32); vc_assume(k < n * type_bytes(s) + 1); char was = p[k];
    Shape sh; sh.push_back(n); Tensor a = over(p, n * type_bytes(s), s, sh);
    VT_RAISES(raised, tensor::cast(d, a)); vc_assert(raised, "unsupported conversion raises");
    VT_RAISES(raised2, tensor::clone(d, a)); vc_assert(raised2, "unsupported conversion raises");
    vc_assert(p[k] == was, "source unchanged");
    vc_cover("end");
}
VC_HARNESS(same_type) {   // no conversion: the same elements; clone gives its own copy
    DTYPE t = (DTYPE) vc_pick("t", 1, 24); int n = vc_pick("n", 0, 3), b = type_bytes(t) * n;
    char *p = (char *) vc_array("a", b + 1, 1, 0);
    Shape sh; sh.push_back(n); Tensor a = over(p, b, t, sh);
    Tensor r = tensor::cast(t, a); vc_assert(r.data() == (void *) p && r.dtype() == t && r.sizes() == sh, "identity conversion");
    Tensor c = tensor::clone(t, a); vc_assert(c.dtype() == t && c.sizes() == sh && (b == 0 || c.data() != (void *) p), "clone has its own block");
    VC_FORALL(k, 0, b, vc_assert(((char *) c.data())[k] == p[k], "clone has the same bytes"));
    vc_cover("end");
}
template <typename T> static void build_one(DTYPE t) {
    int n = vc_pick("n", 0, 5); T *p = (T *) vc_array("a", n, sizeof(T), real<T>() ? 1 : 0);
    Tensor a = tensor_builder<T>::build(p, (size_t) n);
    vc_assert(a.dtype() == t && a.dims() == 1 && a.size(0) == n, "vector tensor of the given type");
    for (int i = 0; i < n; ++i) vc_assert(bits<T>(a.data<T>()[i]) == bits<T>(p[i]), "element stored at its position");
    std::vector<T> v(p, p + n); Tensor b = tensor::from(v); Tensor c = n ? tensor::from(p[0]) : b;
    vc_assert(b.dtype() == t && b.count() == n, "vector tensor");
    for (int i = 0; i < n; ++i) vc_assert(bits<T>(b.data<T>()[i]) == bits<T>(p[i]), "element stored at its position");
    if (n) vc_assert(c.count() == 1 && bits<T>(c.data<T>()[0]) == bits<T>(p[0]), "single element");
}
VC_HARNESS(build) {
    switch (vc_pick("t", 0, 9)) {
        case 0: build_one<int8_t>(INT8); break; case 1: build_one<uint8_t>(UINT8); break; case 2: build_one<int16_t>(INT16); break; case 3: build_one<uint16_t>(UINT16); break;
        case 4: build_one<int32_t>(INT32); break; case 5: build_one<uint32_t>(UINT32); break; case 6: build_one<int64_t>(INT64); break; case 7: build_one<uint64_t>(UINT64); break;
        case 8: build_one<float>(FLOAT32); break; case 9: build_one<double>(FLOAT64); break;
    }
    vc_cover("end");
}
VC_HARNESS(vectors) {   // array::to_*: every element converted, in order
    int n = vc_pick("n", 0, 5); int32_t *p = (int32_t *) vc_array("a", n, 4, 0);
    Shape sh; sh.push_back(n); Tensor a = over(p, n * 4, INT32, sh);
    std::vector<int32_t> vi = tensor::array::to_int(a); std::vector<int64_t> vl = tensor::array::to_long(a); std::vector<uint32_t> vu = tensor::array::to_uint(a);
    std::vector<float> vf = tensor::array::to_float(a); std::vector<double> vd = tensor::array::to_double(a);
    vc_assert((int) vi.size() == n && (int) vl.size() == n && (int) vu.size() == n && (int) vf.size() == n && (int) vd.size() == n, "as many values as elements");
    for (int i = 0; i < n; ++i) vc_assert(vi[i] == p[i] && vl[i] == p[i] && vu[i] == (uint32_t) p[i] && bits(vf[i]) == bits((float) p[i]) && bits(vd[i]) == bits((double) p[i]), "value at its position");
    if (n) vc_assert(tensor::to_int(a) == p[0] && tensor::to_uint(a) == (uint32_t) p[0] && bits(tensor::to_float(a)) == bits((float) p[0]) && bits(tensor::to_double(a)) == bits((double) p[0]), "scalar is the first element");
    else { VT_RAISES(r1, tensor::to_int(a)); VT_RAISES(r2, tensor::to_float(a)); VT_RAISES(r3, tensor::to_bool(a)); vc_assert(r1 && r2 && r3, "no element: raises"); }
    vc_cover("end");
}
VC_HARNESS(bools) {
    int n = vc_pick("n", 0, 5); uint8_t *p = (uint8_t *) vc_array("a", n, 1, 0);
    Shape sh; sh.push_back(n); Tensor a = over(p, n, UINT8, sh);
    std::vector<bool> v = tensor::array::to_bool(a);
    vc_assert((int) v.size() == n, "as many values as elements");
    for (int i = 0; i < n; ++i) vc_assert(v[i] == (p[i] != 0), "value at its position");
    if (n) vc_assert(tensor::to_bool(a) == (p[0] != 0), "scalar is the first element");
    std::vector<bool> w; for (int i = 0; i < n; ++i) w.push_back(p[i] & 1);
    Tensor b = tensor_builder<bool>::build(w); vc_assert(b.dtype() == BOOLEAN && b.count() == n, "boolean tensor");
    for (int i = 0; i < n; ++i) vc_assert(b.data<uint8_t>()[i] == (p[i] & 1), "boolean at its position");
    vc_cover("end");
}
VC_HARNESS(strings) {
    int n = vc_pick("n", 0, 6); std::string s; for (int i = 0; i < n; ++i) s.push_back((char) vc_u8("c"));
    Tensor a = tensor::from(s); vc_assert(a.dtype() == CHAR8 && a.dims() == 1 && a.size(0) == n, "character tensor");
    std::string r = tensor::to_string(a); vc_assert((int) r.size() == n, "length kept");
    for (int i = 0; i < n; ++i) vc_assert(r[i] == s[i] && a.data<char>()[i] == s[i], "characters kept");
    vc_cover("end");
}
VC_HARNESS(supported) {
    int t = vc_pick("t", 0, 40); bool num = false; for (int i = 0; i < 15; ++i) num = num || NT[i] == t;
    vc_assert(tensor::support((DTYPE) t) == num, "support lists exactly the convertible types");
    vc_cover("end");
}
