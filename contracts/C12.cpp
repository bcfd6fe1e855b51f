// C12: half precision conversions, comparison, sign and arithmetic.
#include "vc.h"
#include "core/ieee754_float.h"
typedef ts::float16 H;
typedef ts::bitset_code<16> B16;
static H half(uint16_t c) { return H(B16(c)); }
static uint32_t fbits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static uint64_t dbits(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
static float fbitsf(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static double dbitsf(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static uint16_t finite(const char *n) { uint16_t h = vc_u16(n); vc_assume((h & 0x7c00) != 0x7c00); return h; }
static uint16_t subnormal(const char *n) { uint16_t h = vc_u16(n); vc_assume((h & 0x7c00) == 0 && (h & 0x3ff) != 0); return h; }
static uint16_t normal(const char *n) { uint16_t h = vc_u16(n); vc_assume((h & 0x7c00) != 0x7c00 && (h & 0x7c00) != 0); return h; }
VC_HARNESS(widen_normal) {
    uint16_t h = normal("h");
    uint32_t s = h >> 15, e = (h >> 10) & 31, f = h & 0x3ff;
    vc_assert(fbits(float(half(h))) == (s << 31 | (e + 112) << 23 | f << 13), "half to single is exact for normal numbers");
    vc_assert(dbits(double(half(h))) == ((uint64_t) s << 63 | (uint64_t) (e + 1008) << 52 | (uint64_t) f << 42), "half to double is exact for normal numbers");
    vc_cover("end");
}
VC_HARNESS(widen_zero) {
    for (int s = 0; s < 2; ++s) {
        vc_assert(fbits(float(half(s << 15))) == (uint32_t) s << 31, "signed zero to single");
        vc_assert(dbits(double(half(s << 15))) == (uint64_t) s << 63, "signed zero to double");
        vc_assert(half(s << 15).iszero(), "zero");
    }
    vc_cover("end");
}
VC_HARNESS(widen_subnormal) {   // value is fraction * 2^-24
    uint16_t h = subnormal("h");
    uint32_t f = h & 0x3ff, s = h >> 15;
    int p = 0;                                     // position of the leading bit
    for (int i = 9; i >= 0; --i) if ((f >> i) & 1) { p = i; break; }
    uint32_t m = (f << (10 - p)) & 0x3ff;          // fraction after the leading bit
    vc_assert(fbits(float(half(h))) == (s << 31 | (uint32_t) (p - 24 + 127) << 23 | m << 13), "half to single is exact for subnormal numbers");
    vc_assert(dbits(double(half(h))) == ((uint64_t) s << 63 | (uint64_t) (p - 24 + 1023) << 52 | (uint64_t) m << 42), "half to double is exact for subnormal numbers");
    vc_cover("end");
}
VC_HARNESS(round_trip_single) {
    uint16_t h = finite("h");
    vc_assert(H(float(half(h))).code() == h, "half -> single -> half is the identity");
    vc_cover("end");
}
VC_HARNESS(round_trip_double) {
    uint16_t h = finite("h");
    vc_assert(H(double(half(h))).code() == h, "half -> double -> half is the identity");
    vc_cover("end");
}
VC_HARNESS(narrow_single) {     // toward zero, saturating, never collapsing a non-zero value to zero
    uint32_t b = vc_u32("b"); vc_assume((b & 0x7f800000) != 0x7f800000);
    uint32_t s = b >> 31, e = (b >> 23) & 255, f = b & 0x7fffff;
    uint32_t r;
    if (e == 0 && f == 0) r = 0;
    else if (e >= 143) r = 0x7bff;
    else if (e >= 113) r = (e - 112) << 10 | f >> 13;
    else { r = e < 103 ? 0 : (0x800000 | f) >> (126 - e); if (r == 0) r = 1; }
    vc_assert(H(fbitsf(b)).code() == (s << 15 | r), "single to half truncates toward zero and saturates");
    vc_cover("end");
}
VC_HARNESS(narrow_double) {
    uint64_t b = vc_u64("b"); vc_assume((b >> 52 & 2047) != 2047);
    uint64_t s = b >> 63, e = (b >> 52) & 2047, f = b & ((1ull << 52) - 1);
    uint64_t r;
    if (e == 0 && f == 0) r = 0;
    else if (e >= 1039) r = 0x7bff;
    else if (e >= 1009) r = (e - 1008) << 10 | f >> 42;
    else { r = e < 999 ? 0 : (1ull << 52 | f) >> (1051 - e); if (r == 0) r = 1; }
    vc_assert(H(dbitsf(b)).code() == (s << 15 | r), "double to half truncates toward zero and saturates");
    vc_cover("end");
}
static int32_t order(uint16_t h) { int32_t m = h & 0x7fff; return (h & 0x8000) ? -m : m; }
VC_HARNESS(compare) {
    uint16_t a = finite("a"), b = finite("b");
    H x = half(a), y = half(b); int32_t p = order(a), q = order(b);
    vc_assert((x == y) == (p == q), "==");
    vc_assert((x != y) == (p != q), "!=");
    vc_assert((x < y) == (p < q), "<");
    vc_assert((x > y) == (p > q), ">");
    vc_assert((x <= y) == (p <= q), "<=");
    vc_assert((x >= y) == (p >= q), ">=");
    vc_cover("end");
}
VC_HARNESS(negate) {
    uint16_t a = finite("a");
    vc_assert((-half(a)).code() == (a ^ 0x8000), "negation flips the sign only");
    vc_cover("end");
}
VC_HARNESS(copy_code) {
    uint16_t a = vc_u16("a"); H x = half(a); H y(x); H z = half(0); z = x;
    vc_assert(x.code() == a && y.code() == a && z.code() == a, "bits preserved by copy");
    vc_cover("end");
}
static bool nonnan(float f) { return (fbits(f) & 0x7f800000) != 0x7f800000; }
VC_HARNESS(arithmetic) {
    uint16_t a = finite("a"), b = finite("b"); H x = half(a), y = half(b);
    int op = vc_pick("op", 0, 3);
    float r = op == 0 ? float(x) + float(y) : op == 1 ? float(x) - float(y) : op == 2 ? float(x) * float(y) : float(x) / float(y);
    vc_assume(nonnan(r));
    H z = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
    vc_assert(z.code() == H(r).code(), "arithmetic is the single precision operation rounded to half");
    vc_cover("end");
}
VC_HARNESS(from_integer) {
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX); int k = vc_pick("k", 0, 7);
    if (k == 0) vc_assert(H((int8_t) i).code() == H(float((int8_t) i)).code(), "int8");
    if (k == 1) vc_assert(H((uint8_t) i).code() == H(float((uint8_t) i)).code(), "uint8");
    if (k == 2) vc_assert(H((int16_t) i).code() == H(float((int16_t) i)).code(), "int16");
    if (k == 3) vc_assert(H((uint16_t) i).code() == H(float((uint16_t) i)).code(), "uint16");
    if (k == 4) vc_assert(H((int32_t) i).code() == H(double((int32_t) i)).code(), "int32");
    if (k == 5) vc_assert(H((uint32_t) i).code() == H(double((uint32_t) i)).code(), "uint32");
    if (k == 6) vc_assert(H((int64_t) i).code() == H(double((int64_t) i)).code(), "int64");
    if (k == 7) vc_assert(H((uint64_t) (uint32_t) i).code() == H(double((uint64_t) (uint32_t) i)).code(), "uint64");
    vc_cover("end");
}
VC_HARNESS(small_integers_exact) {   // integers up to 2048 are representable
    int32_t i = vc_i32("i", -2048, 2048);
    H x(i);
    vc_assert(int32_t(x) == i, "small integers survive");
    vc_cover("end");
}
