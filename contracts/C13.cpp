// C13: fixed point numbers (sink).  Denoted value of raw bits v (signed) is v * 2^-Q.
#include "vc.h"
#include "core/sink.h"
#include <climits>
using namespace ts;
static double ldx(int64_t v, int q) { return (double) v / (double) (1ll << q); }
template <typename T, int Q> struct K {
    typedef sink<T, Q> X; typedef typename _signed<T>::T S;
    static X raw(S v) { return X::from_fixed((T) v); }
    static S bits(const X &x) { return (S) x.value; }
    static S any(const char *n) { return (S) vc_i64(n, (int64_t) number<S>::Min(), (int64_t) number<S>::Max()); }
    static bool fits(int64_t v) { return v >= (int64_t) number<S>::Min() && v <= (int64_t) number<S>::Max(); }
    static void from_integer() {
        int64_t v = vc_i64("v", -(1ll << 31), (1ll << 31) - 1);
        vc_assume(fits(v * (1ll << Q)));
        S e = (S) (v * (1ll << Q));
        vc_assert(bits(X((int64_t) v)) == e, "from int64");
        vc_assert(bits(X((int32_t) v)) == e, "from int32");
        if (v >= INT16_MIN && v <= INT16_MAX) vc_assert(bits(X((int16_t) v)) == e, "from int16");
        if (v >= INT8_MIN && v <= INT8_MAX) vc_assert(bits(X((int8_t) v)) == e, "from int8");
        if (v >= 0) {
            vc_assert(bits(X((uint64_t) v)) == e, "from uint64");
            vc_assert(bits(X((uint32_t) v)) == e, "from uint32");
            if (v <= UINT16_MAX) vc_assert(bits(X((uint16_t) v)) == e, "from uint16");
            if (v <= UINT8_MAX) vc_assert(bits(X((uint8_t) v)) == e, "from uint8");
        }
        X x((int64_t) v);
        vc_assert((int64_t) x == v && (int32_t) x == (int32_t) v, "integers in range survive");
        vc_cover("end");
    }
    static void to_integer() {      // floor of the denoted value
        S b = any("b"); X x = raw(b);
        int64_t f = (int64_t) b >= 0 ? (int64_t) b / (1ll << Q) : -((-(int64_t) b + (1ll << Q) - 1) / (1ll << Q));
        vc_assert((int64_t) x == f, "to int64 is the floor");
        vc_assert((int32_t) x == (int32_t) f, "to int32 is the floor");
        vc_assert((int16_t) x == (int16_t) f && (int8_t) x == (int8_t) f, "narrow integers");
        if (f >= 0) vc_assert((uint64_t) x == (uint64_t) f && (uint32_t) x == (uint32_t) f && (uint16_t) x == (uint16_t) f && (uint8_t) x == (uint8_t) f, "unsigned integers");
        vc_cover("end");
    }
    static void to_real() {
        S b = any("b"); X x = raw(b);
        vc_assert((double) x == ldx(b, Q), "double value is exact");
        if (sizeof(T) <= 2) vc_assert((float) x == (float) ldx(b, Q), "single value is exact");
        vc_cover("end");
    }
    static void round_trip_real() {
        S b = any("b");
        vc_assert(bits(X((double) raw(b))) == b, "raw -> double -> raw is the identity");
        if (sizeof(T) <= 2) vc_assert(bits(X((float) raw(b))) == b, "raw -> float -> raw is the identity");
        vc_cover("end");
    }
    static void from_real(double v) {   // within one resolution step, toward zero
        vc_assume(v * (double) (1ll << Q) > (double) number<S>::Min() - 1.0 && v * (double) (1ll << Q) < (double) number<S>::Max() + 1.0);
        double s = v * (double) (1ll << Q); double d = (double) bits(X(v));
        if (s >= 0) vc_assert(d <= s && s < d + 1.0, "truncated toward zero");
        else vc_assert(d >= s && s > d - 1.0, "truncated toward zero");
        vc_cover("end");
    }
    static void from_single(float v) {
        vc_assume(v * (float) (1ll << Q) > (float) number<S>::Min() - 1.0f && v * (float) (1ll << Q) < (float) number<S>::Max());
        float s = v * (float) (1ll << Q); float d = (float) bits(X(v));
        if (s >= 0) vc_assert(d <= s && s < d + 1.0f, "truncated toward zero");
        else vc_assert(d >= s && s > d - 1.0f, "truncated toward zero");
        vc_cover("end");
    }
    static void add_sub() {
        S a = any("a"), b = any("b");
        int64_t s = (int64_t) a + b, d = (int64_t) a - b;
        if (fits(s)) vc_assert(bits(raw(a) + raw(b)) == (S) s, "sum in range is exact");
        if (fits(d)) vc_assert(bits(raw(a) - raw(b)) == (S) d, "difference in range is exact");
        if (fits(-(int64_t) a)) vc_assert(bits(-raw(a)) == (S) -(int64_t) a, "negation");
        vc_cover("end");
    }
    static void mul() {
        S a = any("a"), b = any("b"); int64_t p = (int64_t) a * b;
        int64_t f = p >= 0 ? p / (1ll << Q) : -((-p + (1ll << Q) - 1) / (1ll << Q));
        vc_assume(fits(f));
        vc_assert(bits(raw(a) * raw(b)) == (S) f, "product is the exact product rounded down to the resolution");
        vc_cover("end");
    }
    static void div() {
        S a = any("a"), b = any("b"); vc_assume(b != 0);
        int64_t f = ((int64_t) a * (1ll << Q)) / b;
        vc_assume(fits(f));
        vc_assert(bits(raw(a) / raw(b)) == (S) f, "quotient is the exact quotient truncated to the resolution");
        vc_cover("end");
    }
    static void compare() {
        S a = any("a"), b = any("b"); X x = raw(a), y = raw(b);
        vc_assert((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "comparison of the denoted numbers");
        vc_assert(bits(X::Max()) == number<S>::Max() && bits(X::Min()) == number<S>::Min(), "limits");
        vc_cover("end");
    }
};
#define EACH8(F) { int q = vc_pick("q", 0, 7); switch (q) { case 0: K<uint8_t, 0>::F; break; case 1: K<uint8_t, 1>::F; break; case 2: K<uint8_t, 2>::F; break; case 3: K<uint8_t, 3>::F; break; \
    case 4: K<uint8_t, 4>::F; break; case 5: K<uint8_t, 5>::F; break; case 6: K<uint8_t, 6>::F; break; case 7: K<uint8_t, 7>::F; break; } }
#define FEW8(F) { int q = vc_pick("q", 0, 1); switch (q) { case 0: K<uint8_t, 3>::F; break; case 1: K<uint8_t, 7>::F; break; } }
#define EACH16(F) { int q = vc_pick("q", 0, 3); switch (q) { case 0: K<uint16_t, 0>::F; break; case 1: K<uint16_t, 5>::F; break; case 2: K<uint16_t, 8>::F; break; case 3: K<uint16_t, 13>::F; break; } }
#define FEW16(F) { K<uint16_t, 8>::F; }
#define EACH32(F) { int q = vc_pick("q", 0, 2); switch (q) { case 0: K<uint32_t, 0>::F; break; case 1: K<uint32_t, 16>::F; break; case 2: K<uint32_t, 24>::F; break; } }
#define FEW32(F) { K<uint32_t, 16>::F; }
VC_HARNESS(from_integer_8) EACH8(from_integer()) 
VC_HARNESS(from_integer_16) EACH16(from_integer())
VC_HARNESS(from_integer_32) EACH32(from_integer())
VC_HARNESS(to_integer_8) EACH8(to_integer())
VC_HARNESS(to_integer_16) EACH16(to_integer())
VC_HARNESS(to_integer_32) EACH32(to_integer())
VC_HARNESS(to_real_8) FEW8(to_real())
VC_HARNESS(to_real_8_all) EACH8(to_real())
VC_HARNESS(to_real_16) EACH16(to_real())
VC_HARNESS(to_real_32) EACH32(to_real())
VC_HARNESS(round_trip_real_8) EACH8(round_trip_real())
VC_HARNESS(round_trip_real_16) EACH16(round_trip_real())
VC_HARNESS(round_trip_real_32) EACH32(round_trip_real())
static double rnd(const char *n) { if (!vc_random()) return vc_f64(n); return (double) (vc_i32(n, -100000000, 100000000)) / 1024.0; }
static float rndf(const char *n) { if (!vc_random()) return vc_f32(n); return (float) (vc_i32(n, -100000000, 100000000)) / 1024.0f; }
VC_HARNESS(from_double_8) FEW8(from_real(rnd("v")))
VC_HARNESS(from_double_8_all) EACH8(from_real(rnd("v")))
VC_HARNESS(from_double_16) FEW16(from_real(rnd("v")))
VC_HARNESS(from_double_32) FEW32(from_real(rnd("v")))
VC_HARNESS(from_float_8) FEW8(from_single(rndf("v")))
VC_HARNESS(from_float_8_all) EACH8(from_single(rndf("v")))
VC_HARNESS(from_float_16) FEW16(from_single(rndf("v")))
VC_HARNESS(add_sub_8) EACH8(add_sub())
VC_HARNESS(add_sub_16) EACH16(add_sub())
VC_HARNESS(add_sub_32) EACH32(add_sub())
VC_HARNESS(mul_8) EACH8(mul())
VC_HARNESS(mul_16) EACH16(mul())
VC_HARNESS(mul_32) EACH32(mul())
VC_HARNESS(div_8) EACH8(div())
VC_HARNESS(div_16) EACH16(div())
VC_HARNESS(div_32) EACH32(div())
VC_HARNESS(compare_8) EACH8(compare())
VC_HARNESS(compare_16) EACH16(compare())
VC_HARNESS(compare_32) EACH32(compare())
VC_HARNESS(from_double_16_all) EACH16(from_real(rnd("v")))
VC_HARNESS(from_float_16_all) EACH16(from_single(rndf("v")))
VC_HARNESS(from_double_32_all) EACH32(from_real(rnd("v")))
