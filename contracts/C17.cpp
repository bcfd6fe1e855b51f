// C17: element-wise operators broadcast element by element
#include "ops.h"
#include "kernels/cpu/add.h"
#include "kernels/cpu/sub.h"
#include "kernels/cpu/mul.h"
#include "kernels/cpu/div.h"
#include "kernels/cpu/mod.h"
#include "kernels/cpu/maximum.h"
#include "kernels/cpu/equal.h"
#include "kernels/cpu/where.h"
#include "kernels/cpu/add_bias.h"
#include "kernels/cpu/batch_scale.h"
#include "kernels/cpu/prelu.h"
using namespace vt;
namespace {
template <typename T> T at(const In &x, int i) { return x.old<T>()[i]; }
template <size_t N> struct Bits; template <> struct Bits<1> { typedef uint8_t t; }; template <> struct Bits<2> { typedef uint16_t t; }; template <> struct Bits<4> { typedef uint32_t t; }; template <> struct Bits<8> { typedef uint64_t t; };
template <typename T> bool bits(T a, T b) { typename Bits<sizeof(T)>::t x, y; memcpy(&x, &a, sizeof(T)); memcpy(&y, &b, sizeof(T)); return x == y; }
template <typename T> __attribute__((noinline)) T either(bool c, T a, T b) { return c ? a : b; }
enum Op { ADD, SUB, MUL, DIV, MAXI, MOD };
Operator::shared make(int op) {
    switch (op) {
        case ADD: return std::make_shared<cpu::Add>();
        case SUB: return std::make_shared<cpu::Sub>();
        case MUL: return std::make_shared<cpu::Mul>();
        case DIV: return std::make_shared<cpu::Div>();
        case MAXI: return std::make_shared<cpu::Maximum>();
        default: return std::make_shared<cpu::Mod>();
    }
}
template <typename T> struct Mod { static T of(T a, T b) { return T(a % b); } };
template <> struct Mod<float> { static float of(float a, float) { return a; } };
template <> struct Mod<double> { static double of(double a, double) { return a; } };
template <typename T> T scalar(int op, T a, T b) {
    switch (op) {
        case ADD: return T(a + b);
        case SUB: return T(a - b);
        case MUL: return T(a * b);
        case DIV: return b == T(0) ? (a > 0 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()) : T(a / b);
        case MAXI: return either<T>(a > b, a, b);
        default: return Mod<T>::of(a, b);
    }
}
// the value at an element: the operation in operand order; sum, product and maximum may be taken in either order
template <typename T> bool meets(int op, T got, T a, T b) {
    bool r = bits(got, scalar<T>(op, a, b));
    if (op == ADD || op == MUL || op == MAXI) r = r | bits(got, scalar<T>(op, b, a));
    return r;
}
// the element of an operand used for an element of the result (right-aligned)
int source(const Shape &out, const Shape &s, int k) {
    int at = 0, stride = 1, r = (int) s.size();
    for (int d = (int) out.size() - 1, j = r - 1; d >= 0; --d, --j) {
        int c = k % out[d]; k /= out[d];
        if (j < 0) continue;
        at += (s[j] == 1 ? 0 : c) * stride; stride *= s[j];
    }
    return at;
}
bool together(const Shape &a, const Shape &b, Shape &out) {
    int n = (int) std::max(a.size(), b.size()); out = Shape(n, 1);
    for (int i = 0; i < n; ++i) {
        int x = i < (int) a.size() ? a[a.size() - 1 - i] : 1, y = i < (int) b.size() ? b[b.size() - 1 - i] : 1;
        if (x != y && x != 1 && y != 1) return false;
        out[n - 1 - i] = std::max(x, y);
    }
    return true;
}
Shape tail(const Shape &s, int from) { return Shape(std::vector<int>(s.begin() + from, s.end())); }
// two shapes that broadcast: in every dimension equal, or one of them 1; leading ones may be left out
void pair_of(const std::vector<int> &full, Shape &a, Shape &b, bool drops) {
    a = Shape(full); b = a; int n = (int) full.size(), m = 1; for (int i = 0; i < n; ++i) m *= 3;
    int how = vc_pick("pattern", 0, m - 1);
    for (int i = 0; i < n; ++i, how /= 3) { if (how % 3 == 1) a[i] = 1; if (how % 3 == 2) b[i] = 1; }
    if (!drops) return;
    int la = 0, lb = 0; while (la < n && a[la] == 1) ++la; while (lb < n && b[lb] == 1) ++lb;
    if (la || lb) if (vc_pick("drop", 0, 1)) { if (la) a = tail(a, la); else b = tail(b, lb); }
}
template <typename T> void operands(int op, const In &a, const In &b) {
    if (op == DIV || op == MOD) for (int i = 0; i < elems(b.s); ++i) vc_assume(at<T>(b, i) != T(0));
    // integer operations within their type (C++ leaves the rest undefined)
    if (std::is_floating_point<T>::value) {
        if (op == MAXI) { for (int i = 0; i < elems(a.s); ++i) vc_assume(at<T>(a, i) == at<T>(a, i)); for (int i = 0; i < elems(b.s); ++i) vc_assume(at<T>(b, i) == at<T>(b, i)); }
        return;
    }
    if (std::is_signed<T>::value && (op == DIV || op == MOD)) for (int i = 0; i < elems(b.s); ++i) vc_assume(at<T>(b, i) != T(-1));
}
template <typename T> void check(Bench &w, int op, const Operator::shared &o, DTYPE d, const Shape &sa, const Shape &sb) {
    In a = any("a", d, sa), b = any("b", d, sb);
    operands<T>(op, a, b);
    Shape so; bool fits = together(sa, sb, so);
    bool ok = w.run(o, {a, b});
    vc_assert(ok == fits, "exactly compatible shapes are accepted");
    if (!ok || !fits) return;
    const Tensor &r = w.out[0];
    vc_assert(w.out.size() == 1 && r.dtype() == d && operator_same(r.sizes(), so), "shape and type of the result");
    const T *p = r.data<T>();
    for (int k = 0; k < elems(so); ++k)
        vc_assert(meets<T>(op, p[k], at<T>(a, source(so, sa, k)), at<T>(b, source(so, sb, k))), "each element is the operation on the broadcast elements");
    vc_cover("end");
}
template <typename T> void sweep(DTYPE d, int lo, int hi, const std::vector<int> &full, bool drops) {
    Bench w; int op = vc_pick("op", lo, hi);
    Operator::shared o = make(op); o->init();
    Shape a, b; pair_of(full, a, b, drops);
    check<T>(w, op, o, d, a, b);
}
}
VC_HARNESS(sub_float) { sweep<float>(FLOAT32, SUB, SUB, {2, 3, 2}, true); }
VC_HARNESS(sub_int) { sweep<int32_t>(INT32, SUB, SUB, {2, 3, 2}, true); }
VC_HARNESS(each_float) { sweep<float>(FLOAT32, ADD, MAXI, {3, 5}, false); }
VC_HARNESS(each_int) { sweep<int32_t>(INT32, ADD, MOD, {2, 3}, true); }
VC_HARNESS(bias) {
    Bench w; int op = vc_pick("op", ADD, MAXI);
    Operator::shared o = make(op); o->init();
    Shape full({2, 2, 5}), one = vc_pick("where", 0, 1) ? Shape({2, 1}) : Shape({1, 2, 1});
    bool turn = vc_pick("cross", 0, 1);
    check<float>(w, op, o, FLOAT32, turn ? one : full, turn ? full : one);
}

// every element type
template <typename T> void typed(DTYPE d) {
    Bench w; int op = vc_pick("op", ADD, std::is_floating_point<T>::value ? MAXI : MOD);
    Operator::shared o = make(op); o->init();
    const int way = vc_pick("way", 0, 6);
    Shape a({2, 3, 2}), b = a;
    if (way == 1) b = Shape(); if (way == 2) a = Shape({1}); if (way == 3) b = Shape({3, 1}); if (way == 4) a = Shape({1, 3, 1}); if (way == 5) { a = Shape({2, 1, 2}); b = Shape({3, 1}); } if (way == 6) b = Shape({2, 2});
    check<T>(w, op, o, d, a, b);
}
VC_HARNESS(types) {
    switch (vc_pick("type", 0, 9)) {
        case 0: typed<int8_t>(INT8); break; case 1: typed<uint8_t>(UINT8); break; case 2: typed<int16_t>(INT16); break; case 3: typed<uint16_t>(UINT16); break;
        case 4: typed<int32_t>(INT32); break; case 5: typed<uint32_t>(UINT32); break; case 6: typed<int64_t>(INT64); break; case 7: typed<uint64_t>(UINT64); break;
        case 8: typed<float>(FLOAT32); break; default: typed<double>(FLOAT64);
    }
}
// operands of different types are brought to one type that holds both
VC_HARNESS(mixed) {
    Bench w; Operator::shared o = make(SUB); o->init();
    Shape sa({2, 2}), sb({2}); bool turn = vc_pick("cross", 0, 1);
    int how = vc_pick("types", 0, 3);
    DTYPE da = how == 0 ? INT8 : how == 1 ? INT32 : how == 2 ? UINT8 : INT16, db = how == 0 ? INT32 : how == 1 ? FLOAT64 : how == 2 ? INT16 : FLOAT64, dr = db;
    In a = any("a", da, sa), b = any("b", db, sb);
    bool ok = turn ? w.run(o, {b, a}) : w.run(o, {a, b});
    vc_assert(ok && w.out.size() == 1 && w.out[0].dtype() == dr && operator_same(w.out[0].sizes(), sa), "shape and type of the result");
    if (!ok) return;
    for (int k = 0; k < 4; ++k) {
        bool r;
        if (dr == FLOAT64) { double x = da == INT32 ? (double) at<int32_t>(a, k) : (double) at<int16_t>(a, k), y = at<double>(b, k % 2); r = bits(w.out[0].data<double>()[k], turn ? y - x : x - y); }
        else if (dr == INT32) { int32_t x = at<int8_t>(a, k), y = at<int32_t>(b, k % 2); r = w.out[0].data<int32_t>()[k] == (turn ? y - x : x - y); }
        else { int16_t x = at<uint8_t>(a, k), y = at<int16_t>(b, k % 2); r = w.out[0].data<int16_t>()[k] == int16_t(turn ? y - x : x - y); }
        vc_assert(r, "each element is the operation on the broadcast elements, of the common type");
    }
    vc_cover("end");
}
// the common type is the same in either order and is no smaller than either
VC_HARNESS(common) {
    static const DTYPE all[] = {BOOLEAN, INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT16, FLOAT32, FLOAT64};
    Bench w; Operator::shared o = make(SUB); o->init();
    DTYPE da = all[vc_pick("a", 0, 11)], db = all[vc_pick("b", 0, 11)];
    In a = any("a", da, {1}), b = any("b", db, {1});
    DTYPE x = upcast_dtype(o.get(), a.t, b.t), y = upcast_dtype(o.get(), b.t, a.t);
    vc_assert(x == y, "the common type does not depend on the order");
    vc_assert(type_bytes(x) >= type_bytes(da) && type_bytes(x) >= type_bytes(db) && (da != db || x == da), "the common type is as wide as both");
    bool fl = da == FLOAT16 || da == FLOAT32 || da == FLOAT64 || db == FLOAT16 || db == FLOAT32 || db == FLOAT64;
    vc_assert(fl == (x == FLOAT16 || x == FLOAT32 || x == FLOAT64), "a real operand gives a real result");
    vc_cover("end");
}
// shapes that do not fit raise an error
VC_HARNESS(misfit) {
    Bench w; int op = vc_pick("op", 0, 1) ? SUB : MOD; Operator::shared o = make(op); o->init();
    int n = vc_pick("n", 1, 3), m = vc_pick("m", 1, 3), at_ = vc_pick("at", 0, n - 1);
    Shape a(n, 2), b(m, 2); a[at_] = vc_pick("x", 1, 4); b[vc_pick("bt", 0, m - 1)] = vc_pick("y", 2, 4);
    check<int32_t>(w, op, o, INT32, a, b);
}
// a pair that divides by zero still gives the same element on every path
VC_HARNESS(zero) {
    Bench w; Operator::shared o = make(DIV); o->init();
    bool f = vc_pick("real", 0, 1); int way = vc_pick("way", 0, 4);
    Shape a({2, 2}), b = a; if (way == 1) b = Shape(); if (way == 2) a = Shape({1}); if (way == 3) b = Shape({2, 1}); if (way == 4) a = Shape({2});
    In x = any("a", f ? FLOAT32 : INT32, a), y = f ? given<float>(FLOAT32, b, std::vector<float>(4, 0.f)) : given<int32_t>(INT32, b, std::vector<int32_t>(4, 0));
    bool ok = w.run(o, {x, y}); Shape so; together(a, b, so);
    vc_assert(ok && operator_same(w.out[0].sizes(), so), "shape of the result");
    if (ok) for (int k = 0; k < elems(so); ++k) {
        int i = source(so, a, k), j = source(so, b, k);
        vc_assert(f ? bits(w.out[0].data<float>()[k], scalar<float>(DIV, at<float>(x, i), at<float>(y, j))) : w.out[0].data<int32_t>()[k] == scalar<int32_t>(DIV, at<int32_t>(x, i), at<int32_t>(y, j)), "a quotient by zero is the largest or lowest number");
    }
    vc_cover("end");
}
// equal
template <typename T> void equal_of(DTYPE d) {
    Bench w; Operator::shared o = create("equal");
    Shape a, b; pair_of({2, 2, 2}, a, b, true);
    In x = any("a", d, a), y = any("b", d, b);
    Shape so; together(a, b, so);
    bool ok = w.run(o, {x, y});
    vc_assert(ok && w.out.size() == 1 && w.out[0].dtype() == BOOLEAN && operator_same(w.out[0].sizes(), so), "shape and type of the result");
    if (ok) for (int k = 0; k < elems(so); ++k)
        vc_assert(w.out[0].data<uint8_t>()[k] == uint8_t(at<T>(x, source(so, a, k)) == at<T>(y, source(so, b, k))), "each element tells whether the broadcast elements are equal");
    vc_cover("end");
}
VC_HARNESS(equal_int) { equal_of<int32_t>(INT32); }
VC_HARNESS(equal_float) { equal_of<float>(FLOAT32); }
VC_HARNESS(equal_types) { switch (vc_pick("type", 0, 3)) { case 0: equal_of<int8_t>(INT8); break; case 1: equal_of<uint16_t>(UINT16); break; case 2: equal_of<int64_t>(INT64); break; default: equal_of<double>(FLOAT64); } }
// where: three operands
VC_HARNESS(where_three) {
    Bench w; Operator::shared o = create("where");
    std::vector<Shape> s; const int full[2] = {2, 3};
    for (int k = 0; k < 3; ++k) { int how = vc_pick("shape", 0, 4); Shape x({full[0], full[1]}); if (how & 1) x[0] = 1; if (how & 2) x[1] = 1; if (how == 4) x = Shape({full[1]}); s.push_back(x); }
    In c = any("cond", BOOLEAN, s[0]), a = any("a", FLOAT32, s[1]), b = any("b", FLOAT32, s[2]);
    Shape t, so; together(s[0], s[1], t); together(t, s[2], so);
    bool ok = w.run(o, {c, a, b});
    vc_assert(ok && w.out.size() == 1 && w.out[0].dtype() == FLOAT32 && operator_same(w.out[0].sizes(), so), "shape and type of the result");
    if (ok) for (int k = 0; k < elems(so); ++k) {
        uint32_t x = (uint32_t) a.bits(source(so, s[1], k)), y = (uint32_t) b.bits(source(so, s[2], k));
        vc_assert((uint32_t) w.bits(0, k) == either<uint32_t>(at<uint8_t>(c, source(so, s[0], k)) != 0, x, y), "each element is taken from the operand the condition names");
    }
    vc_cover("end");
}
VC_HARNESS(where_types) {
    static const DTYPE all[] = {INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT64};
    Bench w; Operator::shared o = create("where"); DTYPE d = all[vc_pick("type", 0, 8)];
    Shape s({2, 2}), sc = vc_pick("cond", 0, 1) ? Shape({2}) : s;
    In c = any("cond", BOOLEAN, sc), a = any("a", d, s), b = any("b", d, s);
    bool ok = w.run(o, {c, a, b});
    vc_assert(ok && w.out[0].dtype() == d && operator_same(w.out[0].sizes(), s), "shape and type of the result");
    if (ok) for (int k = 0; k < 4; ++k) vc_assert(w.bits(0, k) == either<uint64_t>(at<uint8_t>(c, source(s, sc, k)) != 0, a.bits(k), b.bits(k)), "each element is taken from the operand the condition names");
    vc_cover("end");
}
// a bias, a scale or a slope along one dimension
template <typename T> void along(DTYPE d) {
    Bench w; int dim = vc_pick("dim", 0, 2), what = vc_pick("what", 0, 2);
    Shape s({2, 2, vc_pick("last", 1, 5)});
    Operator::shared o = create(what == 0 ? name::layer::add_bias() : what == 1 ? name::layer::batch_scale() : name::layer::prelu(), {{name::dim, tensor::from<int32_t>(dim)}});
    In x = any("x", d, s), a = any("a", d, {s[dim]}), b = any("b", d, {s[dim]});
    // not a NaN, and not both below and above zero
    if (std::is_floating_point<T>::value && what == 2) for (int k = 0; k < elems(s); ++k) { T v = at<T>(x, k); vc_assume((v == v) & !((v < T(0)) & (T(0) < v))); }
    bool ok = what == 1 ? w.run(o, {x, a, b}) : w.run(o, {x, a});
    vc_assert(ok && w.out.size() == 1 && w.out[0].dtype() == d && operator_same(w.out[0].sizes(), s), "shape and type of the result");
    if (ok) for (int k = 0; k < elems(s); ++k) {
        int inner = 1; for (int j = dim + 1; j < 3; ++j) inner *= s[j];
        int c = k / inner % s[dim]; T v = at<T>(x, k), p = at<T>(a, c), q = at<T>(b, c);
        
        T got = w.out[0].data<T>()[k];
        bool same;
        // the order of a sum is free; max(0, v) of a zero may be either zero
        if (what == 0) same = bits(got, T(v + p)) | bits(got, T(p + v));
        else if (what == 1) same = bits(got, T(v * p + q));
        else if (!std::is_floating_point<T>::value) same = bits(got, T(either<T>(v < T(0), T(0), v) + p * either<T>(T(0) < v, T(0), v)));
        else same = either<bool>(v > T(0), bits(got, T(v + p * T(0))), either<bool>(v < T(0), bits(got, T(T(0) + p * v)), bits(got, T(v + p * v)) | bits(got, T(v + p * T(0))) | bits(got, T(T(0) + p * v)) | bits(got, T(T(0) + p * T(0)))));
        vc_assert(same, "each element is combined with the one of its place along the dimension");
    }
    vc_cover("end");
}
VC_HARNESS(along_float) { along<float>(FLOAT32); }
VC_HARNESS(along_int) { along<int32_t>(INT32); }
// an array broadcast to a shape
VC_HARNESS(broadcast) {
    static const DTYPE all[] = {INT32, UINT8, INT16, FLOAT64};
    Bench w; Operator::shared o = create("broadcast");
    Shape a, b; pair_of({2, 3, 2}, a, b, true); DTYPE d = all[vc_pick("type", 0, 3)];
    In x = any("x", d, a), y = ints(b.std()); Shape so; together(a, b, so);
    bool ok = w.run(o, {x, y});
    vc_assert(ok && w.out.size() == 1 && w.out[0].dtype() == d && operator_same(w.out[0].sizes(), so), "shape and type of the result");
    if (ok) for (int k = 0; k < elems(so); ++k) vc_assert(w.bits(0, k) == x.bits(source(so, a, k)), "each element is the broadcast element");
    vc_cover("end");
}
VC_HARNESS(broadcast_long) {
    static const DTYPE all[] = {INT32, UINT8, INT16, FLOAT64};
    Bench w; Operator::shared o = create("broadcast"); DTYPE d = all[vc_pick("type", 0, 3)];
    int n = vc_pick("n", 0, 9); bool bias = vc_pick("bias", 0, 1);
    Shape a = bias ? Shape({2, 1}) : Shape({1}), b = bias ? Shape({2, 2, n}) : Shape({n});
    In x = any("x", d, a), y = ints(b.std());
    bool ok = w.run(o, {x, y});
    vc_assert(ok && w.out.size() == 1 && w.out[0].dtype() == d && operator_same(w.out[0].sizes(), b), "shape and type of the result");
    if (ok) for (int k = 0; k < elems(b); ++k) vc_assert(w.bits(0, k) == x.bits(source(b, a, k)), "each element is the broadcast element");
    vc_cover("end");
}
