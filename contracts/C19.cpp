// Convolution, pooling and their column forms on many geometries.
#include "ops.h"
#include "kernels/cpu/im2col.h"
#include "kernels/cpu/math_cpu.h"
#include "backend/common_function.h"
#include "runtime/workbench.h"
#include "compiler/argparse.h"
// ArgParser without its regular expressions: device names are already lower case, without surrounding blanks
extern "C" __attribute__((used, noinline)) std::string contract_device(ts::ArgParser *, const std::string &d) { return d; }
using namespace vt;
namespace {
// one geometry out of a long deterministic sequence; native runs pick from a longer one
struct Geo {
    uint64_t seed; int n, c, o, h, w, kh, kw, sh, sw, dh, dw, t, b, l, r;
    int next(int k) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return int((seed >> 33) % (uint64_t) k); }
    int eh() const { return dh * (kh - 1) + 1; } int ew() const { return dw * (kw - 1) + 1; }
    int oh() const { return (h + t + b - eh()) / sh + 1; } int ow() const { return (w + l + r - ew()) / sw + 1; }
};
// for operators that build tensors or run others with the current workbench
struct Lab { Workbench bench; ctx::bind<Workbench> use; Lab() : bench(ComputingDevice(CPU, 0)), use(bench) {} };
int pick_one(int count) { return vc_pick("geometry", 0, vc_symbolic() ? count - 1 : 1 << 30); }
// kernel k by k with stride s when given (0: any), paddings below p, extents up to e
Geo geo(int g, int k, int s, bool dilated, int p, int e, bool trim = false) {
    Geo G; G.seed = uint64_t(g) * 0x9E3779B97F4A7C15ull + 12345;
    do {
        G.n = 1 + G.next(2); G.c = 1 + G.next(3); G.o = 1 + G.next(3); G.h = 1 + G.next(e); G.w = 1 + G.next(e);
        G.kh = k ? k : 1 + G.next(3); G.kw = k ? k : 1 + G.next(3); G.sh = s ? s : 1 + G.next(3); G.sw = s ? s : 1 + G.next(3);
        G.dh = dilated ? 1 + G.next(2) : 1; G.dw = dilated ? 1 + G.next(2) : 1;
        int *q[] = {&G.t, &G.b, &G.l, &G.r}; for (int *a : q) *a = G.next(p);
        if (trim && G.next(3) == 0) { int *z = q[G.next(4)]; *z = -1 - G.next(2); }
    } while (G.h + G.t + G.b < G.eh() || G.w + G.l + G.r < G.ew());
    return G;
}
template <typename T> std::vector<T> values(Geo &G, int n, int style = 0) {
    std::vector<T> v(n); int up = G.next(3);
    for (int i = 0; i < n; ++i) v[i] = T(style == 1 ? (up == 0 ? i - n : up == 1 ? -i - 1 : -1 - G.next(2 * n)) : G.next(9) - 4);
    return v;
}
Tensor word(const std::string &s) { return tensor::from(s); }
Tensor quad(int a, int b) { return tensor::build(INT32, {4}, {1, 1, a, b}); }
Tensor pads(const Geo &G) { return tensor::build(INT32, {4, 2}, {0, 0, 0, 0, G.t, G.b, G.l, G.r}); }
template <typename T> void gives(Bench &w, const Operator::shared &op, const std::vector<In> &in, const Shape &s, const std::vector<T> &want, DTYPE d, double eps = 0) {
    bool ok = w.run(op, in);
    vc_assert(ok && w.out.size() == 1, "one result");
    vc_assert(w.out[0].dtype() == d && operator_same(w.out[0].sizes(), s), "shape and type of the result");
    const T *p = w.out[0].data<T>(); bool same = true;
    for (size_t i = 0; i < want.size(); ++i) same = same & (eps > 0 ? std::abs(p[i] - want[i]) <= eps : p[i] == want[i]);
    vc_assert(same, "every result is that of its window");
    vc_cover("end");
}
// kind 0: conv2d, 1: conv2d_v2, 2: depthwise, 3: depthwise_v2, 4: winograd
template <typename T> void convolves(DTYPE d, Geo G, int kind) {
    bool depth = kind == 2 || kind == 3; int O = depth ? G.c : G.o, I = depth ? 1 : G.c, oh = G.oh(), ow = G.ow(); T pv = T(kind == 4 ? 0 : G.next(3) - 1);
    auto xs = values<T>(G, G.n * G.c * G.h * G.w), ws = values<T>(G, O * I * G.kh * G.kw); std::vector<T> want;
    for (int n = 0; n < G.n; ++n) for (int o = 0; o < O; ++o) for (int y = 0; y < oh; ++y) for (int x = 0; x < ow; ++x) {
        T sum = 0;
        for (int i = 0; i < I; ++i) for (int a = 0; a < G.kh; ++a) for (int b = 0; b < G.kw; ++b) {
            int yy = y * G.sh + a * G.dh - G.t, xx = x * G.sw + b * G.dw - G.l; bool in = yy >= 0 && yy < G.h && xx >= 0 && xx < G.w; int c = depth ? o : i;
            sum += (in ? xs[((n * G.c + c) * G.h + yy) * G.w + xx] : pv) * ws[((o * I + i) * G.kh + a) * G.kw + b];
        }
        want.push_back(sum);
    }
    std::shared_ptr<Lab> lab; if (kind == 4) lab.reset(new Lab); Bench w; In x = given<T>(d, {G.n, G.c, G.h, G.w}, xs), f = given<T>(d, depth ? Shape({1, G.c, G.kh, G.kw}) : Shape({O, I, G.kh, G.kw}), ws);
    static const char *const names[] = {"conv2d", "conv2d_v2", "depthwise_conv2d", "depthwise_conv2d_v2", "conv2d_winograd"};
    std::vector<std::pair<std::string, Tensor>> ps = {{"format", word("NCHW")}, {"padding_value", tensor::from<float>(float(pv))}};
    if (kind != 4) { ps.push_back({"stride", quad(G.sh, G.sw)}); ps.push_back({"dilation", quad(G.dh, G.dw)}); }
    if (kind == 1 || kind == 3) { In p = given<int>(INT32, {4, 2}, {0, 0, 0, 0, G.t, G.b, G.l, G.r}); gives(w, create(names[kind], ps), {x, p, f}, {G.n, O, oh, ow}, want, d); return; }
    ps.push_back({"padding", pads(G)});
    gives(w, create(names[kind], ps), {x, f}, {G.n, O, oh, ow}, want, d, kind == 4 ? 0.5 : 0);
}
template <typename T> void pools(DTYPE d, Geo G, bool avg, bool white, bool v2) {
    auto up = [](int n, int s) { return n / s + (n % s > 0) + 1; };
    int oh = up(G.h + G.t + G.b - G.kh, G.sh), ow = up(G.w + G.l + G.r - G.kw, G.sw); auto xs = values<T>(G, G.n * G.c * G.h * G.w, avg ? 0 : 1); std::vector<T> want;
    for (int m = 0; m < G.n * G.c; ++m) for (int y = 0; y < oh; ++y) for (int x = 0; x < ow; ++x) {
        T sum = 0, most = 0; int count = 0;
        for (int a = 0; a < G.kh; ++a) for (int b = 0; b < G.kw; ++b) {
            int yy = y * G.sh + a - G.t, xx = x * G.sw + b - G.l; if (yy < 0 || yy >= G.h || xx < 0 || xx >= G.w) continue;
            T e = xs[(m * G.h + yy) * G.w + xx]; sum += e; if (!count++ || e > most) most = e;
        }
        want.push_back(avg ? (white ? sum / (G.kh * G.kw) : count ? sum / count : T(0)) : most);
    }
    Bench w; In x = given<T>(d, {G.n, G.c, G.h, G.w}, xs);
    std::vector<std::pair<std::string, Tensor>> ps = {{"format", word("NCHW")}, {"type", tensor::from(int(avg ? Pooling2DType::AVG : Pooling2DType::MAX))}, {"padding_type", tensor::from(int(white ? Padding2DType::WHITE : Padding2DType::BLACK))}};
    if (v2) {
        In p = given<int>(INT32, {4, 2}, {0, 0, 0, 0, G.t, G.b, G.l, G.r}), k = ints({1, 1, G.kh, G.kw}), s = ints({1, 1, G.sh, G.sw});
        gives(w, create("pooling2d_v2", ps), {x, p, k, s}, {G.n, G.c, oh, ow}, want, d); return;
    }
    ps.push_back({"padding", pads(G)}); ps.push_back({"ksize", quad(G.kh, G.kw)}); ps.push_back({"stride", quad(G.sh, G.sw)});
    gives(w, create("pooling2d", ps), {x}, {G.n, G.c, oh, ow}, want, d);
}
}
template <typename T> static void columns(DTYPE d, int count) {
    Geo G = geo(pick_one(count), 0, 0, true, 4, 6); G.c = 1 + G.next(2); int oh = G.oh(), ow = G.ow(), rows = G.c * G.kh * G.kw;
    In x = any("input", d, {G.c, G.h, G.w}); typedef typename std::conditional<sizeof(T) == 1, uint8_t, typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type>::type B;
    B pad = B(x.bits(0)); T pv; std::memcpy(&pv, &pad, sizeof(T)); T *col = new T[rows * oh * ow + 1]; std::memset((void *) (col + rows * oh * ow), 0x5a, sizeof(T));
    im2col_cpu<T>((const T *) x.mem, G.c, G.h, G.w, G.kh, G.kw, G.t, G.b, G.l, G.r, G.sh, G.sw, G.dh, G.dw, col, pv);
    for (int k = 0; k < rows * oh * ow; ++k) {
        int q = k % ow, p = k / ow % oh, row = k / ow / oh, b = row % G.kw, a = row / G.kw % G.kh, c = row / G.kw / G.kh;
        int y = p * G.sh + a * G.dh - G.t, z = q * G.sw + b * G.dw - G.l; bool in = y >= 0 && y < G.h && z >= 0 && z < G.w;
        vc_assert(((const B *) col)[k] == (in ? B(x.bits((c * G.h + y) * G.w + z)) : pad), "each column element comes from its window position");
    }
    vc_assert(x.kept(), "the input is only read"); vc_cover("end");
}
VC_HARNESS(im2col_float) { columns<float>(FLOAT32, 60); }
VC_HARNESS(im2col_double) { columns<double>(FLOAT64, 25); }
VC_HARNESS(im2col_int8) { columns<int8_t>(INT8, 25); }
template <typename T> static void folds(DTYPE d, int count) {
    Geo G = geo(pick_one(count), 0, 0, true, 3, 5); G.c = 1 + G.next(2); int oh = G.oh(), ow = G.ow(), rows = G.c * G.kh * G.kw, n = G.c * G.h * G.w;
    auto col = values<T>(G, rows * oh * ow); std::vector<T> want(n, T(0)); T *im = new T[n + 1]; for (int i = 0; i <= n; ++i) im[i] = T(77); (void) d;
    for (int k = 0; k < rows * oh * ow; ++k) {
        int q = k % ow, p = k / ow % oh, row = k / ow / oh, b = row % G.kw, a = row / G.kw % G.kh, c = row / G.kw / G.kh;
        int y = p * G.sh + a * G.dh - G.t, z = q * G.sw + b * G.dw - G.l; if (y >= 0 && y < G.h && z >= 0 && z < G.w) want[(c * G.h + y) * G.w + z] += col[k];
    }
    col2im_cpu<T>(col.data(), G.c, G.h, G.w, G.kh, G.kw, G.t, G.b, G.l, G.r, G.sh, G.sw, G.dh, G.dw, im);
    for (int i = 0; i < n; ++i) vc_assert(im[i] == want[i], "each element is the sum of its column elements");
    vc_assert(im[n] == T(77), "nothing after the image is written"); vc_cover("end");
}
VC_HARNESS(col2im_float) { folds<float>(FLOAT32, 40); }
VC_HARNESS(col2im_double) { folds<double>(FLOAT64, 20); }
VC_HARNESS(conv2d_values) { convolves<float>(FLOAT32, geo(pick_one(40), 0, 0, true, 4, 6), 0); }
VC_HARNESS(conv2d_wide) { Geo G = geo(pick_one(6), 3, 1, false, 2, 6); G.o = 8 + G.next(3); G.c = 2 + G.next(3); convolves<float>(FLOAT32, G, 0); }
VC_HARNESS(conv2d_one) { Geo G = geo(pick_one(10), 1, 1, false, 1, 5); convolves<float>(FLOAT32, G, 0); }
VC_HARNESS(conv2d_double) { convolves<double>(FLOAT64, geo(pick_one(15), 0, 0, true, 3, 5), 0); }
VC_HARNESS(conv2d_v2_values) { convolves<float>(FLOAT32, geo(pick_one(15), 0, 0, true, 4, 5, true), 1); }
VC_HARNESS(depthwise_values) { convolves<float>(FLOAT32, geo(pick_one(25), 0, 0, true, 5, 6), 2); }
VC_HARNESS(depthwise_s1) { convolves<float>(FLOAT32, geo(pick_one(60), 3, 1, false, 6, 9, true), 2); }
VC_HARNESS(depthwise_s2) { convolves<float>(FLOAT32, geo(pick_one(60), 3, 2, false, 6, 13, true), 2); }
VC_HARNESS(depthwise_double) { convolves<double>(FLOAT64, geo(pick_one(15), 3, 0, false, 4, 6), 2); }
VC_HARNESS(depthwise_v2_values) { convolves<float>(FLOAT32, geo(pick_one(15), 3, 0, false, 4, 6), 3); }
VC_HARNESS(winograd_values) { convolves<float>(FLOAT32, geo(pick_one(8), 3, 1, false, 3, 9), 4); }
template <typename T> static void spreads(DTYPE d, int count, int k, int s) {
    Geo G = geo(pick_one(count), k, s, true, k == 1 ? 1 : 3, 4); int oh, ow; bool one = k == 1 && s == 1;
    for (;;) { oh = (G.h - 1) * G.sh + G.eh() - G.t - G.b; ow = (G.w - 1) * G.sw + G.ew() - G.l - G.r; if (oh > 0 && ow > 0) break; if (oh <= 0) ++G.h; else ++G.w; }
    (void) one; auto xs = values<T>(G, G.n * G.c * G.h * G.w), ws = values<T>(G, G.c * G.o * G.kh * G.kw); std::vector<T> want(G.n * G.o * oh * ow, T(0));
    for (int n = 0; n < G.n; ++n) for (int c = 0; c < G.c; ++c) for (int y = 0; y < G.h; ++y) for (int x = 0; x < G.w; ++x) for (int o = 0; o < G.o; ++o) for (int a = 0; a < G.kh; ++a) for (int b = 0; b < G.kw; ++b) {
        int yy = y * G.sh + a * G.dh - G.t, xx = x * G.sw + b * G.dw - G.l;
        if (yy >= 0 && yy < oh && xx >= 0 && xx < ow) want[((n * G.o + o) * oh + yy) * ow + xx] += xs[((n * G.c + c) * G.h + y) * G.w + x] * ws[((c * G.o + o) * G.kh + a) * G.kw + b];
    }
    Lab lab; Bench w; gives(w, create("transpose_conv2d", {{"format", word("NCHW")}, {"padding", pads(G)}, {"stride", quad(G.sh, G.sw)}, {"dilation", quad(G.dh, G.dw)}}), {given<T>(d, {G.n, G.c, G.h, G.w}, xs), given<T>(d, {G.c, G.o, G.kh, G.kw}, ws)}, {G.n, G.o, oh, ow}, want, d);
}
VC_HARNESS(deconv_values) { spreads<float>(FLOAT32, 30, 0, 0); }
VC_HARNESS(deconv_one) { spreads<float>(FLOAT32, 6, 1, 1); }
VC_HARNESS(deconv_double) { spreads<double>(FLOAT64, 10, 0, 0); }
static bool bit(const char *n) { return vc_pick(n, 0, 1); }
VC_HARNESS(max_pool) { bool wh = bit("white"); pools<float>(FLOAT32, geo(pick_one(20), 0, 0, false, 5, 7), false, wh, false); }
VC_HARNESS(max_pool_k3s2) { pools<float>(FLOAT32, geo(pick_one(80), 3, 2, false, 2, 13), false, false, false); }
VC_HARNESS(max_pool_k2s2) { pools<float>(FLOAT32, geo(pick_one(80), 2, 2, false, 2, 12), false, true, false); }
VC_HARNESS(max_pool_double) { int k = vc_pick("kernel", 2, 3); pools<double>(FLOAT64, geo(pick_one(10), k, 2, false, 2, 7), false, false, false); }
VC_HARNESS(avg_pool) { bool wh = bit("white"); pools<float>(FLOAT32, geo(pick_one(30), 0, 0, false, 5, 7), true, wh, false); }
VC_HARNESS(avg_pool_double) { bool wh = bit("white"); pools<double>(FLOAT64, geo(pick_one(8), 0, 0, false, 3, 5), true, wh, false); }
VC_HARNESS(pool_v2) { bool avg = bit("average"); pools<float>(FLOAT32, geo(pick_one(15), 0, 0, false, 3, 6, true), avg, false, true); }
template <typename T> static void global_pools(DTYPE d, int count) {
    bool avg = bit("average"); Geo G = geo(pick_one(count), 1, 1, false, 1, 5); auto xs = values<T>(G, G.n * G.c * G.h * G.w, avg ? 0 : 1); std::vector<T> want;
    for (int m = 0; m < G.n * G.c; ++m) { T sum = 0, most = xs[m * G.h * G.w]; for (int i = 0; i < G.h * G.w; ++i) { T e = xs[m * G.h * G.w + i]; sum += e; most = std::max(most, e); } want.push_back(avg ? sum / (G.h * G.w) : most); }
    Bench w; gives(w, create("global_pooling2d", {{"format", word("NCHW")}, {"type", tensor::from(int(avg ? Pooling2DType::AVG : Pooling2DType::MAX))}}), {given<T>(d, {G.n, G.c, G.h, G.w}, xs)}, {G.n, G.c, 1, 1}, want, d);
}
VC_HARNESS(global_pool) { global_pools<float>(FLOAT32, 10); }
VC_HARNESS(global_pool_double) { global_pools<double>(FLOAT64, 5); }
