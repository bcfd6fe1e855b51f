// Extents of convolution and pooling, for every extent, kernel, stride, dilation and padding.
#include "ops.h"
#include "backend/common_function.h"
using namespace vt;
static const int E = 1 << 24, K = 1 << 12;
struct Dim { int x, k, s, d, a, b; };
static Dim dim(bool dilated) {
    Dim g; g.x = vc_i32("extent", 1, E); g.k = vc_i32("kernel", 1, K); g.s = vc_i32("stride", 1, K); g.d = dilated ? vc_i32("dilation", 1, K) : 1; g.a = vc_i32("padding before", 0, E); g.b = vc_i32("padding after", 0, E);
    return g;
}
// y windows of span w with stride s fit n elements, and y + 1 do not
static void fits(int64_t y, int64_t n, int64_t w, int64_t s) {
    vc_assert((y - 1) * s + w <= n, "the last window ends inside the padded input");
    vc_assert(y * s + w > n, "no further window fits");
}
static void covers(int64_t y, int64_t n, int64_t w, int64_t s) {
    vc_assert((y - 1) * s + w >= n, "the windows reach the end of the padded input");
    vc_assert((y - 2) * s + w < n || y == 1, "no window more than needed");
}
VC_HARNESS(conv_extent) {
    Dim g = dim(true); int64_t w = int64_t(g.d) * (g.k - 1) + 1, n = int64_t(g.x) + g.a + g.b; vc_assume(w <= n);
    Dim o = {5, 3, 2, 1, 1, 1}; bool h = vc_bool("height"); const Dim &H = h ? g : o, &W = h ? o : g;
    Size2D y = conv2d_forward(Size2D(H.x, W.x), Padding2D(H.a, H.b, W.a, W.b), KSize2D(H.k, W.k), Stride2D(H.s, W.s), Dilation2D(H.d, W.d));
    vc_assert((h ? y.width : y.height) == 3, "the other dimension has its own extent");
    fits(h ? y.height : y.width, n, w, g.s); vc_cover("end");
}
VC_HARNESS(conv_extent_back) {
    Dim g = dim(true); Dim o = {3, 3, 2, 1, 1, 1}; bool h = vc_bool("height"); const Dim &H = h ? g : o, &W = h ? o : g; vc_assume(g.x <= (1 << 15)); 
    Size2D x = conv2d_backward(Size2D(H.x, W.x), Padding2D(H.a, H.b, W.a, W.b), KSize2D(H.k, W.k), Stride2D(H.s, W.s), Dilation2D(H.d, W.d));
    vc_assert((h ? x.width : x.height) == 5, "the other dimension has its own extent");
    vc_assert((h ? x.height : x.width) == (int64_t(g.x) - 1) * g.s + int64_t(g.d) * (g.k - 1) + 1 - g.a - g.b, "what the windows cover without the padding"); vc_cover("end");
}
VC_HARNESS(pool_extent) {
    Dim g = dim(false); int64_t n = int64_t(g.x) + g.a + g.b; vc_assume(g.k <= n);
    Dim o = {6, 3, 2, 1, 1, 1}; bool h = vc_bool("height"); const Dim &H = h ? g : o, &W = h ? o : g;
    Size2D y = pooling2d_forward(Size2D(H.x, W.x), Padding2D(H.a, H.b, W.a, W.b), KSize2D(H.k, W.k), Stride2D(H.s, W.s));
    vc_assert((h ? y.width : y.height) == 4, "the other dimension has its own extent");
    covers(h ? y.height : y.width, n, g.k, g.s); vc_cover("end");
}
VC_HARNESS(pool_extent_back) {
    Dim g = dim(false); Dim o = {4, 3, 2, 1, 1, 1}; bool h = vc_bool("height"); const Dim &H = h ? g : o, &W = h ? o : g; vc_assume(g.x <= (1 << 15)); 
    Size2D x = pooling2d_backward(Size2D(H.x, W.x), Padding2D(H.a, H.b, W.a, W.b), KSize2D(H.k, W.k), Stride2D(H.s, W.s));
    vc_assert((h ? x.width : x.height) == 7, "the other dimension has its own extent");
    vc_assert((h ? x.height : x.width) == (int64_t(g.x) - 1) * g.s + g.k - g.a - g.b, "what the windows cover without the padding"); vc_cover("end");
}

// ---- the same extents through the operators ----
static Tensor shaped(DTYPE d, const Shape &s) { return over((void *) new uint64_t[1], 8, d, s); }      // only the shape is looked at
static Tensor quad(int a, int b, int c, int d) { return tensor::build(INT32, {4}, {a, b, c, d}); }
static Tensor pads(bool nhwc, const Dim &h, const Dim &w) { return nhwc ? tensor::build(INT32, {4, 2}, {0, 0, h.a, h.b, w.a, w.b, 0, 0}) : tensor::build(INT32, {4, 2}, {0, 0, 0, 0, h.a, h.b, w.a, w.b}); }
static Shape image(bool nhwc, int n, int c, int h, int w) { return nhwc ? Shape({n, h, w, c}) : Shape({n, c, h, w}); }
static Tensor word(const std::string &s) { return tensor::from(s); }
struct Predicted { bool ok; std::vector<Tensor::Prototype> p; int h, w, n, c; };
static Predicted predict(const std::string &op, const std::vector<std::pair<std::string, Tensor>> &params, const std::vector<Tensor> &in, bool nhwc) {
    Bench b; Operator::shared o = create(op, params); Predicted r;
    for (auto &t : in) b.stack.push(t);
    r.ok = true; try { InferOperator(o, b.stack, (int) in.size(), r.p); } catch (const Exception &) { r.ok = false; }
    vc_assert(r.ok && r.p.size() == 1 && r.p[0].dims() == 4, "one image is predicted");
    const Shape &s = r.p[0].sizes();
    r.n = s[0]; r.c = nhwc ? s[3] : s[1]; r.h = nhwc ? s[1] : s[2]; r.w = nhwc ? s[2] : s[3];
    vc_assert(r.p[0].dtype() == in[0].dtype(), "the element type is kept");
    return r;
}
// kind: 0 conv2d, 1 conv2d_v2, 2 depthwise, 3 transpose, 4 depthwise_v2
static void conv_op(int kind) {
    const bool nhwc = false; bool h = vc_pick("height", 0, 1); bool typo = vc_pick("name of dilation", 0, 1);
    Dim g = dim(true); Dim o = kind == 3 ? Dim{3, 3, 2, 1, 1, 1} : Dim{5, 3, 2, 1, 1, 1}; const Dim &H = h ? g : o, &W = h ? o : g; if (kind == 3) vc_assume(g.x <= (1 << 15));
    int64_t w = int64_t(g.d) * (g.k - 1) + 1, n = int64_t(g.x) + g.a + g.b; if (kind != 3) vc_assume(w <= n);
    int N = vc_i32("number", 1, 100), C = vc_i32("channels", 1, 1000), O = vc_i32("filters", 1, 1000);
    std::vector<std::pair<std::string, Tensor>> ps = {{"format", word(nhwc ? "NHWC" : "NCHW")}, {"stride", nhwc ? quad(1, H.s, W.s, 1) : quad(1, 1, H.s, W.s)}, {typo ? "dialations" : "dilation", nhwc ? quad(1, H.d, W.d, 1) : quad(1, 1, H.d, W.d)}};
    Tensor p = pads(nhwc, H, W), x = shaped(FLOAT32, image(nhwc, N, C, H.x, W.x)), f;
    switch (kind) { case 2: case 4: f = shaped(FLOAT32, {1, C, H.k, W.k}); break; case 3: f = shaped(FLOAT32, image(nhwc, C, O, H.k, W.k)); break; default: f = shaped(FLOAT32, nhwc ? Shape({O, H.k, W.k, C}) : Shape({O, C, H.k, W.k})); }
    static const char *const names[] = {"conv2d", "conv2d_v2", "depthwise_conv2d", "transpose_conv2d", "depthwise_conv2d_v2"};
    Predicted r;
    if (kind == 1 || kind == 4) r = predict(names[kind], ps, {x, p, f}, nhwc); else { ps.push_back({"padding", p}); r = predict(names[kind], ps, {x, f}, nhwc); }
    vc_assert(r.n == N && r.c == (kind == 2 || kind == 4 ? C : O), "one result per image and filter");
    vc_assert((h ? r.w : r.h) == (kind == 3 ? 5 : 3), "the other dimension has its own extent");
    int y = h ? r.h : r.w;
    if (kind == 3) vc_assert(y == (int64_t(g.x) - 1) * g.s + w - g.a - g.b, "what the windows cover without the padding"); else fits(y, n, w, g.s);
    vc_cover("end");
}
VC_HARNESS(conv2d_extent) { conv_op(0); }
VC_HARNESS(conv2d_v2_extent) { conv_op(1); }
VC_HARNESS(depthwise_extent) { conv_op(2); }
VC_HARNESS(depthwise_v2_extent) { conv_op(4); }
VC_HARNESS(deconv_extent) { conv_op(3); }
static void pool_op(bool v2) {
    bool nhwc = vc_pick("layout", 0, 1), h = vc_pick("height", 0, 1);
    Dim g = dim(false); Dim o = {6, 3, 2, 1, 1, 1}; const Dim &H = h ? g : o, &W = h ? o : g;
    int64_t n = int64_t(g.x) + g.a + g.b; vc_assume(g.k <= n);
    int N = vc_i32("number", 1, 100), C = vc_i32("channels", 1, 1000);
    std::vector<std::pair<std::string, Tensor>> ps = {{"format", word(nhwc ? "NHWC" : "NCHW")}, {"type", tensor::from(0)}};
    Tensor p = pads(nhwc, H, W), x = shaped(FLOAT32, image(nhwc, N, C, H.x, W.x)), k = nhwc ? quad(1, H.k, W.k, 1) : quad(1, 1, H.k, W.k), s = nhwc ? quad(1, H.s, W.s, 1) : quad(1, 1, H.s, W.s);
    Predicted r;
    if (v2) r = predict("pooling2d_v2", ps, {x, p, k, s}, nhwc); else { ps.push_back({"padding", p}); ps.push_back({"ksize", k}); ps.push_back({"stride", s}); r = predict("pooling2d", ps, {x}, nhwc); }
    vc_assert(r.n == N && r.c == C, "one result per image and channel");
    vc_assert((h ? r.w : r.h) == 4, "the other dimension has its own extent");
    covers(h ? r.h : r.w, n, g.k, g.s); vc_cover("end");
}
VC_HARNESS(pooling2d_extent) { pool_op(false); }
VC_HARNESS(pooling2d_v2_extent) { pool_op(true); }
VC_HARNESS(global_pooling_extent) {
    bool nhwc = vc_pick("layout", 0, 1); int N = vc_i32("number", 1, 100), C = vc_i32("channels", 1, 1000), H = vc_i32("height", 1, E), W = vc_i32("width", 1, E);
    Predicted r = predict("global_pooling2d", {{"format", word(nhwc ? "NHWC" : "NCHW")}, {"type", tensor::from(0)}}, {shaped(FLOAT32, image(nhwc, N, C, H, W))}, nhwc);
    vc_assert(r.n == N && r.c == C && r.h == 1 && r.w == 1, "one value per image and channel"); vc_cover("end");
}
VC_HARNESS(winograd_extent) {
    bool h = vc_pick("height", 0, 1); Dim g = dim(false); vc_assume(g.k == 3 && g.s == 1); int64_t n = int64_t(g.x) + g.a + g.b; vc_assume(n >= 3);
    Dim o = {5, 3, 1, 1, 1, 1}; const Dim &H = h ? g : o, &W = h ? o : g; int N = vc_i32("number", 1, 100), C = vc_i32("channels", 1, 1000), O = vc_i32("filters", 1, 1000);
    Predicted r = predict("conv2d_winograd", {{"format", word("NCHW")}, {"padding", pads(false, H, W)}}, {shaped(FLOAT32, {N, C, H.x, W.x}), shaped(FLOAT32, {O, C, 3, 3})}, false);
    vc_assert(r.n == N && r.c == O, "one result per image and filter"); vc_assert((h ? r.w : r.h) == 5, "the other dimension has its own extent");
    vc_assert((h ? r.h : r.w) == n - 2, "one window per position"); vc_cover("end");
}

// ---- padding that makes a pooling or convolution match the other frameworks ----
// the padding the operator gives; a, b: before and after in the dimension under test
struct Pad { int a, b; };
static Pad padded(const std::string &op, const std::vector<std::pair<std::string, Tensor>> &ps, const std::vector<Tensor> &in, bool nhwc, bool h, const Dim &o, bool same_other) {
    Bench b; Operator::shared x = create(op, ps); int n = 0; bool ok = true;
    for (auto &t : in) b.stack.push(t);
    try { n = RunOperator(x, b.stack, (int) in.size()); } catch (const Exception &) { ok = false; }
    vc_assert(ok && n == 1 && b.stack.size() == 1, "a padding is given"); Tensor t = b.stack[0];
    vc_assert(t.dtype() == INT32 && operator_same(t.sizes(), {4, 2}), "as pairs of numbers");
    const int *p = t.data<int>(); int base = nhwc ? 2 : 4, other = base + (h ? 2 : 0), mine = base + (h ? 0 : 2);
    for (int i = 0; i < 8; ++i) if (i < base || i >= base + 4) vc_assert(p[i] == 0, "numbers and channels are not padded");
    (void) o; (void) same_other;
    (void) other;
    Pad r = {p[mine], p[mine + 1]}; return r;
}
// pooling with the given padding makes exactly y windows
static void pools_to(const Dim &g, const Pad &p, int64_t y) { int64_t n = int64_t(g.x) + p.a + p.b; vc_assert((y - 1) * g.s + g.k >= n && ((y - 2) * g.s + g.k < n || y <= 1), "the padding gives the number of windows asked for"); }
// mode: 0 windows that fit, 1 SAME_UPPER, 2 SAME_LOWER
// the smallest number of steps s that reach n, as quotient and remainder
static int64_t steps(int64_t n, int64_t s) { return n / s + (n % s > 0); }
VC_HARNESS(steps_count) {         // what steps() is
    int64_t n = vc_i32("n", 0, E), s = vc_i32("s", 1, K), y = steps(n, s);
    vc_assert(y * s >= n && (y - 1) * s < n, "the smallest number of steps that reach n"); vc_assert(steps(n + 1, s) == n / s + 1, "and counts the windows that fit"); vc_cover("end");
}
static void same_pads(const Dim &g, const Pad &p, int half) {      // half: 0 the smaller one before, 1 the larger one, 2 either
    int64_t y = steps(g.x, g.s), w = int64_t(g.d) * (g.k - 1) + 1, need = (y - 1) * g.s + w - g.x; if (need < 0) need = 0;
    vc_assert((half != 1 && p.a == need / 2) || (half != 0 && p.a == need - need / 2), "half of the padding is before the first element");
    int64_t n = int64_t(g.x) + p.a + p.b;
    vc_assert((y - 1) * g.s + w == n, "as many windows as strides in the input, nothing left over");
}
static Dim bounded_dim(bool dilated) { Dim g = dim(dilated); vc_assume(g.a <= 4096 && g.b <= 4096); bool rest = vc_pick("divisible", 0, 1); if (rest) vc_assume(g.x % g.s > 0); else vc_assume(g.x % g.s == 0); return g; }
VC_HARNESS(onnx_pooling_padding) {
    int mode = vc_pick("auto pad", 0, 3); bool h = vc_pick("height", 0, 1); Dim g = bounded_dim(false), o = {6, 3, 2, 1, 1, 1}; if (mode) { g.a = g.b = 0; o.a = o.b = 0; }
    vc_assume(g.k <= int64_t(g.x) + g.a + g.b || mode > 1); const Dim &H = h ? g : o, &W = h ? o : g;
    static const char *const m[] = {"NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"};
    Pad p = padded("_onnx_pooling2d_padding", {{"auto_pad", word(m[mode])}, {"padding", pads(false, H, W)}}, {shaped(FLOAT32, {1, 1, H.x, W.x}), quad(1, 1, H.k, W.k), quad(1, 1, H.s, W.s)}, false, h, o, mode > 1);
    if (mode > 1) same_pads(g, p, mode == 3 ? 1 : 0);
    else { vc_assert(p.a == g.a, "the padding before is as given"); int64_t n = int64_t(g.x) + g.a + g.b, y = mode ? steps(n - g.k + 1, g.s) : (n - g.k) / g.s + 1; vc_assert((y - 1) * g.s + g.k == int64_t(g.x) + p.a + p.b, "the padding gives the windows that fit"); }
    vc_cover("end");
}
VC_HARNESS(tf_pooling_padding) {
    bool same = vc_pick("same", 0, 1), h = vc_pick("height", 0, 1), nhwc = vc_pick("layout", 0, 1); Dim g = bounded_dim(false), o = {6, 3, 2, 1, 1, 1}; if (same) { g.a = g.b = 0; o.a = o.b = 0; }
    vc_assume(g.k <= int64_t(g.x) + g.a + g.b || same); const Dim &H = h ? g : o, &W = h ? o : g;
    Pad p = padded("_tf_pooling2d_padding", {{"format", word(nhwc ? "NHWC" : "NCHW")}, {"padding_method", word(same ? "SAME" : "VALID")}, {"padding", pads(nhwc, H, W)}},
                   {shaped(FLOAT32, image(nhwc, 1, 1, H.x, W.x)), nhwc ? quad(1, H.k, W.k, 1) : quad(1, 1, H.k, W.k), nhwc ? quad(1, H.s, W.s, 1) : quad(1, 1, H.s, W.s)}, nhwc, h, o, same);
    if (same) same_pads(g, p, 0);
    else { vc_assert(p.a == g.a, "the padding before is as given"); int64_t n = int64_t(g.x) + g.a + g.b, y = steps(n - g.k + 1, g.s); pools_to(g, p, y); }
    vc_cover("end");
}
VC_HARNESS(mx_pooling_padding) {
    bool valid = vc_pick("valid", 0, 1), h = vc_pick("height", 0, 1), nhwc = vc_pick("layout", 0, 1); Dim g = bounded_dim(false), o = {6, 3, 2, 1, 1, 1};
    vc_assume(g.k <= int64_t(g.x) + g.a + g.b); const Dim &H = h ? g : o, &W = h ? o : g;
    Pad p = padded("_mx_pooling2d_padding", {{"format", word(nhwc ? "NHWC" : "NCHW")}, {"valid", tensor::from(valid ? 1 : 0)}, {"padding", pads(nhwc, H, W)}},
                   {shaped(FLOAT32, image(nhwc, 1, 1, H.x, W.x)), nhwc ? quad(1, H.k, W.k, 1) : quad(1, 1, H.k, W.k), nhwc ? quad(1, H.s, W.s, 1) : quad(1, 1, H.s, W.s)}, nhwc, h, o, false);
    vc_assert(p.a == g.a, "the padding before is as given");
    if (valid) { int64_t n = int64_t(g.x) + g.a + g.b, y = (n - g.k) / g.s + 1; vc_assert((y - 1) * g.s + g.k == int64_t(g.x) + p.a + p.b, "the padding gives the windows that fit"); } else vc_assert(p.b == g.b, "the padding after is as given");
    vc_cover("end");
}
static void conv_padding(const char *name, const std::vector<const char *> &modes, const std::vector<int> &kinds, bool kept) {
    int mode = vc_pick("padding method", 0, (int) modes.size() - 1), kind = kinds[mode]; const bool nhwc = false; bool h = vc_pick("height", 0, 1);
    Dim g = bounded_dim(true), o = {5, 3, 2, 1, 1, 1}; if (kind) { g.a = g.b = 0; o.a = o.b = 0; }
    int64_t w = int64_t(g.d) * (g.k - 1) + 1; vc_assume(w <= int64_t(g.x) + g.a + g.b || kind); const Dim &H = h ? g : o, &W = h ? o : g;
    Tensor x = shaped(FLOAT32, image(nhwc, 1, 3, H.x, W.x)), f = shaped(FLOAT32, nhwc ? Shape({2, H.k, W.k, 3}) : Shape({2, 3, H.k, W.k}));
    Pad p = padded(name, {{"format", word(nhwc ? "NHWC" : "NCHW")}, {"padding_method", word(modes[mode])}, {"padding", pads(nhwc, H, W)}, {"stride", nhwc ? quad(1, H.s, W.s, 1) : quad(1, 1, H.s, W.s)}, {"dilation", nhwc ? quad(1, H.d, W.d, 1) : quad(1, 1, H.d, W.d)}}, {x, f}, nhwc, h, o, kind > 0);
    if (kind) same_pads(g, p, kind == 3 ? 2 : 0);
    else { vc_assert(p.a == g.a, "the padding before is as given"); int64_t n = int64_t(g.x) + g.a + g.b, y = kept ? (n - w) / g.s + 1 : steps(n - w + 1, g.s), m = int64_t(g.x) + p.a + p.b; vc_assert((y - 1) * g.s + w <= m, "every window fits"); vc_assert(y * g.s + w > m, "no further window fits"); }
    vc_cover("end");
}
VC_HARNESS(tf_conv_padding) { conv_padding("_tf_conv2d_padding", {"SAME", "VALID"}, {1, 0}, false); }
VC_HARNESS(dragon_conv_padding) { conv_padding("_dragon_conv2d_padding", {"SAME", "VALID", "NOTSET", "SAME_UPPER", "SAME_LOWER"}, {3, 0, 0, 3, 3}, true); }
VC_HARNESS(dragon_pooling_padding) {
    int mode = vc_pick("auto pad", 0, 4); bool h = vc_pick("height", 0, 1), up = vc_pick("ceil", 0, 1); Dim g = bounded_dim(false), o = {6, 3, 2, 1, 1, 1}; if (mode > 1) { g.a = g.b = 0; o.a = o.b = 0; }
    vc_assume(g.k <= int64_t(g.x) + g.a + g.b || mode > 1); const Dim &H = h ? g : o, &W = h ? o : g;
    static const char *const m[] = {"NOTSET", "VALID", "SAME", "SAME_UPPER", "SAME_LOWER"};
    Pad p = padded("_dragon_pooling2d_padding", {{"auto_pad", word(m[mode])}, {"ceil", tensor::from<bool>(up)}, {"padding", pads(false, H, W)}}, {shaped(FLOAT32, {1, 1, H.x, W.x}), quad(1, 1, H.k, W.k), quad(1, 1, H.s, W.s)}, false, h, o, mode > 1);
    if (mode > 1) same_pads(g, p, mode == 3 ? 0 : 1);
    else {
        vc_assert(p.a == g.a, "the padding before is as given"); int64_t n = int64_t(g.x) + g.a + g.b, y = (n - g.k) / g.s + 1;
        if (up && (n - g.k) % g.s > 0 && y * g.s < n) ++y;             // the partial window counts when it starts inside the padded input
        vc_assert((y - 1) * g.s + g.k == int64_t(g.x) + p.a + p.b, "the padding gives the number of windows asked for");
    }
    vc_cover("end");
}
