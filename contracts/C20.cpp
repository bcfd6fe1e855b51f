// For every operator: what is predicted is what is produced, and predicting leaves the operator and its inputs as they were.
#include "ops.h"
#include "runtime/workbench.h"
#include "compiler/argparse.h"
#include "backend/common_structure.h"
// ArgParser without its regular expressions: device names are already lower case, without surrounding blanks
extern "C" __attribute__((used, noinline)) std::string contract_device(ts::ArgParser *, const std::string &d) { return d; }
using namespace vt;
namespace {
typedef std::vector<std::pair<std::string, Tensor>> Params;
typedef std::vector<In> Ins;
struct Lab { Workbench bench; ctx::bind<Workbench> use; ctx::bind<RuntimeContext> rt; Bench b; Lab() : bench(ComputingDevice(CPU, 0)), use(bench), rt(bench.runtime()) {} };
// one case out of a long deterministic sequence; native runs pick from a longer one
struct G {
    uint64_t seed; DTYPE d;
    explicit G(int g) : seed(uint64_t(g) * 0x9E3779B97F4A7C15ull + 12345), d(FLOAT32) { n(2); n(2); }
    int n(int k) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return int((seed >> 33) % (uint64_t) k); }
    int r(int lo, int hi) { return lo + n(hi - lo + 1); }
    bool coin() { return n(2); }
    DTYPE real() { return n(3) ? FLOAT32 : FLOAT64; }
    DTYPE number() { static const DTYPE a[] = {FLOAT32, FLOAT64, INT32, UINT8, INT8, INT16, UINT16, UINT32, INT64, UINT64, FLOAT32, INT32}; return a[n(12)]; }
    Shape shape(int lo, int hi, int e = 4) { Shape s; for (int k = r(lo, hi); k > 0; --k) s.push_back(r(1, e)); return s; }
    Shape like(const Shape &s) { Shape z; for (int e : s) z.push_back(n(3) ? e : r(1, 4)); return z; }
    In tensor(DTYPE d, const Shape &s, int lo = 1, int hi = 5) {
        int c = elems(s);
#define FILL(D, T) case D: { std::vector<T> v; for (int k = 0; k < c; ++k) v.push_back(T(r(lo, hi))); return given<T>(D, s, v); }
        switch (d) { FILL(FLOAT32, float) FILL(FLOAT64, double) FILL(INT8, int8_t) FILL(UINT8, uint8_t) FILL(BOOLEAN, uint8_t) FILL(INT16, int16_t) FILL(UINT16, uint16_t) FILL(INT32, int32_t) FILL(UINT32, uint32_t) FILL(INT64, int64_t) default: FILL(UINT64, uint64_t) }
#undef FILL
    }
    // like tensor with values in hundredths
    In part(const Shape &s, int lo, int hi) { std::vector<float> v; for (int k = 0, c = elems(s); k < c; ++k) v.push_back(r(lo, hi) / 100.f); return given<float>(FLOAT32, s, v); }
};
Tensor I32(int v) { return tensor::from<int32_t>(v); }
Tensor F32(float v) { return tensor::from<float>(v); }
Tensor BOOL(bool v) { return tensor::from<bool>(v); }
Tensor INTS(const std::vector<int32_t> &v) { return tensor::build(INT32, Shape({(int) v.size()}), v.data()); }
Tensor TEXT(const std::string &v) { return tensor::from(v); }
int ran = 0;
void why(const std::exception &e) { if (getenv("C20_LOG")) printf("WHY %s\n", e.what()); }
bool same_bytes(const Tensor &a, const Tensor &b) {
    if (a.dtype() != b.dtype() || !operator_same(a.sizes(), b.sizes())) return false;
    bool same = true; int n = a.count();
#define EACH(T) { const T *p = (const T *) a.data(), *q = (const T *) b.data(); for (int k = 0; k < n; ++k) same = same & (p[k] == q[k]); }
    switch (type_bytes(a.dtype())) { case 1: EACH(uint8_t) break; case 2: EACH(uint16_t) break; case 4: EACH(uint32_t) break; default: EACH(uint64_t) }
#undef EACH
    return same;
}
struct Test {
    Lab &lab; std::string op; bool values = true;
    Test(Lab &l, const std::string &o) : lab(l), op(o) {}
    Operator::shared make(const Params &params) {
        Operator::shared o = OperatorCreator::Create(CPU, op, false);
        vc_assert(o != nullptr, "the operator exists");
        o->set("#op", tensor::from(op)); o->set("#name", tensor::from(std::string("it"))); o->set("#output_count", I32(1)); o->set("#shape", INTS(std::vector<int32_t>()));
        for (auto &p : params) try { o->set(p.first, p.second.clone()); } catch (const std::exception &) {}  // a parameter it does not have
        try { o->init(); } catch (const std::exception &e) { why(e); return nullptr; }
        return o;
    }
    void kept(const Ins &in) {
        for (auto &x : in) {
            vc_assert(operator_same(x.t.sizes(), x.s) && x.t.dtype() == x.d, "the inputs keep their shape and type");
            vc_assert(x.kept(), "the inputs keep their elements");
        }
    }
    // what is asked about the inputs on the stack; other tensors may lie below them
    bool predict(const Operator::shared &o, const Ins &in, std::vector<Tensor::Prototype> &proto) {
        proto.clear(); lab.b.stack.clear();
        for (auto &x : in) lab.b.stack.push(x.t);
        bool ok = true;
        try { InferOperator(o, lab.b.stack, (int) in.size(), proto); } catch (const std::exception &) { ok = false; }
        lab.b.stack.clear();
        kept(in);
        return ok;
    }
    bool run(const Operator::shared &o, const Ins &in, std::vector<Tensor> &out) {
        out.clear(); lab.b.stack.clear();
        for (auto &x : in) lab.b.stack.push(x.t);
        int n = 0; bool ok = true;
        try { n = RunOperator(o, lab.b.stack, (int) in.size()); } catch (const std::exception &e) { why(e); ok = false; }
        if (ok) {
            vc_assert(n == 1 && lab.b.stack.size() == 1, "one result, maybe packed");
            Tensor t = lab.b.stack[0];
            for (size_t k = 0; k < t.fields_count(); ++k) out.push_back(t.field(k).clone());
        }
        lab.b.stack.clear();
        kept(in);
        return ok;
    }
    void agree(const std::vector<Tensor::Prototype> &proto, const std::vector<Tensor> &out) {
        vc_assert(proto.size() == out.size(), "as many results as predicted");
        for (size_t k = 0; k < out.size() && k < proto.size(); ++k) {
            vc_assert(proto[k].dtype() == out[k].dtype(), "the predicted element type is that of the result");
            vc_assert(operator_same(proto[k].sizes(), out[k].sizes()), "the predicted shape is that of the result");
        }
    }
    void equal(const std::vector<Tensor> &a, const std::vector<Tensor> &b) {
        vc_assert(a.size() == b.size(), "predicting does not change the results (number)");
        for (size_t k = 0; k < a.size() && k < b.size(); ++k) {
            vc_assert(a[k].dtype() == b[k].dtype() && operator_same(a[k].sizes(), b[k].sizes()), "predicting does not change the results (shape)");
            if (values) vc_assert(same_bytes(a[k], b[k]), "predicting does not change the results (elements)");
        }
    }
    void operator()(const Params &params, const Ins &in, const Ins &other) {
        if (getenv("C20_LOG")) {
            printf("BEG %s", op.c_str());
            for (auto &x : params) { std::ostringstream o; if (x.second.dtype() == INT32 && x.second.count() < 8) o << to_string(tensor::array::to_int(x.second)); printf(" %s=%s", x.first.c_str(), o.str().c_str()); }
            for (auto &x : in) { std::ostringstream o; o << type_str(x.d) << to_string(x.s); if (x.d == INT32 && x.n < 8) o << "=" << to_string(tensor::array::to_int(x.t)); printf(" %s", o.str().c_str()); }
            printf("\n"); fflush(stdout);
        }
        Operator::shared plain = make(params), asked = make(params);
        if (!plain || !asked) { if (getenv("C20_LOG")) printf("REJ %s\n", op.c_str()); return; }
        std::vector<Tensor> first, second, again; std::vector<Tensor::Prototype> proto, skip;
        bool works = run(plain, in, first);
        predict(asked, other, skip);
        bool known = predict(asked, in, proto);
        if (getenv("C20_LOG")) printf("%s %s\n", works ? "RUN" : "REJ", op.c_str());
        if (!works) return;
        ++ran;
        vc_assert(known, "a shape is predicted for what runs");
        agree(proto, first);
        predict(asked, other, skip);
        vc_assert(run(asked, in, second), "predicting does not stop the operator from running");
        equal(first, second);
        std::vector<Tensor::Prototype> later;
        vc_assert(predict(asked, in, later) && later.size() == proto.size(), "the same prediction after a run");
        agree(later, second);
        predict(plain, other, skip);
        if (run(plain, other, again)) { vc_assert(!skip.empty(), "a shape is predicted for what runs"); agree(skip, again); }
    }
};
// op number k of the list and a geometry
struct Pick { int op; G g; Pick(int ops, int picks) : op(0), g(0) { int p = vc_pick("case", 0, vc_symbolic() ? ops * picks - 1 : 1 << 30); op = p % ops; g = G(p / ops * 131 + op); } };
#define OPS_OF(...) static const char *names[] = {__VA_ARGS__}; Lab lab; Pick p(sizeof names / sizeof *names, PICKS); std::string op = names[p.op]; G &g = p.g; Test t(lab, op); ran = 0; (void) g
void done() { vc_cover("end"); vc_cover(ran ? "ran" : "rejected"); }
}
#define PICKS 4
VC_HARNESS(elementwise) {
    OPS_OF("abs", "ceil", "floor", "exp", "sigmoid", "tanh", "relu", "relu_max", "leaky_relu", "hard_sigmoid", "softplus", "erf", "sqrt", "rsqrt", "square", "pow", "to_float", "_cast", "_dims", "_shape", "_copy", "prewhiten", "quantize");
    DTYPE d = g.n(3) ? g.real() : g.number();
    if (op == "exp" || op == "softplus" || op == "sigmoid" || op == "tanh" || op == "erf" || op == "pow" || op == "hard_sigmoid" || op == "square") d = g.real();
    auto gen = [&] { return Ins{g.tensor(d, g.shape(op == "prewhiten" || op == "quantize" ? 1 : 0, 4))}; };
    Params ps;
    if (op == "pow") ps = {{"y", F32(2)}};
    if (op == "relu_max") ps = {{"max", F32(3)}};
    if (op == "leaky_relu") ps = {{"scale", F32(0.5f)}};
    if (op == "_cast") ps = {{"dtype", I32(g.number())}};
    Ins in = gen(), other = gen();
    if (op == "quantize") { int c = in[0].s[0]; Tensor sc(FLOAT32, Shape({c})); for (int k = 0; k < c; ++k) sc.data<float>()[k] = float(1 + k); ps = {{"quantize_scale", sc}}; }
    t(ps, in, other); done();
}
#undef PICKS
#define PICKS 6
VC_HARNESS(reduction) {
    OPS_OF("argmax", "max", "reduce_sum", "reduce_mean", "softmax", "l2_norm", "norm_image", "topkv2", "flatten", "flatten2d", "_dimshuffle", "_transpose", "squeeze", "unsqueeze", "chunk", "split", "_expand");
    DTYPE d = g.n(3) ? g.real() : g.number(); if (op == "softmax" || op == "l2_norm" || op == "norm_image") d = g.real(); int rank = g.r(op == "norm_image" ? 3 : 1, 4), dim = g.r(-rank, rank - 1);
    auto gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank))}; };
    Ins in = gen(), other = g.coin() ? gen() : Ins{g.tensor(d, g.shape(1, 4))};
    Params ps;
    if (op == "argmax" || op == "softmax" || op == "l2_norm") ps = {{"dim", I32(dim)}};
    if (op == "softmax" && g.coin()) ps.push_back({"smooth", BOOL(g.coin())});
    if (op == "max") { ps = {{"dim", I32(dim)}}; if (g.coin()) ps.push_back({"keep_dims", BOOL(g.coin())}); }
    if (op == "reduce_sum") { ps = {{"dims", I32(dim)}}; if (g.coin()) ps.push_back({"keep_dims", BOOL(g.coin())}); }
    if (op == "reduce_mean") { std::vector<int32_t> ds; int lo = g.r(0, rank - 1), hi = g.r(lo, rank - 1); bool neg = g.coin(); for (int k = lo; k <= hi; ++k) ds.push_back(neg ? k - rank : k); ps = {{"dims", INTS(ds)}}; if (g.coin()) ps.push_back({"keep_dims", BOOL(g.coin())}); }
    if (op == "topkv2") { ps = {{"number", I32(g.r(1, 5))}, {"sorted", I32(g.n(2))}}; }
    if (op == "flatten" || op == "flatten2d") { if (g.coin()) ps = {{"dim", I32(dim)}}; }
    if (op == "_dimshuffle") { int e = in[0].s[dim < 0 ? dim + rank : dim]; std::vector<int32_t> v; for (int k = g.r(1, 4); k > 0; --k) v.push_back(g.n(e)); ps = {{"dim", I32(dim)}, {"shuffle", INTS(v)}}; }
    if (op == "_transpose" && g.n(3)) { std::vector<int32_t> v; for (int k = 0; k < rank; ++k) v.insert(v.begin() + g.n(k + 1), k); ps = {{"permute", INTS(v)}}; }
    if (op == "squeeze" && g.coin()) { ps = {{"axes", INTS({dim})}}; in[0] = [&] { Shape s = in[0].s; s[dim < 0 ? dim + rank : dim] = 1; return g.tensor(d, s); }(); }
    if (op == "unsqueeze") { std::vector<int32_t> a; for (int k = 0; k < rank + 2; ++k) if (g.n(3) == 0) a.push_back(k); if (a.empty()) a.push_back(0); ps = {{"axes", INTS(a)}}; }
    if (op == "chunk") { ps = {{"chunks", I32(g.r(1, 3))}, {"dim", I32(dim)}}; }
    if (op == "split") { int e = in[0].s[dim < 0 ? dim + rank : dim], a = g.r(0, e); in.push_back(ints({a, e - a})); other.push_back(ints({1, 1})); ps = {{"axis", I32(dim)}}; }
    if (op == "_expand") { in.push_back(ints({g.r(rank, 5)})); other.push_back(ints({g.r(rank, 6)})); if (g.coin()) ps = {{"front", I32(g.r(-1, 2))}}; if (g.coin()) ps.push_back({"end", I32(g.r(-1, 2))}); if (g.coin()) ps.push_back({"inverse", BOOL(g.coin())}); }
    t(ps, in, other); done();
}
VC_HARNESS(arithmetic) {
    OPS_OF("add", "sub", "mul", "div", "maximum", "mod", "equal", "where", "broadcast", "add_bias", "batch_scale", "prelu", "batch_norm", "fused_batch_norm", "gatherv2");
    DTYPE d = g.n(3) ? g.real() : g.number(), e = g.n(4) ? d : g.number();
    Params ps; Ins in, other;
    auto gen = [&]() -> Ins {
        Shape s = g.shape(0, 4), a = s, b = s;
        for (size_t k = 0; k < s.size(); ++k) { int c = g.n(4); if (c == 0) a[k] = 1; if (c == 1) b[k] = 1; }
        if (g.n(3) == 0) b.erase(b.begin(), b.begin() + g.r(0, (int) b.size()));
        else if (g.n(4) == 0) a.erase(a.begin(), a.begin() + g.r(0, (int) a.size()));
        if (op == "where") return Ins{g.tensor(g.coin() ? BOOLEAN : UINT8, b, 0, 1), g.tensor(d, a), g.tensor(e, s)};
        if (op == "broadcast") { return Ins{g.tensor(d, b), given<int32_t>(INT32, {(int) s.size()}, std::vector<int32_t>(s.begin(), s.end()))}; }
        return Ins{g.tensor(d, a), g.tensor(e, b)};
    };
    if (p.op < 9) { in = gen(); other = gen(); }
    else if (op == "gatherv2") { Shape s = g.shape(1, 3); auto mk = [&] { std::vector<int32_t> v; for (int k = 0, c = g.r(1, 3); k < c; ++k) v.push_back(g.n(s[0])); return Ins{g.tensor(d, s), given<int32_t>(INT32, {(int) v.size(), 1}, v)}; }; in = mk(); other = mk(); }
    else {
        int rank = g.r(1, 4), dim = g.n(rank); d = g.real(); ps = {{"dim", I32(dim)}};
        auto mk = [&] { Shape s = g.shape(rank, rank); Ins r{g.tensor(d, s)}; int k = op == "batch_norm" || op == "batch_scale" ? 2 : op == "fused_batch_norm" ? 4 : 1; while (k--) r.push_back(g.tensor(d, {s[dim]})); return r; };
        in = mk(); other = mk();
    }
    t(ps, in, other); done();
}
VC_HARNESS(matrix) {
    OPS_OF("gemm", "inner_prod", "matmul", "gemm", "LSTM");
    DTYPE d = g.n(3) ? FLOAT32 : FLOAT64; Params ps; Ins in, other; bool ta = g.coin(), tb = g.coin();
    t.values = op != "LSTM";
    std::function<Ins()> gen;
    if (op == "gemm") { ps = {{"transA", BOOL(ta)}, {"transB", BOOL(tb)}, {"alpha", F32(1)}, {"beta", F32(g.n(2))}};
        gen = [&] { int m = g.r(1, 5), k = g.r(1, 4), n = g.r(1, 5); const Shape cs[] = {Shape{m, n}, Shape{1, n}, Shape{n}, Shape{m, 1}, Shape{1, 1}, Shape{1}, Shape()}; Shape c = cs[g.n(7)]; return Ins{g.tensor(d, ta ? Shape{k, m} : Shape{m, k}), g.tensor(d, tb ? Shape{n, k} : Shape{k, n}), g.tensor(d, c)}; }; }
    if (op == "inner_prod") { if (g.coin()) ps = {{"transpose", BOOL(tb)}}; else tb = false;
        gen = [&] { int m = g.r(1, 5), k = g.r(1, 4), n = g.r(1, 5), q = g.r(1, 2); Shape a = g.coin() ? Shape{m, k} : g.coin() ? Shape{m, q, k} : Shape{m, k, q, 1}; int kk = elems(a) / m; return Ins{g.tensor(d, a), g.tensor(d, tb ? Shape{n, kk} : Shape{kk, n})}; }; }
    if (op == "matmul") { int form = g.n(4);
        gen = [&, form] { int m = g.r(1, 5), k = g.r(1, 4), n = g.r(1, 5), q = g.r(1, 3); if (form == 0) return Ins{g.tensor(d, {1, 1, m, k}), g.tensor(d, {1, 1, k, n})}; if (form == 1) return Ins{g.tensor(d, {q, m, k}), g.tensor(d, {k, n})}; if (form == 2) return Ins{g.tensor(d, {q, m, 2, k}), g.tensor(d, {k, n})}; return Ins{g.tensor(d, {m, k}), g.tensor(d, {k, n})}; }; }
    if (op == "LSTM") { int h = g.r(1, 3), two = g.coin() ? 2 : 1; ps = {{"direction", TEXT(two == 2 ? "bidirectional" : "forward")}, {"hidden_size", I32(h)}};
        gen = [&, h, two] { int l = g.r(1, 3), n = g.r(1, 2), c = g.r(1, 3); return Ins{g.tensor(FLOAT32, {l, n, c}), g.tensor(FLOAT32, {two, 4 * h, c}), g.tensor(FLOAT32, {two, 4 * h, h}), g.tensor(FLOAT32, {two, 8 * h}), g.tensor(FLOAT32, {two, n, h}), g.tensor(FLOAT32, {two, n, h})}; }; }
    in = gen(); other = gen();
    t(ps, in, other); done();
}
VC_HARNESS(layout) {
    OPS_OF("concat", "stack", "_reshape", "_reshape_v2", "slice", "slice_v2", "slice_v3", "strided_slice", "tile", "tile_v2", "gather", "gather_elements", "scatter_nd", "pad", "crop_to", "crop_nd", "batch_to_space4d", "space_to_batch4d", "range", "constant_of_shape");
    DTYPE d = g.n(3) ? g.real() : g.number(); int rank = g.r(1, 4), dim = g.r(-rank, rank - 1), at = dim < 0 ? dim + rank : dim; Params ps; std::function<Ins()> gen;
    std::vector<int32_t> a, b;
    if (op == "concat") { ps = {{"dim", I32(dim)}}; gen = [&] { Shape s = g.shape(rank, rank); Ins r; for (int k = g.r(1, 3); k > 0; --k) { s[at] = g.r(1, 3); r.push_back(g.tensor(d, s)); } return r; }; }
    if (op == "stack") { ps = {{"axis", I32(g.r(-rank - 1, rank))}}; gen = [&] { Shape s = g.shape(rank, rank); Ins r; for (int k = g.r(1, 3); k > 0; --k) r.push_back(g.tensor(d, s)); return r; }; }
    if (op == "_reshape" || op == "_reshape_v2") {
        int e = g.r(1, 3); static const std::vector<std::vector<int32_t>> forms = {{-1}, {0, -1}, {-1, 1}, {1, -1}, {0, 0, -1}, {1, 0, -1}}; a = forms[g.n(6)];
        if (op == "_reshape") ps = {{"shape", INTS(a)}};
        gen = [&, e] { Ins r{g.tensor(d, {e, g.r(1, 4), g.r(1, 3)})}; if (op == "_reshape_v2") r.push_back(ints(a)); return r; }; }
    if (op == "slice" || op == "slice_v2") { for (int k = 0; k < rank; ++k) { int s = g.n(3); a.push_back(s); b.push_back(g.n(3) ? g.r(1, 4 - s) : -1); }
        if (op == "slice") ps = {{"begin", INTS(a)}, {"size", INTS(b)}};
        gen = [&] { Ins r{g.tensor(d, g.coin() ? Shape(rank, 4) : g.shape(rank, rank, 5))}; if (op == "slice_v2") { r.push_back(ints(a)); r.push_back(ints(b)); } return r; }; }
    if (op == "slice_v3") { gen = [&] { Ins r{g.tensor(d, g.shape(rank, rank, 5))}; int c = g.r(1, rank); std::vector<int32_t> s, e, x, z; for (int k = 0; k < c; ++k) { z.push_back(g.n(3) ? g.r(1, 2) : -g.r(1, 2)); s.push_back(g.r(-3, 3)); e.push_back(g.r(-6, 6)); x.push_back(k); } r.push_back(ints(s)); r.push_back(ints(e)); if (g.coin()) { r.push_back(ints(x)); if (g.coin()) r.push_back(ints(z)); } return r; }; }
    if (op == "strided_slice") { std::vector<int32_t> s, e, z; for (int k = 0; k < rank; ++k) { s.push_back(g.r(-2, 2)); e.push_back(g.r(-2, 4)); z.push_back(g.n(3) ? g.r(1, 2) : -g.r(1, 2)); }
        ps = {{"begin", INTS(s)}, {"end", INTS(e)}, {"stride", INTS(z)}}; for (const char *m : {"begin_mask", "end_mask", "shrink_axis_mask", "new_axis_mask"}) if (g.n(3) == 0) ps.push_back({m, I32(g.n(1 << rank))}); if (g.n(5) == 0) ps.push_back({"ellipsis_mask", I32(1 << g.n(rank))});
        gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 5))}; }; }
    if (op == "tile" || op == "tile_v2") { for (int k = 0, c = op == "tile" ? g.r(1, rank) : rank; k < c; ++k) a.push_back(g.r(1, 3)); if (op == "tile") ps = {{"repeats", INTS(a)}}; gen = [&] { Ins r{g.tensor(d, g.shape(rank, rank, 3))}; if (op == "tile_v2") r.push_back(ints(a)); return r; }; }
    if (op == "gather") { ps = {{"axis", I32(dim)}}; gen = [&] { Shape s = g.shape(rank, rank); return Ins{g.tensor(d, s), g.tensor(g.n(3) ? INT32 : INT64, g.shape(0, 2), 0, s[at] - 1)}; }; }
    if (op == "gather_elements") { ps = {{"axis", I32(dim)}}; gen = [&] { Shape s = g.shape(rank, rank), q = s; q[at] = g.r(1, 4); return Ins{g.tensor(d, s), g.tensor(INT32, q, 0, s[at] - 1)}; }; }
    if (op == "scatter_nd") { gen = [&] { Shape s = g.shape(rank, rank); int q = g.r(1, rank), n = g.r(1, 3); Shape u = {n}; u.insert(u.end(), s.begin() + q, s.end()); int lim = *std::min_element(s.begin(), s.begin() + q); return Ins{g.tensor(d, s), g.tensor(INT32, {n, q}, 0, lim - 1), g.tensor(d, u)}; }; }
    if (op == "pad") { ps = {{"padding_value", F32(1)}}; for (int k = 0; k < rank; ++k) { a.push_back(g.r(-1, 2)); a.push_back(g.r(-1, 2)); } gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 5)), given<int32_t>(INT32, {rank, 2}, a)}; }; }
    if (op == "crop_to") { if (g.coin()) ps = {{"axis", I32(dim)}}; if (g.coin()) ps.push_back({"offset", INTS({0})}); gen = [&] { Shape s = g.shape(rank, rank), z = s; for (int &e : z) e = g.r(1, e); return Ins{g.tensor(d, s), g.tensor(d, z)}; }; }
    if (op == "crop_nd") { if (g.coin()) { for (int k = 0; k < rank; ++k) b.push_back(g.r(-1, 1)); ps = {{"shift", INTS(b)}}; } for (int k = 0; k < rank; ++k) a.push_back(g.n(4) ? g.r(1, 5) : g.r(-1, 0)); gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 5)), ints(a)}; }; }
    if (op == "batch_to_space4d" || op == "space_to_batch4d") { int h = g.r(1, 3), w = g.r(1, 3); std::vector<int32_t> c = {g.n(2), g.n(2), g.n(2), g.n(2)}; bool to = op[0] == 's';
        ps = {{"block_shape", INTS({h, w})}, {to ? "padding" : "crop", tensor::build(INT32, Shape({2, 2}), c.data())}};
        gen = [&, h, w, c, to] { if (!to) return Ins{g.tensor(d, {h * w * g.r(1, 2), g.r(1, 2), g.r(2, 3), g.r(2, 3)})}; int y = g.r(2, 4) * h - c[0] - c[1], x = g.r(2, 4) * w - c[2] - c[3]; return Ins{g.tensor(d, {g.r(1, 2), g.r(1, 2), std::max(y, 1), std::max(x, 1)})}; }; }
    if (op == "range") { gen = [&] { int s = g.r(0, 3), l = g.r(0, 9), z = g.r(1, 3); return Ins{g.tensor(d, Shape(), s, s), g.tensor(d, Shape(), l, l), g.tensor(d, Shape(), z, z)}; }; }
    if (op == "constant_of_shape") { if (g.coin()) ps = {{"value", g.tensor(d, {1}).t}}; gen = [&] { Shape s = g.shape(0, 3); return Ins{given<int32_t>(INT32, {(int) s.size()}, std::vector<int32_t>(s.begin(), s.end()))}; }; }
    Ins in = gen(), other = gen();
    t(ps, in, other); done();
}
#undef PICKS
#define PICKS 5
VC_HARNESS(window) {
    OPS_OF("conv2d", "conv2d_v2", "depthwise_conv2d", "depthwise_conv2d_v2", "conv2d_winograd", "conv2d_winograd_v2", "transpose_conv2d", "pooling2d", "pooling2d_v2", "global_pooling2d", "conv2d_quantized", "dcn_v2_forward", "winograd_transform_kernel",
           "_mx_pooling2d_padding", "_onnx_pooling2d_padding", "_tf_conv2d_padding", "_tf_pooling2d_padding", "_dragon_conv2d_padding", "_dragon_pooling2d_padding");
    DTYPE d = g.n(3) ? FLOAT32 : FLOAT64; Params ps; std::function<Ins()> gen;
    bool nhwc = g.n(10) == 0 && op.find("winograd") == std::string::npos; auto four = [&](int a, int h, int w, int z) { return nhwc ? std::vector<int32_t>{a, h, w, z} : std::vector<int32_t>{a, z, h, w}; };
    int kh = g.r(1, 3), kw = g.r(1, 3), sh = g.r(1, 2), sw = g.r(1, 2), dh = g.n(3) ? 1 : 2, dw = g.n(3) ? 1 : 2;
    std::vector<int32_t> pad(8, 0); for (int k = 0; k < 4; ++k) pad[(nhwc ? 2 : 4) + k] = g.n(3);
    if (op == "dcn_v2_forward") { pad[nhwc ? 3 : 5] = pad[nhwc ? 2 : 4]; pad[nhwc ? 5 : 7] = pad[nhwc ? 4 : 6]; }
    Tensor format = TEXT(nhwc ? "NHWC" : "NCHW"), padding = tensor::build(INT32, Shape({4, 2}), pad.data()), stride = INTS(four(1, sh, sw, 1)), dilation = INTS(four(1, dh, dw, 1));
    In padin = given<int32_t>(INT32, {4, 2}, pad), kin = given<int32_t>(INT32, {4}, four(1, kh, kw, 1)), sin = given<int32_t>(INT32, {4}, four(1, sh, sw, 1));
    bool wino = op.compare(0, 15, "conv2d_winograd") == 0, depth = op.compare(0, 9, "depthwise") == 0, v2 = op.size() > 3 && op.substr(op.size() - 3) == "_v2", deconv = op == "transpose_conv2d";
    if (wino) kh = kw = 3;
    auto image = [&](DTYPE d, int n, int c) { return g.tensor(d, nhwc ? Shape{n, g.r(5, 9), g.r(5, 9), c} : Shape{n, c, g.r(5, 9), g.r(5, 9)}); };
    if (op.compare(0, 6, "conv2d") == 0 || depth || deconv) {
        ps = {{"format", format}, {"stride", stride}}; if (!v2) ps.push_back({"padding", padding}); if (g.n(8) || op == "conv2d_quantized") ps.push_back({"dilation", dilation}); if (g.coin()) ps.push_back({"padding_value", F32(0)});
        if (op == "conv2d_quantized") { d = INT8; Tensor sc(FLOAT32, Shape({2})); sc.data<float>()[0] = 1; sc.data<float>()[1] = 2; ps.push_back({"dequantize_scales", sc}); }
        gen = [&] { int c = g.r(1, 3), o = op == "conv2d_quantized" ? 2 : g.r(1, 3); Ins r{image(d, g.r(1, 2), c)}; if (v2) r.push_back(padin);
            int a = depth ? 1 : o, b = c; if (deconv) { a = c; b = o; }
            r.push_back(g.tensor(d, nhwc ? Shape{a, kh, kw, b} : Shape{a, b, kh, kw})); if (depth && !nhwc && 0) r.push_back(padin); return r; };
    } else if (op == "pooling2d" || op == "pooling2d_v2") {
        ps = {{"format", format}, {"type", I32(g.n(2))}}; if (op == "pooling2d") { ps.push_back({"padding", padding}); ps.push_back({"ksize", INTS(four(1, kh, kw, 1))}); ps.push_back({"stride", stride}); } if (g.coin()) ps.push_back({"padding_type", I32(g.n(3))});
        gen = [&] { Ins r{image(d, g.r(1, 2), g.r(1, 3))}; if (op == "pooling2d_v2") { r.push_back(padin); r.push_back(kin); r.push_back(sin); } return r; };
    } else if (op == "global_pooling2d") { ps = {{"format", format}, {"type", I32(g.n(2))}}; gen = [&] { return Ins{image(d, g.r(1, 2), g.r(1, 3))}; }; }
    else if (op == "dcn_v2_forward") { ps = {{"format", format}, {"padding", padding}, {"stride", stride}, {"dilation", dilation}, {"deformable_groups", I32(1)}}; d = FLOAT32;
        gen = [&] { int c = g.r(1, 2), o = g.r(1, 2), h = g.r(5, 7), w = g.r(5, 7), q = nhwc ? 2 : 4; int oh = (h + pad[q] + pad[q + 1] - dh * (kh - 1) - 1) / sh + 1, ow = (w + pad[q + 2] + pad[q + 3] - dw * (kw - 1) - 1) / sw + 1; return Ins{g.tensor(d, {1, c, h, w}), g.tensor(d, {o, c, kh, kw}), g.tensor(d, {o}), g.tensor(d, {1, 2 * kh * kw, oh, ow}, 0, 1), g.tensor(d, {1, kh * kw, oh, ow})}; }; }
    else if (op == "winograd_transform_kernel") { if (g.coin()) ps = {{"winograd_mode", TEXT(g.coin() ? "winograd_f63" : "winograd_f23")}}; d = FLOAT32; gen = [&] { return Ins{g.tensor(d, {g.r(1, 3), g.r(1, 3), 3, 3})}; }; }
    else if (op == "_tf_conv2d_padding" || op == "_dragon_conv2d_padding") {
        ps = {{"format", format}, {op[1] == 't' ? "padding_method" : "auto_pad", TEXT(op[1] == 't' ? (g.coin() ? "SAME" : "VALID") : g.coin() ? "SAME_UPPER" : "SAME_LOWER")}, {"stride", stride}, {"dilation", dilation}}; if (g.coin()) ps.push_back({"padding", padding});
        gen = [&] { int c = g.r(1, 3), o = g.r(1, 3); return Ins{image(d, 1, c), g.tensor(d, nhwc ? Shape{o, kh, kw, c} : Shape{o, c, kh, kw})}; };
    } else {
        ps = {{"format", format}, {op == "_tf_pooling2d_padding" ? "padding_method" : "auto_pad", TEXT(op[1] == 't' ? (g.coin() ? "SAME" : "VALID") : g.coin() ? "SAME_UPPER" : "SAME_LOWER")}, {"padding", padding}, {"static_padding", padding}, {"valid", BOOL(g.coin())}, {"ceil_mode", BOOL(g.coin())}};
        gen = [&] { return Ins{image(d, 1, g.r(1, 3)), kin, sin}; };
    }
    Ins in = gen(), other = gen();
    t(ps, in, other); done();
}
VC_HARNESS(image) {
    OPS_OF("_resize2d", "sample2d", "sample2d_v2", "resize_nearest_neighbor", "affine_sample2d", "force_gray", "force_color", "_nhwc_center_crop2d", "_nhwc_letterbox", "_nhwc_scale_resize2d", "divided", "_limit", "shape_index_patch", "prior_box", "yolo", "non_max_suppression_v3", "roi_align");
    DTYPE d = g.n(3) ? FLOAT32 : g.coin() ? UINT8 : FLOAT64; int rank = g.r(2, 4); Params ps; std::function<Ins()> gen; std::vector<int32_t> a;
    t.values = op != "sample2d_v2" || true;
    auto nhwc = [&](int c) { return g.tensor(d, {g.r(1, 2), g.r(1, 6), g.r(1, 6), c}); };
    int type = g.n(4);
    if (op == "_resize2d") { int at = g.n(rank - 1); if (g.coin()) ps = {{"type", I32(type)}}; gen = [&, at] { Shape s = g.shape(rank, rank, 5); std::vector<int32_t> z(rank, -1); z[at] = g.n(4) ? g.r(1, 7) : s[at]; z[at + 1] = g.n(4) ? g.r(1, 7) : s[at + 1]; if (g.coin()) for (int k = 0; k < rank; ++k) if (z[k] < 0 && k > at) z[k] = s[k]; return Ins{g.tensor(d, s), ints(z)}; }; }
    if (op == "sample2d") { ps = {{"scale", F32(g.r(25, 300) / 100.f)}, {"dim", I32(g.coin() ? -2 : g.n(rank - 1))}}; if (g.coin()) ps.push_back({"type", I32(type)}); gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 5))}; }; }
    if (op == "sample2d_v2") { if (g.coin()) ps = {{"type", I32(type)}}; int at = g.n(rank - 1); gen = [&, at] { std::vector<float> z(rank, 1.f); z[at] = g.r(1, 6) / 2.f; z[at + 1] = g.r(1, 6) / 2.f; return Ins{g.tensor(d, g.shape(rank, rank, 5)), given<float>(FLOAT32, {rank}, z)}; }; }
    if (op == "resize_nearest_neighbor") { int at = g.n(rank - 1); ps = {{"dim", I32(at)}}; if (g.coin()) ps.push_back({"align_corners", I32(g.n(2))}); gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 5)), ints({g.r(1, 6), g.r(1, 6)})}; }; }
    if (op == "affine_sample2d") { ps = {{"type", I32(type)}, {"dim", I32(g.coin() ? -2 : g.n(rank - 1))}}; if (g.coin()) ps.push_back({"outer_value", F32(1)}); gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 5)), ints({g.r(1, 5), g.r(1, 5)}), given<float>(FLOAT32, {3, 3}, {1, 0, float(g.n(2)), 0, g.coin() ? 1.f : .5f, 0, 0, 0, 1})}; }; }
    if (op == "force_gray") { gen = [&] { return Ins{g.tensor(d, [&] { Shape s = g.shape(1, 4); s.back() = g.n(3) ? 3 : 1; return s; }())}; }; }
    if (op == "force_color") { gen = [&] { return Ins{g.tensor(d, [&] { Shape s = g.shape(1, 4); s.back() = g.n(3) ? 1 : 3; return s; }())}; }; }
    if (op == "_nhwc_center_crop2d") { ps = {{"size", INTS({g.r(1, 7), g.r(1, 7)})}}; gen = [&] { return Ins{nhwc(g.r(1, 3))}; }; }
    if (op == "_nhwc_letterbox" || op == "_nhwc_scale_resize2d") { a = {g.r(1, 7)}; if (g.coin()) a.push_back(g.r(1, 7)); ps = {{"size", INTS(a)}}; if (g.coin()) ps.push_back({"type", I32(type)}); if (op == "_nhwc_letterbox" && g.coin()) ps.push_back({"outer_value", F32(1)}); gen = [&] { return Ins{nhwc(g.r(1, 3))}; }; }
    if (op == "divided") { for (int k = g.r(1, rank); k > 0; --k) a.push_back(g.r(1, 4)); ps = {{"size", INTS(a)}}; if (g.coin()) ps.push_back({"padding_value", F32(1)}); gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 5))}; }; }
    if (op == "_limit") { for (int k = g.r(1, rank); k > 0; --k) a.push_back(g.r(-1, 4)); ps = {{"shape", INTS(a)}}; gen = [&] { return Ins{g.tensor(d, g.shape(rank, rank, 6))}; }; }
    if (op == "shape_index_patch") { ps = {{"origin_patch", INTS({g.r(1, 3), g.r(1, 3)})}, {"origin", INTS({g.r(3, 6), g.r(3, 6)})}}; gen = [&] { int n = g.r(1, 2), l = g.r(1, 3); In q = g.tensor(FLOAT32, {n, 2 * l, 1, 1}, 0, 1); return Ins{g.tensor(FLOAT32, {n, g.r(1, 2), g.r(3, 6), g.r(3, 6)}), q}; }; }
    if (op == "prior_box") { int c = g.r(1, 2); std::vector<float> lo, hi, ar; for (int k = 0; k < c; ++k) { lo.push_back(k + 1.f); hi.push_back(k + 3.f); } for (int k = g.r(1, 2); k > 0; --k) ar.push_back(g.r(1, 3)); auto fl = [&](const std::vector<float> &v) { return tensor::build(FLOAT32, Shape({(int) v.size()}), v.data()); };
        ps = {{"min_size", fl(lo)}, {"max_size", fl(hi)}, {"aspect_ratio", fl(ar)}, {"flip", BOOL(g.coin())}, {"clip", BOOL(g.coin())}}; if (g.coin()) ps.push_back({"img_size", I32(20)}); if (g.coin()) ps.push_back({"step", F32(2)}); if (g.coin()) ps.push_back({"variance", fl({.1f, .1f, .2f, .2f})});
        d = g.n(4) ? FLOAT32 : g.coin() ? FLOAT64 : UINT8;
        gen = [&] { return Ins{g.tensor(d, {1, 1, g.r(1, 3), g.r(1, 3)}), g.tensor(d, {1, 1, 20, 20})}; }; }
    if (op == "yolo") { int cl = g.r(1, 3), m = g.r(1, 2); std::vector<int32_t> mask; std::vector<float> an; for (int k = 0; k < m; ++k) { mask.push_back(k); an.push_back(1); an.push_back(2); } ps = {{"classes", I32(cl)}, {"mask", INTS(mask)}, {"anchors", tensor::build(FLOAT32, Shape({2 * m}), an.data())}}; gen = [&, cl, m] { return Ins{g.tensor(d, {g.r(1, 2), m * (cl + 5), g.r(1, 3), g.r(1, 3)})}; }; }
    if (op == "non_max_suppression_v3") { ps = {{"max_output_size", I32(g.r(1, 3))}, {"iou_threshold", F32(.5f)}, {"score_threshold", F32(0)}, {"mode", TEXT(g.coin() ? "xyxy" : "xywh")}}; gen = [&] { int n = g.r(3, 6); return Ins{g.tensor(FLOAT32, {n, 4}, 0, 9), g.part({n}, 10, 90)}; }; }
    if (op == "roi_align") { ps = {{"pool_h", I32(g.r(1, 3))}, {"pool_w", I32(g.r(1, 3))}}; if (g.coin()) ps.push_back({"spatial_scale", F32(.5f)}); if (g.coin()) ps.push_back({"sampling_ratio", I32(g.n(3))});
        gen = [&] { int n = g.r(1, 2), q = g.r(1, 3); std::vector<float> b; for (int k = 0; k < q; ++k) { float x = g.n(4), y = g.n(4); for (float f : {float(g.n(n)), x, y, x + g.r(0, 5), y + g.r(0, 5)}) b.push_back(f); } return Ins{g.tensor(FLOAT32, {n, g.r(1, 2), g.r(1, 5), g.r(1, 5)}), given<float>(FLOAT32, {q, 5}, b)}; }; }
    Ins in = gen(), other = gen();
    t(ps, in, other); done();
}
