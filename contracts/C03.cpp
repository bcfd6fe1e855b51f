// C03: tensor views share memory and keep the element sequence.
#include "tens.h"
using namespace ts; using namespace vt;
static const DTYPE TY[] = {INT8, FLOAT32, FLOAT64, COMPLEX128};
struct Src { Shape d; I n; char *p; DTYPE t; int b; };
// a tensor of any rank and extents over a block of exactly count * width bytes
static Tensor source(Src &s, int rlo, int rhi, bool types = true) {
    s.d = pick_shape("rank", "d", rlo, rhi, 0, INT32_MAX);
    if (vc_random()) for (int i = 0; i < (int) s.d.size(); ++i) s.d[i] %= 5;
    s.t = types ? TY[vc_pick("type", 0, 3)] : FLOAT32; s.b = type_bytes(s.t);
    s.n = spec_count(s.d); vc_assume(s.n >= 0);
    s.p = (char *) vc_array("a", s.n * s.b, 1, 0);
    return over(s.p, s.n * s.b, s.t, s.d);
}
static void same_memory(const Tensor &v, const Src &s) {
    vc_assert(v.data() == (const void *) s.p, "the view addresses the same elements");
    vc_assert(v.dtype() == s.t, "the view keeps the element type");
}
VC_HARNESS(construct) {
    Src s; Tensor a = source(s, 0, 4);
    same_memory(a, s);
    vc_assert(a.sizes() == s.d && a.count() == s.n && (int) a.dims() == (int) s.d.size() && a.fields_count() == 1, "shape and count");
    Tensor c = a; same_memory(c, s); Tensor m(std::move(c)); same_memory(m, s); vc_assert(m.sizes() == s.d, "moves keep the view");
    vc_cover("end");
}
VC_HARNESS(reshape) {
    Src s; Tensor a = source(s, 0, 3, false);
    int r = vc_pick("to", 0, 4); Shape q; int neg = 0, at = -1;
    for (int i = 0; i < r; ++i) {
        int v = vc_i32("q", INT32_MIN, INT32_MAX);
        if (vc_random()) v = v % 7 == 0 && s.d.size() ? (int) s.n : v < 0 ? (v % 4 == 0 ? -1 : -v % 5) : v % 5;
        q.push_back(v); if (v < 0) { ++neg; at = i; }
    }
    // the unique value for the unknown extent: others * x == n with others > 0
    bool ok; I x = -1;
    if (neg > 1) ok = false;
    else if (neg == 0) ok = spec_count(q) == s.n;
    else { Shape o = q; o[at] = 1; I other = spec_count(o); ok = other > 0 && s.n % other == 0; if (ok) x = s.n / other; }
    Tensor v; VT_RAISES(raised, v = a.reshape(q));
    vc_assert(raised == !ok, "reshape succeeds exactly when a view with the same element count exists");
    if (!raised) {
        same_memory(v, s);
        vc_assert((int) v.dims() == r, "rank as requested");
        for (int i = 0; i < r; ++i) vc_assert(v.size(i) == (i == at ? x : q[i]), "extents as requested, the unknown one inferred");
        vc_assert(v.count() == s.n, "same element count");
        vc_cover("ok");
    } else vc_cover("raised");
    vc_assert(a.sizes() == s.d && a.data() == (const void *) s.p, "source unchanged");
    vc_cover("end");
}
VC_HARNESS(flatten) {
    Src s; Tensor a = source(s, 0, 4, false);
    int k = vc_pick("dim", -1, 7); int m = k < 0 ? 0 : k;
    Tensor v; VT_RAISES(raised, v = a.flatten(k));
    int n = (int) s.d.size();
    Shape tail; for (int j = m; j < n; ++j) tail.push_back(s.d[j]);
    vc_assert(raised == (m + 1 > 7 || spec_count(tail) < 0), "flatten raises exactly when no such shape exists");
    if (!raised) {
        same_memory(v, s);
        vc_assert((int) v.dims() == m + 1, "flatten gives rank dim + 1");
        for (int i = 0; i < m + 1 && i < 7; ++i) {
            I e = i < n ? s.d[i] : 1;
            if (i == m) e = spec_count(tail);
            vc_assert(v.size(i) == e, "leading extents kept, trailing extents multiplied");
        }
    }
    vc_cover("end");
}
VC_HARNESS(slice_one) {
    Src s; Tensor a = source(s, 0, 4);
    int i = vc_i32("i", INT32_MIN, INT32_MAX);
    if (vc_random() && s.d.size()) i = i % 7;
    bool ok = s.d.size() > 0 && i >= 0 && i < s.d[0];
    Tensor v; VT_RAISES(raised, v = a.slice(i));
    vc_assert(raised == !ok, "slice succeeds exactly for an index inside the first dimension");
    if (!raised) {
        I w = 1; for (int j = 1; j < (int) s.d.size(); ++j) w = w * s.d[j];
        vc_assert((int) v.dims() == (int) s.d.size() - 1 && v.dtype() == s.t, "rank one less");
        for (int j = 1; j < (int) s.d.size(); ++j) vc_assert(v.size(j - 1) == s.d[j], "remaining extents kept");
        vc_assert((const char *) v.data() == s.p + i * w * s.b, "slice starts at its element");
        vc_assert((I) v.weak_memory().size() == w * s.b, "slice covers its elements");
        vc_cover("ok");
    }
    vc_cover("end");
}
VC_HARNESS(slice_range) {
    Src s; Tensor a = source(s, 0, 4);
    int i = vc_i32("i", INT32_MIN, INT32_MAX), k = vc_i32("k", INT32_MIN, INT32_MAX);
    if (vc_random()) { i %= 6; k %= 6; }
    bool ok = s.d.size() > 0 && i >= 0 && i < k && k <= s.d[0];
    Tensor v; VT_RAISES(raised, v = a.slice(i, k));
    vc_assert(raised == !ok, "range slice succeeds exactly for a non-empty range inside the first dimension");
    if (!raised) {
        I w = 1; for (int j = 1; j < (int) s.d.size(); ++j) w = w * s.d[j];
        vc_assert(v.dims() == s.d.size() && v.dtype() == s.t, "rank kept");
        vc_assert(v.size(0) == k - i, "first extent is the range length");
        for (int j = 1; j < (int) s.d.size(); ++j) vc_assert(v.size(j) == s.d[j], "remaining extents kept");
        vc_assert((const char *) v.data() == s.p + i * w * s.b, "slice starts at its element");
        vc_assert((I) v.weak_memory().size() == (I) (k - i) * w * s.b, "slice covers its elements");
        vc_cover("ok");
    }
    vc_cover("end");
}
// n tensors of different rank, type and memory
static Tensor nth(int k, char **p) {
    Shape d; for (int i = 0; i < k % 3 + 1; ++i) d.push_back(vc_i32("d", 0, 4));
    p[k] = (char *) vc_array("a", 64 * 16, 1, 0);
    return over(p[k], 64 * 16, TY[k % 4], d);
}
static void equal(const Tensor &x, const Tensor &y) {
    vc_assert(x.data() == y.data() && x.dtype() == y.dtype() && x.sizes() == y.sizes(), "field is the packed tensor");
}
VC_HARNESS(pack_fields) {
    int n = vc_pick("n", 0, 4); char *p[4]; std::vector<Tensor> f;
    for (int i = 0; i < n; ++i) f.push_back(nth(i, p));
    int was = vc_pick("was", 0, 2); Tensor t; 
    if (was) { char *q[4]; std::vector<Tensor> g; for (int i = 0; i <= was; ++i) g.push_back(nth(i, q)); t.pack(g); }
    t.pack(f);
    if (n == 0) { vc_assert(t.empty() && t.fields_count() == 1 && !t.packed(), "packing nothing gives the empty tensor"); vc_cover("end"); return; }
    vc_assert((int) t.fields_count() == n && t.packed() == (n > 1), "as many fields as tensors packed");
    std::vector<Tensor> u = t.unpack(); Tensor t2 = Tensor::Pack(f); Tensor t3 = t;
    vc_assert((int) u.size() == n && (int) t2.fields_count() == n && (int) t3.fields_count() == n, "as many fields unpacked");
    for (int i = 0; i < n; ++i) { equal(u[i], f[i]); equal(t.field(i), f[i]); equal(t.field(size_t(i)), f[i]); equal(t.field(i - n), f[i]); equal(t2.field(i), f[i]); equal(t3.field(i), f[i]); }
    vc_cover("end");
}
VC_HARNESS(field_access) {
    int n = vc_pick("n", 1, 3); char *p[8]; std::vector<Tensor> f;
    for (int i = 0; i < n; ++i) f.push_back(nth(i, p));
    Tensor t = Tensor::Pack(f); int i = vc_i32("i", INT32_MIN, INT32_MAX); if (vc_random()) i %= 6;
    bool in = i >= -n && i < n;
    Tensor g; VT_RAISES(raised, g = t.field(i));
    vc_assert(raised == !in, "field raises exactly outside the fields");
    if (in) equal(g, f[i < 0 ? i + n : i]);
    char *q[4]; Tensor w = nth(3, q);
    VT_RAISES(raised2, t.field(i, w));
    vc_assert(raised2 == !in, "field assignment raises exactly outside the fields");
    vc_assert((int) t.fields_count() == n, "field count kept");
    for (int j = 0; j < n; ++j) equal(t.field(j), j == (i < 0 ? i + n : i) ? w : f[j]);
    vc_cover("end");
}
VC_HARNESS(refield) {
    int n = vc_pick("n", 1, 3), k = vc_pick("k", 0, 4); char *p[8]; std::vector<Tensor> f;
    for (int i = 0; i < n; ++i) f.push_back(nth(i, p));
    Tensor t = Tensor::Pack(f); t.refield(k);
    vc_assert((int) t.fields_count() == (k == 0 ? 1 : k), "as many fields as requested");
    if (k == 0) vc_assert(t.empty(), "no fields is the empty tensor");
    for (int j = 0; j < k; ++j) { if (j < n) equal(t.field(j), f[j]); else vc_assert(t.field(j).empty(), "new fields are empty"); }
    vc_cover("end");
}
VC_HARNESS(views_keep_fields) {   // weak, strong and device views of a packed tensor
    int n = vc_pick("n", 1, 3); char *p[8]; std::vector<Tensor> f;
    for (int i = 0; i < n; ++i) f.push_back(nth(i, p));
    Tensor t = Tensor::Pack(f);
    Tensor w = t.weak(), s = w.strong(), v = t.view(MemoryDevice(CPU));
    vc_assert((int) w.fields_count() == n && (int) s.fields_count() == n && (int) v.fields_count() == n, "field count kept");
    for (int i = 0; i < n; ++i) { equal(w.field(i), f[i]); equal(s.field(i), f[i]); equal(v.field(i), f[i]); }
    vc_cover("end");
}
VC_HARNESS(prototypes) {
    int n = vc_pick("n", 1, 3); char *p[8]; std::vector<Tensor> f; std::vector<Tensor::Prototype> fp;
    for (int i = 0; i < n; ++i) { f.push_back(nth(i, p)); fp.push_back(f[i].proto()); }
    Tensor t = Tensor::Pack(f); TensorPrototype a(t), b(fp), c; c.pack(fp);
    vc_assert((int) a.fields_count() == n && (int) b.fields_count() == n && a.packed() == (n > 1), "field count kept");
    vc_assert(a == b && b == c, "prototype of a tensor is the prototype of its fields");
    std::vector<Tensor::Prototype> u = b.unpack(); vc_assert((int) u.size() == n, "fields unpacked");
    for (int i = 0; i < n; ++i) vc_assert(a.field(i) == fp[i] && b.field(i - n) == fp[i] && u[i] == fp[i], "prototype field");
    int i = vc_i32("i", INT32_MIN, INT32_MAX); if (vc_random()) i %= 6;
    VT_RAISES(raised, a.field(i)); vc_assert(raised == !(i >= -n && i < n), "field raises exactly outside the fields");
    vc_cover("end");
}
VC_HARNESS(count) {
    Shape d = pick_shape("rank", "d", 0, 7, 0, INT32_MAX); if (vc_random()) for (int i = 0; i < (int) d.size(); ++i) d[i] %= 5;
    I n = spec_count(d); vc_assume(n >= 0);
    Tensor::Prototype p(FLOAT32, d); vc_assert(p.count() == n && Tensor::Prototype::count(d) == n, "element count is the product of the extents");
    vc_cover("end");
}
VC_HARNESS(allocate) {   // a tensor owns at least as many bytes as its elements need
    Shape d = pick_shape("rank", "d", 0, 3, 0, INT32_MAX); if (vc_random()) for (int i = 0; i < (int) d.size(); ++i) d[i] %= 9;
    DTYPE t = TY[vc_pick("type", 0, 3)]; I n = spec_count(d); vc_assume(n >= 0); if (!vc_symbolic()) vc_assume(n < 1 << 20);
    Tensor a(t, d); vc_assert((I) a.weak_memory().size() == n * type_bytes(t) && a.sizes() == d && a.dtype() == t, "block holds every element");
    Tensor b(MemoryDevice(CPU), t, d); vc_assert((I) b.weak_memory().size() == n * type_bytes(t), "block holds every element");
    Tensor c(std::make_shared<DynamicMemoryController>(MemoryDevice(CPU)), t, d); vc_assert((I) c.weak_memory().size() == n * type_bytes(t), "block holds every element");
    std::shared_ptr<SyncMemoryController> ctl = HypeSyncMemoryController<DynamicMemoryController>::Make(MemoryDevice(CPU));
    Tensor e(ctl, t, d), g(ctl, t, d, MemoryDevice(CPU)); vc_assert((I) e.weak_memory().size() == n * type_bytes(t) && (I) g.weak_memory().size() == n * type_bytes(t), "block holds every element");
    vc_cover("end");
}
