// C18: data-movement operators place every element where specified
#include "ops.h"
using namespace vt;
namespace {
typedef std::vector<int> V;
typedef std::function<int(const V &)> From;
V coord(const Shape &s, int k) { V c(s.size()); for (int d = (int) s.size() - 1; d >= 0; --d) { c[d] = k % s[d]; k /= s[d]; } return c; }
int index(const Shape &s, const V &c) { int k = 0; for (size_t d = 0; d < s.size(); ++d) k = k * s[d] + c[d]; return k; }
// result o of the last run: its shape, its type, and each element where the definition takes it from (-1: the fill value)
void placed(Bench &w, int o, const In &x, const Shape &so, const From &from, uint64_t fill = 0) {
    vc_assert(w.out[o].dtype() == x.d && operator_same(w.out[o].sizes(), so), "shape and type of the result");
    for (int k = 0; k < elems(so); ++k) {
        int i = from(coord(so, k));
        vc_assert(w.bits(o, k) == (i < 0 ? fill : x.bits(i)), "each element comes from its place");
    }
}
void moves(Bench &w, const Operator::shared &op, const std::vector<In> &in, bool valid, const Shape &so, const From &from, uint64_t fill = 0) {
    bool ok = w.run(op, in);
    vc_assert(ok == valid, "exactly valid arguments are accepted");
    if (!ok || !valid) { vc_cover("rejected"); return; }
    vc_assert(w.out.size() == 1, "one result");
    placed(w, 0, in[0], so, from, fill);
    vc_cover("end");
}
// same elements in the same order under another shape
void keeps(Bench &w, const Operator::shared &op, const std::vector<In> &in, bool valid, const Shape &so) {
    moves(w, op, in, valid, so, [&](const V &c) { return index(so, c); });
}
V list(const char *name, int n, int lo, int hi) { V v(n); for (int i = 0; i < n; ++i) v[i] = vc_pick(name, lo, hi); return v; }
Tensor arr(const V &v) { return tensor::build(INT32, Shape({(int) v.size()}), v); }
Tensor one(int v) { return tensor::from<int32_t>(v); }
DTYPE width() { static const DTYPE all[] = {UINT8, INT16, FLOAT32, INT64}; return all[vc_pick("type", 0, 3)]; }
}
// ---- transpose
namespace {
}
static void transposes(DTYPE d, const Shape &s, const V &p, bool given_) {
    Bench w; int r = (int) s.size(), n = (int) p.size();
    std::vector<std::pair<std::string, Tensor>> ps; if (given_) ps.push_back({name::permute, arr(p)});
    V seen(n, 0); bool valid = n >= r;
    for (int e : p) if (e >= 0 && e < n) seen[e] = 1; else valid = false;
    for (int e : seen) valid = valid && e;
    Operator::shared op; bool made = true;
    try { op = create(name::layer::transpose(), ps); } catch (const Exception &) { made = false; }
    In x = any("x", d, s);
    if (!made) { vc_assert(!valid, "a permutation is accepted"); vc_cover("rejected"); return; }
    Shape full(n, 1); for (int i = 0; i < r && n >= r; ++i) full[n - r + i] = s[i];
    Shape so(n, 1); if (valid) for (int i = 0; i < n; ++i) so[i] = full[p[i]];
    moves(w, op, {x}, valid, so, [&](const V &c) { V q(n); for (int i = 0; i < n; ++i) q[p[i]] = c[i]; return index(full, q); });
}
static V permutation(int n) { V p; for (int i = 0; i < n; ++i) p.push_back(i); int k = vc_pick("order", 0, n == 2 ? 1 : n == 3 ? 5 : 23); for (int i = 0; i < k; ++i) std::next_permutation(p.begin(), p.end()); return p; }
VC_HARNESS(transpose_three) { transposes(INT32, {2, 3, 2}, permutation(3), true); }
VC_HARNESS(transpose_four) { transposes(FLOAT32, {2, 2, 3, 2}, permutation(4), true); }
VC_HARNESS(transpose_any) { transposes(INT16, vc_pick("rank", 1, 3) == 3 ? Shape({2, 1, 2}) : Shape({2, 3}), list("axis", 2, -1, 2), true); }
VC_HARNESS(transpose_grow) { transposes(INT64, vc_pick("rank", 1, 2) == 1 ? Shape({3}) : Shape({2, 3}), permutation(3), true); }
VC_HARNESS(transpose_default) {
    int r = vc_pick("rank", 0, 4); V full({2, 3, 2, 2}), p; Shape s(full.begin(), full.begin() + r);
    for (int i = 0; i < r; ++i) p.push_back(i); if (r >= 2) std::swap(p[r - 1], p[r - 2]);
    transposes(INT32, s, p, false);
}
// images of three channels
VC_HARNESS(transpose_image) {
    bool to = vc_pick("to", 0, 1); int h = vc_pick("h", 1, 2), wd = vc_pick("w", 1, 9), n = vc_pick("n", 1, 2);
    transposes(vc_pick("real", 0, 1) ? FLOAT32 : UINT8, to ? Shape({n, h, wd, 3}) : Shape({n, 3, h, wd}), to ? V({0, 3, 1, 2}) : V({0, 2, 3, 1}), true);
}
// ---- concat, stack
VC_HARNESS(concat) {
    Bench w; DTYPE d = width(); int n = vc_pick("inputs", 1, 3), dim = vc_pick("dim", -4, 3), bad = vc_pick("misfit", 0, 3);
    auto op = create(name::layer::concat(), {{name::dim, one(dim)}});
    int r = 3, D = dim < 0 ? dim + r : dim; bool valid = D >= 0 && D < r;
    std::vector<In> in; V ext; int total = 0;
    for (int k = 0; k < n; ++k) {
        Shape s({2, 3, 2}); if (valid) { s[D] = k == 0 ? 2 : k == 1 ? 1 : 3; total += s[D]; ext.push_back(s[D]); }
        DTYPE e = d;
        if (k && k == n - 1) {
            if (bad == 1) { s[valid ? (D + 1) % r : 0] += 1; } if (bad == 2) s = Shape({2, 3}); if (bad == 3) e = FLOAT64;
        }
        in.push_back(any("x", e, s));
    }
    if (n > 1 && bad) valid = false;
    bool ok = w.run(op, in);
    vc_assert(ok == valid, "exactly valid arguments are accepted");
    if (!ok || !valid) { vc_cover("rejected"); return; }
    Shape so({2, 3, 2}); so[D] = total;
    vc_assert(w.out.size() == 1 && w.out[0].dtype() == d && operator_same(w.out[0].sizes(), so), "shape and type of the result");
    for (int k = 0; k < elems(so); ++k) {
        V c = coord(so, k); int part = 0; while (c[D] >= ext[part]) c[D] -= ext[part++];
        vc_assert(w.bits(0, k) == in[part].bits(index(in[part].s, c)), "each element comes from its place");
    }
    vc_cover("end");
}
VC_HARNESS(stack) {
    Bench w; int r = vc_pick("rank", 0, 2), n = vc_pick("inputs", 1, 3), axis = vc_pick("axis", -4, 3); bool bad = vc_pick("misfit", 0, 1);
    auto op = create(name::layer::stack(), {{name::axis, one(axis)}});
    Shape s; for (int i = 0; i < r; ++i) s.push_back(i + 2);
    std::vector<In> in; for (int k = 0; k < n; ++k) { Shape t = s; if (bad && k && k == n - 1) t.push_back(2); in.push_back(any("x", INT32, t)); }
    int A = axis < 0 ? axis + r + 1 : axis; bool valid = A >= 0 && A <= r && !(bad && n > 1);
    bool ok = w.run(op, in);
    vc_assert(ok == valid, "exactly valid arguments are accepted");
    if (!ok || !valid) { vc_cover("rejected"); return; }
    Shape so = s; so.insert(so.begin() + A, n);
    vc_assert(w.out.size() == 1 && w.out[0].dtype() == INT32 && operator_same(w.out[0].sizes(), so), "shape and type of the result");
    for (int k = 0; k < elems(so); ++k) {
        V c = coord(so, k); int part = c[A]; c.erase(c.begin() + A);
        vc_assert(w.bits(0, k) == in[part].bits(index(s, c)), "each element comes from its place");
    }
    vc_cover("end");
}
// ---- slice
static void slices(bool v2, const Shape &s, const V &b, const V &z) {
    Bench w; In x = any("x", INT32, s); std::vector<In> in({x}); Operator::shared op;
    if (v2) { op = create("slice_v2"); in.push_back(ints(b)); in.push_back(ints(z)); }
    else op = create(name::layer::slice(), {{name::begin, arr(b)}, {name::size, arr(z)}});
    bool valid = b.size() == s.size() && z.size() == s.size(); Shape so = s;
    for (size_t i = 0; valid && i < b.size(); ++i) {
        if (b[i] < 0 || b[i] >= s[i]) { valid = false; break; }
        so[i] = z[i] < 0 ? s[i] - b[i] : z[i];
        if (so[i] > s[i] - b[i]) valid = false;
    }
    moves(w, op, in, valid, so, [&](const V &c) { V q = c; for (size_t i = 0; i < q.size(); ++i) q[i] += b[i]; return index(s, q); });
}
static int size_of() { int k = vc_pick("size", -2, 4); return k == -2 ? INT_MAX : k; }
VC_HARNESS(slice) { bool v2 = vc_pick("v2", 0, 1); slices(v2, {3, 2}, {vc_pick("begin", -1, 3), vc_pick("begin", 0, 1)}, {size_of(), vc_pick("size", -1, 2)}); }
VC_HARNESS(slice_rank) { bool v2 = vc_pick("v2", 0, 1); slices(v2, {2, 2}, V(vc_pick("n", 1, 3), 0), V(vc_pick("m", 1, 3), 1)); }
// ---- strided slice
// one entry of a slice: a range, a new axis, all remaining dimensions, or a single position
enum Kind { RANGE, WHOLE, NEW, REST, AT };
static void span(int n, int b, int e, int s, bool wb, bool we, int &first, int &count) {
    int lo = s > 0 ? 0 : -1, hi = s > 0 ? n : n - 1;
    auto fix = [&](int v) { if (v < 0) { v += n; return v < lo ? lo : v; } return v > hi ? hi : v; };
    int B = wb ? (s > 0 ? lo : hi) : fix(b), E = we ? (s > 0 ? hi : lo) : fix(e);
    first = B; count = s > 0 ? (E > B ? (E - B - 1) / s + 1 : 0) : (B > E ? (B - E - 1) / -s + 1 : 0);
}
struct Entry { int kind, b, e, s, wb, we; };
static void strided(const Shape &s, const std::vector<Entry> &es) {
    Bench w; int n = (int) es.size(), r = (int) s.size();
    V b, e, st; int bm = 0, em = 0, lm = 0, nm = 0, sm = 0, uses = 0, rest = -1;
    for (int i = 0; i < n; ++i) {
        const Entry &t = es[i]; b.push_back(t.b); e.push_back(t.e); st.push_back(t.s);
        if (t.wb) bm |= 1 << i; if (t.we) em |= 1 << i;
        if (t.kind == REST) { lm |= 1 << i; rest = rest == -1 ? i : -2; } else if (t.kind == NEW) nm |= 1 << i; else { ++uses; if (t.kind == AT) sm |= 1 << i; }
    }
    auto op = create(name::layer::strided_slice(), {{name::begin, arr(b)}, {name::end, arr(e)}, {name::stride, arr(st)}, {"begin_mask", one(bm)}, {"end_mask", one(em)}, {"ellipsis_mask", one(lm)}, {"new_axis_mask", one(nm)}, {"shrink_axis_mask", one(sm)}});
    In x = any("x", INT32, s);
    bool valid = uses <= r && rest != -2;
    Shape so; V first(r, 0), step(r, 1), to(r, -1); int d = 0;
    auto whole = [&]() { to[d] = (int) so.size(); so.push_back(s[d]); ++d; };
    for (int i = 0; valid && i < n; ++i) {
        const Entry &t = es[i];
        if (t.kind == NEW) so.push_back(1);
        else if (t.kind == REST) for (int m = r - uses; m > 0; --m) whole();
        else if (t.kind == AT) { int p = t.b < 0 ? t.b + s[d] : t.b; if (p < 0 || p >= s[d]) { valid = false; break; } first[d] = p; ++d; }
        else { if (t.s == 0) { valid = false; break; } int c; span(s[d], t.b, t.e, t.s, t.wb, t.we, first[d], c); step[d] = t.s; to[d] = (int) so.size(); so.push_back(c); ++d; }
    }
    if (valid) while (d < r) whole();
    moves(w, op, {x}, valid, so, [&](const V &c) { V q(r); for (int i = 0; i < r; ++i) q[i] = first[i] + (to[i] < 0 ? 0 : c[to[i]] * step[i]); return index(s, q); });
}
static Entry entry(int kind, int lo, int hi) {
    Entry t = {kind, 0, 0, 1, 0, 0};
    if (kind == RANGE) { t.b = vc_pick("begin", lo, hi); t.e = vc_pick("end", lo, hi); t.s = vc_pick("step", -1, 1) * 2 + 1; if (t.s == 3) t.s = 2; }
    if (kind == WHOLE) { t.b = 7; t.e = -7; t.wb = t.we = 1; t.s = vc_pick("back", 0, 1) ? -1 : 2; }
    if (kind == AT) { t.b = vc_pick("at", lo, hi); t.e = t.b + 1; }
    return t;
}
static int from(const V &v) { return v[vc_pick("which", 0, (int) v.size() - 1)]; }
VC_HARNESS(strided_range) { V at({-5, -4, -1, 0, 3, 4}); int b = from(at), e = from(at), s = from({-2, 1, 2}); strided({4}, {{RANGE, b, e, s, 0, 0}}); }
VC_HARNESS(strided_range_all) { int b = vc_pick("begin", -5, 5), e = vc_pick("end", -5, 5), s = vc_pick("step", -2, 2); strided({4}, {{RANGE, b, e, s, 0, 0}}); }
VC_HARNESS(strided_masks) { int m = vc_pick("mask", 0, 3), s = vc_pick("step", -3, 3); strided({vc_pick("n", 1, 5)}, {{RANGE, 1, 3, s, m & 1, m >> 1}}); }
static void two(bool all) {
    Shape s({2, 3}); if (vc_pick("rank", 2, 3) == 3) s.push_back(2);
    auto some = [&](int k, int lo, int hi) { if (all || k != RANGE) return entry(k, lo, hi); bool back = vc_pick("back", 0, 1); Entry t = {RANGE, vc_pick("begin", lo, hi), back ? -4 : 2, back ? -1 : 2, 0, 0}; return t; };
    Entry a = some(vc_pick("first", 0, 4), -1, 1);
    strided(s, {a, some(vc_pick("second", 0, 4), 0, 1)});
}
VC_HARNESS(strided_two) { two(false); }
VC_HARNESS(strided_two_all) { two(true); }
VC_HARNESS(strided_three) {
    Shape s({2, 3}); int r = vc_pick("rank", 1, 3); if (r == 1) s = Shape({3}); if (r == 3) s.push_back(2);
    std::vector<Entry> es; for (int i = 0; i < 3; ++i) { int k = vc_pick("kind", 0, 3); Entry t = {k == 0 ? RANGE : k == 1 ? NEW : k == 2 ? REST : AT, k == 3 ? -1 : 0, k == 0 ? 1 : 0, 1, 0, 0}; es.push_back(t); }
    strided(s, es);
}
// slices along named axes
VC_HARNESS(slice_axes) {
    Bench w; auto op = create("slice_v3"); Shape s({3, 2, 2}); int r = 3;
    int n = vc_pick("n", 1, 2), given_ = vc_pick("given", 0, 2);
    V b, e, ax, st; for (int i = 0; i < n; ++i) { b.push_back(i ? 0 : vc_pick("begin", -1, 2 - n)); e.push_back(i ? 1 : 2); ax.push_back(given_ ? vc_pick("axis", -4, 3) : 0); st.push_back(!i && given_ == 2 && vc_pick("back", 0, 1) ? -1 : 1); }
    int less = given_ == 2 && n == 1 ? vc_pick("less", 0, 2) : 0;
    if (less == 1) st.pop_back(); if (less == 2) e.pop_back();
    In x = any("x", INT32, s); std::vector<In> in({x, ints(b), ints(e)}); if (given_ >= 1) in.push_back(ints(ax)); if (given_ >= 2) in.push_back(ints(st));
    bool valid = less == 0; V first(r, 0), step(r, 1); Shape so = s; int before = -1;
    for (int i = 0; valid && i < n; ++i) {
        int a = given_ >= 1 ? ax[i] : i; if (a < -r || a >= r) { valid = false; break; } if (a < 0) a += r;
        if (a <= before) { valid = false; break; } before = a;
        step[a] = given_ >= 2 ? st[i] : 1; span(s[a], b[i], e[i], step[a], 0, 0, first[a], so[a]);
    }
    moves(w, op, in, valid, so, [&](const V &c) { V q(r); for (int i = 0; i < r; ++i) q[i] = first[i] + c[i] * step[i]; return index(s, q); });
}
// ---- gather
VC_HARNESS(gather) {
    Bench w; int axis = vc_pick("axis", -4, 3), r = 3, how = vc_pick("indices", 0, 3);
    Shape s({2, 3, 2}), si = how == 0 ? Shape() : how == 1 ? Shape({1}) : how == 2 ? Shape({2}) : Shape({2, 2});
    auto op = create(name::layer::gather(), {{name::axis, one(axis)}});
    int A = axis < 0 ? axis + r : axis; bool valid = A >= 0 && A < r;
    int m = elems(si); V v(m, 1); v[m - 1] = vc_pick("at", -4, 3); if (valid && (v[m - 1] < -s[A] || v[m - 1] >= s[A])) valid = false;
    In x = any("x", INT16, s), at = given<int32_t>(INT32, si, v);
    Shape so; if (valid) { so = s; so.erase(so.begin() + A); so.insert(so.begin() + A, si.begin(), si.end()); }
    moves(w, op, {x, at}, valid, so, [&](const V &c) {
        V q(c.begin(), c.begin() + A), p(c.begin() + A, c.begin() + A + si.size()); int i = v[index(si, p)]; q.push_back(i < 0 ? i + s[A] : i);
        q.insert(q.end(), c.begin() + A + si.size(), c.end()); return index(s, q); });
}
VC_HARNESS(gather_long) {
    Bench w; Shape s({3, 2}); auto op = create(name::layer::gather(), {{name::axis, one(0)}}); std::vector<int64_t> v({2, -1, vc_pick("at", -4, 3)}); bool valid = v[2] >= -3 && v[2] < 3;
    In x = any("x", FLOAT32, s), at = given<int64_t>(INT64, {3}, v);
    moves(w, op, {x, at}, valid, {3, 2}, [&](const V &c) { int i = (int) v[c[0]]; return index(s, {i < 0 ? i + 3 : i, c[1]}); });
}
VC_HARNESS(gather_nd) {
    Bench w; auto op = create(name::layer::gatherv2()); Shape s({2, 3, 2}); int q = vc_pick("depth", 1, 4), rows = vc_pick("rows", 0, 2);
    Shape si = rows == 0 ? Shape({q}) : Shape({rows, q}); int m = elems(si), r = 3; V v(m, 0); v[m - 1] = vc_pick("at", -1, 3); if (q > 1) v[m - 2] = vc_pick("at", -1, 2);
    bool valid = q <= r; for (int i = 0; valid && i < m; ++i) if (v[i] < 0 || v[i] >= s[i % q]) valid = false;
    In x = any("x", INT32, s), at = given<int32_t>(INT32, si, v);
    Shape so; if (valid) { so = si; so.erase(so.end() - 1); so.insert(so.end(), s.begin() + q, s.end()); }
    int lead = (int) si.size() - 1;
    moves(w, op, {x, at}, valid, so, [&](const V &c) { V p; for (int i = 0; i < q; ++i) p.push_back(v[(lead ? c[0] : 0) * q + i]); p.insert(p.end(), c.begin() + lead, c.end()); return index(s, p); });
}
VC_HARNESS(gather_elements) {
    Bench w; int axis = vc_pick("axis", -3, 2), r = 2; Shape s({2, 3}), si = s; auto op = create("gather_elements", {{name::axis, one(axis)}});
    int A = axis < 0 ? axis + r : axis; bool valid = A >= 0 && A < r; int how = vc_pick("indices", 0, 4);
    if (valid) { if (how < 3) si[A] = how + 1; if (how == 3) si[1 - A] += 1; } if (how == 4) si = Shape({2});
    if (how >= 3) valid = false;
    int m = elems(si); V v(m); for (int i = 0; i < m; ++i) v[i] = i % 2; v[m - 1] = vc_pick("at", -4, 3); if (valid && (v[m - 1] < -s[A] || v[m - 1] >= s[A])) valid = false;
    In x = any("x", INT32, s), at = given<int32_t>(INT32, si, v);
    moves(w, op, {x, at}, valid, si, [&](const V &c) { V q = c; int i = v[index(si, c)]; q[A] = i < 0 ? i + s[A] : i; return index(s, q); });
}
// the rows named by the indices are replaced, later ones over earlier ones
VC_HARNESS(scatter) {
    Bench w; auto op = create("scatter_nd"); Shape s({3, 2}); int n = vc_pick("n", 1, 2), how = vc_pick("form", 0, 3);
    Shape si = how == 1 ? Shape({n}) : Shape({n, 1}), su({n, 2}); if (how == 2) su = Shape({n, 3}); if (how == 3) su = Shape({n + 1, 2});
    V v(n, 1); for (int &i : v) i = vc_pick("at", -2, 4);
    bool valid = how < 2; for (int i : v) if (i < 0 || i >= 3) valid = false;
    In x = any("x", INT32, s), at = given<int32_t>(INT32, si, v), u = any("u", INT32, su);
    bool ok = w.run(op, {x, at, u});
    vc_assert(ok == valid, "exactly valid arguments are accepted");
    if (!ok || !valid) { vc_cover("rejected"); return; }
    vc_assert(w.out.size() == 1 && w.out[0].dtype() == INT32 && operator_same(w.out[0].sizes(), s), "shape and type of the result");
    for (int k = 0; k < 6; ++k) { uint64_t e = x.bits(k); for (int i = 0; i < n; ++i) if (v[i] == k / 2) e = u.bits(i * 2 + k % 2); vc_assert(w.bits(0, k) == e, "each element comes from its place"); }
    vc_cover("end");
}
// ---- tile
VC_HARNESS(tile) {
    Bench w; bool v2 = vc_pick("v2", 0, 1); int r = vc_pick("rank", 0, 2), m = vc_pick("n", 1, 3); V full({2, 3}); Shape s(full.begin(), full.begin() + r);
    V rep = list("times", m, m == 3 ? 1 : -1, 2); bool valid = true; for (int e : rep) if (e < 0) valid = false;
    In x = any("x", INT32, s); Operator::shared op; bool made = true; std::vector<In> in({x});
    if (v2) { op = create("tile_v2"); in.push_back(ints(rep)); }
    else try { op = create(name::layer::tile(), {{name::repeats, arr(rep)}}); } catch (const Exception &) { made = false; }
    if (!made) { vc_assert(!valid, "repeats are accepted"); vc_cover("rejected"); return; }
    int n = std::max(r, m); Shape a(n, 1), so(n, 1); for (int i = 0; i < r; ++i) a[n - r + i] = s[i]; for (int i = 0; i < n; ++i) so[i] = a[i] * (i < n - m ? 1 : rep[i - (n - m)]);
    moves(w, op, in, valid, so, [&](const V &c) { V q = c; for (int i = 0; i < n; ++i) q[i] %= a[i]; return index(a, q); });
}
// ---- pad
static void pads(DTYPE d, const Shape &s, const V &p, float v, uint64_t fill) {
    Bench w; int r = (int) s.size(); auto op = create(name::layer::pad(), {{name::padding_value, tensor::from<float>(v)}});
    Shape so = s; for (int i = 0; i < r; ++i) { so[i] += p[2 * i] + p[2 * i + 1]; vc_assume(so[i] >= 1); }
    In x = any("x", d, s), y = given<int32_t>(INT32, {r, 2}, p);
    moves(w, op, {x, y}, true, so, [&](const V &c) { V q = c; for (int i = 0; i < r; ++i) { q[i] -= p[2 * i]; if (q[i] < 0 || q[i] >= s[i]) return -1; } return index(s, q); }, fill);
}
VC_HARNESS(pad_two) { V p = list("pad", 4, -1, 1); p[0] *= 2; pads(INT32, {3, 2}, p, 3.f, 3); }
VC_HARNESS(pad_one) { pads(FLOAT32, {4}, {vc_pick("a", -5, 4), vc_pick("b", -5, 4)}, 1.f, 0x3f800000); }
VC_HARNESS(pad_four) { int d = vc_pick("dim", 0, 3); V p(8, 0); p[2 * d] = vc_pick("a", -3, 2); p[2 * d + 1] = vc_pick("b", -3, 2); int o = (d + 1) % 4; p[2 * o] = vc_pick("c", -1, 1); pads(INT16, {2, 3, 2, 2}, p, 2.f, 2); }
VC_HARNESS(pad_wide) { int d = vc_pick("dim", 2, 3); V p(8, 0); p[2 * d] = vc_pick("a", -1, 1); p[2 * d + 1] = vc_pick("b", -1, 1); pads(UINT8, {1, 2, 2, vc_pick("w", 11, 13)}, p, 7.f, 7); }
VC_HARNESS(pad_form) {
    Bench w; auto op = create(name::layer::pad()); In x = any("x", INT32, {2, 2}); int how = vc_pick("form", 0, 2);
    Shape sp = how == 0 ? Shape({1, 2}) : how == 1 ? Shape({2, 1}) : Shape({4}); In y = given<int32_t>(INT32, sp, V(elems(sp), 1));
    moves(w, op, {x, y}, false, Shape(), [](const V &) { return -1; });
}
VC_HARNESS(crop) {
    Bench w; int axis = vc_pick("axis", -3, 3), r = 3, given_ = vc_pick("given", 0, 2), off = given_ == 1 ? vc_pick("offset", -1, 2) : 0; Shape s({2, 3, 2}), t({vc_pick("h", 1, 3), 2, vc_pick("w", 1, 3)});
    int A = axis < 0 ? axis + r : axis; bool valid = A >= 0 && A < r;
    std::vector<std::pair<std::string, Tensor>> ps({{"axis", one(axis)}}); V o(valid ? r - A : 1, 0); if (given_) o.back() = off; if (given_ == 2) { o.push_back(0); if (valid) valid = false; }
    if (given_) ps.push_back({"offset", arr(o)});
    auto op = create("crop_to", ps);
    In x = any("x", INT32, s), y = any("y", INT32, t); Shape so = s; if (valid) for (int i = A; i < r; ++i) so[i] = t[i];
    // run twice: the second time on tensors of another rank
    moves(w, op, {x, y}, valid, so, [&](const V &c) { V q = c; for (int i = A; i < r; ++i) { q[i] += o[i - A]; if (q[i] < 0 || q[i] >= s[i]) return -1; } return index(s, q); });
    if (given_ || axis >= 0) return;
    In x2 = any("x", INT32, {3, 2}), y2 = any("y", INT32, {2, 1}); A = axis + 2; Shape s2({3, 2}), so2 = s2; if (A >= 0) for (int i = A; i < 2; ++i) so2[i] = 2 - i;
    moves(w, op, {x2, y2}, A >= 0, so2, [&](const V &c) { return index(s2, c); });
}
// ---- split, chunk
static void parts(Bench &w, const Operator::shared &op, const std::vector<In> &in, bool valid, int dim, const V &ext) {
    const In &x = in[0]; bool ok = w.run(op, in);
    vc_assert(ok == valid, "exactly valid arguments are accepted");
    if (!ok || !valid) { vc_cover("rejected"); return; }
    vc_assert(w.out.size() == 1 && w.out[0].fields_count() == ext.size(), "as many parts as asked for");
    if (w.out[0].fields_count() != ext.size()) return;
    Tensor all = w.out[0]; int base = 0; w.out.clear();
    for (size_t i = 0; i < ext.size(); ++i) w.out.push_back(all.field(i));
    for (size_t i = 0; i < ext.size(); ++i) { Shape so = x.s; so[dim] = ext[i]; placed(w, (int) i, x, so, [&](const V &c) { V q = c; q[dim] += base; return index(x.s, q); }); base += ext[i]; }
    vc_cover("end");
}
VC_HARNESS(split) {
    Bench w; int axis = vc_pick("axis", -3, 2), r = 2; Shape s({3, 4}); V e = list("extent", 2, -1, 4); if (vc_pick("more", 0, 1)) e.push_back(1); In x = any("x", e[0] == 2 ? width() : INT16, s);
    auto op = create("split", {{name::axis, one(axis)}}); int A = axis < 0 ? axis + r : axis; bool valid = A >= 0 && A < r; int sum = 0; for (int k : e) { sum += k; if (k < 0) valid = false; } if (valid && sum != s[A]) valid = false;
    parts(w, op, {x, ints(e)}, valid, A, e);
}
VC_HARNESS(chunk) {
    Bench w; int axis = vc_pick("dim", -3, 2), r = 2, n = vc_pick("n", 1, 4); Shape s({vc_pick("a", 1, 4), 3}); In x = any("x", width(), s);
    auto op = create(name::layer::chunk(), {{name::chunks, one(n)}, {name::dim, one(axis)}}); int A = axis < 0 ? axis + r : axis; bool valid = A >= 0 && A < r && s[A] >= n;
    // ceil(extent / n) each, the last one what is left
    V e; if (valid) { int step = (s[A] + n - 1) / n; for (int at = 0; at < s[A]; at += step) e.push_back(std::min(step, s[A] - at)); }
    parts(w, op, {x}, valid, A, e);
}
// ---- the same elements under another shape
VC_HARNESS(squeeze) {
    Bench w; int r = vc_pick("rank", 1, 4), n = vc_pick("axes", 0, 2); Shape s(r, 1); s[vc_pick("big", 0, r - 1)] = 2; V ax = list("axis", n, -5, 4);
    std::vector<std::pair<std::string, Tensor>> ps; if (n) ps.push_back({name::axes, arr(ax)});
    auto op = create(name::layer::squeeze(), ps);
    std::set<int> gone; bool valid = true; for (int a : ax) { if (a < -r || a >= r) { valid = false; break; } if (a < 0) a += r; if (s[a] != 1 || !gone.insert(a).second) { valid = false; break; } }
    Shape so; for (int i = 0; i < r; ++i) if (n ? !gone.count(i) : s[i] != 1) so.push_back(s[i]);
    In x = any("x", INT32, s); keeps(w, op, {x}, valid, so);
}
// each axis in turn, counted in the shape it becomes part of
VC_HARNESS(unsqueeze) {
    Bench w; int r = vc_pick("rank", 0, 2), n = vc_pick("axes", 1, 2); Shape s; for (int i = 0; i < r; ++i) s.push_back(i + 2); V ax = list("axis", n, -5, 4);
    auto op = create(name::layer::unsqueeze(), {{name::axes, arr(ax)}});
    Shape so = s; bool valid = true; for (int a : ax) { int m = (int) so.size() + 1; if (a < -m || a >= m) { valid = false; break; } so.insert(so.begin() + (a < 0 ? a + m : a), 1); }
    In x = any("x", INT32, s); keeps(w, op, {x}, valid, so);
}
VC_HARNESS(expand) {
    Bench w; int r = vc_pick("rank", 0, 2), to = vc_pick("dims", -1, 4), f = vc_pick("front", -1, 2), e = vc_pick("end", -1, 2); bool inv = vc_pick("inverse", 0, 1);
    auto op = create("_expand", {{"front", one(f)}, {"end", one(e)}, {"inverse", tensor::from<bool>(inv)}});
    Shape s; for (int i = 0; i < r; ++i) s.push_back(i + 2); int need = to - r; bool valid = need >= 0; int a = 0, b = 0;
    if (valid) { int &p = inv ? b : a, &q = inv ? a : b, lp = inv ? e : f, lq = inv ? f : e; p = lp < 0 ? need : std::min(need, lp); q = need - p; if (lq >= 0 && q > lq) valid = false; }
    Shape so(a, 1); so.insert(so.end(), s.begin(), s.end()); for (int i = 0; i < b; ++i) so.push_back(1);
    In x = any("x", INT32, s); In y = given<int32_t>(INT32, Shape(), V({to})); keeps(w, op, {x, y}, valid, so);
}
static void reshapes(const Shape &s, const V &t) {
    Bench w; bool v2 = vc_pick("v2", 0, 1); In x = any("x", INT32, s); std::vector<In> in({x}); Operator::shared op; bool made = true;
    int left = -1, count = 1; bool valid = true; Shape so(t);
    for (size_t i = 0; i < t.size(); ++i) { if (t[i] == 0) { if (i >= s.size()) { valid = false; break; } so[i] = s[i]; } if (t[i] < 0) { if (left >= 0) { valid = false; break; } left = (int) i; } else count *= so[i]; }
    if (valid) { if (left >= 0) { if (count == 0 || elems(s) % count) valid = false; else so[left] = elems(s) / count; } else if (count != elems(s)) valid = false; }
    // this one takes an extent of zero for an error
    if (v2) for (int e : so) if (e == 0) return;
    if (v2) { op = create(name::layer::reshape_v2()); in.push_back(ints(t)); }
    else try { op = create(name::layer::reshape(), {{name::shape, arr(t)}}); } catch (const Exception &) { made = false; }
    if (!made) { vc_assert(!valid, "a shape is accepted"); vc_cover("rejected"); return; }
    keeps(w, op, in, valid, so);
}
VC_HARNESS(reshape) { V t = list("extent", 3, -1, 3); reshapes({2, 3}, t); }
VC_HARNESS(reshape_rank) { int n = vc_pick("n", 1, 4); V t; for (int i = 0; i < n; ++i) t.push_back(i == n - 1 ? vc_pick("last", -1, 12) : i == 0 ? 0 : 1); Shape s({2, 2, 3}); if (vc_pick("empty", 0, 1)) s[0] = 0; reshapes(s, t); }
VC_HARNESS(flatten) {
    Bench w; int r = vc_pick("rank", 0, 3), dim = vc_pick("dim", -5, 4); bool two = vc_pick("two", 0, 1); Shape s; for (int i = 0; i < r; ++i) s.push_back(i + 2);
    auto op = create(two ? std::string("flatten2d") : name::layer::flatten(), {{name::dim, one(dim)}}); int D = dim < 0 ? dim + r : dim; bool valid = true; Shape so;
    auto range = [&](int a, int b) { int n = 1; for (int i = a; i < b; ++i) n *= s[i]; return n; };
    if (two) so = D <= 0 ? Shape({1, range(0, r)}) : D >= r ? Shape({range(0, r), 1}) : Shape({range(0, D), range(D, r)});
    else { valid = D >= 0; for (int i = 0; valid && i <= D; ++i) so.push_back(i < D ? (i < r ? s[i] : 1) : range(std::min(D, r), r)); }
    In x = any("x", INT32, s); keeps(w, op, {x}, valid, so);
}
VC_HARNESS(shuffle) {
    Bench w; int r = vc_pick("rank", 1, 3), dim = vc_pick("dim", 0, 3), n = vc_pick("n", 1, 3); V full({2, 3, 2}), p = list("from", n, 0, n == 3 ? 1 : 3); Shape s(full.begin(), full.begin() + r); In x = any("x", dim == 0 ? width() : INT16, s);
    auto op = create(name::layer::dimshuffle(), {{name::dim, one(dim)}, {name::shuffle, arr(p)}}); bool valid = dim < r; if (valid) for (int e : p) if (e >= s[dim]) valid = false;
    Shape so = s; if (valid) so[dim] = n;
    moves(w, op, {x}, valid, so, [&](const V &c) { V q = c; q[dim] = p[c[dim]]; return index(s, q); });
}
VC_HARNESS(shape) {
    Bench w; auto op = create(name::layer::shape()); int r = vc_pick("rank", 0, 4); Shape s; for (int i = 0; i < r; ++i) s.push_back(vc_pick("extent", 1, 3)); In x = any("x", width(), s);
    bool ok = w.run(op, {x}); vc_assert(ok && w.out.size() == 1 && w.out[0].dtype() == INT32 && operator_same(w.out[0].sizes(), {r}), "shape and type of the result");
    for (int i = 0; ok && i < r; ++i) vc_assert((int32_t) w.bits(0, i) == s[i], "each extent is told");
    vc_cover("end");
}
// ---- blocks between space and batch
VC_HARNESS(to_batch) {
    Bench w; int n = vc_pick("n", 1, 2), h = vc_pick("bh", 1, 2), v = vc_pick("bw", 1, 3); V p = {vc_pick("top", -1, 1), vc_pick("bottom", 0, 1), vc_pick("left", -1, 2), 0}; Shape s({n, 2, 2, 3});
    In x = any("x", INT32, s); auto op = create(name::layer::spacetobatch4d(), {{name::padding, tensor::build(INT32, Shape({2, 2}), p)}, {name::block_shape, arr({h, v})}});
    int H = s[2] + p[0] + p[1], W = s[3] + p[2] + p[3]; bool valid = p[0] >= 0 && p[2] >= 0 && H % h == 0 && W % v == 0; Shape so({n * h * v, 2, H / h, W / v});
    moves(w, op, {x}, valid, so, [&](const V &c) { int y = c[2] * h + c[0] / n / v - p[0], z = c[3] * v + c[0] / n % v - p[2]; return y < 0 || z < 0 || y >= s[2] || z >= s[3] ? -1 : index(s, {c[0] % n, c[1], y, z}); });
}
VC_HARNESS(to_space) {
    Bench w; int n = 1 << vc_pick("n", 0, 2), h = vc_pick("bh", 1, 2), v = vc_pick("bw", 1, 2); V p = {vc_pick("top", -1, 1), 3 * vc_pick("bottom", 0, 1), vc_pick("left", -1, 1), vc_pick("right", 0, 1)}; Shape s({n, 2, 2, 3});
    In x = any("x", INT32, s); auto op = create(name::layer::batchtospace4d(), {{name::crop, tensor::build(INT32, Shape({2, 2}), p)}, {name::block_shape, arr({h, v})}});
    int H = s[2] * h - p[0] - p[1], W = s[3] * v - p[2] - p[3], b = n / (h * v); bool valid = n % (h * v) == 0 && H >= 0 && W >= 0; for (int e : p) if (e < 0) valid = false;
    moves(w, op, {x}, valid, {b, 2, H, W}, [&](const V &c) { int y = c[2] + p[0], z = c[3] + p[2]; return index(s, {(y % h * v + z % v) * b + c[0], c[1], y / h, z / v}); });
}
