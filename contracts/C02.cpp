// C02: row-major index <-> coordinate.
// Class invariant INV(h): weights[n-1] = d[n-1], weights[i] = d[i] * weights[i+1] (established by `constructor`); the other
// contracts start from an arbitrary object satisfying INV, so no contract looks through the constructor body.
#include "vc.h"
#include "core/tensor.h"
#include "core/tensor_iterator.h"
using ts::HypeShape; using ts::ShapeIterator; using ts::Shape;
typedef int64_t I;
struct Ctx { int n; Shape d; I w[8]; };   // w[k] = product of d[k..n-1], w[n] = 1
static void dims(Ctx &x, int lo, int rmax = 7) {
    x.n = vc_pick("rank", 0, rmax);
    for (int i = 0; i < x.n; ++i) x.d.push_back(vc_i32("d", lo, INT32_MAX));
}
VC_HARNESS(constructor) {
    Ctx x; dims(x, 0);
    I p = 1; I w[8];
    for (int i = x.n - 1; i >= 0; --i) { p = p * x.d[i]; vc_assume(p <= INT32_MAX); w[i] = p; }
    HypeShape h(x.d);
    vc_assert(h.count() == p, "count is the product of the extents");
    vc_assert((int) h.weight().size() == x.n && h.shape() == x.d, "shape kept");
    for (int i = 0; i < x.n; ++i) vc_assert(h.weight(i) == w[i] && h.shape(i) == x.d[i], "weight is the suffix product");
    HypeShape c(h), m(std::move(c)); HypeShape e(Shape({2, 3})); e = h;
    vc_assert(m.shape() == x.d && e.shape() == x.d && m.weight() == h.weight() && e.weight() == h.weight(), "copy and move keep the shape");
    HypeShape f(Shape({2, 3})); f = std::move(e);
    vc_assert(f.shape() == x.d && f.weight() == h.weight() && (Shape(f) == x.d), "move assignment keeps the shape");
    vc_cover("end");
}
// arbitrary HypeShape satisfying INV with every extent >= 1
static HypeShape any_hype(Ctx &x, int rmax = 7) {
    dims(x, 1, rmax);
    x.w[x.n] = 1;
    if (vc_random()) {
        for (int i = x.n - 1; i >= 0; --i) { x.d[i] = 1 + x.d[i] % 40; x.w[i] = x.w[i + 1] * x.d[i]; vc_assume(x.w[i] <= INT32_MAX); }
        return HypeShape(x.d);
    }
    Shape one; for (int i = 0; i < x.n; ++i) one.push_back(1);
    HypeShape h(one);
    const_cast<Shape &>(h.shape()) = x.d;
    Shape &ww = const_cast<Shape &>(h.weight());
    for (int i = x.n - 1; i >= 0; --i) {
        if (i == x.n - 1) x.w[i] = x.d[i];
        else { x.w[i] = vc_i32("w", 1, INT32_MAX); vc_assume(x.w[i] == x.d[i] * x.w[i + 1]); }
        ww[i] = (int) x.w[i];
    }
    return h;
}
static I offset(const Ctx &x, const int *c, int k) { I t = 0; for (int i = x.n - 1; i >= k; --i) t = c[i] * x.w[i + 1] + t; return t; }
// lemma: 0 <= c < d, p >= 1, 0 <= t < p  ==>  0 <= c*p + t < d*p
static void lemma_offset(const Ctx &x, const int *c) {
    I t = 0;
    for (int i = x.n - 1; i >= 0; --i) {
        vc_assert(c[i] * x.w[i + 1] >= 0, "lemma: product of non-negatives");
        vc_assert((x.d[i] - 1 - c[i]) * x.w[i + 1] >= 0, "lemma: product of non-negatives");
        t = c[i] * x.w[i + 1] + t;
        vc_assert(0 <= t && t < x.w[i], "lemma: suffix offset below suffix count");
    }
}
static void coords(const Ctx &x, int *c) { for (int i = 0; i < x.n; ++i) { c[i] = vc_i32("c", 0, INT32_MAX); if (vc_random()) c[i] %= x.d[i]; vc_assume(c[i] < x.d[i]); } }
VC_HARNESS(to_index) {
    Ctx x; HypeShape h = any_hype(x); int c[7]; coords(x, c); lemma_offset(x, c);
    I e = offset(x, c, 0);
    Shape s; std::vector<int> v;
    for (int i = 0; i < x.n; ++i) { s.push_back(c[i]); v.push_back(c[i]); }
    vc_assert(h.to_index(s) == e, "row-major offset (Shape)");
    vc_assert(h.to_index(v) == e, "row-major offset (std::vector)");
    vc_assert(e >= 0 && e < h.count(), "index below the element count");
    vc_cover("end");
}
VC_HARNESS(to_index_arguments) {
    Ctx x; HypeShape h = any_hype(x); vc_assume(x.n >= 1); int c[7]; coords(x, c); lemma_offset(x, c);
    I e = offset(x, c, 0);
    int r = 0, q = 0;
    switch (x.n) {
        case 1: r = h.to_index(c[0]); q = h.to_index(std::initializer_list<int>({c[0]})); break;
        case 2: r = h.to_index(c[0], c[1]); q = h.to_index(std::initializer_list<int>({c[0], c[1]})); break;
        case 3: r = h.to_index(c[0], c[1], c[2]); q = h.to_index(std::initializer_list<int>({c[0], c[1], c[2]})); break;
        case 4: r = h.to_index(c[0], c[1], c[2], c[3]); q = h.to_index(std::initializer_list<int>({c[0], c[1], c[2], c[3]})); break;
        case 5: r = h.to_index(c[0], c[1], c[2], c[3], c[4]); q = h.to_index(std::initializer_list<int>({c[0], c[1], c[2], c[3], c[4]})); break;
        case 6: r = h.to_index(c[0], c[1], c[2], c[3], c[4], c[5]); q = h.to_index(std::initializer_list<int>({c[0], c[1], c[2], c[3], c[4], c[5]})); break;
        case 7: r = h.to_index(c[0], c[1], c[2], c[3], c[4], c[5], c[6]); q = h.to_index(std::initializer_list<int>({c[0], c[1], c[2], c[3], c[4], c[5], c[6]})); break;
    }
    vc_assert(r == e && q == e, "row-major offset (argument list)");
    vc_cover("end");
}
VC_HARNESS(to_coordinate) {     // every index below the count maps inside the shape and back to itself
    Ctx x; HypeShape h = any_hype(x);
    int i = vc_i32("i", 0, INT32_MAX); if (vc_random()) i %= h.count(); vc_assume(i < x.w[0]);
    std::vector<int> c = h.to_coordinate(i);
    vc_assert((int) c.size() == x.n, "one coordinate per dimension");
    I t = 0; I rest = i;
    for (int k = 0; k < x.n; ++k) {
        vc_assert(rest >= 0 && rest < x.w[k], "lemma: remainder below the suffix count");
        vc_assert(c[k] * x.w[k + 1] <= rest && rest < c[k] * x.w[k + 1] + x.w[k + 1], "quotient");
        vc_assert(c[k] >= 0 && c[k] < x.d[k], "coordinate inside the shape");
        rest = rest - c[k] * x.w[k + 1];
        t = t + c[k] * x.w[k + 1];
    }
    vc_assert(t == i, "index -> coordinate -> offset is the identity");
    std::vector<int> again(3, 9);
    h.to_coordinate(i, again);
    vc_assert(again.size() == c.size(), "same coordinate");
    for (int k = 0; k < x.n; ++k) vc_assert(again[k] == c[k], "same coordinate");
    vc_cover("end");
}
VC_HARNESS(round_trip_coordinate) {  // coordinate -> index -> coordinate (with to_index by its contract: the offset)
    Ctx x; HypeShape h = any_hype(x); int c[7]; coords(x, c); lemma_offset(x, c);
    I e = offset(x, c, 0);
    std::vector<int> r = h.to_coordinate((int) e);
    for (int k = 0; k < x.n; ++k) {
        I t = offset(x, c, k + 1), s = 0;
        for (int j = k + 1; j < x.n; ++j) s = s + r[j] * x.w[j + 1];
        vc_assert(r[k] * x.w[k + 1] <= offset(x, c, k) && offset(x, c, k) < r[k] * x.w[k + 1] + x.w[k + 1], "quotient bounds");
        vc_assert(r[k] == c[k], "coordinate -> index -> coordinate is the identity");
    }
    vc_cover("end");
}
// successor in row-major order
VC_HARNESS(iterator_increase) {
    Ctx x; dims(x, 1); int c[7]; Shape s;
    for (int i = 0; i < x.n; ++i) { c[i] = vc_i32("c", 0, INT32_MAX); if (vc_random()) c[i] = c[i] % 3 == 0 ? x.d[i] - 1 : c[i] % x.d[i]; vc_assume(c[i] < x.d[i]); s.push_back(c[i]); }
    int e[7]; int p = x.n - 1;
    while (p >= 0 && c[p] == x.d[p] - 1) --p;
    for (int i = 0; i < x.n; ++i) e[i] = i < p ? c[i] : i == p ? c[i] + 1 : 0;
    ShapeIterator it(x.d, s); int kind = vc_pick("kind", 0, 1);
    if (kind == 0) { ++it; }
    else { auto old = it++; for (int i = 0; i < x.n; ++i) vc_assert(const_cast<ShapeIterator &>(old).coordinate()[i] == c[i], "post-increment returns the old position"); }
    vc_assert((int) it.coordinate().size() == x.n, "rank kept");
    for (int i = 0; i < x.n; ++i) vc_assert(it.coordinate()[i] == e[i], "increment is the row-major successor");
    if (kind == 0) { --it; for (int i = 0; i < x.n; ++i) vc_assert(it.coordinate()[i] == c[i], "decrement undoes increment"); }
    it.rewind();
    for (int i = 0; i < x.n; ++i) vc_assert(it.coordinate()[i] == 0, "rewind");
    ShapeIterator z(x.d), zc(z), zm(std::move(zc)); z = zm;
    for (int i = 0; i < x.n; ++i) vc_assert(z.coordinate()[i] == 0, "starts at the origin");
    vc_assert((int) z.coordinate().size() == x.n, "rank of a fresh iterator");
    vc_cover("end");
}
VC_HARNESS(iterator_decrease) {
    Ctx x; dims(x, 1); int c[7]; Shape s;
    for (int i = 0; i < x.n; ++i) { c[i] = vc_i32("c", 0, INT32_MAX); if (vc_random()) c[i] = c[i] % 3 == 0 ? 0 : c[i] % x.d[i]; vc_assume(c[i] < x.d[i]); s.push_back(c[i]); }
    int e[7]; int p = x.n - 1;
    while (p >= 0 && c[p] == 0) --p;
    for (int i = 0; i < x.n; ++i) e[i] = i < p ? c[i] : i == p ? c[i] - 1 : x.d[i] - 1;
    ShapeIterator it(x.d, s); int kind = vc_pick("kind", 0, 1);
    if (kind == 0) --it;
    else { auto old = it--; for (int i = 0; i < x.n; ++i) vc_assert(const_cast<ShapeIterator &>(old).coordinate()[i] == c[i], "post-decrement returns the old position"); }
    for (int i = 0; i < x.n; ++i) vc_assert(it.coordinate()[i] == e[i], "decrement is the row-major predecessor");
    vc_cover("end");
}
// lemma: the row-major successor has the next index (so repeated ++ from the origin visits every index once, in order)
VC_HARNESS(successor_index_lemma) {
    Ctx x; any_hype(x); int c[7]; coords(x, c); lemma_offset(x, c); vc_assume(x.n >= 1);
    int p = vc_pick("p", -1, 6); vc_assume(p < x.n);
    for (int i = p + 1; i < x.n; ++i) vc_assume(c[i] == x.d[i] - 1);
    if (p >= 0) vc_assume(c[p] < x.d[p] - 1);
    I t = 0;
    for (int i = x.n - 1; i > p; --i) { t = c[i] * x.w[i + 1] + t; vc_assert(t == x.w[i] - 1, "lemma: maximal suffix"); }
    int e[7]; for (int i = 0; i < x.n; ++i) e[i] = i < p ? c[i] : i == p ? c[i] + 1 : 0;
    if (p >= 0) vc_assert(offset(x, e, 0) == offset(x, c, 0) + 1, "successor has the next index");
    else vc_assert(offset(x, c, 0) == x.w[0] - 1, "only the last coordinate has no successor");
    vc_cover("end");
}
