// C01: fixed-capacity vector / string behave as the mathematical sequence, capacity overflow raises.
#include "vc.h"
#include "core/tensor.h"
#include "core/device.h"
#include "utils/otl.h"
#include "utils/except.h"
#include <vector>
typedef ts::Shape Vec;
static const int CAP = 7;
static int any(const char *n) { return vc_i32(n, INT32_MIN, INT32_MAX); }
static Vec mk(int *m, int n, const char *nm) {
    Vec v;
    for (int i = 0; i < n; ++i) { m[i] = any(nm); v.push_back(m[i]); }
    return v;
}
static void same(const Vec &v, const int *m, int n, const char *what) {
    vc_assert((int) v.size() == n, what);
    vc_assert(v.empty() == (n == 0), "empty iff length 0");
    for (int k = 0; k < n; ++k) vc_assert(v[k] == m[k], what);
    vc_assert(v.end() - v.begin() == n, "iterator distance");
    int k = 0;
    for (auto &x : v) { vc_assert(x == m[k], "iteration order"); ++k; }
    vc_assert(k == n, "iteration count");
    if (n > 0) { vc_assert(v.front() == m[0], "front"); vc_assert(v.back() == m[n - 1], "back"); }
}
VC_HARNESS(push_back_index) {
    int m[7]; int n = vc_pick("n", 0, 7);
    Vec v = mk(m, n, "x");
    same(v, m, n, "push_back");
    vc_assert(v.capacity() == CAP, "capacity");
    vc_cover("end");
}
VC_HARNESS(push_back_full) {
    int m[7]; Vec v = mk(m, 7, "x");
    bool threw = false;
    try { if (vc_bool("emplace")) v.emplace_back(any("y")); else v.push_back(any("y")); } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw, "push onto a full vector raises");
    vc_cover("end");
}
VC_HARNESS(emplace_pop) {
    int m[7]; int n = vc_pick("n", 0, 6); Vec v = mk(m, n, "x");
    m[n] = any("y");
    v.emplace_back(m[n]);
    same(v, m, n + 1, "emplace_back");
    v.pop_back();
    same(v, m, n, "pop_back");
    v.clear();
    vc_assert(v.size() == 0 && v.empty(), "clear");
    vc_cover("end");
}
VC_HARNESS(ctor_fill) {
    int64_t n = vc_i64("n", 0, 12); int x = any("x");
    n = vc_concretize(n);
    bool threw = false; int kind = vc_pick("kind", 0, 1);
    int m[12]; for (int i = 0; i < 12; ++i) m[i] = x;
    try {
        if (kind == 0) { Vec v((size_t) n, x); same(v, m, (int) n, "fill constructor"); }
        else { Vec v((int) n, x); same(v, m, (int) n, "fill constructor (int)"); }
    } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw == (n > CAP), "fill constructor raises exactly beyond capacity");
    vc_cover("end");
}
VC_HARNESS(ctor_fill_huge) {   // every length beyond the capacity is rejected
    uint64_t n = vc_u64("n"); vc_assume(n > 7);
    bool threw = false; int kind = vc_pick("kind", 0, 2);
    try {
        if (kind == 0) { Vec v((size_t) n, 1); }
        else if (kind == 1) { vc_assume(n <= 0xffffffffu && ((int) n < 0 || (int) n > 7)); Vec v((int) n, 1); }
        else { Vec v((size_t) n); }
    } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw, "fill constructor raises beyond capacity");
    vc_cover("end");
}
VC_HARNESS(ctor_range) {
    int n = vc_pick("n", 0, 10); int m[10];
    for (int i = 0; i < n; ++i) m[i] = any("x");
    bool threw = false; int kind = vc_pick("kind", 0, 1);
    try {
        if (kind == 0) { Vec v((const int *) m, (const int *) m + n); same(v, m, n, "range constructor"); }
        else {
            std::vector<int> s(m, m + n); Vec v(s); same(v, m, n, "constructor from std::vector");
            std::vector<int> t = v.std();
            vc_assert((int) t.size() == n, "std() length");
            for (int k = 0; k < n; ++k) vc_assert(t[k] == m[k], "std() elements");
        }
    } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw == (n > CAP), "range constructor raises exactly beyond capacity");
    vc_cover("end");
}
VC_HARNESS(ctor_list) {
    int a = any("a"), b = any("b"), c = any("c"), d = any("d");
    int m[8] = {a, b, c, d, a, b, c, d};
    Vec v0; Vec v1 = {a}; Vec v2 = {a, b}; Vec v4 = {a, b, c, d}; Vec v7 = {a, b, c, d, a, b, c};
    same(v0, m, 0, "list"); same(v1, m, 1, "list"); same(v2, m, 2, "list"); same(v4, m, 4, "list"); same(v7, m, 7, "list");
    bool threw = false;
    try { Vec v8 = {a, b, c, d, a, b, c, d}; } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw, "list constructor raises beyond capacity");
    vc_cover("end");
}
VC_HARNESS(copy_assign) {
    int m[7], w[7]; int n = vc_pick("n", 0, 7), k = vc_pick("k", 0, 7);
    Vec v = mk(m, n, "x"); Vec u = mk(w, k, "y");
    Vec c(v); same(c, m, n, "copy constructor"); same(v, m, n, "copy source unchanged");
    u = v; same(u, m, n, "assignment"); same(v, m, n, "assignment source unchanged");
    v = v; same(v, m, n, "self assignment");
    if (n > 0) { c[n - 1] = any("z"); same(v, m, n, "copies are independent"); }
    vc_cover("end");
}
VC_HARNESS(write_index) {
    int m[7]; int n = vc_pick("n", 1, 7); Vec v = mk(m, n, "x");
    int64_t i = vc_i64("i", 0, n - 1); int x = any("v");
    int kind = vc_pick("kind", 0, 2);
    if (kind == 0) v[(size_t) i] = x; else if (kind == 1) v[(int32_t) i] = x; else v[i] = x;
    vc_assert((int) v.size() == n, "write does not change size");
    for (int k = 0; k < n; ++k) vc_assert(v[k] == (k == i ? x : m[k]), "write changes exactly one element");
    vc_cover("end");
}
VC_HARNESS(insert_one) {
    Vec v; int m[8]; int n = vc_pick("n", 0, 7); int r[8]; v = mk(m, n, "x");
    int pos = vc_pick("pos", 0, n); int x = any("v");
    bool threw = false;
    try {
        auto it = v.insert(v.begin() + pos, x);
        vc_assert(it - v.begin() == pos, "insert returns the position");
        for (int k = 0; k <= n; ++k) r[k] = k < pos ? m[k] : k == pos ? x : m[k - 1];
        same(v, r, n + 1, "insert");
    } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw == (n == 7), "insert raises exactly when full");
    vc_cover("end");
}
VC_HARNESS(insert_range) {
    int m[7], w[10], r[17]; int n = vc_pick("n", 0, 7), k = vc_pick("k", 0, 8);
    Vec v = mk(m, n, "x"); for (int i = 0; i < k; ++i) w[i] = any("y");
    int pos = vc_pick("pos", 0, n);
    bool threw = false;
    try {
        auto it = v.insert(v.begin() + pos, (const int *) w, (const int *) w + k);
        vc_assert(it - v.begin() == pos, "range insert returns the position");
        int j = 0;
        for (int i = 0; i < pos; ++i) r[j++] = m[i];
        for (int i = 0; i < k; ++i) r[j++] = w[i];
        for (int i = pos; i < n; ++i) r[j++] = m[i];
        same(v, r, n + k, "range insert");
    } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw == (n + k > CAP), "range insert raises exactly beyond capacity");
    vc_cover("end");
}
VC_HARNESS(erase_one) {
    int m[7], r[7]; int n = vc_pick("n", 1, 7); Vec v = mk(m, n, "x");
    int pos = vc_pick("pos", 0, n - 1);
    auto it = v.erase(v.begin() + pos);
    vc_assert(it - v.begin() == pos, "erase returns the position");
    for (int k = 0, j = 0; k < n; ++k) if (k != pos) r[j++] = m[k];
    same(v, r, n - 1, "erase");
    vc_cover("end");
}
VC_HARNESS(erase_range) {
    int m[7], r[7]; int n = vc_pick("n", 0, 7); Vec v = mk(m, n, "x");
    int i = vc_pick("i", 0, n), j = vc_pick("j", i, n);
    v.erase(v.begin() + i, v.begin() + j);
    int q = 0;
    for (int k = 0; k < n; ++k) if (k < i || k >= j) r[q++] = m[k];
    same(v, r, n - (j - i), "range erase");
    vc_cover("end");
}
VC_HARNESS(resize) {
    int m[12]; int n = vc_pick("n", 0, 7), k = vc_pick("k", 0, 9); Vec v = mk(m, n, "x"); int x = any("fill");
    for (int i = n; i < 12; ++i) m[i] = x;
    bool threw = false;
    try { v.resize(k, x); same(v, m, k, "resize"); } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw == (k > CAP), "resize raises exactly beyond capacity");
    vc_cover("end");
}
VC_HARNESS(compare) {
    int m[7], w[7]; int n = vc_pick("n", 0, 7), k = vc_pick("k", 0, 7);
    Vec v = mk(m, n, "x"), u = mk(w, k, "y");
    bool eq = n == k;
    for (int i = 0; i < n && i < k; ++i) eq = eq & (m[i] == w[i]);
    vc_assert((v == u) == eq, "equality is element-wise");
    vc_assert((v != u) == !eq, "inequality is its negation");
    ts::otl::vector<int, 3, int> t;
    for (int i = 0; i < k && i < 3; ++i) t.push_back(w[i]);
    if (k <= 3) vc_assert((v == t) == eq, "equality across capacities");
    vc_cover("end");
}
VC_HARNESS(stale_compare) {   // contents beyond the length never matter
    int m[7]; int n = vc_pick("n", 1, 7); Vec v = mk(m, n, "x"); Vec u = mk(m, 0, "y");
    for (int i = 0; i < n - 1; ++i) u.push_back(v[i]);
    v.pop_back();
    vc_assert(v == u, "popped elements do not take part in comparison");
    vc_cover("end");
}
VC_HARNESS(reverse_iteration) {
    int m[7]; int n = vc_pick("n", 0, 7); Vec v = mk(m, n, "x");
    int k = n;
    for (auto it = v.rbegin(); it != v.rend(); ++it) { --k; vc_assert(*it == m[k], "reverse order"); }
    vc_assert(k == 0, "reverse count");
    vc_cover("end");
}
// ------------------------------------------------------------------ string
typedef ts::DeviceType Str;
VC_HARNESS(string_value) {
    int n = vc_pick("n", 0, 9); char b[10];
    for (int i = 0; i < n; ++i) { uint8_t c = vc_u8("c"); vc_assume(c != 0); b[i] = (char) c; }
    b[n] = 0;
    bool threw = false; int kind = vc_pick("kind", 0, 1);
    try {
        Str s = kind == 0 ? Str((const char *) b) : Str(std::string(b, n));
        vc_assert((int) s.length() == n, "string length");
        for (int i = 0; i <= n; ++i) vc_assert(s.c_str()[i] == b[i], "string characters");
        vc_assert(s.empty() == (n == 0), "string empty");
        vc_assert(s.std() == std::string(b, n), "string std()");
        Str t(s); vc_assert(t == s, "copy equals");
        Str u("abcdefg"); u = s; vc_assert(u == s && (int) u.length() == n, "assignment replaces the whole value");
    } catch (const ts::Exception &) { threw = true; }
    vc_assert(threw == (n > 7), "string raises exactly beyond capacity");
    vc_cover("end");
}
static Str anystr(const char *nm, char *b, int n) {
    for (int i = 0; i < n; ++i) { uint8_t c = vc_u8(nm); vc_assume(c != 0); b[i] = (char) c; }
    b[n] = 0;
    return Str((const char *) b);
}
VC_HARNESS(string_compare) {
    char a[8], b[8]; int n = vc_pick("n", 0, 7), k = vc_pick("k", 0, 7);
    Str s = anystr("a", a, n), t = anystr("b", b, k);
    bool eq = n == k;
    for (int i = 0; i < n && i < k; ++i) eq = eq & (a[i] == b[i]);
    vc_assert((s == t) == eq, "string equality is by characters");
    vc_assert((s != t) == !eq, "string inequality");
    vc_assert(((s < t) + (t < s) + (s == t)) == 1, "exactly one of <, >, ==");
    vc_assert((s > t) == (t < s) && (s <= t) == !(t < s) && (s >= t) == !(s < t), "derived comparisons");
    if (eq) vc_assert(std::hash<Str>()(s) == std::hash<Str>()(t), "equal strings hash equally");
    vc_cover("end");
}
VC_HARNESS(string_null) {
    Str s((const char *) nullptr); Str t;
    vc_assert(s.empty() && s == t && s.length() == 0, "null and default are the empty string");
    vc_cover("end");
}
