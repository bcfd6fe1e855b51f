// C21: split_bins / lsplit_bins tile [first, second).
#include "vc.h"
#include <vector>
#include <utility>
#include "utils/box.h"
typedef std::pair<int, int> B; typedef std::pair<size_t, size_t> LB;
// the documented tiling: consecutive bins of size step = ceil(range / bins), the last one holds the rest
VC_HARNESS(empty_range) {
    int a = vc_i32("first", INT32_MIN, INT32_MAX), b = vc_i32("second", INT32_MIN, INT32_MAX), n = vc_i32("bins", INT32_MIN, INT32_MAX);
    if (vc_random() && a < b) { int t = a; a = b; b = t; }
    vc_assume(b <= a);
    vc_assert(ts::split_bins(a, b, n).empty(), "an empty range has no bins");
    uint64_t la = vc_u64("lfirst"), lb = vc_u64("lsecond"), ln = vc_u64("lbins");
    if (vc_random() && la < lb) { uint64_t t = la; la = lb; lb = t; }
    vc_assume(lb <= la);
    vc_assert(ts::lsplit_bins(la, lb, ln).empty(), "an empty range has no bins");
    vc_cover("end");
}
VC_HARNESS(one_bin) {
    int a = vc_i32("first", INT32_MIN, INT32_MAX), b = vc_i32("second", INT32_MIN, INT32_MAX), n = vc_i32("bins", INT32_MIN, 1);
    if (vc_random() && a > b) { int t = a; a = b; b = t; }
    vc_assume(a < b);
    auto r = ts::split_bins(a, b, n);
    vc_assert(r.size() == 1 && r[0].first == a && r[0].second == b, "one bin covers the range");
    uint64_t la = vc_u64("lfirst"), lb = vc_u64("lsecond"), ln = vc_pick("lbins", 0, 1);
    if (vc_random() && la > lb) { uint64_t t = la; la = lb; lb = t; }
    vc_assume(la < lb);
    auto q = ts::lsplit_bins(la, lb, ln);
    vc_assert(q.size() == 1 && q[0].first == la && q[0].second == lb, "one bin covers the range");
    vc_cover("end");
}
template <typename T, typename W> static void tiles(const std::vector<std::pair<T, T>> &r, T a, T b, W n) {
    vc_assert(!r.empty() && (W) r.size() <= n, "no more bins than requested");
    vc_assert(r.front().first == a && r.back().second == b, "bins start and end with the range");
    W range = (W) b - (W) a;
    W step = range / n; if (range % n != 0) step = step + 1;
    for (size_t i = 0; i < r.size(); ++i) {
        vc_assert(r[i].first < r[i].second, "bins are not empty");
        if (i + 1 < r.size()) {
            vc_assert(r[i].second == r[i + 1].first, "bins are consecutive");
            vc_assert((W) r[i].second - (W) r[i].first == step, "every bin but the last has the ceiling size");
        } else vc_assert((W) r[i].second - (W) r[i].first <= step, "the last bin holds the rest");
    }
}
static void run_int(int lo, int hi) {
    int a = vc_i32("first", INT32_MIN, INT32_MAX), b = vc_i32("second", INT32_MIN, INT32_MAX);
    if (vc_random()) { if (a > b) { int t = a; a = b; b = t; } }
    vc_assume(a < b);
    int n = vc_pick("bins", lo, hi);
    tiles<int, int64_t>(ts::split_bins(a, b, n), a, b, n);
    vc_cover("end");
}
static void run_long(int lo, int hi) {
    int64_t a = vc_i64("first", 0, INT64_MAX), b = vc_i64("second", 0, INT64_MAX);
    if (vc_random() && a > b) { int64_t t = a; a = b; b = t; }
    vc_assume(a < b);
    int n = vc_pick("bins", lo, hi);
    tiles<size_t, uint64_t>(ts::lsplit_bins((size_t) a, (size_t) b, (size_t) n), (size_t) a, (size_t) b, (uint64_t) n);
    vc_cover("end");
}
VC_HARNESS(tiles_int) { run_int(2, 9); }
VC_HARNESS(tiles_long) { run_long(2, 9); }
VC_HARNESS(tiles_small) {       // run-time contract: any bin count, small and large ranges
    int a = vc_i32("first", -100, 100), len = vc_i32("len", 1, 300), n = vc_i32("bins", 2, 400);
    tiles<int, int64_t>(ts::split_bins(a, a + len, n), a, a + len, n);
    tiles<size_t, uint64_t>(ts::lsplit_bins((size_t) (a + 100), (size_t) (a + 100 + len), n), a + 100, a + 100 + len, n);
    int w = vc_i32("w", 1, INT32_MAX), m = vc_i32("m", 2, 2000);
    tiles<int, int64_t>(ts::split_bins(INT32_MAX - w, INT32_MAX, m), INT32_MAX - w, INT32_MAX, m);
    vc_cover("end");
}
