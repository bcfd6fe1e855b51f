// The range of one sliced dimension, for every extent, range and step: contract of infer_output in base_strided_slice.cpp and base_slice_v3.cpp.
#include <bits/stdc++.h>
#define private public
#define protected public
#include "vc.h"
#include "utils/log.h"
#include "utils/except.h"
#define infer_output infer_output_of_slice_v3
#include "backend/base/base_slice_v3.cpp"
#undef infer_output
namespace ts { namespace base { int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag); } }
using namespace ts;
template <typename F> static void ranges(F f) {
    int x = vc_i32("extent", 0, INT_MAX), b = vc_i32("begin", INT_MIN, INT_MAX), e = vc_i32("end", INT_MIN, INT_MAX), s = vc_i32("step", INT_MIN + 1, INT_MAX); bool wb = vc_bool("from the start"), we = vc_bool("to the end");
   
    int B = b, E = e, n = 0; bool ok = true;
    try { n = f(x, B, E, s, wb, we); } catch (const Exception &) { ok = false; }
    vc_assert(ok == (s != 0), "exactly a step of zero is an error");
    if (!ok) { vc_cover("rejected"); return; }
    // where the range starts and stops, counted from the end when negative and cut to the extent
    int64_t X = x, lo = s > 0 ? 0 : -1, hi = s > 0 ? X : X - 1, first = b, last = e;
    if (first < 0) { first += X; if (first < lo) first = lo; } else if (first > hi) first = hi;
    if (last < 0) { last += X; if (last < lo) last = lo; } else if (last > hi) last = hi;
    if (wb) first = s > 0 ? lo : hi;
    if (we) last = s > 0 ? hi : lo;
    int64_t room = s > 0 ? last - first : first - last, by = s > 0 ? s : -(int64_t) s;
    vc_assert(n >= 0, "not fewer than no elements");
    vc_assert((n == 0) == (room <= 0), "no elements exactly when the range is empty");
    if (n == 0) { vc_cover("none"); return; }
    vc_assert(B == first && B >= 0 && B < x, "the first element is inside");
    vc_assert(n == (room - 1) / by + 1, "as many elements as steps fit");
    vc_assert((n - int64_t(1)) * by < room && (int64_t) n * by >= room, "the last element is inside and the next one outside of the range");
    vc_cover("end");
}
VC_HARNESS(range_of_strided_slice) { ranges([](int x, int &b, int &e, int s, bool wb, bool we) { return base::infer_output(x, b, e, s, wb, we); }); }
VC_HARNESS(range_of_slice_v3) { ranges([](int x, int &b, int &e, int s, bool wb, bool we) { return base::infer_output_of_slice_v3(x, b, e, s, wb, we); }); }
