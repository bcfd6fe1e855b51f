// C10: the C interface reports failures and never lets an exception escape
#include "vc.h"
#include <bits/stdc++.h>
#define private public
#define protected public
#include "api/tennis.h"
#include "api/operator.h"
#include "api/declare_tensor.h"
#include "api/declare_module.h"
#include "api/declare_program.h"
#include "api/declare_workbench.h"
#include "api/declare_image_filter.h"
#include "api/plugin.h"
#include "module/module.h"
#include "module/menu.h"
#include "runtime/workbench.h"
#include "runtime/operator.h"
#include "runtime/stack.h"
#include "global/operator_factory.h"
#include "core/tensor_builder.h"
#include "backend/name.h"
#include "utils/ctxmgr_lite.h"
#include "compiler/argparse.h"
ts_Module *ts_Module_translate(const ts_Module *module, const ts_Device *device, const char *options);     // not in the headers
using namespace ts;
typedef int64_t I;

extern "C" __attribute__((used, noinline)) void contract_parse(ArgParser *p, const std::string &args) {
    std::string a;
    for (size_t k = 0; k <= args.size(); ++k) if (k == args.size() || args[k] == ' ') { if (!a.empty()) p->set(a); a.clear(); } else a.push_back(args[k]);
}
extern "C" __attribute__((used, noinline)) std::string contract_device(ArgParser *p, const std::string &d) {
    std::string x = d;
    for (auto it = p->m_map_device.find(x); it != p->m_map_device.end(); it = p->m_map_device.find(x)) x = it->second;
    return x;
}

namespace {
bool told() { const char *m = ts_last_error_message(); return m != nullptr && *m != 0; }
// the contract of a call of the C interface: no exception leaves it; when it fails its result is the failure value and there is a message
#define CALL(R, expr) R = decltype(R)(); ts_set_error_message(""); try { R = (expr); } catch (...) { vc_assert(false, "no exception leaves " #expr); }
#define VOID(expr) ts_set_error_message(""); try { expr; } catch (...) { vc_assert(false, "no exception leaves " #expr); }
#define FAILS(expr, value) { decltype(expr) CALL(r_, expr); vc_assert(r_ == (value), "the failure value of " #expr); vc_assert(told(), "a message of the failure of " #expr); }
#define WORKS(expr, what) { decltype(expr) CALL(r_, expr); vc_assert(r_ == (what), "the result of " #expr); vc_assert(!told(), "no message of " #expr); }
#define EITHER(R, expr, value) decltype(expr) CALL(R, expr); vc_assert((R == (value)) == told(), "a message exactly when it fails: " #expr);
#define OK(R, expr) decltype(expr) CALL(R, expr); vc_assert(R != nullptr && !told(), "a result and no message: " #expr);

const ts_Device CPU0 = {"cpu", 0};
void free(ts_Tensor *t) { VOID(ts_free_Tensor(t)); vc_assert(!told(), "tensors are freed without an error"); }
bool is(ts_Tensor *t, ts_DTYPE d, const std::vector<int32_t> &s) {
    if (t == nullptr || ts_Tensor_dtype(t) != d || ts_Tensor_shape_size(t) != (int) s.size()) return false;
    const int32_t *p = ts_Tensor_shape(t);
    for (size_t k = 0; k < s.size(); ++k) if (p[k] != s[k]) return false;
    return true;
}
int bytes_of(ts_DTYPE d) {
    switch (d) { case TS_INT8: case TS_UINT8: case TS_CHAR8: return 1; case TS_INT16: case TS_UINT16: return 2; case TS_INT32: case TS_UINT32: case TS_FLOAT32: return 4;
                 case TS_INT64: case TS_UINT64: case TS_FLOAT64: return 8; default: return 0; }
}
bool same(const uint8_t *a, const uint8_t *b, int n) { bool r = true; for (int k = 0; k < n; ++k) r = r & (a[k] == b[k]); return r; }
const ts_DTYPE TYPES[] = {TS_INT8, TS_UINT8, TS_INT16, TS_UINT16, TS_INT32, TS_UINT32, TS_INT64, TS_UINT64, TS_FLOAT32, TS_FLOAT64, TS_CHAR8};
ts_Tensor *make(const std::vector<int32_t> &s, int base = 0) {
    int n = 1; for (int e : s) n *= e;
    std::vector<int32_t> v(n + 1); for (int k = 0; k < n; ++k) v[k] = base + k;
    OK(t, ts_new_Tensor(s.data(), (int) s.size(), TS_INT32, v.data()));
    return t;
}
bool counts(ts_Tensor *t, int from, int n) { const int32_t *p = (const int32_t *) ts_Tensor_data(t); for (int k = 0; k < n; ++k) if (p[k] != from + k) return false; return true; }
}

// ---- null handles ----
VC_HARNESS(null_tensor) {
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX), j = vc_i32("j", INT32_MIN, INT32_MAX); ts_DTYPE d = (ts_DTYPE) vc_i32("d", 0, 15);
    ts_Tensor *t = make({2});
    FAILS(ts_Tensor_shape(nullptr), nullptr);
    FAILS(ts_Tensor_shape_size(nullptr), 0);
    FAILS(ts_Tensor_dtype(nullptr), TS_VOID);
    FAILS(ts_Tensor_data(nullptr), nullptr);
    FAILS(ts_Tensor_clone(nullptr), nullptr);
    FAILS(ts_Tensor_sync_cpu(nullptr), ts_false);
    FAILS(ts_Tensor_pack(&t, -1), nullptr);
    FAILS(ts_Tensor_cast(nullptr, d), nullptr);
    FAILS(ts_Tensor_reshape(nullptr, &i, 1), nullptr);
    FAILS(ts_Tensor_reshape(t, nullptr, 1), nullptr);
    FAILS(ts_Tensor_view_in_flow(nullptr, TS_HOST), nullptr);
    FAILS(ts_Tensor_field(nullptr, i), nullptr);
    FAILS(ts_Tensor_packed(nullptr), ts_false);
    FAILS(ts_Tensor_fields_count(nullptr), 0);
    FAILS(ts_Tensor_pack(nullptr, i), nullptr);
    ts_Tensor *two[2] = {t, nullptr};
    FAILS(ts_Tensor_pack(two, 2), nullptr);
    FAILS(ts_Tensor_slice(nullptr, i), nullptr);
    FAILS(ts_Tensor_slice_v2(nullptr, i, j), nullptr);
    FAILS(ts_Tensor_save(nullptr, t), ts_false);
    FAILS(ts_Tensor_save("x", nullptr), ts_false);
    FAILS(ts_Tensor_load(nullptr), nullptr);
    VOID(ts_free_Tensor(nullptr)); vc_assert(!told(), "nothing to free");
    VOID(ts_set_error_message(nullptr)); vc_assert(!told(), "no message from no text");
    free(t);
    vc_cover("end");
}
VC_HARNESS(null_intime) {
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX), j = vc_i32("j", INT32_MIN, INT32_MAX); int64_t k = vc_i64("k", INT64_MIN, INT64_MAX), l = vc_i64("l", INT64_MIN, INT64_MAX); ts_DTYPE d = (ts_DTYPE) vc_i32("d", 0, 15);
    ts_Tensor *t = make({2}); int32_t one[2] = {0, 0};
    FAILS(ts_intime_transpose(nullptr, one, 1), nullptr);
    FAILS(ts_intime_transpose(t, nullptr, 1), nullptr);
    FAILS(ts_intime_transpose(t, one, -1), nullptr);
    FAILS(ts_intime_sigmoid(nullptr), nullptr);
    FAILS(ts_intime_gather(nullptr, t, i), nullptr);
    FAILS(ts_intime_gather(t, nullptr, i), nullptr);
    FAILS(ts_intime_concat(nullptr, i, j), nullptr);
    const ts_Tensor *two[2] = {t, nullptr};
    FAILS(ts_intime_concat(two, 2, j), nullptr);
    FAILS(ts_intime_concat(two, -1, j), nullptr);
    FAILS(ts_intime_softmax(nullptr, i, j), nullptr);
    FAILS(ts_intime_pad(nullptr, t, 0), nullptr);
    FAILS(ts_intime_pad(t, nullptr, 0), nullptr);
    FAILS(ts_intime_cast(nullptr, d), nullptr);
    FAILS(ts_intime_resize2d(nullptr, t, i), nullptr);
    FAILS(ts_intime_resize2d(t, nullptr, i), nullptr);
    FAILS(ts_intime_affine_sample2d(nullptr, t, t, i, 0, j), nullptr);
    FAILS(ts_intime_affine_sample2d(t, nullptr, t, i, 0, j), nullptr);
    FAILS(ts_intime_affine_sample2d(t, t, nullptr, i, 0, j), nullptr);
    FAILS(ts_intime_affine_on_sample2d(nullptr, t, t, i, j), nullptr);
    FAILS(ts_intime_affine_on_sample2d(t, nullptr, t, i, j), nullptr);
    FAILS(ts_intime_affine_on_sample2d(t, t, nullptr, i, j), nullptr);
    FAILS(ts_intime_memcpy(nullptr, nullptr, k, t, nullptr, l, 1), 0);
    FAILS(ts_intime_memcpy(t, nullptr, k, nullptr, nullptr, l, 1), 0);
    FAILS(ts_intime_matmul(nullptr, t, i), nullptr);
    FAILS(ts_intime_matmul(t, nullptr, i), nullptr);
    // no workbench is bound
    FAILS(ts_intime_sigmoid(t), nullptr);
    FAILS(ts_intime_softmax(t, 0, 1), nullptr);
    FAILS(ts_Tensor_view_in_flow(t, TS_DEVICE), nullptr);
    FAILS(ts_new_Tensor_in_flow(TS_HOST, one, 1, TS_INT32, nullptr), nullptr);
    free(t);
    vc_cover("end");
}
VC_HARNESS(null_filter) {
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX), j = vc_i32("j", INT32_MIN, INT32_MAX);
    float f[3] = {1, 2, 3}; int32_t s[3] = {2, 1, 0};
    ts_Device none = {nullptr, 0};
    EITHER(n1, ts_new_ImageFilter(&none), nullptr); VOID(ts_free_ImageFilter(n1));
    OK(x, ts_new_ImageFilter(nullptr));
    ts_Tensor *t = make({2});
    FAILS(ts_ImageFilter_clear(nullptr), ts_false);
    FAILS(ts_ImageFilter_compile(nullptr), ts_false);
    FAILS(ts_ImageFilter_to_float(nullptr), ts_false);
    FAILS(ts_ImageFilter_scale(nullptr, 1), ts_false);
    FAILS(ts_ImageFilter_sub_mean(nullptr, f, i), ts_false);
    FAILS(ts_ImageFilter_sub_mean(x, nullptr, 3), ts_false);
    FAILS(ts_ImageFilter_div_std(nullptr, f, i), ts_false);
    FAILS(ts_ImageFilter_div_std(x, nullptr, 3), ts_false);
    FAILS(ts_ImageFilter_resize(nullptr, i, j), ts_false);
    FAILS(ts_ImageFilter_resize_scalar(nullptr, i), ts_false);
    FAILS(ts_ImageFilter_center_crop(nullptr, i, j), ts_false);
    FAILS(ts_ImageFilter_channel_swap(nullptr, s, i), ts_false);
    FAILS(ts_ImageFilter_channel_swap(x, nullptr, 3), ts_false);
    FAILS(ts_ImageFilter_to_chw(nullptr), ts_false);
    FAILS(ts_ImageFilter_prewhiten(nullptr), ts_false);
    FAILS(ts_ImageFilter_run(nullptr, t), nullptr);
    FAILS(ts_ImageFilter_run(x, nullptr), nullptr);
    FAILS(ts_ImageFilter_letterbox(nullptr, i, j, 0), ts_false);
    FAILS(ts_ImageFilter_divided(nullptr, i, j, 0), ts_false);
    FAILS(ts_ImageFilter_resize_v2(nullptr, i, j, TS_RESIZE_BILINEAR), ts_false);
    FAILS(ts_ImageFilter_resize_scalar_v2(nullptr, i, TS_RESIZE_BILINEAR), ts_false);
    FAILS(ts_ImageFilter_letterbox_v2(nullptr, i, j, 0, TS_RESIZE_BILINEAR), ts_false);
    FAILS(ts_ImageFilter_force_color(nullptr), ts_false);
    FAILS(ts_ImageFilter_force_gray(nullptr), ts_false);
    FAILS(ts_ImageFilter_force_gray_v2(nullptr, f, i), ts_false);
    FAILS(ts_ImageFilter_force_gray_v2(x, nullptr, 3), ts_false);
    FAILS(ts_ImageFilter_norm_image(nullptr, 0), ts_false);
    FAILS(ts_ImageFilter_module(nullptr), nullptr);
    // rejected lengths
    FAILS(ts_ImageFilter_sub_mean(x, f, -1), ts_false);
    FAILS(ts_ImageFilter_div_std(x, f, -2), ts_false);
    FAILS(ts_ImageFilter_channel_swap(x, s, -1), ts_false);
    FAILS(ts_ImageFilter_force_gray_v2(x, f, -3), ts_false);
    VOID(ts_free_ImageFilter(nullptr)); vc_assert(!told(), "nothing to free");
    VOID(ts_free_ImageFilter(x)); vc_assert(!told(), "filters are freed without an error");
    free(t);
    vc_cover("end");
}
namespace {
struct Source { std::string data; size_t at = 0; };
uint64_t read_source(void *o, char *b, uint64_t n) { Source *s = (Source *) o; uint64_t k = 0; for (; k < n && s->at < s->data.size(); ++k) b[k] = s->data[s->at++]; return k; }
void rewind_source(void *o) { ((Source *) o)->at = 0; }
}
VC_HARNESS(null_module) {
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX); ts_SerializationFormat f = TS_BINARY; Source src; char key[4] = {1, 2, 3, 4};
    ts_Device none = {nullptr, 0};
    OK(x, ts_new_ImageFilter(nullptr));
    WORKS(ts_ImageFilter_to_float(x), ts_true);
    OK(m, ts_ImageFilter_module(x));
    FAILS(ts_Module_Load(nullptr, f), nullptr);
    FAILS(ts_Module_LoadV2(nullptr, key, i, f), nullptr);
    FAILS(ts_Module_LoadV2("x", nullptr, i, f), nullptr);
    FAILS(ts_Module_LoadFromStream(nullptr, read_source, f), nullptr);
    FAILS(ts_Module_LoadFromStream(&src, nullptr, f), nullptr);
    FAILS(ts_Module_LoadFromStreamV2(nullptr, read_source, rewind_source, key, i, f), nullptr);
    FAILS(ts_Module_LoadFromStreamV2(&src, nullptr, rewind_source, key, i, f), nullptr);
    FAILS(ts_Module_LoadFromStreamV2(&src, read_source, nullptr, key, i, f), nullptr);
    FAILS(ts_Module_translate(nullptr, &CPU0, ""), nullptr);
    FAILS(ts_Module_translate(m, nullptr, ""), nullptr);
    FAILS(ts_Module_translate(m, &CPU0, nullptr), nullptr);
    EITHER(n2, ts_Module_translate(m, &none, ""), nullptr); VOID(ts_free_Module(n2));
    FAILS(ts_Module_Fusion(nullptr, i, m, i), nullptr);
    FAILS(ts_Module_Fusion(m, i, nullptr, i), nullptr);
    FAILS(ts_Program_Compile(nullptr, &CPU0), nullptr);
    FAILS(ts_Program_Compile(m, nullptr), nullptr);
    EITHER(n3, ts_Program_Compile(m, &none), nullptr); VOID(ts_free_Program(n3));
    FAILS(ts_Program_Compile_v2(nullptr, &CPU0, ""), nullptr);
    FAILS(ts_Program_Compile_v2(m, nullptr, ""), nullptr);
    FAILS(ts_Program_Compile_v2(m, &CPU0, nullptr), nullptr);
    FAILS(ts_Program_clone(nullptr), nullptr);
    FAILS(ts_Program_input_count(nullptr), 0);
    FAILS(ts_Program_output_count(nullptr), 0);
    ts_Tensor *t = make({2});
    FAILS(ts_Program_set_operator_param(nullptr, "a", "b", t), ts_false);
    // a file that is not there, a stream that is too short
    FAILS(ts_Module_Load("no such file here", f), nullptr);
    FAILS(ts_Module_LoadFromStream(&src, read_source, f), nullptr);
    Source few; few.data = std::string("\1\2\3\4\5", 5);
    FAILS(ts_Module_LoadFromStream(&few, read_source, f), nullptr);
    FAILS(ts_Tensor_load("no such file here"), nullptr);
    VOID(ts_free_Module(nullptr)); vc_assert(!told(), "nothing to free");
    VOID(ts_free_Program(nullptr)); vc_assert(!told(), "nothing to free");
    VOID(ts_free_Module(m)); vc_assert(!told(), "modules are freed without an error");
    VOID(ts_free_ImageFilter(x));
    free(t);
    vc_cover("end");
}
VC_HARNESS(null_workbench) {
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX);
    ts_Device none = {nullptr, 0};
    OK(x, ts_new_ImageFilter(nullptr));
    OK(m, ts_ImageFilter_module(x));
    ts_Tensor *t = make({2}), *u = make({2}); const char *names[2] = {"a", nullptr};
    FAILS(ts_Workbench_Load(nullptr, &CPU0), nullptr);
    FAILS(ts_Workbench_Load(m, nullptr), nullptr);
    EITHER(n4, ts_Workbench_Load(m, &none), nullptr); VOID(ts_free_Workbench(n4));
    FAILS(ts_Workbench_Load_v2(nullptr, &CPU0, ""), nullptr);
    FAILS(ts_Workbench_Load_v2(m, nullptr, ""), nullptr);
    FAILS(ts_Workbench_Load_v2(m, &CPU0, nullptr), nullptr);
    EITHER(n5, ts_new_Workbench(&none), nullptr); VOID(ts_free_Workbench(n5));
    ts_Device odd = {"no such device", 0};
    FAILS(ts_new_Workbench(&odd), nullptr);
    FAILS(ts_Workbench_clone(nullptr), nullptr);
    FAILS(ts_Workbench_input(nullptr, i, t), ts_false);
    FAILS(ts_Workbench_input_by_name(nullptr, "a", t), ts_false);
    FAILS(ts_Workbench_run(nullptr), ts_false);
    FAILS(ts_Workbench_output(nullptr, i, t), ts_false);
    FAILS(ts_Workbench_output_by_name(nullptr, "a", t), ts_false);
    FAILS(ts_Workbench_set_computing_thread_number(nullptr, i), ts_false);
    FAILS(ts_Workbench_bind_filter(nullptr, i, x), ts_false);
    FAILS(ts_Workbench_bind_filter_by_name(nullptr, "a", x), ts_false);
    FAILS(ts_Workbench_setup_context(nullptr), ts_false);
    FAILS(ts_Workbench_setup(nullptr, nullptr), ts_false);
    FAILS(ts_Workbench_compile(nullptr, m), nullptr);
    FAILS(ts_Workbench_compile_v2(nullptr, m, ""), nullptr);
    FAILS(ts_Workbench_setup_device(nullptr), ts_false);
    FAILS(ts_Workbench_setup_runtime(nullptr), ts_false);
    FAILS(ts_Workbench_input_count(nullptr), 0);
    FAILS(ts_Workbench_output_count(nullptr), 0);
    FAILS(ts_Workbench_run_hook(nullptr, names, 1), ts_false);
    FAILS(ts_Workbench_set_operator_param(nullptr, "a", "b", t), ts_false);
    FAILS(ts_Workbench_summary(nullptr), nullptr);
    FAILS(ts_Workbench_set_cpu_mode(nullptr, TS_CPU_BALANCE), ts_false);
    VOID(ts_free_Workbench(nullptr)); vc_assert(!told(), "nothing to free");
    // a workbench without a program
    OK(b, ts_new_Workbench(nullptr));
    FAILS(ts_Workbench_input(b, i, nullptr), ts_false);
    FAILS(ts_Workbench_input(b, i, t), ts_false);
    FAILS(ts_Workbench_input_by_name(b, nullptr, t), ts_false);
    FAILS(ts_Workbench_input_by_name(b, "a", nullptr), ts_false);
    FAILS(ts_Workbench_input_by_name(b, "a", t), ts_false);
    FAILS(ts_Workbench_run(b), ts_false);
    FAILS(ts_Workbench_output(b, i, nullptr), ts_false);
    FAILS(ts_Workbench_output(b, i, u), ts_false);
    FAILS(ts_Workbench_output_by_name(b, nullptr, u), ts_false);
    FAILS(ts_Workbench_output_by_name(b, "a", nullptr), ts_false);
    FAILS(ts_Workbench_output_by_name(b, "a", u), ts_false);
    FAILS(ts_Workbench_bind_filter(b, i, nullptr), ts_false);
    FAILS(ts_Workbench_bind_filter(b, i, x), ts_false);
    FAILS(ts_Workbench_bind_filter_by_name(b, nullptr, x), ts_false);
    FAILS(ts_Workbench_bind_filter_by_name(b, "a", nullptr), ts_false);
    FAILS(ts_Workbench_bind_filter_by_name(b, "a", x), ts_false);
    FAILS(ts_Workbench_setup(b, nullptr), ts_false);
    FAILS(ts_Workbench_compile(b, nullptr), nullptr);
    FAILS(ts_Workbench_compile_v2(b, nullptr, ""), nullptr);
    FAILS(ts_Workbench_compile_v2(b, m, nullptr), nullptr);
    FAILS(ts_Workbench_run_hook(b, nullptr, i), ts_false);
    FAILS(ts_Workbench_run_hook(b, names, 2), ts_false);
    FAILS(ts_Workbench_run_hook(b, names, 1), ts_false);
    FAILS(ts_Workbench_set_operator_param(b, nullptr, "b", t), ts_false);
    FAILS(ts_Workbench_set_operator_param(b, "a", nullptr, t), ts_false);
    FAILS(ts_Workbench_set_operator_param(b, "a", "b", nullptr), ts_false);
    FAILS(ts_Workbench_set_operator_param(b, "a", "b", t), ts_false);
    WORKS(ts_Workbench_input_count(b), 0);
    WORKS(ts_Workbench_output_count(b), 0);
    vc_assert(is(u, TS_INT32, {2}) && counts(u, 0, 2), "a tensor keeps what it holds when no output is there");
    OK(s, ts_Workbench_summary(b)); (void) s;
    VOID(ts_free_Workbench(b)); vc_assert(!told(), "workbenches are freed without an error");
    VOID(ts_free_Module(m)); VOID(ts_free_ImageFilter(x)); free(t); free(u);
    vc_cover("end");
}

// ---- tensors hold what they are made from ----
VC_HARNESS(new_tensor) {
    ts_DTYPE d = TYPES[vc_pick("type", 0, 10)];
    int r = vc_pick("rank", 0, 3); std::vector<int32_t> s; int n = 1;
    for (int k = 0; k < r; ++k) { s.push_back(vc_pick("extent", 0, 2)); n *= s.back(); }
    int w = bytes_of(d);
    const uint8_t *v = (const uint8_t *) vc_array("data", n * w, 1, 0);
    OK(t, ts_new_Tensor(s.data(), r, d, v));
    vc_assert(is(t, d, s), "the type and shape given");
    const uint8_t *p = (const uint8_t *) ts_Tensor_data(t);
    vc_assert(same(p, v, n * w), "the elements given");
    WORKS(ts_Tensor_fields_count(t), 1);
    WORKS(ts_Tensor_packed(t), ts_false);
    OK(c, ts_Tensor_clone(t));
    vc_assert(is(c, d, s), "a clone has the type and shape");
    const uint8_t *q = (const uint8_t *) ts_Tensor_data(c);
    vc_assert(n == 0 || q != p, "a clone has its own memory");
    vc_assert(same(q, v, n * w), "a clone has the elements");
    OK(e, ts_new_Tensor(s.data(), r, d, nullptr));
    vc_assert(is(e, d, s), "the type and shape given, without elements");
    WORKS(ts_Tensor_sync_cpu(t), ts_true);
    vc_assert(is(t, d, s), "the type and shape on the host");
    const uint8_t *h = (const uint8_t *) ts_Tensor_data(t);
    vc_assert(same(h, v, n * w), "the elements on the host");
    free(t); free(c); free(e);
    vc_cover("end");
}
VC_HARNESS(bad_tensor) {
    int32_t many[9] = {1, 1, 1, 1, 1, 1, 1, 1, 1}; int32_t data[4] = {0, 1, 2, 3}; int32_t two = 2;
    for (int n = -3; n < 0; ++n) { FAILS(ts_new_Tensor(many, n, TS_INT32, nullptr), nullptr); FAILS(ts_new_Tensor(many, n, TS_INT32, data), nullptr); FAILS(ts_new_Tensor_in_flow(TS_HOST, many, n, TS_INT32, nullptr), nullptr); }
    FAILS(ts_new_Tensor(many, 8, TS_INT32, nullptr), nullptr);
    FAILS(ts_new_Tensor(many, 9, TS_INT32, data), nullptr);
    int32_t minus[2] = {-1, 1};
    FAILS(ts_new_Tensor(minus, 1, TS_INT32, data), nullptr);
    FAILS(ts_new_Tensor(minus, 2, TS_INT32, nullptr), nullptr);
    ts_DTYPE odd = (ts_DTYPE) vc_i32("odd", 0, 15);
    bool known = false; for (ts_DTYPE d : TYPES) known = known | (d == odd);
    vc_assume(!known);
    FAILS(ts_new_Tensor(&two, 1, odd, data), nullptr);
    ts_Tensor *t = make({2, 2});
    EITHER(c, ts_Tensor_cast(t, odd), nullptr);
    if (c) { vc_assert(is(c, odd, {2, 2}), "a cast has the type asked for and the shape"); free(c); } else vc_cover("rejected");
    FAILS(ts_Tensor_reshape(t, many, -1), nullptr);
    FAILS(ts_Tensor_reshape(t, many, 8), nullptr);
    vc_assert(is(t, TS_INT32, {2, 2}) && counts(t, 0, 4), "what is rejected leaves the tensor");
    free(t);
    vc_cover("end");
}
VC_HARNESS(parts) {
    int n = vc_pick("fields", 1, 3);
    std::vector<ts_Tensor *> f; for (int k = 0; k < n; ++k) f.push_back(make({k + 1, 2}, 10 * k));
    OK(p, ts_Tensor_pack(f.data(), n));
    WORKS(ts_Tensor_fields_count(p), n);
    WORKS(ts_Tensor_packed(p), n > 1 ? ts_true : ts_false);
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX);
    bool in = i >= -n && i < n;
    EITHER(x, ts_Tensor_field(p, i), nullptr);
    vc_assert((x != nullptr) == in, "exactly the fields are there");
    if (x) {
        int at = (int) vc_concretize(i < 0 ? i + n : i);
        vc_assert(is(x, TS_INT32, {at + 1, 2}) && counts(x, 10 * at, 2 * (at + 1)), "each field is the one given");
        free(x);
    }
    vc_assert(is(p, TS_INT32, {1, 2}) && counts(p, 0, 2), "a packed tensor looks like its first field");
    OK(c, ts_Tensor_clone(p));
    WORKS(ts_Tensor_fields_count(c), n);
    for (int k = 0; k < n; ++k) { OK(y, ts_Tensor_field(c, k)); vc_assert(is(y, TS_INT32, {k + 1, 2}) && counts(y, 10 * k, 2 * (k + 1)), "a clone has the fields"); free(y); }
    for (auto t : f) free(t);
    free(p); free(c);
    vc_cover("end");
}
VC_HARNESS(slices) {
    ts_Tensor *t = make({3, 2}, 5);
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX), j = vc_i32("j", INT32_MIN, INT32_MAX);
    EITHER(x, ts_Tensor_slice(t, i), nullptr);
    vc_assert((x != nullptr) == (i >= 0 && i < 3), "exactly the rows are there");
    if (x) { vc_assert(is(x, TS_INT32, {2}), "a row has the shape of a row"); const int32_t *p = (const int32_t *) ts_Tensor_data(x); vc_assert(p[0] == 5 + 2 * i && p[1] == 6 + 2 * i, "a row has its elements"); free(x); }
    EITHER(y, ts_Tensor_slice_v2(t, i, j), nullptr);
    vc_assert((y != nullptr) == (i >= 0 && i < j && j <= 3), "exactly the ranges of rows are there");
    if (y) {
        int b = (int) vc_concretize(i), e = (int) vc_concretize(j);
        vc_assert(is(y, TS_INT32, {e - b, 2}) && counts(y, 5 + 2 * b, 2 * (e - b)), "the rows are those asked for");
        free(y);
    }
    ts_Tensor *s = make({});
    FAILS(ts_Tensor_slice(s, i), nullptr);
    FAILS(ts_Tensor_slice_v2(s, i, j), nullptr);
    free(s);
    vc_assert(is(t, TS_INT32, {3, 2}) && counts(t, 5, 6), "the tensor stays");
    free(t);
    vc_cover("end");
}
VC_HARNESS(reshapes) {
    ts_Tensor *t = make({2, 3}, 1);
    int r = vc_pick("rank", 0, 3); std::vector<int32_t> s; I prod = 1; int free_ = 0;
    for (int k = 0; k < r; ++k) { s.push_back(vc_pick("extent", -1, 6)); if (s.back() < 0) ++free_; else prod *= s.back(); }
    bool can = free_ == 0 ? prod == 6 : free_ == 1 && prod > 0 && 6 % prod == 0;
    EITHER(x, ts_Tensor_reshape(t, s.data(), r), nullptr);
    vc_assert((x != nullptr) == can, "exactly the shapes with as many elements are accepted");
    if (x) {
        for (auto &e : s) if (e < 0) e = int(6 / prod);
        vc_assert(is(x, TS_INT32, s) && counts(x, 1, 6), "the same elements in the shape asked for");
        free(x);
    }
    vc_assert(is(t, TS_INT32, {2, 3}) && counts(t, 1, 6), "the tensor stays");
    free(t);
    vc_cover("end");
}
VC_HARNESS(casts) {
    ts_DTYPE from = TYPES[vc_pick("from", 0, 9)], to = TYPES[vc_pick("to", 0, 9)];
    ts_Tensor *t = make({3}, 1);
    OK(a, ts_Tensor_cast(t, from)); OK(b, ts_Tensor_cast(a, to)); OK(c, ts_Tensor_cast(b, TS_INT32));
    vc_assert(is(a, from, {3}) && is(b, to, {3}) && is(c, TS_INT32, {3}), "a cast has the type asked for and the shape");
    vc_assert(counts(c, 1, 3), "a cast has the elements");
    free(t); free(a); free(b); free(c);
    vc_cover("end");
}

// ---- image filters hold what they are told ----
namespace {
ts_ImageFilter *the;
const Node last() { return (*the)->graph().nodes().back(); }
std::vector<int32_t> ints(const Tensor &t) { vc_assert(t.dtype() == INT32, "an integer parameter"); const int32_t *p = t.data<int32_t>(); return std::vector<int32_t>(p, p + t.count()); }
bool has(const std::string &op, const std::string &key, const std::vector<int32_t> &v) { Node n = last(); return n->op() == op && n->has(key) && ints(n->get(key)) == v; }
bool holds(const Tensor &t, const float *f, int n) {
    if (t.dtype() != FLOAT32 || t.count() != n) return false;
    const uint32_t *p = (const uint32_t *) t.data(), *q = (const uint32_t *) f; bool same = true;
    for (int k = 0; k < n; ++k) same = same & (p[k] == q[k]);
    return same;
}
Node data_of(const std::string &op) { Node n = last(); vc_assert(n->op() == op && n.inputs().size() == 2 && n.input(1)->op() == Bubble::Const, "the operator takes the data given"); return n.input(1); }
}
VC_HARNESS(filters) {
    OK(x, ts_new_ImageFilter(nullptr)); the = x;
    int32_t w = vc_i32("w", INT32_MIN, INT32_MAX), h = vc_i32("h", INT32_MIN, INT32_MAX); float f[3] = {0.5f, 2.f, 4.f}; int32_t s[3] = {2, 0, 1};
    uint32_t bits = 0x3f000001u + (uint32_t) vc_i32("f", 0, 0x7fffff); float g; memcpy(&g, &bits, 4);
    WORKS(ts_ImageFilter_to_float(x), ts_true); vc_assert(last()->op() == name::layer::to_float(), "to_float");
    WORKS(ts_ImageFilter_scale(x, g), ts_true); vc_assert(holds(data_of(name::layer::mul())->get(name::value), &g, 1), "scale multiplies by the number given");
    WORKS(ts_ImageFilter_sub_mean(x, f, 3), ts_true); { Tensor v = data_of(name::layer::sub())->get(name::value); vc_assert(holds(v, f, 3) && v.dims() == 4 && v.size(3) == 3, "sub_mean subtracts the numbers given for each channel"); }
    WORKS(ts_ImageFilter_div_std(x, f, 3), ts_true); { float r[3] = {2.f, 0.5f, 0.25f}; Tensor v = data_of(name::layer::mul())->get(name::value); vc_assert(holds(v, r, 3) && v.dims() == 4 && v.size(3) == 3, "div_std divides by the numbers given for each channel"); }
    WORKS(ts_ImageFilter_resize(x, w, h), ts_true); vc_assert(ints(data_of(name::layer::resize2d())->get(name::value)) == (std::vector<int32_t>{-1, h, w, -1}) && ints(last()->get(name::type))[0] == 0, "resize has the width and height given");
    WORKS(ts_ImageFilter_resize_v2(x, w, h, TS_RESIZE_NEAREST), ts_true); vc_assert(ints(data_of(name::layer::resize2d())->get(name::value)) == (std::vector<int32_t>{-1, h, w, -1}) && ints(last()->get(name::type))[0] == 2, "resize has the method given");
    WORKS(ts_ImageFilter_resize_scalar(x, w), ts_true); vc_assert(has(name::layer::nhwc_scale_resize2d(), name::size, {w}) && ints(last()->get(name::type))[0] == 0, "resize has the side given");
    WORKS(ts_ImageFilter_resize_scalar_v2(x, w, TS_RESIZE_BICUBIC), ts_true); vc_assert(has(name::layer::nhwc_scale_resize2d(), name::size, {w}) && ints(last()->get(name::type))[0] == 1, "resize has the method given");
    WORKS(ts_ImageFilter_center_crop(x, w, h), ts_true); vc_assert(has(name::layer::nhwc_center_crop2d(), name::size, {w, h}), "center_crop has the width and height given");
    WORKS(ts_ImageFilter_channel_swap(x, s, 3), ts_true); vc_assert(has(name::layer::dimshuffle(), name::shuffle, {2, 0, 1}) && has(name::layer::dimshuffle(), name::dim, {3}), "channel_swap has the order given");
    WORKS(ts_ImageFilter_to_chw(x), ts_true); vc_assert(has(name::layer::transpose(), name::permute, {0, 3, 1, 2}), "to_chw moves the channels");
    WORKS(ts_ImageFilter_prewhiten(x), ts_true); vc_assert(last()->op() == name::layer::prewhiten(), "prewhiten");
    WORKS(ts_ImageFilter_letterbox(x, w, h, g), ts_true); vc_assert(has(name::layer::nhwc_letterbox(), name::size, {w, h}) && ints(last()->get(name::type))[0] == 0 && holds(last()->get(name::outer_value), &g, 1), "letterbox has the width, height and value given");
    WORKS(ts_ImageFilter_letterbox_v2(x, w, h, g, TS_RESIZE_NEAREST), ts_true); vc_assert(has(name::layer::nhwc_letterbox(), name::size, {w, h}) && ints(last()->get(name::type))[0] == 2 && holds(last()->get(name::outer_value), &g, 1), "letterbox has the method given");
    WORKS(ts_ImageFilter_divided(x, w, h, g), ts_true); vc_assert(has(name::layer::divided(), name::size, {1, h, w, 1}) && holds(last()->get(name::padding_value), &g, 1), "divided has the width, height and value given");
    WORKS(ts_ImageFilter_force_color(x), ts_true); vc_assert(last()->op() == name::layer::force_color(), "force_color");
    WORKS(ts_ImageFilter_force_gray(x), ts_true); vc_assert(last()->op() == name::layer::force_gray(), "force_gray");
    WORKS(ts_ImageFilter_force_gray_v2(x, f, 3), ts_true); vc_assert(last()->op() == name::layer::force_gray() && holds(last()->get(name::scale), f, 3), "force_gray has the weights given");
    WORKS(ts_ImageFilter_norm_image(x, g), ts_true); vc_assert(last()->op() == name::layer::norm_image() && holds(last()->get(name::epsilon), &g, 1), "norm_image has the number given");
    WORKS(ts_ImageFilter_clear(x), ts_true); vc_assert((*x)->graph().nodes().size() == 1, "nothing is left of a cleared filter");
    WORKS(ts_ImageFilter_compile(x), ts_true);
    ts_Tensor *t = make({2, 2}, 1); OK(o, ts_ImageFilter_run(x, t));
    vc_assert(is(o, TS_INT32, {2, 2}) && counts(o, 1, 4), "a cleared filter changes nothing");
    free(t); free(o); VOID(ts_free_ImageFilter(x));
    vc_cover("end");
}

// ---- files ----
VC_HARNESS(files) {
    int n = vc_pick("fields", 1, 2);
    std::vector<ts_Tensor *> f; for (int k = 0; k < n; ++k) f.push_back(make({k + 1, 2}, 10 * k));
    OK(p, ts_Tensor_pack(f.data(), n));
    WORKS(ts_Tensor_save("tensor.bin", p), ts_true);
    FAILS(ts_Tensor_save("no such directory/tensor.bin", p), ts_false);
    OK(q, ts_Tensor_load("tensor.bin"));
    WORKS(ts_Tensor_fields_count(q), n);
    for (int k = 0; k < n; ++k) { OK(y, ts_Tensor_field(q, k)); vc_assert(is(y, TS_INT32, {k + 1, 2}) && counts(y, 10 * k, 2 * (k + 1)), "the fields saved are those loaded"); free(y); }
    char buf[256]; I len = vc_file_read("tensor.bin", buf, 256);
    I cut = vc_pick("cut", 0, 80); vc_assume(cut < len);
    vc_file_write("short.bin", buf, cut);
    FAILS(ts_Tensor_load("short.bin"), nullptr);
    for (auto t : f) free(t);
    free(p); free(q);
    vc_cover("end");
}

// ---- a workbench with a network: out = cast(a) and b ----
namespace {
struct Pass : public Operator {
    int run(Stack &s) override { s.push(s[0]); return 1; }
    int infer(Stack &s, std::vector<Tensor::Prototype> &out) override { out.resize(1); out[0] = s[0].proto(); return 1; }
};
Operator::shared make_pass() { return std::make_shared<Pass>(); }
ts_Module *network() {
    OperatorCreator::Register(CPU, "pass", make_pass); OperatorCreator::Register(CPU, name::layer::copy(), make_pass);
    Graph g;
    Node a = g.make(Bubble::Parameter, "a"), b = g.make(Bubble::Parameter, "b"), p = g.make("pass", "p"), q = g.make("pass", "q");
    Node::Link(p, {a}); Node::Link(q, {b});
    Module::shared m = Module::Load(g, {p, q});
    m->sort_inputs(std::vector<Node>{a, b});
    return new ts_Module(m);
}
}
VC_HARNESS(workbench) {
    ts_Module *m = network();
    OK(b, ts_Workbench_Load(m, &CPU0));
    WORKS(ts_Workbench_input_count(b), 2);
    WORKS(ts_Workbench_output_count(b), 2);
    ts_Tensor *t = make({2}, 3), *u = make({3}, 7), *o = make({1}, 50);
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX);
    EITHER(x, ts_Workbench_input(b, i, t), ts_false);
    vc_assert((x == ts_true) == (i == 0 || i == 1), "exactly the inputs are there");
    int where = i == 0 ? 0 : i == 1 ? 1 : -1;
    if (where >= 0) {
        WORKS(ts_Workbench_input_by_name(b, where ? "a" : "b", u), ts_true);
        FAILS(ts_Workbench_input_by_name(b, "p", u), ts_false);
        WORKS(ts_Workbench_run(b), ts_true);
        int32_t j = vc_i32("j", INT32_MIN, INT32_MAX);
        EITHER(y, ts_Workbench_output(b, j, o), ts_false);
        vc_assert((y == ts_true) == (j == 0 || j == 1), "exactly the outputs are there");
        if (y) vc_assert(j == where ? is(o, TS_INT32, {2}) && counts(o, 3, 2) : is(o, TS_INT32, {3}) && counts(o, 7, 3), "each output is the one computed");
        else vc_assert(is(o, TS_INT32, {1}) && counts(o, 50, 1), "a tensor keeps what it holds when no output is there");
        WORKS(ts_Workbench_output_by_name(b, "p", o), ts_true);
        vc_assert(where == 0 ? is(o, TS_INT32, {2}) && counts(o, 3, 2) : is(o, TS_INT32, {3}) && counts(o, 7, 3), "an output by its name");
        FAILS(ts_Workbench_output_by_name(b, "a", o), ts_false);
    }
    free(t); free(u); free(o);
    VOID(ts_free_Workbench(b)); vc_assert(!told(), "a workbench is freed without an error");
    VOID(ts_free_Module(m)); vc_assert(!told(), "a module is freed without an error");
    vc_cover("end");
}
VC_HARNESS(bench_more) {
    ts_Module *m = network(); const char *names[1] = {"q"}, *none[1] = {"zzz"};
    OK(b, ts_new_Workbench(&CPU0));
    OK(p, ts_Workbench_compile(b, m));
    WORKS(ts_Program_input_count(p), 2);
    WORKS(ts_Program_output_count(p), 2);
    OK(p2, ts_Program_clone(p));
    WORKS(ts_Program_input_count(p2), 2);
    ts_Tensor *t = make({2}, 3), *u = make({3}, 7), *o = make({1}, 50);
    FAILS(ts_Program_set_operator_param(p, nullptr, "x", t), ts_false);
    FAILS(ts_Program_set_operator_param(p, "p", nullptr, t), ts_false);
    FAILS(ts_Program_set_operator_param(p, "p", "x", nullptr), ts_false);
    WORKS(ts_Workbench_setup(b, p), ts_true);
    WORKS(ts_Workbench_input(b, 0, t), ts_true);
    WORKS(ts_Workbench_input(b, 1, u), ts_true);
    WORKS(ts_Workbench_run_hook(b, names, 1), ts_true);
    FAILS(ts_Workbench_run_hook(b, names, -1), ts_false);
    EITHER(h, ts_Workbench_run_hook(b, none, 1), ts_false); (void) h;
    WORKS(ts_Workbench_run(b), ts_true);
    WORKS(ts_Workbench_output(b, 1, o), ts_true);
    vc_assert(is(o, TS_INT32, {3}) && counts(o, 7, 3), "the output of the program");
    OK(c, ts_Workbench_clone(b));
    WORKS(ts_Workbench_input_count(c), 2);
    WORKS(ts_Workbench_output_count(c), 2);
    WORKS(ts_Workbench_input(c, 0, u), ts_true);
    WORKS(ts_Workbench_input(c, 1, t), ts_true);
    WORKS(ts_Workbench_run(c), ts_true);
    WORKS(ts_Workbench_output(c, 0, o), ts_true);
    vc_assert(is(o, TS_INT32, {3}) && counts(o, 7, 3), "the output of the clone");
    WORKS(ts_Workbench_set_computing_thread_number(b, 2), ts_true);
    OK(s, ts_Workbench_summary(b)); (void) s;
    // a filter without operators
    OK(x, ts_new_ImageFilter(&CPU0));
    EITHER(bf, ts_Workbench_bind_filter(b, 0, x), ts_false);
    if (bf) { WORKS(ts_Workbench_run(b), ts_true); WORKS(ts_Workbench_output(b, 0, o), ts_true); vc_assert(is(o, TS_INT32, {2}) && counts(o, 3, 2), "a filter without operators changes nothing"); }
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX); vc_assume(i != 0 && i != 1);
    FAILS(ts_Workbench_bind_filter(b, i, x), ts_false);
    FAILS(ts_Workbench_bind_filter_by_name(b, "q", x), ts_false);
    VOID(ts_free_ImageFilter(x));
    // not run: inputs are missing
    OK(e, ts_Workbench_Load_v2(m, &CPU0, ""));
    EITHER(er, ts_Workbench_run(e), ts_false); (void) er;
    free(t); free(u); free(o);
    VOID(ts_free_Program(p)); VOID(ts_free_Program(p2)); VOID(ts_free_Workbench(b)); VOID(ts_free_Workbench(c)); VOID(ts_free_Workbench(e)); VOID(ts_free_Module(m));
    vc_cover("end");
}
VC_HARNESS(modules) {
    ts_Module *m = network(), *n = network();
    int32_t i = vc_i32("i", INT32_MIN, INT32_MAX), j = vc_i32("j", INT32_MIN, INT32_MAX);
    EITHER(f, ts_Module_Fusion(m, i, n, j), nullptr);
    vc_assert((f != nullptr) == (i >= 0 && i < 2 && j >= 0 && j < 2), "exactly the slots are there");
    if (f) {
        i = (int) vc_concretize(i); j = (int) vc_concretize(j);
        OK(b, ts_Workbench_Load(f, &CPU0));
        WORKS(ts_Workbench_input_count(b), 3);
        WORKS(ts_Workbench_output_count(b), 3);
        ts_Tensor *x[3] = {make({2}, 10), make({2}, 20), make({2}, 30)}, *o = make({1});
        for (int k = 0; k < 3; ++k) WORKS(ts_Workbench_input(b, k, x[k]), ts_true);
        WORKS(ts_Workbench_run(b), ts_true);
        int want[3] = {1 - i, j == 0 ? i : 2, j == 1 ? i : 2};
        for (int k = 0; k < 3; ++k) { WORKS(ts_Workbench_output(b, k, o), ts_true); vc_assert(is(o, TS_INT32, {2}) && counts(o, 10 + 10 * want[k], 2), "the output asked for is the input asked for"); }
        for (auto t : x) free(t);
        free(o); VOID(ts_free_Workbench(b)); VOID(ts_free_Module(f));
    }
    VOID(ts_free_Module(n));
    OK(t, ts_Module_translate(m, &CPU0, ""));
    FAILS(ts_Program_Compile(t, &CPU0), nullptr);
    OK(w, ts_new_Workbench(&CPU0));
    WORKS(ts_Workbench_setup_context(w), ts_true);
    OK(p, ts_Program_Compile_v2(t, &CPU0, ""));
    WORKS(ts_Program_input_count(p), 2);
    VOID(ts_free_Workbench(w));
    FAILS(ts_Program_Compile(t, &CPU0), nullptr);
    VOID(ts_free_Program(p)); VOID(ts_free_Module(t)); VOID(ts_free_Module(m));
    vc_cover("end");
}
VC_HARNESS(copies) {
    OK(b, ts_new_Workbench(&CPU0));
    WORKS(ts_Workbench_setup_context(b), ts_true);
    ts_Tensor *x = make({4}, 1), *y = make({4}, 10);
    int64_t at = vc_i64("at", INT64_MIN, INT64_MAX), from = vc_i64("from", INT64_MIN, INT64_MAX), size = vc_i64("size", INT64_MIN, INT64_MAX);
    bool in = at >= 0 && from >= 0 && size >= 0 && at <= 16 && from <= 16 && size <= 16 && at + size <= 16 && from + size <= 16;
    int64_t CALL(r, ts_intime_memcpy(x, nullptr, at, y, nullptr, from, size));
    vc_assert(in ? r == size && !told() : r == 0 && told(), "copies inside both tensors are done, others are rejected");
    const uint8_t *p = (const uint8_t *) ts_Tensor_data(x); int32_t was[4] = {1, 2, 3, 4}, of[4] = {10, 11, 12, 13};
    if (in) { at = vc_concretize(at); from = vc_concretize(from); size = vc_concretize(size); } else size = 0, at = 0;
    for (int k = 0; k < 16; ++k) vc_assert(p[k] == (k >= at && k < at + size ? ((uint8_t *) of)[k - at + from] : ((uint8_t *) was)[k]), "the bytes asked for are copied and no others");
    vc_assert(counts(y, 10, 4), "the source stays");
    free(x); free(y); VOID(ts_free_Workbench(b));
    vc_cover("end");
}
VC_HARNESS(flow) {
    OK(b, ts_new_Workbench(&CPU0));
    WORKS(ts_Workbench_setup_context(b), ts_true);
    ts_DTYPE d = TYPES[vc_pick("type", 0, 10)]; int w = bytes_of(d); int32_t s[2] = {vc_pick("rows", 0, 2), 2}; int n = s[0] * 2;
    const uint8_t *v = (const uint8_t *) vc_array("data", n * w, 1, 0);
    int32_t where = vc_i32("where", 0, 1);
    EITHER(t, ts_new_Tensor_in_flow((ts_InFlow) where, s, 2, d, v), nullptr);
    vc_assert((t != nullptr) == (where == 0 || where == 1), "memory is on the host or on the device");
    if (t) {
        vc_assert(is(t, d, {s[0], 2}), "the type and shape given");
        const uint8_t *p = (const uint8_t *) ts_Tensor_data(t);
        vc_assert(same(p, v, n * w), "the elements given");
        EITHER(u, ts_Tensor_view_in_flow(t, (ts_InFlow) where), nullptr);
        vc_assert(u != nullptr && is(u, d, {s[0], 2}), "a view has the type and shape");
        const uint8_t *q = (const uint8_t *) ts_Tensor_data(u);
        vc_assert(same(q, v, n * w), "a view has the elements");
        free(u); free(t);
    }
    VOID(ts_free_Workbench(b));
    vc_cover("end");
}

// ---- operators given as C functions ----
namespace {
struct Plug { bool make, init, run; int news, frees, inits, runs; std::vector<int32_t> description; int32_t param; ts_Tensor *other; };
Plug *plug;
void *plug_new() { ++plug->news; return plug->make ? (void *) plug : nullptr; }
void plug_free(const void *o) { vc_assert(o == plug, "the object made is the one freed"); ++plug->frees; }
ts_bool plug_init(void *o, const ts_OperatorParams *d, ts_OperatorContext *c) {
    vc_assert(o == plug && c != nullptr, "the object made is the one initialised"); ++plug->inits;
    FAILS(ts_OperatorParams_get(nullptr, "k"), nullptr);
    FAILS(ts_OperatorParams_get(d, nullptr), nullptr);
    EITHER(k, ts_OperatorParams_get(d, "k"), nullptr);
    vc_assert(k != nullptr && is(k, TS_INT32, {1}) && counts(k, plug->param, 1), "a parameter has the value set");
    free(k);
    ts_Tensor *CALL(z, ts_OperatorParams_get(d, "not there"));
    vc_assert(z == nullptr, "a parameter that is not set");
    return plug->init;
}
ts_Tensor *plug_run(void *o, int32_t n, ts_Tensor **x, ts_OperatorContext *c) {
    vc_assert(o == plug && n == 1 && c != nullptr && is(x[0], TS_INT32, {2}) && counts(x[0], 3, 2), "the operator is given its input"); ++plug->runs;
    if (!plug->run) { ts_set_error_message("not today"); return nullptr; }
    int32_t s[1] = {3}, v[3] = {8, 9, 10};
    return ts_new_Tensor(s, 1, TS_INT32, v);
}
ts_Tensor *plug_infer(void *o, int32_t n, ts_Tensor **x, ts_OperatorContext *) {
    vc_assert(o == plug && n == 1 && is(x[0], TS_INT32, {2}), "the operator is given its input");
    int32_t s[1] = {(int32_t) plug->description.size()}; int32_t none = 0;
    return ts_new_Tensor(s, 1, TS_INT32, s[0] ? plug->description.data() : &none);
}
}
VC_HARNESS(plugins) {
    Plug it = {true, true, true, 0, 0, 0, 0, {}, 41, nullptr}; plug = &it;
    VOID(ts_Operator_RegisterEx(nullptr, "plug", plug_new, plug_free, plug_init, plug_infer, plug_run)); vc_assert(told(), "a message: no device");
    VOID(ts_Operator_RegisterEx("cpu", nullptr, plug_new, plug_free, plug_init, plug_infer, plug_run)); vc_assert(told(), "a message: no name");
    VOID(ts_Operator_RegisterEx("cpu", "plug", nullptr, plug_free, plug_init, plug_infer, plug_run)); vc_assert(told(), "a message: no new");
    VOID(ts_Operator_RegisterEx("cpu", "plug", plug_new, nullptr, plug_init, plug_infer, plug_run)); vc_assert(told(), "a message: no free");
    VOID(ts_Operator_RegisterEx("cpu", "plug", plug_new, plug_free, nullptr, plug_infer, plug_run)); vc_assert(told(), "a message: no init");
    VOID(ts_Operator_RegisterEx("cpu", "plug", plug_new, plug_free, plug_init, plug_infer, nullptr)); vc_assert(told(), "a message: no run");
    VOID(ts_Operator_Register(nullptr, "plug", plug_new, plug_free, nullptr, plug_infer, plug_run)); vc_assert(told(), "a message: nothing given");
    VOID(ts_Operator_RegisterEx("cpu", "plug", plug_new, plug_free, plug_init, plug_infer, plug_run)); vc_assert(!told(), "an operator is registered");
    Graph g; Node a = g.make(Bubble::Parameter, "a"), p = g.make("plug", "p");
    int32_t one[1] = {1}; (void) one;
    p->set("k", tensor::build(INT32, Shape({1}), &it.param)); Node::Link(p, {a});
    ts_Module *m = new ts_Module(Module::Load(g, {p}));
    it.make = vc_bool("make"); it.init = vc_bool("init"); it.run = vc_bool("run");
    EITHER(b, ts_Workbench_Load(m, &CPU0), nullptr);
    vc_assert((b != nullptr) == (it.make && it.init), "the workbench is made when its operator is");
    if (b) {
        ts_Tensor *t = make({2}, 3), *o = make({1}, 50);
        WORKS(ts_Workbench_input(b, 0, t), ts_true);
        EITHER(r, ts_Workbench_run(b), ts_false);
        vc_assert((r == ts_true) == it.run && it.runs == 1, "it runs when its operator does");
        if (r) { WORKS(ts_Workbench_output(b, 0, o), ts_true); vc_assert(is(o, TS_INT32, {3}) && counts(o, 8, 3), "the output is what the operator made"); }
        free(t); free(o); VOID(ts_free_Workbench(b));
    }
    VOID(ts_free_Module(m));
    vc_assert(it.frees == (it.make ? it.news : 0), "every object made is freed");
    vc_cover("end");
}
VC_HARNESS(descriptions) {
    Plug it = {true, true, true, 0, 0, 0, 0, {}, 41, nullptr}; plug = &it;
    VOID(ts_Operator_RegisterEx("cpu", "plug", plug_new, plug_free, plug_init, plug_infer, plug_run));
    OK(b, ts_new_Workbench(&CPU0));
    Bubble u("plug", "p"); u.set("k", tensor::build(INT32, Shape({1}), &it.param));
    Operator::shared op = (*b)->offline_create(u, false);
    int n = vc_pick("length", 0, 7);
    for (int k = 0; k < n; ++k) it.description.push_back(vc_i32("word", INT32_MIN, INT32_MAX));
    auto &w = it.description;
    // fields_count, then type, dims, extents for each
    bool well = n > 0 && w[0] > 0 && w[0] <= n; int at = 1; std::vector<Tensor::Prototype> want;
    for (int f = 0; well && f < w[0]; ++f) {
        if (n - at < 2 || w[at] < 0 || w[at] > 32 || w[at + 1] < 0 || w[at + 1] > n - at - 2) { well = false; break; }
        int d = (int) vc_concretize(w[at + 1]); std::vector<int> s; for (int k = 0; k < d; ++k) s.push_back(w[at + 2 + k]);
        want.push_back(Tensor::Prototype(DTYPE(w[at]), Shape(s.begin(), s.end()))); at += 2 + d;
    }
    std::vector<Tensor::Prototype> got; bool done = true; int32_t v[2] = {3, 4};
    try { (*b)->offline_infer(op, {tensor::build(INT32, Shape({2}), v)}, got); } catch (const std::exception &) { done = false; }
    vc_assert(done == well, "exactly the well formed descriptions are read");
    if (done) {
        vc_assert(got.size() == want.size(), "as many fields as described");
        for (size_t f = 0; f < got.size() && f < want.size(); ++f) {
            vc_assert(got[f].dtype() == want[f].dtype() && got[f].dims() == want[f].dims(), "each field has the type described");
            for (size_t k = 0; k < got[f].dims(); ++k) vc_assert(got[f].size(k) == want[f].size(k), "each field has the shape described");
        }
    }
    op.reset(); VOID(ts_free_Workbench(b));
    vc_cover("end");
}
