// Running the real operators under contract.
#ifndef VERIF_OPS_H
#define VERIF_OPS_H
#include "vc.h"
#include <bits/stdc++.h>
#define private public
#define protected public
#include "runtime/operator.h"
#include "runtime/stack.h"
#include "runtime/runtime.h"
#include "core/tensor_builder.h"
#include "core/device_context.h"
#include "global/operator_factory.h"
#include "backend/name.h"
#include "utils/ctxmgr_lite.h"
#include "tens.h"
using namespace ts;
typedef int64_t I;
namespace vt {
// an input: a tensor over memory of the harness, arbitrary bytes, with a copy of them
struct In {
    Tensor t; const uint8_t *mem; std::shared_ptr<uint64_t> was; Shape s; DTYPE d; int n = 0;
    template <typename T> const T *old() const { return (const T *) was.get(); }
    template <typename T> void keep() { was.reset(new uint64_t[n + 1], std::default_delete<uint64_t[]>()); T *p = (T *) was.get(); const T *q = (const T *) mem; for (int i = 0; i < n; ++i) p[i] = q[i]; }
    template <typename T> bool kept() const { bool same = true; const T *p = old<T>(), *q = (const T *) mem; for (int i = 0; i < n; ++i) same = same & (p[i] == q[i]); return same; }
    void keep() { switch (type_bytes(d)) { case 1: keep<uint8_t>(); break; case 2: keep<uint16_t>(); break; case 4: keep<uint32_t>(); break; default: keep<uint64_t>(); } }
    bool kept() const { switch (type_bytes(d)) { case 1: return kept<uint8_t>(); case 2: return kept<uint16_t>(); case 4: return kept<uint32_t>(); default: return kept<uint64_t>(); } }
    // element i as bits
    uint64_t bits(int i) const { switch (type_bytes(d)) { case 1: return old<uint8_t>()[i]; case 2: return old<uint16_t>()[i]; case 4: return old<uint32_t>()[i]; default: return old<uint64_t>()[i]; } }
};
inline int elems(const Shape &s) { int n = 1; for (int e : s) n *= e; return n; }
inline In any(const char *name, DTYPE d, const Shape &s) {
    In x; int es = type_bytes(d), n = elems(s); x.s = s; x.d = d;
    bool fl = d == FLOAT32 || d == FLOAT64;
    x.mem = (const uint8_t *) vc_cells(name, n, es, fl);
    x.n = n; x.keep();
    x.t = over((void *) x.mem, size_t(n) * es, d, s);
    return x;
}
template <typename T> inline In given(DTYPE d, const Shape &s, const std::vector<T> &v) {
    In x; int n = elems(s); x.s = s; x.d = d; T *p = new T[n + 1]; for (int i = 0; i < n; ++i) p[i] = v[i];
    x.mem = (const uint8_t *) p; x.n = n; x.keep();
    x.t = over(p, n * sizeof(T), d, s);
    return x;
}
inline In ints(const std::vector<int32_t> &v) { return given<int32_t>(INT32, {(int) v.size()}, v); }
inline bool operator_same(const Shape &a, const Shape &b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (a[k] != b[k]) return false; return true; }
inline Operator::shared create(const std::string &name, const std::vector<std::pair<std::string, Tensor>> &params = {}) {
    Operator::shared o = OperatorCreator::Create(CPU, name, false);
    vc_assert(o != nullptr, "the operator exists");
    o->set("#op", tensor::from(name)); o->set("#name", tensor::from(std::string("it")));
    for (auto &p : params) o->set(p.first, p.second);
    o->init();
    return o;
}
struct Bench {
    DeviceContext dc; ctx::bind<DeviceContext> use; Stack stack;
    std::vector<Tensor> out;
    Bench() : dc(ComputingDevice(CPU, 0)), use(dc), stack(MemoryDevice(CPU), DynamicSyncMemoryController::Make(MemoryDevice(CPU), false)) {}
    // false when the library raises an error; otherwise the results are in out
    bool run(const Operator::shared &op, const std::vector<In> &in) {
        std::vector<Tensor::Prototype> proto; bool predicted = true, done = true; int n = 0;
        out.clear();
        for (auto &x : in) stack.push(x.t);
        try { n = InferOperator(op, stack, (int) in.size(), proto); } catch (const std::exception &) { predicted = false; }
        stack.clear();
        for (auto &x : in) stack.push(x.t);
        try { n = RunOperator(op, stack, (int) in.size()); } catch (const std::exception &) { done = false; }
        if (done) {
            for (int k = 0; k < n; ++k) out.push_back(stack[k]);
#ifdef CHECK_PREDICTION
            vc_assert(predicted, "a shape is predicted for what runs");
            vc_assert((int) proto.size() == n && (int) stack.size() == n, "as many results as predicted");
            if (predicted && (int) proto.size() == n) for (int k = 0; k < n; ++k) {
                vc_assert(proto[k].dtype() == out[k].dtype(), "the predicted element type is that of the result");
                vc_assert(operator_same(proto[k].sizes(), out[k].sizes()), "the predicted shape is that of the result");
            }
#endif
        }
        (void) predicted;
        stack.clear();
        for (auto &x : in) {
            vc_assert(operator_same(x.t.sizes(), x.s) && x.t.dtype() == x.d, "the inputs keep their shape and type");
            vc_assert(x.kept(), "the inputs keep their elements");
        }
        return done;
    }
    // element k of result o, as bits
    uint64_t bits(int o, int k) const {
        const void *p = out[o].data();
        switch (type_bytes(out[o].dtype())) { case 1: return ((const uint8_t *) p)[k]; case 2: return ((const uint16_t *) p)[k]; case 4: return ((const uint32_t *) p)[k]; default: return ((const uint64_t *) p)[k]; }
    }
};
}
#endif
