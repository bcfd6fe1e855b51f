// C08: the operand stack and its frames
#include "vc.h"
#include <cstdlib>
#include <deque>
#include <stack>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <functional>
#include <bits/stdc++.h>
#define private public
#include "runtime/stack.h"
#include "runtime/workbench.h"
#undef private
#include "runtime/instruction.h"
#include "runtime/instruction/stack_instruction.h"
#include "runtime/instruction/tensor_instruction.h"
#include "core/controller.h"
#include "tens.h"
using namespace ts;
typedef int64_t I;

namespace {
int32_t g_cell[64];
// a value on the stack: an INT32 scalar whose identity is its address
Tensor value(int id) { return vt::over(&g_cell[id], 4, INT32, {1}); }
bool is_value(const Tensor &t, int id) { return t.data<int32_t>() == &g_cell[id]; }

// body raises an error of the library or of the standard library
template <typename F> bool raises(const F &f) {
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}

// the specification: a sequence of values with nested frames
struct Model {
    std::vector<int> v; int base = 0; std::vector<int> bases;
    I size() const { return (I) v.size() - base; }
    // frame position of an index, -1 when it is outside (limit = number of legal positions)
    I pos(I i, I limit) const { I p = i >= 0 ? i : size() + i; return p < 0 || p >= limit ? -1 : p; }
};
struct World {
    Stack s; Model m; int fresh = 0;
    // every stack of at most nmax values with at most two suspended frames
    World(int nmax, int fmax = 2) : s(MemoryDevice(CPU), SyncMemoryController::shared()) {
        for (int k = 0; k < 64; ++k) g_cell[k] = 100 + k;
        int frames = vc_pick("frames", 0, fmax);
        int n = vc_pick("values", 0, nmax), lo = 0;
        int at[3];
        for (int f = 0; f < frames; ++f) { at[f] = vc_pick("base", lo, n); lo = at[f]; }
        for (int k = 0; k < n; ++k) { s.push(value(fresh)); m.v.push_back(fresh++); }
        for (int f = 0; f < frames; ++f) { m.bases.push_back(m.base); s.m_base_stack.push(s.m_base); s.m_base = m.base = at[f]; }
    }
    void check(const char *) {
        bool same = s.m_stack.size() == m.v.size();
        vc_assert(same, "the number of values is as specified");
        if (same) for (size_t k = 0; k < m.v.size(); ++k)
            vc_assert(is_value(s.m_stack[k], m.v[k]), "every value, of this frame and of the callers, is as specified");
        vc_assert((I) s.base() == m.base, "base of the frame");
        vc_assert((I) s.size() == m.size(), "size of the frame");
        vc_assert(s.m_base_stack.size() == m.bases.size(), "depth of the frames");
    }
    void unwind() {
        for (size_t k = m.bases.size(); k > 0; --k) {
            s.pop_base(); m.base = m.bases[k - 1]; m.bases.pop_back();
            vc_assert((I) s.base() == m.base && (I) s.size() == m.size(), "returning restores the caller frame");
        }
    }
};
}

// reading: index, operator[], top
VC_HARNESS(read) {
    World w(4);
    int i = vc_i32("i", INT32_MIN, INT32_MAX);
    I p = w.m.pos(i, w.m.size());
    const Stack &c = w.s;
    int how = vc_pick("how", 0, 6);
    const Tensor *got = nullptr;
    if (how >= 5) p = w.m.pos(-1, w.m.size());
    if (how == 4) { vc_assume(i >= 0); }
    bool r = raises([&]() {
        switch (how) {
            case 0: got = w.s.index(i); break;
            case 1: got = c.index(i); break;
            case 2: got = &w.s[i]; break;
            case 3: got = &c[i]; break;
            case 4: got = &w.s[(size_t) i]; break;
            case 5: got = w.s.top(); break;
            case 6: got = c.top(); break;
        }
    });
    vc_assert(r == (p < 0), "access outside the frame raises, access inside does not");
    if (!r) { p = vc_concretize(p); vc_assert(is_value(*got, w.m.v[w.m.base + p]), "index denotes the value counted from the frame base or from the top"); vc_cover("value"); }
    else vc_cover("raised");
    w.check("read"); w.unwind();
    vc_cover("end");
}

// push of a value and of a position
VC_HARNESS(push) {
    World w(4);
    if (vc_pick("how", 0, 1) == 0) {
        Tensor *t = w.s.push(value(w.fresh)); w.m.v.push_back(w.fresh);
        vc_assert(is_value(*t, w.fresh) && t == w.s.top(), "push returns the top");
    } else {
        int i = vc_i32("i", INT32_MIN, INT32_MAX);
        I p = w.m.pos(i, w.m.size()); Tensor *t = nullptr;
        bool r = raises([&]() { t = w.s.push(i); });
        vc_assert(r == (p < 0), "push outside the frame raises");
        if (!r) { p = vc_concretize(p); w.m.v.push_back(w.m.v[w.m.base + p]); vc_assert(t == w.s.top(), "push returns the top"); }
    }
    w.check("push"); w.unwind();
    vc_cover("end");
}

// clone: an equal value in other memory
VC_HARNESS(clone) {
    World w(3, 1);
    w.s.m_controller = DynamicSyncMemoryController::Make(MemoryDevice(CPU), vc_pick("lock", 0, 1));
    for (int k = 0; k < 4; ++k) g_cell[k] = vc_i32("cell", INT32_MIN, INT32_MAX);
    int i = vc_i32("i", INT32_MIN, INT32_MAX);
    I p = w.m.pos(i, w.m.size()); Tensor *t = nullptr;
    bool to = vc_pick("device", 0, 1);
    bool r = raises([&]() { t = to ? w.s.clone(i, MemoryDevice(CPU)) : w.s.clone(i); });
    vc_assert(r == (p < 0), "clone outside the frame raises");
    if (!r) {
        p = vc_concretize(p);
        int id = w.m.v[w.m.base + p];
        vc_assert(t == w.s.top(), "clone returns the top");
        vc_assert(!is_value(*t, id) && t->dtype() == INT32 && t->count() == 1 && t->dims() == 1, "clone is another tensor of the same type and shape");
        vc_assert(t->data<int32_t>()[0] == g_cell[id], "clone holds the same element");
        t->data<int32_t>()[0] = 7; // writing the clone leaves the original alone
        int32_t keep = g_cell[id];
        vc_assert(w.s.index(int(p))->data<int32_t>()[0] == keep, "the original is another memory");
        w.s.pop(1);
    }
    w.check("clone"); w.unwind();
    vc_cover("end");
}

VC_HARNESS(pop) {
    World w(4);
    int how = vc_pick("how", 0, 2);
    uint64_t n = how == 0 ? 1 : how == 1 ? vc_u64("n") : 0;
    bool legal = n <= (uint64_t) w.m.size();
    bool r = raises([&]() { if (how == 0) w.s.pop(); else if (how == 1) w.s.pop((size_t) n); else w.s.clear(); });
    if (how == 2) { n = (uint64_t) w.m.size(); legal = true; }
    vc_assert(r == !legal, "popping more values than the frame holds raises");
    if (!r) { n = (uint64_t) vc_concretize((I) n); w.m.v.resize(w.m.v.size() - n); }
    w.check("pop"); w.unwind();
    vc_cover("end");
}

VC_HARNESS(erase_one) {
    World w(4);
    int i = vc_i32("i", INT32_MIN, INT32_MAX);
    I p = w.m.pos(i, w.m.size());
    bool r = raises([&]() { w.s.erase(i); });
    vc_assert(r == (p < 0), "erasing outside the frame raises");
    if (!r) { p = vc_concretize(p); w.m.v.erase(w.m.v.begin() + w.m.base + p); }
    w.check("erase"); w.unwind();
    vc_cover("end");
}

VC_HARNESS(erase_range) {
    World w(3, 1);
    int b = vc_i32("beg", INT32_MIN, INT32_MAX), e = vc_i32("end", INT32_MIN, INT32_MAX);
    I pb = w.m.pos(b, w.m.size() + 1), pe = w.m.pos(e, w.m.size() + 1);
    bool legal = pb >= 0 && pe >= pb;
    bool r = raises([&]() { w.s.erase(b, e); });
    vc_assert(r == !legal, "erasing a range outside the frame, or a reversed range, raises");
    if (!r) { pb = vc_concretize(pb); pe = vc_concretize(pe); w.m.v.erase(w.m.v.begin() + w.m.base + pb, w.m.v.begin() + w.m.base + pe); }
    w.check("erase range"); w.unwind();
    vc_cover("end");
}

// frames: push_base then any nesting back restores the caller view
VC_HARNESS(frames) {
    World w(4);
    int i = vc_i32("i", INT32_MIN, INT32_MAX);
    I p = w.m.pos(i, w.m.size() + 1);
    bool r = raises([&]() { w.s.push_base(i); });
    vc_assert(r == (p < 0), "a frame outside the current one raises");
    if (!r) { p = vc_concretize(p); w.m.bases.push_back(w.m.base); w.m.base += p; vc_cover("frame"); }
    w.check("push_base");
    int extra = vc_pick("then", 0, 2);
    if (extra) { w.s.push(value(w.fresh)); w.m.v.push_back(w.fresh); }
    if (extra == 2 && w.m.size() > 1) { w.s.erase(0); w.m.v.erase(w.m.v.begin() + w.m.base); }
    I n = 0; for (auto &t : w.s) { vc_assert(is_value(t, w.m.v[w.m.base + n]), "iteration visits the frame from its base"); ++n; }
    vc_assert(n == w.m.size(), "iteration visits the whole frame");
    w.check("inside"); w.unwind();
    w.s.pop_base(); // no frame to return to: the bottom frame stays
    w.check("outermost");
    vc_cover("end");
}
VC_HARNESS(rebase) {
    World w(4, 1);
    uint64_t b = vc_u64("b");
    size_t old = 0;
    bool r = raises([&]() { old = w.s.rebase((size_t) b); });
    vc_assert(r == (b > w.m.v.size()), "a base beyond the stack raises");
    if (!r) { vc_assert((I) old == w.m.base, "rebase returns the old base"); w.m.base = (int) vc_concretize((I) b); }
    w.check("rebase");
    vc_cover("end");
}

// ------------------------------------------------------------------ instructions of the executor
namespace {
// a workbench of which only the operand stack is constructed (instructions use nothing else)
struct Bench {
    Workbench *wb;
    explicit Bench(Stack *s) {
        wb = (Workbench *) calloc(1, sizeof(Workbench));
        new (&wb->m_stack) Stack::shared(s, [](Stack *) {});
    }
    ~Bench() { typedef Stack::shared S; wb->m_stack.~S(); free(wb); }
};
}
VC_HARNESS(instructions) {
    World w(3, 1); Bench b(&w.s); Model &m = w.m; const int lo = -4, hi = 3;
    int op = vc_pick("op", 0, 6);
    int i = 0, j = 0; I p = 0, q = 0;
    Instruction::shared inst; bool legal = true;
    if (op == 0 || op == 2 || op == 4) { i = vc_pick("i", lo, hi); p = m.pos(i, m.size()); }
    if (op == 4) { j = vc_pick("j", lo, hi); q = m.pos(j, m.size()); }
    if (op == 5) { i = vc_pick("i", lo, hi); j = vc_pick("j", lo, hi); p = m.pos(i, m.size() + 1); q = m.pos(j, m.size() + 1); }
    switch (op) {
        case 0: inst = instruction::Stack::push(i); legal = p >= 0; break;
        case 1: inst = instruction::Stack::ring_shift_left(); legal = m.size() > 0; break;
        case 2: inst = instruction::Stack::erase(i); legal = p >= 0; break;
        case 3: i = vc_pick("n", 0, 5); inst = instruction::Tensor::pack((size_t) i); legal = i <= m.size(); break;
        case 4: inst = instruction::Stack::swap(i, j); legal = p >= 0 && q >= 0; break;
        case 5: inst = instruction::Stack::erase(i, j); legal = p >= 0 && q >= p; break;
        case 6: i = vc_pick("field", -2, 2); inst = instruction::Tensor::field(i); legal = m.size() > 0 && (i == 0 || i == -1); break;
    }
    bool r = raises([&]() { inst->run(*b.wb); });
    vc_assert(r == !legal, "an instruction outside the frame raises");
    if (!r) {
        auto f = m.v.begin() + m.base;
        switch (op) {
            case 0: m.v.push_back(int(*(f + p))); break;
            case 1: { int k = *f; m.v.erase(f); m.v.push_back(k); } break;
            case 2: m.v.erase(f + p); break;
            case 3: {
                Tensor t = *w.s.top();
                vc_assert((I) t.fields_count() == (i ? i : 1) , "pack makes one value with a field per argument");
                for (int k = 0; k < i; ++k) vc_assert(is_value(t.field(size_t(k)), m.v[m.v.size() - i + k]), "fields are the arguments in stack order");
                m.v.resize(m.v.size() - i);
                w.s.pop();
            } break;
            case 4: { int k = *(f + p); *(f + p) = *(f + q); *(f + q) = k; } break;
            case 5: m.v.erase(f + p, f + q); break;
            case 6: break;
        }
        vc_cover("done");
    } else vc_cover("raised");
    w.check("instruction"); w.unwind();
    vc_cover("end");
}

// ------------------------------------------------------------------ calling an operator
namespace {
struct Op : public Operator {
    World *w; Model *m; int want, nargs, mode; bool ran = false;
    int run(Stack &s) override {
        ran = true;
        vc_assert((I) s.size() == nargs, "the operator sees exactly its arguments");
        for (int k = 0; k < nargs; ++k) vc_assert(is_value(s[k], m->v[m->v.size() - nargs + k]), "the operator sees its arguments in order");
        if (mode == 1) { s.push(value(60)); throw ts::Exception("refused"); }
        if (mode == 2) { s.clear(); }
        for (int k = 0; k < want; ++k) s.push(value(50 + k));
        if (mode == 3) { s.clear(); }
        return want;
    }
    int infer(Stack &s, std::vector<Tensor::Prototype> &out) override {
        ran = true;
        vc_assert((I) s.size() == nargs, "the operator sees exactly its arguments");
        if (mode == 1) { s.push(value(60)); throw ts::Exception("refused"); }
        if (mode == 2) s.push(value(61));
        out.resize(1);
        return want;
    }
};
}
// RunOperator / InferOperator / OperatorInstruction: arguments are replaced by the results, nothing else moves
VC_HARNESS(call) {
    World w(3, 1); Model &m = w.m;
    auto op = std::make_shared<Op>();
    op->w = &w; op->m = &m; op->want = vc_pick("results", 0, 2); op->nargs = vc_pick("nargs", 0, 4); op->mode = vc_pick("mode", 0, 3);
    int how = vc_pick("how", 0, 2);
    bool legal = op->nargs <= m.size(), ok = legal && op->mode != 1 && !(how != 1 && op->mode == 3 && op->want > 0);
    std::vector<Tensor::Prototype> protos;
    int ret = -1;
    Bench b(&w.s);
    bool r = raises([&]() {
        if (how == 0) ret = RunOperator(op, w.s, op->nargs);
        else if (how == 1) ret = InferOperator(op, w.s, op->nargs, protos);
        else { OperatorInstruction inst(op, op->nargs, op->want, "op"); inst.run(*b.wb); ret = op->want; }
    });
    vc_assert(op->ran == legal, "an operator runs exactly when its arguments are there");
    vc_assert(r == !ok, "a call fails exactly when arguments are missing, the operator fails or results are missing");
    if (!r) {
        vc_assert(ret == op->want, "the number of results is returned");
        m.v.resize(m.v.size() - op->nargs);
        if (how != 1) for (int k = 0; k < op->want; ++k) m.v.push_back(50 + k);
        w.check("call"); vc_cover("returned");
    } else {
        // the frame of the caller is restored and the values below the arguments are untouched
        vc_assert((I) w.s.base() == m.base && w.s.m_base_stack.size() == m.bases.size(), "a failed call restores the caller frame");
        size_t below = legal ? m.v.size() - op->nargs : m.v.size();
        vc_assert(w.s.m_stack.size() >= below, "a failed call keeps the values below its arguments");
        for (size_t k = 0; k < below; ++k) vc_assert(is_value(w.s.m_stack[k], m.v[k]), "a failed call keeps the values below its arguments");
        w.m.v.resize(w.s.m_stack.size()); // what a failed operator left of its own frame is unspecified
        vc_cover("failed");
    }
    w.unwind();
    vc_cover("end");
}
// an operator that returns another number of results than the instruction announces is refused
VC_HARNESS(call_count) {
    World w(2, 1); Model &m = w.m;
    auto op = std::make_shared<Op>();
    op->w = &w; op->m = &m; op->want = vc_pick("results", 0, 2); op->nargs = vc_pick("nargs", 0, 2); op->mode = 0;
    vc_assume(op->nargs <= m.size());
    int announced = vc_pick("announced", 0, 2);
    Bench b(&w.s);
    OperatorInstruction inst(op, op->nargs, announced, "op");
    bool r = raises([&]() { inst.run(*b.wb); });
    vc_assert(r == (announced != op->want), "the announced number of results is enforced");
    vc_assert((I) w.s.base() == m.base, "the caller frame is restored");
    vc_cover("end");
}
