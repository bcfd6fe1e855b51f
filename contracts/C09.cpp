// C09: a compiled program computes the graph it was compiled from
#include "vc.h"
#include <bits/stdc++.h>
#define private public
#define protected public
#include "module/module.h"
#include "module/menu.h"
#include "runtime/workbench.h"
#include "runtime/operator.h"
#include "runtime/stack.h"
#include "compiler/compiler.h"
#include "global/operator_factory.h"
#include "core/tensor_builder.h"
#include "core/device_context.h"
#include "backend/name.h"
#include "utils/ctxmgr_lite.h"
#include "tens.h"
#include "compiler/argparse.h"
using namespace ts;
typedef int64_t I;

// ArgParser without its regular expressions: names are taken as they are written (already lower case, without surrounding blanks)
extern "C" __attribute__((used, noinline)) void contract_parse(ArgParser *p, const std::string &args) {
    std::string a;
    for (size_t k = 0; k <= args.size(); ++k) if (k == args.size() || args[k] == ' ') { if (!a.empty()) p->set(a); a.clear(); } else a.push_back(args[k]);
}
extern "C" __attribute__((used, noinline)) std::string contract_device(ArgParser *p, const std::string &d) {
    std::string x = d;
    for (auto it = p->m_map_device.find(x); it != p->m_map_device.end(); it = p->m_map_device.find(x)) x = it->second;
    return x;
}

namespace {
// values are terms: two values are the same when they are for every meaning of the operators and inputs
typedef std::vector<int> Term;                  // operator tag, then the arguments
struct Terms {
    std::vector<Term> all; std::vector<int> applied;
    int of(const Term &t) {
        for (size_t k = 0; k < all.size(); ++k) if (all[k] == t) return (int) k;
        all.push_back(t); applied.push_back(0);
        return (int) all.size() - 1;
    }
};
Terms *terms;
int read(const Tensor &x) {
    vc_assert(x.fields_count() == 1 && x.dtype() == INT32 && x.count() == 1, "a value reaches the operator as it was made");
    return x.data<int32_t>()[0];
}
// an arbitrary operator: its result is a new term of its arguments
struct Apply : public Operator {
    int tag = -1;
    Apply() { field("tag", REQUIRED); }
    void init() override { Operator::init(); tag = tensor::to_int(get("tag")); }
    int run(Stack &s) override {
        Term t(1, tag);
        for (size_t k = 0; k < s.size(); ++k) t.push_back(read(s[k]));
        int id = terms->of(t); ++terms->applied[id];
        s.push(tensor::from<int32_t>(id));
        return 1;
    }
    int infer(Stack &s, std::vector<Tensor::Prototype> &out) override { out.resize(1); out[0] = Tensor::Prototype(INT32, Shape()); return 1; }
};
Operator::shared make_apply() { return std::make_shared<Apply>(); }

enum Kind { PARAM, CONST, OP };
struct World {
    Graph g; std::vector<Node> node; std::vector<int> kind; std::vector<std::vector<int>> in; int n;
    Workbench b; Terms t; std::vector<int> term; std::vector<bool> fixed;
    std::vector<int> outs, ins; Module::shared m;
    explicit World(int n_) : kind(n_), in(n_), n(n_), b(ComputingDevice(CPU, 0)), term(n_), fixed(n_) {
        terms = &t;
        OperatorCreator::Register(CPU, "apply", make_apply);
    }
    void any(int widest) {
        for (int i = 0; i < n; ++i) {
            int top = i == 0 ? 1 : 1 + (widest >= 1 ? i : 0) + (widest >= 2 ? i * i : 0);
            int k = i == 0 ? 0 : i == n - 1 ? vc_pick("node", 2, top) : vc_pick("node", 0, top);
            kind[i] = k == 0 ? PARAM : k == 1 ? CONST : OP;
            if (k >= 2 && k < 2 + i) in[i].push_back(k - 2);
            else if (k >= 2 + i) { in[i].push_back((k - 2 - i) / i); in[i].push_back((k - 2 - i) % i); }
        }
        build();
    }
    void build() {
        for (int i = 0; i < n; ++i) {
            std::string name(1, char('a' + i));
            Node x = g.make(kind[i] == PARAM ? Bubble::Parameter : kind[i] == CONST ? Bubble::Const : "apply", name);
            Term v(1, i);
            fixed[i] = kind[i] != PARAM;
            for (int j : in[i]) { v.push_back(term[j]); fixed[i] = fixed[i] && fixed[j]; }
            term[i] = t.of(v);
            if (kind[i] == CONST) x->set(name::value, tensor::from<int32_t>(term[i]));
            if (kind[i] == OP) x->set("tag", tensor::from<int32_t>(i));
            node.push_back(x);
            std::vector<Node> args; for (int j : in[i]) args.push_back(node[j]);
            if (!args.empty()) Node::Link(x, args);
        }
    }
    std::vector<bool> reach() const {
        std::vector<bool> r(n, false); for (int o : outs) r[o] = true;
        for (int i = n - 1; i >= 0; --i) if (r[i]) for (int j : in[i]) r[j] = true;
        return r;
    }
    void finish(bool unused, bool turned) {
        std::vector<Node> out, inp; for (int i : outs) out.push_back(node[i]);
        std::vector<bool> want = reach();
        for (int i = 0; i < n; ++i) if (kind[i] == PARAM && (want[i] || unused)) ins.push_back(i);
        if (turned) std::reverse(ins.begin(), ins.end());
        for (int i : ins) inp.push_back(node[i]);
        m = Module::Load(g, out);
        m->sort_inputs(inp);
    }
    // the order of the inputs is fixed by the caller; an input that is not used may be listed
    void finish(const std::vector<int> &o, int variant) { outs = o; finish(variant & 1, variant & 2); }
    void check(Workbench &b, const Program::shared &p) {
        std::vector<bool> want = reach();
        for (auto &a : t.applied) a = 0;
        b.setup(p);
        vc_assert(b.input_count() == (int) ins.size() && b.output_count() == (int) outs.size(), "as many inputs and outputs as the network");
        for (size_t k = 0; k < ins.size(); ++k) b.input((int) k, tensor::from<int32_t>(term[ins[k]]));
        b.run();
        for (size_t k = 0; k < outs.size(); ++k) vc_assert(read(b.output((int) k)) == term[outs[k]], "every output is the value of its node");
        for (int i = 0; i < n; ++i) if (kind[i] == OP) vc_assert(t.applied[term[i]] == (want[i] && !fixed[i] ? 1 : 0), "every operator that depends on an input is applied once");
        for (size_t k = n; k < t.all.size(); ++k) vc_assert(false, "no other operator is applied");
    }
    // other values for the inputs: every term becomes a new one
    void reinput() {
        for (int i = 0; i < n; ++i) if (kind[i] == PARAM) term[i] = t.of(Term(1, 100 + i));
            else if (kind[i] == OP) { Term v(1, i); for (int j : in[i]) v.push_back(term[j]); term[i] = t.of(v); }
    }
    void checked(Workbench &b) {
        for (size_t k = 0; k < ins.size(); ++k) b.input((int) k, tensor::from<int32_t>(term[ins[k]]));
        b.run();
        for (size_t k = 0; k < outs.size(); ++k) vc_assert(read(b.output((int) k)) == term[outs[k]], "every output is the value of its node, again");
    }
    void compiled() {
        std::vector<bool> want = reach();
        for (int i = 0; i < n; ++i) if (kind[i] == OP) vc_assert(t.applied[term[i]] <= (want[i] && fixed[i] ? 1 : 0), "only operators of constants are applied when compiling");
    }
};
}


namespace {
std::vector<int> outputs_of(int n, int which) {
    switch (which) { case 0: return {n - 1}; case 1: return {n - 1, 1}; case 2: return {0, n - 1, 0}; case 3: return {1, n - 1, 1}; case 4: return {n - 1, n - 1}; default: return {n - 2, n - 1}; }
}
void sweep(int n, int widest, int lo, int hi, int variants) {
    World w(n); w.any(widest);
    w.finish(outputs_of(n, vc_pick("outputs", lo, hi)), vc_pick("variant", 0, variants));
    Program::shared p = w.b.compile(w.m);
    w.compiled();
    w.check(w.b, p);
    vc_cover("end");
}
}
// every wiring of three nodes
VC_HARNESS(three_a) { sweep(3, 2, 0, 2, 3); }
VC_HARNESS(three_b) { sweep(3, 2, 3, 5, 3); }
// every wiring of four nodes
VC_HARNESS(four_a) { sweep(4, 2, 0, 0, 0); }
VC_HARNESS(four_b) { sweep(4, 2, 1, 1, 0); }
VC_HARNESS(four_all) { sweep(4, 2, 0, 5, 3); }
// chains and trees of five
VC_HARNESS(five_thin) { sweep(5, 1, 0, 5, 0); }

// a program runs any number of times, also as a clone of its workbench, also when the network is compiled again
VC_HARNESS(again) {
    World w(3); w.any(2);
    w.finish(outputs_of(3, vc_pick("outputs", 0, 5)), 0);
    Program::shared p = w.b.compile(w.m);
    w.check(w.b, p);
    std::vector<Tensor> first; for (size_t k = 0; k < w.outs.size(); ++k) first.push_back(w.b.output((int) k));
    std::vector<int> old = w.term;
    w.reinput();
    w.checked(w.b);
    for (size_t k = 0; k < w.outs.size(); ++k) vc_assert(read(first[k]) == old[w.outs[k]], "the outputs of an earlier run stay as they were");
    Workbench::shared c = w.b.clone();
    w.checked(*c);
    Program::shared q = w.b.compile(w.m);
    c->setup(q);
    w.checked(*c);
    vc_cover("end");
}
// inputs by name, every node by name
VC_HARNESS(names) {
    World w(3); w.any(2);
    w.finish(outputs_of(3, vc_pick("outputs", 0, 2)), 0);
    w.b.setup(w.b.compile(w.m));
    Workbench::shared c = vc_pick("clone", 0, 1) ? w.b.clone() : nullptr;
    Workbench &b = c ? *c : w.b;
    for (int i : w.ins) b.input(std::string(1, char('a' + i)), tensor::from<int32_t>(w.term[i]));
    std::vector<std::string> all; for (int i = 0; i < 3; ++i) all.push_back(std::string(1, char('a' + i)));
    b.run_hook(all);
    std::vector<bool> want = w.reach();
    for (int o : w.outs) vc_assert(read(b.output(all[o])) == w.term[o], "an output is found by its name");
    for (int i = 0; i < 3; ++i) if (w.kind[i] == OP && want[i] && !w.fixed[i]) vc_assert(read(b.output(all[i])) == w.term[i], "a hooked node shows its value");
    vc_cover("end");
}
