// C05: graphs and modules through a stream; the order nodes are saved in
#include "vc.h"
#include <bits/stdc++.h>
#include "module/module.h"
#include "module/menu.h"
#include "module/header.h"
#include "global/module_loader_factory.h"
#include "tens.h"
#include "memstream.h"
using namespace ts;
typedef int64_t I;

namespace {
typedef vt::MemStream<4096> Mem;
enum Kind { PARAM, CONST, OP };
// a graph of n nodes: node i uses earlier ones; nodes are created in order or in the opposite order
struct World {
    Graph g; std::vector<Node> node; std::vector<int> kind; std::vector<std::vector<int>> in; int n;
    int32_t value[8]; char ch[8];
    void wire(int i, const std::vector<int> &v) { in[i] = v; }
    World(int n_, int widest, bool reversed, bool valued = false) : kind(n_), in(n_), n(n_) {
        for (int i = 0; i < n; ++i) {
            int top = i == 0 ? 1 : 1 + (widest >= 1 ? i : 0) + (widest >= 2 ? i * i : 0);
            int k = i == 0 ? 0 : i == n - 1 ? vc_pick("node", 2, top) : vc_pick("node", 0, top);
            kind[i] = k == 0 ? PARAM : k == 1 ? CONST : OP;
            if (k >= 2 && k < 2 + i) in[i].push_back(k - 2);
            else if (k >= 2 + i) { in[i].push_back((k - 2 - i) / i); in[i].push_back((k - 2 - i) % i); }
        }
        make(reversed, valued);
    }
    void make(bool reversed, bool valued) {
        std::vector<Node> made;
        for (int k = 0; k < n; ++k) {
            int i = reversed ? n - 1 - k : k;
            ch[i] = (char) vc_u8("name"); value[i] = vc_i32("value", INT32_MIN, INT32_MAX);
            Node x = g.make(kind[i] == PARAM ? std::string(Bubble::Parameter) : kind[i] == CONST ? std::string(Bubble::Const) : std::string("op"), std::string(1, ch[i]));
            if (valued || i == n - 1) x->set("value", tensor::from<int32_t>(value[i]));
            made.push_back(x);
        }
        for (int i = 0; i < n; ++i) node.push_back(made[reversed ? n - 1 - i : i]);
        for (int i = 0; i < n; ++i) if (!in[i].empty()) {
            std::vector<Node> v; for (int j : in[i]) v.push_back(node[j]);
            Node::Link(node[i], v);
        }
    }
    int index(const Node &x) const { for (int i = 0; i < n; ++i) if (node[i] == x) return i; return -1; }
    // what is written here is the loaded node y
    void same(int i, const Node &y) const {
        vc_assert(y->op() == (kind[i] == PARAM ? Bubble::Parameter : kind[i] == CONST ? Bubble::Const : "op"), "operator of the node survives");
        vc_assert(y->name().size() == 1 && y->name()[0] == ch[i], "name of the node survives");
        if (!node[i]->has("value")) { vc_assert(y->params().size() == node[i]->params().size(), "parameters of the node survive"); vc_assert(y.inputs().size() == in[i].size(), "number of inputs survives"); return; }
        bool has = y->has("value") && y->get("value").dtype() == INT32 && y->get("value").count() == 1;
        vc_assert(has && y->params().size() == node[i]->params().size(), "parameters of the node survive");
        if (has) vc_assert(y->get("value").data<int32_t>()[0] == value[i], "parameter value survives");
        vc_assert(y.inputs().size() == in[i].size(), "number of inputs survives");
    }
    std::vector<bool> reach(const std::vector<int> &from) const {
        std::vector<bool> r(n, false); for (int o : from) r[o] = true;
        for (int i = n - 1; i >= 0; --i) if (r[i]) for (int j : in[i]) r[j] = true;
        return r;
    }
};
std::vector<int> pick_outputs(int n, int most) {
    int k = vc_pick("outputs", 1, most); std::vector<int> o;
    for (int i = 0; i < k; ++i) o.push_back(i == 0 && most < 3 ? n - 1 : vc_pick("output", 0, n - 1));
    return o;
}
void order(int n, int most, bool reversed) {
    World w(n, 2, reversed);
    std::vector<int> o = pick_outputs(n, most); std::vector<Node> out; for (int i : o) out.push_back(w.node[i]);
    auto list = Module::list_reference_nodes(out);
    std::vector<bool> want = w.reach(o); int count = 0; for (int i = 0; i < n; ++i) count += want[i];
    vc_assert((int) list.size() == count, "as many nodes as are reachable");
    std::vector<int> at(n, -1);
    for (size_t k = 0; k < list.size(); ++k) {
        int i = w.index(list[k].first);
        vc_assert(i >= 0 && want[i], "only reachable nodes"); if (i < 0) continue;
        vc_assert(at[i] < 0, "every node once"); at[i] = (int) k;
    }
    for (int i = 0; i < n; ++i) if (want[i]) {
        vc_assert(at[i] >= 0, "every reachable node");
        for (int j : w.in[i]) vc_assert(at[j] < at[i], "every node after all of its inputs");
    }
    vc_cover("end");
}
// the loaded module is the saved one: same nodes, same ordered inputs everywhere
void isomorphic(const World &w, const Module::shared &m, const std::vector<int> &ins, const std::vector<int> &outs) {
    std::vector<Node> img; std::vector<int> has(w.n, -1);
    std::vector<std::pair<int, Node>> todo;
    vc_assert(m->outputs().size() == outs.size(), "number of outputs survives");
    vc_assert(m->inputs().size() == ins.size(), "number of inputs survives");
    if (m->outputs().size() != outs.size() || m->inputs().size() != ins.size()) return;
    for (size_t k = 0; k < outs.size(); ++k) todo.push_back(std::make_pair(outs[k], m->output(k)));
    for (size_t k = 0; k < ins.size(); ++k) todo.push_back(std::make_pair(ins[k], m->input(k)));
    for (size_t k = 0; k < todo.size(); ++k) {
        int i = todo[k].first; Node y = todo[k].second;
        if (has[i] >= 0) { vc_assert(img[has[i]] == y, "a node used in several places is one node"); continue; }
        for (int j = 0; j < w.n; ++j) if (has[j] >= 0) vc_assert(img[has[j]] != y, "different nodes stay different");
        has[i] = (int) img.size(); img.push_back(y);
        w.same(i, y);
        std::vector<Node> yi = y.inputs();
        if (yi.size() != w.in[i].size()) continue;
        for (size_t a = 0; a < yi.size(); ++a) todo.push_back(std::make_pair(w.in[i][a], yi[a]));
    }
}
struct Saved {
    World w; std::vector<int> ins, outs; Module::shared m;
    static std::vector<int> pick(int n, int most) {
        switch (vc_pick("outputs", 0, most - 1)) { case 0: return {n - 1}; case 1: return {n - 1, 1}; case 2: return {0, n - 1}; default: return {1, n - 1, 1}; }
    }
    // outputs repeated, shared or inputs themselves; inputs the reachable parameters (in either order) and perhaps an unused one
    Saved(int n, int widest, int most, int variant) : w(n, widest, variant & 1), outs(pick(n, most)) {
        std::vector<Node> out; for (int i : outs) out.push_back(w.node[i]);
        m = Module::Load(w.g, out);
        std::vector<bool> want = w.reach(outs);
        bool unused = variant & 2;
        for (int i = 0; i < n; ++i) if (w.kind[i] == PARAM && (want[i] || unused)) ins.push_back(i);
        for (size_t k = 0; k < m->inputs().size(); ++k) { int i = w.index(m->input(k)); vc_assert(i >= 0 && w.kind[i] == PARAM && want[i], "inputs are the reachable parameters"); }
        int reachable = 0; for (int i = 0; i < n; ++i) reachable += w.kind[i] == PARAM && want[i];
        vc_assert((int) m->inputs().size() == reachable, "every reachable parameter is an input, once");
        if (variant & 4) std::reverse(ins.begin(), ins.end());
        std::vector<Node> in; for (int i : ins) in.push_back(w.node[i]);
        m->sort_inputs(in);
    }
};
}

VC_HARNESS(order3) { order(3, 2, vc_pick("created", 0, 1)); }
VC_HARNESS(order4) { order(4, 1, false); }
VC_HARNESS(order3_all) { order(3, 3, vc_pick("created", 0, 1)); }
VC_HARNESS(order4_all) { order(4, 2, vc_pick("created", 0, 1)); }

// a whole graph, unreachable nodes included
VC_HARNESS(graph) {
    World w(vc_pick("nodes", 2, 3), 2, vc_pick("created", 0, 1), true);
    Mem m; size_t a = serialize_graph(m, w.g);
    vc_assert(a == m.w, "reported size written = bytes written");
    m.write("tail", 4);
    Graph g; size_t b = externalize_graph(m, g);
    vc_assert(b == m.r && m.r == m.w - 4, "exactly the bytes written are consumed");
    std::vector<Node> x = w.g.nodes(), y = g.nodes();
    vc_assert(x.size() == y.size(), "number of nodes survives");
    if (x.size() != y.size()) return;
    for (size_t k = 0; k < x.size(); ++k) {
        int i = w.index(x[k]); w.same(i, y[k]);
        std::vector<Node> yi = y[k].inputs();
        for (size_t q = 0; q < yi.size() && q < w.in[i].size(); ++q) {
            size_t at = 0; while (at < x.size() && x[at] != w.node[w.in[i][q]]) ++at;
            vc_assert(yi[q] == y[at], "inputs of every node survive in order");
        }
    }
    vc_cover("end");
}
namespace {
void module(int n, int most, int variant, bool v2) {
    Saved s(n, 2, most, variant); Mem m;
    Module::Save(m, s.m);
    Module::shared got = v2 ? Module::LoadV2(m, nullptr, 0) : Module::Load(m);
    isomorphic(s.w, got, s.ins, s.outs);
    vc_assert(m.r == m.w && !m.full && !m.dry, "exactly the bytes written are consumed");
    isomorphic(s.w, s.m, s.ins, s.outs);
    vc_cover("end");
}
}
// a module, read by either loader
VC_HARNESS(module) { int v = vc_pick("variant", 0, 3); module(3, 3, v == 0 ? 0 : v == 1 ? 3 : v == 2 ? 5 : 6, v & 1); }
VC_HARNESS(module_all) { module(3, 4, vc_pick("variant", 0, 7), vc_pick("loader", 0, 1)); }
VC_HARNESS(module4) { module(4, 3, vc_pick("variant", 5, 6), 0); }
// saved twice: what was loaded saves as the same network
VC_HARNESS(again) {
    Saved s(3, 2, 1, 7); Mem m, m2;
    Module::Save(m, s.m); Module::shared a = Module::Load(m);
    Module::Save(m2, a); isomorphic(s.w, Module::Load(m2), s.ins, s.outs);
    vc_cover("end");
}
// through a file
VC_HARNESS(file) {
    Saved s(3, 1, 1, 5);
    Module::Save("net.tsm", s.m);
    isomorphic(s.w, vc_pick("loader", 0, 1) ? Module::LoadV2("net.tsm", nullptr, 0) : Module::Load("net.tsm"), s.ins, s.outs);
    vc_cover("end");
}
// networks of several graphs, outputs and inputs by name
VC_HARNESS(named) {
    World w(3, 2, 0); 
    for (int i = 0; i < 3; ++i) { w.ch[i] = "abc"[i]; w.node[i]->name(std::string(1, w.ch[i])); }
    bool swap = vc_pick("swap", 0, 1);
    std::vector<int> outs = {2, 1}; if (swap) outs = {1, 2};
    Module::shared m = Module::Load(w.g, swap ? std::vector<std::string>{"b", "c"} : std::vector<std::string>{"c", "b"});
    std::vector<int> ins; std::vector<bool> want = w.reach(outs); std::vector<std::string> names;
    for (int i = 2; i >= 0; --i) if (w.kind[i] == PARAM && want[i]) { ins.push_back(i); names.push_back(std::string(1, w.ch[i])); }
    m->sort_inputs(names);
    isomorphic(w, m, ins, outs);
    Mem s; Module::Save(s, m); isomorphic(w, Module::Load(s), ins, outs);
    VT_RAISES(bad, Module::Load(w.g, std::vector<std::string>{"c", "zz"}));
    vc_assert(bad, "an unknown output name raises");
    if (!names.empty()) { std::vector<std::string> less(names.begin() + 1, names.end()); VT_RAISES(few, m->sort_inputs(less)); vc_assert(few, "leaving out an input raises"); }
    vc_cover("end");
}
// the signature decides
VC_HARNESS(signature) {
    Graph g; Node a = g.make(std::string(Bubble::Parameter), std::string("a"));
    Mem m; Module::Save(m, Module::Load(g, std::vector<Node>{a}));
    int cut = vc_pick("cut", 0, 3);
    uint32_t code = vc_u32("code"); std::memcpy(m.buf + 4, &code, 4);
    for (int i = 0; i < 4; ++i) m.buf[i] = vc_u8("fake");
    if (cut) m.w = cut == 1 ? 0 : cut == 2 ? 4 : 7;
    bool v2 = vc_pick("loader", 0, 1); Module::shared got;
    VT_RAISES(bad, got = v2 ? Module::LoadV2(m, nullptr, 0) : Module::Load(m));
    uint32_t seen = TS_MODULE_CODE_V1;
    vc_assert(bad == (cut != 0 || code != seen), "a stream without the signature is rejected, one with it is not");
    if (!bad) { vc_assert(got->inputs().size() == 1 && got->outputs().size() == 1 && got->input(0) == got->output(0), "the network is read"); vc_cover("read"); }
    else vc_cover("rejected");
    vc_cover("end");
}
// relinking: the inputs of a node are those of the last link
VC_HARNESS(link) {
    Graph g; std::vector<Node> n; for (int i = 0; i < 4; ++i) n.push_back(g.make(std::string("op"), std::string(1, 'a' + i)));
    bool gone = vc_pick("gone", 0, 1);
    if (gone) { Graph h; Node x = h.make(std::string("op")); Node::Link(x, {n[0], n[1]}); }
    std::vector<int> in;
    for (int step = 0; step < 2; ++step) {
        int k = vc_pick("inputs", 0, 2); std::vector<Node> v; in.clear();
        for (int i = 0; i < k; ++i) { in.push_back(vc_pick("input", 0, 2)); v.push_back(n[in.back()]); }
        Node::Link(n[3], v);
    }
    std::vector<Node> got = n[3].inputs();
    vc_assert(got.size() == in.size(), "as many inputs as linked last");
    for (size_t i = 0; i < in.size() && i < got.size(); ++i) vc_assert(got[i] == n[in[i]], "inputs are those linked last, in order");
    if (!gone) for (int i = 0; i < 3; ++i) {
        std::vector<Node> o = n[i].outputs(); int want = 0; for (int x : in) want += x == i;
        vc_assert((int) o.size() == want, "a node knows its users");
        for (auto &x : o) vc_assert(x == n[3], "a node knows its users");
    }
    vc_cover("end");
}
