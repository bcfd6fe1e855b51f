// C07: reference-counted handles and synchronised blocks
#include <memory>
#include <map>
#include <functional>
#include <atomic>
#include <string>
#include <vector>
#include <mutex>
#include <condition_variable>
#include <sstream>
#include <iostream>
#include "vc.h"
#define private public
#include "core/threadsafe/smart.h"
#include "core/sync/sync_block.h"
#undef private
#include "core/sync/sync_memory.h"
#include "core/memory.h"
using namespace ts;

// ------------------------------------------------------------------ Smart
namespace {
int g_live[4], g_deleted[4];
struct Thing {
    int id;
    Smart<Thing> *owner_slot = nullptr;
    Thing(int i) : id(i) { ++g_live[i]; }
    Thing(const Thing &o) : id(o.id) { ++g_live[id]; }
    ~Thing() { --g_live[id]; ++g_deleted[id]; }
};
// class invariant of a counted object: use_count = number of owning handles
struct World {
    Smart<Thing> *h[3];          // handles under test
    int obj[3];                  // which object each refers to, -1 none
    Counter<Thing> *c[3];        // counted object of each id
    int others[3];               // owning handles elsewhere
    World() {
        // every way three handles can refer to up to three objects (or nothing)
        int code = vc_pick("shape", 0, 14);
        static const signed char S[15][3] = {{0,1,2},{0,0,1},{0,1,0},{1,0,0},{0,0,0},{0,1,-1},{0,-1,1},{-1,0,1},{0,0,-1},{0,-1,0},{-1,0,0},{0,-1,-1},{-1,0,-1},{-1,-1,0},{-1,-1,-1}};
        for (int i = 0; i < 4; ++i) g_live[i] = g_deleted[i] = 0;
        for (int i = 0; i < 3; ++i) { others[i] = 0; c[i] = nullptr; obj[i] = S[code][i]; }
        for (int i = 0; i < 3; ++i) {
            h[i] = new Smart<Thing>(SMART, (Counter<Thing> *) nullptr);
            if (obj[i] < 0) { h[i]->m_mode = MANUALLY; continue; }
            if (!c[obj[i]]) {
                Smart<Thing> first = make_smart<Thing>(obj[i]);
                c[obj[i]] = first.m_counted;
                *h[i] = std::move(first);
            } else {
                h[i]->m_counted = c[obj[i]]; c[obj[i]]->use_count++;
            }
        }
        // any number of handles elsewhere
        for (int i = 0; i < 3; ++i) if (c[i]) { others[i] = vc_i32("others", 0, 1000000); c[i]->use_count += others[i]; }
    }
    int owners(int id) const { int n = others[id]; for (int i = 0; i < 3; ++i) n += h[i] && obj[i] == id; return n; }
    void check() {
        for (int id = 0; id < 3; ++id) {
            if (!c[id]) continue;
            int n = owners(id);
            if (n > 0) {
                vc_assert(g_live[id] == 1 && g_deleted[id] == 0, "object lives while a handle refers to it");
                vc_assert(c[id]->use_count == n, "use count is the number of owning handles");
            } else {
                vc_assert(g_live[id] == 0 && g_deleted[id] == 1, "object is destroyed exactly once after the last handle");
            }
        }
        for (int i = 0; i < 3; ++i) if (h[i]) {
            bool valid = *h[i];
            vc_assert(valid == (obj[i] >= 0), "a handle is non-null exactly when it refers to an object");
            if (obj[i] >= 0) {
                vc_assert((*h[i])->id == obj[i], "handle refers to its object");
                vc_assert(h[i]->use_count() == owners(obj[i]), "use_count reports the owners");
            } else vc_assert(h[i]->use_count() == 0, "empty handle has no owners");
        }
    }
    void finish() {
        // nothing else keeps the objects: release every handle
        for (int i = 0; i < 3; ++i) if (c[i] && others[i]) { if (owners(i) == others[i]) { c[i]->use_count = 1; Smart<Thing> last(SMART, c[i]); others[i] = 0; } else { c[i]->use_count -= others[i]; others[i] = 0; } }
        for (int i = 0; i < 3; ++i) if (h[i]) { Smart<Thing> *x = h[i]; h[i] = nullptr; delete x; }
        check();
    }
};
}

// one operation on any of the handles, in any sharing situation, with any number of handles elsewhere
VC_HARNESS(smart_step) {
    World w;
    w.check();
    int op = vc_pick("op", 0, 9), i = vc_pick("i", 0, 2), j = vc_pick("j", 0, 2);
    Smart<Thing> &a = *w.h[i], &b = *w.h[j];
    if (op == 0) { a = b; w.obj[i] = w.obj[j]; w.check(); }
    else if (op == 1) { Smart<Thing> t(b); if (w.obj[j] >= 0) w.others[w.obj[j]]++; w.check(); vc_assert((bool) t == (w.obj[j] >= 0), "copy refers to the same object"); if (w.obj[j] >= 0) { vc_assert(t->id == w.obj[j], "copy refers to the same object"); w.others[w.obj[j]]--; } }
    else if (op == 2) {   // move construction empties the source
        int o = w.obj[j];
        Smart<Thing> t(std::move(b));
        if (o >= 0) { w.others[o]++; w.obj[j] = -1; vc_assert(t->id == o, "moved handle refers to the object"); }
        w.check();
        if (o >= 0) w.others[o]--;
    }
    else if (op == 3) {   // move assignment: the target refers to the source's object; the source gives it up or takes the old one
        int oi = w.obj[i], oj = w.obj[j];
        a = std::move(b);
        if (i != j) {
            w.obj[i] = oj;
            bool has = b;
            vc_assert(!has || b->id == oi, "source is empty or keeps the old object");
            w.obj[j] = has ? oi : -1;
        }
        w.check();
    }
    else if (op == 4) { a.swap(b); std::swap(w.obj[i], w.obj[j]); w.check(); }
    else if (op == 5) { Smart<Thing> *x = w.h[i]; w.h[i] = nullptr; delete x; w.check(); }
    else if (op == 6) { a.dispose(); w.obj[i] = -1; w.check(); }
    else if (op == 7) {   // weak handles do not own; strong ones made from them do
        if (w.obj[i] >= 0) {
            Smart<Thing> weak = a.weak();
            w.check();
            Smart<Thing> strong = weak.strong();
            w.others[w.obj[i]]++; w.check();
            vc_assert(strong->id == w.obj[i] && weak->id == w.obj[i], "same object");
            a = weak.strong(); w.check();
            w.others[w.obj[i]]--;
        }
    }
    else if (op == 8) {
        a = make_smart<Thing>(3); int old = w.obj[i]; w.obj[i] = -1;
        vc_assert(a->id == 3 && a.use_count() == 1 && g_live[3] == 1, "new object owned");
        a.dispose(); (void) old;
        vc_assert(g_live[3] == 0 && g_deleted[3] == 1, "released");
        bool has = a; vc_assert(!has, "empty after release");
        w.check();
    }
    else { Smart<Thing> t = a; a = t; if (w.obj[i] >= 0) w.others[w.obj[i]]++; w.check(); if (w.obj[i] >= 0) w.others[w.obj[i]]--; }
    w.check();
    w.finish();
    vc_cover("end");
}

namespace {
struct Node { int id; Smart<Node> *next; Node(int i) : id(i), next(nullptr) { ++g_live[i]; } ~Node() { delete next; --g_live[id]; ++g_deleted[id]; } };
}
// a handle may be assigned from a handle owned by the very object it releases
VC_HARNESS(smart_chain) {
    for (int i = 0; i < 4; ++i) g_live[i] = g_deleted[i] = 0;
    {
        Smart<Node> head = make_smart<Node>(0);
        head->next = new Smart<Node>(make_smart<Node>(1));
        if (vc_pick("longer", 0, 1)) (*head->next)->next = new Smart<Node>(make_smart<Node>(2));
        bool kept = vc_pick("kept", 0, 1) != 0;
        Smart<Node> keep(MANUALLY, (Counter<Node> *) nullptr);
        if (kept) keep = head;
        if (vc_pick("move", 0, 1)) { Smart<Node> nx = *head->next; head = std::move(nx); }
        else head = *head->next;
        vc_assert(head->id == 1 && g_live[1] == 1 && g_deleted[1] == 0, "successor alive");
        vc_assert(g_live[0] == (kept ? 1 : 0), "released head destroyed unless still referenced");
    }
    for (int i = 0; i < 3; ++i) vc_assert(g_live[i] == 0 && g_deleted[i] <= 1, "destroyed exactly once");
    vc_cover("end");
}

// ------------------------------------------------------------------ SyncBlock
namespace {
struct Val { uint32_t data; int dev; };
typedef SyncBlock<int, Val> Block;
Val convert(const Val &v, const int &from, const int &to) {
    vc_assert(v.dev == from, "conversion starts from a value on the stated device");
    Val r = {v.data, to};
    return r;
}
void reads(Block &b, uint32_t want) {
    vc_assert(b.value().data == want && b.value().dev == b.key(), "default value is the last written one");
    for (int k = 0; k < 4; ++k) { Val v = b.sync(k); vc_assert(v.data == want && v.dev == k, "every device reads the last written value"); }
}
}
// from any set of devices already holding the value: one write on any device through any handle, then every handle
// reads the new value on every device; a copy already handed out stays valid
VC_HARNESS(sync_step) {
    int d0 = vc_pick("default", 0, 2), dv = vc_pick("view", 0, 2), present = vc_pick("present", 0, 7);
    uint32_t v0 = vc_u32("initial"), v1 = vc_u32("written"), v2 = vc_u32("written2");
    Val init = {v0, d0};
    std::shared_ptr<Block> b(new Block(d0, init, convert, false));
    for (int k = 0; k < 3; ++k) if (present >> k & 1) b->sync(k);
    std::shared_ptr<Block> v = b->view(dv);
    vc_assert(v->key() == dv, "view of the device");
    int op = vc_pick("op", 0, 5);
    if (op == 0) { reads(*b, v0); reads(*v, v0); }
    else if (op == 1 || op == 2) {
        Block &w = op == 1 ? *b : *v;
        w.sync(w.key()).data = v1;
        w.broadcast();
        reads(*b, v1); reads(*v, v1);
        // and again from the other side
        Block &w2 = op == 1 ? *v : *b;
        w2.sync(w2.key()).data = v2;
        w2.broadcast();
        reads(*v, v2); reads(*b, v2);
    }
    else if (op == 3) {
        int d2 = vc_pick("view2", 0, 2);
        std::shared_ptr<Block> u = v->view(d2);
        vc_assert(u->key() == d2, "view of a view");
        u->sync(d2).data = v1;
        u->broadcast();
        reads(*u, v1); reads(*b, v1); reads(*v, v1);
    }
    else if (op == 4) {
        b.reset();
        reads(*v, v0);                     // views keep the shared values alive
        v->sync(dv).data = v1; v->broadcast();
        reads(*v, v1);
    }
    else {
        Block moved(std::move(*v));
        reads(moved, v0);
        int n = 0; bool ok = true;
        moved.foreach([&](const int &k, const Val &x) { ++n; ok = ok && x.data == v0 && x.dev == k; });
        vc_assert(ok && n >= 1, "stored values all hold the last written value");
        reads(*b, v0);
    }
    vc_cover("end");
}

// locked blocks behave the same
VC_HARNESS(sync_locked) {
    uint32_t v0 = vc_u32("initial"), v1 = vc_u32("written");
    int d0 = vc_pick("default", 0, 1), dv = vc_pick("view", 0, 2);
    Val init = {v0, d0};
    Block b(d0, init, convert, true);
    std::shared_ptr<Block> v = b.view(dv);
    reads(b, v0); reads(*v, v0);
    v->sync(dv).data = v1; v->broadcast();
    reads(b, v1); reads(*v, v1);
    vc_cover("end");
}

// SyncMemory on two CPU-like devices: bytes written on one are read on the other
VC_HARNESS(sync_memory) {
    int n = vc_pick("bytes", 0, 6);
    uint8_t *d = (uint8_t *) vc_cells("data", n + 1, 1, 0);
    MemoryDevice a(CPU, 0), c(CPU, 1);
    SyncMemory m(a, size_t(n));
    vc_assert(m.size() == size_t(n) && m.device() == a, "size and device");
    uint8_t *p = m.data<uint8_t>();
    for (int i = 0; i < n; ++i) p[i] = d[i];
    SyncMemory v = m.view(c);
    vc_assert(v.size() == size_t(n) && v.device() == c, "view has the same size");
    const uint8_t *q = v.data<uint8_t>();
    for (int i = 0; i < n; ++i) vc_assert(q[i] == d[i], "view reads the written bytes");
    if (n > 0) {
        v.data<uint8_t>()[n - 1] = d[n];
        v.broadcast();
        const uint8_t *r = m.data<uint8_t>();
        for (int i = 0; i < n; ++i) vc_assert(r[i] == (i == n - 1 ? d[n] : d[i]), "bytes written through the view are read back");
    }
    SyncMemory s = m; s.swap(v);
    vc_assert(s.device() == c && v.device() == a, "swapped");
    vc_cover("end");
}
