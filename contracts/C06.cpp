// C06: memory pools, hardware memory, copying and filling
#include "vc.h"
#include <bits/stdc++.h>
#define private public
#include "memory/orz/vat.h"
#include "memory/orz/pot.h"
#include "core/hard_memory.h"
#undef private
#include "core/memory.h"
#include "core/controller.h"
#include "memory/flow.h"
#include "kernels/cpu/memory_cpu.h"
#include "utils/except.h"
#include "tens.h"
using namespace ts;
typedef int64_t I;

// ------------------------------------------------------------------ Vat: pool of blocks
namespace {
const I STRIDE = 1 << 20;                 // ghost address space: block k is [k*STRIDE, k*STRIDE + size)
struct Ghost {
    char *base; int n = 0; uint64_t size[12]; int freed[12];
    Ghost() { base = (char *) 0x100000000L; for (int k = 0; k < 12; ++k) { size[k] = 0; freed[k] = 0; } }
    std::shared_ptr<void> take(uint64_t bytes) {
        int k = n++; size[k] = bytes;
        return std::shared_ptr<void>(base + k * STRIDE, [this, k](void *) { ++freed[k]; });
    }
    int block(const void *p) const { for (int k = 0; k < n; ++k) if ((const char *) p == base + k * STRIDE) return k; return -1; }
};
struct Pool {
    Ghost g; Vat v; std::vector<void *> live; std::vector<uint64_t> asked;
    Pool() : v(Pot::allocator([this](size_t s) { return g.take(s); })) {}
    // state invariant: every free or used block owns its own memory of at least its capacity; used blocks are known by their address
    void state(int nheap, int nlive) {
        for (int k = 0; k < nheap + nlive; ++k) {
            Pot p(v.m_allocator);
            uint64_t cap = (uint64_t) vc_i64("cap", 1, STRIDE);
            p.malloc(cap);
            if (k < nheap) v.m_heap.push_back(p);
            else { v.m_dict.insert(std::make_pair(p.data(), p)); live.push_back(p.data()); asked.push_back(cap); }
        }
    }
    void check() {
        bool used[12]; for (int k = 0; k < 12; ++k) used[k] = false;
        for (auto &p : v.m_heap) {
            int k = g.block(p.data());
            vc_assert(k >= 0 && !used[k] && g.freed[k] == 0, "a free block owns memory nobody else uses");
            used[k] = true;
            vc_assert(p.capacity() <= g.size[k], "a block is not larger than its memory");
        }
        vc_assert(v.m_dict.size() == live.size(), "exactly the handed out blocks are in use");
        for (size_t i = 0; i < live.size(); ++i) {
            int k = g.block(live[i]);
            vc_assert(k >= 0 && !used[k] && g.freed[k] == 0, "a block in use overlaps no other block and is not released");
            used[k] = true;
            vc_assert(g.size[k] >= asked[i], "a block is at least as large as requested");
            auto it = v.m_dict.find(live[i]);
            vc_assert(it != v.m_dict.end() && it->second.data() == live[i], "a block in use is known by its address");
            vc_assert(it->second.capacity() <= g.size[k] && it->second.capacity() >= asked[i], "the capacity of a block in use lies between the request and its memory");
        }
        for (int k = 0; k < g.n; ++k) vc_assert(used[k] == (g.freed[k] == 0) && g.freed[k] <= 1, "memory is released exactly once, when the pool drops the block");
    }
    void op(int what, const char *nm) {
        switch (what) {
            case 0: {
                uint64_t size = (uint64_t) vc_i64(nm, 0, STRIDE);
                void *p = v.malloc(size);
                if (size == 0) { vc_assert(p == nullptr, "nothing is handed out for an empty request"); break; }
                vc_assert(p != nullptr, "a block is handed out");
                live.push_back(p); asked.push_back(size);
            } break;
            case 1: if (!live.empty()) {
                int i = vc_pick("which", 0, (int) live.size() - 1);
                v.free(live[i]); live.erase(live.begin() + i); asked.erase(asked.begin() + i);
            } break;
            case 2: {
                // an address that is not a block in use: foreign, inside a block, or already returned
                int how = vc_pick("foreign", 0, 3);
                const void *p = how == 0 ? g.base + 11 * STRIDE : how == 1 && !live.empty() ? (char *) live[0] + 1 : how == 2 && !v.m_heap.empty() ? v.m_heap[0].data() : g.base - 1;
                VT_RAISES(r, v.free(p));
                vc_assert(r, "returning an unknown block is rejected");
            } break;
            case 3: v.free(nullptr); break;
            case 4: v.reset(); live.clear(); asked.clear(); break;
            case 5: v.clean(); break;
            case 6: v.deprecated(); break;
            case 7: v.dispose(); live.clear(); asked.clear(); break;
            case 8: { Vat w(std::move(v)); v = std::move(w); } break;
        }
    }
};
}
// one arbitrary operation from every pool with at most 3 free and 2 used blocks (any capacities, any order)
VC_HARNESS(pool_step) {
    Pool p;
    if (vc_pick("mode", 0, 1)) p.v.deprecated();
    p.state(p.v.m_deprecated ? 0 : vc_pick("free", 0, 3), vc_pick("used", 0, 2));
    p.check();
    p.op(vc_pick("op", 0, 8), "size");
    p.check();
    if (!p.v.m_deprecated) { uint64_t sum = 0; for (auto &a : p.v.m_heap) sum += a.capacity(); for (auto &a : p.v.m_dict) sum += a.second.capacity(); vc_assert(p.v.summary() == sum, "summary is the memory held"); }
    vc_cover("end");
}
// histories from the empty pool
static void history(int steps) {
    Pool p;
    static const char *nm[5] = {"s0", "s1", "s2", "s3", "s4"};
    for (int k = 0; k < steps; ++k) { p.op(vc_pick("op", 0, 2), nm[k]); p.check(); }
    vc_cover("end");
}
VC_HARNESS(pool_history) { history(4); }
VC_HARNESS(pool_history_long) { history(5); }
// a moved pool still serves requests from its own allocator
VC_HARNESS(pool_move) {
    Pool p; p.state(vc_pick("free", 0, 1), vc_pick("used", 0, 1));
    Vat w(std::move(p.v));
    uint64_t size = (uint64_t) vc_i64("size", 1, STRIDE);
    void *b = w.malloc(size);
    int k = p.g.block(b);
    vc_assert(k >= 0 && p.g.size[k] >= size, "a moved pool serves from the same allocator");
    for (void *l : p.live) { vc_assert(l != b, "a moved pool keeps the blocks in use"); w.free(l); }
    w.free(b);
    vc_cover("end");
}

// ------------------------------------------------------------------ HardMemory
namespace {
// an allocator following the documented protocol: (id, new_size, mem, mem_size) -> realloc / malloc / free, counting blocks
struct Heap {
    std::map<void *, size_t> blocks; bool fail = false;
    HardAllocator::function fn() {
        return HardAllocator::function([this](int, size_t n, void *mem, size_t old) -> void * {
            if (mem) {
                vc_assert(blocks.count(mem) == 1, "only a live block is handed back to the allocator");
                vc_assert(old == 0 || old <= blocks[mem], "the size of the block is not overstated");
            }
            if (mem && n && old && fail) throw Exception("no memory");   // realloc keeps the block when it fails
            void *r = nullptr;
            size_t keep = 0; char tmp[16];
            if (mem && n && old) { keep = old < n ? old : n; std::memcpy(tmp, mem, keep); }
            if (mem) { blocks.erase(mem); ::free(mem); }
            if (n && fail) throw Exception("no memory");
            if (n) { r = ::malloc(n); blocks[r] = n; if (keep) std::memcpy(r, tmp, keep); }
            return r;
        });
    }
};
}
VC_HARNESS(hard) {
    Heap h; char want[16];
    size_t n = (size_t) vc_pick("n", 0, 3);
    for (int k = 0; k < 16; ++k) want[k] = (char) vc_u8("byte");
    {
        HardMemory m(MemoryDevice(CPU), h.fn(), n), other(MemoryDevice(CPU), h.fn(), (size_t) vc_pick("other", 0, 1));
        if (n) std::memcpy(m.data(), want, n);
        size_t oc = other.capacity();
        if (oc) other.data<char>()[0] = want[15];
        bool held_other = true;
        size_t kept = n;
        for (int step = 0; step < 2; ++step) {
            int op = vc_pick("op", 0, 7); size_t k = op <= 2 ? (size_t) vc_pick("size", 0, 4) : 0;
            if (op <= 2) h.fail = vc_pick("fail", 0, 1);
            size_t cap = m.capacity(); bool raised = false;
            try {
                switch (op) {
                    case 0: m.expect(k); break;
                    case 1: m.shrink(k); break;
                    case 2: m.resize(k); break;
                    case 3: m.dispose(); break;
                    case 4: { HardMemory t(std::move(m)); m = std::move(t); } break;
                    case 5: m.swap(other); other.swap(m); break;
                    case 6: { HardMemory t(std::move(other)); HardMemory u(std::move(t)); t = std::move(u); other = std::move(t); } break;
                    case 7: { HardMemory &a = m; m = std::move(a); } break;
                }
            } catch (const Exception &) { raised = true; }
            vc_assert(!raised || h.fail, "an error is raised only when the allocator fails");
            h.fail = false;
            if (!raised) {
                if (op == 0) { vc_assert(m.capacity() == (k > cap ? k : cap), "expect grows to the requested size"); }
                if (op == 1) { vc_assert(m.capacity() == (k < cap ? k : cap), "shrink shrinks to the requested size"); if (k < kept) kept = k; }
                if (op == 2) { vc_assert(m.capacity() == k, "resize gives the requested size"); if (k != cap) kept = 0; }
                if (op == 3) { kept = 0; }
                if (op >= 4) vc_assert(m.capacity() == cap, "moving and swapping keep the size");
            } else if (op == 2) kept = 0;
            vc_assert((m.capacity() == 0) == (m.data() == nullptr) || m.capacity() == 0, "a non-empty memory has a block");
            if (m.capacity()) vc_assert(h.blocks.count(m.data()) == 1 && h.blocks[m.data()] >= m.capacity(), "the block in hand is live and as large as the memory");
            for (size_t i = 0; i < kept; ++i) vc_assert(m.data<char>()[i] == want[i], "growing, shrinking and moving keep the leading bytes");
            if (oc) vc_assert(other.data<char>()[0] == want[15] && other.data() != m.data(), "other memory is untouched");
        }
        size_t expected = (m.data() != nullptr) + (other.data() != nullptr);
        vc_assert(h.blocks.size() == expected, "no block is lost");
    }
    vc_assert(h.blocks.empty(), "every block is handed back exactly once");
    vc_cover("end");
}
// replacing a memory by another one hands the replaced block back
VC_HARNESS(hard_assign) {
    Heap h;
    {
        HardMemory a(MemoryDevice(CPU), h.fn(), (size_t) vc_pick("a", 0, 2)), b(MemoryDevice(CPU), h.fn(), (size_t) vc_pick("b", 0, 2));
        void *pb = b.data(); size_t nb = b.capacity();
        a = std::move(b);
        vc_assert(a.data() == pb && a.capacity() == nb, "assignment takes over the block");
        vc_assert(h.blocks.size() == (pb ? 1u : 0u), "the replaced block is handed back");
    }
    vc_assert(h.blocks.empty(), "every block is handed back exactly once");
    vc_cover("end");
}
VC_HARNESS(hard_borrowed) {
    char c[4] = {1, 2, 3, 4};
    {
        HardMemory m(MemoryDevice(CPU), c, 4);
        int op = vc_pick("op", 0, 2); size_t n = (size_t) vc_u64("n");
        VT_RAISES(r, (op == 0 ? m.expect(n) : op == 1 ? m.shrink(n) : m.resize(n)));
        vc_assert(r && m.data() == c && m.capacity() == 4, "borrowed memory can not be resized");
    }
    vc_assert(c[0] == 1 && c[3] == 4, "borrowed memory stays with its owner");
    vc_cover("end");
}
// the CPU allocator and the allocators bound from functions keep the leading bytes
VC_HARNESS(allocators) {
    int how = vc_pick("how", 0, 2);
    HardAllocator::function f = cpu_allocator;
    static int live; live = 0;
    auto nw = [](int, size_t n) -> void * { ++live; return ::malloc(n); };
    auto del = [](int, void *p) { if (p) --live; ::free(p); };
    if (how == 1) f = HardAllocator::Bind(nw, del, [](int, size_t n, void *p, size_t) -> void * { return ::realloc(p, n); });
    if (how == 2) { HardAllocator::RegisterV2("cpu", nw, del); f = HardAllocator::Query("cpu"); }
    size_t n = (size_t) vc_pick("n", 1, 3), k = (size_t) vc_pick("k", 0, 4);
    unsigned char want[4];
    unsigned char *p = (unsigned char *) f(0, n, nullptr, 0);
    for (size_t i = 0; i < n; ++i) p[i] = want[i] = vc_u8("byte");
    bool keep = vc_pick("keep", 0, 1);
    unsigned char *q = (unsigned char *) f(0, k, p, keep ? n : 0);
    vc_assert((q == nullptr) == (k == 0), "a block exactly when asked for");
    for (size_t i = 0; i < k; ++i) { if (keep && i < n) vc_assert(q[i] == want[i], "reallocation keeps the leading bytes"); else q[i] = 1; }
    f(0, 0, q, 0);
    vc_assert(how == 0 || live == 0, "every block is released");
    vc_assert(f(0, 0, nullptr, 0) == nullptr, "nothing asked, nothing given");
    vc_cover("end");
}

// ------------------------------------------------------------------ pooled tensors memory
VC_HARNESS(controller) {
    uint64_t left = 0;
    auto c = std::make_shared<VatMemoryController>(MemoryDevice(CPU));
    std::vector<Memory> live; std::vector<unsigned char> val; std::vector<size_t> size;
    bool gone = false;
    for (int step = 0; step < 4; ++step) {
        int op = vc_pick("op", 0, 2);
        if (op == 0 && !gone) {
            size_t n = (size_t) vc_pick("n", 0, 3);
            Memory m = c->alloc(n);
            vc_assert(m.size() == n, "a memory has the requested size");
            unsigned char b = vc_u8("byte");
            for (size_t i = 0; i < n; ++i) m.data<unsigned char>()[i] = b;
            live.push_back(m); val.push_back(b); size.push_back(n);
        } else if (op == 1 && !live.empty()) {
            int k = vc_pick("which", 0, (int) live.size() - 1);
            live.erase(live.begin() + k); val.erase(val.begin() + k); size.erase(size.begin() + k);
        } else if (op == 2 && !gone) { c.reset(); gone = true; }
        for (size_t k = 0; k < live.size(); ++k) for (size_t i = 0; i < size[k]; ++i)
            vc_assert(live[k].data<unsigned char>()[i] == val[k], "memories in use keep their own bytes");
    }
    vc_cover("end");
}

// ------------------------------------------------------------------ copying and filling
VC_HARNESS(fill) {
    int n = vc_pick("n", 0, 9), k = vc_pick("k", 0, 9);
    unsigned char dst[12], was[12], src[9];
    for (int i = 0; i < 12; ++i) dst[i] = was[i] = vc_u8("d");
    for (int i = 0; i < 9; ++i) src[i] = vc_u8("s");
    VT_RAISES(r, memset(dst + 1, Device(CPU), (size_t) n, src, Device(CPU), (size_t) k));
    vc_assert(r == (n > 0 && k == 0), "filling fails only without a pattern");
    for (int i = 0; i < 12; ++i) {
        int p = i - 1;
        if (r || p < 0 || p >= n) vc_assert(dst[i] == was[i], "filling leaves other bytes alone");
        else vc_assert(dst[i] == src[p % k], "filling repeats the pattern");
    }
    vc_cover("end");
}
VC_HARNESS(copy) {
    int n = vc_pick("n", 0, 4), k = vc_pick("k", 0, 4), how = vc_pick("how", 0, 2);
    Memory a((size_t) n), b((size_t) k);
    unsigned char x[4], y[4];
    for (int i = 0; i < n; ++i) a.data<unsigned char>()[i] = x[i] = vc_u8("a");
    for (int i = 0; i < k; ++i) b.data<unsigned char>()[i] = y[i] = vc_u8("b");
    int want = 0; bool legal = true, r = false; size_t got = 0;
    uint64_t s = 0;
    if (how == 0) { s = vc_u64("size"); legal = s <= (uint64_t) n && s <= (uint64_t) k; }
    try {
        if (how == 0) { memcpy(a, b, (size_t) (legal ? (uint64_t) (want = (int) vc_concretize((I) s)) : s)); }
        else if (how == 1) { legal = n >= k; want = k; memcpy(a, b); }
        else { want = n < k ? n : k; got = memcpy(a.data(), a.device(), (size_t) n, b.data(), b.device(), (size_t) k); vc_assert((int) got == want, "the number of bytes copied is reported"); }
    } catch (const Exception &) { r = true; }
    vc_assert(r == !legal, "copying more than either side holds is refused");
    if (r) want = 0;
    for (int i = 0; i < n; ++i) vc_assert(a.data<unsigned char>()[i] == (i < want ? y[i] : x[i]), "copying changes exactly the requested bytes");
    for (int i = 0; i < k; ++i) vc_assert(b.data<unsigned char>()[i] == y[i], "the source is untouched");
    vc_cover("end");
}
