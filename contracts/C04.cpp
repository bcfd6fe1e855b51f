// C04: tensors, prototypes, strings, operator descriptions through a stream
#include "vc.h"
#include <bits/stdc++.h>
#define private public
#include "module/bubble.h"
#undef private
#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "module/header.h"
#include "tens.h"
#include "memstream.h"
using namespace ts;
typedef int64_t I;

namespace {
typedef vt::MemStream<1024> Mem;
// every element type with elements of a fixed size
const int DT[] = {INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT16, FLOAT32, FLOAT64, PTR, CHAR8, CHAR16, CHAR32, UNKNOWN8, UNKNOWN16,
                  UNKNOWN32, UNKNOWN64, UNKNOWN128, BOOLEAN, COMPLEX32, COMPLEX64, COMPLEX128, SINK8Q0, SINK8Q1, SINK8Q2, SINK8Q3, SINK8Q4, SINK8Q5, SINK8Q6, SINK8Q7};
const int WIDTH[] = {1, 1, 2, 2, 4, 4, 8, 8, 2, 4, 8, 8, 1, 2, 4, 1, 2, 4, 8, 16, 1, 4, 8, 16, 1, 1, 1, 1, 1, 1, 1, 1};
const int NDT = sizeof(DT) / sizeof(DT[0]);
const int SHAPES[][8] = {{0}, {1, 0}, {1, 3}, {2, 2, 2}, {2, 1, 0}, {3, 1, 2, 1}, {7, 1, 2, 1, 1, 2, 1, 1}, {4, 3, 1, 1, 1}};
const int NSHAPE = 8;

struct T {
    int dt, width, n; Shape s; unsigned char *data; Tensor t;
    T(int d, int k) : dt(DT[d]), width(WIDTH[d]), n(1) {
        for (int i = 0; i < SHAPES[k][0]; ++i) { s.push_back(SHAPES[k][i + 1]); n *= SHAPES[k][i + 1]; }
        data = (unsigned char *) vc_cells("bytes", n * width ? n * width : 1, 1, 0);
        t = vt::over(data, n * width, DTYPE(dt), s);
    }
    size_t stored() const { return 1 + 4 + 4 * s.size() + n * width; }
    void check(const Tensor &got) const {
        vc_assert(got.dtype() == dt, "element type survives");
        vc_assert(got.sizes() == s, "shape survives");
        vc_assert(got.count() == n, "element count survives");
        if (!(got.sizes() == s)) return;
        const unsigned char *p = got.data<unsigned char>();
        for (int i = 0; i < n * width; ++i) vc_assert(p[i] == data[i], "bytes survive");
        vc_assert(n * width == 0 || p != data, "the value read has memory of its own");
    }
};
void put(Mem &m, int lo, int hi) { int n = vc_pick("before", lo, hi); for (int i = 0; i < n; ++i) m.buf[m.w++] = 0x5a; m.r = m.w; }
struct Sizes {
    size_t at;
    Sizes(Mem &m) : at(m.w) {}
    void written(Mem &m, size_t got) { vc_assert(got == m.w - at && !m.full, "reported size written = bytes written"); m.write("tail", 4); }
    void read(Mem &m, size_t got) {
        vc_assert(m.r == m.w - 4, "exactly the bytes written are consumed");
        vc_assert(got == m.r - at && !m.dry, "reported size read = bytes consumed");
    }
};
std::string text(const char *nm, int lo, int hi) { int n = vc_pick(nm, lo, hi); std::string s; for (int i = 0; i < n; ++i) s.push_back((char) vc_u8("char")); return s; }
void same_bubble(const Bubble &a, const Bubble &b, const char *) {
    vc_assert(a.op() == b.op(), "operator survives");
    vc_assert(a.name() == b.name(), "name survives");
    vc_assert(a.output_count() == b.output_count(), "output count survives");
    vc_assert(a.shape() == b.shape(), "shape survives");
    vc_assert(a.params().size() == b.params().size(), "number of parameters survives");
    for (auto &p : a.params()) {
        bool has = b.has(p.first);
        vc_assert(has, "every parameter survives");
        if (!has) continue;
        const Tensor &x = p.second, &y = b.get(p.first);
        bool same = x.dtype() == y.dtype() && x.sizes() == y.sizes() && x.fields_count() == y.fields_count();
        vc_assert(same, "type, shape and fields of the parameter survive");
        if (!same) continue;
        for (int i = 0; i < x.count() * x.proto().type_bytes(); ++i) vc_assert(x.data<char>()[i] == y.data<char>()[i], "parameter value survives");
    }
}
}

// one field: every element type, every listed shape
VC_HARNESS(tensor) {
    T v(vc_pick("dtype", 0, NDT - 1), vc_pick("shape", 0, NSHAPE - 1));
    Mem m; put(m, 0, 1);
    Sizes z(m);
    z.written(m, v.t.serialize(m));
    vc_assert(m.w - 4 - z.at == 4 + v.stored(), "layout: field count, type, rank, extents, data");
    Tensor got; 
    z.read(m, got.externalize(m));
    vc_assert(got.fields_count() == 1, "field count survives");
    v.check(got);
    vc_cover("end");
}

// several fields, read over a tensor that already held something
VC_HARNESS(packed) {
    int n = vc_pick("fields", 1, 3);
    std::vector<Tensor> f; std::vector<T> v;
    for (int i = 0; i < n; ++i) { v.push_back(T(i ? 2 + i : vc_pick("dtype", 3, 5), vc_pick("shape", 0, 3))); f.push_back(v.back().t); }
    Tensor t; t.pack(f);
    Mem m; Sizes z(m);
    z.written(m, t.serialize(m));
    Tensor got;
    int prior = vc_pick("prior", 0, 3);     // the value held before: none, or 1..3 further fields
    if (prior) { Tensor o = tensor::from<int32_t>(7); got.pack(std::vector<Tensor>(prior + 1, o)); }
    z.read(m, got.externalize(m));
    vc_assert(got.fields_count() == (size_t) n, "number of fields survives");
    if (got.fields_count() == (size_t) n) for (int i = 0; i < n; ++i) v[i].check(got.field(i));
    vc_cover("end");
}

// extents as such: no data (some extent is 0), the others arbitrary
VC_HARNESS(prototype) {
    int n = vc_pick("rank", 1, 7); Shape s;
    int zero = vc_pick("zero", 0, 1) ? n - 1 : 0;
    for (int i = 0; i < n; ++i) s.push_back(i == zero ? 0 : vc_i32("extent", INT32_MIN, INT32_MAX));
    unsigned char c;
    Tensor t = vt::over(&c, 0, FLOAT32, s), got;
    Mem m; Sizes z(m);
    z.written(m, t.serialize(m));
    z.read(m, got.externalize(m));
    vc_assert(got.dtype() == FLOAT32 && got.sizes() == s, "prototype survives");
    vc_cover("end");
}

// an empty tensor, and several tensors in one stream
VC_HARNESS(sequence) {
    Tensor none; T a(4, 3), b(0, 2);
    Mem m; Sizes z(m);
    size_t w = none.serialize(m) + a.t.serialize(m); tensor::save(m, b.t);
    vc_assert(w + 4 + b.stored() == m.w, "sizes add up");
    m.write("tail", 4);
    Tensor g0, g1; T o(2, 3); g0 = o.t;
    size_t r = g0.externalize(m) + g1.externalize(m);
    vc_assert(g0.dtype() == VOID && g0.fields_count() == 1 && g0.sizes().empty(), "the empty tensor survives");
    vc_assert(r == m.r, "sizes add up");
    a.check(g1); b.check(tensor::load(m));
    vc_assert(m.r == m.w - 4, "exactly the bytes written are consumed");
    vc_cover("end");
}

// through a file
VC_HARNESS(file) {
    T a(vc_pick("dtype", 3, 5), vc_pick("shape", 0, NSHAPE - 1)), b(1, 2);
    bool two = vc_pick("two", 0, 1);
    Tensor t = a.t; if (two) t.pack({a.t, b.t});
    tensor::save("t.bin", t);
    Tensor got = tensor::load("t.bin");
    vc_assert(got.fields_count() == (two ? 2u : 1u), "number of fields survives");
    a.check(got.field(0)); if (two) b.check(got.field(1));
    unsigned char all[256];
    vc_assert(vc_file_read("t.bin", all, 256) == (int64_t) (4 + a.stored() + (two ? b.stored() : 0)), "the file holds the bytes written");
    vc_cover("end");
}

// strings as tensors
VC_HARNESS(string) {
    std::string s = text("len", 0, 6);
    Tensor t = tensor::from(s), got;
    Mem m; Sizes z(m);
    z.written(m, t.serialize(m)); z.read(m, got.externalize(m));
    vc_assert(tensor::to_string(got) == s && got.dtype() == CHAR8, "string survives");
    vc_cover("end");
}

// file header
VC_HARNESS(header) {
    Header h, g; h.fake = vc_u32("fake"); h.code = vc_u32("code");
    for (size_t i = 0; i < h.data.size(); ++i) h.data[i] = (char) vc_u8("byte");
    Mem m; Sizes z(m);
    z.written(m, h.serialize(m)); z.read(m, g.externalize(m));
    vc_assert(g.fake == h.fake && g.code == h.code, "header words survive");
    for (size_t i = 0; i < h.data.size(); ++i) vc_assert(g.data[i] == h.data[i], "header bytes survive");
    vc_assert(m.w - 4 == 128, "a header is 128 bytes");
    vc_cover("end");
}

namespace {
const char *KEYS[] = {"", "k", "stride", "#my"};
void describe(Bubble &b, int way, bool wide = false) {
    // built by any constructor, then changed through any accessor
    int size = vc_pick("size", 0, 2);
    std::string op = text("op", size, size), name = text("name", 2 - size, 2 - size); Shape s;
    int rank = size; for (int i = 0; i < rank; ++i) s.push_back(vc_i32("extent", INT32_MIN, INT32_MAX));
    switch (way) {
        case 0: break;
        case 1: b = Bubble(op); break;
        case 2: b = Bubble(op, name); break;
        case 3: b = Bubble(op, s); break;
        case 4: b = Bubble(op, name, s); break;
        case 5: b = Bubble(op, name, 1, s); break;
        case 6: b.op(op); b.name(name); b.shape(s); break;
        case 7: b = Bubble("x", "y", Shape({1})); b.name(name); b.op(op); b.shape(s); b.dtype(DTYPE(vc_pick("dt", 0, 3) * 10)); break;
    }
    if (way == 1 || way >= 2) vc_assert(b.op() == op, "operator as given");
    if (way == 2 || way >= 4) vc_assert(b.name() == name, "name as given");
    if (way >= 3) vc_assert(b.shape() == s, "shape as given");
    int k = wide ? vc_pick("key", 0, 4) : way % 4;
    if (k == 4 || way == 3) return;
    T p(3, wide ? vc_pick("pshape", 0, 2) : 2);
    b.set(KEYS[k], p.t);
    if (vc_pick("more", 0, 1)) { b.set("other", tensor::from<int32_t>(vc_i32("value", INT32_MIN, INT32_MAX))); if (vc_pick("drop", 0, 1)) b.clear(KEYS[k]); }
}
}

// an operator description written and read over another one
static void bubble_roundtrip(bool wide) {
    Bubble b; describe(b, vc_pick("way", 0, 7), wide);
    Mem m; put(m, 0, 0); Sizes z(m);
    z.written(m, b.serialize(m));
    Bubble got;
    if (vc_pick("prior", 0, 1)) { got = Bubble("old", "older", Shape({4, 5})); got.set("gone", tensor::from<int32_t>(1)); }
    z.read(m, got.externalize(m));
    same_bubble(b, got, "serialized");
    vc_assert(got.dtype() == b.dtype(), "type survives");
    vc_cover("end");
}
VC_HARNESS(bubble) { bubble_roundtrip(false); }
VC_HARNESS(bubble_wide) { bubble_roundtrip(true); }

// copies and moves
VC_HARNESS(bubble_copy) {
    Bubble b; describe(b, vc_pick("way", 0, 7));
    Bubble c(b); same_bubble(b, c, "copy");
    Bubble d; if (vc_pick("prior", 0, 1)) { d = Bubble("old", "older", Shape({4, 5})); d.set("gone", tensor::from<int32_t>(1)); }
    Bubble e = d;
    d = b; same_bubble(b, d, "copy assignment");
    same_bubble(b, c, "copy left alone");
    e = std::move(d); same_bubble(b, e, "move assignment");
    Bubble f(std::move(e)); same_bubble(b, f, "move");
    vc_cover("end");
}
