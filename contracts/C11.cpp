// C11: device identity and element type tables.
#include "vc.h"
#include "core/device.h"
#include "core/dtype.h"
#include "core/ieee754_float.h"
#include "core/sink.h"
#include <string>
using namespace ts;
// representation invariant of a device name: the characters, then zeros up to the end of the object (established by name_invariant)
static void put(DeviceType &t, const char *nm) {
    if (!vc_random()) {
        uint64_t w = vc_u64(nm);
        bool ended = false, ok = true;
        for (int i = 0; i < 8; ++i) { uint8_t b = (uint8_t) (w >> (8 * i)); ok = ok & (!ended | (b == 0)); ended = ended | (b == 0); }
        vc_assume(ok & ended);
        memcpy((void *) &t, &w, 8);
    } else {
        char b[8] = {0}; uint64_t w = vc_u64(nm); int n = (int) (w % 8);
        for (int i = 0; i < n; ++i) b[i] = (char) ('a' + (w >> (8 + 4 * i)) % 2);
        if (w & 0x80) b[0] = (char) (w >> 56); 
        if (n == 0) b[0] = 0;
        t = DeviceType((const char *) b);
    }
}
static Device dev(const char *a, const char *b) { DeviceType t; put(t, a); int id = vc_i32(b, INT32_MIN, INT32_MAX); if (vc_random()) id %= 4; return Device(t, id); }
VC_HARNESS(name_invariant) {
    int n = vc_pick("n", 0, 7); char b[8] = {0};
    for (int i = 0; i < n; ++i) { b[i] = (char) vc_u8("c"); vc_assume(b[i] != 0); }
    DeviceType t((const char *) b); uint64_t w, e; memcpy(&w, (void *) &t, 8); memcpy(&e, b, 8);
    vc_assert(w == e, "name object holds the characters and zero padding");
    DeviceType u(std::string(b, n)); memcpy(&w, (void *) &u, 8); vc_assert(w == e, "name object holds the characters and zero padding");
    vc_assert(sizeof(DeviceType) == 8, "size");
    Device d((const char *) b), f(t); vc_assert(d.id() == 0 && f.id() == 0 && d.type() == t && f.type() == t, "default id");
    Device g(t, 5); vc_assert(g.id() == 5 && g.type() == t, "fields");
    MemoryDevice m(t, 6); ComputingDevice c(t, 7); vc_assert(m.id() == 6 && m.type() == t && c.id() == 7 && c.type() == t, "fields of derived devices");
    MemoryDevice m2(m); m2 = std::move(m); ComputingDevice c2(std::move(c)); vc_assert(m2.id() == 6 && m2.type() == t && c2.id() == 7 && c2.type() == t, "copy and move");
    vc_cover("end");
}
static uint64_t word(const Device &d) { uint64_t w; memcpy(&w, (const void *) &d.type(), 8); return w; }
VC_HARNESS(equality) {
    Device a = dev("a", "ia"), b = dev("b", "ib");
    bool same = (word(a) == word(b)) & (a.id() == b.id());
    vc_assert((a == b) == same, "equal exactly when type and id are equal");
    vc_assert((a != b) == !same, "!= is the negation of ==");
    vc_assert(a == a && !(a != a), "reflexive");
    vc_cover("end");
}
VC_HARNESS(order_pair) {
    Device a = dev("a", "ia"), b = dev("b", "ib");
    bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b;
    vc_assert((int) lt + (int) gt + (int) eq == 1, "exactly one of <, >, ==");
    vc_assert(le == (lt || eq), "<= is < or ==");
    vc_assert(ge == (gt || eq), ">= is > or ==");
    vc_assert((b < a) == gt && (b > a) == lt && (b <= a) == ge && (b >= a) == le, "mirrored comparison");
    vc_assert(!(a < a) && !(a > a) && a <= a && a >= a, "irreflexive");
    vc_cover("end");
}
VC_HARNESS(order_transitive) {
    Device a = dev("a", "ia"), b = dev("b", "ib"), c = dev("c", "ic");
    vc_assume(a < b); vc_assume(b < c);
    vc_assert(a < c, "< is transitive");
    vc_cover("end");
}
VC_HARNESS(hash_equal) {
    Device a = dev("a", "ia"); Device b(a.type(), a.id()); Device c; c = b; Device d(std::move(b));
    vc_assert(a == c && a == d, "copies are equal");
    vc_assert(std::hash<Device>()(a) == std::hash<Device>()(c) && std::hash<Device>()(a) == std::hash<Device>()(d), "equal devices hash equally");
    MemoryDevice m(a.type(), a.id()); ComputingDevice k(a.type(), a.id());
    vc_assert(std::hash<MemoryDevice>()(m) == std::hash<MemoryDevice>()(MemoryDevice(c.type(), c.id())), "equal memory devices hash equally");
    vc_assert(std::hash<ComputingDevice>()(k) == std::hash<ComputingDevice>()(ComputingDevice(c.type(), c.id())), "equal computing devices hash equally");
    vc_cover("end");
}
VC_HARNESS(hash_function) {   // hash depends on the value only: any equal pair hashes equally
    Device a = dev("a", "ia"), b = dev("b", "ib"); vc_assume(word(a) == word(b) && a.id() == b.id());
    vc_assert(a == b && std::hash<Device>()(a) == std::hash<Device>()(b), "equal devices hash equally");
    vc_cover("end");
}
VC_HARNESS(text) {            // "<type>:<id>", the id in decimal: determines the device
    int n = vc_pick("n", 0, 7); char b[8] = {0};
    for (int i = 0; i < n; ++i) { b[i] = (char) vc_u8("c"); vc_assume(b[i] != 0); }
    int id = vc_i32("id", INT32_MIN, INT32_MAX);
    if (vc_symbolic()) vc_assume(id > -1000 && id < 1000);
    Device d(DeviceType((const char *) b), id);
    std::string s = d.str(), r = d.repr();
    vc_assert(s == r, "repr equals str");
    int len = (int) s.size();
    vc_assert(len > n + 1, "separator and digits");
    for (int i = 0; i < n; ++i) vc_assert(s[i] == b[i], "text starts with the type name");
    vc_assert(s[n] == ':', "separator");
    int64_t v = 0; int k = n + 1; bool neg = false;
    if (s[k] == '-') { neg = true; ++k; }
    vc_assert(k < len, "digits");
    for (; k < len; ++k) { vc_assert(s[k] >= '0' && s[k] <= '9', "decimal digit"); v = v * 10 + (s[k] - '0'); }
    vc_assert((neg ? -v : v) == id, "text ends with the id");
    vc_cover("end");
}
VC_HARNESS(portal) {
    vc_assert(Device() == Device("cpu", 0) && Device::portal() == Device("portal", -233) && MemoryDevice::portal() == Device("portal", -233), "well-known devices");
    vc_cover("end");
}
// ------------------------------------------------------------------ element types
template <DTYPE D> static void width() {
    vc_assert(type_bytes(D) == (int) sizeof(typename dtype<D>::declare), "width equals the size of the stored C type");
}
template <DTYPE D> static void ident() {
    width<D>(); vc_assert(dtypeid<typename dtype<D>::declare>::id == D, "type id of the stored C type");
}
VC_HARNESS(dtype_width) {
    ident<INT8>(); ident<UINT8>(); ident<INT16>(); ident<UINT16>(); ident<INT32>(); ident<UINT32>(); ident<INT64>(); ident<UINT64>();
    ident<FLOAT16>(); ident<FLOAT32>(); ident<FLOAT64>(); ident<PTR>(); ident<CHAR8>();
    width<CHAR16>(); width<CHAR32>(); width<BOOLEAN>();
    width<SINK8Q0>(); width<SINK8Q1>(); width<SINK8Q2>(); width<SINK8Q3>(); width<SINK8Q4>(); width<SINK8Q5>(); width<SINK8Q6>(); width<SINK8Q7>();
    vc_assert(type_bytes(VOID) == 0, "void has no width");
    static const int W[] = {1, 2, 4, 8, 16};
    for (int i = 0; i < 5; ++i) vc_assert(type_bytes(DTYPE(UNKNOWN8 + i)) == W[i], "unknown<N> holds N bits");
    vc_assert(type_bytes(COMPLEX32) == 4 && type_bytes(COMPLEX64) == 8 && type_bytes(COMPLEX128) == 16, "complex<N> holds N bits");
    vc_cover("end");
}
VC_HARNESS(dtype_names) {
    const char *s[33];
    for (int i = 0; i < 33; ++i) { s[i] = type_str(DTYPE(i)); vc_assert(s[i] != nullptr && std::strcmp(s[i], "unknown") != 0, "every type has a name"); }
    for (int i = 0; i < 33; ++i) for (int j = 0; j < i; ++j) vc_assert(std::strcmp(s[i], s[j]) != 0, "each type has its own name");
    static const struct { DTYPE t; const char *n; int bits; } num[] = {{INT8, "int", 8}, {INT16, "int", 16}, {INT32, "int", 32}, {INT64, "int", 64}, {UINT8, "uint", 8}, {UINT16, "uint", 16},
        {UINT32, "uint", 32}, {UINT64, "uint", 64}, {FLOAT16, "float", 16}, {FLOAT32, "float", 32}, {FLOAT64, "float", 64}, {CHAR8, "char", 8}, {CHAR16, "char", 16}, {CHAR32, "char", 32}};
    for (auto &x : num) {
        std::string t(type_str(x.t)); std::string e(x.n); e += x.bits == 8 ? "8" : x.bits == 16 ? "16" : x.bits == 32 ? "32" : "64";
        vc_assert(t == e && type_bytes(x.t) * 8 == x.bits, "the number in the name is the width");
    }
    vc_cover("end");
}
VC_HARNESS(dtype_total) {     // defined for any integer code, nothing outside the table has a width
    int i = vc_i32("i", 0, INT32_MAX);
    int w = type_bytes(DTYPE(i));
    vc_assert(w >= 0 && w <= 16 && (i <= 32 || w == 0) && (i == 0 || i > 32 || w > 0), "widths");
    vc_cover("end");
}
