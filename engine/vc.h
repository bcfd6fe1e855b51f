// Contract-harness API.  Under the VC generator the vc_* calls are interpreted (symbolic values, proof
// obligations); natively (vc_native.cpp) the same harness replays a concrete input or draws random ones.
#ifndef VERIF_VC_H
#define VERIF_VC_H
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
int32_t  vc_i32(const char *name, int32_t lo, int32_t hi);
int64_t  vc_i64(const char *name, int64_t lo, int64_t hi);
int64_t  vc_any(const char *name, int64_t lo, int64_t hi);    // arbitrary index in [lo,hi): universal quantification
uint8_t  vc_u8(const char *name);
uint16_t vc_u16(const char *name);
uint32_t vc_u32(const char *name);
uint64_t vc_u64(const char *name);
uint32_t vc_f32bits(const char *name);
uint64_t vc_f64bits(const char *name);
bool     vc_bool(const char *name);
int32_t  vc_pick(const char *name, int32_t lo, int32_t hi);   // case split: every value is explored separately
void    *vc_array(const char *name, int64_t n, int64_t es, int64_t kind);  // kind 0 integer, 1 float; symbolic length allowed
void    *vc_out_array(const char *name, int64_t n, int64_t es, int64_t kind);
void    *vc_cells(const char *name, int64_t n, int64_t es, int64_t kind);  // concrete length
void     vc_assume(bool c);
void     vc_assert(bool c, const char *id);
void     vc_cover(const char *id);
bool     vc_symbolic();
bool     vc_random();      // true only when native random inputs are drawn (or such a run is replayed)
int64_t  vc_concretize(int64_t v);
// bytes of a file in the (ghost or scratch) directory: size or -1; used only on the check's own scratch files
int64_t  vc_file_read(const char *path, void *buf, int64_t cap);
void     vc_file_write(const char *path, const void *buf, int64_t n);
void     vc_print(const char *s, int64_t a);
}
static inline float  vc_f32(const char *n) { uint32_t b = vc_f32bits(n); float f; memcpy(&f, &b, 4); return f; }
static inline double vc_f64(const char *n) { uint64_t b = vc_f64bits(n); double f; memcpy(&f, &b, 8); return f; }
// forall k in [lo,hi): body(k)   -- symbolic: one arbitrary k; native: every k
#define VC_FORALL(k, lo, hi, body) do { \
    if (vc_symbolic()) { if ((int64_t)(lo) < (int64_t)(hi)) { int64_t k = vc_any(#k, (lo), (hi)); body; } } \
    else for (int64_t k = (lo); k < (int64_t)(hi); ++k) { body; } } while (0)

#define VC_HARNESS(name) extern "C" void vch_##name()
#endif
