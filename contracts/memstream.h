// An in-memory stream for contracts: what is written is what is there, in order; reading hands out at most what is there.
#ifndef VERIF_MEMSTREAM_H
#define VERIF_MEMSTREAM_H
#include "vc.h"
#include "module/io/stream.h"
#include <cstring>
namespace vt {
template <int CAP> struct MemStream : ts::StreamWriter, ts::StreamReaderV2 {
    unsigned char buf[CAP]; size_t w, r; bool full, dry;
    MemStream() : w(0), r(0), full(false), dry(false) {}
    size_t write(const void *p, size_t n) {
        if (n > CAP - w) { full = true; return 0; }
        for (size_t i = 0; i < n; ++i) buf[w + i] = ((const unsigned char *) p)[i];
        w += n; return n;
    }
    void rewind() { r = 0; }
    size_t read(void *p, size_t n) {
        if (n > w - r) { n = w - r; dry = true; }
        for (size_t i = 0; i < n; ++i) ((unsigned char *) p)[i] = buf[r + i];
        r += n; return n;
    }
};
}
#endif
