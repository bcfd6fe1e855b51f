// C16: bytes written through an encrypted stream come back unchanged, and the stored file does not depend on the
// way the writes were split.  AES_* are replaced by their contract (C15): for one key, encryption is a bijection on
// 16-byte blocks and decryption its inverse.
#include "vc.h"
#include "encryption/encrypted_fstream.h"
#include "encryption/aes.h"
#include "utils/except.h"
#include <string>
#include <vector>
using namespace ts;

namespace {
const char *KEY = "secret";
struct Ctx { AES_ctx c; Ctx() { AES_init_ctx(&c, (const uint8_t *) KEY, 6); } };

// the stored form: blocks of 16 encrypted bytes, the last one completed with 1..16 bytes of value "missing bytes"
std::vector<uint8_t> stored(const uint8_t *data, int n) {
    Ctx k;
    std::vector<uint8_t> out;
    int total = (n / 16 + 1) * 16;
    for (int i = 0; i < total; ++i) out.push_back(i < n ? data[i] : uint8_t(total - n));
    for (int b = 0; b < total; b += 16) AES_ECB_encrypt(&k.c, out.data() + b);
    return out;
}
void file_is(const char *path, const std::vector<uint8_t> &want) {
    uint8_t buf[512];
    int64_t n = vc_file_read(path, buf, 512);
    vc_assert(n == (int64_t) want.size(), "stored file has the length of the padded data");
    for (int64_t i = 0; i < n; ++i) vc_assert(buf[i] == want[i], "stored file is the encryption of the padded data");
}
// reads until n bytes arrived or the stream gives no more
int read_some(EncryptedFileStreamReader &r, uint8_t *p, int n) {
    try { return (int) r.read(p, n); } catch (const Exception &) { return 0; }
}
}

// every buffer state (0..16 pending bytes, arbitrary values) and every next chunk of 0..40 bytes
VC_HARNESS(writer) {
    int a = vc_pick("pending", 0, 16), n = vc_random() ? vc_i32("n", 0, 200) : vc_pick("n", 0, 40);
    uint8_t *d = (uint8_t *) vc_cells("data", a + n, 1, 0);
    {
        EncryptedFileStreamWriter w("a.bin", KEY);
        vc_assert(w.is_open(), "writer opens the file");
        vc_assert(w.write(d, a) == (size_t) a, "all bytes accepted");
        vc_assert(w.write(d + a, n) == (size_t) n, "all bytes accepted");
        w.close();
    }
    file_is("a.bin", stored(d, a + n));
    vc_cover("end");
}

// closing happens exactly once: explicitly, by destruction, or both
VC_HARNESS(writer_close) {
    int n = vc_pick("n", 0, 33), how = vc_pick("how", 0, 2);
    uint8_t *d = (uint8_t *) vc_cells("data", n, 1, 0);
    {
        EncryptedFileStreamWriter w("a.bin", KEY);
        for (int i = 0; i < n; ++i) vc_assert(w.write(d + i, 1) == 1, "byte accepted");
        if (how >= 1) w.close();
        if (how == 2) w.close();
    }
    file_is("a.bin", stored(d, n));
    vc_cover("end");
}

static void read_back(const uint8_t *d, int total, int first, int second) {
    std::vector<uint8_t> f = stored(d, total);
    vc_file_write("b.bin", f.data(), (int64_t) f.size());
    EncryptedFileStreamReader r("b.bin", KEY);
    vc_assert(r.is_open(), "reader opens the file");
    uint8_t out[512];
    for (int i = 0; i < 512; ++i) out[i] = 0x77;
    int pos = 0;
    int want[4] = {first, second, 64, 1}; if (total > 40) { want[2] = 200; }
    for (int i = 0; i < 4; ++i) {
        int left = total - pos;
        int got = read_some(r, out + pos, want[i]);
        vc_assert(got == (left < want[i] ? left : want[i]), "read returns the requested bytes, or all that are left");
        pos += got;
        for (int k = 0; k < pos; ++k) vc_assert(out[k] == d[k], "bytes read are the bytes written, in order");
        for (int k = pos; k < pos + 20; ++k) vc_assert(out[k] == 0x77, "nothing is written beyond the returned bytes");
    }
    vc_assert(pos == total, "the whole sequence is returned");
}

// every reader position after a first chunk of 0..18 bytes, several second chunks, then the rest
static void reader_case(int lo, int step, int nsecond) {
    int total = vc_random() ? vc_i32("total", 0, 200) : lo + step * vc_pick("total", 0, 34 / step), first = vc_pick("first", 0, 18), second = vc_pick("second", 0, nsecond - 1);
    static const int S[7] = {1, 15, 17, 0, 5, 16, 33};
    uint8_t *d = (uint8_t *) vc_cells("data", total, 1, 0);
    read_back(d, total, first, S[second]);
    vc_cover("end");
}
VC_HARNESS(reader0) { reader_case(0, 3, 3); }
VC_HARNESS(reader1) { reader_case(1, 3, 3); }
VC_HARNESS(reader2) { reader_case(2, 3, 3); }
VC_HARNESS(reader_full) { reader_case(0, 1, 7); }

// write and read back in arbitrary chunk sequences
VC_HARNESS(roundtrip) {
    int total = vc_pick("total", 0, 5); static const int T[6] = {0, 1, 16, 20, 32, 47};
    int n = vc_random() ? vc_i32("n", 0, 400) : T[total];
    uint8_t *d = (uint8_t *) vc_cells("data", n, 1, 0);
    int ws = vc_pick("wchunk", 1, 3), rs = vc_pick("rchunk", 1, 3); static const int C[4] = {0, 7, 16, 23};
    {
        EncryptedFileStreamWriter w("c.bin", KEY);
        for (int p = 0; p < n;) { int c = vc_random() ? vc_i32("w", 0, 50) : C[ws]; if (c > n - p) c = n - p; vc_assert(w.write(d + p, c) == (size_t) c, "all bytes accepted"); p += c; }
    }
    EncryptedFileStreamReader r("c.bin", KEY);
    uint8_t out[64];
    for (int p = 0; p < n;) {
        int c = vc_random() ? vc_i32("r", 0, 50) : C[rs];
        int got = (int) r.read(out, c);
        vc_assert(got == (c < n - p ? c : n - p), "read returns the requested bytes, or all that are left");
        for (int k = 0; k < got; ++k) vc_assert(out[k] == d[p + k], "bytes read are the bytes written, in order");
        p += got;
    }
    vc_cover("end");
}

// a file that was not written with this key (or is damaged) never makes the reader leave its buffers
VC_HARNESS(damaged_file) {
    int blocks = vc_pick("blocks", 0, 2), extra = vc_pick("extra", 0, 1) * 5;
    uint8_t *f = (uint8_t *) vc_cells("file", blocks * 16 + extra, 1, 0);
    vc_file_write("d.bin", f, blocks * 16 + extra);
    EncryptedFileStreamReader r("d.bin", KEY);
    int first = vc_pick("first", 0, 2); static const int S[3] = {1, 15, 33};
    uint8_t out[40]; for (int i = 0; i < 40; ++i) out[i] = 0x77;
    int got = read_some(r, out, S[first]);
    vc_assert(got >= 0 && got <= S[first], "at most the requested bytes are returned");
    int got2 = read_some(r, out + got, 40 - got);
    vc_assert(got2 >= 0 && got + got2 <= 16 * blocks, "no more bytes than the file holds");
    vc_cover("end");
}
