// C15: AES-256 (FIPS-197) and its inverse, in-place on exactly one block.
#include "vc.h"
#include "encryption/aes.h"

namespace {
// FIPS-197, written from the standard: bytes in[r + 4c], S-box = affine map of the inverse in GF(2^8)
struct Spec {
    uint8_t *sbox, *rsbox;
    static uint8_t xt(uint8_t a) { return uint8_t((a << 1) ^ ((a >> 7) * 0x1b)); }
    static uint8_t mul(uint8_t a, uint8_t k) {
        uint8_t r = 0;
        for (int b = 0; b < 8; ++b) { if (k >> b & 1) r ^= a; a = xt(a); }
        return r;
    }
    static uint8_t rotl(uint8_t x, int n) { return uint8_t(x << n | x >> (8 - n)); }
    Spec(uint8_t *s, uint8_t *r) : sbox(s), rsbox(r) {
        // p runs through the non-zero elements as powers of the generator {03}, q through their inverses
        uint8_t p = 1, q = 1;
        do {
            p = uint8_t(p ^ xt(p));
            q ^= uint8_t(q << 1); q ^= uint8_t(q << 2); q ^= uint8_t(q << 4);
            if (q & 0x80) q ^= 0x09;
            sbox[p] = uint8_t(q ^ rotl(q, 1) ^ rotl(q, 2) ^ rotl(q, 3) ^ rotl(q, 4) ^ 0x63);
        } while (p != 1);
        sbox[0] = 0x63;
        for (int i = 0; i < 256; ++i) rsbox[sbox[i]] = uint8_t(i);
    }
    void expand(const uint8_t *key, uint8_t *w) const {   // 5.2 with Nk = 8, Nr = 14
        for (int i = 0; i < 32; ++i) w[i] = key[i];
        uint8_t rcon = 1;
        for (int i = 8; i < 60; ++i) {
            uint8_t t[4];
            for (int b = 0; b < 4; ++b) t[b] = w[4 * (i - 1) + b];
            if (i % 8 == 0) {
                uint8_t u[4];
                for (int b = 0; b < 4; ++b) u[b] = sbox[t[(b + 1) % 4]];
                for (int b = 0; b < 4; ++b) t[b] = u[b];
                t[0] ^= rcon; rcon = xt(rcon);
            } else if (i % 8 == 4) {
                for (int b = 0; b < 4; ++b) t[b] = sbox[t[b]];
            }
            for (int b = 0; b < 4; ++b) w[4 * i + b] = uint8_t(w[4 * (i - 8) + b] ^ t[b]);
        }
    }
    void cipher(const uint8_t *in, const uint8_t *w, uint8_t *out) const {   // 5.1
        uint8_t s[4][4], t[4][4];
        for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) s[r][c] = uint8_t(in[r + 4 * c] ^ w[4 * c + r]);
        for (int n = 1; n <= 14; ++n) {
            for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) t[r][c] = sbox[s[r][(c + r) % 4]];
            static const uint8_t m[4] = {2, 3, 1, 1};
            for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) {
                uint8_t x = t[r][c];
                if (n != 14) { x = 0; for (int k = 0; k < 4; ++k) x ^= mul(t[k][c], m[(k - r + 4) % 4]); }
                s[r][c] = uint8_t(x ^ w[16 * n + 4 * c + r]);
            }
        }
        for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) out[r + 4 * c] = s[r][c];
    }
    void inv_cipher(const uint8_t *in, const uint8_t *w, uint8_t *out) const {   // 5.3
        uint8_t s[4][4], t[4][4];
        for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) s[r][c] = uint8_t(in[r + 4 * c] ^ w[16 * 14 + 4 * c + r]);
        for (int n = 13; n >= 0; --n) {
            for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) t[r][c] = uint8_t(rsbox[s[r][(c - r + 4) % 4]] ^ w[16 * n + 4 * c + r]);
            static const uint8_t m[4] = {14, 11, 13, 9};
            for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) {
                uint8_t x = t[r][c];
                if (n != 0) { x = 0; for (int k = 0; k < 4; ++k) x ^= mul(t[k][c], m[(k - r + 4) % 4]); }
                s[r][c] = x;
            }
        }
        for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) out[r + 4 * c] = s[r][c];
    }
};

static const uint8_t pad_key[32] = {0x60, 0x3d, 0xeb, 0x10, 0x15, 0xca, 0x71, 0xbe, 0x2b, 0x73, 0xae, 0xf0, 0x85, 0x7d, 0x77, 0x81,
                                    0x1f, 0x35, 0x2c, 0x07, 0x3b, 0x61, 0x08, 0xd7, 0x2d, 0x98, 0x10, 0xa3, 0x09, 0x14, 0xdf, 0xf4};

struct Block { uint8_t before[8]; uint8_t b[16]; uint8_t after[8]; };

void input(Block &x, uint8_t *orig) {
    uint8_t *p = (uint8_t *) vc_cells("block", 32, 1, 0);
    for (int i = 0; i < 32; ++i) { orig[i] = p[i]; ((uint8_t *) &x)[i] = p[i]; }
}
void frame(const Block &x, const uint8_t *orig) {
    for (int i = 0; i < 8; ++i) { vc_assert(x.before[i] == orig[i], "bytes before the block unchanged"); vc_assert(x.after[i] == orig[24 + i], "bytes after the block unchanged"); }
}
void context(AES_ctx &ctx, uint8_t *rk) {
    uint8_t *p = (uint8_t *) vc_cells("roundkey", AES_keyExpSize, 1, 0);
    for (int i = 0; i < AES_keyExpSize; ++i) { rk[i] = p[i]; ctx.RoundKey[i] = p[i]; }
    for (int i = 0; i < AES_BLOCKLEN; ++i) ctx.Iv[i] = uint8_t(i * 7);
}
void same_context(const AES_ctx &ctx, const uint8_t *rk) {
    for (int i = 0; i < AES_keyExpSize; ++i) vc_assert(ctx.RoundKey[i] == rk[i], "round keys unchanged");
    for (int i = 0; i < AES_BLOCKLEN; ++i) vc_assert(ctx.Iv[i] == uint8_t(i * 7), "iv unchanged");
}
}

// encryption of one block under any round keys is Cipher() of FIPS-197 5.1
VC_HARNESS(ecb_encrypt) {
    uint8_t sb[256], rsb[256]; Spec spec(sb, rsb);
    AES_ctx ctx; uint8_t rk[AES_keyExpSize]; context(ctx, rk);
    Block x; uint8_t orig[32]; input(x, orig);
    uint8_t want[16];
    spec.cipher(orig + 8, rk, want);
    AES_ECB_encrypt(&ctx, x.b);
    for (int i = 0; i < 16; ++i) vc_assert(x.b[i] == want[i], "encrypted byte is the FIPS-197 cipher byte");
    frame(x, orig);
    same_context(ctx, rk);
    vc_cover("end");
}

// decryption of one block under any round keys is InvCipher() of FIPS-197 5.3
VC_HARNESS(ecb_decrypt) {
    uint8_t sb[256], rsb[256]; Spec spec(sb, rsb);
    AES_ctx ctx; uint8_t rk[AES_keyExpSize]; context(ctx, rk);
    Block x; uint8_t orig[32]; input(x, orig);
    uint8_t want[16];
    spec.inv_cipher(orig + 8, rk, want);
    AES_ECB_decrypt(&ctx, x.b);
    for (int i = 0; i < 16; ++i) vc_assert(x.b[i] == want[i], "decrypted byte is the FIPS-197 inverse cipher byte");
    frame(x, orig);
    same_context(ctx, rk);
    vc_cover("end");
}

// decrypt . encrypt and encrypt . decrypt are the identity for any round keys
VC_HARNESS(ecb_inverse) {
    AES_ctx ctx; uint8_t rk[AES_keyExpSize]; context(ctx, rk);
    Block x; uint8_t orig[32]; input(x, orig);
    bool enc_first = vc_pick("encrypt_first", 0, 2) != 0;
    if (enc_first) { AES_ECB_encrypt(&ctx, x.b); AES_ECB_decrypt(&ctx, x.b); }
    else { AES_ECB_decrypt(&ctx, x.b); AES_ECB_encrypt(&ctx, x.b); }
    for (int i = 0; i < 16; ++i) vc_assert(x.b[i] == orig[8 + i], "decryption inverts encryption");
    frame(x, orig);
    vc_cover("end");
}

static void check_schedule(const AES_ctx &ctx, const uint8_t *key, int len) {
    uint8_t sb[256], rsb[256]; Spec spec(sb, rsb);
    uint8_t full[32];
    for (int i = 0; i < 32; ++i) full[i] = i < len ? key[i] : pad_key[i];
    uint8_t w[AES_keyExpSize];
    spec.expand(full, w);
    for (int i = 0; i < AES_keyExpSize; ++i) vc_assert(ctx.RoundKey[i] == w[i], "round key byte is the FIPS-197 key expansion");
}

// the key schedule of every 256-bit key is KeyExpansion() of FIPS-197 5.2; only the round keys are written
VC_HARNESS(key_schedule) {
    int len = vc_pick("len", 32, 34);
    uint8_t *key = (uint8_t *) vc_cells("key", len, 1, 0);
    AES_ctx ctx;
    for (int i = 0; i < AES_BLOCKLEN; ++i) ctx.Iv[i] = uint8_t(i + 3);
    AES_init_ctx(&ctx, key, len);
    check_schedule(ctx, key, len);
    for (int i = 0; i < AES_BLOCKLEN; ++i) vc_assert(ctx.Iv[i] == uint8_t(i + 3), "iv unchanged");
    vc_cover("end");
}

// shorter keys are completed with the default key bytes; no byte beyond the given key is read
VC_HARNESS(short_key_schedule) {
    int len = vc_pick("len", 0, 32);
    uint8_t *key = (uint8_t *) vc_cells("key", len, 1, 0);
    AES_ctx ctx;
    AES_init_ctx(&ctx, key, len);
    check_schedule(ctx, key, len);
    vc_cover("end");
}

VC_HARNESS(init_with_iv) {
    int len = vc_pick("len", 0, 34);
    int ivlen = vc_pick("ivlen", 0, 2) ? 16 : 5;
    uint8_t *key = (uint8_t *) vc_cells("key", len, 1, 0);
    uint8_t *iv = (uint8_t *) vc_cells("iv", ivlen, 1, 0);
    AES_ctx ctx;
    AES_init_ctx_iv(&ctx, key, len, iv, ivlen);
    check_schedule(ctx, key, len);
    for (int i = 0; i < 16; ++i) vc_assert(ctx.Iv[i] == (i < ivlen ? iv[i] : uint8_t(0xf0 + i)), "iv is the given one, completed with the default bytes");
    vc_cover("end");
}
