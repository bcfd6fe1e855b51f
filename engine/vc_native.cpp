// Native runtime of the contract harness: replays recorded inputs or draws biased random ones.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <random>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <exception>
struct Rec { std::string name, kind; std::vector<long long> v; };
static std::vector<Rec> g_in, g_log;
static size_t g_pos = 0;
static bool g_replay = false, g_random = true;
static std::mt19937_64 g_rng;
static const char *g_out = nullptr;
static const char *g_harness = "";
static std::vector<void *> g_mem;
struct Skip {};
static void dump(const char *why) {
    if (!g_out) return;
    FILE *f = fopen(g_out, "w");
    if (!f) return;
    fprintf(f, "# mode random\n# harness %s\n# why %s\n", g_harness, why);
    for (auto &r : g_log) { fprintf(f, "%s %s %zu", r.name.c_str(), r.kind.c_str(), r.v.size()); for (auto x : r.v) fprintf(f, " %lld", x); fprintf(f, "\n"); }
    fclose(f);
}
static void fail(const char *why) { printf("VCFAIL %s %s\n", g_harness, why); fflush(stdout); dump(why); _exit(3); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void death() { dump("sanitizer"); printf("VCFAIL %s sanitizer-report\n", g_harness); fflush(stdout); }
static void onsig(int s) { static char b[64]; snprintf(b, sizeof b, "signal-%d", s); fail(b); }
static long long next_scalar(const char *name, const char *kind, long long lo, long long hi, bool full) {
    long long v;
    if (g_replay) {
        if (g_pos < g_in.size()) { v = g_in[g_pos].v.empty() ? lo : g_in[g_pos].v[0]; g_pos++; }
        else v = lo;
    } else {
        unsigned long long span = (unsigned long long) hi - (unsigned long long) lo;
        int mode = g_rng() % 10;
        if (span == 0 && !full) v = lo;
        else if (full) {
            if (mode < 5) v = (long long) g_rng();
            else if (mode < 7) v = (long long) (g_rng() % 17) - 8;
            else if (mode < 8) v = (long long) ((1ULL << (g_rng() % 64)) + (g_rng() % 3) - 1ULL);
            else { static const unsigned long long sp[] = {0, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x80000000, 0x00800000, 0x007fffff, 0x477fe000, 0x33800000, 0x38800000, 0x387fc000, 0x7f7fffff, 0x42fe0000, 0x43000000, 0xc3000000}; v = (long long) sp[g_rng() % 16]; }
        }
        else if (span <= 16 || mode < 3) v = (long long) ((unsigned long long) lo + (span + 1 ? g_rng() % (span + 1) : g_rng()));
        else if (mode < 6) v = (long long) ((unsigned long long) lo + g_rng() % 9);
        else if (mode == 6) v = (long long) ((unsigned long long) hi - g_rng() % 4);
        else if (lo <= 0 && hi >= 9) v = (long long) (g_rng() % 10);
        else v = (long long) ((unsigned long long) lo + g_rng() % (span < 64 ? span + 1 : 64));
        if (!full) { if (v < lo) v = lo; if (v > hi) v = hi; }
    }
    g_log.push_back({name, kind, {v}});
    return v;
}
extern "C" {
int32_t vc_i32(const char *n, int32_t lo, int32_t hi) { if (lo > hi) throw Skip(); int32_t v = (int32_t) next_scalar(n, "i", lo, hi, false); if (v < lo || v > hi) throw Skip(); return v; }
int64_t vc_i64(const char *n, int64_t lo, int64_t hi) { if (lo > hi) throw Skip(); int64_t v = next_scalar(n, "i", lo, hi, false); if (v < lo || v > hi) throw Skip(); return v; }
int64_t vc_any(const char *n, int64_t lo, int64_t hi) { return lo; }
uint8_t vc_u8(const char *n) { return (uint8_t) next_scalar(n, "i", 0, 255, false); }
uint16_t vc_u16(const char *n) { return (uint16_t) next_scalar(n, "i", 0, 65535, false); }
uint32_t vc_u32(const char *n) { return (uint32_t) next_scalar(n, "i", 0, 0, true); }
uint64_t vc_u64(const char *n) { return (uint64_t) next_scalar(n, "i", 0, 0, true); }
uint32_t vc_f32bits(const char *n) { return (uint32_t) next_scalar(n, "i", 0, 0, true); }
uint64_t vc_f64bits(const char *n) { return (uint64_t) next_scalar(n, "i", 0, 0, true); }
bool vc_bool(const char *n) { return next_scalar(n, "i", 0, 1, false) != 0; }
int32_t vc_pick(const char *n, int32_t lo, int32_t hi) { return vc_i32(n, lo, hi); }
static void *mk(const char *name, int64_t n, int64_t es, int64_t kind, bool input, bool cells) {
    if (n < 0 || n * es > (1 << 26)) throw Skip();
    char *p = (char *) malloc(n * es ? n * es : 1);
    g_mem.push_back(p);
    if (!input) { memset(p, 0xA5, n * es); return p; }
    if (g_replay && cells) {   // symbolic engine records cells one by one
        for (int64_t i = 0; i < n; ++i) { long long v = g_pos < g_in.size() && !g_in[g_pos].v.empty() ? g_in[g_pos].v[0] : 0; g_pos++; memcpy(p + i * es, &v, es); g_log.push_back({name, "i", {v}}); }
        return p;
    }
    Rec r; r.name = name; r.kind = "a" + std::to_string(es);
    std::vector<long long> vals;
    if (g_replay) { if (g_pos < g_in.size()) vals = g_in[g_pos].v; g_pos++; }
    for (int64_t i = 0; i < n; ++i) {
        long long v;
        if (g_replay) v = i < (int64_t) vals.size() ? vals[i] : (vals.empty() ? 0 : vals[i % vals.size()]);
        else if (kind == 1) {
            double d = (double) ((long long) (g_rng() % 4001) - 2000) / 16.0;
            v = 0;
            if (es == 4) { float f = (float) d; memcpy(&v, &f, 4); } else memcpy(&v, &d, 8);
        } else v = (long long) g_rng();
        memcpy(p + i * es, &v, es);
        r.v.push_back(v);
        if (cells) g_log.push_back({name, "i", {v}});
    }
    if (!cells) g_log.push_back(r);
    return p;
}
void *vc_array(const char *n, int64_t c, int64_t es, int64_t k) { return mk(n, c, es, k, true, false); }
void *vc_out_array(const char *n, int64_t c, int64_t es, int64_t k) { return mk(n, c, es, k, false, false); }
void *vc_cells(const char *n, int64_t c, int64_t es, int64_t k) { return mk(n, c, es, k, true, true); }
void vc_assume(bool c) { if (!c) throw Skip(); }
void vc_assert(bool c, const char *id) { if (!c) fail(id); }
void vc_cover(const char *) {}
bool vc_symbolic() { return false; }
bool vc_random() { return g_random; }
int64_t vc_concretize(int64_t v) { return v; }
int64_t vc_file_read(const char *path, void *buf, int64_t cap) {
    FILE *f = fopen(path, "rb");
    if (!f) return -1;
    fseek(f, 0, SEEK_END); int64_t n = ftell(f); fseek(f, 0, SEEK_SET);
    if (fread(buf, 1, n < cap ? n : cap, f) == (size_t) -1) {}
    fclose(f);
    return n;
}
void vc_file_write(const char *path, const void *buf, int64_t n) { FILE *f = fopen(path, "wb"); if (f) { fwrite(buf, 1, n, f); fclose(f); } }
void vc_print(const char *s, int64_t a) { fprintf(stderr, "VCPRINT %s %lld\n", s, (long long) a); }
}
struct HarnessEntry { const char *name; void (*fn)(); };
extern HarnessEntry vc_harness_table[];
static bool once(void (*fn)()) {
    g_log.clear(); g_pos = 0;
    bool ok = true;
    try { fn(); } catch (const Skip &) { ok = false; }
    catch (const std::exception &e) { printf("uncaught exception: %s\n", e.what()); fail("uncaught-exception"); }
    for (auto p : g_mem) free(p);
    g_mem.clear();
    return ok;
}
int main(int argc, char **argv) {
    // replay <harness> <file>  |  random <harness> <seed> <seconds> <outfile> [maxiter]
    if (argc < 4) { for (HarnessEntry *h = vc_harness_table; h->name; ++h) puts(h->name); return 2; }
    void (*fn)() = nullptr;
    for (HarnessEntry *h = vc_harness_table; h->name; ++h) if (!strcmp(h->name, argv[2])) fn = h->fn;
    if (!fn) { fprintf(stderr, "no harness %s\n", argv[2]); return 2; }
    g_harness = argv[2];
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig);
    if (!__sanitizer_set_death_callback) signal(SIGSEGV, onsig);
    if (!strcmp(argv[1], "replay")) {
        g_replay = true; g_random = false;
        FILE *f = fopen(argv[3], "r");
        if (!f) return 2;
        char *line = nullptr; size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            if (!strncmp(line, "# mode random", 13)) g_random = true;
            if (line[0] == '#' || line[0] == '\n') continue;
            Rec r; char *s = strtok(line, " \n"); if (!s) continue; r.name = s;
            s = strtok(nullptr, " \n"); if (!s) continue; r.kind = s;
            strtok(nullptr, " \n");
            while ((s = strtok(nullptr, " \n"))) r.v.push_back(s[0] == '-' ? strtoll(s, 0, 10) : (long long) strtoull(s, 0, 10));
            g_in.push_back(r);
        }
        fclose(f);
        alarm(60);
        bool ok = once(fn);
        printf(ok ? "VCOK replay held\n" : "VCSKIP precondition not met\n");
        return ok ? 0 : 4;
    }
    unsigned long long seed = strtoull(argv[3], 0, 10);
    double secs = atof(argv[4]); g_out = argc > 5 ? argv[5] : nullptr;
    long maxit = argc > 6 ? atol(argv[6]) : 1L << 40;
    auto t0 = std::chrono::steady_clock::now();
    long n = 0, good = 0;
    while (n < maxit) {
        g_rng.seed(seed * 1000003ULL + n);
        alarm(60);
        if (once(fn)) good++;
        n++;
        if ((n & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    printf("VCRAND %s iterations %ld satisfied-precondition %ld\n", g_harness, n, good);
    return 0;
}
