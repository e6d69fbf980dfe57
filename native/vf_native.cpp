// Native implementation of the verifier intrinsics: nondeterministic values come from a replay file
// (VF_REPLAY, one "kind name value" per line, in call order) or, with VF_FUZZ=<seed>, from a generator.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <stdarg.h>
#include <openssl/sha.h>
struct In { std::string kind, name, val; size_t n; };
static std::vector<In> ins; static size_t pos; static bool fuzz; static uint64_t rng;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static FILE *rec;
static uint64_t pick(int w) {
    uint64_t v;
    switch (rnd() % 6) { case 0: v = 0; break; case 1: v = rnd() % 4; break; case 2: v = rnd() % 64; break; case 3: v = rnd(); break; case 4: v = (uint64_t)0 - rnd() % 16; break; default: v = (1ull << (rnd() % 64)) - rnd() % 2; }
    return w == 64 ? v : v & ((1ull << w) - 1);
}
static uint64_t next(const char *kind, const char *name, int w) {
    if (fuzz) return pick(w);
    while (pos < ins.size()) { In &i = ins[pos++]; if (i.kind == kind) return strtoull(i.val.c_str(), nullptr, 10); }
    return 0;
}
extern "C" {
uint64_t vf_u64(const char *n) { return next("u64", n, 64); }
uint32_t vf_u32(const char *n) { return next("u32", n, 32); }
uint16_t vf_u16(const char *n) { return next("u16", n, 16); }
uint8_t vf_u8(const char *n) { return next("u8", n, 8); }
bool vf_bool(const char *n) { return next("bool", n, 1) & 1; }
double vf_double(const char *) { return 1.0; }
uint32_t vf_choice(const char *n, uint32_t m) { uint32_t v = next("u32", n, 32); return m ? v % m : 0; }
void vf_assume(bool c) { if (!c) { if (!fuzz) fprintf(stderr, "VF-ASSUME-FALSE\n"); _exit(77); } }
void vf_assert(bool c, const char *l) { if (!c) { fprintf(stderr, "VF-FAIL %s\n", l); fflush(stderr); _exit(1); } }
void vf_inv(bool c, const char *l) { vf_assert(c, l); }
void vf_cover(const char *) {}
void vf_kill() { _exit(77); }
int vf_is_native() { return 1; }
int vf_bounded() { return 1; }
int vf_bound() { const char *b = getenv("VF_BOUND"); return b ? atoi(b) : 2; }
int vf_tier() { const char *b = getenv("VF_TIERN"); return b ? atoi(b) : 0; }
uint8_t *vf_bytes(const char *n, size_t len) {
    if (len > (1ul << 28)) _exit(77);
    uint8_t *p = (uint8_t *)malloc(len ? len : 1);
    if (fuzz) { for (size_t i = 0; i < len; i++) p[i] = rnd() % 3 ? rnd() : rnd() % 4; return p; }
    memset(p, 0, len);
    while (pos < ins.size()) { In &i = ins[pos++]; if (i.kind == "bytes") {
        for (size_t k = 0; 2 * k + 1 < i.val.size() && k < len; k++) p[k] = strtoul(i.val.substr(2 * k, 2).c_str(), nullptr, 16);
        break; } }
    return p;
}
void vf_havoc(void *p, size_t n, const char *nm) { uint8_t *b = vf_bytes(nm, n); memcpy(p, b, n); free(b); }
void vf_assert_mem_eq(const void *p, const void *q, size_t n, const char *l) { vf_assert(n == 0 || memcmp(p, q, n) == 0, l); }
void vf_assume_byte_facts(uint64_t) {}
void vf_grow(void *, size_t) {}
size_t vf_objsize(const void *) { return 0; }
int vf_alive(const void *) { return 1; }
uint64_t vf_leak_check() { return 0; }
void *vf_local(const char *) { return nullptr; }
void *vf_param(int) { return nullptr; }
void vf_hook_missing(const char *) {}
void vf_hash(void *out, size_t n, const void *in, size_t len, int) { uint8_t d[32]; SHA256((const uint8_t *)in, len, d); for (size_t i = 0; i < n; i++) ((uint8_t *)out)[i] = d[i % 32]; }
uint64_t vf_uf(uint64_t id, uint64_t a, uint64_t b) { uint64_t x[3] = {id, a, b}; uint8_t d[32]; SHA256((uint8_t *)x, sizeof x, d); uint64_t r; memcpy(&r, d, 8); return r; }
void vf_dump(const char *, ...) {}
}
int main(int argc, char **argv) {
    if (argc < 2) return 99;
    const char *f = getenv("VF_REPLAY"), *z = getenv("VF_FUZZ");
    if (z) { fuzz = true; rng = strtoull(z, nullptr, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 8; i++) rnd(); }
    else if (f) {
        FILE *fp = fopen(f, "r"); if (!fp) return 99;
        char *line = nullptr; size_t cap = 0; ssize_t k;
        while ((k = getline(&line, &cap, fp)) > 0) {
            if (line[k - 1] == '\n') line[--k] = 0;
            if (line[0] == '#' || !k) continue;
            std::string s(line); size_t a = s.find(' '), b = s.find(' ', a + 1);
            if (a == std::string::npos || b == std::string::npos) continue;
            ins.push_back({s.substr(0, a), s.substr(a + 1, b - a - 1), s.substr(b + 1), 0});
        }
        fclose(fp);
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 99; }
    fn();
    fflush(stdout); _exit(0);
}

extern "C" void vf_raw_vector(void *, size_t) {}
