// Contracts for salticidae::Bits (include/salticidae/stream.h): C04.
#include <vf.h>
#include <vector>
#include <string>
#include "salticidae/stream.h"
using namespace salticidae;
static const uint32_t MAXB = 1u << 31;
static uint8_t bit(const uint8_t *p, uint32_t i) { return (p[i >> 3] >> (i & 7)) & 1; }
static size_t words(uint32_t nbits) { return ((size_t)nbits + 63) / 64; }
static void le32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
// An arbitrary bit vector with its bytes (little-endian words) in `g`, obtained by parsing.
struct AnyBits {
    uint32_t n; size_t nw; uint8_t *g; Bits b;
    AnyBits(): n(vf_u32("nbits")) {
        vf_assume(n <= MAXB); nw = words(n); g = vf_bytes("words", nw * 8);
        DataStream s; s << (uint8_t)0; uint8_t z; s >> z;
        uint8_t h[4]; le32(h, n); s.put_data(h, h + 4); s.put_data(g, g + nw * 8);
        s >> b;
        vf_assert(s.size() == 0, "parsing consumes the header and the words");
    }
};
extern "C" void c04_parse() {
    AnyBits a;
    vf_assert(a.b.size() == a.n, "parsed size");
    uint32_t i = vf_u32("i"); vf_assume(i < a.n);
    vf_assert(a.b.get(i) == bit(a.g, i), "parsed bits");
    vf_assert(a.b[i] == bit(a.g, i), "operator[]");
    vf_cover("parse");
}
extern "C" void c04_update() {
    AnyBits a;
    uint32_t i = vf_u32("i"), j = vf_u32("j"); vf_assume(i < a.n && j < a.n);
    uint8_t bi = bit(a.g, i), bj = bit(a.g, j), want;
    switch (vf_choice("op", 3)) {
        case 0: a.b.set(i); want = 1; vf_cover("set"); break;
        case 1: a.b.unset(i); want = 0; vf_cover("unset"); break;
        default: a.b.flip(i); want = bi ^ 1; vf_cover("flip"); break;
    }
    vf_assert(a.b.get(i) == want, "the addressed bit has the required value");
    if (j != i) vf_assert(a.b.get(j) == bj, "no other bit changes");
    vf_assert(a.b.size() == a.n, "the size does not change");
}
extern "C" void c04_serialize() {
    AnyBits a;
    DataStream s; s << a.b;
    vf_assert(s.size() == 4 + a.nw * 8, "serialised length");
    uint8_t h[4]; le32(h, a.n);
    vf_assert_mem_eq(s.data(), h, 4, "serialised bit count");
    vf_assert_mem_eq(s.data() + 4, a.g, a.nw * 8, "serialised words");
    Bits c; s >> c;
    vf_assert(c.size() == a.n && s.size() == 0, "parse of a serialised vector: size");
    uint32_t i = vf_u32("i"); vf_assume(i < a.n);
    vf_assert(c.get(i) == bit(a.g, i), "parse of a serialised vector: bits");
    vf_cover("serialize");
}
extern "C" void c04_copy() {
    AnyBits a;
    uint32_t i = vf_u32("i"); vf_assume(i < a.n);
    switch (vf_choice("op", 2)) {
        case 0: { Bits c(a.b); vf_assert(c.size() == a.n && c.get(i) == bit(a.g, i), "a copy has the size and bits"); c.flip(i);
                  vf_assert(a.b.get(i) == bit(a.g, i), "a copy is independent"); vf_cover("copy"); break; }
        default: { Bits c(std::move(a.b)); vf_assert(c.size() == a.n && c.get(i) == bit(a.g, i), "a moved vector has the size and bits"); vf_cover("move"); break; }
    }
}
extern "C" void c04_clear() {
    AnyBits a;
    uint32_t i = vf_u32("i"); vf_assume(i < a.n);
    a.b.clear();
    vf_assert(a.b.get(i) == 0 && a.b.size() == a.n, "clear zeroes every bit");
    vf_cover("clear");
}
extern "C" void c04_new() {
    switch (vf_choice("op", 2)) {
        case 0: {
            Bits d; vf_assert(d.size() == 0, "a default vector is empty");
            DataStream s; s << d; vf_assert(s.size() == 4, "a default vector serialises as empty");
            uint8_t z[4] = {0}; vf_assert_mem_eq(s.data(), z, 4, "a default vector serialises with zero bits");
            Bits e(d); vf_assert(e.size() == 0, "copy of a default vector is empty");
            vf_cover("default"); break; }
        default: {
            uint32_t n = vf_u32("n"); vf_assume(n <= MAXB); Bits b(n);
            uint32_t i = vf_u32("i"); vf_assume(i < n);
            vf_assert(b.size() == n, "a new vector has the requested size");
            vf_assert(b.get(i) == 0, "a new vector is all zero");
            vf_cover("sized"); break; }
    }
}
// parsing hostile input: either an error, or a vector that stores every advertised bit
extern "C" void c04_hostile() {
    size_t n = vf_u64("n"); vf_assume(n <= (1u << 30));
    uint8_t *p = vf_bytes("buf", n);
    DataStream s(p, p + n);
    Bits b; bool thrown = false;
    try { s >> b; } catch (std::ios_base::failure &) { thrown = true; } catch (std::bad_alloc &) { thrown = true; }
    if (n < 4) { vf_assert(thrown, "a header that is too short is an error"); vf_cover("short"); return; }
    size_t nb = p[0] | p[1] << 8 | p[2] << 16 | (size_t)p[3] << 24, need = (nb + 63) / 64 * 8;
    vf_assert(thrown == (n - 4 < need), "parsing fails exactly when the advertised bits are not all present");
    if (!thrown) {
        vf_cover("ok");
        vf_assert(b.size() == nb, "size as advertised");
        if (nb) { uint32_t i = vf_u32("i"); vf_assume(i < nb); vf_assert(b.get(i) == bit(p + 4, i), "every advertised bit is stored"); }
    } else vf_cover("fail");
}
// loading from bytes; loop contract: after t words, the first 8t bytes of the storage are the zero-padded input
static uint8_t *vfg_want; static const uint8_t *vfg_src; static uint32_t vfg_len; static size_t vfg_t, vfg_nw; static bool vfg_seen;
extern "C" void c04_load_hook(int phase) {
    const uint8_t **arr = (const uint8_t **)vf_local("arr");
    uint64_t **ptr = (uint64_t **)vf_local("ptr");
    Bits **self = (Bits **)vf_local("this");
    if (!arr || !ptr || !self) vf_hook_missing("locals");
    uint8_t *d = (uint8_t *)(*self)->data.get();
    if (phase == 0) {
        vf_assert(*ptr == (uint64_t *)d && *arr == vfg_src, "load loop starts at the beginning");
        vf_assert((*self)->ndata == vfg_nw, "storage size");
        vfg_seen = true;
    } else if (phase == 1) {
        vfg_t = vf_u64("t"); vf_assume(vfg_t <= vfg_nw);
        vf_havoc(d, vfg_nw * 8, "data");
        memcpy(d, vfg_want, vfg_t * 8);
        *ptr = (uint64_t *)(d + 8 * vfg_t);
        size_t c = 8 * vfg_t; if (c > vfg_len) c = vfg_len;
        *arr = vfg_src + c;
    } else {
        vf_inv(*ptr == (uint64_t *)(d + 8 * (vfg_t + 1)), "load: next word");
        size_t c = 8 * (vfg_t + 1); if (c > vfg_len) c = vfg_len;
        vf_inv(*arr == vfg_src + c, "load: input position");
        vf_assert_mem_eq(d, vfg_want, 8 * (vfg_t + 1), "load: words so far");
    }
}
extern "C" void c04_load() {
    uint32_t n = vf_u32("n"); vf_assume(n < (1u << 28));
    uint8_t *p = vf_bytes("buf", n);
    vfg_nw = words(n * 8); vfg_len = n;
    vfg_want = (uint8_t *)malloc(vfg_nw * 8);
    memset(vfg_want, 0, vfg_nw * 8); memcpy(vfg_want, p, n);
    Bits *b;
    if (vf_choice("how", 2)) { bytearray_t v(p, p + n); vfg_src = v.data(); b = new Bits(v); vf_cover("bytearray"); }
    else { vfg_src = p; b = new Bits(p, n); vf_cover("raw"); }
    vf_assert(b->size() == n * 8, "loaded size");
    uint32_t i = vf_u32("i"); vf_assume(i < n * 8);
    vf_assert(b->get(i) == bit(p, i), "loaded bits");
    DataStream s; s << *b;
    vf_assert(s.size() == 4 + vfg_nw * 8, "loaded vector serialises completely");
    vf_assert_mem_eq(s.data() + 4, vfg_want, vfg_nw * 8, "padding bits are zero");
    vf_cover("load");
}
