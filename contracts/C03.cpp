// Contracts for salticidae::uint256_t = Blob<256> (include/salticidae/stream.h): C03.
#include <vf.h>
#include <vector>
#include <string>
#include "salticidae/stream.h"
using namespace salticidae;
static const size_t L = 32;
static bool eq(const uint8_t *a, const uint8_t *b) { uint8_t d = 0; for (size_t i = 0; i < L; i++) d |= a[i] ^ b[i]; return d == 0; }
static bool lt(const uint8_t *a, const uint8_t *b) {   // numeric order of the little-endian value
    bool r = false;
    for (size_t i = 0; i < L; i++) r = (a[i] < b[i]) | ((a[i] == b[i]) & r);
    return r;
}
static uint256_t any(const uint8_t *p) {
    switch (vf_choice("ctor", 3)) {
        case 0: return uint256_t(p);
        case 1: return uint256_t(bytearray_t(p, p + L));
        default: { uint256_t x; x.from_bytes(bytearray_t(p, p + L)); return x; }
    }
}
extern "C" void c03_bytes() {
    uint8_t *p = vf_bytes("a", L);
    uint256_t x = any(p);
    vf_assert(!x.is_null(), "a loaded identifier is not null");
    DataStream s; s << x;
    vf_assert(s.size() == L, "serialises to 32 bytes");
    vf_assert_mem_eq(s.data(), p, L, "serialises to exactly its bytes");
    bytearray_t b = x;
    vf_assert(b.size() == L, "byte conversion length");
    vf_assert_mem_eq(b.data(), p, L, "byte conversion is exact");
    bytearray_t c = x.to_bytes();
    vf_assert(c.size() == L, "to_bytes length");
    vf_assert_mem_eq(c.data(), p, L, "to_bytes is exact");
    uint256_t y;
    s >> y;
    vf_assert(s.size() == 0 && y == x && !(y != x) && !y.is_null(), "parsing back gives an equal identifier");
    vf_assert(std::hash<const uint256_t>()(x) == std::hash<uint256_t>()(y), "equal identifiers hash equally");
    uint256_t z(x);
    vf_assert(z == x && !z.is_null(), "a copy is equal");
    vf_cover("bytes");
}
extern "C" void c03_null() {
    uint256_t x;
    vf_assert(x.is_null(), "a default identifier is null");
    DataStream s; s << x;
    vf_assert(s.size() == L, "null serialises to 32 bytes");
    uint8_t z[L] = {0};
    vf_assert_mem_eq(s.data(), z, L, "null serialises to zeros");
    uint256_t y;
    vf_assert(x == y && !(x < y), "nulls are equal");
    vf_cover("null");
}
extern "C" void c03_badlen() {
    size_t n = vf_u64("n"); vf_assume(n <= (1ul << 20));
    uint8_t *p = vf_bytes("a", n);
    bytearray_t b(p, p + n);
    bool thrown = false;
    try { uint256_t x(b); vf_assert(!x.is_null(), "loaded"); vf_cover("right"); } catch (std::invalid_argument &) { thrown = true; vf_cover("wrong"); }
    vf_assert(thrown == (n != L), "a byte array is accepted exactly when it has 32 bytes");
}
extern "C" void c03_short() {   // parsing from a stream with too few bytes is an error
    size_t n = vf_u64("n"); vf_assume(n <= (1ul << 20));
    uint8_t *p = vf_bytes("a", n);
    DataStream s(p, p + n);
    bool thrown = false; uint256_t x;
    try { s >> x; } catch (std::ios_base::failure &) { thrown = true; }
    vf_assert(thrown == (n < L), "parsing fails exactly when fewer than 32 bytes remain");
    if (!thrown) { vf_cover("ok"); DataStream t; t << x; vf_assert_mem_eq(t.data(), p, L, "parses the first 32 bytes"); vf_assert(s.size() == n - L, "consumes 32 bytes"); }
    else vf_cover("short");
}
extern "C" void c03_order() {
    uint8_t *p = vf_bytes("a", L), *q = vf_bytes("b", L);
    uint256_t x(p), y(q);
    bool e = eq(p, q);
    vf_assert((x == y) == e, "equal exactly when the bytes are equal");
    vf_assert((x != y) == !e, "inequality is the complement");
    vf_assert((x < y) == lt(p, q), "less-than is the numeric order");
    vf_cover("order");
}
extern "C" void c03_total() {   // strict total order, stated directly
    uint8_t *p = vf_bytes("a", L), *q = vf_bytes("b", L), *r = vf_bytes("c", L);
    uint256_t x(p), y(q), z(r);
    vf_assert(!(x < x), "irreflexive");
    bool xy = x < y, yx = y < x, e = x == y;
    vf_assert((int)xy + (int)yx + (int)e == 1, "exactly one of <, >, == holds");
    bool yz = y < z, xz = x < z;
    vf_assert(!(xy & yz) | xz, "transitive");
    vf_cover("total");
}
