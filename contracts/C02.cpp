// Contracts for hex conversion (DataStream::get_hex/load_hex, get_hex, from_hex, Serializable::to_hex/from_hex): C02.
#include <vf.h>
#include <vector>
#include <string>
#include "salticidae/stream.h"
using namespace salticidae;
static const size_t MAXN = 1ul << 28;
static size_t cnt(const char *nm) { size_t n = vf_u64(nm); vf_assume(n <= MAXN); return n; }
static char digit(uint8_t n) { return n < 10 ? '0' + n : 'a' + (n - 10); }
static bool isx(uint8_t c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static uint8_t val(uint8_t c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
extern "C" void c02_to_hex() {
    size_t n = cnt("n"), off = vf_u64("off"); vf_assume(off <= n);
    uint8_t *p = vf_bytes("buf", n);
    DataStream s(p, p + n);
    s.get_data_inplace(off);
    std::string h = s.get_hex();
    vf_assert(h.size() == 2 * (n - off), "two digits per unread byte");
    size_t k = vf_u64("k"); vf_assume(k < n - off);
    vf_assert(h[2 * k] == digit(p[off + k] >> 4), "high digit");
    vf_assert(h[2 * k + 1] == digit(p[off + k] & 15), "low digit");
    vf_assert(s.size() == n - off, "stream unchanged");
    vf_cover("hex");
}
extern "C" void c02_from_hex() {
    size_t n = cnt("n");
    uint8_t *p = vf_bytes("txt", n);
    std::string h((const char *)p, n);
    uint8_t *old = vf_bytes("old", 3);
    DataStream s(old, old + 3); uint8_t dummy; s >> dummy;
    bool thrown = false;
    try { s.load_hex(h); } catch (std::invalid_argument &) { thrown = true; }
    size_t k = vf_u64("k"); vf_assume(k < n / 2 || n == 0);
    if (thrown) { vf_cover("rejected"); }
    else {
        vf_cover("accepted");
        vf_assert((n & 1) == 0, "odd length is rejected");
        vf_assert(s.size() == n / 2, "one byte per two digits");
        if (n) {
            uint8_t b = s.data()[k];
            vf_assume_byte_facts(k); 
            vf_assert(isx(p[2 * k]) & isx(p[2 * k + 1]), "text with a non-hex character is rejected");
            vf_assert(b == (uint8_t)(val(p[2 * k]) * 16 + val(p[2 * k + 1])), "decodes each pair exactly");
        }
    }
}
extern "C" void c02_accepts() {   // every well-formed text is accepted
    size_t n = cnt("n");
    uint8_t *p = vf_bytes("txt", 2 * n);
    std::string h(2 * n, '0');
    for (size_t i = 0; i < 2 * n; i++) h[i] = isx(p[i]) ? p[i] : 'f';   // an arbitrary well-formed text
    DataStream s;
    bool thrown = false;
    try { s.load_hex(h); } catch (std::invalid_argument &) { thrown = true; }
    vf_assert(!thrown, "well-formed text is accepted");
    vf_cover("accepts");
}
extern "C" void c02_roundtrip() {
    size_t n = cnt("n");
    uint8_t *p = vf_bytes("buf", n);
    bytearray_t b(p, p + n);
    std::string h = get_hex(b);
    bool thrown = false; bytearray_t c;
    try { c = from_hex(h); } catch (std::invalid_argument &) { thrown = true; }
    vf_assert(!thrown, "own output is accepted");
    vf_assert(c.size() == n, "round trip keeps the length");
    vf_assert_mem_eq(c.data(), p, n, "round trip is exact");
    vf_cover("roundtrip");
}
