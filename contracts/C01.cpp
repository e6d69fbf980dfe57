// Contracts for salticidae::DataStream (include/salticidae/stream.h): C01.
#include <vf.h>
#include <vector>
#include <string>
#include "salticidae/stream.h"
using namespace salticidae;
static const size_t MAXN = 1ul << 30;

// An arbitrary stream: n arbitrary bytes, of which `off` have been read already.
struct Any {
    size_t n, off; uint8_t *ghost; DataStream s;
    static size_t cnt(const char *nm) { size_t n = vf_u64(nm); vf_assume(n <= MAXN); return n; }
    Any(): n(cnt("n")), off(vf_u64("off")), ghost((vf_assume(off <= n), vf_bytes("buf", n))), s(ghost, ghost + n) {
        s.get_data_inplace(off);
    }
    size_t left() const { return n - off; }
    const uint8_t *rest() const { return ghost + off; }
};
// Stream `s` holds exactly the unread bytes of `a`.
static void same(DataStream &s, const Any &a, const char *l) {
    vf_assert(s.size() == a.left(), l);
    vf_assert_mem_eq(s.data(), a.rest(), a.left(), l);
}
// `s` holds the unread bytes of `a` followed by len bytes at p.
static void appended(DataStream &s, const Any &a, const void *p, size_t len, const char *l) {
    vf_assert(s.size() == a.left() + len, l);
    vf_assert_mem_eq(s.data(), a.rest(), a.left(), l);
    vf_assert_mem_eq(s.data() + a.left(), p, len, l);
}
template<typename T> void put_int(T v, const char *l) {
    Any a;
    DataStream &r = (a.s << v);
    vf_assert(&r == &a.s, "returns the stream");
    appended(a.s, a, &v, sizeof(T), l);
    vf_cover("put");
}
extern "C" void c01_put_ints() {
    switch (vf_choice("w", 9)) {
        case 0: put_int<uint8_t>(vf_u8("v"), "put u8 appends"); break;
        case 1: put_int<uint16_t>(vf_u16("v"), "put u16 appends"); break;
        case 2: put_int<uint32_t>(vf_u32("v"), "put u32 appends"); break;
        case 3: put_int<uint64_t>(vf_u64("v"), "put u64 appends"); break;
        case 4: put_int<int8_t>(vf_u8("v"), "put i8 appends"); break;
        case 5: put_int<int16_t>(vf_u16("v"), "put i16 appends"); break;
        case 6: put_int<int32_t>(vf_u32("v"), "put i32 appends"); break;
        case 7: put_int<int64_t>(vf_u64("v"), "put i64 appends"); break;
        default: put_int<bool>(vf_bool("v"), "put bool appends"); break;
    }
}
template<typename T> void get_int(const char *l) {
    Any a;
    T v = 0;
    bool thrown = false;
    try { a.s >> v; } catch (std::ios_base::failure &) { thrown = true; }
    vf_assert(thrown == (a.left() < sizeof(T)), l);
    if (thrown) {
        vf_cover("get short");
        same(a.s, a, "failed read leaves the stream unchanged");
    } else {
        vf_cover("get ok");
        vf_assert(a.s.size() == a.left() - sizeof(T), l);
        vf_assert_mem_eq(&v, a.rest(), sizeof(T), l);
        vf_assert_mem_eq(a.s.data(), a.rest() + sizeof(T), a.left() - sizeof(T), l);
    }
}
extern "C" void c01_get_ints() {
    switch (vf_choice("w", 8)) {
        case 0: get_int<uint8_t>("get u8"); break;
        case 1: get_int<uint16_t>("get u16"); break;
        case 2: get_int<uint32_t>("get u32"); break;
        case 3: get_int<uint64_t>("get u64"); break;
        case 4: get_int<int8_t>("get i8"); break;
        case 5: get_int<int16_t>("get i16"); break;
        case 6: get_int<int32_t>("get i32"); break;
        default: get_int<int64_t>("get i64"); break;
    }
}
extern "C" void c01_get_inplace() {
    Any a;
    size_t len = vf_u64("len");
    const uint8_t *p = nullptr; bool thrown = false;
    try { p = a.s.get_data_inplace(len); } catch (std::ios_base::failure &) { thrown = true; }
    vf_assert(thrown == (a.left() < len), "in-place read throws iff short");
    if (thrown) {
        vf_cover("short");
        same(a.s, a, "failed in-place read leaves the stream unchanged");
    } else {
        vf_cover("ok");
        vf_assert_mem_eq(p, a.rest(), len, "in-place read returns the bytes");
        vf_assert(a.s.size() == a.left() - len, "in-place read consumes len");
        vf_assert_mem_eq(a.s.data(), a.rest() + len, a.left() - len, "in-place read keeps the rest");
    }
}
extern "C" void c01_put_range() {
    Any a;
    size_t len = Any::cnt("len");
    uint8_t *src = vf_bytes("src", len);
    switch (vf_choice("how", 3)) {
        case 0: a.s.put_data(src, src + len); vf_cover("range"); break;
        case 1: { bytearray_t v(src, src + len); a.s << v; vf_cover("bytearray"); break; }
        default: { std::string v((const char *)src, len); a.s << v; vf_cover("string"); break; }
    }
    appended(a.s, a, src, len, "put range appends exactly the bytes");
}
extern "C" void c01_put_cstr() {
    Any a;
    size_t len = Any::cnt("len");
    char *src = (char *)vf_bytes("src", len + 1);
    src[len] = 0;
    size_t n = strlen(src);
    a.s << (const char *)src;
    appended(a.s, a, src, n, "put C string appends its characters");
    vf_cover("cstr");
}
// write then read back: values come out unchanged and in order
extern "C" void c01_roundtrip() {
    Any a;
    uint8_t v8 = vf_u8("v8"); uint16_t v16 = vf_u16("v16"); uint32_t v32 = vf_u32("v32"); uint64_t v64 = vf_u64("v64");
    size_t len = Any::cnt("len");
    uint8_t *src = vf_bytes("src", len);
    a.s << v8 << v32; a.s.put_data(src, src + len); a.s << v16 << v64;
    const uint8_t *p = a.s.get_data_inplace(a.left());
    vf_assert_mem_eq(p, a.rest(), a.left(), "earlier content first");
    uint8_t r8; uint16_t r16; uint32_t r32; uint64_t r64;
    a.s >> r8 >> r32;
    vf_assert(r8 == v8 && r32 == v32, "integers read back in order");
    p = a.s.get_data_inplace(len);
    vf_assert_mem_eq(p, src, len, "raw bytes read back in order");
    a.s >> r16 >> r64;
    vf_assert(r16 == v16 && r64 == v64, "integers after raw bytes read back");
    vf_assert(a.s.size() == 0, "nothing left");
    bool thrown = false;
    try { a.s >> r8; } catch (std::ios_base::failure &) { thrown = true; }
    vf_assert(thrown, "reading past the end throws");
    vf_cover("roundtrip");
}
extern "C" void c01_special() {
    Any a;
    switch (vf_choice("op", 9)) {
        case 0: { DataStream b(a.s); same(b, a, "copy has the content"); same(a.s, a, "copy leaves the source unchanged");
                  b << (uint8_t)7; same(a.s, a, "a copy is independent"); vf_cover("copy"); break; }
        case 1: { DataStream b(std::move(a.s)); same(b, a, "move has the content");
                  vf_assert(a.s.size() == 0, "moved-from stream is empty");
                  a.s << (uint32_t)5; uint32_t x = 0; a.s >> x; vf_assert(x == 5 && a.s.size() == 0, "moved-from stream is usable"); vf_cover("move"); break; }
        case 2: { Any b; b.s = a.s; same(b.s, a, "copy assignment has the content"); same(a.s, a, "copy assignment leaves the source"); vf_cover("assign"); break; }
        case 3: { Any b; b.s = std::move(a.s); same(b.s, a, "move assignment has the content"); vf_cover("massign"); break; }
        case 4: { Any b; b.s.swap(a.s); same(b.s, a, "swap 1"); same(a.s, b, "swap 2"); vf_cover("swap"); break; }
        case 5: { a.s.clear(); vf_assert(a.s.size() == 0, "clear empties"); a.s << (uint16_t)9; uint16_t x = 0; a.s >> x; vf_assert(x == 9, "usable after clear"); vf_cover("clear"); break; }
        case 6: { DataStream &r = a.s; a.s = r; same(a.s, a, "self assignment"); vf_cover("self"); break; }
        case 7: { a.s = std::move(*&a.s); same(a.s, a, "self move assignment"); vf_cover("self move"); break; }
        default: { DataStream d; vf_assert(d.size() == 0, "default stream is empty"); vf_cover("default"); break; }
    }
}
extern "C" void c01_convert() {
    Any a;
    switch (vf_choice("op", 6)) {
        case 0: { const DataStream &c = a.s; bytearray_t b = (bytearray_t)c; vf_assert(b.size() == a.left(), "bytes of a stream: size");
                  vf_assert_mem_eq(b.data(), a.rest(), a.left(), "bytes of a stream: the unread part"); same(a.s, a, "conversion leaves the stream"); vf_cover("bytes"); break; }
        case 1: { bytearray_t b(std::move(a.s)); vf_assert(b.size() == a.left(), "bytes of a moved stream: size");
                  vf_assert_mem_eq(b.data(), a.rest(), a.left(), "bytes of a moved stream: the unread part"); vf_cover("moved bytes"); break; }
        case 2: { const DataStream &c = a.s; std::string b = (std::string)c; vf_assert(b.size() == a.left(), "string of a stream: size");
                  vf_assert_mem_eq(b.data(), a.rest(), a.left(), "string of a stream: the unread part"); vf_cover("string"); break; }
        case 3: { bytearray_t b(a.ghost, a.ghost + a.n); DataStream s(b); vf_assert(s.size() == a.n && b.size() == a.n, "from bytes: size");
                  vf_assert_mem_eq(s.data(), a.ghost, a.n, "from bytes"); vf_assert_mem_eq(b.data(), a.ghost, a.n, "from bytes leaves the source"); vf_cover("from bytes"); break; }
        case 4: { bytearray_t b(a.ghost, a.ghost + a.n); DataStream s(std::move(b)); vf_assert(s.size() == a.n, "from moved bytes: size");
                  vf_assert_mem_eq(s.data(), a.ghost, a.n, "from moved bytes"); vf_cover("from moved"); break; }
        default: { std::string b((const char *)a.ghost, a.n); DataStream s(b); vf_assert(s.size() == a.n, "from string: size");
                  vf_assert_mem_eq(s.data(), a.ghost, a.n, "from string"); vf_cover("from string"); break; }
    }
}
