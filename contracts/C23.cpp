// Contracts for the C interface to streams, identifiers, byte arrays, addresses, messages and error codes
// (src/stream.cpp, src/type.cpp, src/netaddr.cpp, src/msg.cpp, src/util.cpp): C23.
#include <vf.h>
#include <vector>
#include <string>
#include <string.h>
#include <netdb.h>
#include "salticidae/stream.h"
#include "salticidae/netaddr.h"
#include "salticidae/msg.h"
#include "sha_model.h"
using namespace salticidae;
static const size_t MAXN = 1ul << 30;
static size_t cnt(const char *nm) { size_t n = vf_u64(nm); vf_assume(n <= MAXN); return n; }
// an arbitrary stream reached through the C interface: n arbitrary bytes, `off` of them read
struct Any { size_t n, off; uint8_t *g; datastream_t *s;
    Any(): n(cnt("n")), off(vf_u64("off")) { vf_assume(off <= n); g = vf_bytes("buf", n); s = datastream_new_from_bytes(g, n); vf_assert(s != nullptr, "a stream is made"); const uint8_t *p = datastream_get_data_inplace(s, off); vf_assert(p != nullptr, "reading what is there succeeds"); }
    size_t left() const { return n - off; } const uint8_t *rest() const { return g + off; } };
static void holds(datastream_t *s, const uint8_t *p, size_t n, const char *l) { vf_assert(datastream_size(s) == n, l); vf_assert(s->size() == n, l); vf_assert(datastream_data(s) == s->data(), "data is the stream's unread bytes"); vf_assert_mem_eq(datastream_data(s), p, n, l); }
template<typename T> static void get(T (*f)(datastream_t *, bool *)) {
    Any a; bool ok = vf_bool("ok0"); T v = f(a.s, &ok); bool fits = a.left() >= sizeof(T); vf_assert(ok == fits, "a read reports success exactly when enough bytes were left");
    if (ok) { vf_assert_mem_eq(&v, a.rest(), sizeof(T), "the value read is the next bytes, little-endian"); holds(a.s, a.rest() + sizeof(T), a.left() - sizeof(T), "exactly the bytes read are consumed"); vf_cover("ok"); } else { holds(a.s, a.rest(), a.left(), "a failed read consumes nothing"); vf_cover("short"); }
    datastream_free(a.s);
}
extern "C" void c23_get() { switch (vf_choice("w", 8)) { case 0: get(datastream_get_u8); break; case 1: get(datastream_get_u16); break; case 2: get(datastream_get_u32); break; case 3: get(datastream_get_u64); break; case 4: get(datastream_get_i8); break; case 5: get(datastream_get_i16); break; case 6: get(datastream_get_i32); break; default: get(datastream_get_i64); } }
template<typename T> static void put(bool (*f)(datastream_t *, T), T v) { Any a; vf_assert(f(a.s, v), "a write succeeds"); vf_assert(datastream_size(a.s) == a.left() + sizeof(T), "a write appends its bytes"); vf_assert_mem_eq(datastream_data(a.s), a.rest(), a.left(), "a write keeps what was there"); vf_assert_mem_eq(datastream_data(a.s) + a.left(), &v, sizeof(T), "a write appends its bytes, little-endian"); vf_cover("put"); }
extern "C" void c23_put() { switch (vf_choice("w", 8)) { case 0: put<uint8_t>(datastream_put_u8, vf_u8("v")); break; case 1: put<uint16_t>(datastream_put_u16, vf_u16("v")); break; case 2: put<uint32_t>(datastream_put_u32, vf_u32("v")); break; case 3: put<uint64_t>(datastream_put_u64, vf_u64("v")); break; case 4: put<int8_t>(datastream_put_i8, vf_u8("v")); break; case 5: put<int16_t>(datastream_put_i16, vf_u16("v")); break; case 6: put<int32_t>(datastream_put_i32, vf_u32("v")); break; default: put<int64_t>(datastream_put_i64, vf_u64("v")); } }
extern "C" void c23_data() {
    Any a; size_t k = cnt("k");
    switch (vf_choice("op", 4)) {
    case 0: { uint8_t *p = vf_bytes("more", k); vf_assert(datastream_put_data(a.s, p, k), "a write succeeds"); vf_assert(datastream_size(a.s) == a.left() + k, "all bytes are appended"); vf_assert_mem_eq(datastream_data(a.s), a.rest(), a.left(), "earlier bytes stay"); vf_assert_mem_eq(datastream_data(a.s) + a.left(), p, k, "all bytes are appended"); vf_cover("put data"); break; }
    case 1: { const uint8_t *p = datastream_get_data_inplace(a.s, k); vf_assert((p != nullptr) == (k <= a.left()), "a bulk read fails exactly when too few bytes are left"); if (p) { vf_assert_mem_eq(p, a.rest(), k, "it returns the next bytes"); holds(a.s, a.rest() + k, a.left() - k, "and consumes them"); vf_cover("bulk"); } else { holds(a.s, a.rest(), a.left(), "a failed read consumes nothing"); vf_cover("bulk short"); } break; }
    case 2: { datastream_t *c = datastream_copy(a.s); vf_assert(c && c != a.s, "a copy is a new stream"); holds(c, a.rest(), a.left(), "a copy holds the unread bytes"); datastream_put_u8(c, 1); holds(a.s, a.rest(), a.left(), "the original is independent of it"); datastream_free(c); vf_cover("copy"); break; }
    default: { datastream_clear(a.s); vf_assert(datastream_size(a.s) == 0, "a cleared stream is empty"); datastream_t *e = datastream_new(); vf_assert(e && datastream_size(e) == 0, "a new stream is empty"); vf_cover("clear"); } }
}
extern "C" void c23_bytes() {
    size_t n = cnt("n"); uint8_t *p = vf_bytes("buf", n); bytearray_t *b = bytearray_new_from_bytes(p, n); vf_assert(b && bytearray_size(b) == n, "a byte array holds the bytes given"); if (n) vf_assert_mem_eq(bytearray_data(b), p, n, "a byte array holds the bytes given"); bytearray_t *e = bytearray_new(); vf_assert(e && bytearray_size(e) == 0, "a new byte array is empty");
    datastream_t *s; int mv = vf_choice("move", 2); if (mv) s = datastream_new_moved_from_bytearray(b); else s = datastream_new_from_bytearray(b); holds(s, p, n, "a stream made from a byte array holds its bytes"); if (!mv) { vf_assert(bytearray_size(b) == n, "copying leaves the array alone"); vf_assert_mem_eq(b->data(), p, n, "copying leaves the array alone"); }
    size_t off = vf_u64("off"); vf_assume(off <= n); datastream_get_data_inplace(s, off); bytearray_t *c; int mv2 = vf_choice("back", 2); if (mv2) c = bytearray_new_moved_from_datastream(s); else c = bytearray_new_copied_from_datastream(s);
    bytearray_t w = mv2 ? bytearray_t() : bytearray_t(*s); (void)w; vf_assert(c && bytearray_size(c) == n - off, "a byte array made from a stream holds the unread bytes"); vf_assert_mem_eq(c->data(), p + off, n - off, "a byte array made from a stream holds the unread bytes"); if (!mv2) holds(s, p + off, n - off, "copying leaves the stream alone");
    vf_cover("bytes"); bytearray_free(b); bytearray_free(c); bytearray_free(e); datastream_free(s);
}
extern "C" void c23_hash() { Any a; uint8_t d[32]; ref_sha256(a.rest(), a.left(), d); uint256_t *h = datastream_get_hash(a.s); vf_assert(h && !uint256_is_null(h), "a digest is made"); datastream_t *o = datastream_new(); uint256_serialize(h, o); holds(o, d, 32, "the digest is SHA-256 of the unread bytes"); holds(a.s, a.rest(), a.left(), "hashing consumes nothing"); uint256_free(h); vf_cover("hash"); }
extern "C" void c23_uint256() {
    size_t n = cnt("n"); uint8_t *p = vf_bytes("buf", n); bytearray_t *b = bytearray_new_from_bytes(p, n); uint256_t *z = uint256_new(); vf_assert(z && uint256_is_null(z), "a new identifier is null");
    uint256_t *x = uint256_new_from_bytearray(b); vf_assert((x != nullptr) == (n == 32), "an identifier is made exactly from 32 bytes, otherwise null is returned"); vf_cover(x ? "made" : "refused");
    if (x) { uint8_t *q = vf_bytes("other", 32); uint256_t *y = uint256_new_from_bytes(q); vf_assert(y && !uint256_is_null(y) && !uint256_is_null(x), "made from bytes"); uint8_t d = 0; for (int i = 0; i < 32; i++) d |= p[i] ^ q[i]; vf_assert(uint256_is_eq(x, y) == (d == 0), "equal exactly when the bytes are"); vf_assert(uint256_is_eq(y, x) == (d == 0), "symmetric");
        datastream_t *s = datastream_new(); uint256_serialize(y, s); holds(s, q, 32, "serialised bytes"); uint256_unserialize(z, s); vf_assert(uint256_is_eq(z, y) && !uint256_is_null(z) && datastream_size(s) == 0, "read back equal"); uint256_free(x); uint256_free(y); datastream_free(s); }
    uint256_free(z); bytearray_free(b);
}
// text: hex in and out (each short text, and that the C functions are the C++ ones)
extern "C" void c23_hex() {
    int n = vf_choice("len", 5); uint8_t *t = vf_bytes("text", n + 1); t[n] = 0; for (int i = 0; i < n; i++) vf_assume(t[i] != 0); bool ok = true; bytearray_t w; try { w = from_hex(std::string((const char *)t, n)); } catch (...) { ok = false; } bytearray_t *r = bytearray_new_from_hex((const char *)t); vf_assert((r != nullptr) == ok, "hex text is accepted exactly when the C++ function accepts it"); if (!r) { vf_cover("bad hex"); return; }
    vf_assert(bytearray_size(r) == w.size() && w.size() == (size_t)(n / 2), "same bytes"); for (size_t i = 0; i < w.size(); i++) vf_assert((*r)[i] == w[i], "same bytes"); datastream_t *s = datastream_new_from_bytearray(r); char *h = datastream_get_hex(s); std::string hs = s->get_hex(); vf_assert(h && hs.length() == (size_t)(n & ~1), "two characters a byte"); for (size_t i = 0; i < hs.length(); i++) vf_assert(h[i] == hs[i], "the text of the C++ function"); vf_assert(h[hs.length()] == 0, "terminated"); free(h); vf_cover("hex");
}
// ---- addresses
#ifdef VF_VERIFY
extern "C" char *strerror(int) throw() { return (char *)"system error"; }
extern "C" int vsnprintf(char *b, size_t n, const char *, va_list) throw() { if (n > 1) { b[0] = 63; b[1] = 0; } else if (n) b[0] = 0; return 1; }  // text of error messages does not matter here
#endif
static int vfg_resolve; static uint8_t vfg_addr[4]; static char *vfg_list[2]; static struct hostent vfg_he;
extern "C" struct hostent *gethostbyname(const char *) { if (!vfg_resolve) { errno = 99; return nullptr; } vfg_list[0] = (char *)vfg_addr; vfg_list[1] = nullptr; vfg_he.h_addr_list = vfg_list; vfg_he.h_addrtype = AF_INET; vfg_he.h_length = 4; return &vfg_he; }
static SalticidaeCError any_err() { SalticidaeCError e; e.code = (int)vf_u32("code0"); e.oscode = (int)vf_u32("oscode0"); return e; }
static void agree(netaddr_t *a, const SalticidaeCError &e, bool ok, const NetAddr &w, const SalticidaeCError &we) { vf_assert((a != nullptr) == ok, "an address is returned exactly when the text is one"); if (ok) { vf_assert(e.code == SALTI_NORMAL && e.oscode == 0, "success is reported"); vf_assert(a && *a == w, "the same address"); vf_cover("address"); } else { vf_assert(e.code == we.code && e.code != SALTI_NORMAL && e.oscode == we.oscode, "the error is reported through the out-parameter"); vf_cover("refused"); } }
extern "C" void c23_netaddr_text() {
    int n = vf_choice("len", 5); uint8_t *t = vf_bytes("text", n + 1); t[n] = 0; for (int i = 0; i < n; i++) vf_assume(t[i] != 0); vfg_resolve = vf_bool("resolves"); vf_havoc(vfg_addr, 4, "addr"); NetAddr w; bool ok = true; SalticidaeCError we = any_err(), e = any_err();
#ifdef VF_VERIFY
    vfg_num_exact = 1;
#endif
    if (vf_choice("kind", 2)) { try { w = NetAddr(std::string((const char *)t, n)); } catch (SalticidaeError &x) { ok = false; we = x.get_cerr(); } errno = 0; netaddr_t *a = netaddr_new_from_sipport((const char *)t, &e); agree(a, e, ok, w, we); }
    else { uint16_t p = vf_u16("p"); try { w = NetAddr(std::string((const char *)t, n), p); } catch (SalticidaeError &x) { ok = false; we = x.get_cerr(); } netaddr_t *a = netaddr_new_from_sip_port((const char *)t, p, &e); agree(a, e, ok, w, we); }
}
extern "C" void c23_netaddr() {
    uint32_t ip = vf_u32("ip"), ip2 = vf_u32("ip2"); uint16_t p = vf_u16("p"), p2 = vf_u16("p2"); SalticidaeCError e = any_err(), e2 = any_err(); netaddr_t *a = netaddr_new_from_ip_port(ip, p, &e), *b = netaddr_new_from_ip_port(ip2, p2, &e2), *z = netaddr_new(); vf_assert(a && b && z && e.code == SALTI_NORMAL && e.oscode == 0, "addresses are made");
    vf_assert(netaddr_get_ip(a) == ip && netaddr_get_port(a) == p, "address and port as given"); vf_assert(netaddr_is_eq(a, b) == ((ip == ip2) & (p == p2)), "equality"); vf_assert(netaddr_is_null(a) == ((ip == 0) & (p == 0)), "null test"); vf_assert(netaddr_is_null(z), "a new address is null"); netaddr_t *c = netaddr_copy(a); vf_assert(c && c != a && netaddr_is_eq(c, a), "a copy is equal");
    const netaddr_t *l[3] = {a, b, z}; int n = vf_choice("n", 4); netaddr_array_t *r = netaddr_array_new_from_addrs(l, n), *e0 = netaddr_array_new(); vf_assert(r && r->size() == (size_t)n && e0 && e0->size() == 0, "an array of that many"); for (int i = 0; i < n; i++) vf_assert((*r)[i] == *l[i], "in order"); netaddr_array_free(r); netaddr_array_free(e0); netaddr_free(a); netaddr_free(b); netaddr_free(c); netaddr_free(z); vf_cover("values");
}
// ---- messages
extern "C" void c23_msg() {
    size_t n = cnt("n"); uint8_t *p = vf_bytes("payload", n); uint8_t op = vf_u8("op"); uint32_t mg = vf_u32("magic"); bytearray_t *b = bytearray_new_from_bytes(p, n); msg_t *m = msg_new_moved_from_bytearray(op, b); vf_assert(m && msg_get_opcode(m) == op && msg_get_magic(m) == 0, "opcode as given, no magic"); msg_set_magic(m, mg); vf_assert(msg_get_magic(m) == mg, "magic as set"); vf_assert(m->verify_checksum(), "the checksum is that of the payload");
    bytearray_t w = m->serialize(); vf_assert(w.size() == n + 13 && w[4] == op, "wire form: header and payload"); vf_assert_mem_eq(w.data() + 13, p, n, "wire form carries the payload"); datastream_t *s = msg_consume_payload(m); holds(s, p, n, "the payload is handed out as given"); datastream_free(s); msg_free(m); bytearray_free(b); vf_cover("msg");
}
// ---- error codes
static bool same_text(const char *a, const char *b) { int i = 0; for (; a[i] && a[i] == b[i]; i++) {} return a[i] == b[i]; }
extern "C" void c23_strerror() {
    const int N = SALTI_ERROR_CONN_OVERSIZED_MSG; for (int i = 1; i <= N; i++) { const char *a = salticidae_strerror(i); vf_assert(a && a[0], "every error code has a description"); vf_assert(!same_text(a, "invalid"), "different from that of an invalid code"); for (int j = 0; j < i; j++) vf_assert(!same_text(a, salticidae_strerror(j)), "of its own"); } vf_cover("described");
}
extern "C" void c23_error() { vf_assert(salticidae_cerror_normal().code == SALTI_NORMAL && salticidae_cerror_normal().oscode == 0 && salticidae_cerror_unknown().code == SALTI_ERROR_UNKNOWN && salticidae_cerror_unknown().oscode == 0, "constant errors"); int i = 1 + vf_choice("i", SALTI_ERROR_CONN_OVERSIZED_MSG); SalticidaeError x(i, 5); vf_assert(x.get_cerr().code == i && x.get_cerr().oscode == 5 && x.get_code() == i, "an error carries its code"); vf_cover("carried"); }
extern "C" void c23_badcode() { int c = (int)vf_u32("code"); vf_assume((c < 0) | (c > SALTI_ERROR_CONN_OVERSIZED_MSG)); vf_assert(same_text(salticidae_strerror(c), "invalid"), "any other integer is described as invalid"); vf_cover("invalid"); }
