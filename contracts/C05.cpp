// Contracts for salticidae::MsgBase (include/salticidae/msg.h) and the digest helpers: C05.
#include <vf.h>
#include <vector>
#include <string>
#include "salticidae/stream.h"
#include "salticidae/msg.h"
#include "sha_model.h"
using namespace salticidae;
static const size_t MAXN = 1ul << 30;
static size_t cnt(const char *nm) { size_t n = vf_u64(nm); vf_assume(n <= MAXN); return n; }
typedef MsgBase<uint8_t> Msg;
template<uint8_t OP> struct User { static const uint8_t opcode = OP; DataStream serialized; };
template<uint8_t OP> const uint8_t User<OP>::opcode;
static const size_t H = 13;
static uint32_t le(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t digest(const uint8_t *p, size_t n) { uint8_t d[20]; ref_sha1(p, n, d); uint32_t r; memcpy(&r, d, 4); return r; }
struct Built { size_t n; uint8_t *pay; uint32_t magic; Msg *m; };
static Built build() {
    Built b; b.n = cnt("n"); b.pay = vf_bytes("payload", b.n); b.magic = vf_u32("magic");
    User<0x37> u; u.serialized.put_data(b.pay, b.pay + b.n);
    b.m = new Msg(u, b.magic);
    return b;
}
extern "C" void c05_layout() {
    Built b = build();
    vf_assert(Msg::header_size == H, "header is 13 bytes");
    vf_assert(b.m->get_length() == b.n && b.m->get_magic() == b.magic && b.m->get_opcode() == 0x37, "message fields");
    bytearray_t w = b.m->serialize();
    vf_assert(w.size() == H + b.n, "wire size");
    vf_assert(le(&w[0]) == b.magic, "magic little-endian at 0");
    vf_assert(w[4] == 0x37, "opcode at 4");
    vf_assert(le(&w[5]) == (uint32_t)b.n, "length little-endian at 5");
    vf_assert(le(&w[9]) == digest(b.pay, b.n), "checksum is the digest prefix at 9");
    vf_assert_mem_eq(w.data() + H, b.pay, b.n, "payload verbatim");
    vf_cover("layout");
}
extern "C" void c05_roundtrip() {
    Built b = build();
    vf_assert(b.m->verify_checksum(), "a freshly built message verifies");
    bytearray_t w = b.m->serialize();
    Msg r(DataStream(w.data(), w.data() + H));
    vf_assert(r.get_magic() == b.magic && r.get_opcode() == 0x37 && r.get_length() == b.n, "parsed header fields");
    bool thrown = false;
    try { r.verify_checksum(); } catch (std::runtime_error &) { thrown = true; }
    vf_assert(thrown, "verifying without a payload is an error");
    thrown = false;
    try { r.get_payload(); } catch (std::runtime_error &) { thrown = true; }
    vf_assert(thrown, "taking a payload that is not there is an error");
    r.set_payload(bytearray_t(w.data() + H, w.data() + w.size()));
    vf_assert(r.get_length() == b.n, "length after attaching the payload");
    vf_assert(r.verify_checksum(), "a message transmitted intact verifies");
    DataStream p = r.get_payload();
    vf_assert(p.size() == b.n, "payload size");
    vf_assert_mem_eq(p.data(), b.pay, b.n, "payload bytes");
    thrown = false;
    try { r.get_payload(); } catch (std::runtime_error &) { thrown = true; }
    vf_assert(thrown, "the payload can be taken only once");
    vf_cover("roundtrip");
}
// any 13 header bytes parse to exactly the little-endian fields; verification compares with the digest of what is attached
extern "C" void c05_verify() {
    uint8_t *h = vf_bytes("hdr", H); size_t n = cnt("n"); uint8_t *pay = vf_bytes("payload", n);
    Msg r(DataStream(h, h + H));
    vf_assert(r.get_magic() == le(h) && r.get_opcode() == h[4] && r.get_length() == le(h + 5), "header fields little-endian");
    r.set_payload(bytearray_t(pay, pay + n));
    vf_assert(r.verify_checksum() == (le(h + 9) == digest(pay, n)), "verifies exactly when the stored checksum is the digest prefix");
    vf_assert(r.get_checksum() == digest(pay, n), "checksum is a function of the payload only");
    r.set_checksum();
    vf_assert(r.verify_checksum(), "a set checksum verifies");
    vf_cover("verify");
}
extern "C" void c05_short() {
    size_t n = vf_u64("n"); vf_assume(n < H);
    uint8_t *h = vf_bytes("hdr", n); bool thrown = false;
    try { Msg r(DataStream(h, h + n)); } catch (std::ios_base::failure &) { thrown = true; }
    vf_assert(thrown, "a short header is an error"); vf_cover("short");
}
static void same(const Msg &x, uint32_t magic, uint32_t sum, size_t n, uint8_t *pay, const char *l) {
    vf_assert(x.get_magic() == magic && x.get_opcode() == 0x37 && x.get_length() == n, l);
    bytearray_t w = x.serialize();
    vf_assert(w.size() == H + n, l); vf_assert(le(&w[9]) == sum, l); vf_assert_mem_eq(w.data() + H, pay, n, l);
    vf_assert(x.verify_checksum(), l);
}
extern "C" void c05_special() {
    Built b = build(); uint32_t sum = digest(b.pay, b.n);
    switch (vf_choice("op", 6)) {
        case 0: { Msg x(*b.m); same(x, b.magic, sum, b.n, b.pay, "copy"); same(*b.m, b.magic, sum, b.n, b.pay, "copied-from"); vf_cover("copy"); break; }
        case 1: { Msg x(std::move(*b.m)); same(x, b.magic, sum, b.n, b.pay, "move"); vf_cover("move"); break; }
        case 2: { Msg x; x = *b.m; same(x, b.magic, sum, b.n, b.pay, "copy assignment"); same(*b.m, b.magic, sum, b.n, b.pay, "assigned-from"); vf_cover("assign"); break; }
        case 3: { Msg x; x = std::move(*b.m); same(x, b.magic, sum, b.n, b.pay, "move assignment"); vf_cover("massign"); break; }
        case 4: { Msg x; x.swap(*b.m); same(x, b.magic, sum, b.n, b.pay, "swap"); vf_cover("swap"); break; }
        default: { Msg x(0x37, bytearray_t(b.pay, b.pay + b.n)); x.set_magic(b.magic); same(x, b.magic, sum, b.n, b.pay, "C constructor"); vf_cover("c"); break; }
    }
}
extern "C" void c05_wide() {   // a 16-bit opcode type: still no padding
    size_t n = cnt("n"); uint8_t *pay = vf_bytes("payload", n); uint32_t magic = vf_u32("magic"); uint16_t op = vf_u16("op");
    MsgBase<uint16_t> m(magic); m.set_opcode(op); m.set_payload(bytearray_t(pay, pay + n)); m.set_checksum();
    vf_assert(MsgBase<uint16_t>::header_size == 14, "16-bit opcode header is 14 bytes");
    bytearray_t w = m.serialize();
    vf_assert(w.size() == 14 + n && le(&w[0]) == magic && w[4] == (op & 255) && w[5] == op >> 8 && le(&w[6]) == (uint32_t)n && le(&w[10]) == digest(pay, n), "16-bit opcode wire format");
    vf_assert_mem_eq(w.data() + 14, pay, n, "16-bit opcode payload");
    vf_cover("wide");
}
extern "C" void c05_hash() {   // stream digests cover exactly the unread bytes
    size_t n = cnt("n"), off = vf_u64("off"); vf_assume(off <= n);
    uint8_t *p = vf_bytes("buf", n); DataStream s(p, p + n); s.get_data_inplace(off);
    uint8_t d[32]; ref_sha256(p + off, n - off, d);
    uint256_t h = s.get_hash(); bytearray_t hb = h;
    vf_assert(hb.size() == 32, "digest size"); vf_assert_mem_eq(hb.data(), d, 32, "stream digest is SHA-256 of the unread bytes");
    bytearray_t v(p + off, p + n);
    uint256_t g = get_hash(v);
    vf_assert(g == h, "get_hash of the same bytes");
    vf_assert(s.size() == n - off, "stream unchanged");
    vf_cover("hash");
}
// ---- hash lists: loop contracts
static size_t vfg_n, vfg_t, vfg_k; static uint8_t *vfg_g; static size_t vfg_left;
static const size_t MAXL = 1ul << 24;
struct It { uint256_t *p; };
extern "C" void c05_gen_hook(int phase) {
    DataStream *s = *(DataStream **)vf_local("s");
    It *it = (It *)vf_local("__begin*"), *end = (It *)vf_local("__end*");
    const std::vector<uint256_t> *v = *(const std::vector<uint256_t> **)vf_local("hashes");
    if (!s || !it || !end || !v) vf_hook_missing("locals");
    uint256_t *d = (uint256_t *)v->data();
    if (phase == 0) {
        vf_assert(it->p == d && end->p == d + vfg_n, "hash list: iterates over the whole list");
        vf_assert(s->size() == 4, "hash list: count first"); vf_assert(le(s->data()) == (uint32_t)vfg_n, "hash list: count value");
    } else if (phase == 1) {
        vfg_t = vf_u64("t"); vf_assume(vfg_t <= vfg_n);
        uint8_t c[4] = {(uint8_t)vfg_n, (uint8_t)(vfg_n >> 8), (uint8_t)(vfg_n >> 16), (uint8_t)(vfg_n >> 24)};
        s->clear(); s->put_data(c, c + 4); s->put_data(vfg_g, vfg_g + 32 * vfg_t);
        it->p = d + vfg_t;
        if (vfg_t < vfg_n) new (d + vfg_t) uint256_t(vfg_g + 32 * vfg_t);   // representation: element t holds ghost bytes 32t..
    } else {
        vf_inv(it->p == d + vfg_t + 1, "hash list: next element");
        vf_inv(s->size() == 4 + 32 * (vfg_t + 1), "hash list: bytes so far"); vf_inv(le(s->data()) == (uint32_t)vfg_n, "hash list: count kept");
        vf_assert_mem_eq(s->data() + 4, vfg_g, 32 * (vfg_t + 1), "hash list: hashes so far");
    }
}
extern "C" void c05_gen_list() {
    vfg_n = vf_u64("n"); vf_assume(vfg_n <= (vf_is_native() ? 1000 : MAXL));
    vfg_g = vf_bytes("hashes", 32 * vfg_n);
    std::vector<uint256_t> v;
    if (vf_is_native() || vf_bounded()) { vf_assume(vfg_n <= 1000); for (size_t i = 0; i < vfg_n; i++) v.push_back(uint256_t(vfg_g + 32 * i)); }
    else vf_raw_vector(&v, vfg_n * sizeof(uint256_t));   // storage for n elements; elements materialised by the loop contract
    DataStream s; Msg m;
    m.gen_hash_list(s, v);
    vf_assert(s.size() == 4 + 32 * vfg_n, "hash list length"); vf_assert(le(s.data()) == (uint32_t)vfg_n, "hash list count");
    vf_assert_mem_eq(s.data() + 4, vfg_g, 32 * vfg_n, "hash list bytes");
    vf_cover("gen");
    if (!vf_is_native() && !vf_bounded()) vf_kill();   // elements are not destroyed one by one
}
extern "C" void c05_fill_hook(int phase) {   // vector<uint256_t>::fill (assumed library): elements are abstracted, re-materialised by the parse contract
    size_t *i = (size_t *)vf_local("i"), n = *(size_t *)vf_local("n");
    if (phase == 1) { *i = n; }
    else if (phase == 2) vf_kill();
}
extern "C" void c05_parse_hook(int phase) {
    DataStream *s = *(DataStream **)vf_local("s");
    It *it = (It *)vf_local("__begin*"), *end = (It *)vf_local("__end*");
    std::vector<uint256_t> *v = *(std::vector<uint256_t> **)vf_local("hashes");
    if (!s || !it || !end || !v) vf_hook_missing("locals");
    uint256_t *d = v->data();
    if (phase == 0) {
        vf_assert(it->p == d && end->p == d + vfg_n && v->size() == vfg_n, "hash list parse: one element per advertised hash");
        vf_assert(s->size() == vfg_left, "hash list parse: header consumed");
    } else if (phase == 1) {
        vfg_t = vf_u64("t"); vf_assume(vfg_t <= vfg_n && 32 * vfg_t <= vfg_left);
        s->clear(); s->put_data(vfg_g, vfg_g + vfg_left); s->get_data_inplace(32 * vfg_t);
        it->p = d + vfg_t;
        if (vfg_t < vfg_n) new (d + vfg_t) uint256_t();
        if (vfg_k < vfg_t) new (d + vfg_k) uint256_t(vfg_g + 32 * vfg_k);
    } else {
        vf_inv(it->p == d + vfg_t + 1, "hash list parse: next element");
        vf_inv(s->size() == vfg_left - 32 * (vfg_t + 1), "hash list parse: bytes consumed");
        vf_assert_mem_eq(s->data(), vfg_g + 32 * (vfg_t + 1), vfg_left - 32 * (vfg_t + 1), "hash list parse: rest of the stream");
        uint256_t w(vfg_g + 32 * vfg_t);
        vf_inv(d[vfg_t] == w && !d[vfg_t].is_null(), "hash list parse: element equals the bytes read");
        if (vfg_k < vfg_t) { uint256_t x(vfg_g + 32 * vfg_k); vf_inv(d[vfg_k] == x && !d[vfg_k].is_null(), "hash list parse: earlier elements kept"); }
    }
}
extern "C" void c05_parse_list() {
    vfg_n = vf_u32("count"); vfg_left = cnt("left");
    vfg_g = vf_bytes("rest", vfg_left);
    vfg_k = vf_u64("k");
    uint8_t c[4] = {(uint8_t)vfg_n, (uint8_t)(vfg_n >> 8), (uint8_t)(vfg_n >> 16), (uint8_t)(vfg_n >> 24)};
    DataStream s; s.put_data(c, c + 4); s.put_data(vfg_g, vfg_g + vfg_left);
    std::vector<uint256_t> v; Msg m; bool thrown = false;
    try { m.parse_hash_list(s, v); } catch (std::ios_base::failure &) { thrown = true; }
    vf_assert(thrown == (vfg_n * 32 > vfg_left), "a hash list is an error exactly when its count exceeds the data present");
    if (thrown) { vf_assert(v.size() * 32 <= vfg_left, "no more elements are allocated than the data can hold"); vf_cover("error"); }
    else {
        vf_assert(v.size() == vfg_n, "hash list parse: size"); vf_assert(s.size() == vfg_left - 32 * vfg_n, "hash list parse: consumed");
        if (vfg_k < vfg_n) { uint256_t w(vfg_g + 32 * vfg_k); vf_assert(v[vfg_k] == w && !v[vfg_k].is_null(), "hash list parse: every element"); vf_cover("element"); }
        vf_cover("parsed");
    }
    if (!vf_is_native() && !vf_bounded()) vf_kill();
}
