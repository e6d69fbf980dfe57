// Contracts for salticidae::SegBuffer (include/salticidae/buffer.h): C06.
#include <vf.h>
#include <vector>
#include <list>
#include <string>
#include "salticidae/stream.h"
#include "salticidae/event.h"
#include "salticidae/buffer.h"
using namespace salticidae;
typedef SegBuffer::buffer_entry_t Ent;
static const size_t MAXN = 1ul << 30;
static size_t cnt(const char *nm) { size_t n = vf_u64(nm); vf_assume(n <= MAXN); return n; }
static bytearray_t piece(const uint8_t *g, size_t a, size_t b) { return bytearray_t(g + a, g + b); }
// ---- a buffer with k segments of arbitrary lengths over the ghost bytes g, the first one partly consumed
struct B3 { uint8_t *g; size_t c[4]; size_t off, n; };   // live content: g[off..n)
static B3 mk(SegBuffer &s) {
    B3 b; size_t k = vf_choice("segs", 4);
    b.c[0] = 0; for (int i = 1; i <= 3; i++) { if (i > k) b.c[i] = b.c[i - 1]; else { b.c[i] = b.c[i - 1] + cnt("len"); } }
    b.n = b.c[3]; b.g = vf_bytes("g", b.n); b.off = 0;
    for (size_t i = 0; i < k; i++) s.push(piece(b.g, b.c[i], b.c[i + 1]));
    if (k) { b.off = vf_u64("consumed"); vf_assume(b.off <= b.c[1]);
        // a consumed prefix of the first segment, through the public interface
        s.pop(b.off); }
    return b;
}
static void drain_eq(SegBuffer &s, const uint8_t *g, size_t n, const char *l) {
    vf_assert(s.size() == n, l);
    bytearray_t r = s.pop(n);
    vf_assert(r.size() == n, l); vf_assert_mem_eq(r.data(), g, n, l);
    vf_assert(s.size() == 0, l);
}
extern "C" void c06_api() {
    SegBuffer s; B3 b = mk(s);
    vf_assert(s.size() == b.n - b.off, "size is the number of bytes left");
    size_t m = cnt("m"); uint8_t *x = vf_bytes("x", m);
    switch (vf_choice("op", 9)) {
        case 0: { size_t n = vf_u64("pop"); bytearray_t r = s.pop(n); size_t e = b.n - b.off; if (n < e) e = n;
            vf_assert(r.size() == e, "pop returns min(n, available) bytes"); vf_assert_mem_eq(r.data(), b.g + b.off, e, "pop returns the first bytes in order");
            drain_eq(s, b.g + b.off + e, b.n - b.off - e, "pop leaves the rest"); vf_cover("pop"); break; }
        case 1: { s.push(bytearray_t(x, x + m)); vf_assert(s.size() == b.n - b.off + m, "push grows the size");
            bytearray_t r = s.pop(b.n - b.off); vf_assert_mem_eq(r.data(), b.g + b.off, b.n - b.off, "push keeps what is in front");
            drain_eq(s, x, m, "pushed bytes come last"); vf_cover("push"); break; }
        case 2: { s.rewind(bytearray_t(x, x + m)); vf_assert(s.size() == b.n - b.off + m, "rewind grows the size");
            bytearray_t r = s.pop(m); vf_assert(r.size() == m, "rewound bytes come first"); vf_assert_mem_eq(r.data(), x, m, "rewound bytes come first");
            drain_eq(s, b.g + b.off, b.n - b.off, "rewind keeps the rest"); vf_cover("rewind"); break; }
        case 3: { SegBuffer t(s); drain_eq(t, b.g + b.off, b.n - b.off, "copy has the content"); drain_eq(s, b.g + b.off, b.n - b.off, "copied-from keeps the content"); vf_cover("copy"); break; }
        case 4: { SegBuffer t(std::move(s)); drain_eq(t, b.g + b.off, b.n - b.off, "move has the content"); drain_eq(s, b.g, 0, "moved-from is empty"); vf_cover("move"); break; }
        case 5: { SegBuffer t; t.push(bytearray_t(x, x + m)); if (vf_bool("self")) { s = *&s; } else t = s; 
            drain_eq(s, b.g + b.off, b.n - b.off, "assigned-from keeps the content"); (void)t; vf_cover("assign"); break; }
        case 6: { SegBuffer t; t.push(bytearray_t(x, x + m)); t = std::move(s); drain_eq(t, b.g + b.off, b.n - b.off, "move assignment has the content"); drain_eq(s, b.g, 0, "moved-from is empty"); vf_cover("massign"); break; }
        case 7: { SegBuffer t; t.push(bytearray_t(x, x + m)); t.swap(s); drain_eq(t, b.g + b.off, b.n - b.off, "swap"); drain_eq(s, x, m, "swap"); vf_cover("swap"); break; }
        default: { s.clear(); vf_assert(s.size() == 0 && s.empty(), "clear empties"); bytearray_t r = s.pop(m); vf_assert(r.size() == 0, "nothing after clear");
            s.push(bytearray_t(x, x + m)); drain_eq(s, x, m, "clear then push"); vf_cover("clear"); break; }
    }
}
extern "C" void c06_assign() {
    SegBuffer s; B3 b = mk(s); size_t m = cnt("m"); uint8_t *x = vf_bytes("x", m);
    SegBuffer t; t.push(bytearray_t(x, x + m)); t = s;
    drain_eq(t, b.g + b.off, b.n - b.off, "copy assignment has the content"); vf_cover("assign");
}
extern "C" void c06_first() {   // taking the first segment
    SegBuffer s; B3 b = mk(s); vf_assume(!s.empty());
    size_t before = s.size();
    bytearray_t r = s.move_pop();
    vf_assert(r.size() <= before, "first segment is part of the content");
    vf_assert_mem_eq(r.data(), b.g + b.off, r.size(), "first segment is the unread front");
    vf_assert(s.size() == before - r.size(), "size after taking the first segment");
    drain_eq(s, b.g + b.off + r.size(), before - r.size(), "rest after taking the first segment");
    vf_cover("first");
}
extern "C" void c06_entry() {   // a segment keeps its position when copied or moved
    size_t n = cnt("n"), off = vf_u64("off"); vf_assume(off <= n);
    uint8_t *g = vf_bytes("g", n); Ent e(bytearray_t(g, g + n));
    vf_assert(e.length() == n, "fresh segment is unread");
    e.offset += off;
    Ent c(e); vf_assert(c.length() == n - off, "copied segment keeps its position"); vf_assert_mem_eq(&*c.offset, g + off, n - off, "copied segment content");
    Ent m(std::move(e)); vf_assert(m.length() == n - off, "moved segment keeps its position"); vf_assert_mem_eq(&*m.offset, g + off, n - off, "moved segment content");
    Ent a; vf_assert(a.length() == 0, "default segment is empty");
    a = std::move(m); vf_assert(a.length() == n - off, "move-assigned segment keeps its position"); vf_assert_mem_eq(&*a.offset, g + off, n - off, "move-assigned segment content");
    vf_cover("entry");
}
// ---- pop with any number of segments: loop contract.  Ghost bytes g[0..N) are the concatenation of all segments.
// At the loop head L bytes have been copied out; i is the segment holding g[L..L+k); segments before i are used up (one
// stands for them all: only list bookkeeping touches them), the segments after i hold g[L+k..N).
static uint8_t *vfg_g; static size_t vfg_n, vfg_N, vfg_L, vfg_k; static void *vfg_buf; static int vfg_tail, vfg_at;
struct LIt { void *p; };
extern "C" void c06_pop_hook(int phase) {
    SegBuffer *self = *(SegBuffer **)vf_local("this"); bytearray_t *res = (bytearray_t *)vf_local("res"); if (!res) res = (bytearray_t *)vf_param(0);
    size_t *len = (size_t *)vf_local("len"); std::list<Ent>::iterator *i = (std::list<Ent>::iterator *)vf_local("i");
    if (!self || !len || !i || !res) vf_hook_missing("locals");
    std::list<Ent> &b = self->buffer;
    if (phase == 0) {
        vf_assert(*len == vfg_n && res->size() == 0, "pop: starts with nothing copied");
        vf_assert(*i == b.begin(), "pop: starts at the first segment");
    } else if (phase == 1) {
        vfg_L = cnt("L"); vf_assume((vfg_L <= vfg_N) & (vfg_L <= vfg_n));
        while (!b.empty()) b.pop_front();
        if (vf_bool("before")) { size_t q = cnt("q"); vf_assume(q <= vfg_L); b.push_back(Ent(piece(vfg_g, vfg_L - q, vfg_L))); b.back().offset = b.back().data.end(); }
        vfg_at = vf_bool("at"); vfg_tail = 0; vfg_k = 0;
        if (vfg_at) {   // at a segment: q bytes of it used, k left
            size_t q = cnt("used"); vfg_k = cnt("k"); vf_assume((q <= vfg_L) & (vfg_k <= vfg_N - vfg_L));
            b.push_back(Ent(piece(vfg_g, vfg_L - q, vfg_L + vfg_k))); b.back().offset += q;
            auto it = b.end(); --it; *i = it;
            vfg_tail = vf_bool("tail");
            if (vfg_tail) b.push_back(Ent(piece(vfg_g, vfg_L + vfg_k, vfg_N))); else vf_assume(vfg_L + vfg_k == vfg_N);
        } else { vf_assume(vfg_L == vfg_N); *i = b.end(); }
        *res = piece(vfg_g, 0, vfg_L); *len = vfg_n - vfg_L;
        self->_size = vfg_N;
    } else {
        size_t L = res->size();
        vf_inv((L >= vfg_L) & (L <= vfg_N) & (L <= vfg_n), "pop: progress"); vf_inv(*len == vfg_n - L, "pop: bytes still wanted");
        vf_assert_mem_eq(res->data(), vfg_g, L, "pop: bytes copied so far");
        if (*i == b.end()) vf_inv(L == vfg_N, "pop: all segments used");
        else {
            vf_inv((*i)->length() <= vfg_N - L, "pop: current segment");
            vf_assert_mem_eq(&*(*i)->offset, vfg_g + L, (*i)->length(), "pop: current segment content");
            auto nx = *i; ++nx;
            if (nx == b.end()) vf_inv(L + (*i)->length() == vfg_N, "pop: last segment");
        }
        vf_inv((L > vfg_L) | (*i != std::list<Ent>::iterator(0)), "pop: advances");
        for (auto it = b.begin(); it != *i && it != b.end(); ++it) vf_inv(it->length() == 0, "pop: passed segments are used up");
        vf_inv(self->_size == vfg_N, "pop: size unchanged inside the loop");
    }
}
extern "C" void c06_pop() {
    vfg_N = cnt("N"); vfg_n = vf_u64("n"); vfg_g = vf_bytes("g", vfg_N);
    SegBuffer s;
    if (vf_is_native() || vf_bounded()) { size_t a = 0; while (a < vfg_N) { size_t c = vf_u64("seg"); vf_assume(c > 0 && c <= vfg_N - a); s.push(piece(vfg_g, a, a + c)); a += c; } }
    else { s.push(piece(vfg_g, 0, vfg_N)); }     // the loop contract re-materialises an arbitrary segmentation
    bytearray_t r = s.pop(vfg_n); size_t e = vfg_n < vfg_N ? vfg_n : vfg_N;
    vf_assert(r.size() == e, "pop returns min(n, available) bytes, any segmentation"); vf_assert_mem_eq(r.data(), vfg_g, e, "pop returns the first bytes, any segmentation");
    vf_assert(s.size() == vfg_N - e, "pop removes exactly the bytes returned, any segmentation");
    if (s.buffer.empty()) vf_assert(vfg_N == e, "nothing left");
    else {
        Ent &f = s.buffer.front();
        vf_assert(f.length() <= vfg_N - e, "front segment after pop"); vf_assert_mem_eq(&*f.offset, vfg_g + e, f.length(), "front segment continues where pop stopped");
    }
    vf_cover("popped");
}
