// Contracts for include/salticidae/queue.h (sequential histories): C08.
#include <vf.h>
#include <vector>
#include <string>
#include <thread>
#include "salticidae/util.h"
#include "salticidae/queue.h"
using namespace salticidae;
static const uint32_t SZ = MPMCQ_SIZE;
typedef uint64_t E;
template<typename Q> struct X: Q { using Q::head; using Q::tail; using Q::blks; typedef typename Q::Block B; };
typedef X<MPMCQueue<E>> MM; typedef X<MPSCQueue<E>> MS;
static uint64_t *slot(void *elem, uint32_t i) { return (uint64_t *)elem + i; }
// Representation invariant.  Blocks from head to tail; block i holds elements [h_i, t_i); every block but the last is full to its end,
// every block but the first starts at 0; avail[j] is set exactly for the stored elements; blocks in use are not freed and have
// reference count 1; free blocks have no element and reference count 1.
template<typename B> static void put_range(B *b, uint32_t h, uint32_t t) {
    b->head = h; b->tail = t; b->freed = false; b->refcnt = 1; b->next = nullptr;
    memset((void *)b->avail, 0, SZ);
    if (vf_is_native()) { for (uint32_t i = h; i < t; i++) { b->avail[i] = true; } }
    else memset((void *)((uint8_t *)b->avail + h), 1, t - h);
    vf_havoc((void *)b->elem, sizeof(E) * SZ, "elems");
}
template<typename Q> struct G {
    typedef typename Q::B B; Q *q; B *b[3]; uint32_t h[3], t[3]; int nb, nf; uint64_t n;
    G(bool rewound) {   // any queue with one, two or three blocks and up to two free blocks
        q = new Q(); nb = 1 + vf_choice("blocks", 3); nf = vf_choice("free", 3); n = 0;
        b[0] = q->head.load();
        for (int i = 1; i < nb; i++) b[i] = new B();
        for (int i = 0; i < nb; i++) {
            h[i] = i == 0 ? vf_u32("h") : 0; t[i] = i == nb - 1 ? vf_u32("t") : SZ;
            vf_assume((h[i] <= t[i]) & (t[i] <= SZ));
            put_range(b[i], h[i], t[i]); n += t[i] - h[i];
        }
        for (int i = 0; i + 1 < nb; i++) b[i]->next = b[i + 1];
        q->tail = b[nb - 1];
        for (int i = 0; i < nf; i++) { B *f = new B(); uint32_t d = vf_u32("stale"); vf_assume(d <= SZ); put_range(f, d, d); f->freed = true; f->refcnt = 1; f->next = i ? (B *)q->blks.top.load() : nullptr;
            ((FreeList::Node *)f)->next = q->blks.top.load(); q->blks.top = f; }
    }
};
// content as seen from the structure: number of elements and the k-th one
template<typename Q> static uint64_t count(Q *q) { uint64_t n = 0; int g = 0; for (auto *b = q->head.load(); b && g < 6; b = b->next.load(), g++) n += (uint32_t)b->tail - (uint32_t)b->head; return n; }
template<typename Q> static bool at(Q *q, uint64_t k, E &e, bool &av) {
    int g = 0;
    for (auto *b = q->head.load(); b && g < 6; b = b->next.load(), g++) { uint32_t h = b->head, t = b->tail; if (k < t - h) { e = b->elem[h + k]; av = b->avail[h + k]; return true; } k -= t - h; }
    return false;
}
template<typename Q> static void inv(Q *q, const char *l) {
    uint32_t j = vf_u32("j"); vf_assume(j < SZ); int g = 0; typename Q::B *last = nullptr;
    for (auto *b = q->head.load(); b; b = b->next.load(), g++) {
        vf_assert(g < 6, l); if (g >= 6) return;
        uint32_t h = b->head, t = b->tail; vf_assert((h <= t) & (t <= SZ), l);
        if (last) { vf_assert(h == 0 || t == h, l); vf_assert((uint32_t)last->tail == SZ, l); }
        bool a = b->avail[j]; vf_assert(a == ((h <= j) & (j < t)), "an element slot is marked exactly when it holds a stored element");
        vf_assert((uint32_t)b->refcnt == 1, "blocks in use are not pinned"); if (!b->next.load()) vf_assert(!b->freed, "the block being filled is not marked free");
        last = b;
    }
    vf_assert(q->tail.load() == last, "tail is the last block");
    g = 0;
    for (auto *f = q->blks.top.load(); f; f = f->next.load(), g++) {
        vf_assert(g < 8, "free list finite"); if (g >= 8) return;
        vf_assert((bool)f->freed && (uint32_t)f->refcnt == 1, "free blocks are free"); auto *fb = (typename Q::B *)f; bool a = fb->avail[j]; vf_assert(!a, "free blocks hold no element");
        for (auto *b = q->head.load(); b; b = b->next.load()) vf_assert((void *)b != (void *)f, "no block is both free and in use");
    }
}
template<typename Q> static void fin(Q *q) { if (!vf_is_native()) { delete static_cast<typename std::conditional<std::is_same<Q, MM>::value, MPMCQueue<E>, MPSCQueue<E>>::type *>(q); } }
template<typename Q> static void enq() {
    G<Q> g(false); Q *q = g.q; E v = vf_u64("v"), k = vf_u64("k"), o = 0, e = 0; bool av = false, had;
    vf_assume(k < g.n || g.n == 0); had = at(q, k, o, av);
    int mode = vf_choice("mode", 3);
    bool ok = mode == 0 ? q->enqueue(v) : mode == 1 ? q->try_enqueue(v) : q->enqueue(v, false);
    vf_assert(mode != 0 || ok, "an unbounded enqueue succeeds");
    vf_assert(ok || (g.t[g.nb - 1] == SZ && g.nf == 0), "a bounded enqueue fails only when no room is left");
    vf_assert(count(q) == g.n + (ok ? 1 : 0), "an accepted element is stored once, a refused one not at all");
    if (ok) { bool r = at(q, g.n, e, av); vf_assert(r & av, "the new element comes last"); vf_assert(e == v, "the new element is the one enqueued"); vf_cover("accepted"); } else vf_cover("refused");
    if (had) { bool r = at(q, k, e, av); vf_assert(r & av, "earlier elements stay"); vf_assert(e == o, "earlier elements are unchanged"); }
    inv(q, "representation after enqueue");
    vf_cover("enq");
}
template<typename Q> static void deq() {
    G<Q> g(false); Q *q = g.q; E k = vf_u64("k"), f = 0, o = 0, e = 0, r = 0; bool av = false;
    bool some = at(q, 0, f, av), had = at(q, k, o, av);
    bool ok = q->try_dequeue(r);
    vf_assert(ok == (g.n > 0), "dequeue reports empty only when nothing is stored");
    vf_assert(count(q) == g.n - (ok ? 1 : 0), "a dequeue removes exactly the element handed out");
    if (ok) { vf_assert(some && r == f, "dequeue hands out the oldest element"); vf_cover("some"); } else vf_cover("none");
    if (had & (k > 0)) { bool x = at(q, k - 1, e, av); vf_assert(x & av, "the other elements stay"); vf_assert(e == o, "the other elements move up unchanged"); }
    inv(q, "representation after dequeue");
    vf_cover("deq");
}
extern "C" void c08_mpmc_enq() { enq<MM>(); }
extern "C" void c08_mpsc_enq() { enq<MS>(); }
extern "C" void c08_mpmc_deq() { deq<MM>(); }
extern "C" void c08_mpsc_deq() { deq<MS>(); }
extern "C" void c08_rewind() {
    G<MS> g(false); MS *q = g.q; E v = vf_u64("v"), k = vf_u64("k"), o = 0, e = 0; bool av = false;
    bool had = at(q, k, o, av);
    bool ok = q->rewind(v);
    vf_assert(ok && count(q) == g.n + 1, "a put-back element is stored once");
    bool r = at(q, 0, e, av); vf_assert(r & av, "a put-back element comes first"); vf_assert(e == v, "the put-back element is the one given");
    if (had) { r = at(q, k + 1, e, av); vf_assert(r & av, "elements behind stay"); vf_assert(e == o, "elements behind are unchanged"); }
    inv(q, "representation after put-back");
    vf_cover("rewind");
}
// histories through the public interface only, from a fresh queue, including block turnover and the destructor
template<typename Q> static void fresh() {
    Q *q = new Q(); E a = vf_u64("a"), b = vf_u64("b"), r = 0;
    vf_assert(!q->try_dequeue(r), "a fresh queue is empty");
    if (vf_bool("cap")) q->set_capacity(vf_bool("big") ? 3 * SZ : 0);
    vf_assert(q->enqueue(a), "enqueue"); vf_assert(q->try_enqueue(b), "room in the first block");
    vf_assert(q->try_dequeue(r) && r == a, "first in"); vf_assert(q->try_dequeue(r) && r == b, "first out"); vf_assert(!q->try_dequeue(r), "empty again");
    inv((X<Q> *)q, "representation of a fresh queue");
    delete q;
    if (!vf_is_native()) vf_assert(vf_leak_check() == 0, "the queue frees every block once");
    vf_cover("fresh");
}
extern "C" void c08_fresh_mpmc() { fresh<MPMCQueue<E>>(); }
extern "C" void c08_fresh_mpsc() { fresh<MPSCQueue<E>>(); }
template<typename Q> static void destroy() { G<Q> g(false); fin(g.q); if (!vf_is_native()) vf_assert(vf_leak_check() == 0, "destroying a queue frees every block exactly once"); vf_cover("destroy"); }
extern "C" void c08_destroy() { destroy<MM>(); }
// long histories across several block boundaries, executed on real queues (native replay and fuzzing only)
extern "C" void c08_long() {
    if (!vf_is_native()) return;
    MPSCQueue<E> q; std::vector<E> m; size_t hd = 0; uint64_t s = vf_u64("seed") | 1;
    for (int i = 0; i < 60000; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; E r;
        if (s % 16 < 9) { q.enqueue((E)i); m.push_back(i); }
        else { bool ok = q.try_dequeue(r); vf_assert(ok == (hd < m.size()), "dequeue reports empty only when nothing is stored"); if (ok) { vf_assert(r == m[hd], "dequeue hands out the oldest element"); hd++; if (s % 5 == 0) { q.rewind(r); hd--; m[hd] = r; } } } }
}
