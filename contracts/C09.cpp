// Contracts for the event-driven queues of include/salticidae/event.h: C09 (no lost wake-up).
#include <vf.h>
#include "uv_model.h"
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <vector>
#include <string>
#include <list>
#include "salticidae/event.h"
using namespace salticidae;
static uv_loop_t loop_;
// ---- assumed contract of eventfd (Linux manual): counter; read returns it and resets it (or 1 and decrements, with EFD_SEMAPHORE);
// read of a zero counter fails with EAGAIN if non-blocking and blocks otherwise; write adds.
static const int EFD = 777;
static uint64_t vfg_E; static int vfg_flags, vfg_efd; static void (*vfg_io)(int op, int after);
extern "C" int eventfd(unsigned c, int f) throw() { vfg_E = c; vfg_flags = f; vfg_efd++; return EFD; }
static void stuck() { vf_assert(false, "the event loop never blocks on its notification descriptor"); vf_kill(); }
extern "C" ssize_t read(int fd, void *p, size_t n) {
    if (fd != EFD) { if (vf_is_native()) return syscall(SYS_read, fd, p, n); vf_kill(); }
    if (vfg_io) vfg_io(0, 0);
    uint64_t v; ssize_t r;
    if (n < 8) { errno = EINVAL; r = -1; }
    else if (vfg_E == 0) { if (!(vfg_flags & EFD_NONBLOCK)) stuck(); errno = EAGAIN; r = -1; }
    else { if (vfg_flags & EFD_SEMAPHORE) { v = 1; vfg_E--; } else { v = vfg_E; vfg_E = 0; } memcpy(p, &v, 8); r = 8; }
    if (vfg_io) vfg_io(0, r == 8 && vfg_E == 0 ? 2 : 1);
    return r;
}
extern "C" ssize_t write(int fd, const void *p, size_t n) {
    if (fd != EFD) { if (vf_is_native()) return syscall(SYS_write, fd, p, n); return n; }
    if (vfg_io) vfg_io(1, 0);
    uint64_t v; if (n < 8) { errno = EINVAL; return -1; }
    memcpy(&v, p, 8);
    if (v == ~(uint64_t)0) { errno = EINVAL; return -1; }
    if (v > ~(uint64_t)0 - 1 - vfg_E) { if (!(vfg_flags & EFD_NONBLOCK)) stuck(); errno = EAGAIN; } else vfg_E += v;
    if (vfg_io) vfg_io(1, 1);
    return n;
}
extern "C" int close(int fd) { if (fd != EFD) { if (vf_is_native()) return syscall(SYS_close, fd); return 0; } vfg_efd--; return 0; }
typedef uint64_t E;
template<typename Q, typename Base> struct K {
    // ---- thread-modular proof.  Shared ghost state: W (the flag: "the consumer wants a notification"), E (descriptor readable),
    // P: some producer took the flag and still has to write; H: some other consumer emptied the descriptor and has not yet raised the flag;
    // F: some other consumer raised the flag and has not finished draining; C: a completed enqueue is not handed out yet.
    //   J: !W => E|P|H          L: C => E|P|H|F
    // Owicki-Gries: every thread's every step keeps J and L given its own phase; the others may change everything else, keeping J and L.
    static Q *q; static uint8_t *W; static bool P, H, F, C, myP, myH, myF, vis, done, single; static int on, depth;
    static bool isflag(void *a) { return (char *)a >= (char *)q + sizeof(Base) && (char *)a < (char *)q + sizeof(Q); }
    static void J(const char *l) { bool h = H | myH, p = P | myP, e = vfg_E > 0; vf_inv((bool)*W | e | p | h, l); vf_inv(!C | e | p | h | F | myF, l); }
    static void env(bool consumer) {
        J("wake-up invariant holds whenever other threads may run");
        bool w0 = *W, e0 = vfg_E > 0, p0 = P;
        *W = vf_bool("W"); P = vf_bool("P"); H = vf_bool("H"); F = vf_bool("F"); C = vf_bool("C"); vfg_E = vf_u32("E");
        bool h = H | myH, p = P | myP, e = vfg_E > 0;
        vf_assume(((bool)*W | e | p | h) & (!C | e | p | h | F | myF));
        if (consumer & single) vf_assume(!H & !F & (w0 | !*W) & (!e0 | e) & (!p0 | e | P));   // producers only clear the flag, never empty the descriptor
    }
    static bool io_cons;
    static void io(int op, int after) {
        if (!on) return;
        if (!after) { env(io_cons); return; }
        if (op == 0 && after == 2) myH = true;                  // emptied the descriptor: from now on a notification is owed by the handler
        if (op == 1) { myP = false; if (io_cons) myF = false; }
    }
    static void atom(void *a, int kind) {
        if (!on || !isflag(a)) return;
        static uint8_t w0;
        if (!W) W = (uint8_t *)a;
        if (W != (uint8_t *)a) vf_hook_missing("more than one flag");
        if (kind < 8) {
            if (!io_cons && !vis) { on = 0; E x; bool got = q->try_dequeue(x); on = 1; if (got) { vf_assert(x == 42, "the enqueued element is the one handed out"); vis = true; } }
            env(io_cons); w0 = *W; return;
        }
        bool w = *W;
        if (io_cons) { if (w) { if (myH) { myH = false; myF = true; } } else vf_assert(!w0, "the consumer never withdraws its request"); if ((kind & 7) == 0) {} }
        else { vf_assert(w0 | !w, "a producer never raises the flag"); if (w0 & !w) myP = true; if (!w & vis) { done = true; C = true; } }
        J("wake-up invariant");
    }
    static void setup(bool cons) { vfg_io = io; io_cons = cons; W = nullptr; on = 0; P = H = F = C = myP = myH = myF = vis = done = false; }
    static void locate() {   // find the flag: the one atomic of the queue outside its base class that an enqueue touches
        on = 2; vis = true; W = nullptr;
    }
};
template<typename Q, typename B> Q *K<Q, B>::q; template<typename Q, typename B> uint8_t *K<Q, B>::W;
template<typename Q, typename B> bool K<Q, B>::P; template<typename Q, typename B> bool K<Q, B>::H; template<typename Q, typename B> bool K<Q, B>::F; template<typename Q, typename B> bool K<Q, B>::C;
template<typename Q, typename B> bool K<Q, B>::myP; template<typename Q, typename B> bool K<Q, B>::myH; template<typename Q, typename B> bool K<Q, B>::myF; template<typename Q, typename B> bool K<Q, B>::vis;
template<typename Q, typename B> bool K<Q, B>::done; template<typename Q, typename B> bool K<Q, B>::single; template<typename Q, typename B> bool K<Q, B>::io_cons; template<typename Q, typename B> int K<Q, B>::on; template<typename Q, typename B> int K<Q, B>::depth;
typedef MPSCQueueEventDriven<E> QS; typedef MPMCQueueEventDriven<E> QM;
typedef K<QS, MPSCQueue<E>> KS; typedef K<QM, MPMCQueue<E>> KM;
static int vfg_which; static uint8_t *vfg_seen;
extern "C" void c09_atom(void *a, int kind) {
    if (vfg_which == 2) { if ((KS::q && KS::isflag(a)) || (KM::q && KM::isflag(a))) vfg_seen = (uint8_t *)a; return; }
    if (vfg_which == 0) KS::atom(a, kind); else if (vfg_which == 1) KM::atom(a, kind);
}
template<typename KK, typename Q> static Q *mk(int which) {
    vfg_which = 3; Q *q = new Q(); KK::q = q; KK::on = 0; KK::single = which == 0;
    // initial state: nothing enqueued, nobody active
    return q;
}
template<typename KK, typename Q> static void find(Q *q, int which) {   // run one enqueue to see which atomic is the flag
    vfg_which = 2; q->enqueue((E)7); E x; q->try_dequeue(x); vfg_which = which; vf_assert(vfg_seen != nullptr, "an enqueue consults the flag"); if (!vfg_seen) vf_kill(); KK::W = vfg_seen;
}
template<typename KK, typename Q> static void producer(int which) {
    if (vf_is_native()) return;
    Q *q = mk<KK, Q>(which); KK::setup(false); KK::q = q; find<KK, Q>(q, which);
    KK::P = vf_bool("P0"); KK::H = vf_bool("H0"); KK::F = vf_bool("F0"); KK::C = vf_bool("C0"); vfg_E = vf_u32("E0"); *KK::W = vf_bool("W0");
    bool e = vfg_E > 0; vf_assume(((bool)*KK::W | e | KK::P | KK::H) & (!KK::C | e | KK::P | KK::H | KK::F));
    KK::on = 1;
    bool ok = q->enqueue((E)42, vf_bool("unbounded"));
    KK::J("wake-up invariant at the end of an enqueue");
    KK::on = 0;
    vf_assert(!KK::myP, "a producer that took the flag posts the notification before returning");
    vf_assert(!ok | KK::done, "after storing its element a producer looks at the flag");
    if (ok) vf_cover("enqueued");
    vf_kill();
}
template<typename KK, typename Q> static void consumer(int which) {
    if (vf_is_native()) return;
    Q *q = mk<KK, Q>(which); KK::setup(true); KK::q = q; find<KK, Q>(q, which);
    EventContext *ec = new EventContext(&loop_);
    int calls = 0;
    q->reg_handler(*ec, [&](Q &r) {
        vf_assert(&r == q, "the handler gets its queue"); calls++;
        KK::env(true);
        bool more = vf_bool("more");
        if (!more) { KK::C = false; KK::myF = false; }    // found the queue empty: everything completed so far has been handed out
        KK::env(true);
        return more;
    });
    vf_assert(vfg_nuv > 0 && vfg_uv[vfg_nuv - 1].kind == UVM_POLL && vfg_uv[vfg_nuv - 1].fd == EFD && vfg_uv[vfg_nuv - 1].active && (vfg_uv[vfg_nuv - 1].events & UV_READABLE), "the handler waits for the notification descriptor");
    KK::P = vf_bool("P0"); KK::H = vf_bool("H0"); KK::F = vf_bool("F0"); KK::C = vf_bool("C0"); vfg_E = vf_u32("E0"); *KK::W = vf_bool("W0");
    if (which == 0) { KK::H = false; KK::F = false; }
    bool e = vfg_E > 0; vf_assume(((bool)*KK::W | e | KK::P | KK::H) & (!KK::C | e | KK::P | KK::H | KK::F));
    if (which == 0) vf_assume(e);
    KK::on = 1;
    uvm_fire_poll(&vfg_uv[vfg_nuv - 1], 0, UV_READABLE);
    KK::on = 0; KK::myF = false; KK::myH = false;
    if (calls) vf_cover("handled");
    vf_assert(which == 1 || calls == 1, "a notification runs the handler");
    KK::J("when the handler is done, every element not handed out has a wake-up coming");
    vf_kill();
}
extern "C" void c09_mpsc_producer() { producer<KS, QS>(0); }
extern "C" void c09_mpsc_consumer() { consumer<KS, QS>(0); }
extern "C" void c09_mpmc_producer() { producer<KM, QM>(1); }
extern "C" void c09_mpmc_consumer() { consumer<KM, QM>(1); }
// ---- concrete schedules (also replayed natively): one queue, nested producers and handler runs at every descriptor operation and inside the handler
template<typename Q> struct S {
    static Q *q; static int prod, nest, pt, k1, k2, mode; static uint64_t sent, got;
    static UvRec *rec() { return &vfg_uv[vfg_nuv - 1]; }
    static void put() { if (prod <= 0) return; prod--; sent++; q->enqueue((E)sent); }
    static void run() { if (nest || !vfg_E) return; nest++; uvm_fire_poll(rec(), 0, UV_READABLE); nest--; }
    static void point() { int k = pt++; if (k == k1 || k == k2) put(); }     // another producer enqueues at the chosen points
    static void io(int op, int after) { if (op == 1 && !nest && (mode & 1)) run(); else if (nest) point(); }
    static void go() {
        vfg_which = 3; q = new Q(); prod = 4; nest = 0; EventContext *ec = new EventContext(&loop_);
        mode = vf_choice("mode", 8); k1 = vf_choice("k1", 12); k2 = vf_choice("k2", 12);
        if (mode & 4) put();
        q->reg_handler(*ec, [](Q &r) {
            point(); E x; bool burst = mode & 2;
            while (r.try_dequeue(x)) { vf_assert(x == ++got, "elements arrive in order"); point(); if (burst) return true; }
            point(); return false;
        });
        vfg_io = io;
        put(); run(); put(); run(); run();
        for (int i = 0; i < 12 && vfg_E; i++) run();
        vfg_io = nullptr;
        vf_assert(got == sent, "once everything is quiet every accepted element has been handed to the handler");
        vf_cover("quiet");
    }
};
template<typename Q> Q *S<Q>::q; template<typename Q> int S<Q>::prod; template<typename Q> int S<Q>::nest; template<typename Q> int S<Q>::pt; template<typename Q> int S<Q>::k1; template<typename Q> int S<Q>::k2; template<typename Q> int S<Q>::mode; template<typename Q> uint64_t S<Q>::sent; template<typename Q> uint64_t S<Q>::got;
extern "C" void c09_mpsc_sched() { S<QS>::go(); }
extern "C" void c09_mpmc_sched() { S<QM>::go(); }
