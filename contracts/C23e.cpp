// Contracts for the C interface to loops, timers, signals, cross-thread calls and queues (src/event.cpp): C23.
#include <vf.h>
#define EFDN_ 24
#include "uv_model.h"
#include "efd_model.h"
#include <vector>
#include <string>
#include <list>
#include <thread>
#include <atomic>
#include "salticidae/event.h"
using namespace salticidae;
static int vfg_a, vfg_b, vfg_n, vfg_sig; static void *vfg_u; static const void *vfg_self; static void *vfg_got[8];
static UvRec *rec(int kind) { for (int i = vfg_nuv - 1; i >= 0; i--) if (vfg_uv[i].kind == kind && !vfg_uv[i].freed) return &vfg_uv[i]; return nullptr; }
static void seen(const void *s, void *u, int *w) { vfg_n++; vfg_self = s; vfg_u = u; (*w)++; }
static void t_a(timerev_t *t, void *u) { seen(t, u, &vfg_a); }
static void t_b(timerev_t *t, void *u) { seen(t, u, &vfg_b); }
static void s_a(int sig, void *u) { vfg_sig = sig; seen(nullptr, u, &vfg_a); }
static void c_a(threadcall_handle_t *h, void *u) { if (vfg_n < 8) vfg_got[vfg_n] = u; seen(h, u, &vfg_a); }
static bool vfg_one; static int vfg_left;
// takes everything, or (vfg_one) one element per call, asking to be called again while more are left
static bool q_a(mpscqueue_t *q, void *u) { seen(q, u, &vfg_a); void *e; while (mpscqueue_try_dequeue(q, &e)) { if (vfg_b < 8) vfg_got[vfg_b] = e; vfg_b++; if (vfg_one && --vfg_left > 0) return true; if (vfg_one) return false; } return false; }
extern "C" void c23e_timer() {
    eventcontext_t *ec = eventcontext_new(); vf_assert(ec != nullptr, "a loop is made"); int x, y; timerev_t *t = timerev_new(ec, t_a, &x); UvRec *r = rec(UVM_TIMER); vf_assert(t && r && !r->active && timerev_get_ec(t)->get() == ec->get(), "a timer on that loop, not armed"); if (!t || !r) vf_kill();
    timerev_add(t, 2.5); vf_assert(r->active && r->timeout == 2500, "armed for the given time"); if (!r->active) vf_kill(); int op = vf_choice("op", 4);
    if (op == 1) { timerev_set_callback(t, t_b, &y); } if (op == 2) { timerev_del(t); vf_assert(!r->active && !r->closing, "disarmed"); timerev_add(t, 1); vf_assert(r->active && r->timeout == 1000, "armed again"); if (!r->active) vf_kill(); } if (op == 3) { timerev_clear(t); vf_assert(r->closing, "released"); timerev_free(t); vf_cover("cleared"); return; }
    uvm_fire_timer(r); vf_assert(vfg_n == 1 && vfg_a == (op != 1) && vfg_b == (op == 1) && vfg_u == (op == 1 ? &y : &x) && vfg_self == t, "the callback set last runs once, with its timer and user pointer"); timerev_free(t); vf_assert(r->closing, "freeing releases the handle"); uvm_drain(); eventcontext_free(ec); vf_cover("timer");
}
extern "C" void c23e_signal() {
    eventcontext_t *ec = eventcontext_new(); int x, n = vf_choice("sig", 3) * 7 + 1; sigev_t *s = sigev_new(ec, s_a, &x); UvRec *r = rec(UVM_SIGNAL); vf_assert(s && r && !r->active && sigev_get_ec(s)->get() == ec->get(), "a signal event on that loop"); if (!s || !r) vf_kill(); sigev_add(s, n); vf_assert(r->active && r->signum == n, "watching that signal"); if (!r->active) vf_kill(); int op = vf_choice("op", 3); if (op == 1) { sigev_del(s); vf_assert(!r->active && !r->closing, "stopped"); sigev_add(s, n); if (!r->active) vf_kill(); } if (op == 2) { sigev_clear(s); vf_assert(r->closing, "released"); sigev_free(s); vf_cover("cleared"); return; }
    ((uv_signal_cb)r->cb)((uv_signal_t *)r->h, n); vf_assert(vfg_n == 1 && vfg_sig == n && vfg_u == &x, "the callback runs with the signal and user pointer"); sigev_free(s); vf_assert(r->closing, "freeing releases the handle"); vf_cover("signal");
}
static bool pump(UvRec *r) { if (!r || r->closing || !r->active || !efd_ready(r->fd)) return false; uvm_fire_poll(r, 0, UV_READABLE); return true; }
extern "C" void c23e_call() { eventcontext_t *ec = eventcontext_new(); threadcall_t *t = threadcall_new(ec); UvRec *r = rec(UVM_POLL); vf_assert(t && r && threadcall_get_ec(t)->get() == ec->get(), "a call target on that loop"); if (!t || !r) vf_kill(); int u[3]; int k = vf_choice("calls", 4); for (int i = 0; i < k; i++) threadcall_async_call(t, c_a, &u[i]); vf_assert(vfg_n == 0, "calls run on the loop"); while (pump(r)) {} vf_assert(vfg_n == k, "each call runs once"); for (int i = 0; i < k; i++) vf_assert(vfg_got[i] == &u[i], "in order, with its user pointer"); if (k) vf_assert(vfg_self != nullptr, "with its handle"); threadcall_free(t); vf_cover("calls"); }
extern "C" void c23e_queue() {
    eventcontext_t *ec = eventcontext_new(); mpscqueue_t *q = mpscqueue_new(); vf_assert(q != nullptr, "a queue is made"); int x; int cap = vf_choice("cap", 4); if (cap == 3) mpscqueue_set_capacity(q, 1); bool h = vf_choice("handler", 2); vfg_one = h && vf_choice("one", 2); vfg_left = 3; UvRec *r = nullptr; if (h) { mpscqueue_reg_handler(q, ec, q_a, &x); r = rec(UVM_POLL); vf_assert(r != nullptr, "the handler watches the queue"); if (!r) vf_kill(); vf_assert(r->loop == ec->get(), "on that loop"); }
    void *e = (void *)7; vf_assert(!mpscqueue_try_dequeue(q, &e), "an empty queue yields nothing"); mpscqueue_t w; if (cap == 3) w.set_capacity(1); int k = 0; void *sent[3]; for (int i = 0; i < 3; i++) { void *v = (void *)(size_t)vf_u64("v"); bool unb = i == 2 && cap == 2, a = mpscqueue_enqueue(q, v, unb), b = w.enqueue(v, unb); vf_assert(a == b, "accepted exactly when the C++ queue accepts"); if (a) sent[k++] = v; }
    if (h) { while (pump(r)) {} vf_assert(vfg_self == q && vfg_u == &x && vfg_b == k, "the handler gets every element, with the queue and user pointer"); for (int i = 0; i < k; i++) vf_assert(vfg_got[i] == sent[i], "in order"); mpscqueue_unreg_handler(q); vf_assert(r->closing || !r->active, "unregistered"); } else { for (int i = 0; i < k; i++) { bool ok = mpscqueue_try_dequeue(q, &e); vf_assert(ok && e == sent[i], "elements come out in order"); } vf_assert(!mpscqueue_try_dequeue(q, &e), "then nothing"); }
    mpscqueue_free(q); vf_cover(h ? "handled" : "taken");
}
#ifdef VF_ABSQ
size_t salticidae::vfg_qcap = (size_t)-1;
extern "C" void c23e_full() {
    mpscqueue_t *q = mpscqueue_new(); size_t cap = vf_u64("cap"); mpscqueue_set_capacity(q, cap); vf_assert(q->vfg_cap == cap, "capacity as given"); salticidae::vfg_qcap = vf_choice("room", 3); int n = 0; void *sent[3];
    for (int i = 0; i < 3; i++) { bool unb = vf_choice("unbounded", 2); void *v = (void *)(size_t)vf_u64("v"); bool want = unb || (size_t)n < salticidae::vfg_qcap, r = mpscqueue_enqueue(q, v, unb); vf_assert(r == want, "a bounded enqueue is refused exactly when the queue is full, an unbounded one never"); if (want) sent[n++] = v; else vf_cover("refused"); }
    for (int i = 0; i < n; i++) { void *e; bool ok = mpscqueue_try_dequeue(q, &e); vf_assert(ok && e == sent[i], "what was accepted comes out in order"); } void *e; vf_assert(!mpscqueue_try_dequeue(q, &e), "and nothing else"); mpscqueue_free(q); vf_cover("full");
}
#endif
extern "C" void c23e_loop() { eventcontext_t *ec = eventcontext_new(); eventcontext_dispatch(ec); vf_assert(vfg_loop_run == 1, "dispatch runs the loop"); eventcontext_stop(ec); vf_assert(vfg_loop_stop == 1, "stop stops it"); eventcontext_free(ec); vf_assert(vfg_loop_closed == 1, "freeing the last reference closes it"); vf_cover("loop"); }
