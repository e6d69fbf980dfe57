// Contracts for salticidae::ThreadCall (include/salticidae/event.h): C10.
#include <vf.h>
#include "uv_model.h"
#include "efd_model.h"
#include <vector>
#include <string>
#include <list>
#include <thread>
#include <atomic>
#include "salticidae/event.h"
using namespace salticidae;
static uv_loop_t loop_;
static UvRec *vfg_rec;
static bool pump() { if (!vfg_rec || vfg_rec->closing || !vfg_rec->active || !efd_ready(vfg_rec->fd)) return false; uvm_fire_poll(vfg_rec, 0, UV_READABLE); return true; }
static int vfg_waits;
static void (*vfg_wait_hook)();
#ifdef VF_VERIFY
extern "C" void vf_cv_wait(void *) {
    if (vfg_wait_hook) { vfg_wait_hook(); return; }
    bool p = false; while (pump()) p = true;
    vf_assert(p || vfg_waits == 0, "a synchronous caller is released once its call has been handled"); if (!p && vfg_waits) vf_kill();
    vfg_waits++;
}
#endif
template<typename F> static void blocking(F &&f) {    // run a blocking caller; the loop thread is pumped meanwhile
    vfg_waits = 0;
    if (!vf_is_native()) { f(); return; }
#ifndef VF_VERIFY
    std::atomic<bool> done{false}; std::thread t([&]() { f(); done = true; });
    for (int i = 0; i < 3000 && !done; i++) { pump(); usleep(1000); }
    vf_assert(done, "a synchronous caller is released once its call has been handled"); t.join();
#endif
}
static const int MAXL = 16; static int vfg_log[MAXL], vfg_nlog; static int vfg_live;
static void logit(int i) { if (vfg_nlog < MAXL) vfg_log[vfg_nlog++] = i; }
struct Tok { int id; Tok(int i): id(i) { vfg_live++; } Tok(const Tok &o): id(o.id) { vfg_live++; } Tok(Tok &&o): id(o.id) { vfg_live++; } ~Tok() { vfg_live--; } };
static ThreadCall *mk(size_t burst) { EventContext ec(&loop_); ec.ctl->add_ref(); ThreadCall *t = new ThreadCall(ec, burst); vfg_rec = &vfg_uv[vfg_nuv - 1]; return t; }
static void fin(ThreadCall *t) {
    delete t; uvm_drain(); vf_assert(vfg_live == 0, "what a call captured or returned is released exactly once");
    if (!vf_is_native()) vf_assert(vf_leak_check() <= 1, "call handles are freed exactly once");
}
// every sequence of three calls with every outcome, in bursts of 1, 2 or more
static int vfg_want[MAXL], vfg_nwant;
static void want(int i) { vfg_want[vfg_nwant++] = i; }
static void one(ThreadCall *t, int id, bool stopped) {
    switch (vf_choice("call", 6)) {
        case 0: { Tok k(id); t->async_call([k](ThreadCall::Handle &) { logit(k.id); }); if (!stopped) want(id); break; }
        case 1: { Tok k(id); t->async_call([k](ThreadCall::Handle &) { logit(k.id); throw 5; }); if (!stopped) want(id); break; }
        case 2: { Tok k(id); t->async_call([k, t](ThreadCall::Handle &h) { logit(k.id); h.set_result(Tok(9)); }); if (!stopped) want(id); break; }
        case 3: { bool thrown = false; int got = -1;
            blocking([&]() { try { auto r = t->call([id](ThreadCall::Handle &h) { logit(id); h.set_result(Tok(100 + id)); }); got = ((Tok *)r.get())->id; } catch (SalticidaeError &e) { thrown = true; vf_assert(e.get_code() == SALTI_ERROR_NOT_AVAIL, "refused call reports not available"); } });
            vf_assert(thrown == stopped, "a call on a stopped target is refused, otherwise it succeeds"); if (!stopped) { want(id); vf_assert(got == 100 + id, "a synchronous call returns the value its function set"); } break; }
        case 4: { int got = -1, na = 0;
            blocking([&]() { try { auto r = t->call([id](ThreadCall::Handle &h) { logit(id); h.set_result(Tok(1)); throw 40 + id; }); r.get(); } catch (int v) { got = v; } catch (SalticidaeError &e) { na = e.get_code() == SALTI_ERROR_NOT_AVAIL; } });
            if (stopped) vf_assert(na == 1 && got == -1, "a call on a stopped target is refused"); else { want(id); vf_assert(got == 40 + id, "a synchronous call rethrows what its function threw"); } break; }
        default: { bool null = false, na = false;
            blocking([&]() { try { auto r = t->call([id](ThreadCall::Handle &) { logit(id); }); null = r.get() == nullptr; } catch (SalticidaeError &e) { na = e.get_code() == SALTI_ERROR_NOT_AVAIL; } });
            if (stopped) vf_assert(na, "a call on a stopped target is refused"); else { want(id); vf_assert(null, "a call that sets no result returns none"); } break; }
    }
}
extern "C" void c10_seq() {
    static const size_t B[] = {1, 2, 128};
    ThreadCall *t = mk(B[vf_choice("burst", 3)]); int stop = vf_choice("stop", 4);
    vf_assert(!t->is_stopped(), "a new target is running");
    for (int i = 0; i < 3; i++) { if (stop == i) { while (pump()) {} t->stop(); vf_assert(t->is_stopped(), "stopped"); } one(t, i + 1, stop <= i); }
    while (pump()) {}
    bool ok = vfg_nlog == vfg_nwant; for (int i = 0; i < 3 && i < vfg_nlog && i < vfg_nwant; i++) ok &= vfg_log[i] == vfg_want[i];
    vf_assert(ok, "each posted call runs exactly once, in posting order, unless the target was stopped");
    vf_cover("sequence"); fin(t);
}
// calls still pending when the target is stopped, or when it goes away
extern "C" void c10_stop() {
    ThreadCall *t = mk(128); Tok k(1);
    t->async_call([k](ThreadCall::Handle &) { logit(1); }); t->stop();
    while (pump()) {}
    vf_assert(vfg_nlog == 0, "a pending call is not executed after the target was stopped");
    vf_cover("stop"); k.~Tok(); fin(t); vfg_live++;
}
static ThreadCall *vfg_t;
static void destroy_hook() { if (vfg_t) { ThreadCall *t = vfg_t; vfg_t = nullptr; delete t; vfg_waits++; } else { vf_assert(vfg_waits <= 1, "a synchronous caller is released when its target goes away"); if (vfg_waits > 1) vf_kill(); vfg_waits++; } }
extern "C" void c10_destroy() {
    ThreadCall *t = mk(128); bool na = false, exec = false; { Tok k(1); t->async_call([k](ThreadCall::Handle &) { logit(1); }); }
    vfg_t = t;
    if (!vf_is_native()) { vfg_wait_hook = destroy_hook; vfg_waits = 0; try { auto r = t->call([&](ThreadCall::Handle &) { exec = true; }); r.get(); } catch (SalticidaeError &e) { na = e.get_code() == SALTI_ERROR_NOT_AVAIL; } vfg_wait_hook = nullptr; }
#ifndef VF_VERIFY
    else { std::atomic<bool> done{false}; std::thread th([&]() { try { auto r = t->call([&](ThreadCall::Handle &) { exec = true; }); r.get(); } catch (SalticidaeError &e) { na = e.get_code() == SALTI_ERROR_NOT_AVAIL; } done = true; });
        usleep(100000); delete t; for (int i = 0; i < 2000 && !done; i++) usleep(1000); vf_assert(done, "a synchronous caller is released when its target goes away"); th.join(); }
#endif
    vf_assert(na && !exec && vfg_nlog == 0, "a call pending when its target goes away is refused, not executed");
    vf_cover("destroy"); uvm_drain(); vf_assert(vfg_live == 0, "pending calls are released exactly once");
    if (!vf_is_native()) vf_assert(vf_leak_check() <= 1, "call handles are freed exactly once");
}
// one iteration of the handler loop from an arbitrary position: try_dequeue is replaced by its contract (C08): the queue is empty, or hands out
// the first pending call, which may be asynchronous or synchronous, succeed or throw.
static uint64_t vfg_cnt, vfg_burst; static int vfg_out, vfg_kind, vfg_end; static bool vfg_stopped; static ThreadCall::Handle *vfg_h; static ThreadNotifier<ThreadCall::Result> *vfg_nt;
extern "C" bool c10_try_dequeue(void *, ThreadCall::Handle **h) {
    if (vf_bool("empty")) { vfg_end = 1; return false; }
    vfg_out++; Tok k(1); vfg_kind = vf_choice("kind", 4); vfg_h = *h = new ThreadCall::Handle(); vfg_nt = nullptr; int kind = vfg_kind;
    (*h)->callback = [k, kind](ThreadCall::Handle &hd) { logit(k.id); if (kind & 1) throw 5; hd.set_result(Tok(7)); };
    if (kind & 2) { vfg_nt = new ThreadNotifier<ThreadCall::Result>(); vfg_nt->ul.unlock(); (*h)->notifier = vfg_nt; }
    return true;
}
static void iter_post() {
    vf_inv(vfg_out == 1 && vfg_nlog == (vfg_stopped ? 0 : 1), "an iteration runs exactly the pending call it took, unless stopped"); vf_inv(!vf_alive(vfg_h), "the handled call is released");
    if (vfg_kind & 2) { vf_inv(vfg_nt->ready, "the synchronous caller is notified"); ThreadCall::Result r = std::move(vfg_nt->data); int got = 0; bool na = false;
        try { void *p = r.get(); got = p ? ((Tok *)p)->id : -1; } catch (int v) { got = 50 + v; } catch (SalticidaeError &e) { na = e.get_code() == SALTI_ERROR_NOT_AVAIL; }
        vf_inv(vfg_stopped ? na : got == (vfg_kind & 1 ? 55 : 7), "the outcome is the one of its call"); vfg_nt->ul.lock(); }
    if (vfg_nt) { delete vfg_nt; }
    vf_inv(vfg_live == 0, "what the call captured is released");
}
extern "C" void c10_loop_hook(int phase) {
    size_t *c = (size_t *)vf_local("cnt|n|count|i"); if (!c) vf_hook_missing("locals");
    if (phase == 0) { vf_inv(*c == 0, "a burst starts counting at zero"); return; }
    if (phase == 1) { vfg_cnt = vf_u64("cnt"); vf_assume((vfg_burst == 0) | (vfg_cnt < vfg_burst)); *c = vfg_cnt; vfg_out = 0; vfg_nlog = 0; }
    else { iter_post(); vf_inv(*c == vfg_cnt + 1, "calls of a burst are counted"); vf_inv((vfg_burst == 0) | (*c < vfg_burst), "a burst does not exceed its limit"); vf_cover("iteration"); }
}
extern "C" void c10_iter() {
    vfg_burst = vf_u64("burst"); ThreadCall *t = mk(vfg_burst); vfg_nlog = 0; vfg_stopped = vf_bool("stopped"); if (vfg_stopped) t->stop();
    if (vf_is_native()) return;
    vfg_ev[0] = 1; uvm_fire_poll(vfg_rec, 0, UV_READABLE);
    if (vfg_end) { vf_assert(vfg_out == 0 && !efd_ready(vfg_rec->fd), "the handler finishes only when no call is pending"); vf_cover("empty"); }
    else { iter_post(); vf_assert(vfg_cnt + 1 == vfg_burst && efd_ready(vfg_rec->fd), "at the burst limit the handler yields and asks to be run again"); vf_cover("burst"); }
}
