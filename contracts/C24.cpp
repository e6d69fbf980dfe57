// Contracts for the event wrappers of include/salticidae/event.h: C24.
#include <vf.h>
#include "uv_model.h"
#include <vector>
#include <string>
#include <list>
#include "salticidae/event.h"
#include "errors_model.h"
using namespace salticidae;
static int vfg_got, vfg_fd, vfg_ev, vfg_n; static void *vfg_self;
static uv_loop_t loop_; static int vfg_armed;  // the event that was armed before it was moved around
template<typename Ev> struct Tr;
template<> struct Tr<FdEvent> { static const int K = UVM_POLL; static int hid(FdEvent &e) { return (int)(intptr_t)uvm_find(e.ev_fd)->fd - 100; }
    static FdEvent mk(const EventContext &ec, int id) { return FdEvent(ec, 100 + id, [id](int fd, int ev) { vfg_got = id; vfg_fd = fd; vfg_ev = ev; vfg_n++; }); }
    static void add(FdEvent &e, int id) { e.add(id & 1 ? FdEvent::READ : FdEvent::WRITE); UvRec *r = uvm_find(e.ev_fd); vf_assert(r->active && r->events == (id & 1 ? UV_READABLE : UV_WRITABLE) && r->fd == 100 + id, "poll armed for the requested direction on its descriptor"); }
    static void fire(FdEvent &e, int id) { UvRec *r = uvm_find(e.ev_fd); int st = vf_bool("err") ? -5 : 0, ev = vf_u8("ev") & 3; uvm_fire_poll(r, st, ev);
        vf_assert(vfg_fd == 100 + id, "callback gets the descriptor of its event"); vf_assert(vfg_ev == (ev | (st ? FdEvent::ERROR : 0)), "a failed poll is reported as an error, a successful one is not"); }
    static void *handle(FdEvent &e) { return e.ev_fd; } };
template<> struct Tr<TimerEvent> { static const int K = UVM_TIMER;
    static TimerEvent mk(const EventContext &ec, int id) { return TimerEvent(ec, [id](TimerEvent &t) { vfg_got = id; vfg_self = &t; vfg_n++; }); }
    static void add(TimerEvent &e, int id) { e.add(2.5 * id); UvRec *r = uvm_find(e.ev_timer); vf_assert(r->active && r->timeout == 2500u * id && r->repeat == 0, "timer armed once with seconds converted to milliseconds"); }
    static void fire(TimerEvent &e, int id) { uvm_fire_timer(uvm_find(e.ev_timer)); vf_assert(vfg_self == &e, "callback gets the event that owns the handle"); }
    static void *handle(TimerEvent &e) { return e.ev_timer; } };
template<> struct Tr<SigEvent> { static const int K = UVM_SIGNAL;
    static SigEvent mk(const EventContext &ec, int id) { return SigEvent(ec, [id](int s) { vfg_got = id; vfg_fd = s; vfg_n++; }); }
    static void add(SigEvent &e, int id) { if (vf_bool("once")) e.add_once(10 + id); else e.add(10 + id); UvRec *r = uvm_find(e.ev_sig); vf_assert(r->active && r->signum == 10 + id, "signal armed"); }
    static void fire(SigEvent &e, int id) { UvRec *r = uvm_find(e.ev_sig); ((uv_signal_cb)r->cb)((uv_signal_t *)r->h, 10 + id); vf_assert(vfg_fd == 10 + id, "callback gets the signal number"); }
    static void *handle(SigEvent &e) { return e.ev_sig; } };
template<> struct Tr<CheckEvent> { static const int K = UVM_CHECK;
    static CheckEvent mk(const EventContext &ec, int id) { return CheckEvent(ec, [id]() { vfg_got = id; vfg_n++; }); }
    static void add(CheckEvent &e, int) { e.add(); vf_assert(uvm_find(e.ev_check)->active, "check armed"); }
    static void fire(CheckEvent &e, int) { UvRec *r = uvm_find(e.ev_check); ((uv_check_cb)r->cb)((uv_check_t *)r->h); }
    static void *handle(CheckEvent &e) { return e.ev_check; } };
template<> struct Tr<TimedFdEvent> { static const int K = UVM_POLL;
    static TimedFdEvent mk(const EventContext &ec, int id) { return TimedFdEvent(ec, 100 + id, [id](int fd, int ev) { vfg_got = id; vfg_fd = fd; vfg_ev = ev; vfg_n++; }); }
    static void add(TimedFdEvent &e, int id) { e.add(FdEvent::READ, 1.5 * id); UvRec *p = uvm_find(e.ev_fd), *t = uvm_find(e.ev_timer);
        vf_assert(p->active && p->events == UV_READABLE && p->fd == 100 + id && t->active && t->timeout == 1500u * id && t->repeat == 0, "timed poll arms both the poll and the timeout"); }
    static void fire(TimedFdEvent &e, int id) { UvRec *p = uvm_find(e.ev_fd), *t = uvm_find(e.ev_timer);
        if (vf_bool("timeout")) { uvm_fire_timer(t); vf_assert(vfg_ev == TimedFdEvent::TIMEOUT, "timeout reported as timeout"); vf_assert(!p->active, "after a timeout the descriptor is no longer polled"); }
        else { int st = vf_bool("err") ? -5 : 0, s0 = t->starts; uvm_fire_poll(p, st, 1); vf_assert(vfg_ev == (1 | (st ? FdEvent::ERROR : 0)), "a failed poll is reported as an error"); vf_assert(t->active && t->timeout == 1500u * id && t->starts == s0 + 1, "activity restarts the timeout with the same period"); }
        vf_assert(vfg_fd == 100 + id, "callback gets the descriptor of its event"); }
    static void *handle(TimedFdEvent &e) { return e.ev_fd; } };
template<typename Ev> static void check(Ev &e, int id, const char *l) {
    vf_assert((bool)e == (id > 0), l); if (!id) { vf_assert(Tr<Ev>::handle(e) == nullptr, l); e.del(); return; }
    if (!(vfg_armed == id && vf_bool("as armed"))) Tr<Ev>::add(e, id); vfg_got = 0; vfg_n = 0; Tr<Ev>::fire(e, id); vf_assert(vfg_got == id && vfg_n == 1, "the callback the event was created with runs once");
}
template<typename Ev> static void run() {
    typedef Tr<Ev> T;
    EventContext *ec = new EventContext(&loop_); ec->ctl->add_ref();   // the loop itself outlives the events (never deleted here)
    int A = 1, B = 0;
    {
        Ev a(T::mk(*ec, 1)), b;
        if (vf_bool("b")) { b = T::mk(*ec, 2); B = 2; }
        int arm = vf_choice("armed", 3); if (arm == 1) { T::add(a, 1); vfg_armed = 1; } if (arm == 2 && B) { T::add(b, 2); vfg_armed = 2; }
        for (int i = 0; i < 2; i++) switch (vf_choice("op", 9)) {
            case 0: a = std::move(b); A = B; B = 0; break;
            case 1: b = std::move(a); B = A; A = 0; break;
            case 2: { a.swap(b); int t = A; A = B; B = t; break; }
            case 3: { Ev &r = a; a = std::move(r); break; }
            case 4: { Ev c(std::move(a)); check(c, A, "moved event owns the handle"); A = 0; break; }
            case 5: { Ev c(std::move(b)); a = std::move(c); A = B; B = 0; break; }
            case 6: a.clear(); A = 0; break;
            case 7: b.clear(); b.clear(); B = 0; break;
            default: a.del(); if (A == vfg_armed) vfg_armed = 0; if (A) { vf_assert(!uvm_find(T::handle(a))->active, "deleted event is not armed"); } break;
        }
        check(a, A, "first event"); check(b, B, "second event");
        int per = std::is_same<Ev, TimedFdEvent>::value ? 2 : 1;
        vf_assert(uvm_open() == per * ((A > 0) + (B > 0)), "a handle is open exactly while an event owns it");
    }
    vf_assert(uvm_open() == 0, "every handle is closed when its owner goes");
    uvm_drain();
    vf_assert(uvm_live() == 0, "every handle is released");
    delete ec;
    if (!vf_is_native()) vf_assert(vf_leak_check() <= 1, "handles are freed exactly once");   // the loop's control block stays
    vf_cover("events");
}
extern "C" void c24_fd() { run<FdEvent>(); }
extern "C" void c24_timer() { run<TimerEvent>(); }
extern "C" void c24_timedfd() { run<TimedFdEvent>(); }
extern "C" void c24_sig() { run<SigEvent>(); }
extern "C" void c24_check() { run<CheckEvent>(); }
extern "C" void c24_times() {
    static const double S[] = {0, 0.001, 0.0005, 0.1, 0.25, 0.999, 1, 1.5, 2, 7, 30, 61.5, 3600, 86400, 1e6};
    static const uint64_t M[] = {0, 1, 0, 100, 250, 999, 1000, 1500, 2000, 7000, 30000, 61500, 3600000, 86400000, 1000000000};
    EventContext ec(&loop_); ec.ctl->add_ref();
    uint32_t i = vf_choice("t", 15);
    TimerEvent t(ec, [](TimerEvent &) {}); t.add(S[i]); vf_assert(uvm_find(t.ev_timer)->timeout == M[i] && uvm_find(t.ev_timer)->repeat == 0, "timer seconds become milliseconds");
    TimedFdEvent f(ec, 5, [](int, int) {}); f.add(FdEvent::WRITE, S[i]); vf_assert(uvm_find(f.ev_timer)->timeout == M[i] && uvm_find(f.ev_fd)->events == UV_WRITABLE, "timed poll seconds become milliseconds");
    vf_cover("times");
}
extern "C" void c24_fail() {   // a failure of the loop library is an error, not silence
    EventContext ec(&loop_); ec.ctl->add_ref(); bool thrown = false;
    int w = vf_choice("what", 5), when = vf_bool("init") ? 1 : 2;
    if (when == 1) vfg_uv_fail = 1;
    try { switch (w) {
        case 0: { FdEvent e(ec, 3, [](int, int) {}); vfg_uv_fail = 2; e.add(FdEvent::READ); break; }
        case 1: { TimerEvent e(ec, [](TimerEvent &) {}); vfg_uv_fail = 2; e.add(1); break; }
        case 2: { TimedFdEvent e(ec, 3, [](int, int) {}); vfg_uv_fail = 2; e.add(FdEvent::READ, 1); break; }
        case 3: { SigEvent e(ec, [](int) {}); vfg_uv_fail = 2; e.add(2); break; }
        default: { CheckEvent e(ec, []() {}); vfg_uv_fail = 2; e.add(); break; }
    } } catch (SalticidaeError &x) { thrown = true; vf_assert(x.get_code() == (when == 1 ? SALTI_ERROR_LIBUV_INIT : SALTI_ERROR_LIBUV_START), "the error says what failed"); }
    vf_assert(thrown, "a loop-library failure is reported"); vf_cover("fail");
}
