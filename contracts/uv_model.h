// Assumed contract of the libuv calls the code uses.  The same text serves the verifier and the native replay (it replaces libuv).
// Obligations on the caller: handles are initialised before use, never used after uv_close, closed once.
#ifndef UV_MODEL_H
#define UV_MODEL_H
#include <uv.h>
#include <string.h>
enum { UVM_POLL = 1, UVM_TIMER, UVM_SIGNAL, UVM_CHECK };
struct UvRec { void *h; int kind, fd, active, closing, freed, events, oneshot, starts, stops; uint64_t timeout, repeat; void *cb; int signum; uv_close_cb ccb; uv_loop_t *loop; };
#ifndef UVM_MAX
#define UVM_MAX 40
#endif
static UvRec vfg_uv[UVM_MAX]; static int vfg_nuv; static int vfg_uv_fail; static int vfg_loop_run, vfg_loop_stop, vfg_loop_closed;
static void (*vfg_uv_run_hook)(uv_loop_t *);
static UvRec *uvm_find(const void *h) { size_t i = h ? (size_t)((uv_handle_t *)h)->u.reserved[3] : 0; return i && i <= (size_t)vfg_nuv && vfg_uv[i - 1].h == h && !vfg_uv[i - 1].freed ? &vfg_uv[i - 1] : nullptr; }
static UvRec *uvm_use(const void *h, int kind) {
    UvRec *r = uvm_find(h);
    vf_assert(r != nullptr && r->kind == kind, "event handle used while initialised"); if (!r) vf_kill();
    vf_assert(!r->closing, "event handle not used after it was closed"); if (r->closing) vf_kill();
    return r;
}
static int uvm_init(uv_loop_t *l, void *h, int kind, int fd) {
    if (vfg_uv_fail == 1) return -12;
    vf_assert(h != nullptr, "event handle exists"); if (!h || vfg_nuv >= UVM_MAX) vf_kill();
    UvRec *o = uvm_find(h); if (o) o->freed = 1;
    UvRec &r = vfg_uv[vfg_nuv++]; memset(&r, 0, sizeof r); r.h = h; r.kind = kind; r.fd = fd; r.loop = l; ((uv_handle_t *)h)->u.reserved[3] = (void *)(size_t)vfg_nuv;
    ((uv_handle_t *)h)->data = nullptr;
    return 0;
}
extern "C" {
int uv_loop_init(uv_loop_t *l) { l->stop_flag = 0; return vfg_uv_fail == 1 ? -12 : 0; }
int uv_loop_close(uv_loop_t *l) { vfg_loop_closed++; return 0; }
int uv_poll_init(uv_loop_t *l, uv_poll_t *h, int fd) { return uvm_init(l, h, UVM_POLL, fd); }
int uv_poll_start(uv_poll_t *h, int ev, uv_poll_cb cb) { UvRec *r = uvm_use(h, UVM_POLL); if (vfg_uv_fail == 2) return -1; r->active = 1; r->events = ev; r->cb = (void *)cb; r->starts++; return 0; }
int uv_poll_stop(uv_poll_t *h) { UvRec *r = uvm_use(h, UVM_POLL); r->active = 0; r->stops++; return 0; }
int uv_timer_init(uv_loop_t *l, uv_timer_t *h) { return uvm_init(l, h, UVM_TIMER, -1); }
int uv_timer_start(uv_timer_t *h, uv_timer_cb cb, uint64_t t, uint64_t rep) { UvRec *r = uvm_use(h, UVM_TIMER); if (vfg_uv_fail == 2) return -1; r->active = 1; r->timeout = t; r->repeat = rep; r->cb = (void *)cb; r->starts++; return 0; }
int uv_timer_stop(uv_timer_t *h) { UvRec *r = uvm_use(h, UVM_TIMER); r->active = 0; r->stops++; return 0; }
int uv_timer_again(uv_timer_t *h) { UvRec *r = uvm_use(h, UVM_TIMER); if (!r->cb) return -22; if (r->repeat) { r->active = 1; r->timeout = r->repeat; } return 0; }
int uv_signal_init(uv_loop_t *l, uv_signal_t *h) { return uvm_init(l, h, UVM_SIGNAL, -1); }
int uv_signal_start(uv_signal_t *h, uv_signal_cb cb, int s) { UvRec *r = uvm_use(h, UVM_SIGNAL); if (vfg_uv_fail == 2) return -1; r->active = 1; r->oneshot = 0; r->signum = s; r->cb = (void *)cb; r->starts++; return 0; }
int uv_signal_start_oneshot(uv_signal_t *h, uv_signal_cb cb, int s) { UvRec *r = uvm_use(h, UVM_SIGNAL); if (vfg_uv_fail == 2) return -1; r->active = 1; r->oneshot = 1; r->signum = s; r->cb = (void *)cb; r->starts++; return 0; }
int uv_signal_stop(uv_signal_t *h) { UvRec *r = uvm_use(h, UVM_SIGNAL); r->active = 0; r->stops++; return 0; }
int uv_check_init(uv_loop_t *l, uv_check_t *h) { return uvm_init(l, h, UVM_CHECK, -1); }
int uv_check_start(uv_check_t *h, uv_check_cb cb) { UvRec *r = uvm_use(h, UVM_CHECK); if (vfg_uv_fail == 2) return -1; r->active = 1; r->cb = (void *)cb; r->starts++; return 0; }
int uv_check_stop(uv_check_t *h) { UvRec *r = uvm_use(h, UVM_CHECK); r->active = 0; r->stops++; return 0; }
void uv_close(uv_handle_t *h, uv_close_cb cb) {
    UvRec *r = uvm_find(h); vf_assert(r != nullptr && !r->closing, "event handle closed exactly once"); if (!r || r->closing) vf_kill();
    r->closing = 1; r->active = 0; r->ccb = cb;
}
int uv_is_closing(const uv_handle_t *h) { UvRec *r = uvm_find(h); return r ? r->closing : 0; }
int uv_is_active(const uv_handle_t *h) { UvRec *r = uvm_find(h); return r ? r->active : 0; }
void uv_walk(uv_loop_t *l, uv_walk_cb cb, void *a) { int n = vfg_nuv; for (int i = 0; i < n; i++) if (!vfg_uv[i].freed && vfg_uv[i].loop == l) cb((uv_handle_t *)vfg_uv[i].h, a); }
void uv_stop(uv_loop_t *l) { vfg_loop_stop++; l->stop_flag = 1; }
static void uvm_drain(uv_loop_t *l = nullptr) { for (int i = 0; i < vfg_nuv; i++) if (vfg_uv[i].closing && (!l || vfg_uv[i].loop == l) && !vfg_uv[i].freed) { vfg_uv[i].freed = 1; if (vfg_uv[i].ccb) vfg_uv[i].ccb((uv_handle_t *)vfg_uv[i].h); } }
#ifdef VF_VERIFY
static bool uvm_main() { return true; }
#else
#include <pthread.h>
static pthread_t uvm_tid = pthread_self();
static bool uvm_main() { return pthread_equal(uvm_tid, pthread_self()); }
#endif
int uv_run(uv_loop_t *l, uv_run_mode) { if (!uvm_main()) return 0; vfg_loop_run++; if (vfg_uv_run_hook) vfg_uv_run_hook(l); uvm_drain(l); return 0; }
}
static void uvm_fire_poll(UvRec *r, int status, int ev) { ((uv_poll_cb)r->cb)((uv_poll_t *)r->h, status, ev); }
static void uvm_fire_timer(UvRec *r) { r->active = 0; ((uv_timer_cb)r->cb)((uv_timer_t *)r->h); }
static int uvm_live() { int n = 0; for (int i = 0; i < vfg_nuv; i++) n += !vfg_uv[i].freed; return n; }
static int uvm_open() { int n = 0; for (int i = 0; i < vfg_nuv; i++) n += !vfg_uv[i].closing; return n; }
#endif
