// Contracts for connection teardown (src/conn.cpp worker_terminate, disp_terminate, del_conn, release_conn, accept_client, _connect): C14.
#include "netfix.h"
static uv_loop_t *wl(Net *n, int i) { return n->workers[i].ec.get(); }
static const uint8_t OVER[13] = {0, 0, 0, 0, 1, 255, 255, 255, 127, 0, 0, 0, 0};
static uint8_t vfg_thr[14] = {0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 5};
struct M1 { static const uint8_t opcode = 1; DataStream serialized; uint32_t v; M1(DataStream &&s) { s >> v; } };
const uint8_t M1::opcode;
static size_t loads(Net *n) { size_t t = 0; for (size_t i = 0; i < n->nworker; i++) t += n->workers[i].nconn; return t; }
static void settled(Net *n, const ConnPool::conn_t &c, int j, int live0) {
    NsSock &s = vfg_s[j]; vf_assert(c->is_terminated(), "the connection ends up terminated"); vf_assert(!s.open && s.closes == 1, "its descriptor is closed exactly once");
    vf_assert(n->pool.find(NS_FD0 + j) == n->pool.end() || n->pool.find(NS_FD0 + j)->second.get() != c.get(), "it has left the connection table"); vf_assert(fx_poll(NS_FD0 + j) == nullptr, "its socket events are released");
    int t = 0; for (int i = 0; i < vfg_nuv; i++) t += vfg_uv[i].kind == UVM_TIMER && !vfg_uv[i].closing && !vfg_uv[i].freed; vf_assert(t == 0, "its timers are released");
    vf_assert(!c->ev_socket && !c->ev_connect, "its events are cleared"); vf_assert(loads(n) == 0, "its worker's load count is decremented once");
}
// the sources of termination
static void cause(Net *n, const ConnPool::conn_t &c, int j, int k) {
    switch (k) {
    case 0: n->terminate(c); break;                                            // user request
    case 1: vfg_s[j].eof = 1; break;                                           // end of stream
    case 2: vfg_s[j].conn = 3; vfg_s[j].err = ECONNRESET; vfg_s[j].eof = 1; c->write(bytearray_t{1, 2, 3}); break;  // transport error on output, then end of stream
    case 3: ns_feed(j, OVER, 13); break;                                       // framing error on the worker
    case 4: ns_feed(j, vfg_thr, 14); break;                                    // unparsable message: the user thread asks for termination
    case 5: n->worker_terminate(c); break;                                     // from a worker callback
    case 6: if (UvRec *r = fx_poll(NS_FD0 + j)) if (r->active) uvm_fire_poll(r, -9, 0); break;  // failed poll
    }
}
static bool step(Net *n, uv_loop_t *u, int k) { switch (k) { case 0: return ns_step_loop(u); case 1: return ns_step_loop(wl(n, 0), 1); case 2: return ns_step_loop(wl(n, n->nworker - 1), 1); default: return ns_step_loop(nullptr, 2); } }
static void est(bool tls, int second, int depth) {
    uint8_t d[20]; ref_sha1(vfg_thr + 13, 1, d); memcpy(vfg_thr + 9, d, 4); Net::Config cf; cf.nworker(2); Fx f(tls, cf); f.n->reg_handler([](M1 &&, const Net::conn_t &) {}); int k1 = vf_choice("cause", 7), k2 = second ? vf_choice("second", 7) : 7;
    cause(f.n, f.c, f.j, k1); for (int i = 0; i < depth; i++) if (!step(f.n, f.ec.get(), vf_choice("sched", 4))) vf_kill(); if (k2 < 7) { if (!vfg_s[f.j].open && k2 != 0 && k2 != 5) vf_kill(); cause(f.n, f.c, f.j, k2); }
    ns_run(200); settled(f.n, f.c, f.j, 0); vf_assert(vfg_up == 1 && vfg_down == 1, "the user is told exactly once that it is down"); if (tls) vf_assert(vfg_shutdowns == 1, "the TLS session is shut down once");
    f.n->terminate(f.c); f.n->worker_terminate(f.c); bool w = f.c->write(bytearray_t{1}); ns_run(200); vf_assert(vfg_down == 1 && vfg_s[f.j].closes == 1 && loads(f.n) == 0, "later requests have no effect"); vf_cover("torn down");
}
extern "C" void c14_once() { est(vf_choice("tls", 2), 0, 0); }
extern "C" void c14_twice() { est(vf_tier() ? vf_choice("tls", 2) : 0, 1, 0); }
extern "C" void c14_sched() { est(vf_tier() ? vf_choice("tls", 2) : 0, 1, vf_tier() ? 4 : 2); }
// while the connection is being set up: any prefix of the set-up, then terminations
extern "C" void c14_setup() {
    EventContext ec; Net::Config cf; cf.nworker(1 + vf_choice("workers", 2)); bool tls = vf_choice("tls", 2); fx_cfg(cf, tls); vfg_accept_conn = !tls || vf_choice("accept", 2); Net *n = new Net(ec, cf); fx_handlers(n); n->start(); ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); });
    int j = ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); ns_step_loop(nullptr, 2); auto it = n->pool.find(NS_FD0 + j); if (it == n->pool.end()) vf_kill(); ConnPool::conn_t c = it->second; int pre = vf_choice("prefix", 8);
    for (int i = 0; i < pre; i++) if (!ns_step_loop(nullptr)) vf_kill(); n->terminate(c); if (vf_choice("again", 2)) n->terminate(c); ns_run(200); settled(n, c, j, 0); vf_assert(vfg_down == 1 && vfg_up <= 1, "the user is told exactly once that it is down"); vf_cover("during set-up");
}
// outgoing connections: any dialling outcome, with and without a worker
extern "C" void c14_dial() {
    EventContext ec; Net::Config cf; cf.nworker(2); bool tls = vf_choice("tls", 2); fx_cfg(cf, tls); Net *n = new Net(ec, cf); fx_handlers(n); n->start(); int out = vf_choice("outcome", 4), fill = vf_choice("burst", 2), when = vf_choice("when", 3);
    vfg_ext_accept = out == 1 ? 0 : out == 2 ? 2 : 1; if (out == 3) vfg_fail_at = vfg_sysn + 5; n->connect(NetAddr(htonl(0x0a000001), htons(99))); if (out == 3) { ns_run(); vf_assert(vfg_ns == 1 && !vfg_s[0].open && vfg_s[0].closes == 1 && vfg_down == 1 && n->pool.empty(), "an attempt that fails at once is torn down"); return; } ns_step_loop(wl(n, 0), 1); int j = 0; auto it = n->pool.find(NS_FD0 + j); vf_assert(it != n->pool.end(), "a dialling connection is in the table"); if (it == n->pool.end()) vf_kill(); ConnPool::conn_t c = it->second;
    if (when >= 1) { if (fill) for (int i = 0; i < 127; i++) n->disp_tcall->async_call([](ThreadCall::Handle &) {}); n->terminate(c); }
    if (when == 2) { ns_step_loop(wl(n, 0), 1); ns_step_loop(wl(n, 0), 2); } 
    ns_run(200); if (out == 2 && !c->is_terminated()) { UvRec *t = ns_earliest(); vf_assert(t != nullptr, "a dialling attempt is timed"); ns_timer(t); ns_run(200); }
    bool lives = out == 0 && when == 0; vf_assert(c->is_terminated() == !lives, "a failed, timed-out or cancelled attempt is torn down, a successful one is not");
    if (!lives) { settled(n, c, j, 0); vf_assert(vfg_down == 1, "the user is told exactly once"); vf_cover("dial torn down"); } else { vf_assert(vfg_up == 1 && loads(n) == 1 && !vfg_down, "established"); vf_cover("dial up"); }
}
// a failing system call while accepting or dialling: reported, and no descriptor is left open
extern "C" void c14_sysfail() {
    EventContext ec; Net::Config cf; bool tls = vf_choice("tls", 2); fx_cfg(cf, tls); Net *n = new Net(ec, cf); fx_handlers(n); n->start(); ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); }); int k = vf_choice("call", 6), dial = vf_choice("dial", 2); vfg_fail_at = vfg_sysn + 1 + k; int id = -1;
    int before = 0; for (int i = 0; i < vfg_ns; i++) before += vfg_s[i].open; if (dial) id = n->connect(NetAddr(htonl(0x0a000001), htons(99))); else ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); ns_run(200);
    bool hit = vfg_sysn >= vfg_fail_at; int open = 0; for (int i = 0; i < vfg_ns; i++) { open += vfg_s[i].open; open -= vfg_s[i].npend; } vf_assert((size_t)(open - before) == n->pool.size(), "every descriptor opened is closed or belongs to a connection in the table");
    if (hit) { vf_assert(n->pool.empty() && vfg_up == 0, "no connection comes up"); if (!(dial && k == 4)) vf_assert(vfg_errs == 1 && vfg_lasterr == (dial ? SALTI_ERROR_CONNECT : SALTI_ERROR_ACCEPT) && (!dial || vfg_lastid == id), "the failure is reported"); vf_cover("failed call"); } else { vf_assert(vfg_up == 1, "comes up"); vf_cover("no failure"); }
}
