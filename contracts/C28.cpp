// Contracts for worker selection, start and stop (conn.h ConnPool::select_worker, start, stop_workers, stop; network.h stop): C28.
#include "netfix.h"
static Net *mk(EventContext &ec, int nw, bool tls = false) { Net::Config cf; cf.nworker(nw); fx_cfg(cf, tls); Net *n = new Net(ec, cf); fx_handlers(n); return n; }
static int vfg_n; static size_t vfg_w; static uint8_t *vfg_load; static ConnPool::Worker *vfg_base;
static size_t load(size_t i) { size_t v; memcpy(&v, vfg_load + 8 * i, 8); return v; }
// ---- any number of workers, any loads (loop contract; the worker's load is read through its accessor)
extern "C" size_t c28_nconn(ConnPool::Worker *w) { size_t k = ((size_t)((char *)w - (char *)vfg_base)) / sizeof(ConnPool::Worker); return load(k); }
static size_t vfg_nw; static bool vfg_on;
extern "C" void c28_hook(int phase) {
    if (!vfg_on) return; size_t *i = (size_t *)vf_local("i|j|k"), *idx = (size_t *)vf_local("idx|best_idx|min_idx|sel|choice"), *best = (size_t *)vf_local("best|min|best_load|least"); if (!i || !idx || !best) vf_hook_missing("locals");
    bool rng = (*i <= vfg_nw) & (*idx < vfg_nw); if (phase == 1) vf_assume(rng); else vf_inv(rng, "within the pool"); if (!rng) vf_kill();
    bool inv = (*best == load(*idx)) & (*best <= load(0)) & ((vfg_w >= *i) | (*best <= load(vfg_w)));
    if (phase == 1) vf_assume(inv); else vf_inv(inv, "the least load so far, at the worker chosen so far");
}
extern "C" void c28_any() {
    EventContext ec; Net *n = mk(ec, 1); if (vf_is_native()) return; vfg_nw = vf_u64("n"); vf_assume((vfg_nw >= 1) & (vfg_nw <= 1u << 16)); vfg_load = vf_bytes("loads", 8 * vfg_nw); vfg_w = vf_u64("w"); vf_assume(vfg_w < vfg_nw);
    ConnPool::Worker *arr = (ConnPool::Worker *)vf_bytes("workers", vfg_nw * sizeof(ConnPool::Worker)); vfg_base = arr; n->workers.obj = arr; n->nworker = vfg_nw; vfg_on = true; ConnPool::Worker *r = &n->select_worker();
    size_t k = ((size_t)((char *)r - (char *)arr)) / sizeof(ConnPool::Worker); vf_assert(k < vfg_nw, "a worker of the pool"); vf_assert(load(k) <= load(vfg_w), "no worker has fewer connections"); vf_cover("any"); vf_kill();
}
// ---- a few workers, end to end: accepted and dialled connections
extern "C" void c28_pick() {
    EventContext ec; int nw = 1 + vf_choice("nworker", vf_tier() ? 4 : 3); Net *n = mk(ec, nw); n->start(); size_t l[4]; bool dial = vf_choice("dial", 2); ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); }); for (int i = 0; i < nw; i++) { l[i] = vf_u64("load"); vf_assume(l[i] < 1ul << 60); n->workers[i].nconn = l[i]; }
    int j = 1; if (dial) n->connect(NetAddr(htonl(0x0a000001), htons(99))); else j = ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); ns_run(200); vf_assert(vfg_up == 1, "comes up"); ConnPool::conn_t c = *vfg_upconn; size_t tot = 0; int up = -1;
    for (int i = 0; i < nw; i++) { size_t now = n->workers[i].nconn; if (now != l[i]) { vf_assert(now == l[i] + 1 && up == -1, "exactly one worker's count goes up, by one"); up = i; } }
    vf_assert(up >= 0, "exactly one worker's count goes up, by one"); if (up < 0) vf_kill(); bool least = true; for (int i = 0; i < nw; i++) least &= l[up] <= l[i]; vf_assert(least, "no worker had fewer connections"); vf_assert(c->worker == &n->workers[up], "that worker drives the connection"); bool onl = false; for (int i = 0; i < vfg_nuv; i++) onl |= vfg_uv[i].kind == UVM_POLL && vfg_uv[i].fd == NS_FD0 + j && vfg_uv[i].active && vfg_uv[i].loop == n->workers[up].ec.get(); vf_assert(onl, "on its loop"); vf_cover("picked");
}
// ---- start, stop: any number of connections in any phase, stop at any point, repeated
static int open_socks() { int k = 0; for (int i = 0; i < vfg_ns; i++) k += vfg_s[i].open; return k; }
static void down(Net *n, bool del) {
    vf_assert(open_socks() == 0, "every connection's descriptor and the listening descriptor are closed"); for (int i = 0; i < vfg_ns; i++) vf_assert(vfg_s[i].closes == 1, "closed once");
    for (auto &p: n->pool) vf_assert(p.second->is_terminated(), "every connection is torn down"); for (int i = 0; i < vfg_nuv; i++) vf_assert(!(vfg_uv[i].kind == UVM_POLL && ns_is(vfg_uv[i].fd) && !vfg_uv[i].closing), "no event is left on a connection");
#ifdef VF_VERIFY
    vf_assert(vf_threads() == 0, "all threads are joined");
#endif
    for (size_t i = 0; i < n->nworker; i++) vf_assert(!n->workers[i].handle.joinable(), "all threads are joined");
}
extern "C" void c28_stop() {
    EventContext ec; bool tls = vf_choice("tls", 2); Net *n = mk(ec, 1 + vf_choice("nworker", 2), tls); int twice = vf_choice("twice", 2), lis = vf_choice("listen", 2), nc = vf_choice("conns", 3), steps = vf_choice("progress", 7); n->start(); if (twice) n->start(); if (lis) ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); });
    for (int i = 0; i < nc; i++) { if (lis && i == 0) { ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); ns_step_loop(nullptr, 2); } else { n->connect(NetAddr(htonl(0x0a000001), htons(99))); } } for (int i = 0; i < steps; i++) if (!ns_step_loop(nullptr)) break;
    if (vf_choice("ending", 2)) for (auto &p: n->pool) n->terminate(p.second); 
    ns_drop_pending(); n->stop(); down(n, false); if (twice) { n->stop(); down(n, false); } if (vf_choice("delete", 2)) { delete n; } vf_cover("stopped");
}
extern "C" void c28_nostart() { EventContext ec; Net *n = mk(ec, 2); n->stop(); down(n, false); delete n; vf_cover("never started"); }
// a connection already torn down by its worker when the network stops is not torn down again
extern "C" void c28_stop_ended() {
    Net::Config cf; cf.nworker(2); int tls = vf_choice("tls", 2); Fx f(tls, cf); size_t l0 = f.n->workers[0].nconn + f.n->workers[1].nconn; f.n->worker_terminate(f.c); int k = vf_choice("steps", 3); for (int i = 0; i < k; i++) ns_step_loop(f.c->worker->ec.get(), 1);
    f.n->stop(); down(f.n, false); vf_assert(l0 == 1 && f.n->workers[0].nconn + f.n->workers[1].nconn == 0, "load counted down once"); if (tls) vf_assert(vfg_shutdowns == 1, "TLS session shut down once"); vf_cover("ended");
}
