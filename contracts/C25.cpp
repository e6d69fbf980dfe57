// Contracts for the client network's routing (network.h ClientNetwork on_dispatcher_setup/teardown, _send_msg, _send_msg_deferred): C25.
#include "peerfix.h"
using CN = ClientNetwork<uint8_t>;
static int vfg_cur[3] /* per address: socket of the connection established last, -1 once it is down */, vfg_order[16], vfg_norder;
static int sock_of(const ConnPool::conn_t &c) { return c->fd - NS_FD0; }
static NetAddr caddr(int k) { return k == 2 ? NetAddr(htonl(0x0a000005), htons(5000)) : NetAddr(htonl(0x0a000005), htons(5001 + k)); }
static int k_of(const NetAddr &a) { for (int k = 0; k < 3; k++) if (a == caddr(k)) return k; vf_assert(false, "a client's address is the address it connected from"); return 0; }
struct Cx { EventContext ec; CN *n; Cx(bool tls, bool bounded = false) { CN::Config cf; if (bounded) cf.max_send_buff_size(1); fx_cfg(cf, tls); n = new CN(ec, cf); for (int k = 0; k < 3; k++) vfg_cur[k] = -1;
    n->reg_conn_handler([](const ConnPool::conn_t &c, bool up) { int k = k_of(c->get_addr()), s; if (up) { s = sock_of(c); vfg_cur[k] = s; vfg_order[vfg_norder++] = s; } else { vfg_down++; } return vfg_accept_conn != 0; });
    n->reg_error_handler([](const std::exception_ptr e, bool f, int32_t i) { vfg_errs++; vfg_fatal += f; vfg_lasterr = fx_code(e); vfg_lastid = i; });
    n->start(); ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); }); }
    int join(int k) { return ns_ext_connect(htons(80), caddr(k).ip, caddr(k).port); } };
static int nine(int j) { int c = 0; for (int k = 0; k < 20; k++) { PfMsg m = pf_out(j, k); if (!m.ok) break; c += m.op == 9; } return c; }
// send to every address: exactly the routed connection gets it, or the sender the documented error
static void probe(Cx &x, int how) {
    for (int k = 0; k < 3; k++) {
        int w = vfg_cur[k]; if (w >= 0 && !vfg_s[w].open) w = -1; int before[NS_MAX]; for (int i = 0; i < vfg_ns; i++) before[i] = nine(i); int e0 = vfg_errs, id = -1, code = 0; bool r = true;
        if (how == 0) id = x.n->send_msg_deferred(M9(1), caddr(k)); else { try { r = x.n->send_msg(M9(1), caddr(k)); } catch (ClientNetworkError &e) { code = e.get_code(); } }
        ns_run(); for (int i = 0; i < vfg_ns; i++) vf_assert(nine(i) == before[i] + (i == w), "a message to a client goes to the connection established last from its address, and to no other");
        if (w < 0) { if (how == 0) vf_assert(vfg_errs == e0 + 1 && vfg_lasterr == SALTI_ERROR_CLIENT_NOT_EXIST && vfg_lastid == id, "no live connection from that address: the sender gets the client-not-exist error"); else vf_assert(code == SALTI_ERROR_CLIENT_NOT_EXIST && vfg_errs == e0, "no live connection from that address: the sender gets the client-not-exist error"); vf_cover("no client"); }
        else { vf_assert(vfg_errs == e0 && !code && r, "a routed message reports no error"); vf_cover("routed"); }
    }
}
static void hist(int depth, bool tls) {
    Cx x(tls); int s[8], n = 0;
    for (int i = 0; i < depth; i++) { int e = vf_choice("event", 4); if (e < 2) { if (n >= 8) vf_kill(); s[n++] = x.join(e); } else { int q = vf_choice("which", depth); if (q >= n || !vfg_s[s[q]].open || vfg_s[s[q]].eof) vf_kill(); vfg_s[s[q]].eof = 1; if (e == 3) { ns_step_loop(nullptr); } }
        if (e != 3) ns_run(); }
    ns_run(); vf_assert(!vfg_fatal, "no fatal error"); probe(x, vf_choice("deferred", 2));
}
extern "C" void c25_hist() { hist(vf_tier() ? 5 : 4, false); }
extern "C" void c25_tls() { hist(3, true); }
// a connection the application refuses, and one that breaks before it was set up, never take or lose the route of another
extern "C" void c25_refused() { int tls = vf_choice("tls", 2); Cx x(tls); int a = x.join(0); ns_run(); vf_assert(vfg_cur[0] == a, "established"); vfg_accept_conn = 0; int how = vf_choice("how", 3); int b; if (how == 0) { if (!tls) vf_kill(); b = x.join(1); ns_run(); vf_assert(!vfg_s[b].open, "a refused connection is closed"); } else { vfg_accept_conn = 1; b = x.join(0); int k = vf_choice("progress", 6); for (int i = 0; i < k; i++) ns_step_loop(nullptr); if (how == 1) vfg_s[b].eof = 1; else vfg_s[a].eof = 1; ns_run(); if (how == 2) { vf_assert(vfg_s[b].open && vfg_cur[0] == b, "the newer one is up"); vf_cover("older lost"); } } vfg_accept_conn = 1; probe(x, 0); }
// refused by a full buffer
extern "C" void c25_full() { Cx x(false, true); int a = x.join(0); ns_run(); vfg_s[a].wcap = 0; salticidae::vfg_qcap = 0; int32_t id = x.n->send_msg_deferred(M9(1), caddr(0)); ns_run(); vf_assert(vfg_errs == 1 && vfg_lasterr == SALTI_ERROR_CONN_NOT_READY && vfg_lastid == id, "a deferred message refused by a full buffer is reported"); vf_assert(!x.n->send_msg(M9(2), caddr(0)) && vfg_errs == 1, "a direct one returns that it was refused"); vf_cover("full"); }
