// Contracts for TLS connection set-up (src/conn.cpp _recv_data_tls_handshake, _send_data_tls_handshake, _recv_data_dummy; conn.h feed, update_conn; crypto.h TLS): C15.
#define NS_TLS_ONLY
#include "netfix.h"
static int vfg_early, vfg_decided, vfg_accepted, vfg_got, vfg_certat; static bool vfg_pre_ok = true;
static uv_loop_t *wl(Net *n, int i) { return n->workers[i].ec.get(); }
static void note_read() { if (!vfg_accepted) vfg_pre_ok = false; }
static void put(bytearray_t &s, int op, const uint8_t *p, int n) { uint8_t d[20]; ref_sha1(p, n, d); uint8_t h[13] = {0, 0, 0, 0, (uint8_t)op, (uint8_t)n, 0, 0, 0, d[0], d[1], d[2], d[3]}; s.insert(s.end(), h, h + 13); s.insert(s.end(), p, p + n); }
struct Early: public Net { using Net::Net; void on_dispatcher_setup(const ConnPool::conn_t &c) override { if (vfg_early) { uint8_t x[3] = {1, 2, 3}; c->write(bytearray_t(x, x + 3)); } } };
static Net *mk(EventContext &ec, int nw) {
    Net::Config cf; cf.nworker(nw); fx_cfg(cf, true); Net *n = new Early(ec, cf);
    n->reg_conn_handler([](const ConnPool::conn_t &c, bool up) { if (up) { vfg_up++; vfg_decided++; vfg_certat = c->get_peer_cert() != nullptr; bool a = vfg_accept_conn != 0; vfg_accepted = a; return a; } vfg_down++; return true; });
    n->reg_error_handler([](const std::exception_ptr e, bool fatal, int32_t id) { vfg_errs++; vfg_lasterr = fx_code(e); });
    n->set_handler(1, [](const NMsg &, const Net::conn_t &) { vfg_got++; vf_assert(vfg_accepted, "nothing is delivered before the user accepted the peer"); });
    n->start(); return n;
}
// ---- one handshake step from any state: the TLS layer answers anything
extern "C" void c15_step() {
    EventContext ec; Net *n = mk(ec, 1); ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); }); int j = ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); ns_step_loop(wl(n, 0), 2); ns_step_loop(wl(n, 0), 1);
    auto it = n->pool.find(NS_FD0 + j); if (it == n->pool.end() || !it->second->tls) vf_kill(); ConnPool::conn_t c = it->second; int fd = NS_FD0 + j; UvRec *r = fx_poll(fd); if (!r) vf_kill(); vf_assert(fx_events(fd) == (UV_READABLE | UV_WRITABLE), "waits for the socket in both directions at first");
    int pre = vf_choice("already", 3); if (pre) { c->ready_send = pre == 2; }
    vfg_nocert = vf_choice("nocert", 2); int res = 1 + vf_choice("result", 4), ev = vf_choice("event", 3), how = vf_choice("err", 3); vfg_hs[0] = res; if (res == NS_HS_FAIL) vfg_hs_err = how == 0 ? SSL_ERROR_SSL : how == 1 ? SSL_ERROR_SYSCALL : SSL_ERROR_ZERO_RETURN; ns_feed(j, "xyz", 3);
    uvm_fire_poll(r, 0, ev == 0 ? UV_READABLE : ev == 1 ? UV_WRITABLE : (UV_READABLE | UV_WRITABLE)); vf_assert(c->tls->ssl->hsn == 1, "a socket event drives the handshake one step"); vf_assert(!vfg_app_reads && !vfg_app_writes, "no application data during the handshake");
    if (res == NS_HS_READ) { vf_assert(fx_events(fd) == UV_READABLE, "waits to read exactly when asked"); vf_cover("want read"); } else if (res == NS_HS_WRITE) { vf_assert(fx_events(fd) == UV_WRITABLE, "waits to write exactly when asked"); vf_cover("want write"); }
    else if (res == NS_HS_DONE && !vfg_nocert) { for (int i = 0; i < 4 && ns_step_loop(wl(n, 0)); i++) {} vf_assert(!vfg_app_reads && !c->recv_buffer.size(), "no application byte is read before the user accepts"); vf_assert(c->get_peer_cert() && !c->is_terminated(), "the peer's certificate is recorded"); bytearray_t der = c->get_peer_cert()->get_der(); vf_assert(der.size() == 4 && der[2] == vfg_peercert.id, "the certificate recorded is the peer's"); vf_cover("completed"); }
    else { ns_run(100); vf_assert(c->is_terminated() && vfg_errs == 1 && vfg_up == 0 && !vfg_app_reads, "a failed handshake or a peer without certificate ends the connection"); vf_cover("failed"); }
}
// ---- whole set-up: handshake scripts, verdicts, early data, dialled and accepted, event orders
static void whole(bool dial, int slow) {
    EventContext ec; Net *n = mk(ec, 1 + vf_choice("workers", 2)); vfg_accept_conn = vf_choice("verdict", 2); int steps = 0, end = NS_HS_DONE; for (; steps < 2; steps++) { int r = 1 + vf_choice("hs", 4); vfg_hs[steps] = r; if (r == NS_HS_DONE || r == NS_HS_FAIL) { end = r; break; } } vfg_read_hook = note_read; vfg_early = vf_choice("early", 2); vfg_fair = 1;
    int j; if (dial) { n->connect(NetAddr(htonl(0x0a000001), htons(99))); ns_step_loop(wl(n, 0), 1); j = 0; } else { ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); }); j = ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); }
    bytearray_t s; uint8_t p[2] = {1, 2}; put(s, 1, p, 2); put(s, 1, p, 0); ns_feed(j, s.data(), (int)s.size());
    if (slow) { for (int i = 0; i < 30; i++) { bool any = false; for (size_t w = 0; w < n->nworker; w++) any |= ns_step_loop(wl(n, w)); if (!any) break; } vf_assert(!vfg_app_reads && !vfg_got, "no application byte is read while the user has not decided"); }
    ns_run(200); vf_assert(vfg_pre_ok, "no application byte is read before the user accepts"); vf_assert(!vfg_app_before, "nothing bypasses TLS"); NsSock &so = vfg_s[j];
    if (end == NS_HS_FAIL) { vf_assert(!so.open && so.closes == 1 && !vfg_up && !vfg_got, "a failed handshake ends the connection without telling the user it is up"); vf_cover("handshake failed"); return; }
    vf_assert(vfg_up == 1 && vfg_certat == 1, "the user decides once, with the certificate at hand");
    if (vfg_accept_conn) { vf_assert(vfg_got == 2 && so.open, "accepted: what was received is delivered"); vf_cover("accepted"); } else { vf_assert(vfg_got == 0 && !vfg_app_reads && !so.open && vfg_down == 1, "rejected: terminated, nothing is delivered"); vf_cover("rejected"); }
}
extern "C" void c15_accept() { whole(false, vf_choice("slow", 2)); }
extern "C" void c15_dial() { whole(true, vf_choice("slow", 2)); }
// certificate policy: the configured callback is consulted unless the CA check is to be skipped; a key that does not match is refused
static int vcb(int ok, X509_STORE_CTX *) { return ok; }
extern "C" void c15_policy() {
    EventContext ec; Net::Config cf; fx_cfg(cf, true); bool skip = vf_bool("skip"); cf.tls_skip_ca_check(skip).tls_verify_callback(vcb); vfg_keymatch = vf_choice("match", 2); bool refused = false; Net *n = nullptr;
    try { n = new Net(ec, cf); } catch (SalticidaeError &e) { refused = e.get_code() == SALTI_ERROR_TLS_KEY_NOT_MATCH; } vf_assert(refused == !vfg_keymatch, "a key that does not match the certificate is refused"); if (!n) return;
    vf_assert(n->tls_ctx->ctx->mode & SSL_VERIFY_PEER, "the peer's certificate is requested"); vf_assert((n->tls_ctx->ctx->vcb == vcb) == !skip, "the configured check is consulted unless told to skip"); vf_cover("policy");
}
