// Contracts for the C interface to networks (src/network.cpp): C23.
#include "peerfix.h"
#ifdef VF_VERIFY
extern "C" FILE *fopen(const char *, const char *) { return nullptr; }
#endif
static SalticidaeCError any_err() { SalticidaeCError e; e.code = (int)vf_u32("code0"); e.oscode = (int)vf_u32("oscode0"); return e; }
struct Log { int n, up, down, errs, code, os, id, fatal, peerup, peerdown, unk; const void *net; int sock; uint32_t v; int op; NetAddr from; bool verdict; };
static Log vfg_log[4];
static void on_msg(const msg_t *m, const msgnetwork_conn_t *c, void *u) { Log *l = (Log *)u; l->n++; l->op = msg_get_opcode(m); l->net = msgnetwork_conn_get_net(c); l->sock = (*c)->fd - NS_FD0; datastream_t *s = msg_consume_payload(m); bool ok; l->v = datastream_get_u32(s, &ok); if (!ok) l->v = 0; datastream_free(s); }
static msgnetwork_conn_t *vfg_kept;
static bool on_conn(const msgnetwork_conn_t *c, bool up, void *u) { Log *l = (Log *)u; l->from = *msgnetwork_conn_get_addr(c); if (up) { l->up++; l->sock = (*c)->fd - NS_FD0; if (vfg_kept) msgnetwork_conn_free(vfg_kept); vfg_kept = msgnetwork_conn_copy(c); } else l->down++; return l->verdict; }
static void on_err(const SalticidaeCError *e, bool fatal, int32_t id, void *u) { Log *l = (Log *)u; l->errs++; l->code = e->code; l->os = e->oscode; l->fatal += fatal; l->id = id; }
static void on_peer(const peernetwork_conn_t *c, bool up, void *u) { Log *l = (Log *)u; if (up) { l->peerup++; l->sock = (*c)->fd - NS_FD0; } else l->peerdown++; }
static void on_unk(const netaddr_t *a, const x509_t *c, void *u) { Log *l = (Log *)u; l->unk++; l->from = *a; l->net = c; }
static msg_t *mk(uint8_t op, uint32_t v) { bytearray_t *b = bytearray_new_from_bytes((const uint8_t *)&v, 4); msg_t *m = msg_new_moved_from_bytearray(op, b); bytearray_free(b); return m; }
static msgnetwork_t *mknet(EventContext &ec, Log *l, bool tls) { msgnetwork_config_t *cf = msgnetwork_config_new(); fx_cfg(*cf, tls); msgnetwork_config_max_send_buff_size(cf, 1); SalticidaeCError e = any_err(); msgnetwork_t *n = msgnetwork_new(&ec, cf, &e); vf_assert(n && e.code == SALTI_NORMAL && e.oscode == 0, "a network is made"); if (!n) vf_kill(); msgnetwork_config_free(cf); l->verdict = true; msgnetwork_reg_conn_handler(n, on_conn, l); msgnetwork_reg_error_handler(n, on_err, l); return n; }
static void lis(msgnetwork_t *n, uint16_t port, SalticidaeCError *e) { NetAddr a(0, htons(port)); ns_blocking([&]() { msgnetwork_listen(n, &a, e); }); }
// making a network: failures through the out-parameter, with the C++ error
extern "C" void c23n_new() {
    EventContext ec; int k = vf_choice("kind", 3), bad = vf_choice("bad", 5); msgnetwork_config_t *mc; peernetwork_config_t *pc = nullptr; if (k == 1) { pc = peernetwork_config_new(); mc = peernetwork_config_as_msgnetwork_config(pc); vf_assert(mc == static_cast<msgnetwork_config_t *>(pc), "the network part of a peer network's options"); } else mc = msgnetwork_config_new();
    if (bad == 1) { fx_cfg(*mc, true); vfg_keymatch = 0; } if (bad == 2) { msgnetwork_config_enable_tls(mc, true); msgnetwork_config_tls_cert_file(mc, "/nonexistent"); } if (bad == 3) fx_cfg(*mc, true); if (bad == 4) { fx_cfg(*mc, true); msgnetwork_config_tls_key_file(mc, "/nonexistent"); mc->tls_key(nullptr); }
    SalticidaeCError we = salticidae_cerror_normal(), e = any_err(); bool ok = true; vfg_mycert.refs = vfg_mykey.refs = 1;
    try { if (k == 0) delete new Net(ec, *mc); else if (k == 1) delete new PN(ec, *pc); else delete new ClientNetwork<uint8_t>(ec, *mc); ok = true; } catch (SalticidaeError &x) { ok = false; we = x.get_cerr(); }
    void *r; if (k == 0) r = msgnetwork_new(&ec, mc, &e); else if (k == 1) r = peernetwork_new(&ec, pc, &e); else r = clientnetwork_new(&ec, mc, &e); vf_assert((r != nullptr) == ok, "a network is made exactly when the C++ constructor succeeds"); vf_assert(e.code == we.code && e.oscode == we.oscode, "the outcome is reported through the out-parameter"); vf_assert(ok == (bad == 0 || bad == 3), "fails for a bad key or file"); vf_cover(ok ? "made" : "failed");
    if (r) { if (k == 0) msgnetwork_free((msgnetwork_t *)r); else if (k == 1) { vf_assert(peernetwork_as_msgnetwork((peernetwork_t *)r) == static_cast<msgnetwork_t *>((peernetwork_t *)r) && msgnetwork_as_peernetwork_unsafe(peernetwork_as_msgnetwork((peernetwork_t *)r)) == r, "views of the same network"); peernetwork_free((peernetwork_t *)r); } else { vf_assert(msgnetwork_as_clientnetwork_unsafe(clientnetwork_as_msgnetwork((clientnetwork_t *)r)) == r, "views of the same network"); clientnetwork_free((clientnetwork_t *)r); } }
}
// listening: reported, for a failure at every step
extern "C" void c23n_listen() {
    EventContext ec; int peer = vf_choice("peer", 2); SalticidaeCError e = any_err(), we = salticidae_cerror_normal(); int f = vf_choice("fail", 8);
    peernetwork_t *p = nullptr, *q = nullptr; msgnetwork_t *n, *m; if (peer) { p = new PN(ec, End::addrmode()); q = new PN(ec, End::addrmode()); n = peernetwork_as_msgnetwork(p); m = q; } else { n = new Net(ec, Net::Config()); m = new Net(ec, Net::Config()); } msgnetwork_start(n); m->start();
    NetAddr a(0, htons(80)), b(0, htons(81)); vfg_fail_at = vfg_sysn + f; try { ns_blocking([&]() { if (peer) q->listen(b); else m->listen(b); }); } catch (SalticidaeError &x) { we = x.get_cerr(); }
    vfg_fail_at = vfg_sysn + f; ns_blocking([&]() { if (peer) peernetwork_listen(p, &a, &e); else msgnetwork_listen(n, &a, &e); }); vfg_fail_at = 0; vf_assert(e.code == we.code && e.oscode == we.oscode, "a failing listen is reported through the out-parameter"); vf_cover(e.code ? "failed" : "listening"); bool l = false; for (int i = 0; i < vfg_ns; i++) l |= vfg_s[i].open && vfg_s[i].listening && vfg_s[i].port == htons(80); vf_assert(l == (e.code == SALTI_NORMAL), "success is reported exactly when the port is being listened on");
}
// connecting
extern "C" void c23n_connect() {
    EventContext ec; Log *l = &vfg_log[0]; msgnetwork_t *n = mknet(ec, l, false); msgnetwork_start(n); SalticidaeCError e = any_err(); NetAddr a(htonl(0x0a000002), htons(99)); int sync = vf_choice("sync", 2), f = vf_choice("fail", 6); vfg_ext_accept = vf_choice("reachable", 2); if (f) vfg_fail_at = vfg_sysn + f; int32_t id = -1; msgnetwork_conn_t *c = nullptr;
    if (sync) ns_blocking([&]() { c = msgnetwork_connect_sync(n, &a, &e); }); else id = msgnetwork_connect(n, &a); ns_run(); bool failed = f >= 1 && f <= 4, broke = f == 5 || !vfg_ext_accept; /* socket set-up fails, or the connection attempt */ vfg_fail_at = 0;
    if (sync) { vf_assert((c != nullptr) == !failed, "a connection is returned exactly when connecting started"); vf_assert(failed ? e.code == SALTI_ERROR_CONNECT : e.code == SALTI_NORMAL, "failure is reported through the out-parameter"); if (c) { vf_assert(msgnetwork_conn_get_net(c) == n && msgnetwork_conn_get_mode(c) == CONN_MODE_ACTIVE && *msgnetwork_conn_get_addr(c) == a, "network, mode and address of the connection"); vf_assert(msgnetwork_conn_is_terminated(c) == broke, "terminated exactly when it broke down"); } }
    else vf_assert(!failed || (l->errs == 1 && l->code == SALTI_ERROR_CONNECT && l->id == id), "a failing request is reported under its identifier");
    vf_assert(l->up == (!failed && !broke), "a connection that comes up is reported"); if (l->up) { vf_assert(l->from == a, "with its address"); vf_cover("up"); msgnetwork_terminate(n, vfg_kept); ns_run(); vf_assert(msgnetwork_conn_is_terminated(vfg_kept) && l->down == 1 && !vfg_s[l->sock].open, "terminating closes it"); } else vf_cover(failed ? "failed" : "refused"); if (c) msgnetwork_conn_free(c);
}
// an accepted connection: verdict, certificate, messages in and out, refused messages
extern "C" void c23n_conn() {
    EventContext ec; Log *l = &vfg_log[0]; int tls = vf_choice("tls", 2), veto = vf_choice("veto", 2); if (veto && !tls) vf_kill(); msgnetwork_t *n = mknet(ec, l, tls); msgnetwork_reg_handler(n, 9, on_msg, &vfg_log[1]); msgnetwork_reg_handler(n, 10, on_msg, &vfg_log[2]); l->verdict = !veto; msgnetwork_start(n); SalticidaeCError e = any_err(); lis(n, 80, &e); vf_assert(e.code == SALTI_NORMAL, "listening");
    int j = ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); ns_run(); vf_assert(l->up == 1 && l->sock == j && l->from == NetAddr(htonl(0x0a000001), htons(5555)), "an accepted connection is reported"); if (l->up != 1) vf_kill(); vf_assert(vfg_s[j].open == !veto, "the callback's verdict decides"); if (veto) { vf_cover("veto"); return; }
    msgnetwork_conn_t *c = vfg_kept; vf_assert(msgnetwork_conn_get_mode(c) == CONN_MODE_PASSIVE && msgnetwork_conn_get_net(c) == n && !msgnetwork_conn_is_terminated(c), "mode and network"); const x509_t *pc = msgnetwork_conn_get_peer_cert(c); vf_assert((pc != nullptr) == (bool)tls, "certificate exactly with TLS");
    int op = 9 + vf_choice("op", 2); uint32_t v = vf_u32("v"); pf_say(j, op, &v, 4); ns_run(); Log *g = &vfg_log[op - 8], *o = &vfg_log[11 - op]; vf_assert(g->n == 1 && o->n == 0 && g->op == op && g->v == v && g->sock == j && g->net == n, "a message runs the callback of its opcode, with its data, connection and user pointer");
    int how = vf_choice("how", 2), full = vf_choice("full", 2); if (full) { vfg_s[j].wcap = 0; salticidae::vfg_qcap = 0; } int k0 = vfg_s[j].nout; uint32_t w = vf_u32("w"); msg_t *m = mk(9, w); bool r; int32_t id = 0;
    if (how == 0) { r = msgnetwork_send_msg(n, m, c); vf_assert(r == !full, "a send returns true exactly when the message was accepted"); ns_run(); vf_assert(l->errs == 0, "no other report"); } else { id = msgnetwork_send_msg_deferred_by_move(n, m, c); ns_run(); vf_assert(l->errs == full && (!full || (l->code == SALTI_ERROR_CONN_NOT_READY && l->id == id && !l->fatal)), "a deferred send that is refused is reported under its identifier"); }
    if (!full) { vf_assert(vfg_s[j].nout == k0 + 17 && vfg_s[j].out[k0 + 4] == 9, "the message is sent once"); uint32_t x; memcpy(&x, vfg_s[j].out + k0 + 13, 4); vf_assert(x == w, "unchanged"); vf_cover("sent"); } else { vf_assert(vfg_s[j].nout == k0, "nothing is sent"); vf_cover("full"); }
    msg_free(m);
}
// peers
static bool holds9(int j, uint32_t) { for (int k = 0; k < 20; k++) { PfMsg m = pf_out(j, k); if (!m.ok) return false; if (m.op == 9) return true; } return false; }
static peernetwork_t *mkpeer(EventContext &ec, Log *l) { peernetwork_config_t *cf = peernetwork_config_new(); peernetwork_config_id_mode(cf, ID_MODE_ADDR_BASED); peernetwork_config_ping_period(cf, 30); peernetwork_config_conn_timeout(cf, 1000); msgnetwork_config_conn_server_timeout(peernetwork_config_as_msgnetwork_config(cf), 7); msgnetwork_config_max_send_buff_size(peernetwork_config_as_msgnetwork_config(cf), 1); SalticidaeCError e = any_err(); peernetwork_t *n = peernetwork_new(&ec, cf, &e); vf_assert(n && e.code == SALTI_NORMAL, "made"); if (!n) vf_kill(); peernetwork_config_free(cf); peernetwork_reg_peer_handler(n, on_peer, l); peernetwork_reg_unknown_peer_handler(n, on_unk, l); msgnetwork_reg_error_handler(peernetwork_as_msgnetwork(n), on_err, l); msgnetwork_start(peernetwork_as_msgnetwork(n)); NetAddr a(htonl(0x0a000001), htons(80)); ns_blocking([&]() { peernetwork_listen(n, &a, &e); }); vf_assert(e.code == SALTI_NORMAL, "listening"); return n; }
static bool has(const peernetwork_t *n, const peerid_t *p) { bool r = false; ns_blocking([&]() { r = peernetwork_has_peer(n, p); }); return r; }
static const peernetwork_conn_t *link_of(const peernetwork_t *n, const peerid_t *p, SalticidaeCError *e) { const peernetwork_conn_t *r = nullptr; ns_blocking([&]() { r = peernetwork_get_peer_conn(n, p, e); }); return r; }
static void conn_of(peernetwork_t *n, const peerid_t *p, PN::conn_t *c) { ns_blocking([&]() { *c = n->get_peer_conn(*p); }); }
static int nines(int j) { int c = 0; for (int k = 0; k < 20; k++) { PfMsg m = pf_out(j, k); if (!m.ok) break; c += m.op == 9; } return c; }
extern "C" void c23n_peer() {
    PN::conn_t w;
    EventContext ec; Log *l = &vfg_log[0]; peernetwork_t *n = mkpeer(ec, l); NetAddr ra(htonl(0x0a000002), htons(81)), ob(htonl(0x0a000003), htons(82)); peerid_t *r = peerid_new_from_netaddr(&ra), *o = peerid_new_from_netaddr(&ob); vf_assert(r && o && *r == PeerId(ra) && *peerid_as_uint256(r) == PeerId(ra), "identity of an address");
    SalticidaeCError e = any_err(); vf_assert(!has(n, r), "not a peer yet"); const peernetwork_conn_t *pc = link_of(n, r, &e); vf_assert(!pc && e.code == SALTI_ERROR_PEER_NOT_EXIST, "no such peer is reported"); msg_t *m0 = mk(9, 1); vf_assert(!peernetwork_send_msg(n, m0, r), "sending to a stranger fails"); int32_t id = peernetwork_send_msg_deferred_by_move(n, m0, r); pf_settle(); vf_assert(l->errs == 1 && l->code == SALTI_ERROR_PEER_NOT_EXIST && l->id == id, "and is reported if deferred"); id = peernetwork_del_peer(n, r); pf_settle(); vf_assert(l->errs == 2 && l->code == SALTI_ERROR_PEER_NOT_EXIST && l->id == id, "removing a stranger is reported"); id = peernetwork_conn_peer(n, r, 1, 100); pf_settle(); vf_assert(l->errs == 3 && l->id == id && l->code == SALTI_ERROR_PEER_NOT_EXIST, "connecting to a stranger is reported"); id = peernetwork_set_peer_addr(n, r, &ra); pf_settle(); vf_assert(l->errs == 4 && l->id == id && l->code == SALTI_ERROR_PEER_NOT_EXIST, "addressing a stranger is reported");
    peernetwork_add_peer(n, r); pf_settle(); vf_assert(has(n, r) && !has(n, o) && l->errs == 4, "added"); id = peernetwork_add_peer(n, r); pf_settle(); vf_assert(l->errs == 5 && l->id == id && l->code == SALTI_ERROR_PEER_ALREADY_EXISTS, "adding twice is reported"); id = peernetwork_conn_peer(n, r, 1, 100); pf_settle(); vf_assert(l->errs == 6 && l->id == id && l->code == SALTI_ERROR_PEER_NOT_READY, "no address yet"); e = any_err(); pc = link_of(n, r, &e); conn_of(n, r, &w); vf_assert(pc && e.code == SALTI_NORMAL && pc->get() == w.get(), "the C++ result"); peernetwork_conn_free(pc); msg_t *m1 = mk(9, 1); int pre = peernetwork_send_msg(n, m1, r);
    peernetwork_set_peer_addr(n, r, &ra); int s0 = vfg_ns, ntry = 1 + vf_choice("ntry", 2); peernetwork_conn_peer(n, r, ntry, 100); pf_quiet(); pf_tick(PF_NOW); pf_settle(); vf_assert(vfg_ns == s0 + 1, "dialling"); if (vfg_ns != s0 + 1) vf_kill(); int j = s0; vf_assert(vfg_s[j].rip == ra.ip && vfg_s[j].rport == ra.port, "the address set"); pf_hand(j, PF_PONG, ra, 0x10001); pf_settle(); vf_assert(l->peerup == 1 && l->sock == j, "the link is reported up"); if (!l->peerup) vf_kill(); vf_assert(nines(j) == pre, "a message accepted before is sent on the link");
    pc = link_of(n, r, &e); vf_assert(pc && *pc && (*pc)->fd - NS_FD0 == j, "the link"); if (!pc || !*pc) vf_kill(); netaddr_t *pa = peernetwork_conn_get_peer_addr(pc); peerid_t *pi = peernetwork_conn_get_peer_id(pc); vf_assert(*pa == ra && *pi == *r, "address and identity of the link's peer"); msgnetwork_conn_t *mc = msgnetwork_conn_new_from_peernetwork_conn(pc); peernetwork_conn_t *bk = peernetwork_conn_new_from_msgnetwork_conn_unsafe(mc), *cp = peernetwork_conn_copy(pc); vf_assert(bk && mc && cp && bk->get() == pc->get() && cp->get() == pc->get() && mc->get() == pc->get(), "views of the same connection"); msgnetwork_conn_free(mc); peernetwork_conn_free(bk); peernetwork_conn_free(cp); netaddr_free(pa); peerid_free(pi);
    int full = vf_choice("full", 2), how = vf_choice("how", 3), e0 = l->errs; if (full) { vfg_s[j].wcap = 0; salticidae::vfg_qcap = 0; } msg_t *m = mk(9, 7); bool ok = true; id = -1;
    if (how == 0) { ok = peernetwork_send_msg(n, m, r); vf_assert(ok == !full, "a send returns true exactly when the message was accepted"); pf_settle(); vf_assert(l->errs == e0, "no other report"); }
    else { if (how == 1) id = peernetwork_send_msg_deferred_by_move(n, m, r); else { const peerid_t *two[1] = {r}; peerid_array_t *ar = peerid_array_new_from_peers(two, 1); id = peernetwork_multicast_msg_by_move(n, m, ar); peerid_array_free(ar); } pf_settle(); vf_assert(l->errs == e0 + full && (!full || (l->id == id && l->code)), "a refused deferred message is reported under its identifier"); }
    vf_assert(nines(j) == pre + !full, "the message is sent exactly when success was reported"); vf_cover(full ? "full" : "sent"); peernetwork_del_peer(n, r); salticidae::vfg_qcap = (size_t)-1; pf_settle(); vf_assert(!has(n, r) && l->peerdown <= 1, "removed"); peerid_free(r); peerid_free(o); msg_free(m);
}
// the number of attempts and the delay are the ones given
extern "C" void c23n_retry() {
    EventContext ec; Log *l = &vfg_log[0]; peernetwork_t *n = mkpeer(ec, l); NetAddr ra(htonl(0x0a000002), htons(81)); peerid_t *r = peerid_new_from_netaddr(&ra); peernetwork_add_peer(n, r); peernetwork_set_peer_addr(n, r, &ra); pf_settle(); vfg_ext_accept = 0; int ntry = vf_choice("ntry", 4), s0 = vfg_ns; peernetwork_conn_peer(n, r, ntry, 100); pf_settle(); pf_tick(PF_NOW); pf_settle();
    for (int i = 0; i < 5; i++) { UvRec *t = pf_timer(PF_RETRY); if (!t) break; vf_assert(t->timeout >= 100000 && t->timeout <= 150000, "the delay given, plus at most half"); pf_tick(PF_RETRY); pf_settle(); } vf_assert(vfg_ns - s0 == ntry, "as many attempts as given"); vf_cover("given up"); peerid_free(r);
}
// identities and arrays; unknown peers
extern "C" void c23n_ids() {
    NetAddr ra(htonl(0x0a000002), htons(81)); uint8_t *p = vf_bytes("id", 32), *q = vf_bytes("id2", 32); uint256_t *u = uint256_new_from_bytes(p), *w = uint256_new_from_bytes(q); peerid_t *a = peerid_new_copied_from_uint256(u), *b = peerid_new_moved_from_uint256(w), *c = peerid_new_from_netaddr(&ra); uint256_t qq(q); vf_assert(a && b && uint256_is_eq(peerid_as_uint256(a), u) && uint256_is_eq(peerid_as_uint256(b), &qq) && *u == uint256_t(p), "an identity is the identifier given"); x509_t cert(&vfg_mycert); peerid_t *d = peerid_new_from_x509(&cert); vf_assert(d && *d == PeerId(cert), "identity of a certificate");
    const peerid_t *l[4] = {a, b, c, d}; int n = vf_choice("n", 5); peerid_array_t *r = peerid_array_new_from_peers(l, n), *z = peerid_array_new(); vf_assert(r && z && r->size() == (size_t)n && z->size() == 0, "an array of that many"); for (int i = 0; i < n; i++) vf_assert((*r)[i] == *l[i], "in order"); peerid_array_free(r); peerid_array_free(z); vf_cover("ids");
}
extern "C" void c23n_unknown() { EventContext ec; Log *l = &vfg_log[0]; mkpeer(ec, l); NetAddr ra(htonl(0x0a000009), htons(81)); int j = pf_in_from(80, 5001); pf_settle(); pf_hand(j, PF_PING, ra, 5); pf_settle(); vf_assert(l->unk == 1 && l->from == ra && l->net == nullptr && !l->peerup, "an unknown peer is reported with the address it claims"); vf_cover("unknown"); }
// clients
extern "C" void c23n_client() {
    EventContext ec; Log *l = &vfg_log[0]; msgnetwork_config_t *cf = msgnetwork_config_new(); msgnetwork_config_max_send_buff_size(cf, 1); SalticidaeCError e = any_err(); clientnetwork_t *c = clientnetwork_new(&ec, cf, &e); vf_assert(c && e.code == SALTI_NORMAL, "made"); if (!c) vf_kill(); msgnetwork_t *n = clientnetwork_as_msgnetwork(c); l->verdict = true; msgnetwork_reg_conn_handler(n, on_conn, l); msgnetwork_reg_error_handler(n, on_err, l); msgnetwork_start(n); lis(n, 80, &e); NetAddr a(htonl(0x0a000005), htons(5001)), b(htonl(0x0a000005), htons(5002)); int j = ns_ext_connect(htons(80), a.ip, a.port); ns_run(); vf_assert(l->up == 1, "up"); if (!l->up) vf_kill();
    clientnetwork_conn_t *cc = clientnetwork_conn_new_from_msgnetwork_conn_unsafe(vfg_kept), *c2 = clientnetwork_conn_copy(cc); msgnetwork_conn_t *bk = msgnetwork_conn_new_from_clientnetwork_conn(cc); vf_assert(cc->get() == vfg_kept->get() && c2->get() == cc->get() && bk->get() == cc->get(), "views of the same connection"); clientnetwork_conn_free(cc); clientnetwork_conn_free(c2); msgnetwork_conn_free(bk);
    int who = vf_choice("who", 2), full = vf_choice("full", 2), how = vf_choice("how", 2); if (full) { vfg_s[j].wcap = 0; salticidae::vfg_qcap = 0; } msg_t *m = mk(9, 3); const NetAddr *to = who ? &b : &a; bool want = !who && !full;
    if (how == 0) { bool r = clientnetwork_send_msg(c, m, to); vf_assert(r == want, "a send returns true exactly when the message was accepted"); ns_run(); vf_assert(l->errs == 0, "no other report"); } else { int32_t id = clientnetwork_send_msg_deferred_by_move(c, m, to); ns_run(); vf_assert(l->errs == !want && (want || (l->id == id && l->code == (who ? SALTI_ERROR_CLIENT_NOT_EXIST : SALTI_ERROR_CONN_NOT_READY))), "a deferred failure is reported under its identifier"); }
    vf_assert(holds9(j, 3) == want, "the message is sent exactly when success was reported"); vf_cover(want ? "sent" : "refused"); msg_free(m);
}
// errors of any kind are converted for the C callback
extern "C" void c23n_error() {
    EventContext ec; Log *l = &vfg_log[0]; msgnetwork_t *n = mknet(ec, l, false); int code = (int)vf_u32("code"), os = 0, id = (int)vf_u32("id"); bool fatal = vf_bool("fatal"); std::exception_ptr p; int k = vf_choice("kind", 3); if (k == 0) { try { SalticidaeError x(1, 0); x.code = code; x.oscode = os; throw x; } catch (...) { p = std::current_exception(); } } else if (k == 1) { try { throw std::runtime_error("x"); } catch (...) { p = std::current_exception(); } } else { try { throw 5; } catch (...) { p = std::current_exception(); } }
    n->error_cb(p, fatal, id); vf_assert(l->errs == 1 && l->fatal == fatal && l->id == id && l->os == 0, "passed on once, with severity and identifier"); vf_assert(l->code == (k ? SALTI_ERROR_UNKNOWN : code), "a library error keeps its code, any other is unknown"); vf_cover("converted");
}
