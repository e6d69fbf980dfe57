// Contracts for the peer management requests (network.h PeerNetwork add_peer, del_peer, set_peer_addr, conn_peer, get_peer_conn, has_peer, get_npending, send_msg, multicast): C19.
#include "peerfix.h"
static bool has(End &a, const PeerId &p) { bool r = false; ns_blocking([&]() { r = a.n->has_peer(p); }); return r; }
static size_t npend(End &a) { size_t r = 77; ns_blocking([&]() { r = a.n->get_npending(); }); return r; }
static int conn_of(End &a, const PeerId &p, PN::conn_t *out = nullptr) { int code = 0; ns_blocking([&]() { try { PN::conn_t c = a.n->get_peer_conn(p); if (out) *out = c; } catch (SalticidaeError &e) { code = e.get_code(); } }); return code; }
// expectation for one request
static void expect(End &a, int32_t id, int code, const char *what) { int e0 = a.errs; pf_quiet(); vf_assert(a.errs == e0 + (code ? 1 : 0), code ? "a failing request reports exactly one error" : "a request that takes effect reports no error"); if (code) { vf_assert(a.code == code, "the documented error"); vf_assert(a.eid == id, "tagged with the identifier returned to the caller"); } vf_assert(!a.fatal, "not fatal"); }
// ---- any sequence of requests over two identities
extern "C" void c19_requests() {
    End a(0x0a000001, 80); PeerId p[2] = { PeerId(NetAddr(htonl(0x0a000002), htons(81))), PeerId(NetAddr(htonl(0x0a000003), htons(82))) }; NetAddr ad[2] = { NetAddr(htonl(0x0a000002), htons(81)), NetAddr(htonl(0x0a000003), htons(82)) }; bool reg[2] = {false, false}, addr[2] = {false, false};
    int depth = vf_tier() ? 4 : 3;
    for (int i = 0; i < depth; i++) {
        int k = vf_choice("peer", 2), r = vf_choice("request", 7);
        switch (r) {
        case 0: expect(a, a.n->add_peer(p[k]), reg[k] ? SALTI_ERROR_PEER_ALREADY_EXISTS : 0, "add"); if (!reg[k]) addr[k] = false; reg[k] = true; break;
        case 1: expect(a, a.n->del_peer(p[k]), reg[k] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "del"); reg[k] = false; break;
        case 2: expect(a, a.n->set_peer_addr(p[k], ad[k]), reg[k] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "addr"); addr[k] = reg[k]; break;
        case 3: { int s0 = vfg_ns; bool ok = reg[k] && addr[k]; expect(a, a.n->conn_peer(p[k], -1, 100), !reg[k] ? SALTI_ERROR_PEER_NOT_EXIST : !addr[k] ? SALTI_ERROR_PEER_NOT_READY : 0, "conn"); bool t = pf_tick(PF_NOW, a.disp()); vf_assert(t == ok && vfg_ns == s0 + (int)ok, "a connection request for an addressed peer dials once, any other does nothing"); if (ok && vfg_ns > s0) vf_assert(vfg_s[s0].rip == ad[k].ip && vfg_s[s0].rport == ad[k].port, "the address last set is dialled"); pf_quiet(); break; }
        case 4: expect(a, a.n->send_msg_deferred(M9(5), p[k]), reg[k] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "send"); break;
        case 5: { std::vector<PeerId> v; v.push_back(p[0]); v.push_back(p[1]); expect(a, a.n->multicast_msg(M9(5), v), reg[0] && reg[1] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "multicast"); break; }
        case 6: { int c = conn_of(a, p[k]); vf_assert(c == (reg[k] ? 0 : SALTI_ERROR_PEER_NOT_EXIST), "the current connection of a registered peer, an error otherwise"); vf_assert(a.errs == 0 || true, ""); break; }
        }
        vf_assert(has(a, p[0]) == reg[0] && has(a, p[1]) == reg[1], "a peer is registered exactly when it was added and not removed since");
    }
    vf_cover("requests");
}
extern "C" void c19_ids() { End a(0x0a000001, 80); int32_t x = a.n->add_peer(PeerId(a.addr)), y = a.n->add_peer(PeerId(a.addr)), z = a.n->del_peer(PeerId(NetAddr(1, 1))); vf_assert(x != y && y != z && x != z, "requests have distinct identifiers"); pf_quiet(); vf_assert(a.errs == 2 && a.code == SALTI_ERROR_PEER_NOT_EXIST && a.eid == z, "each failing request reports under its own identifier"); vf_cover("ids"); }
// ---- pending connections are counted exactly, also when an address connects again
extern "C" void c19_pending() {
    One a; int n = vf_choice("inbound", 4); int j[4]; for (int i = 0; i < n; i++) j[i] = a.accept(6000 + i); vf_assert(npend(a) == (size_t)n, "the number of pending connections");
    if (n) switch (vf_choice("then", 4)) {
    case 0: vfg_s[j[0]].eof = 1; pf_settle(); vf_assert(npend(a) == (size_t)n - 1, "a lost connection is no longer pending"); break;
    case 1: pf_hand(j[0], PF_PING, a.ra, 1); pf_settle(); vf_assert(a.linked && npend(a) == (size_t)n - 1, "an established connection is no longer pending"); break;
    case 2: pf_hand(j[0], PF_PING, NetAddr(1, 1), 1); pf_settle(); vf_assert(npend(a) == (size_t)n - 1, "a refused connection is no longer pending"); break;
    case 3: { int k = a.accept(6000); vf_assert(!vfg_s[j[0]].open && vfg_s[k].open && npend(a) == (size_t)n, "a newer connection from the same address replaces the pending one"); vf_cover("replaced"); break; } }
    vf_assert(!a.fatal, "not fatal"); vf_cover("pending");
}
// an inbound connection from the very address being dialled does no harm
extern "C" void c19_sameaddr() { One a; int j = ns_ext_connect(htons(80), a.ra.ip, a.ra.port); pf_settle(); int x = a.dial(); pf_settle(); vf_assert(x >= 0 && vfg_s[x].open && vfg_s[j].open && npend(a) == 1, "dialling an address that is connecting"); vfg_s[x].eof = 1; pf_settle(); vf_assert(npend(a) == 1 && vfg_s[j].open, "the pending connection stays"); vf_cover("same"); }
// ---- dialling as often as requested
extern "C" void c19_ntry() {
    One a; int ntry = vf_choice("ntry", 3) + 1; if (ntry == 3) ntry = -1; int mode = vf_choice("outcome", 2) /* refused, or no answer before the retry timer */; vfg_ext_accept = mode ? 2 : 0; int s0 = vfg_ns, pre = vf_choice("connected", 2); if (pre) { a.link_in(5); s0 = vfg_ns; }
    a.n->conn_peer(a.rid, ntry, 100); pf_settle(); if (pre) vf_assert(a.down == 1 && !a.linked, "an established link is given up first"); vf_assert(vfg_ns == s0, "dialling is scheduled");
    int rounds = 0; for (; rounds < 4; rounds++) { if (!pf_tick(PF_NOW, a.disp()) && !pf_tick(PF_RETRY, a.disp())) break; pf_settle(); vf_assert(vfg_ns == s0 + rounds + 1, "one attempt at a time"); if (mode && rounds == 1 && ntry == 2) { pf_tick(PF_DIALT, a.disp()); pf_settle(); } }
    vf_assert(ntry < 0 ? rounds == 4 : rounds == ntry, "a peer is dialled as often as requested, indefinitely for -1"); int open = 0; for (int i = s0; i < vfg_ns; i++) open += vfg_s[i].open; vf_assert(open <= 1, "an abandoned attempt is closed");
    a.n->conn_peer(a.rid, 0, 100); pf_settle(); vf_assert(!pf_timer(PF_NOW, a.disp()) && !pf_timer(PF_RETRY, a.disp()), "asking for no attempts stops dialling"); vf_cover("dialled");
}
// a finite number of attempts is not used up by a success, and the link is redialled after a loss only while attempts remain
extern "C" void c19_redial() { One a; int ntry = 1 + vf_choice("ntry", 2); int x = a.dial(ntry); pf_settle(); pf_hand(x, PF_PONG, a.ra, 0x10001); pf_settle(); vf_assert(a.linked && !pf_timer(PF_RETRY, a.disp()) && !pf_timer(PF_NOW, a.disp()), "an established peer is not dialled"); vfg_s[x].eof = 1; pf_settle(); vf_assert(!a.linked && a.down == 1, "loss"); vf_assert((pf_timer(PF_RETRY, a.disp()) != nullptr) == (ntry > 1), "a lost link is redialled while attempts remain"); vf_cover("redial"); }
// the number of attempts starts afresh with every established link
extern "C" void c19_afresh() { One a; vfg_ext_accept = 0; a.dial(2); pf_settle(); vf_assert(pf_timer(PF_RETRY, a.disp()), "one attempt left"); vfg_ext_accept = 1; int x, how = vf_choice("how", 2); if (how) { x = a.accept(5030); pf_hand(x, PF_PING, a.ra, 1); vfg_rnd[0] = 5; } else { int s0 = vfg_ns; pf_tick(PF_RETRY, a.disp()); pf_settle(); x = s0; pf_hand(x, PF_PONG, a.ra, 0x10001); } pf_settle(); if (!a.linked) vf_kill(); vf_assert(!pf_timer(PF_RETRY, a.disp()), "an established peer is not dialled"); vfg_s[x].eof = 1; pf_settle(); vf_assert(pf_timer(PF_RETRY, a.disp()) != nullptr, "after an established link the attempts start afresh"); vf_cover("afresh"); }
// ---- removal: every connection of the peer is closed, nothing refers to it afterwards
extern "C" void c19_remove() {
    One a; int st = vf_choice("state", 8); int x = -1, y = -1;
    switch (st) { case 0: break; case 1: vfg_ext_accept = 2; x = a.dial(); pf_settle(); break; case 2: x = a.dial(); pf_settle(); break; case 3: x = a.link_out(); break; case 4: y = a.link_in(50); break;
    case 5: y = a.link_in(50); { int j = a.accept(5009); pf_hand(j, PF_PING, a.ra, 51); int k = 2 + vf_choice("progress", 5); for (int i = 0; i < k; i++) ns_step_loop(nullptr); x = j; } break;   // a takeover is under way
    case 6: vfg_ext_accept = 2; x = a.dial(); pf_settle(); a.n->conn_peer(a.rid, -1, 100); pf_settle(); pf_tick(PF_NOW, a.disp()); pf_quiet(); y = vfg_ns - 1; break;              // dialling restarted
    case 7: vfg_ext_accept = 2; x = a.dial(); pf_settle(); pf_tick(PF_RETRY, a.disp()); y = vfg_ns - 1; if (vf_choice("settled", 2)) pf_settle(); break; }                        // retried before the first attempt ended
    int32_t id = a.n->del_peer(a.rid); int when = vf_choice("readd", 2); if (when) { a.n->add_peer(a.rid); a.n->set_peer_addr(a.rid, a.ra); } if (x >= 0 && vfg_s[x].open && vfg_s[x].conn == 2) pf_beat(x, PF_PONG); if (y >= 0 && vfg_s[y].open && vfg_s[y].conn == 2) pf_beat(y, PF_PONG); pf_settle();
    vf_assert(a.errs == 0, "removal succeeds"); if (st != 5) vf_assert(pf_open_conns() == 0, "every connection of the peer is closed"); else vf_assert(y < 0 || !vfg_s[y].open, "its link is closed"); if (st != 5 || !when) vf_assert(!pf_timer(PF_RETRY, a.disp()) && !pf_timer(PF_NOW, a.disp()) && !pf_timer(PF_PINGT, a.disp()), "its timers are gone");   // (added again while the takeover handshake was under way, the peer is established by it)
    for (auto &c: a.n->pool) vf_assert(static_pointer_cast<PN::Conn>(c.second)->peer == nullptr || when, "no connection refers to the removed peer"); vf_assert(has(a, a.rid) == (when == 1), "it is no longer registered"); vf_cover("removed");
}
// conn_peer again at any point, including while a takeover is under way
extern "C" void c19_again() {
    One a; int st = vf_choice("state", 4); int y = -1; if (st >= 1) y = a.link_in(50); if (st >= 2) { int j = a.accept(5009); pf_hand(j, PF_PING, a.ra, 51); int k = 1 + vf_choice("progress", 7); for (int i = 0; i < k; i++) ns_step_loop(nullptr); } if (st == 3) a.n->conn_peer(a.rid, -1, 100); a.n->conn_peer(a.rid, -1, 100); pf_settle(); vf_assert(!a.fatal && !a.errs, "repeated connection requests do no harm");
    if (!a.linked) { int s0 = vfg_ns; bool t = pf_tick(PF_NOW, a.disp()) || pf_tick(PF_RETRY, a.disp()); vf_assert(t && vfg_ns == s0 + 1, "and the peer is dialled"); pf_settle(); pf_hand(s0, PF_PONG, a.ra, 0x10001); pf_settle(); vf_assert(a.linked && pf_fd(a.link) == s0, "and established"); vf_cover("dialled again"); }
}
// ---- sending: refused by a full buffer
extern "C" void c19_notready() { PN::Config cf = End::addrmode(); cf.max_send_buff_size(1); One a(cf); int l = a.link_in(50); vfg_s[l].wcap = 0; salticidae::vfg_qcap = 0; int32_t id = a.n->send_msg_deferred(M9(1), a.rid); expect(a, id, SALTI_ERROR_CONN_NOT_READY, "send"); std::vector<PeerId> v; v.push_back(a.rid); id = a.n->multicast_msg(M9(2), v); expect(a, id, SALTI_ERROR_CONN_NOT_READY, "multicast"); bool r = a.n->send_msg(M9(3), a.rid); vf_assert(!r, "a direct send reports that it was refused"); salticidae::vfg_qcap = (size_t)-1; vf_assert(a.n->send_msg(M9(4), a.rid), "accepted"); vfg_s[l].wcap = -1; pf_settle(); vf_cover("not ready"); }
// messages go to the link of the addressed peer only
extern "C" void c19_target() {
    End a(0x0a000001, 80); NetAddr r1(htonl(0x0a000002), htons(81)), r2(htonl(0x0a000003), htons(82)); PeerId p1(r1), p2(r2); a.n->add_peer(p1); a.n->add_peer(p2); pf_settle(); int j = pf_in_from(80, 5001); pf_settle(); pf_hand(j, PF_PING, r1, 9); pf_settle(); a.linked = false; int k = pf_in_from(80, 5002); pf_settle(); pf_hand(k, PF_PING, r2, 9); pf_settle(); vf_assert(a.up == 2 && !a.down, "two peers, two links");
    int w = vf_choice("to", 3); if (w == 0) a.n->send_msg_deferred(M9(1), p1); else if (w == 1) a.n->send_msg(M9(1), p2); else { std::vector<PeerId> v; v.push_back(p1); v.push_back(p2); a.n->multicast_msg(M9(1), v); } pf_settle(); int c[2]; for (int q = 0; q < 2; q++) { c[q] = 0; for (int i = 0; i < 10; i++) { PfMsg m = pf_out(q ? k : j, i); if (!m.ok) break; c[q] += m.op == 9; } }
    vf_assert(c[0] == (w != 1) && c[1] == (w != 0), "a message is written once to each peer it was addressed to, and to no other"); PN::conn_t c1, c2; vf_assert(!conn_of(a, p1, &c1) && !conn_of(a, p2, &c2) && pf_fd(c1) == j && pf_fd(c2) == k, "each peer's current connection is its own link"); vf_cover("target");
}
