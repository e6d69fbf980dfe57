// Contracts for the choice between crossing connections (network.h PeerNetwork ping_handler, pong_handler, finish_handshake, on_dispatcher_setup/teardown, get_nonce): C17.
#include "peerfix.h"
static void rnd() { for (int i = 0; i < 8; i++) vfg_rnd[i] = vf_u16("rnd"); }
// both ends dial each other; every order of the handshake messages, every pair of nonces
extern "C" void c17_cross() {
    rnd(); End a(0x0a000001, 80), b(0x0a000002, 81); int ntry = vf_choice("once", 2) ? 1 : -1; a.n->add_peer(b.id); a.n->set_peer_addr(b.id, b.addr); b.n->add_peer(a.id); b.n->set_peer_addr(a.id, a.addr); a.n->conn_peer(b.id, ntry, 100); b.n->conn_peer(a.id, ntry, 100); pf_quiet();
    UvRec *ta = nullptr, *tb = nullptr; for (int i = 0; i < vfg_nuv; i++) { UvRec *r = &vfg_uv[i]; if (r->kind == UVM_TIMER && r->active && !r->closing) { if (r->loop == a.disp()) ta = r; if (r->loop == b.disp()) tb = r; } } vf_assert(ta && tb, "both ends are about to dial"); if (!ta || !tb) vf_kill(); ns_timer(ta); ns_timer(tb); vf_assert(vfg_ns == 6, "both ends dial"); if (vfg_ns != 6) vf_kill();
    pf_run("next", vf_tier() ? 16 : 8); int X = 2, Y = 4;  // sockets: listeners 0 1, A's dial 2 (accepted as 3), B's dial 4 (accepted as 5)
    vf_assert(a.linked == b.linked, "both ends keep a connection or neither does"); vf_assert(!a.fatal && !b.fatal, "no fatal error");
    bool kx = a.linked && pf_fd(a.link) == 2, ky = a.linked && pf_fd(a.link) == 5; if (a.linked && b.linked) { vf_assert(kx || ky, "one of the two"); vf_assert(pf_fd(b.link) == (kx ? 3 : 4), "both ends keep the same connection"); }
    vf_assert(pf_open_conns() == (a.linked ? 2 : 0), "every other connection is closed at both ends");
    PfMsg pxi = pf_in(3), pxo = pf_in(2), pyi = pf_in(5), pyo = pf_in(4);
    if (pxi.ok) vf_assert(pxi.op == PF_PING && pxi.hs, "handshake starts with a ping"); if (pyi.ok) vf_assert(pyi.op == PF_PING && pyi.hs, "handshake starts with a ping");
    if (pxi.ok && pxo.ok && pxo.hs) { vf_assert(kx == (pxi.nonce < pxo.nonce), "the connection is kept exactly when its dialler's nonce is the smaller one"); vf_cover("x decided"); } else vf_assert(!kx, "kept only after both nonces were exchanged");
    if (pyi.ok && pyo.ok && pyo.hs) { vf_assert(ky == (pyi.nonce < pyo.nonce), "the connection is kept exactly when its dialler's nonce is the smaller one"); vf_cover("y decided"); } else vf_assert(!ky, "kept only after both nonces were exchanged");
    if (vfg_nrnd <= 2) { if (a.linked) vf_cover("one kept"); else { vf_assert(vfg_rnd[0] == vfg_rnd[1], "with distinct nonces one connection is kept"); vf_cover("tie"); } }
    if (a.linked) vf_assert(a.up == 1 && b.up == 1, "the link is reported up once");
}
// an end that is not dialling accepts whoever dials it, with any nonce, whether or not it knows an address
extern "C" void c17_passive() {
    rnd(); End a(0x0a000001, 80), b(0x0a000002, 81); int ad = vf_choice("address", 2); a.n->add_peer(b.id); a.n->set_peer_addr(b.id, b.addr); b.n->add_peer(a.id); if (ad) b.n->set_peer_addr(a.id, a.addr); a.n->conn_peer(b.id, 1, 100); pf_quiet(); pf_tick(PF_NOW); pf_run("next", 4);
    vf_assert(a.linked && b.linked && pf_fd(a.link) == 2 && pf_fd(b.link) == 3, "the only connection is kept by both ends"); vf_assert(pf_open_conns() == 2 && a.up == 1 && b.up == 1 && !a.down && !b.down, "once"); PfMsg i = pf_in(3), o = pf_in(2); vf_assert(i.ok && i.nonce >= 1 && i.nonce == (uint32_t)vfg_rnd[0] + 1, "the dialler draws its nonce at random"); vf_assert(o.ok && o.op == PF_PONG && o.nonce > i.nonce, "the passive nonce is larger than any dialling nonce");
    vf_cover("accepted");
}
// one end against any remote: verdicts on the dialled and on the inbound connection, in both orders, for all nonces
extern "C" void c17_end() {
    rnd(); One a; uint32_t t = vf_u32("pong"), s = vf_u32("ping"); vf_assume(s != 0); int x = a.dial(vf_choice("once", 2) ? 1 : -1), order = vf_choice("order", 2); int y = a.accept(); pf_settle(); PfMsg px = pf_out(x); vf_assert(px.ok && px.op == PF_PING && px.hs && px.ip == a.addr.ip && px.port == a.addr.port, "the dialler opens with a ping carrying its address and nonce"); uint32_t me = px.nonce;
    if (order == 0) {
        pf_hand(x, PF_PONG, a.ra, t); pf_settle(); vf_assert(a.linked == (me < t), "the dialler keeps the connection exactly when its nonce is the smaller one"); vf_assert(vfg_s[x].open == (int)(me < t), "and closes it otherwise");
        if (me < t && s == t) { pf_hand(y, PF_PING, a.ra, s); pf_settle(); vf_assert(a.linked && pf_fd(a.link) == x && !vfg_s[y].open && vfg_s[x].open, "the other end's crossing connection is closed, the agreed one stays"); vf_cover("crossed late"); }
    } else {
        pf_hand(y, PF_PING, a.ra, s); pf_settle(); PfMsg py = pf_out(y); vf_assert(py.ok || !(s < me), "a kept connection is answered"); if (py.ok) vf_assert(py.op == PF_PONG && py.hs && py.nonce == me && py.ip == a.addr.ip && py.port == a.addr.port, "the acceptor answers with its own nonce"); vf_assert(a.linked == (s < me), "the acceptor keeps the connection exactly when the dialler's nonce is the smaller one"); vf_assert(vfg_s[y].open == (int)(s < me), "and closes it otherwise");
        vf_assert(vfg_s[x].open == (int)!(s < me), "its own attempt is given up exactly when the inbound connection is kept"); if (s < me) { vf_assert(pf_fd(a.link) == y, "that one"); vf_cover("inbound kept"); } else { pf_hand(x, PF_PONG, a.ra, s); pf_settle(); vf_assert(a.linked == (me < s), "the dialler keeps the connection exactly when its nonce is the smaller one"); if (me == s) { vf_assert(pf_open_conns() == 0, "with equal nonces neither is kept"); vf_cover("tie"); } else vf_cover("own kept"); }
    }
}
// an end that has stopped dialling (attempts used up, or told to stop) accepts again whoever dials it, with any dialling nonce
extern "C" void c17_idle() {
    rnd(); One a; int why = vf_choice("why", 4); uint32_t s = vf_u32("ping"); vf_assume((s >= 1) & (s <= 0x10000)); int x;
    switch (why) { case 0: vfg_ext_accept = 0; a.dial(1); pf_settle(); break;                                                                              // refused, no attempt left
    case 1: x = a.dial(1); pf_settle(); pf_hand(x, PF_PONG, a.ra, 0x10001); pf_settle(); vfg_s[x].eof = 1; pf_settle(); break;                                // linked by the only attempt, lost
    case 2: x = a.dial(1); pf_settle(); vfg_s[x].eof = 1; pf_settle(); break;                                                                              // connected, lost before the handshake ended
    case 3: vfg_ext_accept = 0; a.dial(2); pf_settle(); pf_tick(PF_RETRY, a.disp()); pf_settle(); break; }
    vf_assert(!a.linked && !pf_timer(PF_RETRY, a.disp()) && !pf_timer(PF_NOW, a.disp()), "no attempt left"); int u = a.up, y = a.accept(); pf_hand(y, PF_PING, a.ra, s); pf_settle(); vf_assert(a.linked && a.up == u + 1 && pf_fd(a.link) == y && vfg_s[y].open, "an end that is not dialling accepts the inbound connection"); PfMsg o = pf_out(y); vf_assert(o.ok && o.op == PF_PONG && o.nonce > s, "answering with a nonce larger than any dialling nonce"); vf_cover("idle");
}
