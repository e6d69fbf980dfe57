// Contracts for peer admission and the single live link (network.h PeerNetwork ping_handler, pong_handler, finish_handshake, on_dispatcher_setup/teardown): C18.
#include "peerfix.h"
// ---- admission: an inbound connection whose first message is any handshake ping
extern "C" void c18_admit() {
    int mode = vf_choice("mode", 3) /* plain, TLS with address identity, TLS with certificate identity */; PN::Config cf; cf.id_mode(mode == 2 ? PN::CERT_BASED : PN::ADDR_BASED); fx_cfg(cf, mode > 0); int known = vf_choice("known", 2); vfg_rnd[0] = vf_u16("rnd"); End a(0x0a000001, 80, cf); NetAddr ra(htonl(0x0a000002), htons(81)), other(htonl(0x0a000003), htons(82)); PeerId pid = mode == 2 ? PeerId(salticidae::X509(&vfg_peercert)) : PeerId(ra); vfg_peercert.refs = 1;
    a.n->add_peer(PeerId(other)); if (known) a.n->add_peer(pid); int claim = vf_choice("claims", 2); NetAddr said = claim ? NetAddr(htonl(0x0a000007), htons(87)) : ra; bool match = known && (mode == 2 || !claim); uint32_t nonce = vf_u32("nonce"); int j = pf_in_from(80, 5001); pf_settle(); pf_hand(j, PF_PING, said, nonce); pf_settle();
    if (!match) { vf_assert(a.unknown == 1 && a.unkaddr == said, "a handshake from an unregistered identity is reported to the user"); vf_assert(!vfg_s[j].open && !a.up, "and its connection is terminated, never a link"); vf_cover("refused"); }
    else if (!nonce) { vf_assert(!a.unknown && !a.up && vfg_s[j].open, "a manual connection is no link"); vf_cover("manual"); }
    else { vf_assert(a.unknown == 0, "a registered identity is not reported as unknown"); if (nonce < 0x10001) { vf_assert(a.up == 1 && a.linked && pf_fd(a.link) == j && vfg_s[j].open, "a registered identity is admitted"); vf_cover("admitted"); } }
    vf_assert(!a.fatal, "no fatal error");
}
// a dialled connection becomes the link only for a pong that claims the address dialled
extern "C" void c18_dialled() {
    vfg_rnd[0] = vf_u16("rnd"); One a; int x = a.dial(); pf_settle(); uint32_t t = vf_u32("nonce"); int wrong = vf_choice("claims", 3); NetAddr said = wrong == 1 ? NetAddr(htonl(0x0a000009), htons(81)) : wrong == 2 ? NetAddr(htonl(0x0a000002), htons(99)) : a.ra; uint32_t me = pf_out(x).nonce; pf_hand(x, PF_PONG, said, t); pf_settle();
    bool ok = !wrong && me < t; vf_assert(a.linked == ok && a.up == (int)ok, "a link only after a handshake with the identity dialled"); if (ok) vf_cover("up"); else vf_cover("not up");
    if (ok) { pf_hand(x, PF_PONG, a.ra, t); pf_hand(x, PF_PING, a.ra, vf_u32("again")); pf_settle(); vf_assert(a.linked && a.up == 1 && !a.down && vfg_s[x].open, "further handshake messages on the link change nothing"); }
}
// ---- histories: at most one live link, every establishment and loss reported, nothing breaks
static int vfg_last;
static void event(One &a, int e, int &x, int &y, uint16_t &port) {
    switch (e) {
    case 0: { int j = pf_in_from(80, port++); ns_step_loop(nullptr, 2); pf_quiet(); pf_hand(j, PF_PING, a.ra, 7000 + port); y = j; break; }  // a new inbound handshake
    case 1: if (x < 0 || !vfg_s[x].open) vf_kill(); pf_hand(x, PF_PONG, a.ra, 0x10001); break;                                           // the remote answers our dial
    case 2: { int l = a.linked ? pf_fd(a.link) : -1; if (l < 0 || !vfg_s[l].open) vf_kill(); vfg_s[l].eof = 1; break; }                // the link breaks
    case 3: a.n->conn_peer(a.rid, -1, 100); break;
    case 4: { int s0 = vfg_ns; if (!pf_tick(PF_NOW, a.disp()) && !pf_tick(PF_RETRY, a.disp())) vf_kill(); if (vfg_ns > s0) x = s0; break; }   // time to dial
    case 5: if (a.linked) a.dropped = a.link; a.n->del_peer(a.rid); a.n->add_peer(a.rid); a.n->set_peer_addr(a.rid, a.ra); break;
    case 6: if (y < 0 || !vfg_s[y].open) vf_kill(); vfg_s[y].eof = 1; break;                                                           // the last inbound connection breaks
    case 7: { int l = a.linked ? pf_fd(a.link) : -1; if (l < 0 || !vfg_s[l].open) vf_kill(); pf_hand(l, PF_PING, a.ra, 4242); break; }   // a repeated handshake on the link
    case 8: { int s0 = vfg_ns; a.n->connect(a.ra); pf_quiet(); if (vfg_ns > s0) x = s0; break; }                                       // a manual connection to the peer's address
    }
}
static void hist(int depth, int kinds) {
    One a; int x = -1, y = -1; uint16_t port = 5001; bool lost = false;
    for (int i = 0; i < depth; i++) { int e = vf_choice("event", kinds); bool del = e == 5; event(a, e, x, y, port); if (vf_choice("pause", 2)) pf_settle(); else if (i == depth - 1) vf_kill();
        if (del) { pf_settle(); if (a.linked && a.link == a.dropped) a.linked = false; } }     // removal takes the link away without a report
    vf_assert(!a.fatal, "no fatal error"); pf_settle();
    if (a.linked) { vf_assert(vfg_s[pf_fd(a.link)].open, "a link reported up and not down is alive"); pf_say(pf_fd(a.link), 9, "\1\0\0\0", 4); pf_settle(); vf_assert(a.nget == 1, "and delivers messages"); vf_cover("linked"); } else vf_cover("not linked");
    ns_blocking([&]() { PN::conn_t c = a.n->get_peer_conn(a.rid); if (a.linked) vf_assert(c == a.link, "the current connection of the peer is its link"); else vf_assert(c->is_terminated(), "a peer without a link has no live connection"); });
}
extern "C" void c18_hist() { hist(3, 9); }
extern "C" void c18_deep() { hist(vf_tier() ? 5 : 4, 5); }
// ---- takeover: the old link goes first, queued messages follow to the new link, whole, in order, once
static void takeover(bool tls) {
    for (int i = 0; i < 8; i++) vfg_rnd[i] = 60000; PN::Config cf = End::addrmode(); int cap = vf_choice("bounded", 2); if (cap) cf.max_send_buff_size(4); fx_cfg(cf, tls); One a(cf); int out = vf_choice("dialled", 2); int l = out ? a.link_out() : a.link_in(100); int nm = vf_choice("queued", 3), part = vf_choice("partial", 3), how = vf_choice("how", 2); int before = vfg_s[l].nout;
    vfg_s[l].wcap = part == 0 ? 0 : part == 1 ? 5 : 17 + 3; for (int i = 0; i < nm + 1; i++) a.n->send_msg(M9(40 + i), a.rid); pf_settle(); vf_assert(a.up == 1 && a.down == 0, "still up"); int j;
    if (how == 0) { vfg_s[l].eof = 1; pf_settle(); vf_assert(a.down == 1 && !a.linked, "the loss is reported"); int more = vf_choice("more", 2); if (more) { a.n->send_msg(M9(40 + nm + 1), a.rid); nm++; } pf_settle(); j = a.accept(5005); pf_hand(j, PF_PING, a.ra, 101); pf_settle(); }
    else { j = a.accept(5005); pf_hand(j, PF_PING, a.ra, 101); pf_settle(); }
    vf_assert(a.up == 2 && a.down == 1 && a.linked && pf_fd(a.link) == j, "the new handshake takes over after the old link was reported down"); vf_assert(!vfg_s[l].open && vfg_s[l].closes == 1, "the old connection is closed");
    int whole = 0; for (int k = 0; k < 20; k++) { PfMsg m = pf_parse(vfg_s[l].out + before, vfg_s[l].nout - before, k); if (!m.ok) break; whole++; } int cut = (vfg_s[l].nout - before) % 17 != 0;
    int next = 40 + whole + cut; int o = 0, seen = 0; bool good = true; const uint8_t *p = vfg_s[j].out; int n = vfg_s[j].nout;   // everything on the new link parses as whole messages
    while (n - o >= 13) { int len = p[o + 5] | p[o + 6] << 8; if (p[o + 4] != 9 && p[o + 4] < 0xf0) good = false; if (len > 11 || n - o < 13 + len) { good = false; break; } if (p[o + 4] == 9) { good &= p[o + 13] == next; next++; seen++; } o += 13 + len; }
    vf_assert(good && o == n, "messages on the new link are whole"); vf_assert(next == 40 + nm + 1, "the messages queued on the dead link follow in order, once"); if (seen) vf_cover("moved"); if (cut) vf_cover("cut");
}
extern "C" void c18_takeover() { takeover(false); }
