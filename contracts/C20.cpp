// Contracts for heartbeats (network.h PeerNetwork::Peer ping_timer/send_ping/reset_ping_timer, ping_handler, pong_handler, tcall_reset_timeout, on_worker_setup): C20.
#include "peerfix.h"
static UvRec *linkt(One &a, int fd) { (void)fd; return pf_timer(PF_LINKT, a.disp()); }
// the user-visible rule: a ping goes out, and the timeout starts over, exactly when the period has elapsed and the previous ping was answered
struct Beat { bool due, answered; int pings, pongs, restarts; };
static void rule(Beat &b) { if (b.due && b.answered) { b.due = b.answered = false; b.pings++; b.restarts++; } }
static int starts(One &a) { UvRec *r = linkt(a, 0); return r ? r->starts : -1; }
static void check(One &a, int l, const Beat &b, int p0, int q0, int s0) {
    vf_assert(pf_count(l, PF_PING, false) - p0 == b.pings, "a ping is sent exactly when the period has elapsed and the previous ping was answered");
    vf_assert(pf_count(l, PF_PONG, false) - q0 == b.pongs, "a heartbeat ping is answered with one pong");
    vf_assert(starts(a) - s0 == b.restarts, "the link's timeout starts over exactly with each ping");
    vf_assert((pf_timer(PF_PINGT, a.disp()) != nullptr) == !b.due, "the ping period runs exactly until it elapses");
    vf_assert(a.linked && a.up == 1 && !a.down && vfg_s[l].open, "the link stays up");
}
static void step(One &a, int l, Beat &b, int e, int &q) {
    switch (e) {
    case 0: if (pf_tick(PF_PINGT, a.disp())) { b.due = true; rule(b); } else vf_kill(); break;      // the period elapses
    case 1: pf_beat(l, PF_PONG); b.answered = true; rule(b); break;                                 // the peer answers
    case 2: pf_beat(l, PF_PING); b.pongs++; break;                                                 // the peer pings
    case 3: if (q < 0) q = a.accept(5077); pf_beat(q, PF_PONG); break;                               // a pong on a connection that is nobody's link
    case 4: { int n = pf_count(q < 0 ? l : q, PF_PONG, false); if (q < 0) q = a.accept(5077); n = pf_count(q, PF_PONG, false); pf_beat(q, PF_PING); pf_settle(); vf_assert(pf_count(q, PF_PONG, false) == n + 1, "a heartbeat ping is answered on the connection it came from"); break; }
    }
    pf_settle();
}
// every order of period expiries, pongs and pings
extern "C" void c20_hist() {
    One a; int l = vf_choice("dialled", 2) ? a.link_out() : a.link_in(40); int p0 = pf_count(l, PF_PING, false), q0 = pf_count(l, PF_PONG, false), s0 = starts(a); vf_assert(p0 == 1 && s0 > 0 && pf_timer(PF_PINGT, a.disp()), "an established link is pinged at once, with its period and timeout running"); Beat b{false, false, 0, 0, 0}; int q = -1;
    int depth = vf_tier() ? 6 : 4; for (int i = 0; i < depth; i++) { step(a, l, b, vf_choice("event", 4), q); check(a, l, b, p0, q0, s0); } if (b.pings) vf_cover("pinged again"); if (b.due) vf_cover("period over, unanswered"); if (b.answered) vf_cover("answered, period running");
    if (vf_choice("silent", 2)) { bool t = pf_tick(PF_LINKT, a.disp()); vf_assert(t, "the timeout is running"); pf_settle(); vf_assert(a.down == 1 && !a.linked && !vfg_s[l].open && vfg_s[l].closes == 1, "a link whose pings are not answered within the timeout is terminated"); vf_assert(!pf_timer(PF_PINGT, a.disp()), "and pinged no more"); vf_cover("timed out"); }
}
// messages in flight when the period elapses: the events are served in any order
extern "C" void c20_race() {
    One a; int l = a.link_in(40); int p0 = pf_count(l, PF_PING, false), q0 = pf_count(l, PF_PONG, false), s0 = starts(a); Beat b{false, false, 0, 0, 0}; int n = 1 + vf_choice("pongs", 3); for (int i = 0; i < n; i++) pf_beat(l, PF_PONG); int k = vf_choice("progress", 6); for (int i = 0; i < k; i++) ns_step_loop(nullptr); bool t = pf_tick(PF_PINGT, a.disp()); vf_assert(t, "the period is running"); pf_settle();
    int pings = pf_count(l, PF_PING, false) - p0; vf_assert(pings == 1, "one period, one ping, however many pongs"); b.pings = 1; b.restarts = 1; UvRec *r = pf_timer(PF_PINGT, a.disp()); vf_assert(r != nullptr, "the next period runs"); vf_assert(starts(a) - s0 == 1, "the timeout started over once"); vf_assert(a.linked && !a.down, "the link stays up"); vf_cover("raced");
}
// pongs before, outside and after a link do nothing
extern "C" void c20_stray() {
    One a; int st = vf_choice("state", 5); int j = -1;
    switch (st) { case 0: j = a.accept(5010); break;                                                           // pending
    case 1: j = a.dial(); pf_settle(); break;                                                                  // dialled, not yet answered
    case 2: { int s0 = vfg_ns; a.n->connect(a.ra); pf_settle(); j = s0; break; }                               // a manual connection
    case 3: { int l = a.link_in(3); if (vf_choice("waslate", 2)) { pf_tick(PF_PINGT, a.disp()); pf_settle(); } vfg_s[l].eof = 1; pf_settle(); j = a.dial(); pf_settle(); break; }          // a link existed before
    case 4: { a.link_in(3); j = a.accept(5011); break; } }                                                     // another connection while a link is up
    int l = a.linked ? pf_fd(a.link) : -1, p0 = l >= 0 ? pf_count(l, PF_PING, false) : 0; bool t = st == 4 && vf_choice("due", 2) && pf_tick(PF_PINGT, a.disp()); (void)t; int n0 = vfg_s[j].nout; pf_beat(j, PF_PONG); pf_beat(j, PF_PONG); pf_settle();
    vf_assert(!a.fatal && !a.errs, "no error"); vf_assert(vfg_s[j].open && vfg_s[j].nout == n0, "a pong on a connection that is nobody's link is ignored"); if (l >= 0) vf_assert(pf_count(l, PF_PING, false) == p0 && a.linked, "and leaves the link alone"); if (st != 4) vf_assert(!a.linked && !pf_timer(PF_PINGT, a.disp()), "and makes no link, and starts no period"); vf_cover("ignored");
    int m = pf_count(j, PF_PONG, false); pf_beat(j, PF_PING); pf_settle(); vf_assert(pf_count(j, PF_PONG, false) == m + 1, "a heartbeat ping is answered with one pong on its connection");
    if (st == 1 || st == 3) { pf_hand(j, PF_PONG, a.ra, 0x10001); pf_settle(); vf_assert(a.linked && pf_count(j, PF_PING, false) == 1, "once established, the link is pinged once"); }
}
// a connection that never completes a handshake is dropped when the timeout ends
extern "C" void c20_mute() { One a; int out = vf_choice("dialled", 2); int j = out ? a.dial() : a.accept(5010); pf_settle(); vf_assert(vfg_s[j].open, "open"); bool t = pf_tick(PF_LINKT, a.disp()); vf_assert(t, "a connection without a handshake has its timeout running"); pf_settle(); vf_assert(!vfg_s[j].open && vfg_s[j].closes == 1 && !a.up && !a.fatal, "and is dropped by it"); vf_cover("dropped"); }
// a new link of the same peer starts afresh: what the old link was owed does not carry over
extern "C" void c20_fresh() {
    One a; int l = a.link_in(40); int st = vf_choice("state", 3); if (st == 1) { pf_tick(PF_PINGT, a.disp()); pf_settle(); } if (st == 2) { pf_beat(l, PF_PONG); pf_settle(); } int how = vf_choice("how", 2); int j; if (how) { vfg_s[l].eof = 1; pf_settle(); j = a.accept(5020); pf_hand(j, PF_PING, a.ra, 41); pf_settle(); } else { j = a.accept(5020); pf_hand(j, PF_PING, a.ra, 41); pf_settle(); }
    vf_assert(a.linked && pf_fd(a.link) == j && a.up == 2 && a.down == 1, "established again"); vf_assert(pf_count(j, PF_PING, false) == 1 && pf_timer(PF_PINGT, a.disp()) && !pf_timer(PF_PINGT, a.disp(), 1), "one ping at once, one period running"); int e = vf_choice("event", 2); if (e) pf_beat(j, PF_PONG); else pf_tick(PF_PINGT, a.disp()); pf_settle(); vf_assert(pf_count(j, PF_PING, false) == 1, "no ping until both happened"); if (!e) pf_beat(j, PF_PONG); else pf_tick(PF_PINGT, a.disp()); pf_settle(); vf_assert(pf_count(j, PF_PING, false) == 2, "then one"); vf_cover("afresh");
}
// two networks of this library keep each other alive
extern "C" void c20_pair() {
    vfg_rnd[0] = 5; End x(0x7f000001, 80), y(0x7f000001, 81); x.n->add_peer(y.id); y.n->add_peer(x.id); pf_settle(); x.n->set_peer_addr(y.id, y.addr); x.n->conn_peer(y.id, -1, 100); pf_settle(); pf_tick(PF_NOW, x.disp()); pf_settle(); vf_assert(x.linked && y.linked, "linked"); if (!x.linked || !y.linked) vf_kill();
    for (int i = 0; i < 2; i++) { End &e = vf_choice("who", 2) ? x : y; int s0 = pf_timer(PF_LINKT, e.disp())->starts; bool t = pf_tick(PF_PINGT, e.disp()); vf_assert(t, "the period runs"); pf_settle(); UvRec *r = pf_timer(PF_LINKT, e.disp()); vf_assert(r && r->starts == s0 + 1, "an answered ping restarts the timeout each period"); }
    vf_assert(x.linked && y.linked && !x.down && !y.down && !x.errs && !y.errs, "a live link stays up"); vf_cover("kept alive");
}
