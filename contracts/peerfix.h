// Fixture for the peer-network contracts: peer networks over the modelled environment (netsim.h).
#ifndef PEERFIX_H
#define PEERFIX_H
#define UVM_MAX 260
#include "netfix.h"
#ifdef VF_VERIFY
extern "C" int rand() throw() { return 0; }   // jitter of timers: the models fire timers in any order, their length is immaterial
#endif
using PN = PeerNetwork<uint8_t>;
template<> const uint8_t PN::MsgPing::opcode = 0xf0; template<> const uint8_t PN::MsgPong::opcode = 0xf1;
enum { PF_PING = 0xf0, PF_PONG = 0xf1 };
struct M9 { static const uint8_t opcode = 9; DataStream serialized; uint32_t v; M9(uint32_t x) { serialized << x; } M9(DataStream &&s) { s >> v; } };
const uint8_t M9::opcode;
static const int PF_MAXE = 32;
// what the user of one network sees
struct End {
    EventContext ec; PN *n; NetAddr addr; PeerId id; int up, down, unknown, errs, fatal, code, eid, refused; PN::conn_t link /* told up, not since told down */, dropped /* link of a peer the user removed */; bool linked; NetAddr unkaddr; int nget; uint32_t got[8];
    End(uint32_t ip, uint16_t port, PN::Config cf = addrmode(), bool lis = true): n(nullptr), addr(htonl(ip), htons(port)), id(addr), up(0), down(0), unknown(0), errs(0), fatal(0), code(0), eid(-1), refused(0), linked(false), nget(0) {
        cf.ping_period(30).conn_timeout(1000); cf.conn_server_timeout(7); n = new PN(ec, cf);
        n->reg_peer_handler([this](const PN::conn_t &c, bool on) { if (on) { vf_assert(!linked || link == dropped, "a peer is told up only after its previous link was told down"); up++; link = c; linked = true; } else { down++; if (linked && link == c) linked = false; } });
        n->reg_unknown_peer_handler([this](const NetAddr &a, const salticidae::X509 *) { unknown++; unkaddr = a; });
        n->reg_error_handler([this](const std::exception_ptr e, bool f, int32_t i) { errs++; fatal += f; code = fx_code(e); eid = i; });
        n->reg_handler([this](M9 &&m, const PN::conn_t &) { if (nget < 8) got[nget] = m.v; nget++; });
        n->start(); if (lis) ns_blocking([&]() { n->listen(addr); });
    }
    static PN::Config addrmode() { PN::Config c; c.id_mode(PN::ADDR_BASED); return c; }
    uv_loop_t *disp() { return n->workers[0].ec.get(); }
};
// ---- scheduling: notification descriptors and writability are served at once, the other socket events in an order the caller chooses
static int pf_cid(const UvRec *r) { NsSock *s = &vfg_s[r->fd - NS_FD0]; int j = s->listening ? s->pend[0] : r->fd - NS_FD0; int p = vfg_s[j].peer; return p >= 0 && p < j ? p : j; }
static void pf_quiet() { int k = 0; while (k < 300 && ns_step_loop(nullptr, 1)) k++; vf_assert(k < 300, "the event loops become idle"); if (k >= 300) vf_kill(); }
static UvRec *pf_ready(int cid) { for (int i = 0; i < vfg_nuv; i++) { UvRec *r = &vfg_uv[i]; if (r->kind == UVM_POLL && r->active && !r->closing && ns_is(r->fd) && !r->loop->stop_flag && ns_ready(r) && (cid < 0 || pf_cid(r) == cid)) return r; } return nullptr; }
static void pf_fire(UvRec *r) { vfg_steps++; uvm_fire_poll(r, 0, ns_ready(r)); }
// run to quiescence; while `budget` lasts, the next connection to make progress is chosen freely (accepting a connection and flushing output are not delayed)
static int vfg_dialled[NS_MAX];
static bool pf_eager(UvRec *r) { int j = r->fd - NS_FD0; if (vfg_s[j].listening) return true; if (ns_ready(r) & UV_READABLE) return false; return vfg_dialled[j] || (vfg_s[j].peer >= 0 && vfg_s[j].peer < j); }
static void pf_run(const char *name, int budget, int max = 300) {
    for (int k = 0; k < max; k++) {
        pf_quiet(); int ids[8], n = 0; UvRec *now = nullptr; for (int i = 0; i < vfg_nuv && !now; i++) { UvRec *r = &vfg_uv[i]; if (r->kind != UVM_POLL || !r->active || r->closing || !ns_is(r->fd) || r->loop->stop_flag || !ns_ready(r)) continue; if (pf_eager(r)) { now = r; break; } int c = pf_cid(r); bool dup = false; for (int q = 0; q < n; q++) dup |= ids[q] == c; if (!dup && n < 8) ids[n++] = c; }
        if (now) { pf_fire(now); continue; } if (!n) return; int pick = 0; if (n > 1 && budget > 0) { pick = vf_choice(name, n); budget--; } UvRec *r = pf_ready(ids[pick]); vfg_dialled[r->fd - NS_FD0] = 1; pf_fire(r);
    }
    vf_assert(false, "the event loops become idle"); vf_kill();
}
// ---- what is on the wire
struct PfMsg { bool ok; int op; uint32_t len; bool hs; uint32_t ip; uint16_t port; uint32_t nonce; };
static PfMsg pf_parse(const uint8_t *p, int n, int k /* k-th message */) {
    PfMsg m; memset(&m, 0, sizeof m); int o = 0;
    for (;; k--) { if (n - o < 13) return m; m.op = p[o + 4]; m.len = p[o + 5] | p[o + 6] << 8; if (n - o < 13 + (int)m.len) { m.op = 0; return m; } if (k == 0) break; o += 13 + m.len; }
    m.ok = true; if (m.op >= 0xf0 && m.len == 11) { m.hs = p[o + 13]; memcpy(&m.ip, p + o + 14, 4); memcpy(&m.port, p + o + 18, 2); for (int i = 0; i < 4; i++) m.nonce |= (uint32_t)p[o + 20 + i] << (8 * i); } return m;
}
static PfMsg pf_in(int j, int k = 0) { return pf_parse(vfg_s[j].in, vfg_s[j].wi, k); }
static PfMsg pf_out(int j, int k = 0) { return pf_parse(vfg_s[j].out, vfg_s[j].nout, k); }
// a scripted remote writes a message to connection j
static void pf_say(int j, int op, const void *p, int n) { uint8_t h[64]; memset(h, 0, 13); h[4] = op; h[5] = n; uint8_t d[20]; ref_sha1((const uint8_t *)p, n, d); memcpy(h + 9, d, 4); memcpy(h + 13, p, n); ns_feed(j, h, 13 + n); }
static void pf_hand(int j, int op, const NetAddr &a, uint32_t nonce) { uint8_t b[11]; b[0] = 1; memcpy(b + 1, &a.ip, 4); memcpy(b + 5, &a.port, 2); for (int i = 0; i < 4; i++) b[7 + i] = nonce >> (8 * i); pf_say(j, op, b, 11); }
static void pf_beat(int j, int op) { uint8_t z = 0; pf_say(j, op, &z, 1); }
// ---- timers, told apart by their length (retry delay 100 s, ping period 30 s, link timeout 1000 s, dialling timeout 7 s; jitter adds at most half)
enum { PF_RETRY, PF_PINGT, PF_LINKT, PF_DIALT, PF_NOW };
static UvRec *pf_timer(int kind, uv_loop_t *l = nullptr, int nth = 0) { for (int i = 0; i < vfg_nuv; i++) { UvRec *r = &vfg_uv[i]; if (r->kind != UVM_TIMER || !r->active || r->closing || (l && r->loop != l)) continue; uint64_t t = r->timeout; int k = t >= 1000000 ? PF_LINKT : t >= 100000 ? PF_RETRY : t >= 30000 ? PF_PINGT : t >= 1000 ? PF_DIALT : PF_NOW; if (k == kind && nth-- == 0) return r; } return nullptr; }
static bool pf_tick(int kind, uv_loop_t *l = nullptr) { UvRec *r = pf_timer(kind, l); if (!r) return false; ns_timer(r); return true; }
static int pf_settle(int max = 300) { int k = 0; for (; k < max; k++) { pf_quiet(); UvRec *r = pf_ready(-1); if (!r) break; pf_fire(r); } vf_assert(k < max, "the event loops become idle"); if (k >= max) vf_kill(); return k; }
static int pf_in_from(uint16_t port, uint16_t rport) { int j = ns_ext_connect(htons(port), htonl(0x0a000002), htons(rport)); return j; }
static int pf_count(int j, int op, bool hs) { int c = 0; for (int k = 0; k < 40; k++) { PfMsg m = pf_out(j, k); if (!m.ok) break; c += m.op == op && m.hs == hs; } return c; }
static int pf_fd(const PN::conn_t &c) { return c->fd - NS_FD0; }
// one network with one registered peer R, played by the driver
struct One: End { NetAddr ra; PeerId rid; One(PN::Config cf = addrmode(), bool withaddr = true): End(0x0a000001, 80, cf), ra(htonl(0x0a000002), htons(81)), rid(ra) { n->add_peer(rid); if (withaddr) n->set_peer_addr(rid, ra); pf_settle(); }
    int dial(int ntry = -1) { int s0 = vfg_ns; n->conn_peer(rid, ntry, 100); pf_quiet(); pf_tick(PF_NOW, disp()); return vfg_ns > s0 ? s0 : -1; }
    int accept(uint16_t rport = 5001) { int j = pf_in_from(80, rport); pf_settle(); return j; }
    int link_in(uint32_t nonce) { int j = accept(); pf_hand(j, PF_PING, ra, nonce); pf_settle(); vf_assert(linked && pf_fd(link) == j, "the handshake establishes the link"); if (!linked) vf_kill(); return j; }
    int link_out(uint32_t nonce = 0x10001) { int j = dial(); pf_settle(); pf_hand(j, PF_PONG, ra, nonce); pf_settle(); vf_assert(linked && pf_fd(link) == j, "the handshake establishes the link"); if (!linked) vf_kill(); return j; }
};
static int pf_open_conns() { int k = 0; for (int i = 0; i < vfg_ns; i++) k += vfg_s[i].open && !vfg_s[i].listening; return k; }
#endif
