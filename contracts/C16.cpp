// Contracts for message dispatch (network.h MsgNetwork constructor's queue handler, reg_handler, set_handler, _send_msg): C16.
#include "netfix.h"
struct M1 { static const uint8_t opcode = 1; DataStream serialized; uint32_t v; M1(uint32_t x) { serialized << x; } M1(DataStream &&s) { s >> v; } };
struct M2 { static const uint8_t opcode = 2; DataStream serialized; uint8_t a, b; M2(uint8_t x, uint8_t y) { serialized << x << y; } M2(DataStream &&s) { s >> a >> b; } };
const uint8_t M1::opcode; const uint8_t M2::opcode;
using QI = std::pair<NMsg, Net::conn_t>;
// ---- one step of the dispatch loop: any message, any registered table of three opcodes, any burst limit
static bool vfg_on; static int vfg_taken, vfg_calls, vfg_who, vfg_op, vfg_thrown, vfg_deqs, vfg_term; static ConnPool::conn_t *vfg_conn; static const ConnPool::Conn *vfg_hconn; static uint32_t vfg_plen, vfg_hlen; static size_t vfg_r0, vfg_rb0;
static Net::Conn *mc() { return (Net::Conn *)vfg_conn->get(); }
extern "C" bool c16_deq(void *, QI *it) {
    if (!vfg_on) return false; vfg_deqs++; vf_assert(vfg_deqs == 1, "one message is taken per step"); vfg_taken = vf_bool("more"); if (!vfg_taken) return false;
    uint8_t h[13]; memset(h, 0, 13); vfg_op = vf_u8("opcode"); h[4] = vfg_op; vfg_plen = vf_u32("len"); for (int i = 0; i < 4; i++) h[5 + i] = vfg_plen >> (8 * i); NMsg m(DataStream(bytearray_t(h, h + 13))); it->first = std::move(m); it->second = static_pointer_cast<Net::Conn>(*vfg_conn); return true;
}
extern "C" void c16_term(void *, const ConnPool::conn_t *c) { vfg_term++; vf_assert(c->get() == vfg_conn->get(), "the connection the message came from is terminated"); }
extern "C" void c16_hook(int phase) {
    if (phase == 1) { vfg_taken = vfg_calls = vfg_thrown = vfg_deqs = vfg_term = 0; if (vfg_on) { void *it = vf_local("item"); if (!it) vf_hook_missing("item"); new (it) QI(NMsg(), static_pointer_cast<Net::Conn>(*vfg_conn)); mc()->nrecv = vfg_r0 = vf_u64("nrecv"); mc()->nrecvb = vfg_rb0 = vf_u64("nrecvb"); size_t rc = vf_u64("refs"); vf_assume((rc >= 3) & (rc < 1ul << 40)); vfg_conn->ctl->ref_cnt = rc; } }
    else if (phase == 2 && vfg_on) {
        bool known = vfg_op >= 3 && vfg_op <= 5; vf_inv(vfg_taken, "the loop goes on only while there are messages"); vf_inv(vfg_calls == (int)known, "exactly the registered handler runs, once"); if (known) vf_inv(vfg_who == vfg_op && vfg_hconn == mc() && vfg_hlen == vfg_plen, "the handler of its opcode, with its message and connection");
        vf_inv(mc()->nrecv == vfg_r0 + (known ? 1 : 0) && mc()->nrecvb == vfg_rb0 + (known ? vfg_plen : 0), "received statistics count the message once"); if (known) vf_cover("handled"); else vf_cover("unknown");
    }
}
extern "C" void c16_step() {
    Net::Config cf; size_t burst = vf_u64("burst"); cf.burst_size(burst); Fx f(false, cf); if (vf_is_native()) return; vfg_conn = &f.c;
    for (int op = 3; op <= 5; op++) { f.n->set_handler(op, [](const NMsg &, const Net::conn_t &) { vfg_calls = 100; }); f.n->set_handler(op, [op](const NMsg &m, const Net::conn_t &c) { vfg_calls++; vfg_who = op; vfg_hconn = c.get(); vfg_hlen = m.get_length(); }); }
    auto &q = f.n->incoming_msgs; q.enqueue(QI(NMsg(), static_pointer_cast<Net::Conn>(f.c)), true); vfg_on = true; vfg_deqs = -1; int n0 = vfg_steps; ns_step_loop(f.ec.get()); if (vfg_deqs == -1) vf_hook_missing("dispatch loop");
    if (vfg_taken) { bool known = vfg_op >= 3 && vfg_op <= 5; vf_assert(vfg_calls == (int)known && (!known || vfg_who == vfg_op), "a step that ends a burst dispatches its message"); vf_cover("burst"); } else { vf_assert(!vfg_calls, "nothing runs without a message"); vf_cover("empty"); }
}
// ---- histories through the whole stack
static int vfg_log[16], vfg_nlog; static bool vfg_wrongconn; static const ConnPool::Conn *vfg_expect;
static void lg(int x, const ConnPool::Conn *c) { if (vfg_nlog < 16) vfg_log[vfg_nlog++] = x; if (vfg_expect && c != vfg_expect) vfg_wrongconn = true; }
static void put(bytearray_t &s, int op, const uint8_t *p, int n) { uint8_t d[20]; ref_sha1(p, n, d); uint8_t h[13] = {0, 0, 0, 0, (uint8_t)op, (uint8_t)n, 0, 0, 0, d[0], d[1], d[2], d[3]}; s.insert(s.end(), h, h + 13); s.insert(s.end(), p, p + n); }
extern "C" void c16_hist() {
    Net::Config cf; bool th = vf_tier() != 0; cf.burst_size(th ? vf_choice("burst", 4) : vf_choice("burst", 3)); Fx f(th ? vf_choice("tls", 2) : 0, cf); vfg_expect = f.c.get();
    f.n->reg_handler([](M1 &&m, const Net::conn_t &c) { if (m.v == 13) throw std::runtime_error("handler"); lg(100 + m.v % 100, c.get()); }); f.n->reg_handler([](M2 &&m, const Net::conn_t &c) { lg(-1, c.get()); }); f.n->reg_handler([](M2 &&m, const Net::conn_t &c) { lg(200 + m.a, c.get()); });
    bytearray_t s; int kind[3], exp[3], ne = 0; bool bad = false; size_t pb = 0, pm = 0;
    for (int i = 0; i < 3; i++) { kind[i] = i < 2 || th ? vf_choice("kind", 5) : 0; uint32_t v = 7 + i; uint8_t b4[4] = {(uint8_t)v, 0, 0, 0}, b13[4] = {13, 0, 0, 0}, b2[2] = {(uint8_t)(20 + i), 1}, b1[1] = {9};
        switch (kind[i]) { case 0: put(s, 1, b4, 4); exp[ne++] = 100 + v; pb += 4; pm++; break; case 1: put(s, 2, b2, 2); exp[ne++] = 220 + i; pb += 2; pm++; break; case 2: put(s, 9, b4, 4); break; case 3: put(s, 2, b1, 1); bad = true; pb += 1; pm++; break; case 4: put(s, 1, b13, 4); bad = true; pb += 4; pm++; break; } }
    ns_feed(f.j, s.data(), (int)s.size()); bool esc = false; try { ns_run(300); } catch (...) { esc = true; } vf_assert(!esc, "a failing handler does not stop the loop");
    vf_assert(vfg_nlog == ne, "every message with a handler is dispatched once"); for (int i = 0; i < ne && i < vfg_nlog; i++) vf_assert(vfg_log[i] == exp[i], "in order, to the handler of its opcode"); vf_assert(!vfg_wrongconn, "with its own connection");
    vf_assert(f.c->is_terminated() == bad, "a failing handler or parser terminates the connection, an unknown opcode does not"); Net::Conn *m = (Net::Conn *)f.c.get(); vf_assert(m->get_nrecv() == pm && m->get_nrecvb() == pb, "received statistics"); vf_cover("hist");
}
// two connections: the connection a failing message came from is the one terminated
extern "C" void c16_two() {
    Fx f(false); int j2 = ns_ext_connect(htons(80), htonl(0x0a000002), htons(5556)); ns_run(); if (vfg_up != 2) vf_kill(); ConnPool::conn_t c2 = *vfg_upconn; f.n->reg_handler([](M1 &&m, const Net::conn_t &c) { lg(m.v, nullptr); vf_assert(c->get_addr().port == (m.v == 1 ? htons(5555) : htons(5556)), "dispatched with the connection it came from"); });
    bytearray_t a, b, x; uint8_t p1[4] = {1, 0, 0, 0}, p2[4] = {2, 0, 0, 0}, p3[1] = {1}; int badc = vf_choice("bad", 2); put(a, 1, p1, 4); put(b, 1, p2, 4); put(x, 1, p3, 1);
    ns_feed(badc ? j2 : f.j, x.data(), (int)x.size()); ns_feed(f.j, a.data(), (int)a.size()); ns_feed(j2, b.data(), (int)b.size()); ns_run(300);
    vf_assert(vfg_nlog == 2, "later messages are still dispatched"); vf_assert(f.c->is_terminated() == (badc == 0) && c2->is_terminated() == (badc == 1), "only the connection the failing message came from is terminated"); vf_cover("two");
}
// sending: the bytes written are the message with the configured magic; statistics count what was accepted
extern "C" void c16_send() {
    Net::Config cf; uint32_t magic = vf_u32("magic"); cf.msg_magic(magic).burst_size(7); cf.max_send_buff_size(vf_choice("bounded", 2)); Fx f(vf_choice("tls", 2), cf); int nb = vfg_s[f.j].nout; Net::conn_t c = static_pointer_cast<Net::Conn>(f.c); int cap = vf_choice("cap", 3), how = vf_choice("deferred", 2); vfg_errs = 0;
    uint32_t v = vf_u32("v"); vfg_s[f.j].wcap = 0; ns_run(); vfg_qcap = cap; bool bounded = f.n->max_send_buff_size != 0; int acc = 0, ids[2];
    for (int i = 0; i < 2; i++) { if (how) { ids[i] = f.n->send_msg_deferred(M1(v + i), c); } else acc += f.n->send_msg(M1(v + i), c); }
    vfg_qcap = cap; if (how) { for (int k = 0; k < 4; k++) ns_step_loop(f.n->disp_ec.get(), 1); ns_step_loop(f.ec.get()); ns_step_loop(f.ec.get()); acc = bounded && cap < 2 ? cap : 2; vf_assert(vfg_errs == 2 - acc && (acc == 2 || (vfg_lasterr == SALTI_ERROR_CONN_NOT_READY && vfg_lastid == ids[1])), "a refused deferred message is reported with its identifier"); }
    else vf_assert(acc == (bounded && cap < 2 ? cap : 2), "accepted exactly while there is room");
    vf_assert(c->get_nsent() == (size_t)acc && c->get_nsentb() == (size_t)(4 * acc), "sent statistics count accepted messages once"); vfg_qcap = (size_t)-1; vfg_s[f.j].wcap = -1; ns_run(200);
    vf_assert(vfg_s[f.j].nout - nb == 17 * acc, "each accepted message is written once"); if (vfg_s[f.j].nout - nb != 17 * acc) vf_kill();
    for (int i = 0; i < acc; i++) { uint8_t p[4], d[20], w[17]; uint32_t x = v + i; memcpy(p, &x, 4); ref_sha1(p, 4, d); memcpy(w, &magic, 4); w[4] = 1; w[5] = 4; w[6] = w[7] = w[8] = 0; memcpy(w + 9, d, 4); memcpy(w + 13, p, 4); vf_assert_mem_eq(vfg_s[f.j].out + nb + 17 * i, w, 17, "written as header with the configured magic, then payload, in order"); }
    c->clear_msgstat(); vf_assert(!c->get_nsent() && !c->get_nsentb() && !c->get_nrecv() && !c->get_nrecvb(), "statistics can be cleared"); vf_cover("send");
}
