// Contracts for message framing (network.h MsgNetwork::on_read and its retry timer): C07.
#include "netfix.h"
static int vfg_k, vfg_op[8], vfg_n[8], vfg_off[8], vfg_ok[8], vfg_got; static uint8_t vfg_pay[64]; static bool vfg_bad;
// ---- one iteration of on_read from every parser state: the receive buffer and the delivery queue are replaced by their contracts.  The
// stream is one infinite byte sequence; vfg_pops records what is taken from it.
static bool vfg_on, vfg_full, vfg_hdrstate; static size_t vfg_avail, vfg_popn[3]; static uint8_t *vfg_pop[3]; static int vfg_pops, vfg_enqs; static Net::Conn *vfg_c; static uint64_t vfg_maxmsg;
static uint8_t *vfg_hdr;  // the current header (given by the state, or popped)
static uint32_t le32(const uint8_t *p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static const size_t HS = NMsg::header_size;
static uint32_t h_len() { return le32(vfg_hdr + 5); }
static size_t vfg_segs, vfg_max, vfg_asiden, vfg_total; static uint8_t *vfg_aside; static bool vfg_second;
static size_t need() { return vfg_hdrstate && !vfg_pops ? HS : (size_t)h_len(); }
static void segs(size_t atmost) { vfg_segs = vf_u64("segs"); vf_assume((vfg_segs <= atmost) & (vfg_segs <= vfg_avail) & ((vfg_segs == 0) == (vfg_avail == 0))); }
extern "C" size_t c07_size(void *) { return vfg_avail; }
extern "C" size_t c07_len(void *) { return vfg_segs; }
extern "C" void c07_rewind(void *, bytearray_t *d) {
    vf_assert(d->size() == vfg_asiden, "exactly what was set aside is put back"); if (d->size() != vfg_asiden) vf_kill(); vf_assert_mem_eq(d->data(), vfg_aside, vfg_asiden, "exactly what was set aside is put back");
    vfg_avail += vfg_asiden; vfg_asiden = 0; vfg_segs++;
}
extern "C" bytearray_t c07_pop(void *, size_t n) {
    vf_assert(n <= vfg_avail, "takes only bytes that have arrived"); if (n > vfg_avail) vf_kill();
    if (n == vfg_avail && n < need() && vfg_pops < 2) { vf_assert(vfg_asiden == 0, "set aside once"); vfg_aside = vf_bytes("aside", n); vfg_asiden = n; vfg_avail = 0; vfg_segs = 0; return bytearray_t(vfg_aside, vfg_aside + n); }
    vf_assert(vfg_pops < 2, "at most header and payload of one message per step"); if (vfg_pops >= 2) vf_kill();
    vf_assert(n == need(), "takes exactly a header, then exactly its payload");
    uint8_t *p = vf_bytes("stream", n); vfg_pop[vfg_pops] = p; vfg_popn[vfg_pops++] = n; vfg_avail -= n; segs(vfg_segs); if (vfg_hdrstate && vfg_pops == 1) vfg_hdr = p; return bytearray_t(p, p + n);
}
extern "C" bool c07_enq(void *, std::pair<NMsg, Net::conn_t> &&m, bool unb) {
    if (!vfg_on) return true;
    vfg_enqs++; vf_assert(vfg_enqs == 1, "a message is queued once"); vf_assert(!unb, "the delivery queue is bounded"); vf_assert(m.second.get() == vfg_c, "queued with the connection it came from");
    size_t n = h_len(); vf_assert(vfg_pops == (vfg_hdrstate ? 2 : 1), "queued only when complete"); if (vfg_pops != (vfg_hdrstate ? 2 : 1)) vf_kill(); vf_assert(n <= vfg_maxmsg, "an oversized message is not delivered");
    vf_assert(m.first.get_opcode() == vfg_hdr[4], "own opcode"); vf_assert(m.first.get_length() == n, "own length"); vf_assert(m.first.get_magic() == le32(vfg_hdr), "own magic");
    bytearray_t b(m.first.get_payload()); vf_assert(b.size() == n, "own payload size"); if (b.size() != n) vf_kill(); vf_assert_mem_eq(b.data(), vfg_pop[vfg_pops - 1], n, "own payload");
    uint8_t d[20]; ref_sha1(vfg_pop[vfg_pops - 1], n, d); vf_assert(le32(d) == le32(vfg_hdr + 9), "only a message whose checksum matches is delivered");
    return !vfg_full;
}
static bool sum_ok() { size_t n = h_len(); uint8_t d[20]; ref_sha1(vfg_pop[vfg_pops - 1], n, d); return le32(d) == le32(vfg_hdr + 9); }
extern "C" void c07_hook(int phase) {
    if (phase == 0 && vfg_second) { vf_assert(vfg_avail == vfg_total && vfg_asiden == 0, "an incomplete message is continued from where it stopped"); vf_cover("continued"); vf_kill(); }
    if (phase == 1) {
        vfg_pops = vfg_enqs = 0; vfg_avail = vf_u64("avail"); vf_assume(vfg_avail < (1ul << 40)); segs(1ul << 40); vfg_full = vf_bool("full"); if (!vfg_c) return;
        vfg_hdrstate = vf_choice("state", 2) == 0; vfg_hdr = vf_bytes("header", HS); bytearray_t hb(vfg_hdr, vfg_hdr + HS);
        vfg_c->msg = NMsg(DataStream(std::move(hb))); vfg_c->msg_state = vfg_hdrstate ? Net::Conn::HEADER : Net::Conn::PAYLOAD; if (!vfg_hdrstate) vf_assume(h_len() <= vfg_maxmsg);
    } else if (phase == 2 && vfg_on) {
        vf_inv(vfg_c->msg_state == Net::Conn::HEADER, "a step that goes on consumed a whole message"); vf_inv(vfg_pops == (vfg_hdrstate ? 2 : 1), "a step that goes on consumed a whole message");
        vf_inv(vfg_enqs == (int)sum_ok(), "a complete message is queued exactly when its checksum matches"); if (vfg_enqs) vf_cover("queued"); else vf_cover("corrupt skipped");
    }
}
extern "C" void c07_step() {
    Net::Config cf; vfg_maxmsg = vf_u64("maxmsg"); vf_assume(vfg_maxmsg < 1u << 30); cf.max_msg_size(vfg_maxmsg); Fx f(false, cf); if (vf_is_native()) return; vfg_c = (Net::Conn *)f.c.get(); vfg_on = true; vfg_max = vf_u64("max"); vf_assume((vfg_max >= 1) & (vfg_max < (1ul << 40))); vfg_c->max_recv_buff_size = vfg_max;
    bool thrown = false; try { f.n->on_read(f.c); } catch (SalticidaeError &e) { thrown = true; vf_assert(e.get_code() == SALTI_ERROR_CONN_OVERSIZED_MSG, "oversized error"); }
    if (thrown) { vf_assert(vfg_hdrstate && vfg_pops == 1 && h_len() > vfg_maxmsg && vfg_enqs == 0, "only an oversized header ends the connection"); vf_cover("oversized"); return; }
    bool hdr = vfg_c->msg_state == Net::Conn::HEADER;
    if (vfg_c->msg_sleep) { vf_assert(vfg_enqs == 1 && vfg_full && hdr, "waits for room exactly when the queue refused a message"); vf_cover("full"); UvRec *t = ns_earliest(); vf_assert(t != nullptr, "a retry is scheduled");
        vf_assert(vfg_c->msg.get_length() == h_len() && vfg_c->msg.get_opcode() == vfg_hdr[4], "the refused message is kept"); }
    else { size_t total = vfg_avail + vfg_asiden; vf_assert(vfg_segs < vfg_max, "an incomplete message leaves room to read on");
        vf_assert(vfg_enqs == 0, "a message that was taken is followed by another step");
        if (hdr) { vf_assert(vfg_hdrstate && vfg_pops == 0 && total < HS, "stops at a header only when it is incomplete"); vf_cover("need header"); }
        else { vf_assert(vfg_pops == (vfg_hdrstate ? 1 : 0) && total < h_len(), "stops at a payload only when it is incomplete"); vf_assert(vfg_c->msg.get_length() == h_len() && vfg_c->msg.get_opcode() == vfg_hdr[4], "header kept"); vf_cover("need payload"); }
        vfg_total = total; vfg_second = true; f.n->on_read(f.c); }
}
// ---- histories: a stream of messages in any two pieces (or small fragments), delivered through the real buffer to handlers
static void mk(bytearray_t &all, int op, const uint8_t *p, int n, bool corrupt) { uint8_t d[20]; ref_sha1(p, n, d); uint8_t h[13] = {0, 0, 0, 0, (uint8_t)op, (uint8_t)n, 0, 0, 0, d[0], d[1], d[2], (uint8_t)(d[3] ^ (corrupt ? 1 : 0))}; all.insert(all.end(), h, h + 13); all.insert(all.end(), p, p + n); }
static void on(const NMsg &m, const Net::conn_t &) { bytearray_t b(m.get_payload()); if (vfg_k < 8) { vfg_op[vfg_k] = m.get_opcode(); vfg_n[vfg_k] = (int)b.size(); vfg_off[vfg_k] = vfg_got; if (vfg_got + b.size() <= sizeof vfg_pay) { memcpy(vfg_pay + vfg_got, b.data(), b.size()); vfg_got += (int)b.size(); } vfg_k++; } }
static void check(const uint8_t *p, const int *op, const int *n, const int *off, int cnt) {
    vf_assert(vfg_k == cnt, "exactly the complete valid messages are delivered"); if (vfg_k != cnt) vf_kill();
    for (int i = 0; i < cnt; i++) { vf_assert(vfg_op[i] == op[i] && vfg_n[i] == n[i], "in stream order, own opcode"); if (vfg_n[i] != n[i]) vf_kill(); vf_assert_mem_eq(vfg_pay + vfg_off[i], p + off[i], n[i], "own payload"); }
}
static void retries(int k) { for (int i = 0; i < k; i++) { UvRec *t = ns_earliest(); if (!t) break; ns_timer(t); ns_run(100); } }
extern "C" void c07_hist() {
    Net::Config cf; int lim = vf_choice("limit", 3); cf.recv_chunk_size(16).max_recv_buff_size(lim < 2 ? lim + 1 : 8); Fx f(false, cf); for (int i = 1; i < 5; i++) f.n->set_handler(i, [](const NMsg &m, const Net::conn_t &c) { on(m, c); });
    uint8_t *p = vf_bytes("pay", 6); int bad = vf_choice("corrupt", 4); bytearray_t s; int e = vf_choice("empty", 2), n[3] = {e ? 0 : 2, e ? 2 : 4, e ? 4 : 0}, off[3] = {0, n[0], n[0] + n[1]}; for (int i = 0; i < 3; i++) mk(s, i + 1, p + off[i], n[i], bad == i + 1);
    int L = (int)s.size(), cut = vf_choice("cut", 46), fr = vf_tier() ? vf_choice("frag", 4) : 0; if (cut > L || (!vf_tier() && lim < 2 && cut % 6)) vf_kill(); if (!vf_tier() && lim < 2) fr = lim ? 2 : 3; int fz[4] = {0, 1, 2, 5}; vfg_s[f.j].frag = fz[fr];
    ns_feed(f.j, s.data(), cut); ns_run(200); ns_feed(f.j, s.data() + cut, L - cut); ns_run(200);
    int eo[3], en[3], ef[3], c = 0; for (int i = 0; i < 3; i++) if (bad != i + 1) { eo[c] = i + 1; en[c] = n[i]; ef[c++] = off[i]; }
    check(p, eo, en, ef, c); vf_assert(!f.c->is_terminated(), "connection stays up"); vf_cover("hist");
}
// the delivery queue is full when the k-th message arrives, for a while: nothing is lost or duplicated, order kept, later corrupt or oversized data handled the same
extern "C" void c07_full() {
    Net::Config cf; cf.recv_chunk_size(16).max_recv_buff_size(8).enable_tls(false); cf.max_msg_size(64); Fx f(false, cf); for (int i = 1; i < 5; i++) f.n->set_handler(i, [](const NMsg &m, const Net::conn_t &c) { on(m, c); });
    uint8_t *p = vf_bytes("pay", 6); bytearray_t s; int e = vf_choice("empty", 2), n[3] = {e ? 0 : 2, e ? 2 : 0, 3}, off[3] = {0, n[0], 2}, op[3] = {1, 2, 3}; int what = vf_choice("third", 3); for (int i = 0; i < 2; i++) mk(s, i + 1, p + off[i], n[i], false);
    if (what == 2) { uint8_t h[13] = {0, 0, 0, 0, 3, 65, 0, 0, 0, 0, 0, 0, 0}; s.insert(s.end(), h, h + 13); } else mk(s, 3, p + 2, 3, what == 1);
    int c1 = vf_choice("cut", 4) * 12, full = vf_choice("full", 2), tries = vf_choice("tries", 3); vfg_errs = 0;
    if (full == 0) vfg_qcap = 0; ns_feed(f.j, s.data(), c1); ns_run(200); vfg_qcap = full == 1 ? 0 : vfg_qcap; ns_feed(f.j, s.data() + c1, (int)s.size() - c1); ns_run(200); retries(tries);
    vfg_qcap = (size_t)-1; bool esc = false; try { ns_run(200); retries(8); } catch (...) { esc = true; } vf_assert(!esc, "a framing error never escapes the event loop");
    check(p, op, n, off, what == 0 ? 3 : 2); vf_assert(f.c->is_terminated() == (what == 2), "an oversized announcement ends the connection, nothing else does"); if (what == 2) vf_assert(vfg_errs == 1 && vfg_lasterr == SALTI_ERROR_CONN_OVERSIZED_MSG, "by the error path"); vf_cover("full");
}
// an oversized header: at the first message or after others, whatever follows
extern "C" void c07_over() {
    Net::Config cf; cf.max_msg_size(6); Fx f(vf_choice("tls", 2), cf); for (int i = 1; i < 5; i++) f.n->set_handler(i, [](const NMsg &m, const Net::conn_t &c) { on(m, c); });
    uint8_t *p = vf_bytes("pay", 4); bytearray_t s; int first = vf_choice("first", 2); if (first) mk(s, 1, p, 4, false); uint32_t len = vf_u32("len"); uint8_t h[13] = {0, 0, 0, 0, 2, (uint8_t)len, (uint8_t)(len >> 8), (uint8_t)(len >> 16), (uint8_t)(len >> 24), 0, 0, 0, 0}; s.insert(s.end(), h, h + 13);
    if (len > 6) mk(s, 3, p, 4, false); else vf_assume(len != 0); int cut = vf_choice("cut", 3) * 9; if (cut > (int)s.size()) cut = 3; ns_feed(f.j, s.data(), cut); ns_run(100); ns_feed(f.j, s.data() + cut, (int)s.size() - cut); ns_run(100);
    vf_assert(f.c->is_terminated() == (len > 6), "terminated exactly when the announced length exceeds the maximum");
    if (len > 6) { vf_assert(vfg_k == first, "nothing of it or behind it is delivered"); vf_assert(vfg_errs == 1 && vfg_lasterr == SALTI_ERROR_CONN_OVERSIZED_MSG, "reported as oversized"); vf_cover("over"); } else vf_cover("within");
}
