// Contracts for the receiving half of a connection (src/conn.cpp _recv_data, _recv_data_tls; resuming in network.h on_read): C13.
#include "netfix.h"
// ---- one call from an arbitrary state: the receive buffer is replaced by its contract (a byte sequence with a segment count), the upper layer
// drains any number of segments, the transport delivers anything.
static bool vfg_on; static size_t vfg_chunk, vfg_max, vfg_segs, vfg_k; static uint8_t *vfg_data; static int vfg_recvs, vfg_pushes, vfg_told, vfg_res, vfg_pending; static ConnPool::Conn *vfg_c;
extern "C" size_t c13_len(void *) { return vfg_segs; }
extern "C" void c13_push(void *, bytearray_t *d) {
    vfg_pushes++; vf_assert(vfg_recvs == 1 && vfg_pushes == 1 && vfg_res == 3, "each batch is appended once"); vf_assert(d->size() == vfg_k, "exactly the bytes received are appended"); if (d->size() != vfg_k) vf_kill();
    vf_assert_mem_eq(d->data(), vfg_data, vfg_k, "exactly the bytes received are appended"); vfg_segs++; vfg_pending = 1;
}
extern "C" void c13_on_read(void *, const ConnPool::conn_t *c) { if (!vfg_on) return; vfg_told++; vfg_pending = 0; size_t n = vf_u64("left"); vf_assume(n <= vfg_segs); vfg_segs = n; }
static ssize_t c13_recv(int, void *p, size_t n) {
    vfg_recvs++; vf_assert(vfg_recvs == 1, "a batch is read once"); vf_assert(vfg_segs < vfg_max, "nothing is read while the buffer is at its limit"); vf_assert(n == vfg_chunk, "reads a chunk");
    vfg_res = vf_choice("res", 4); if (vfg_res == 0) { errno = EWOULDBLOCK; return -1; } if (vfg_res == 1) { errno = ECONNRESET; return -1; } if (vfg_res == 2) return 0;
    vfg_k = vf_u64("k"); vf_assume((vfg_k >= 1) & (vfg_k <= n)); vfg_data = vf_bytes("in", vfg_k); memcpy(p, vfg_data, vfg_k); return (ssize_t)vfg_k;
}
extern "C" void c13_hook(int phase) {
    if (phase == 1) { vfg_recvs = vfg_pushes = vfg_told = 0; vfg_res = -1; vfg_segs = vf_u64("segs"); vfg_pending = vf_bool("pending"); if (vfg_c) vfg_c->ready_recv = vf_bool("ready_recv'"); vf_assume(vfg_segs < (1ul << 40)); }
    else if (phase == 2 && vfg_on) { vf_inv(vfg_recvs == 1 && vfg_res == 3 && vfg_pushes == 1, "reading goes on only after what was read was appended"); vf_cover("iteration"); }
}
static void one(bool tls) {
    Fx f(tls); if (vf_is_native()) return; vfg_on = true; vfg_c = f.c.get(); vfg_recv_hook = c13_recv;
    vfg_chunk = vf_u64("chunk"); vf_assume((vfg_chunk >= 1) & (vfg_chunk <= 1u << 20)); vfg_max = vf_u64("max"); vf_assume((vfg_max >= 1) & (vfg_max < (1ul << 40)));
    f.c->recv_chunk_size = vfg_chunk; f.c->max_recv_buff_size = vfg_max; bool rs = vf_bool("ready_send"), rr = vf_bool("ready_recv"); f.c->ready_send = rs; f.c->ready_recv = rr;
    f.c->ev_socket.del(); f.c->ev_socket.add(FdEvent::READ | (rs ? 0 : FdEvent::WRITE));
    f.c->recv_data_func(f.c, f.fd, FdEvent::READ);
    if (vfg_res == -1 && !vfg_told && f.c->recv_buffer.buffer.size()) vf_hook_missing("receive buffer");
    int ev = fx_events(f.fd); bool dead = vfg_res == 1 || vfg_res == 2;
    vf_assert(!vfg_pending, "the upper layer is told about everything received"); if (vfg_res == 3) vf_assert(vfg_pushes == 1, "what was received is appended");
    if (!dead) { bool sus = f.c->ready_recv; vf_assert(ev == ((sus ? 0 : UV_READABLE) | (rs ? 0 : UV_WRITABLE)), "the socket is watched for input unless reading is suspended, write interest is kept"); vf_assert(!sus || vfg_segs >= vfg_max, "reading is suspended only at the limit"); if (sus) vf_cover("limit"); else vf_cover("read"); }
    vfg_recv_hook = nullptr; ns_run(60); vf_assert(f.c->is_terminated() == dead, "end of stream or a hard error ends the connection, nothing else does"); if (dead) vf_cover("ended");
}
extern "C" void c13_plain() { one(false); }
extern "C" void c13_tls() { one(true); }
// ---- histories over the real buffer with an upper layer that takes the bytes, all of them or none until asked
struct Up: public Net { using Net::Net; uint8_t got[64]; int n = 0, hold = 0, calls = 0;
    void on_read(const ConnPool::conn_t &c) override { calls++; if (hold) return; auto &b = c->recv_buffer; bytearray_t x = b.pop(b.size()); memcpy(got + n, x.data(), x.size()); n += (int)x.size();
        if (c->ready_recv && b.len() < c->max_recv_buff_size) { c->ev_socket.del(); c->ev_socket.add(FdEvent::READ | (c->ready_send ? 0 : FdEvent::WRITE)); c->recv_data_func(c, c->fd, FdEvent::READ); } } };
static void hist(bool tls) {
    EventContext ec; Net::Config cf; int chunk = 1 + vf_choice("chunk", 3), max = 1 + vf_choice("max", 2); cf.recv_chunk_size(chunk).max_recv_buff_size(max); fx_cfg(cf, tls); Up *n = new Up(ec, cf); fx_handlers(n); n->start(); ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); });
    int j = ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); ns_run(); if (!vfg_upconn) vf_kill(); ConnPool::conn_t c = *vfg_upconn;
    uint8_t *d = vf_bytes("data", 6); if (tls) vfg_tlsrec = vf_choice("tlsrec", 2) ? 4 : 0; int cut = vf_choice("cut", 3); bool eof = vf_choice("eof", 2); n->hold = vf_choice("hold", 2);
    vfg_s[j].frag = vf_choice("frag", 2) ? 2 : 0;
    ns_feed(j, d, cut); ns_run(60); ns_feed(j, d + cut, 6 - cut); if (eof && !n->hold) vfg_s[j].eof = 1; ns_run(60);
    if (n->hold) { vf_assert(c->recv_buffer.len() <= (size_t)max, "no more than the limit is buffered"); n->hold = 0; n->on_read(c); if (eof) vfg_s[j].eof = 1; ns_run(60); }
    vf_assert(n->n == 6, "every byte received is passed on"); if (n->n == 6) vf_assert_mem_eq(n->got, d, 6, "bytes are passed on in order, each once");
    vf_assert(c->is_terminated() == eof, "end of stream ends the connection, would-block does not"); vf_cover("hist");
    if (!eof) vf_assert(fx_events(NS_FD0 + j) & UV_READABLE, "reading goes on");
}
extern "C" void c13_hist() { hist(false); }
extern "C" void c13_hist_tls() { hist(true); }
extern "C" void c13_error_event() {
    Fx f(vf_choice("tls", 2)); int before = vfg_s[f.j].recvs; f.c->recv_data_func(f.c, f.fd, FdEvent::READ | FdEvent::ERROR); vf_assert(vfg_s[f.j].recvs == before, "nothing is read from a failed socket"); ns_run(60); vf_assert(f.c->is_terminated(), "a socket error ends the connection"); vf_cover("error event");
}
// the message layer suspends at the limit while the delivery queue is full, and resumes: nothing is lost
struct M { static const uint8_t opcode = 0x5; DataStream serialized; uint32_t v; M(uint32_t x) { serialized << x; } M(DataStream &&s) { s >> v; } };
const uint8_t M::opcode;
static uint32_t vfg_vals[8]; static int vfg_nvals;
extern "C" void c13_resume() {
    Net::Config cf; bool tls = vf_choice("tls", 2); size_t lim = 1 + vf_choice("limit", 2); cf.recv_chunk_size(8).max_recv_buff_size(lim); vfg_tlsrec = 64; Fx f(tls, cf); f.n->reg_handler([](M &&m, const Net::conn_t &) { if (vfg_nvals < 8) vfg_vals[vfg_nvals++] = m.v; });
    bytearray_t all; for (uint32_t i = 0; i < 3; i++) { bytearray_t b = NMsg(M(100 + i), 0).serialize(); all.insert(all.end(), b.begin(), b.end()); }
    int full = vf_choice("full", 2); if (full) vfg_qcap = 0; ns_feed(f.j, all.data(), (int)all.size()); vfg_steps = 0;
    ns_run(100); if (full) { vf_assert(vfg_nvals == 0, "nothing delivered while the queue is full"); vf_assert(f.c->recv_buffer.len() <= lim, "no more than the limit is buffered"); vfg_qcap = (size_t)-1; }
    for (int i = 0; i < 12; i++) { UvRec *t = ns_earliest(); if (!t) break; ns_timer(t); ns_run(100); }
    vf_assert(vfg_nvals == 3, "every message arrives once the queue has room"); for (int i = 0; i < 3 && i < vfg_nvals; i++) vf_assert(vfg_vals[i] == 100u + i, "messages arrive in order"); vf_assert(!f.c->is_terminated(), "connection stays up"); vf_cover("resume");
}
// reading is suspended while output is pending: the output still goes out, and reading resumes
extern "C" void c13_mixed() {
    bool tls = vf_choice("tls", 2); Net::Config cf; cf.recv_chunk_size(8).max_recv_buff_size(2); Fx f(tls, cf); vfg_qcap = 0; vfg_s[f.j].wcap = vf_choice("wcap", 2); int nb = vfg_s[f.j].nout;
    f.n->reg_handler([](M &&m, const Net::conn_t &) { if (vfg_nvals < 8) vfg_vals[vfg_nvals++] = m.v; });
    uint8_t *d = vf_bytes("out", 3); f.c->write(bytearray_t(d, d + 3)); ns_run(100);
    bytearray_t all; for (uint32_t i = 0; i < 3; i++) { bytearray_t b = NMsg(M(100 + i), 0).serialize(); all.insert(all.end(), b.begin(), b.end()); }
    ns_feed(f.j, all.data(), (int)all.size()); ns_run(100); bool late = vf_choice("late", 2); if (!late) { vfg_s[f.j].wcap = -1; ns_run(100); }
    if (!late) vf_assert(vfg_s[f.j].nout == nb + 3, "pending output goes out while reading is suspended");
    vfg_qcap = (size_t)-1; for (int i = 0; i < 12; i++) { UvRec *t = ns_earliest(); if (!t) break; ns_timer(t); ns_run(100); }
    vfg_s[f.j].wcap = -1; ns_run(100); vf_assert(vfg_s[f.j].nout == nb + 3, "pending output goes out after reading resumed"); if (vfg_s[f.j].nout == nb + 3) vf_assert_mem_eq(vfg_s[f.j].out + nb, d, 3, "output intact");
    vf_assert(vfg_nvals == 3, "every message arrives once the queue has room"); vf_assert(!f.c->is_terminated(), "connection stays up"); vf_cover("mixed");
}
