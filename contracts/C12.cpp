// Contracts for the sending half of a connection (src/conn.cpp _send_data, _send_data_tls; conn.h enable_send_buffer): C12.
#include "netfix.h"
// ---- one call of the send function from an arbitrary state: the write buffer is replaced by its contract (hands out the pending bytes in
// order, takes an unsent rest back to the front), the transport takes any part of what it is given.
static bytearray_t *vfg_seg; static size_t vfg_len, vfg_r; static int vfg_pops, vfg_sends_, vfg_rew, vfg_err, vfg_empty, vfg_on;
extern "C" void c12_move_pop(bytearray_t *ret, void *) {
    if (!vfg_on) { new (ret) bytearray_t(); return; }
    vf_assert(vfg_pops == 0 || vfg_empty, "bytes are taken in order, a segment at a time"); vfg_pops++;
    if (vf_bool("empty")) { vfg_empty = 1; new (ret) bytearray_t(); return; }
    size_t n = vf_u64("seglen"); vf_assume((n >= 1) & (n <= 1u << 20)); uint8_t *b = vf_bytes("seg", n); vfg_len = n;
    vfg_seg = new bytearray_t(b, b + n); new (ret) bytearray_t(b, b + n);
}
extern "C" bool c12_rewind(void *, bytearray_t *d) {
    vfg_rew++; vf_assert(vfg_rew == 1, "the unsent rest is put back once"); size_t r = vfg_err ? 0 : vfg_r;
    vf_assert(d->size() == vfg_len - r, "exactly the unsent rest is put back"); if (d->size() != vfg_len - r) vf_kill();
    vf_assert_mem_eq(d->data(), vfg_seg->data() + r, vfg_len - r, "exactly the unsent rest is put back"); return true;
}
static ssize_t c12_send(int, const void *p, size_t n) {
    vfg_sends_++; vf_assert(vfg_sends_ == 1 && vfg_pops == 1 && !vfg_empty, "each segment is handed to the transport once");
    vf_assert(n == vfg_len, "the whole segment is offered"); if (n != vfg_len) vf_kill(); vf_assert_mem_eq(p, vfg_seg->data(), n, "the bytes written are the bytes offered");
    vfg_err = vf_choice("err", 3); if (vfg_err) { errno = vfg_err == 1 ? EWOULDBLOCK : ECONNRESET; return -1; }
    vfg_r = vf_u64("sent"); vf_assume(vfg_r <= n); return (ssize_t)vfg_r;
}
extern "C" void c12_hook(int phase) {
    if (phase == 1) { vfg_pops = vfg_sends_ = vfg_rew = vfg_err = vfg_empty = 0; vfg_r = 0; }
    else if (phase == 2) { vf_inv(vfg_pops == 1 && vfg_sends_ == 1 && vfg_rew == 0, "an iteration takes one segment and offers it once"); vf_inv(!vfg_err && vfg_r == vfg_len, "sending goes on only after a complete write"); vf_cover("iteration"); }
}
static void one(bool tls) {
    Fx f(tls); if (vf_is_native()) return; vfg_on = 1; vfg_send_hook = c12_send;
    bool rr = vf_bool("ready_recv"), rs = vf_bool("ready_send"); f.c->ready_recv = rr; f.c->ready_send = rs;
    f.c->ev_socket.del(); f.c->ev_socket.add((rr ? 0 : FdEvent::READ) | FdEvent::WRITE);    // as armed by the callers
    f.c->send_data_func(f.c, f.fd, FdEvent::WRITE);
    if (vfg_pops == 0) vf_hook_missing("write buffer");
    int ev = fx_events(f.fd);
    if (vfg_empty) { vf_assert(vfg_rew == 0 && f.c->ready_send, "with nothing left the connection is marked ready to send"); vf_assert(ev == (rr ? 0 : UV_READABLE), "with nothing left write interest is dropped, read interest kept"); vf_cover("drained"); }
    else { vf_assert(vfg_rew == 1 && vfg_sends_ == 1, "the unsent rest is put back"); vf_assert(vfg_err || vfg_r < vfg_len, "a complete write goes on");
        if (vfg_err < 2) { vf_assert(!f.c->ready_send && (ev & UV_WRITABLE), "after a partial write the socket is watched for writability"); vf_cover("partial"); } }
    vfg_send_hook = nullptr; vfg_s[f.j].wcap = 0; ns_run();
    vf_assert(f.c->is_terminated() == (vfg_err == 2), "only a hard transport error ends the connection"); if (vfg_err == 2) vf_cover("error");
}
extern "C" void c12_plain() { one(false); }
extern "C" void c12_tls() { one(true); }
// ---- histories: writes of 1..3 segments, a transport taking limited amounts, resumed by writability; over the real write buffer
static int vfg_script[4], vfg_si; static uint8_t vfg_exp[32]; static int vfg_nexp;
static ssize_t script(int fd, const void *p, size_t n) {
    int c = vfg_si < 3 ? vfg_script[vfg_si] : 0; vfg_si++; NsSock &s = vfg_s[fd - NS_FD0]; size_t k = n;
    switch (c) { case 1: k = 1; break; case 2: errno = EAGAIN; return -1; case 3: return 0; case 4: errno = EPIPE; return -1; case 5: k = n > 1 ? n - 1 : 1; break; }
    if (k > n) k = n; memcpy(s.out + s.nout, p, k); s.nout += (int)k; return (ssize_t)k;
}
static void wr(Fx &f, int len) { uint8_t *b = vf_bytes("data", len); memcpy(vfg_exp + vfg_nexp, b, len); vfg_nexp += len; bool ok = f.c->write(bytearray_t(b, b + len)); vf_assert(ok, "an unlimited buffer takes every write"); }
static void hist(bool tls, bool two) {
    Fx f(tls); int hard = 0; for (int i = 0; i < (two ? 2 : 3); i++) { vfg_script[i] = vf_choice("result", 6); }
    vfg_send_hook = script;
    wr(f, 3); bool late = vf_choice("late", 2); if (late) ns_run(60); wr(f, 2); ns_run(60);
    for (int i = 0; i < 3 && i < vfg_si; i++) if (vfg_script[i] == 4 && (!two || i < 2)) hard = 1;
    NsSock &s = vfg_s[f.j]; bool pre = s.nout <= vfg_nexp; if (!pre) vf_assert(false, "no byte is sent twice"); if (!pre) vf_kill();
    vf_assert_mem_eq(s.out, vfg_exp, s.nout, "bytes reach the transport in write order, each once");
    vf_assert(f.c->is_terminated() == (hard != 0), "only a hard transport error ends the connection");
    if (!hard) { vf_assert(s.nout == vfg_nexp, "every byte written is sent"); vf_assert(fx_events(f.fd) == UV_READABLE, "when all is sent write interest is dropped"); wr(f, 1); ns_run(60); vf_assert(s.nout == vfg_nexp, "a later write re-arms sending"); if (s.nout == vfg_nexp) vf_assert(s.out[s.nout - 1] == vfg_exp[vfg_nexp - 1], "a later write follows"); vf_cover("sent"); }
    else vf_cover("broken");
}
extern "C" void c12_hist() { hist(false, vf_tier() == 0); }
extern "C" void c12_hist_tls() { hist(true, vf_tier() == 0); }
// an error condition reported by the event loop ends the connection and sends nothing
extern "C" void c12_error_event() {
    Fx f(vf_choice("tls", 2)); int before = vfg_s[f.j].sends; f.c->write(bytearray_t(3)); UvRec *r = fx_poll(f.fd);
    f.c->send_data_func(f.c, f.fd, FdEvent::WRITE | FdEvent::ERROR); vf_assert(vfg_s[f.j].sends == before, "nothing is sent on a failed socket"); ns_run(60); vf_assert(f.c->is_terminated(), "a socket error ends the connection"); vf_cover("error event");
}
// a bounded send buffer refuses what does not fit and keeps order
extern "C" void c12_bounded() {
    Net::Config cf; cf.max_send_buff_size(1); Fx f(vf_choice("tls", 2), cf); vfg_s[f.j].wcap = 0; vfg_qcap = 2; bool a = f.c->write(bytearray_t{1, 2}), b = f.c->write(bytearray_t{3}), c = f.c->write(bytearray_t{4});
    vf_assert(a && b && !c, "a full send buffer refuses further writes"); vfg_s[f.j].wcap = -1; ns_run(60);
    uint8_t w[3] = {1, 2, 3}; vf_assert(vfg_s[f.j].nout == 3 && !memcmp(vfg_s[f.j].out, w, 3), "refused bytes are not sent, accepted ones are, in order"); vf_cover("bounded");
}
// pending output survives a suspension and resumption of reading
extern "C" void c12_mixed() {
    Net::Config cf; cf.recv_chunk_size(4).max_recv_buff_size(1); bool tls = vf_choice("tls", 2); int part = vf_choice("part", 3); Fx f(tls, cf); NsSock &s = vfg_s[f.j];
    s.wcap = part; wr(f, 3); ns_run(60); uint8_t g[12] = {0}; ns_feed(f.j, g, vf_choice("early", 2) ? 12 : 8); ns_run(60); if (vf_choice("more", 2)) { wr(f, 2); ns_run(60); } s.wcap = -1; ns_run(60);
    vf_assert(s.nout == vfg_nexp, "pending output is sent when the socket becomes writable"); if (s.nout != vfg_nexp) vf_kill(); vf_assert_mem_eq(s.out, vfg_exp, s.nout, "bytes reach the transport in write order, each once"); vf_cover("mixed");
}
