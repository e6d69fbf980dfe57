// Assumed contracts of everything below the network layer, used by the verifier and by native replay alike: libuv (uv_model.h),
// eventfd (efd_model.h), stream sockets, OpenSSL's SSL object, random bytes.  Threads are loops whose ready events are fired by ns_run.
#ifndef NETSIM_H
#define NETSIM_H
#ifndef UVM_MAX
#define UVM_MAX 160
#endif
#define EFDN_ 24
#define EFD_NO_RW
#include <vf.h>
#include "uv_model.h"
#include "efd_model.h"
#include "sha_model.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <openssl/ssl.h>
#include <openssl/rand.h>
enum { NS_FD0 = 900, NS_MAX = 16, NS_BUF = 768 };
struct NsSock {
    int open, nonblock, listening, conn /*0 none 1 in progress 2 established 3 failed*/, err, peer /* index of the other end, -1 external */, eof, closes, wcap /* bytes the transport still takes, -1 any */, frag /* most bytes per recv, 0 any */, naccepted;
    uint32_t rip, lport_; uint16_t rport, port; int pend[4]; int npend;
    uint8_t in[NS_BUF]; int ri, wi; uint8_t out[NS_BUF]; int nout; int sends, recvs;
};
static NsSock vfg_s[NS_MAX]; static int vfg_ns; static int vfg_fail_at, vfg_sysn, vfg_ext_accept = 1; static uint16_t vfg_ephem = 40000;
static int vfg_in_ssl, vfg_app_before /* raw socket I/O on a TLS connection */; static ssize_t (*vfg_send_hook)(int, const void *, size_t); static ssize_t (*vfg_recv_hook)(int, void *, size_t);
#ifdef VF_VERIFY
extern "C" char *strerror(int) throw() { return (char *)"system error"; }
extern "C" int vsnprintf(char *b, size_t n, const char *, va_list) throw() { if (n > 1) { b[0] = 63; b[1] = 0; } else if (n) b[0] = 0; return 1; }  // text of error messages does not matter here
#endif
static bool ns_is(int fd) { return fd >= NS_FD0 && fd < NS_FD0 + NS_MAX; }
static NsSock *ns_use(int fd) { vf_assert(ns_is(fd) && fd - NS_FD0 < vfg_ns, "descriptor is a socket"); if (!ns_is(fd)) vf_kill(); NsSock *s = &vfg_s[fd - NS_FD0]; vf_assert(s->open, "descriptor not used after it was closed"); if (!s->open) vf_kill(); return s; }
static int ns_new() { if (vfg_ns >= NS_MAX) vf_kill(); NsSock &s = vfg_s[vfg_ns]; s.open = 1; s.peer = -1; s.wcap = -1; return vfg_ns++; }
static bool ns_fails() { return ++vfg_sysn == vfg_fail_at; }      // the vfg_fail_at-th set-up system call fails
extern "C" {
int socket(int, int, int) throw() { if (ns_fails()) { errno = EMFILE; return -1; } return NS_FD0 + ns_new(); }
int setsockopt(int fd, int, int, const void *, socklen_t) throw() { ns_use(fd); if (ns_fails()) { errno = ENOPROTOOPT; return -1; } return 0; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap);
    if (!ns_is(fd)) { if (vf_is_native()) return syscall(SYS_fcntl, fd, cmd, a); return 0; }
    NsSock *s = ns_use(fd); if (ns_fails()) { errno = EBADF; return -1; } if (cmd == F_SETFL) s->nonblock = (a & O_NONBLOCK) != 0; if (cmd == F_GETFL) return s->nonblock ? O_NONBLOCK : 0; return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t) throw() { NsSock *s = ns_use(fd); const struct sockaddr_in *i = (const struct sockaddr_in *)a; if (ns_fails()) { errno = EADDRINUSE; return -1; }
    for (int k = 0; k < vfg_ns; k++) if (vfg_s[k].open && vfg_s[k].listening && vfg_s[k].port == i->sin_port) { errno = EADDRINUSE; return -1; } s->port = i->sin_port; return 0; }
int listen(int fd, int) throw() { NsSock *s = ns_use(fd); if (ns_fails()) { errno = EADDRINUSE; return -1; } s->listening = 1; return 0; }
int connect(int fd, const struct sockaddr *a, socklen_t) { NsSock *s = ns_use(fd); const struct sockaddr_in *i = (const struct sockaddr_in *)a; int me = fd - NS_FD0;
    vf_assert(s->nonblock, "sockets are non-blocking"); s->rip = i->sin_addr.s_addr; s->rport = i->sin_port; s->conn = 1; if (ns_fails()) { s->conn = 3; errno = ENETUNREACH; return -1; }
    for (int k = 0; k < vfg_ns; k++) if (vfg_s[k].open && vfg_s[k].listening && vfg_s[k].port == i->sin_port) {
        int j = ns_new(); NsSock &o = vfg_s[j]; o.conn = 2; o.peer = me; s->peer = j; o.rip = htonl(INADDR_LOOPBACK); o.rport = htons(vfg_ephem++); s->conn = 2; if (vfg_s[k].npend >= 4) vf_kill(); vfg_s[k].pend[vfg_s[k].npend++] = j; errno = EINPROGRESS; return -1; }
    s->conn = vfg_ext_accept == 1 ? 2 : vfg_ext_accept == 0 ? 3 : 1; s->err = ECONNREFUSED; errno = EINPROGRESS; return -1; }
int accept(int fd, struct sockaddr *a, socklen_t *l) { NsSock *s = ns_use(fd); if (ns_fails()) { errno = ECONNABORTED; return -1; } if (!s->npend) { errno = EAGAIN; return -1; }
    int j = s->pend[0]; for (int k = 1; k < s->npend; k++) s->pend[k - 1] = s->pend[k]; s->npend--; s->naccepted++; struct sockaddr_in r; memset(&r, 0, sizeof r); r.sin_family = AF_INET; r.sin_addr.s_addr = vfg_s[j].rip; r.sin_port = vfg_s[j].rport; memcpy(a, &r, sizeof r); *l = sizeof r; return NS_FD0 + j; }
ssize_t send(int fd, const void *p, size_t n, int) { NsSock *s = ns_use(fd);
    if (s->conn == 1) { errno = EAGAIN; return -1; } if (s->conn != 2) { errno = s->err ? s->err : ENOTCONN; return -1; } if (n == 0) return 0; if (!vfg_in_ssl) vfg_app_before++;
    s->sends++; if (vfg_send_hook) return vfg_send_hook(fd, p, n); vf_assert(s->nonblock, "sockets are non-blocking");
    if (s->peer >= 0 && !vfg_s[s->peer].open) { errno = EPIPE; return -1; }
    int k = (int)n; if (s->wcap >= 0 && k > s->wcap) k = s->wcap; if (k == 0) { errno = EAGAIN; return -1; } if (s->wcap >= 0) s->wcap -= k;
    NsSock *d = s->peer >= 0 ? &vfg_s[s->peer] : nullptr; if (d) { if (d->wi + k > NS_BUF) vf_kill(); memcpy(d->in + d->wi, p, k); d->wi += k; }
    else { if (s->nout + k > NS_BUF) vf_kill(); memcpy(s->out + s->nout, p, k); s->nout += k; }
    return k; }
ssize_t recv(int fd, void *p, size_t n, int) { NsSock *s = ns_use(fd); s->recvs++; if (!vfg_in_ssl) vfg_app_before++; if (vfg_recv_hook) return vfg_recv_hook(fd, p, n); vf_assert(s->nonblock, "sockets are non-blocking");
    int k = s->wi - s->ri; if (k == 0) { if (s->eof || (s->peer >= 0 && !vfg_s[s->peer].open)) return 0; errno = EAGAIN; return -1; }
    if ((size_t)k > n) k = (int)n; if (s->frag && k > s->frag) k = s->frag; memcpy(p, s->in + s->ri, k); s->ri += k; return k; }
ssize_t read(int fd, void *p, size_t n) { if (is_efd(fd)) return efd_read(fd, p, n); if (vf_is_native()) return syscall(SYS_read, fd, p, n); vf_kill(); return -1; }
ssize_t write(int fd, const void *p, size_t n) { if (is_efd(fd)) return efd_write(fd, p, n); if (vf_is_native()) return syscall(SYS_write, fd, p, n); return n; }
int close(int fd) {
    if (is_efd(fd)) { vf_assert(vfg_evopen[fd - EFD0], "notification descriptor closed once"); vfg_evopen[fd - EFD0] = 0; return 0; }
    if (ns_is(fd)) { vf_assert(fd - NS_FD0 < vfg_ns && vfg_s[fd - NS_FD0].open, "descriptor closed exactly once"); vfg_s[fd - NS_FD0].open = 0; vfg_s[fd - NS_FD0].closes++; 
        for (int i = 0; i < vfg_nuv; i++) vf_assert(!(vfg_uv[i].kind == UVM_POLL && vfg_uv[i].fd == fd && !vfg_uv[i].closing), "a descriptor is closed only after its events were released"); return 0; }
    if (vf_is_native()) return syscall(SYS_close, fd); return 0; }
}
static uint16_t vfg_rnd[8]; static int vfg_nrnd, vfg_rndfail;
extern "C" int RAND_bytes(unsigned char *b, int n) { if (vfg_rndfail) return 0; uint16_t v = vfg_nrnd < 8 ? vfg_rnd[vfg_nrnd] : 77; vfg_nrnd++; memset(b, 0, n); memcpy(b, &v, n < 2 ? n : 2); return 1; }
// ---- OpenSSL: an SSL object over a model socket.  Obligations: no application data before the handshake is complete, a write that would
// block is retried with the same buffer, no use after free.
struct ssl_ctx_st { int freed, cert, key; SSL_verify_cb vcb; int mode; };
struct ssl_st { int fd, accept, hs, hsn, lasterr, freed, shut, moving; const void *rp; size_t rn; uint8_t rec[64]; int rb, re; };
struct x509_st { int id, refs; };
struct evp_pkey_st { int id, refs; };
enum { NS_HS_DONE = 1, NS_HS_READ = 2, NS_HS_WRITE = 3, NS_HS_FAIL = 4 };
static int vfg_hs[8]; static ssl_st *vfg_ssl[8]; static int vfg_nssl; static x509_st vfg_peercert = {7, 1}; static int vfg_nocert, vfg_keymatch = 1, vfg_shutdowns, vfg_app_reads, vfg_app_writes, vfg_hs_err = SSL_ERROR_SSL, vfg_tlsrec /* record size: bytes move from the socket into the TLS object a record at a time */;
static void (*vfg_read_hook)();
static void ns_ssl(const SSL *s) { vf_assert(s && !s->freed, "TLS object not used after it was released"); }
extern "C" {
const SSL_METHOD *TLS_method() { return nullptr; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *) { SSL_CTX *c = new SSL_CTX; memset(c, 0, sizeof *c); return c; }
void SSL_CTX_free(SSL_CTX *c) { delete c; }
int SSL_CTX_use_certificate(SSL_CTX *c, X509 *x) { c->cert = x->id; return 1; }
int SSL_CTX_use_PrivateKey(SSL_CTX *c, EVP_PKEY *k) { c->key = k->id; return 1; }
int SSL_CTX_use_certificate_file(SSL_CTX *, const char *, int) { return 0; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX *, const char *, int) { return 0; }
void SSL_CTX_set_verify(SSL_CTX *c, int m, SSL_verify_cb cb) { c->mode = m; c->vcb = cb; }
int SSL_CTX_check_private_key(const SSL_CTX *c) { return vfg_keymatch && c->cert && c->cert == c->key; }
SSL *SSL_new(SSL_CTX *c) { SSL *s = new SSL; memset(s, 0, sizeof *s); s->fd = -1; if (vfg_nssl < 8) vfg_ssl[vfg_nssl++] = s; return s; }
void SSL_free(SSL *s) { ns_ssl(s); s->freed = 1; if (vf_is_native() == 0) { for (int i = 0; i < vfg_nssl; i++) if (vfg_ssl[i] == s) vfg_ssl[i] = nullptr; delete s; } }
int SSL_set_fd(SSL *s, int fd) { s->fd = fd; return 1; }
void SSL_set_accept_state(SSL *s) { s->accept = 1; }
void SSL_set_connect_state(SSL *s) { s->accept = 2; }
long SSL_ctrl(SSL *s, int, long m, void *) { if (m & SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER) s->moving = 1; return 1; }
int SSL_do_handshake(SSL *s) { ns_ssl(s); vf_assert(s->fd >= 0 && s->accept, "TLS object set up before the handshake"); int r = s->hsn < 8 ? vfg_hs[s->hsn] : 0; s->hsn++; if (!r) r = NS_HS_DONE;
    switch (r) { case NS_HS_DONE: s->hs = 1; return 1; case NS_HS_READ: s->lasterr = SSL_ERROR_WANT_READ; return -1; case NS_HS_WRITE: s->lasterr = SSL_ERROR_WANT_WRITE; return -1; default: s->lasterr = vfg_hs_err; return vfg_hs_err == SSL_ERROR_ZERO_RETURN ? 0 : -1; } }
int SSL_get_error(const SSL *s, int r) { ns_ssl(s); return r > 0 ? SSL_ERROR_NONE : s->lasterr; }
int SSL_write(SSL *s, const void *p, int n) { ns_ssl(s); vf_assert(s->hs, "no application data is sent before the handshake completed"); vfg_app_writes++;
    if (s->rn && !((p == s->rp || s->moving) && (size_t)n >= s->rn)) { s->lasterr = SSL_ERROR_SSL; s->rn = 0; return -1; }   // bad write retry
    s->rn = 0; errno = 0; vfg_in_ssl = 1; int r = (int)send(s->fd, p, n, 0); vfg_in_ssl = 0; if (r < 0) { s->lasterr = errno == EAGAIN ? SSL_ERROR_WANT_WRITE : SSL_ERROR_SYSCALL; if (errno == EAGAIN) { s->rp = p; s->rn = n; } } else if (r == 0) s->lasterr = SSL_ERROR_ZERO_RETURN; return r; }
int SSL_read(SSL *s, void *p, int n) { ns_ssl(s); vf_assert(s->hs, "no application data is read before the handshake completed"); vfg_app_reads++; if (vfg_read_hook) vfg_read_hook(); vfg_in_ssl = 1; struct In { ~In() { vfg_in_ssl = 0; } } in; errno = 0; int r;
    if (vfg_tlsrec && !vfg_recv_hook) { if (s->rb == s->re) { r = (int)recv(s->fd, s->rec, vfg_tlsrec, 0); if (r > 0) { s->rb = 0; s->re = r; } } else r = 1; if (r > 0) { r = s->re - s->rb; if (r > n) r = n; memcpy(p, s->rec + s->rb, r); s->rb += r; } }
    else r = (int)recv(s->fd, p, n, 0);
     if (r < 0) s->lasterr = errno == EAGAIN ? SSL_ERROR_WANT_READ : SSL_ERROR_SYSCALL; else if (r == 0) s->lasterr = SSL_ERROR_ZERO_RETURN; return r; }
int SSL_shutdown(SSL *s) { ns_ssl(s); s->shut++; vfg_shutdowns++; return 1; }
X509 *SSL_get1_peer_certificate(const SSL *s) { ns_ssl(s); if (vfg_nocert || !s->hs) return nullptr; vfg_peercert.refs++; return &vfg_peercert; }
void X509_free(X509 *x) { vf_assert(x->refs > 0, "certificate released once"); x->refs--; }
void EVP_PKEY_free(EVP_PKEY *k) { vf_assert(k->refs > 0, "key released once"); k->refs--; }
int i2d_X509(const X509 *x, unsigned char **p) { if (*p) vf_kill(); unsigned char *b = (unsigned char *)malloc(4); b[0] = 0x30; b[1] = 2; b[2] = x->id; b[3] = x->id >> 8; *p = b; return 4; }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
void CRYPTO_free(void *p, const char *, int) { free(p); }
}
// ---- loops
static int vfg_nloops; static uv_loop_t *vfg_user;
static short ns_ready(const UvRec *r) {
    if (r->kind != UVM_POLL || !r->active || r->closing || r->freed) return 0; int ev = 0;
    if (is_efd(r->fd)) ev = efd_ready(r->fd) ? UV_READABLE : 0;
    else if (ns_is(r->fd)) { NsSock *s = &vfg_s[r->fd - NS_FD0];
        if (s->listening) { if (s->npend) ev |= UV_READABLE; }
        else { if (s->wi > s->ri || s->eof || (s->peer >= 0 && !vfg_s[s->peer].open)) ev |= UV_READABLE; if ((s->conn == 2 && s->wcap != 0) || s->conn == 3) ev |= UV_WRITABLE; } }
    return ev & r->events;
}
static int vfg_steps, vfg_fair, vfg_rr /* fair: take the loops' events in turn */;
static bool ns_step_loop(uv_loop_t *l, int kinds = 3 /* 1 eventfd, 2 sockets */) {  // fire the first ready event of a loop
    int n = vfg_nuv;
    for (int k = 0; k < n; k++) { int i = vfg_fair ? (vfg_rr + k) % n : k; UvRec *r = &vfg_uv[i]; if ((l && r->loop != l) || r->loop->stop_flag) continue; if (r->kind != UVM_POLL || !r->active || !(kinds & (is_efd(r->fd) ? 1 : 2))) continue; int ev = ns_ready(r); if (ev) { vfg_steps++; vfg_rr = i + 1; uvm_fire_poll(r, 0, ev); return true; } }
    return false;
}
static bool ns_run(int max = 400) { int k = 0; while (k < max && ns_step_loop(nullptr)) k++; vf_assert(k < max, "the event loops become idle"); if (k >= max) vf_kill(); return k > 0; }
static bool ns_timer(UvRec *r) { if (!r || !r->active || r->closing) return false; uvm_fire_timer(r); return true; }
static UvRec *ns_earliest() { UvRec *b = nullptr; for (int i = 0; i < vfg_nuv; i++) { UvRec *r = &vfg_uv[i]; if (r->kind == UVM_TIMER && r->active && !r->closing && (!b || r->timeout < b->timeout)) b = r; } return b; }
// an external client connects to the listening port; returns the socket index the code will accept
static int ns_ext_connect(uint16_t port, uint32_t ip, uint16_t rport) {
    for (int k = 0; k < vfg_ns; k++) if (vfg_s[k].open && vfg_s[k].listening && vfg_s[k].port == port) { int j = ns_new(); NsSock &o = vfg_s[j]; o.conn = 2; o.rip = ip; o.rport = rport; vfg_s[k].pend[vfg_s[k].npend++] = j; return j; }
    return -1;
}
// clients still in a listening backlog vanish with it
static void ns_drop_pending() { for (int k = 0; k < vfg_ns; k++) { for (int i = 0; i < vfg_s[k].npend; i++) { vfg_s[vfg_s[k].pend[i]].open = 0; vfg_s[vfg_s[k].pend[i]].closes = 1; } vfg_s[k].npend = 0; } }
static void ns_feed(int j, const void *p, int n) { NsSock &s = vfg_s[j]; if (s.wi + n > NS_BUF) vf_kill(); memcpy(s.in + s.wi, p, n); s.wi += n; }
// ---- blocking calls of the user thread
static int vfg_waits, vfg_joins;
#ifdef VF_VERIFY
extern "C" void vf_thread_join() { ns_run(); vfg_joins++; vf_assert(vfg_loop_stop >= vfg_joins, "a thread is joined only after its loop was told to stop"); if (vfg_loop_stop < vfg_joins) vf_kill(); }
extern "C" void vf_cv_wait(void *) { bool p = ns_run(); vf_assert(p || vfg_waits == 0, "a blocking request is answered"); if (!p && vfg_waits) vf_kill(); vfg_waits++; }
#else
#include <thread>
#include <exception>
#include <atomic>
#endif
template<typename F> static void ns_blocking(F &&f) {
    vfg_waits = 0; if (!vf_is_native()) { f(); return; }
#ifndef VF_VERIFY
    std::atomic<bool> done{false}; std::exception_ptr ex; std::thread t([&]() { try { f(); } catch (...) { ex = std::current_exception(); } done = true; });
    for (int i = 0; i < 3000 && !done; i++) { ns_run(); usleep(1000); }
    vf_assert(done, "a blocking request is answered"); t.join(); if (ex) std::rethrow_exception(ex);
#endif
}
#endif
