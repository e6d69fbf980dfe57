import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from seed import make
EV='include/salticidae/event.h'; CH='include/salticidae/conn.h'; CC='src/conn.cpp'; NH='include/salticidae/network.h'; QH='include/salticidae/queue.h'; RH='include/salticidae/ref.h'; BH='include/salticidae/buffer.h'
ALL='src/*.cpp'
HEAD='''#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "salticidae/msg.h"
#include "salticidae/stream.h"
#include "salticidae/event.h"
#include "salticidae/network.h"
using namespace salticidae;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "failed: %s\\n", #c); _exit(1); } } while (0)
'''
NET=HEAD+'''using Net = MsgNetwork<uint8_t>; using PN = PeerNetwork<uint8_t>;
struct M { static const uint8_t opcode = 9; DataStream serialized; uint32_t v; M(uint32_t x, size_t pad = 0) { serialized << x; if (pad) { bytearray_t p(pad, 7); serialized.put_data(p); } } M(DataStream &&s) { s >> v; } };
const uint8_t M::opcode;
static bytearray_t frame(const M &m) { return MsgBase<uint8_t>(m, 0).serialize(); }
static void put(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = ::write(fd, c, n); if (k < 0) { if (errno == EAGAIN) { usleep(1000); continue; } break; } c += k; n -= k; } }
static void put(int fd, const bytearray_t &b) { put(fd, b.data(), b.size()); }
static uint16_t freeport() { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(s, (sockaddr *)&a, sizeof a); socklen_t l = sizeof a; getsockname(s, (sockaddr *)&a, &l); close(s); return ntohs(a.sin_port); }
static int dial(uint16_t port) { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); for (int i = 0; i < 100; i++) { if (connect(s, (sockaddr *)&a, sizeof a) == 0) return s; usleep(20000); } return -1; }
static int serve(uint16_t port) { int s = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); CHECK(bind(s, (sockaddr *)&a, sizeof a) == 0); listen(s, 5); return s; }
static int take(int l, int ms) { pollfd p = {l, POLLIN, 0}; return poll(&p, 1, ms) > 0 ? accept(l, nullptr, nullptr) : -1; }
// run the loop for a while
static void spin(EventContext &ec, double sec) { TimerEvent t(ec, [&](TimerEvent &) { ec.stop(); }); t.add(sec); ec.dispatch(); t.del(); }
template<typename F> static bool until(EventContext &ec, double sec, F f) { for (double t = 0; t < sec; t += 0.02) { if (f()) return true; spin(ec, 0.02); } return f(); }
static bytearray_t hand(uint8_t op, const NetAddr &a, uint32_t nonce) { struct H { DataStream serialized; }; M m(0); m.serialized.clear(); m.serialized << (uint8_t)true << a << htole(nonce); auto b = MsgBase<uint8_t>(m, 0).serialize(); b[4] = op; return b; }
static bytearray_t beat(uint8_t op) { M m(0); m.serialized.clear(); m.serialized << (uint8_t)0; auto b = MsgBase<uint8_t>(m, 0).serialize(); b[4] = op; return b; }
// opcode of the next message on a socket, -1 at the end or after ms milliseconds
static int next(int fd, int ms, bytearray_t *body = nullptr) { uint8_t h[13]; size_t n = 0; auto get = [&](uint8_t *p, size_t k) { n = 0; while (n < k) { pollfd q = {fd, POLLIN, 0}; if (poll(&q, 1, ms) <= 0) return false; ssize_t r = read(fd, p + n, k - n); if (r <= 0) return false; n += r; } return true; }; if (!get(h, 13)) return -1; uint32_t l = h[5] | h[6] << 8 | h[7] << 16; bytearray_t b(l + 1); if (!get(b.data(), l)) return -1; b.resize(l); if (body) *body = b; return h[4]; }
'''
FL='-fno-access-control'
def S(only=None):
    L=[]
    def mk(name, *a, **k):
        if not only or name.split('-')[0] in only: make(name, *a, **k)
    mk('s06-entry-copy', 'C06', [(BH, 'offset = data.begin() + (other.offset - other.data.begin());\n        }\n\n        size_t length', 'offset = data.begin();\n        }\n\n        size_t length')],
     HEAD+'''int main() { SegBuffer b; b.push(bytearray_t{1,2,3,4,5}); b.push(bytearray_t{6,7}); CHECK(b.pop(2).size() == 2); SegBuffer c(b); CHECK(c.size() == 5); auto r = c.pop(100); CHECK(r == (bytearray_t{3,4,5,6,7})); return 0; }''',
     'copying a buffer whose first segment has been popped in part', 'the copy returns the consumed bytes again', srcs=ALL)
    mk('s07-retry-once', 'C07', [(NH, "                if (!incoming_msgs.enqueue(std::make_pair(conn->msg, conn), false))\n                {", "                if (!incoming_msgs.enqueue(std::make_pair(std::move(conn->msg), conn), false))\n                {")],
     NET+'''int main() { alarm(60); EventContext ec; Net::Config cf; cf.max_msg_queue_size(1); Net n(ec, cf); int got = 0; bool order = true; n.reg_handler([&](M &&m, const Net::conn_t &) { if ((int)m.v != got) order = false; got++; }); n.start(); uint16_t port = freeport(); n.listen(NetAddr("127.0.0.1", port)); int fd = dial(port); spin(ec, 0.2);
    const int N = 9000; std::thread w([&]() { bytearray_t all; for (int i = 0; i < N; i++) { auto f = frame(M(i)); all.insert(all.end(), f.begin(), f.end()); } put(fd, all); });
    sleep(1); until(ec, 20, [&]() { return got >= N; }); w.join(); CHECK(got == N); CHECK(order); n.stop(); return 0; }''',
     'a delivery queue that is still full at the first retry', 'the payload of the message being retried is lost with the refused element', flags=FL, srcs=ALL)
    mk('s08-avail', 'C08', [(QH, "            while (!h->avail[hh].load(std::memory_order_acquire))\n                std::this_thread::yield();\n            e = std::move(h->elem[hh]);\n            h->avail[hh].store(false, std::memory_order_relaxed);\n            break;\n        }\n        return true;\n    }\n\n    template<typename U>\n    bool rewind", "            while (!h->avail[hh].load(std::memory_order_acquire))\n                std::this_thread::yield();\n            e = std::move(h->elem[hh]);\n            if (hh + 1 < MPMCQ_SIZE) h->avail[hh].store(false, std::memory_order_relaxed);\n            break;\n        }\n        return true;\n    }\n\n    template<typename U>\n    bool rewind")],
     HEAD+'''static std::atomic<int> slow(0); struct E { uint64_t v; E(): v(0) {} E(uint64_t v): v(v) {} E(const E &o) { if (o.v == 77777 && slow) { usleep(300000); } v = o.v; } E(E &&o): v(o.v) {} E &operator=(const E &) = default; E &operator=(E &&) = default; };
int main() { alarm(60); MPSCQueue<E> q; E e; uint64_t k = 0, g = 0; /* one block recycled, filled up to its last slot */ for (int r = 0; r < 3; r++) for (int i = 0; i < 4096; i++) { E x(k++); q.enqueue(x); if (r < 2 || i < 4095) {} if (!(r == 2 && i == 4095)) { CHECK(q.try_dequeue(e)); CHECK(e.v == g++); } else { CHECK(q.try_dequeue(e)); CHECK(e.v == g++); } }
    for (int i = 0; i < 4095; i++) { E x(k++); q.enqueue(x); CHECK(q.try_dequeue(e)); CHECK(e.v == g++); } slow = 1; std::thread t([&]() { E x(77777); q.enqueue(x); }); usleep(100000); bool got = false; for (int i = 0; i < 2000000 && !got; i++) got = q.try_dequeue(e); CHECK(got); CHECK(e.v == 77777); t.join(); return 0; }''',
     'a recycled block whose last slot is dequeued while its producer is still storing the element', 'the consumer takes the stale content of a slot of a recycled block', srcs=ALL)
    mk('s09-wait-after', 'C09', [(EV, "                    wait_sig.exchange(true, std::memory_order_acq_rel);\n                    if (func(*this))\n                        nfd.notify();\n                });\n        ev.add(FdEvent::READ);\n    }\n\n    void unreg_handler()", "                    bool again = func(*this);\n                    wait_sig.exchange(true, std::memory_order_acq_rel);\n                    if (again)\n                        nfd.notify();\n                });\n        ev.add(FdEvent::READ);\n    }\n\n    void unreg_handler()")],
     HEAD+'''int main() { alarm(30); EventContext ec; MPSCQueueEventDriven<int> q; std::vector<int> got; bool once = false; q.reg_handler(ec, [&](MPSCQueueEventDriven<int> &q) { int x; while (q.try_dequeue(x)) got.push_back(x); if (!once) { once = true; q.enqueue(2); /* arrives just after the queue was found empty */ } return false; });
    q.enqueue(1); TimerEvent t(ec, [&](TimerEvent &) { ec.stop(); }); t.add(0.5); ec.dispatch(); CHECK(got.size() == 2); CHECK(got[0] == 1 && got[1] == 2); return 0; }''',
     'an element enqueued between the handler finding the queue empty and its return', 'the consumer sleeps while the queue holds an element', srcs=ALL)
    mk('s10-burst', 'C10', [(EV, "                if (++cnt == burst_size) return true;\n            }\n            return false;\n        });\n    }\n\n    ~ThreadCall", "                if (++cnt == burst_size) return !stopped;\n            }\n            return false;\n        });\n    }\n\n    ~ThreadCall")],
     HEAD+'''int main() { alarm(30); EventContext ec; ThreadCall tc(ec); std::atomic<int> refused(0), done(0), ready(0); tc.stop(); std::vector<std::thread> ts; for (int i = 0; i < 160; i++) ts.emplace_back([&]() { ready++; try { tc.call([&](ThreadCall::Handle &) { done++; }).get(); } catch (SalticidaeError &e) { if (e.get_code() == SALTI_ERROR_NOT_AVAIL) refused++; } });
    while (ready < 160) usleep(1000); usleep(300000); TimerEvent t(ec, [&](TimerEvent &) { ec.stop(); }); t.add(1); ec.dispatch(); CHECK(done == 0); CHECK(refused == 160); for (auto &x: ts) x.join(); return 0; }''',
     'more calls pending than one burst when the target is stopped', 'the calls behind the first burst are neither refused nor executed: their callers wait forever', srcs=ALL)
    mk('s11-weak-ctl', 'C11', [(RH, "        if (--weak_cnt) return;\n        if (ref_cnt) return;\n        delete this;", "        if (--weak_cnt) return;\n        if (ref_cnt > 1) return;\n        delete this;")],
     HEAD+'''static int dead; struct D { ~D() { dead++; } }; int main() { { RcObj<D> a(new D()); { WeakObj<D> w(a); RcObj<D> b(w); CHECK(a.get_cnt() == 2); } { WeakObj<D> w(a); } CHECK(a.get_cnt() == 1); RcObj<D> c(a); CHECK(c.get_cnt() == 2); CHECK(dead == 0); } CHECK(dead == 1); return 0; }''',
     'the last weak pointer going away while exactly one owner is left', 'the bookkeeping block is freed while an owner uses it', srcs=ALL, flags='-fsanitize=address')
    mk('s12-resume-write', 'C12', [(NH, "        conn->ev_socket.add(FdEvent::READ |\n                            (conn->ready_send ? 0: FdEvent::WRITE));", "        conn->ev_socket.add(FdEvent::READ);")],
     NET+'''int main() { alarm(60); EventContext ec; Net::Config cf; cf.max_msg_queue_size(1); cf.max_recv_buff_size(2); Net n(ec, cf); int got = 0; Net::conn_t c; n.reg_conn_handler([&](const ConnPool::conn_t &x, bool up) { if (up) c = static_pointer_cast<Net::Conn>(x); return true; }); n.reg_handler([&](M &&m, const Net::conn_t &) { got++; }); n.start(); uint16_t port = freeport(); n.listen(NetAddr("127.0.0.1", port)); int fd = dial(port); until(ec, 5, [&]() { return (bool)c; }); CHECK((bool)c);
    const int N = 12000, K = 40000; for (int i = 0; i < K; i++) n.send_msg(M(i, 500), c); usleep(300000); /* the transport is full now */
    std::thread w([&]() { bytearray_t all; for (int i = 0; i < N; i++) { auto f = frame(M(i)); all.insert(all.end(), f.begin(), f.end()); } put(fd, all); });
    sleep(1); until(ec, 20, [&]() { return got >= N; }); w.join(); CHECK(got == N); size_t total = 0, want = frame(M(0, 500)).size() * (size_t)K; std::vector<char> b(65536); for (;;) { pollfd q = {fd, POLLIN, 0}; if (poll(&q, 1, 3000) <= 0) break; ssize_t k = read(fd, b.data(), b.size()); if (k <= 0) break; total += k; if (total >= want) break; } CHECK(total == want); n.stop(); return 0; }''',
     'reading resumes after the receive buffer was full while outgoing data is waiting for the transport', 'the waiting bytes are never sent', flags=FL, srcs=ALL)
    mk('s16-burst', 'C16', [(NH, "                if (++cnt == burst_size) return true;", "                if (++cnt >= burst_size && it != handler_map.end()) return true;\n                if (cnt > burst_size) return false;")],
     NET+'''int main() { alarm(60); EventContext ec; Net::Config cf; cf.burst_size(4); Net n(ec, cf); int got = 0; n.reg_handler([&](M &&m, const Net::conn_t &) { got++; }); n.start(); uint16_t port = freeport(); n.listen(NetAddr("127.0.0.1", port)); int fd = dial(port); spin(ec, 0.2); bytearray_t all; for (int i = 0; i < 20; i++) { auto f = frame(M(i)); if (i == 3 || i == 4) f[4] = 77; all.insert(all.end(), f.begin(), f.end()); } put(fd, all); sleep(1); until(ec, 3, [&]() { return got >= 18; }); CHECK(got == 18); n.stop(); return 0; }''',
     'messages of unknown opcodes at the end of a burst', 'the messages behind them are not dispatched', flags=FL, srcs=ALL)
    mk('s17-equal', 'C17', [(NH, "if (msg.nonce < p->get_nonce() || p->addr.is_null())", "if (msg.nonce <= p->get_nonce() || p->addr.is_null())")],
     NET+'''int main() { alarm(60); EventContext ec; PN::Config cf; cf.id_mode(PN::ADDR_BASED); PN n(ec, cf); int up = 0; n.reg_peer_handler([&](const PN::conn_t &, bool c) { up += c; }); n.start(); uint16_t port = freeport(), rp = freeport(); NetAddr me("127.0.0.1", port), ra("127.0.0.1", rp); n.listen(me); PeerId rid(ra); n.add_peer(rid); n.set_peer_addr(rid, ra); spin(ec, 0.2); n.disp_tcall->call([&](ThreadCall::Handle &) { n.known_peers.find(rid)->second->nonce = 500; }).get();
    int fd = dial(port); put(fd, hand(0xf0, ra, 500)); spin(ec, 1); CHECK(up == 0); while (next(fd, 1000) != -1); n.stop(); return 0; }''',
     'both ends drawing the same nonce', 'the acceptor keeps a connection which the dialler closes', flags=FL, srcs=ALL)
    mk('s18-claim', 'C18', [(NH, "                        p->addr != msg.claimed_addr) return;", "                        p->addr.ip != msg.claimed_addr.ip) return;")],
     NET+'''int main() { alarm(60); EventContext ec; PN::Config cf; cf.id_mode(PN::ADDR_BASED); PN n(ec, cf); int up = 0; n.reg_peer_handler([&](const PN::conn_t &, bool c) { up += c; }); n.start(); uint16_t port = freeport(), rp = freeport(); NetAddr me("127.0.0.1", port), ra("127.0.0.1", rp), other("127.0.0.1", 1); n.listen(me); int l = serve(rp); PeerId rid(ra); n.add_peer(rid); n.set_peer_addr(rid, ra); n.conn_peer(rid, 1, 50); std::thread t([&]() { int fd = take(l, 5000); CHECK(fd >= 0); CHECK(next(fd, 3000) == 0xf0); put(fd, hand(0xf1, other, 0x10001)); usleep(700000); }); spin(ec, 1); t.join(); CHECK(up == 0); n.stop(); return 0; }''',
     'a dialled remote that answers with another claimed address', 'a link is established with an identity that does not match', flags=FL, srcs=ALL)
    mk('s19-renew', 'C19', [(NH, "    p->cur_ntry = p->ntry;\n    auto &old_conn", "    if (!p->cur_ntry) p->cur_ntry = p->ntry;\n    auto &old_conn")],
     NET+'''int main() { alarm(60); EventContext ec; PN::Config cf; cf.id_mode(PN::ADDR_BASED); PN n(ec, cf); int up = 0, down = 0; n.reg_peer_handler([&](const PN::conn_t &, bool c) { (c ? up : down)++; }); n.start(); uint16_t port = freeport(), rp = freeport(); NetAddr me("127.0.0.1", port), ra("127.0.0.1", rp); n.listen(me); int l = serve(rp); PeerId rid(ra); n.add_peer(rid); n.set_peer_addr(rid, ra); std::atomic<int> dials(0); std::thread t([&]() { for (int i = 0; i < 3; i++) { int fd = take(l, 6000); if (fd < 0) return; dials++; if (i == 0) { close(fd); continue; } if (next(fd, 3000) != 0xf0) return; put(fd, hand(0xf1, ra, 0x10001)); usleep(500000); close(fd); } });
    n.conn_peer(rid, 2, 0.05); until(ec, 8, [&]() { return up == 2; }); t.join(); CHECK(dials == 3); CHECK(up == 2); n.stop(); return 0; }''',
     'an attempt that fails before the one that succeeds, and a link that is lost later', 'the attempts are not renewed by a success: the peer is dialled less often than asked for', flags=FL, srcs=ALL)
    mk('s20-silent', 'C20', [(NH, "    ping_timer_ok = false;\n    pong_msg_ok = false;", "    ping_timer_ok = false;")],
     NET+'''int main() { alarm(60); EventContext ec; PN::Config cf; cf.id_mode(PN::ADDR_BASED); cf.ping_period(0.1); cf.conn_timeout(0.8); PN n(ec, cf); int up = 0, down = 0; n.reg_peer_handler([&](const PN::conn_t &, bool c) { (c ? up : down)++; }); n.start(); uint16_t port = freeport(), rp = freeport(); NetAddr me("127.0.0.1", port), ra("127.0.0.1", rp); n.listen(me); PeerId rid(ra); n.add_peer(rid); spin(ec, 0.1); int fd = dial(port); put(fd, hand(0xf0, ra, 5)); std::thread t([&]() { int pings = 0, op; while ((op = next(fd, 3000)) != -1) if (op == 0xf0 && pings++ == 0) put(fd, beat(0xf1)); /* answers one ping, then stays silent */ });
    until(ec, 3, [&]() { return up == 1; }); CHECK(up == 1); until(ec, 5, [&]() { return down > 0; }); CHECK(down == 1); t.join(); n.stop(); return 0; }''',
     'a peer that answers one heartbeat and then falls silent', 'the silent link is never dropped', flags=FL, srcs=ALL)
    mk('s21-hash', 'C21', [('include/salticidae/netaddr.h', "ip = addr_sock->sin_addr.s_addr;\n        port = addr_sock->sin_port;", "ip = addr_sock->sin_addr.s_addr;\n        port = (int16_t)addr_sock->sin_port < 0 && !ip ? 0 : addr_sock->sin_port;")],
     HEAD+'''int main() { for (int p = 0; p < 65536; p++) { sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons(p); NetAddr x(&a); CHECK(x.port == htons(p)); CHECK(x.is_null() == (p == 0)); CHECK(x == NetAddr(0, htons(p))); } return 0; }''',
     'a socket address with the wildcard address and certain ports', 'the port is lost: a non-null address becomes null', srcs=ALL)
    mk('s22-trim', 'C22', [('src/util.cpp', "    const auto new_end = s.find_last_not_of(space);\n    return s.substr(new_begin, new_end - new_begin + 1);", "    const auto new_end = s.find_first_of(space, new_begin);\n    if (new_end == std::string::npos || s.find_first_not_of(space, new_end) == std::string::npos)\n        return s.substr(new_begin, new_end - new_begin);\n    return s.substr(new_begin, s.find_last_not_of(space) - new_begin + (new_end > new_begin + 1));")],
     HEAD+'''int main() { CHECK(trim("  a b  ") == "a b"); CHECK(trim("ab c") == "ab c"); CHECK(trim(" x ") == "x"); CHECK(trim("ab") == "ab"); CHECK(trim("\\t ab cd \\n") == "ab cd"); return 0; }''',
     'a text with an inner blank after a one-letter word', 'the last character is trimmed as well', srcs=ALL)
    mk('s23-array', 'C23', [('src/network.cpp', "return self->conn_peer(*peer, ntry, retry_delay);", "return self->conn_peer(*peer, ntry ? ntry : -1, retry_delay);")],
     NET+'''int main() { alarm(60); EventContext ec; PN::Config cf; cf.id_mode(PN::ADDR_BASED); PN n(ec, cf); n.start(); uint16_t port = freeport(), rp = freeport(); NetAddr me("127.0.0.1", port), ra("127.0.0.1", rp); n.listen(me); int l = serve(rp); PeerId rid(ra); n.add_peer(rid); n.set_peer_addr(rid, ra); spin(ec, 0.2); peernetwork_conn_peer(&n, &rid, 0, 0.2); int fd = take(l, 1500); CHECK(fd < 0); peernetwork_conn_peer(&n, &rid, 1, 0.2); fd = take(l, 3000); CHECK(fd >= 0); n.stop(); return 0; }''',
     'the C call asking for no attempt at all', 'the C call dials forever where the C++ one does not dial', flags=FL, srcs=ALL)
    mk('s24-timeout', 'C24', [(EV, "        std::swap(callback, other.callback);\n        std::swap(timeout, other.timeout);", "        std::swap(callback, other.callback);\n        if (!timeout) std::swap(timeout, other.timeout);")],
     HEAD+'''int main() { alarm(30); EventContext ec; int p[2], q[2]; CHECK(pipe(p) == 0 && pipe(q) == 0); int hits = 0, outs = 0; TimedFdEvent a(ec, q[0], [](int, int) {}); a.add(FdEvent::READ, 100); a.del(); TimedFdEvent b(ec, p[0], [&](int fd, int e) { if (e & TimedFdEvent::TIMEOUT) { outs++; return; } char c; CHECK(read(fd, &c, 1) == 1); hits++; }); b.add(FdEvent::READ, 0.2); a = std::move(b); CHECK(write(p[1], "x", 1) == 1); TimerEvent t(ec, [&](TimerEvent &) { ec.stop(); }); t.add(1); ec.dispatch(); CHECK(hits == 1); CHECK(outs == 1); return 0; }''',
     'a timed descriptor event move-assigned over one that was armed before, then activity on its descriptor', 'the re-armed timeout is that of the overwritten event', srcs=ALL)
    mk('s25-insert', 'C25', [(NH, "    cn->addr2conn.erase(addr);\n    cn->addr2conn.insert(std::make_pair(addr, conn));", "    auto it = cn->addr2conn.find(addr);\n    if (it != cn->addr2conn.end() && it->second->is_terminated())\n        cn->addr2conn.erase(it);\n    cn->addr2conn.insert(std::make_pair(addr, conn));")],
     NET+'''using CN = ClientNetwork<uint8_t>; int main() { alarm(30); EventContext ec; CN n(ec, CN::Config()); NetAddr a("127.0.0.1", 4321); auto mk = [&]() { CN::conn_t c{new CN::Conn()}; c->cpool = &n; c->addr = a; c->mode = ConnPool::Conn::PASSIVE; return c; }; auto c1 = mk(), c2 = mk(); n.on_dispatcher_setup(c1); n.on_dispatcher_setup(c2); /* the first one is not known to be dead yet */ c1->set_terminated(); n.on_dispatcher_teardown(c1); CHECK(n.send_msg(M(5), a)); bytearray_t x = c2->send_buffer.move_pop(); CHECK(x.size() > 0); CHECK(c1->send_buffer.move_pop().size() == 0); return 0; }''',
     'a new connection from an address whose old connection has not been noticed to be dead', 'messages go to the old connection, or the client is unrouted', flags=FL, srcs=ALL)
    mk('s28-least', 'C28', [(CH, "            if (t < best)\n            {\n                best = t;\n                idx = i;\n            }", "            if (t < best)\n            {\n                if (!idx) best = t;\n                idx = i;\n            }")],
     NET+'''int main() { alarm(30); EventContext ec; Net::Config cf; cf.nworker(4); Net n(ec, cf); auto set = [&](int a, int b, int c, int d) { n.workers[0].nconn = a; n.workers[1].nconn = b; n.workers[2].nconn = c; n.workers[3].nconn = d; auto &w = n.select_worker(); int k = &w - &n.workers[0]; int v[4] = {a, b, c, d}; for (int i = 0; i < 4; i++) CHECK(v[k] <= v[i]); }; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) for (int d = 0; d < 5; d++) set(a, b, c, d); for (int i = 0; i < 3; i++) n.workers[i].nconn = 0; n.system_state = 0; _exit(0); }''',
     'four or more workers with loads that decrease twice', 'a connection is given to a worker which is not the least loaded one', flags=FL, srcs=ALL)
if __name__ == '__main__': S(sys.argv[1:])
