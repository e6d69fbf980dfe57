// Contracts for include/salticidae/netaddr.h: C21.
#include <vf.h>
#include <vector>
#include <string>
#include <string.h>
#include <stdio.h>
#include <netdb.h>
#include "salticidae/netaddr.h"
using namespace salticidae;
// assumed contract of the resolver: any host text either resolves to some IPv4 address or not
static int vfg_resolve, vfg_asked; static uint8_t vfg_addr[4]; static char *vfg_list[2]; static struct hostent vfg_he; static uint8_t *vfg_host; static size_t vfg_hlen; static bool vfg_hok;
extern "C" struct hostent *gethostbyname(const char *n) {
    vfg_asked++; size_t l = vf_is_native() || vf_bounded() ? strlen(n) : vfg_hlen;
    vf_assert(l == vfg_hlen, "host part is the text before the first colon");
    vf_assert_mem_eq(n, vfg_host, vfg_hlen, "host part is the text before the first colon");
    if (!vfg_resolve) return nullptr;
    vfg_list[0] = (char *)vfg_addr; vfg_list[1] = nullptr; vfg_he.h_addr_list = vfg_list; vfg_he.h_addrtype = AF_INET; vfg_he.h_length = 4; return &vfg_he;
}
extern "C" char *inet_ntoa(struct in_addr in) throw() { static char b[20]; uint8_t x[4]; memcpy(x, &in, 4); snprintf(b, 20, "%d.%d.%d.%d", x[0], x[1], x[2], x[3]); return b; }
static bool dig(uint8_t c) { return (c >= '0') & (c <= '9'); }
static void parse(bool exact) {
    size_t n = vf_u64("n"); vf_assume(n <= (exact ? (vf_tier() ? 6 : 4) : 1u << 20));
    uint8_t *t = vf_bytes("text", n + 1); t[n] = 0;
    size_t c; bool colon;                       // the first colon
    if (exact) {
        for (size_t i = 0; i < n; i++) vf_assume(t[i] != 0);
        for (c = 0; c < n && t[c] != ':'; c++) {} colon = c < n;
    } std::string s((const char *)t, n);
    if (!exact) { c = s.find(':'); if (c == std::string::npos) vf_kill(); colon = true; }
    vfg_host = t; vfg_hlen = colon ? c : 0; vfg_resolve = vf_bool("resolves"); vfg_asked = 0; vf_havoc(vfg_addr, 4, "addr");
    bool ok = true; int code = 0; NetAddr a;
#ifdef VF_VERIFY
    vfg_num.calls = 0; vfg_num_exact = exact;
#endif
    try { a = NetAddr(s); } catch (SalticidaeError &e) { ok = false; code = e.get_code(); }
    bool valid; uint32_t port = 0;
    if (exact) { valid = colon & (c + 1 < n); for (size_t i = c + 1; i < n; i++) { if (!dig(t[i])) valid = false; else if (valid && port <= 0xffff) port = port * 10 + (t[i] - '0'); } valid = valid && port <= 0xffff; }
    else {
#ifdef VF_VERIFY
        if (vfg_num.calls != 1 || vfg_num.len != n - c - 1) vf_hook_missing("number parsing");
        valid = (n - c - 1 > 0) && dig(t[c + 1]) && vfg_num.err == 0 && vfg_num.idx == n - c - 1 && vfg_num.val <= 0xffff; port = (uint32_t)vfg_num.val;
#endif
    }
    valid = valid && vfg_resolve;
    vf_assert(ok == valid, "a text is an address exactly when it has a colon, a resolvable host and a decimal port up to 65535");
    if (!ok) { vf_assert(code == SALTI_ERROR_NETADDR_INVALID, "other text is rejected as an invalid address"); vf_cover("rejected"); return; }
    uint32_t ip; memcpy(&ip, vfg_addr, 4);
    vf_assert(a.ip == ip, "address as resolved"); uint16_t pn = ((port & 0xff) << 8) | (port >> 8); vf_assert(a.port == pn, "port in network order"); vf_cover("accepted");
}
extern "C" void c21_parse() { if (vf_is_native() || vf_bounded()) parse(true); else parse(false); }
extern "C" void c21_parse_short() { parse(true); }
extern "C" void c21_nocolon() {
    size_t n = vf_u64("n"); vf_assume(n <= (vf_bounded() ? 6 : 1u << 20)); uint8_t *t = vf_bytes("text", n + 1); std::string s((const char *)t, n);
    bool has = false; if (vf_is_native() || vf_bounded()) { for (size_t i = 0; i < n; i++) if (t[i] == ':') has = true; } else has = s.find(':') != std::string::npos;
    if (has) return;
    bool thrown = false; try { NetAddr a(s); } catch (SalticidaeError &e) { thrown = e.get_code() == SALTI_ERROR_NETADDR_INVALID; }
    vf_assert(thrown && !vfg_asked, "a text without a colon is rejected"); vf_cover("nocolon");
}
extern "C" void c21_values() {
    uint32_t ip = vf_u32("ip"), ip2 = vf_u32("ip2"); uint16_t p = vf_u16("p"), p2 = vf_u16("p2");
    NetAddr a(ip, p), b(ip2, p2), z;
    bool same = (ip == ip2) & (p == p2);
    vf_assert((a == b) == same, "equality is equality of address and port"); vf_assert((a != b) == !same, "inequality is its complement"); vf_assert((b == a) == same, "equality is symmetric");
    vf_assert(!same | (std::hash<const NetAddr>()(a) == std::hash<const NetAddr>()(b)), "equal addresses hash equally"); vf_assert(!same | (std::hash<NetAddr>()(a) == std::hash<NetAddr>()(b)), "equal addresses hash equally");
    vf_assert(a.is_null() == ((ip == 0) & (p == 0)), "only the all-zero address is null"); vf_assert(z.is_null() && z.ip == 0 && z.port == 0, "a default address is null");
    struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_addr.s_addr = ip; sa.sin_port = p; NetAddr f(&sa); vf_assert((f.ip == ip) & (f.port == p), "socket address taken over");
    DataStream s; s << a << b; vf_assert(s.size() == 12, "an address is six bytes"); uint8_t w[6]; memcpy(w, &ip, 4); memcpy(w + 4, &p, 2); vf_assert_mem_eq(s.data(), w, 6, "four address bytes, then two port bytes");
    NetAddr c, d; s >> c >> d; vf_assert((c == a) & (d == b), "serialised addresses read back equal"); vf_assert(s.size() == 0, "all consumed");
    vf_cover("values");
}
extern "C" void c21_sockaddr() {
    vfg_resolve = vf_bool("resolves"); vf_havoc(vfg_addr, 4, "addr"); uint16_t p = vf_u16("p"); vfg_host = (uint8_t *)"host"; vfg_hlen = 4; bool ok = true;
    NetAddr a; try { a = NetAddr("host", p); } catch (SalticidaeError &e) { ok = false; vf_assert(e.get_code() == SALTI_ERROR_NETADDR_INVALID, "unresolvable host"); }
    vf_assert(ok == (bool)vfg_resolve, "accepted exactly when the host resolves"); if (!ok) return;
    uint32_t ip; memcpy(&ip, vfg_addr, 4); uint16_t pn = (p << 8) | (p >> 8); vf_assert((a.ip == ip) & (a.port == pn), "address as resolved, port in network order"); vf_cover("sock");
}
extern "C" void c21_print() {
    static const uint8_t A[4][4] = {{127, 0, 0, 1}, {0, 0, 0, 0}, {255, 255, 255, 255}, {10, 1, 200, 30}}; static const uint16_t P[5] = {0, 1, 80, 12345, 65535};
    int i = vf_choice("a", 4), j = vf_choice("p", 5); uint32_t ip; memcpy(&ip, A[i], 4); uint16_t pn = ((P[j] & 0xff) << 8) | (P[j] >> 8);
    char w[64]; int k = snprintf(w, 64, "<NetAddr %d.%d.%d.%d:%d>", A[i][0], A[i][1], A[i][2], A[i][3], P[j]);
    std::string s = NetAddr(ip, pn); vf_assert(s == std::string(w, k), "printed form"); vf_cover("print");
}
