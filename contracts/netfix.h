// Fixture for the network-layer contracts: a network over the modelled environment (netsim.h) with the queue contract (absq/) below it.
#ifndef NETFIX_H
#define NETFIX_H
#include "netsim.h"
#include <vector>
#include <string>
#include "salticidae/network.h"
namespace salticidae { size_t vfg_qcap = (size_t)-1; }
using namespace salticidae;
using Net = MsgNetwork<uint8_t>;
using NMsg = MsgBase<uint8_t>;
static x509_st vfg_mycert = {5, 1}; static evp_pkey_st vfg_mykey = {5, 1};
static int vfg_up, vfg_down, vfg_errs, vfg_fatal, vfg_lasterr, vfg_lastid, vfg_accept_conn = 1; static ConnPool::conn_t *vfg_upconn;
static void fx_cfg(ConnPool::Config &c, bool tls) { if (tls) c.enable_tls(true).tls_cert(new salticidae::X509(&vfg_mycert)).tls_key(new PKey(&vfg_mykey)); }
static int fx_code(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (SalticidaeError &x) { return x.get_code(); } catch (...) { return -1; } }
template<typename N> static void fx_handlers(N *n) {
    n->reg_conn_handler([](const ConnPool::conn_t &c, bool up) { if (up) { vfg_up++; if (vfg_upconn) *vfg_upconn = c; else vfg_upconn = new ConnPool::conn_t(c); } else vfg_down++; return vfg_accept_conn != 0; });
    n->reg_error_handler([](const std::exception_ptr e, bool fatal, int32_t id) { vfg_errs++; vfg_fatal += fatal; vfg_lasterr = fx_code(e); vfg_lastid = id; });
}
static UvRec *fx_poll(int fd) { for (int i = 0; i < vfg_nuv; i++) if (vfg_uv[i].kind == UVM_POLL && vfg_uv[i].fd == fd && !vfg_uv[i].closing && !vfg_uv[i].freed) return &vfg_uv[i]; return nullptr; }
static int fx_events(int fd) { UvRec *r = fx_poll(fd); return r && r->active ? r->events : 0; }
// one accepted connection of a fresh network
struct Fx { EventContext ec; Net *n; ConnPool::conn_t c; int j, fd;
    Fx(bool tls, const Net::Config &base = Net::Config()) { Net::Config cf = base; fx_cfg(cf, tls); n = new Net(ec, cf); fx_handlers(n); n->start(); ns_blocking([&]() { n->listen(NetAddr(0, htons(80))); });
        j = ns_ext_connect(htons(80), htonl(0x0a000001), htons(5555)); fd = NS_FD0 + j; ns_run(); vf_assert(vfg_up == 1 && vfg_upconn != nullptr, "an accepted connection is reported to the user"); if (!vfg_upconn) vf_kill(); c = *vfg_upconn; }
};
#endif
