// Contracts for the C interface to network options (src/network.cpp *_config_*): each sets exactly what the C++ setter of that name sets: C23.
#include "peerfix.h"
static bool eq(const Net::Config &a, const Net::Config &b) { return a._max_listen_backlog == b._max_listen_backlog && a._conn_server_timeout == b._conn_server_timeout && a._recv_chunk_size == b._recv_chunk_size && a._max_recv_buff_size == b._max_recv_buff_size && a._max_send_buff_size == b._max_send_buff_size && a._nworker == b._nworker && a._enable_tls == b._enable_tls && a._tls_cert_file == b._tls_cert_file && a._tls_key_file == b._tls_key_file && a._max_msg_size == b._max_msg_size && a._max_msg_queue_size == b._max_msg_queue_size && a._burst_size == b._burst_size && a._tls_skip_ca_check == b._tls_skip_ca_check; }
static const uint64_t T[] = {0, 1, 2, 77, 1ul << 40};
extern "C" void c23c_config() {
    msgnetwork_config_t *c = msgnetwork_config_new(); Net::Config w; vf_assert(c && eq(*c, w), "fresh options are the C++ defaults"); size_t v = T[vf_choice("v", 5)]; double d = 0.5 + v;
    switch (vf_choice("what", 14)) { case 0: msgnetwork_config_max_msg_size(c, v); w.max_msg_size(v); break; case 1: msgnetwork_config_max_msg_queue_size(c, v); w.max_msg_queue_size(v); break; case 2: msgnetwork_config_burst_size(c, v); w.burst_size(v); break; case 3: msgnetwork_config_max_listen_backlog(c, (int)v); w.max_listen_backlog((int)v); break; case 4: msgnetwork_config_conn_server_timeout(c, d); w.conn_server_timeout(d); break; case 5: msgnetwork_config_recv_chunk_size(c, v); w.recv_chunk_size(v); break; case 6: msgnetwork_config_nworker(c, v); w.nworker(v); break;
    case 7: msgnetwork_config_max_recv_buff_size(c, v); w.max_recv_buff_size(v); break; case 8: msgnetwork_config_max_send_buff_size(c, v); w.max_send_buff_size(v); break; case 9: msgnetwork_config_enable_tls(c, v & 1); w.enable_tls(v & 1); break; case 10: msgnetwork_config_tls_key_file(c, "a"); w.tls_key_file("a"); break; case 11: msgnetwork_config_tls_cert_file(c, "b"); w.tls_cert_file("b"); break;
    case 12: { pkey_t *k = new pkey_t(&vfg_mykey); msgnetwork_config_tls_key_by_move(c, k); pkey_free(k); vf_assert(vfg_mykey.refs == 1 && c->_tls_key && c->_tls_key->key == &vfg_mykey, "the key is moved in"); break; } default: { x509_t *k = new x509_t(&vfg_mycert); msgnetwork_config_tls_cert_by_move(c, k); x509_free(k); vf_assert(vfg_mycert.refs == 1 && c->_tls_cert && c->_tls_cert->x509 == &vfg_mycert, "the certificate is moved in"); } }
    vf_assert(eq(*c, w), "a C setter sets exactly what the C++ one sets"); vf_cover("set");
}
extern "C" void c23c_peer() { peernetwork_config_t *c = peernetwork_config_new(); PN::Config w; double d = 0.5 + T[vf_choice("v", 5)]; switch (vf_choice("what", 4)) { case 0: peernetwork_config_ping_period(c, d); w.ping_period(d); break; case 1: peernetwork_config_conn_timeout(c, d); w.conn_timeout(d); break; case 2: peernetwork_config_id_mode(c, ID_MODE_ADDR_BASED); w.id_mode(PN::ADDR_BASED); break; default: peernetwork_config_id_mode(c, ID_MODE_CERT_BASED); w.id_mode(PN::CERT_BASED); } vf_assert(eq(*c, w) && c->_ping_period == w._ping_period && c->_conn_timeout == w._conn_timeout && c->_id_mode == w._id_mode && c->_allow_unknown_peer == w._allow_unknown_peer, "a C setter sets exactly what the C++ one sets"); peernetwork_config_free(c); vf_cover("set"); }
