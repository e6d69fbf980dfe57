R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp', 'src/network.cpp', 'src/stream.cpp', 'src/type.cpp', 'src/netaddr.cpp', 'src/msg.cpp', 'src/crypto.cpp']
O = dict(nosum='.', unroll=1500)
SPEC = dict(level='proof', note='Stream, identifier, byte-array and message wrappers for arbitrary contents, offsets and lengths; text arguments up to four characters; every error code and every other integer; network, peer, client, option, event, queue and certificate wrappers over the modelled environment, each against the C++ operation, including every set-up system call failing and refused sends.', bounds='text arguments up to 4 characters; one connection per network run; option values from a fixed set', tus=[
  dict(src='C23.cpp', repo=['src/util.cpp', 'src/stream.cpp', 'src/type.cpp', 'src/netaddr.cpp', 'src/msg.cpp'], entries=['c23_get', 'c23_put', 'c23_data', 'c23_bytes', 'c23_hash', 'c23_uint256', 'c23_hex', 'c23_netaddr_text', 'c23_netaddr', 'c23_msg', 'c23_strerror', 'c23_error', 'c23_badcode'],
    entry_opts=dict(c23_hex=dict(nosum='.', unroll=64), c23_netaddr_text=dict(nosum='.', unroll=64), c23_strerror=dict(nosum='.', unroll=64), c23_badcode=dict(nosum='.', unroll=64), c23_netaddr=dict(nosum='.', unroll=64)),
    covers=dict(c23_get=['ok', 'short'], c23_put=['put'], c23_data=['put data', 'bulk', 'bulk short', 'copy', 'clear'], c23_bytes=['bytes'], c23_hash=['hash'], c23_uint256=['made', 'refused'], c23_hex=['bad hex', 'hex'], c23_netaddr_text=['address', 'refused'], c23_netaddr=['values'], c23_msg=['msg'], c23_strerror=['described'], c23_error=['carried'], c23_badcode=['invalid'])),
  dict(src='C23n.cpp', repo=R, inc=['contracts/absq'], entries=['c23n_new', 'c23n_listen', 'c23n_connect', 'c23n_conn', 'c23n_peer', 'c23n_retry', 'c23n_ids', 'c23n_unknown', 'c23n_client', 'c23n_error'], opts=O,
    covers=dict(c23n_new=['made', 'failed'], c23n_listen=['failed', 'listening'], c23n_connect=['up', 'failed', 'refused'], c23n_conn=['veto', 'sent', 'full'], c23n_peer=['sent', 'full'], c23n_retry=['given up'], c23n_ids=['ids'], c23n_unknown=['unknown'], c23n_client=['sent', 'refused'], c23n_error=['converted'])),
  dict(src='C23c.cpp', repo=R, inc=['contracts/absq'], entries=['c23c_config', 'c23c_peer'], opts=O, covers=dict(c23c_config=['set'], c23c_peer=['set'])),
  dict(src='C23e.cpp', repo=['src/util.cpp', 'src/event.cpp'], entries=['c23e_timer', 'c23e_signal', 'c23e_call', 'c23e_queue', 'c23e_loop'], opts=O, covers=dict(c23e_timer=['timer', 'cleared'], c23e_signal=['signal', 'cleared'], c23e_call=['calls'], c23e_queue=['handled', 'taken'], c23e_loop=['loop'])),
  dict(src='C23q.cpp', inc=['contracts/absq'], repo=['src/util.cpp', 'src/event.cpp'], entries=['c23e_full'], opts=O, covers=dict(c23e_full=['refused', 'full'])),
  dict(src='C23x.cpp', repo=['src/util.cpp', 'src/crypto.cpp', 'src/type.cpp'], entries=['c23x_load', 'c23x_der'], opts=O, covers=dict(c23x_load=['loaded', 'failed'], c23x_der=['encoded', 'failed']))],
  trusted=['libuv, sockets, eventfd, threads and OpenSSL behave as contracts/netsim.h, contracts/uv_model.h, contracts/C23x.cpp and stl/ assume'], assumptions=['pointers passed in are valid', 'no allocation failure', 'uint256_unserialize has no way to report a short stream and is called with 32 bytes left'])
