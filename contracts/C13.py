R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
SPEC = dict(level='proof', note='One iteration of the plain and TLS receive loops from an arbitrary state, for any chunk size, limit, buffered amount and transport result (loop contract over the receive-buffer contract); histories of six bytes over small chunk sizes, limits, fragmentations, end of stream and a stalled upper layer.',
  tus=[dict(src='C13.cpp', repo=R, inc=['contracts/absq'], entries=['c13_plain', 'c13_tls'], replay=False, hooks={r'4Conn1[0-9]_recv_data(_tls)?E': 'c13_hook'},
        opts=dict(unroll=400, nosum='^(?!.*_recv_data)', replace={r'NK?10salticidae9SegBuffer3lenEv': 'c13_len', r'9SegBuffer4pushE': 'c13_push', r'10MsgNetworkIhE7on_readE': 'c13_on_read'}), covers=dict(c13_plain=['iteration', 'limit', 'read', 'ended'], c13_tls=['iteration', 'limit', 'read', 'ended'])),
       dict(src='C13.cpp', repo=R, inc=['contracts/absq'], entries=['c13_hist', 'c13_hist_tls', 'c13_error_event', 'c13_resume', 'c13_mixed'], opts=dict(nosum='.', unroll=400), covers=dict(c13_hist=['hist'], c13_hist_tls=['hist'], c13_error_event=['error event'], c13_resume=['resume'], c13_mixed=['mixed']))],
  trusted=['libuv, sockets, eventfd and OpenSSL behave as contracts/netsim.h assumes', 'queue contract (proved as C08), receive buffer contract (proved as C06)'], assumptions=['a connection is driven by its one worker loop', 'max_recv_buff_size is at least 1'])
