R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
SPEC = dict(level='proof', note='One iteration of the plain and TLS send loops from an arbitrary state, for any segment contents and any transport result (loop contract over the write-buffer contract); histories of three writes under every script of two transport results (thorough: three).',
  tus=[dict(src='C12.cpp', repo=R, inc=['contracts/absq'], entries=['c12_plain', 'c12_tls'], replay=False, hooks={r'4Conn1[0-9]_send_data(_tls)?E': 'c12_hook'},
        opts=dict(unroll=400, nosum='^(?!.*_send_data)', replace={r'MPSCWriteBuffer8move_popEv': 'c12_move_pop', r'MPSCWriteBuffer6rewindE': 'c12_rewind'}), covers=dict(c12_plain=['iteration', 'drained', 'partial', 'error'], c12_tls=['iteration', 'drained', 'partial', 'error'])),
       dict(src='C12.cpp', repo=R, inc=['contracts/absq'], entries=['c12_hist', 'c12_hist_tls', 'c12_error_event', 'c12_bounded', 'c12_mixed'], opts=dict(nosum='.', unroll=400), covers=dict(c12_hist=['sent', 'broken'], c12_hist_tls=['sent', 'broken'], c12_error_event=['error event'], c12_bounded=['bounded'], c12_mixed=['mixed'])),
       dict(src='C13.cpp', repo=R, inc=['contracts/absq'], entries=['c13_mixed'], opts=dict(nosum='.', unroll=400), covers=dict(c13_mixed=['mixed']))],
  trusted=['libuv, sockets, eventfd and OpenSSL behave as contracts/netsim.h assumes', 'queue contract (proved as C08), buffer entry order (C06)'], assumptions=['a connection is driven by its one worker loop'])
