R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
B = dict(unroll=600, nosum='^(?!.*on_read)', replace={r'NK10salticidae9SegBuffer4sizeEv': 'c07_size', r'NK10salticidae9SegBuffer3lenEv': 'c07_len', r'9SegBuffer3popEm': 'c07_pop', r'9SegBuffer6rewindE': 'c07_rewind', r'20MPSCQueueEventDrivenISt4pairINS_7MsgBase.*7enqueueI': 'c07_enq'})
SPEC = dict(level='proof', note='One step of the framing state machine from every parser state (loop contract over the receive-buffer and queue contracts), for any stream bytes, lengths, limits and amounts arrived: the stream position after a step depends on the bytes only, so framing is independent of fragmentation. Histories of three messages with symbolic payloads over every cut, corruption, queue-full window and oversized header through the whole stack.',
  tus=[dict(src='C07.cpp', repo=R, inc=['contracts/absq'], entries=['c07_step'], replay=False, hooks={r'10MsgNetworkIhE7on_readE': 'c07_hook'}, opts=B, covers=dict(c07_step=['queued', 'corrupt skipped', 'oversized', 'full', 'need header', 'need payload', 'continued'])),
       dict(src='C07.cpp', repo=R, inc=['contracts/absq'], entries=['c07_hist', 'c07_full', 'c07_over'], opts=dict(nosum='.', unroll=600), covers=dict(c07_hist=['hist'], c07_full=['full'], c07_over=['over', 'within']))],
  trusted=['libuv, sockets, eventfd and OpenSSL behave as contracts/netsim.h assumes', 'queue contract (proved as C08), receive buffer contract (proved as C06)', 'SHA-1 is a function of its input'], assumptions=['a connection is driven by its one worker loop'])
