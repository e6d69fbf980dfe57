R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
SPEC = dict(level='proof', note='One step of the dispatch loop (loop contract over the queue contract) for any opcode, length, burst limit and statistics; histories of three messages (handled, other opcode, unknown opcode, unparsable, throwing handler) through the whole stack; sending with any magic and value, bounded and unbounded.',
  tus=[dict(src='C16.cpp', repo=R, inc=['contracts/absq'], entries=['c16_step'], replay=False, hooks={r'^_ZZN10salticidae10MsgNetworkIhEC[12]E.*clE': 'c16_hook'}, opts=dict(unroll=600, nosum='^(?!_ZZN10salticidae10MsgNetworkIhEC[12]E.*clE)', replace={r'(MPSCQueue|MPMCQueue)ISt4pairINS_7MsgBase.*11try_dequeueE': 'c16_deq'}), covers=dict(c16_step=['handled', 'unknown', 'burst', 'empty'])),
       dict(src='C16.cpp', repo=R, inc=['contracts/absq'], entries=['c16_hist', 'c16_two', 'c16_send'], opts=dict(nosum='.', unroll=600), covers=dict(c16_hist=['hist'], c16_two=['two'], c16_send=['send']))],
  trusted=['libuv, sockets, eventfd and OpenSSL behave as contracts/netsim.h assumes', 'queue contract (proved as C08)', 'hash table as in the verification STL (stl/)'], assumptions=['handlers are dispatched on one user loop'])
