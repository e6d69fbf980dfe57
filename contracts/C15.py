R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
SPEC = dict(level='proof', note='One handshake step for every answer of the TLS layer, socket event and prior write readiness; whole set-ups over every handshake script of two steps, verdict, dialling direction and a slow or fast user thread, with data already waiting on the socket.',
  bounds='handshake scripts up to two incomplete steps in the whole-set-up scenarios (any single step is covered from every state)',
  tus=[dict(src='C15.cpp', repo=R, inc=['contracts/absq'], entries=['c15_step', 'c15_accept', 'c15_dial', 'c15_policy'], opts=dict(nosum='.', unroll=600),
    covers=dict(c15_step=['want read', 'want write', 'completed', 'failed'], c15_accept=['handshake failed', 'accepted', 'rejected'], c15_dial=['handshake failed', 'accepted', 'rejected'], c15_policy=['policy']))],
  trusted=['libuv, sockets, eventfd and OpenSSL behave as contracts/netsim.h assumes', 'OpenSSL authenticates the peer as configured', 'queue contract (proved as C08)'], assumptions=['callbacks of one loop do not overlap (libuv)'])
