R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
SPEC = dict(level='proof', note='Verdicts of one end against any remote for all nonces (dialled and inbound connection, both orders); two ends dialling each other with all nonce pairs and every order of handshake message arrivals; idle ends after every way of having stopped dialling.', bounds="one crossing of two connections per run; a connection's own messages arrive in order", tus=[dict(src='C17.cpp', repo=R, inc=['contracts/absq'], entries=['c17_cross', 'c17_passive', 'c17_end', 'c17_idle'], opts=dict(nosum='.', unroll=600), covers=dict(c17_idle=['idle'], c17_cross=['x decided', 'y decided', 'one kept', 'tie'], c17_passive=['accepted'], c17_end=['crossed late', 'inbound kept', 'tie', 'own kept']))],
  trusted=['libuv, sockets, eventfd, threads and OpenSSL behave as contracts/netsim.h and stl/ assume', 'queue contract (proved as C08)'], assumptions=['callbacks of one loop do not overlap (libuv)', 'random source returns any 16-bit value'])
