R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
O = dict(nosum='.', unroll=1500)
SPEC = dict(technique='contracts on the real C++ functions, discharged by symbolic execution of clang LLVM IR and SMT over bounded histories (bounded stand-in, not counted as proved)', level='other', note='Every history of four (thorough: five) connection set-ups and losses over two addresses, plain and TLS, against the rule; then a message to each address. Bounded histories.', bounds='4 (5) events; 3 in TLS mode', tus=[
  dict(src='C25.cpp', repo=R, inc=['contracts/absq'], entries=['c25_hist', 'c25_tls', 'c25_refused', 'c25_full'], opts=O, covers=dict(c25_hist=['routed', 'no client'], c25_tls=['routed', 'no client'], c25_refused=['routed', 'older lost'], c25_full=['full']))],
  trusted=['libuv, sockets, eventfd, threads and OpenSSL behave as contracts/netsim.h and stl/ assume', 'queue contract (proved as C08)'], assumptions=['callbacks of one loop do not overlap (libuv)', 'the network only accepts connections (the class asserts this)'])
