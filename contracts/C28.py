R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
SPEC = dict(level='proof', note='Worker selection for any number of workers and any loads (loop contract); end-to-end choice with symbolic loads for up to three (four) workers; start/stop histories with up to two connections in every phase of set-up, repeated start/stop, destruction, connections already ending.',
  bounds='stop scenarios: at most two connections, seven prefixes of their set-up',
  tus=[dict(src='C28.cpp', repo=R, inc=['contracts/absq'], entries=['c28_any'], replay=False, hooks={r'ConnPool13select_workerE': 'c28_hook'}, opts=dict(unroll=600, nosum='^(?!.*select_worker)', replace={r'8ConnPool6Worker9get_nconnEv': 'c28_nconn'}), covers=dict(c28_any=['any'])),
       dict(src='C28.cpp', repo=R, inc=['contracts/absq'], entries=['c28_pick', 'c28_stop', 'c28_nostart', 'c28_stop_ended'], opts=dict(nosum='.', unroll=600), covers=dict(c28_pick=['picked'], c28_stop=['stopped'], c28_nostart=['never started'], c28_stop_ended=['ended']))],
  trusted=['libuv, sockets, eventfd, threads and OpenSSL behave as contracts/netsim.h and stl/ assume', 'queue contract (proved as C08)'], assumptions=['start and stop are called from the user thread'])
