R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
O = dict(nosum='.', unroll=600)
SPEC = dict(technique='contracts on the real C++ functions, discharged by symbolic execution of clang LLVM IR and SMT over bounded histories (bounded stand-in, not counted as proved)', level='other', note='Admission and dialling verdicts for all nonces and identities; histories of three (thorough: all kinds, longer) events in all orders, with the loops run or delayed between them; takeover with every cut of the queued messages. The history part is bounded.', bounds='histories: 3 events of 9 kinds, 4 (thorough 5) of 5 kinds; takeover: up to 3 queued messages, 3 cuts', tus=[dict(src='C18.cpp', repo=R, inc=['contracts/absq'], entries=['c18_admit', 'c18_dialled', 'c18_hist', 'c18_deep', 'c18_takeover'], opts=O,
   covers=dict(c18_admit=['refused', 'manual', 'admitted'], c18_dialled=['up', 'not up'], c18_hist=['linked', 'not linked'], c18_deep=['linked', 'not linked'], c18_takeover=['moved', 'cut']))],
  trusted=['libuv, sockets, eventfd, threads and OpenSSL behave as contracts/netsim.h and stl/ assume', 'queue contract (proved as C08)'], assumptions=['callbacks of one loop do not overlap (libuv)', 'at most one worker thread besides the dispatcher'])
