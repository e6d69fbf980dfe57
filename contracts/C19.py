R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
O = dict(nosum='.', unroll=1500)
SPEC = dict(technique='contracts on the real C++ functions, discharged by symbolic execution of clang LLVM IR and SMT over bounded histories (bounded stand-in, not counted as proved)', level='other', note='Every request sequence of length three (thorough: four) over two identities; dialling counts, removal and re-registration in every state of a peer. Bounded histories.', bounds='request sequences of length 3 (4); attempts up to 4', tus=[dict(src='C19.cpp', repo=R, inc=['contracts/absq'], entries=['c19_requests', 'c19_ids', 'c19_pending', 'c19_sameaddr', 'c19_ntry', 'c19_redial', 'c19_afresh', 'c19_remove', 'c19_again', 'c19_notready', 'c19_target'], opts=O,
   covers=dict(c19_requests=['requests'], c19_ids=['ids'], c19_pending=['pending', 'replaced'], c19_sameaddr=['same'], c19_ntry=['dialled'], c19_redial=['redial'], c19_afresh=['afresh'], c19_remove=['removed'], c19_again=['dialled again'], c19_notready=['not ready'], c19_target=['target']))],
  trusted=['libuv, sockets, eventfd, threads and OpenSSL behave as contracts/netsim.h and stl/ assume', 'queue contract (proved as C08)'], assumptions=['callbacks of one loop do not overlap (libuv)', 'requests are issued by the user thread'])
