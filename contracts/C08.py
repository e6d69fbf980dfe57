SPEC = dict(level='proof', note='Every operation of both queues is proved against the abstract sequence for every state with one, two or three blocks (first block with any head, last block with any tail, elements arbitrary) and zero to two free blocks; operations touch only the first block, its successor and the last block, so further full blocks in the middle are not visited. Sequential histories; interleavings are property C26.',
  tus=[dict(src='C08.cpp', entries=['c08_mpmc_enq', 'c08_mpsc_enq', 'c08_mpmc_deq', 'c08_mpsc_deq', 'c08_rewind', 'c08_fresh_mpmc', 'c08_fresh_mpsc', 'c08_destroy'], opts=dict(nosum='Queue|FreeList|count|^_ZL2at|^_ZL3inv|at|inv', unroll=10),
    covers=dict(c08_mpmc_enq=['accepted', 'refused', 'enq'], c08_mpsc_enq=['accepted', 'refused', 'enq'], c08_mpmc_deq=['some', 'none', 'deq'], c08_mpsc_deq=['some', 'none', 'deq'], c08_rewind=['rewind'], c08_fresh_mpmc=['fresh'], c08_fresh_mpsc=['fresh'], c08_destroy=['destroy']))],
  assumptions=['sequential histories, no spurious compare-exchange failure', 'element type uint64_t'])
