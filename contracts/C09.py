SPEC = dict(level='proof', note='Thread-modular (Owicki-Gries) proof of the wake-up invariant: every atomic step and descriptor operation of enqueue and of the handler, with arbitrary interference by other threads in between. Concrete schedules with nested producers give replayable counterexamples.',
  tus=[dict(src='C09.cpp', repo=['src/util.cpp', 'src/event.cpp'], entries=['c09_mpsc_producer', 'c09_mpsc_consumer', 'c09_mpmc_producer', 'c09_mpmc_consumer'], replay=False,
    opts=dict(nosum='.', unroll=8, atomic_hook='c09_atom'),
    covers=dict(c09_mpsc_producer=['enqueued'], c09_mpsc_consumer=['handled'], c09_mpmc_producer=['enqueued'], c09_mpmc_consumer=['handled'])),
    dict(src='C09.cpp', repo=['src/util.cpp', 'src/event.cpp'], entries=['c09_mpsc_sched', 'c09_mpmc_sched'], opts=dict(nosum='.', unroll=40), covers=dict(c09_mpsc_sched=['quiet'], c09_mpmc_sched=['quiet']))],
  trusted=['eventfd and libuv behave as the models in contracts/C09.cpp and contracts/uv_model.h assume'],
  assumptions=['sequentially consistent atomics', 'the underlying queue hands out every element whose enqueue has completed (C08)', 'a handler that returns false found the queue empty'])
