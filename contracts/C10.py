SPEC = dict(level='proof', note='One iteration of the call-executing loop from an arbitrary position in an arbitrary burst (loop contract), plus every sequence of three calls of six kinds with every stop point and burst size 1, 2, 128.',
  tus=[dict(src='C10.cpp', repo=['src/util.cpp', 'src/event.cpp'], entries=['c10_seq', 'c10_stop', 'c10_destroy'], opts=dict(nosum='.', unroll=40), covers=dict(c10_seq=['sequence'], c10_stop=['stop'], c10_destroy=['destroy'])),
       dict(src='C10.cpp', repo=['src/util.cpp', 'src/event.cpp'], entries=['c10_iter'], hooks={r'10ThreadCallC\dE.*ENKUl.*clE': 'c10_loop_hook'}, replay=False, opts=dict(unroll=40, nosum='^(?!.*10ThreadCallC)', replace={r'^_ZN10salticidae9MPSCQueueIPNS_10ThreadCall6HandleEE11try_dequeueE': 'c10_try_dequeue'}), covers=dict(c10_iter=['burst', 'iteration', 'empty']))],
  trusted=['eventfd and libuv behave as the models in contracts/ assume', 'condition variables release a waiter after a notification'],
  assumptions=['calls are posted by one thread at a time in the sequence contract; concurrent posting is C08/C09'])
