SPEC = dict(level='proof', note='Every pair of operations on two event objects of each kind; libuv is replaced by an assumed contract (contracts/uv_model.h) that checks how handles are used. Timer conversion on a fixed set of durations.',
  tus=[dict(src='C24.cpp', repo=['src/util.cpp', 'src/event.cpp'], entries=['c24_fd', 'c24_timer', 'c24_timedfd', 'c24_sig', 'c24_check', 'c24_times', 'c24_fail'],
    opts=dict(nosum='uvm_|run|uv_'),
    covers=dict(c24_fd=['events'], c24_timer=['events'], c24_timedfd=['events'], c24_sig=['events'], c24_check=['events'], c24_times=['times'], c24_fail=['fail']))],
  trusted=['libuv behaves as contracts/uv_model.h assumes'], assumptions=['timer conversion decided on 15 durations'])
