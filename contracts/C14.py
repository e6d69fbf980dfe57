R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
SPEC = dict(technique='contracts on the real C++ functions, discharged by symbolic execution of clang LLVM IR and SMT over bounded histories (bounded stand-in, not counted as proved)', level='other', note='Teardown over the modelled environment: every cause of termination alone and in pairs, at every prefix of connection set-up, in the schedules of the user, dispatcher and worker loops up to a stated depth, for accepted and dialled connections, plain and TLS; every failing system call while accepting or dialling.',
  bounds='pairs of termination causes; 2 scheduling choices between loops in quick, 4 in thorough, then run to quiescence',
  tus=[dict(src='C14.cpp', repo=R, inc=['contracts/absq'], entries=['c14_once', 'c14_twice', 'c14_sched', 'c14_setup', 'c14_dial', 'c14_sysfail'], opts=dict(nosum='.', unroll=600),
    covers=dict(c14_once=['torn down'], c14_twice=['torn down'], c14_sched=['torn down'], c14_setup=['during set-up'], c14_dial=['dial torn down', 'dial up'], c14_sysfail=['failed call', 'no failure']))],
  trusted=['libuv, sockets, eventfd and OpenSSL behave as contracts/netsim.h assumes (obligations there: no use of a released handle or closed descriptor, one close each, events released before close)', 'queue contract (proved as C08)'], assumptions=['callbacks of one loop do not overlap (libuv)'])
