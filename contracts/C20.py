R = ['src/util.cpp', 'src/event.cpp', 'src/conn.cpp']
O = dict(nosum='.', unroll=1500)
SPEC = dict(level='proof', note='Each event (period over, pong, ping) from every heartbeat state, with arbitrary state flags (step contract, C20s); every sequence of four (thorough: six) events against the rule; stray pongs in every connection state; timeouts; restart on a new link.', bounds='histories of 4 (6) events besides the inductive step', tus=[
  dict(src='C20.cpp', repo=R, inc=['contracts/absq'], entries=['c20_hist', 'c20_race', 'c20_stray', 'c20_mute', 'c20_fresh', 'c20_pair'], opts=O, covers=dict(c20_hist=['pinged again', 'period over, unanswered', 'answered, period running', 'timed out'], c20_race=['raced'], c20_stray=['ignored'], c20_mute=['dropped'], c20_fresh=['afresh'], c20_pair=['kept alive'])),
  dict(src='C20s.cpp', repo=R, inc=['contracts/absq'], entries=['c20_step'], opts=O, covers=dict(c20_step=['ping', 'no ping']))],
  trusted=['libuv, sockets, eventfd, threads and OpenSSL behave as contracts/netsim.h and stl/ assume', 'queue contract (proved as C08)'], assumptions=['callbacks of one loop do not overlap (libuv)', 'timers fire only while armed'])
