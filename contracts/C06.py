SPEC = dict(level='proof', note='pop is proved for any number of segments by a loop contract over a ghost byte array (segments of any length up to 2^30 bytes each); the other operations for buffers of up to three segments of any length, the first one partly consumed.',
  tus=[dict(src='C06.cpp', entries=['c06_pop'], hooks={r'9SegBuffer3popE': 'c06_pop_hook'}, covers=dict(c06_pop=['popped']), opts=dict(nosum='4list')),
       dict(src='C06.cpp', entries=['c06_api', 'c06_assign', 'c06_first', 'c06_entry'], opts=dict(nosum='SegBuffer|4list', unroll=8),
         covers=dict(c06_api=['pop', 'push', 'rewind', 'copy', 'move', 'assign', 'massign', 'swap', 'clear'], c06_assign=['assign'], c06_first=['first'], c06_entry=['entry']))],
  trusted=['std::list/std::vector behave as specified (stl/ headers are their assumed contracts)'], assumptions=['segments of up to 2^30 bytes', 'operations other than pop: up to three segments'])
