SPEC = dict(level='proof', note='All obligations discharged for all 32-byte values and all array lengths.', tus=[dict(src='C03.cpp', entries=['c03_bytes', 'c03_null', 'c03_badlen', 'c03_short', 'c03_order', 'c03_total'],
    covers=dict(c03_bytes=['bytes'], c03_null=['null'], c03_badlen=['right', 'wrong'], c03_short=['ok', 'short'], c03_order=['order'], c03_total=['total']))],
    assumptions=[])
