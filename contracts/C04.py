SPEC = dict(level='proof', note='All obligations discharged for any bit count up to 2^31 and any index; load under an explicit loop contract, the other loops by inferred summaries.', tus=[dict(src='C04.cpp', entries=['c04_parse', 'c04_update', 'c04_serialize', 'c04_copy', 'c04_clear', 'c04_new', 'c04_hostile', 'c04_load'],
    hooks={r'^_ZN10salticidae5_BitsImE4loadEPKhj$': 'c04_load_hook'},
    covers=dict(c04_parse=['parse'], c04_update=['set', 'unset', 'flip'], c04_serialize=['serialize'], c04_copy=['copy', 'move'], c04_clear=['clear'], c04_new=['default', 'sized'],
        c04_hostile=['short', 'ok', 'fail'], c04_load=['bytearray', 'raw', 'load']))],
    assumptions=['vectors up to 2^31 bits; loads of fewer than 2^28 bytes (the size is a 32-bit bit count)'])
