SPEC = dict(level='proof', note='All obligations discharged for arbitrary stream contents, offsets and lengths; std::vector/std::string are replaced by contract-level stubs; in-place growth does not model iterator invalidation.', tus=[dict(src='C01.cpp',
    entries=['c01_put_ints', 'c01_get_ints', 'c01_get_inplace', 'c01_put_range', 'c01_put_cstr', 'c01_roundtrip', 'c01_special', 'c01_convert'],
    covers=dict(c01_put_ints=['put'], c01_get_ints=['get short', 'get ok'], c01_get_inplace=['short', 'ok'], c01_put_range=['range', 'bytearray', 'string'],
        c01_put_cstr=['cstr'], c01_roundtrip=['roundtrip'], c01_special=['copy', 'move', 'assign', 'massign', 'swap', 'clear', 'self', 'self move', 'default'],
        c01_convert=['bytes', 'moved bytes', 'string', 'from bytes', 'from moved', 'from string']))],
    assumptions=['stream contents up to 2^30 bytes (no allocation failure)'])
