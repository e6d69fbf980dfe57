SPEC = dict(level='proof', note='All obligations discharged for payloads of any length up to 2^30 and any header bytes; SHA-1/SHA-256 are uninterpreted functions of the input bytes; hash lists under explicit loop contracts with a representation invariant on list elements.',
  tus=[dict(src='C05.cpp', entries=['c05_layout', 'c05_roundtrip', 'c05_verify', 'c05_short', 'c05_special', 'c05_wide', 'c05_hash', 'c05_gen_list', 'c05_parse_list'],
    hooks={r'7MsgBaseI.*13gen_hash_list': 'c05_gen_hook', r'7MsgBaseI.*15parse_hash_list': 'c05_parse_hook', r'vectorIN10salticidae4BlobILm256EmEE.*4fillE': 'c05_fill_hook'},
    covers=dict(c05_layout=['layout'], c05_roundtrip=['roundtrip'], c05_verify=['verify'], c05_short=['short'], c05_special=['copy', 'move', 'assign', 'massign', 'swap', 'c'], c05_wide=['wide'],
       c05_hash=['hash'], c05_gen_list=['gen'], c05_parse_list=['error', 'element', 'parsed']))],
  trusted=['OpenSSL SHA1_*/SHA256_* compute a function of the concatenated input'], assumptions=['payloads up to 2^30 bytes'])
