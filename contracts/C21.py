SPEC = dict(level='proof', note='Parsing of any text up to 1 MiB with the number parser and resolver as contracted dependencies; exact parsing of every text of up to 4 bytes (thorough: 6); comparison, hashing and serialisation of all addresses.',
  tus=[dict(src='C21.cpp', repo=['src/util.cpp'], entries=['c21_parse', 'c21_parse_short', 'c21_nocolon', 'c21_values', 'c21_sockaddr', 'c21_print'],
    entry_opts=dict(c21_parse_short=dict(nosum='.', unroll=14)),
    covers=dict(c21_parse=['accepted', 'rejected'], c21_parse_short=['accepted', 'rejected'], c21_nocolon=['nocolon'], c21_values=['values'], c21_sockaddr=['sock'], c21_print=['print']))],
  trusted=['resolver (gethostbyname), inet_ntoa and std::stol behave as their manuals say'], assumptions=['printed form decided on 20 addresses', 'texts contain no NUL before the colon'])
