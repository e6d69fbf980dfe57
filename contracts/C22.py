SPEC = dict(level='proof', note='Trimming (default set) and splitting (one-character delimiter) of text of any length (loop contracts/search summaries), formatting of any length over the vsnprintf contract, number options over text of any length; other character sets and delimiters exactly on short texts; configuration files of one and two lines, command lines of one and two options over a five-option table (bounded).', bounds='other sets/delimiters: texts up to 4 (5) bytes, sets/delimiters up to 3; files of up to 2 lines; up to 2 command-line options', trusted=['vsnprintf, fopen/fgets/fclose, getopt_long and std::stoi/stod behave as their manuals say (contracts in C22f.cpp, C22c.cpp, stl/string)'], assumptions=['short option letters are distinct'], tus=[
 dict(src='C22.cpp', repo=['src/util.cpp'], entries=['c22_trim', 'c22_split'], hooks={r'salticidae5splitE': 'c22_split_hook'}, covers=dict(c22_trim=['empty','trimmed'], c22_split=['last piece'])),
 dict(src='C22.cpp', repo=['src/util.cpp'], entries=['c22_trimset', 'c22_splitany', 'c22_trimall'], opts=dict(nosum='.', unroll=60), covers=dict(c22_trimset=['set'], c22_splitany=['any delimiter'], c22_trimall=['all'])),
 dict(src='C22f.cpp', repo=['src/util.cpp'], entries=['c22_format', 'c22_badformat'], opts=dict(unroll=60), covers=dict(c22_format=['long','short'], c22_badformat=['failed'])),
 dict(src='C22c.cpp', repo=['src/util.cpp'], entries=['c22_load', 'c22_load2', 'c22_nofile', 'c22_longline', 'c22_longok', 'c22_args', 'c22_conf', 'c22_dup', 'c22_action'], opts=dict(nosum='.', unroll=70000), covers=dict(c22_load=['rejected','loaded'], c22_load2=['rejected','loaded'], c22_nofile=['missing'], c22_longline=['too long'], c22_longok=['fits'], c22_args=['rejected','parsed'], c22_conf=['conf'], c22_dup=['duplicate','new'], c22_action=['unsupported'])),
 dict(src='C22c.cpp', repo=['src/util.cpp'], entries=['c22_num'], opts=dict(unroll=60), covers=dict(c22_num=['number','not a number']))])
