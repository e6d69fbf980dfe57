SPEC = dict(level='proof', note='Sequential contracts: every pair of operations on two owners and a weak pointer of an object with arbitrarily many further owners and weak pointers elsewhere (counts symbolic). Concurrent contracts of the atomic counts: rely/guarantee with arbitrary interference before every atomic step.',
  tus=[dict(src='C11.cpp', entries=['c11_rc', 'c11_arc', 'c11_box', 'c11_arrays'], covers=dict(c11_rc=['sequence'], c11_arc=['sequence'], c11_box=['box'], c11_arrays=['arrays'])),
       dict(src='C11.cpp', entries=['c11_conc_owner', 'c11_conc_weak', 'c11_conc_upgrade'], replay=False, hooks={r'11try_add_ref': 'c11_retry_hook'}, opts=dict(atomic_hook='c11_interfere', nosum='.', unroll=4),
         covers=dict(c11_conc_owner=['freed', 'kept'], c11_conc_weak=['freed', 'kept'], c11_conc_upgrade=['upgrade']))],
  assumptions=['sequentially consistent atomics', 'other threads use the object only through pointers they hold'])
