"""Built-in functions: verifier intrinsics, C library and C++ runtime (assumed contracts)."""
import re, z3, struct, hashlib
from .engine import (Ptr, NULL, FSym, isc, simp, tobv, tobool, mask, signed, add64, sub64, Unsupported, Fork, KillPath,
                     Throw, NOADV, LIMIT, BVV, Halt)

STDEXC = {  # libstdc++ exception hierarchy (child -> parent)
 '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
 '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
 '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
 '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error',
 '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
 '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
 '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error',
}
_T = {}; _R = []
def B(*names):
    def d(f):
        for n in names: _T[n] = f
        return f
    return d
def R(rx):
    def d(f): _R.append((re.compile(rx), f)); return f
    return d
def table(): return dict(_T)
def regex_table(): return list(_R)

def cstr(e, st, p):
    """concrete C string at p"""
    out = bytearray()
    o = st.mem[p.o]; i = 0
    while True:
        v = e.rd(st, o, add64(p.off, i), 1)
        if not isc(v): return None
        if v == 0: return out.decode('latin1')
        out.append(v); i += 1
        if i > 4096: return None

def same_(a, b): return z3.eq(a, b)
# ---------- verifier intrinsics
def _in(e, st, kind, w, a):
    n = cstr(e, st, a[0]) or kind
    v = e.fresh(w, n)
    st.inputs.append((kind, n, v))
    return v
B('vf_u64')(lambda e, st, I, a: _in(e, st, 'u64', 64, a))
B('vf_u32')(lambda e, st, I, a: _in(e, st, 'u32', 32, a))
B('vf_u16')(lambda e, st, I, a: _in(e, st, 'u16', 16, a))
B('vf_u8')(lambda e, st, I, a: _in(e, st, 'u8', 8, a))
B('vf_bool')(lambda e, st, I, a: _in(e, st, 'bool', 1, a))
@B('vf_double')
def _(e, st, I, a): return FSym(e.nf())
@B('vf_choice')
def _(e, st, I, a):
    # a[0]=name a[1]=n ; forks into concrete values
    n = a[1]; nm = cstr(e, st, a[0])
    if 'choice' not in st.ghost:
        v = e.fresh(32, nm); st.inputs.append(('u32', nm, v)); st.pcs.append(z3.ULT(v, n)); st.model = None
        st.ghost['choice'] = v
    v = st.ghost['choice']
    for i in range(n - 1):
        if e.decide(st, v == i):
            del st.ghost['choice']; return i
    del st.ghost['choice']
    return n - 1
@B('vf_assume')
def _(e, st, I, a):
    e.assume(st, tobool(a[0]))
    if not isc(a[0]) and e.check(st, z3.BoolVal(True)) == z3.unsat: raise KillPath()
@B('vf_assert')
def _(e, st, I, a):
    e.oblige(st, tobool(a[0]), cstr(e, st, a[1]), 'post')
@B('vf_inv')
def _(e, st, I, a):
    e.oblige(st, tobool(a[0]), cstr(e, st, a[1]), 'invariant')
@B('vf_cover')
def _(e, st, I, a):
    n = cstr(e, st, a[0])
    if e.noreport: return None
    if n not in e.covers or not e.covers[n]:
        e.covers[n] = e.check(st, z3.BoolVal(True), force=True) != z3.unsat
@B('vf_kill')
def _(e, st, I, a): raise KillPath()
@B('vf_is_native')
def _(e, st, I, a): return 0
@B('vf_bounded')
def _(e, st, I, a): return int(e.mode != 'prove')
@B('vf_bound')
def _(e, st, I, a): return e.o.get('bound', 2)
@B('vf_tier')
def _(e, st, I, a): return int(e.o.get('tier', 'quick') == 'thorough')
@B('vf_bytes')
def _(e, st, I, a):
    nm = cstr(e, st, a[0]); n = a[1]
    e.nfresh += 1
    arr = z3.Array(f'{nm}!{e.nfresh}', z3.BitVecSort(64), z3.BitVecSort(8))
    if not isc(n): e.assume(st, z3.ULE(n, LIMIT))
    st.inputs.append(('bytes', nm, (n, arr)))
    return e.newobj(st, n, 'heap', nm, ('base', 'sym', arr))
@B('vf_havoc')
def _(e, st, I, a):
    p, n, nmp = a; nm = cstr(e, st, nmp)
    e.nfresh += 1
    arr = z3.Array(f'{nm}!{e.nfresh}', z3.BitVecSort(64), z3.BitVecSort(8))
    st.inputs.append(('bytes', nm, (n, arr)))
    src = e.newobj(st, n, 'heap', nm, ('base', 'sym', arr))
    e.memcpy(st, p, src, n)
    st.mem.pop(src.o)
@B('vf_assert_mem_eq')
def _(e, st, I, a):
    p, q, n, l = a; lab = cstr(e, st, l)
    if isc(n) and n == 0: e.oblige(st, 1, lab, 'post'); return
    if p.o == 0 or q.o == 0:
        e.oblige(st, tobv(n, 64) == 0, lab, 'post'); return
    if isc(n) and n <= 64 and isc(p.off) and isc(q.off):
        op = e.access(st, p, n, 'read (spec)'); oq = e.access(st, q, n, 'read (spec)')
        k = 0
        while k < n:
            s = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
            x = e.rd(st, op, add64(p.off, k), s); y = e.rd(st, oq, add64(q.off, k), s)
            if type(x) is Ptr or type(y) is Ptr: e.oblige(st, tobool(e.icmp(st, 'eq', x, y, ('i', 64))), lab, 'post')
            else: e.oblige(st, tobv(x, 8 * s) == tobv(y, 8 * s), lab, 'post')
            k += s
        return
    op = e.access(st, p, n, 'read (spec)'); oq = e.access(st, q, n, 'read (spec)')
    # skolem index
    k = e.fresh(64, 'k')
    st2 = st.clone()      # the skolem index only lives in this obligation
    st2.pcs.append(z3.ULT(k, tobv(n, 64))); st2.model = None
    if e.check(st2, z3.BoolVal(True)) == z3.unsat: e.oblige(st, 1, lab, 'post'); return
    x = e.rd(st2, st2.mem[p.o], simp(tobv(p.off, 64) + k), 1); y = e.rd(st2, st2.mem[q.o], simp(tobv(q.off, 64) + k), 1)
    try: e.oblige(st2, tobv(x, 8) == tobv(y, 8), lab, 'post')
    except KillPath: pass
@B('vf_assume_byte_facts')
def _(e, st, I, a):
    """instantiate all loop facts at index a[0]"""
    for t, f in st.facts:
        e.assume(st, z3.Implies(z3.ULT(tobv(a[0], 64), t), f(tobv(a[0], 64))))
@B('vf_grow')
def _(e, st, I, a):
    """resize the storage object in place (model of vector reallocation): contents of the common prefix kept"""
    p, n = a
    o = st.wobj(p.o)
    if not isc(p.off) or p.off != 0: raise Unsupported('vf_grow offset')
    if not o.alive: e.failkill(st, 'use after free (grow)', 'memory')
    old = o.size
    o.size = simp(n) if not isc(n) else n
    if st.wlog is not None: st.wlog.append((p.o, 'size', 0))
@B('vf_objsize')
def _(e, st, I, a):
    o = st.mem.get(a[0].o)
    return 0 if o is None else o.size
@B('vf_alive')
def _(e, st, I, a):
    p = a[0]
    if p.o in e.idfn: return 1
    o = st.mem.get(p.o)
    return int(o is not None and o.alive)
@B('vf_leak_check')
def _(e, st, I, a):
    """number of live heap objects allocated by operator new/malloc"""
    import os
    if os.environ.get('VF_LEAKS'):
        import sys
        print('LIVE', [(o.id, o.name, o.size) for o in st.mem.values() if o.kind == 'heap' and o.alive], file=sys.stderr)
    return sum(1 for o in st.mem.values() if o.kind == 'heap' and o.alive)
@B('vf_local')
def _(e, st, I, a):
    nm = cstr(e, st, a[0])
    # nearest frame below that has loop hook
    for f in reversed(st.frames):
        if f.tag is None and f.fn is not None and f is not st.frames[-1] and f.loops.get('hooked') is not None:
            for n, r in f.fn.allocas.items():
                if any(n == q or n == q + '.addr' or (q[-1:] == '*' and re.fullmatch(re.escape(q[:-1]) + r'\d*', n)) for q in nm.split('|')):
                    v = f.regs[r]
                    if v is not None: return v
            return NULL
    return NULL
@B('vf_param')
def _(e, st, I, a):
    for f in reversed(st.frames):
        if f is not st.frames[-1] and f.loops.get('hooked') is not None:
            return f.regs[a[0]] if a[0] < f.fn.nparams else NULL
    return NULL
@B('vf_hook_missing')
def _(e, st, I, a):
    raise Unsupported('loop contract not applicable: ' + (cstr(e, st, a[0]) or ''))
@B('vf_dump')
def _(e, st, I, a):
    print('DUMP', cstr(e, st, a[0]), a[1:], [str(c)[:200] for c in st.pcs[-6:]])
@B('vf_same')
def _(e, st, I, a):
    r = e.icmp(st, 'eq', a[0], a[1], ('p',)); return r
@B('vf_try_bool')
def _(e, st, I, a):
    return a[0]
@B('vf_uf')
def _(e, st, I, a):
    """uninterpreted function of (id, a, b) -> u64"""
    f = z3.Function('uf', *([z3.BitVecSort(64)] * 4))
    return f(*[tobv(e.toint(x), 64) for x in a])
@B('vf_sha_byte')
def _(e, st, I, a):
    raise Unsupported('vf_sha_byte')
def content_key(e, st, p, n):
    """structural identity of a byte range, used for functional consistency of hash functions"""
    o = st.mem[p.o]
    return (e.node(o), p.off, n)
@B('llvm.fmuladd.f64', 'llvm.fma.f64')
def _(e, st, I, a): return a[0] * a[1] + a[2] if all(type(x) is float for x in a) else FSym(e.nf())
@B('vf_hash')
def _(e, st, I, a):
    """vf_hash(out, outlen, in, inlen, algo): uninterpreted hash with functional consistency.
    Equal inputs (same length, same bytes) give equal outputs: for every earlier application we assert
    (digest equal) or (lengths differ) or (bytes differ at a skolem index)."""
    out, outlen, inp, n, algo = a
    prev = st.ghost.get(('hash', algo), ())
    e.nfresh += 1
    arr = z3.Array(f'hash!{e.nfresh}', z3.BitVecSort(64), z3.BitVecSort(8))
    if isc(n) and n == 0: nd = ('base', 'zero', 0); off = 0
    else:
        o = e.access(st, inp, n, 'read (hash input)'); nd = e.node(o); off = inp.off
    bs = None
    if isc(n) and n <= 256: bs = [simp(e.rdn(st, nd, simp(tobv(off, 64) + i) if not isc(off) else off + i, 1)) for i in range(n)]
    dig = None
    if bs is not None and all(isc(x) for x in bs) and algo in (1, 256):
        dig = hashlib.new('sha1' if algo == 1 else 'sha256', bytes(bs)).digest()
        for i in range(outlen): arr = z3.Store(arr, BVV(i, 64), BVV(dig[i], 8))
    eqs = []
    for (pn, poff, pnlen, parr, pbs, pdig) in prev:
        if isc(n) and isc(pnlen) and n != pnlen: continue
        if bs is not None and pbs is not None:
            if dig is not None and pdig is not None: continue
            d = [simp(tobv(x, 8) != tobv(y, 8)) for x, y in zip(bs, pbs) if not (x is y or (isc(x) and isc(y) and x == y) or (not isc(x) and not isc(y) and x.eq(y)))]
            if not d: arr = parr; break
            if any(isc(x) and x for x in d): continue
            d = [x for x in d if not isc(x)]
            deq = z3.And(*[z3.Select(arr, BVV(i, 64)) == z3.Select(parr, BVV(i, 64)) for i in range(outlen)])
            eqs.append(z3.Or(deq, *d)); continue
        if pn is nd or (pn == nd if pn[0] == 'base' and nd[0] == 'base' else False):
            same = z3.And(tobv(poff, 64) == tobv(off, 64), tobv(pnlen, 64) == tobv(n, 64))
            if e.tri(st, same) is True: arr = parr; break
        if e.tri(st, tobv(n, 64) == tobv(pnlen, 64)) is False: continue
        k = e.fresh(64, 'hk')
        s2 = st.clone(); s2.pcs.append(z3.And(z3.ULT(k, tobv(n, 64)), tobv(n, 64) == tobv(pnlen, 64))); s2.model = None
        if e.check(s2, z3.BoolVal(True)) == z3.unsat:
            diff = z3.BoolVal(False)
        else:
            x = e.rdn(s2, nd, simp(tobv(off, 64) + k), 1); y = e.rdn(s2, pn, simp(tobv(poff, 64) + k), 1)
            diff = z3.And(z3.ULT(k, tobv(n, 64)), tobv(x, 8) != tobv(y, 8))
        deq = z3.And(*[z3.Select(arr, BVV(i, 64)) == z3.Select(parr, BVV(i, 64)) for i in range(outlen)])
        eqs.append(z3.Or(deq, tobv(n, 64) != tobv(pnlen, 64), diff))
    else:
        for c in eqs: st.pcs.append(c); st.model = None
    st.ghost[('hash', algo)] = prev + ((nd, off, n, arr, bs, dig),)
    if dig is not None:
        src = e.newobj(st, outlen, 'heap', 'digest')
        for i in range(outlen): e.wr(st, src.o, i, 1, dig[i])
    else: src = e.newobj(st, outlen, 'heap', 'digest', ('base', 'sym', arr))
    e.memcpy(st, out, src, outlen)
    st.mem.pop(src.o)

# ---------- allocation
def alloc(e, st, n, name, zero=False):
    return e.newobj(st, n, 'heap', name, ('base', 'zero', 0) if zero else None)
@B('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(e, st, I, a):
    n = a[0]
    if not isc(n): n = simp(n)
    if isc(n) and n > LIMIT or not isc(n) and e.decide(st, z3.UGT(n, LIMIT)):
        x = e.newobj(st, 8, 'heap', 'bad_alloc')
        e.gptr(st, '_ZTISt9bad_alloc') if '_ZTISt9bad_alloc' in e.m.gname else None
        raise Throw(x, '_ZTISt9bad_alloc')
    return alloc(e, st, n, 'new')
@B('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(e, st, I, a): e.free(st, a[0], 'delete')
@B('malloc')
def _(e, st, I, a): return alloc(e, st, a[0], 'malloc')
@B('calloc')
def _(e, st, I, a): return alloc(e, st, e.arith('mul', a[0], a[1], 64), 'calloc', True)
@B('free')
def _(e, st, I, a): e.free(st, a[0], 'free')
# ---------- memory
@B('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def _(e, st, I, a): e.memcpy(st, a[0], a[1], a[2]); return a[0]
@R(r'^llvm\.mem(cpy|move)\.')
def _(e, st, I, a): e.memcpy(st, a[0], a[1], a[2])
@R(r'^llvm\.memset\.')
def _(e, st, I, a): e.memset(st, a[0], a[1], a[2])
@B('memset')
def _(e, st, I, a): e.memset(st, a[0], e.trunc(a[1], 8), a[2]); return a[0]
@B('strlen')
def _(e, st, I, a):
    i = 0; o = st.mem.get(a[0].o); p = a[0]
    if o is None: e.failkill(st, 'strlen of invalid pointer', 'memory')
    if 'strlen' not in st.ghost:
        while True:
            o = e.access(st, Ptr(p.o, add64(p.off, i)), 1, 'read (strlen)')
            v = e.rd(st, o, add64(p.off, i), 1)
            if not isc(v): break
            if v == 0: return i
            i += 1
            if i > 100000: raise Unsupported('strlen')
        if e.mode != 'prove':
            while True:
                o = e.access(st, Ptr(p.o, add64(p.off, i)), 1, 'read (strlen)')
                v = e.rd(st, o, add64(p.off, i), 1)
                if isc(v):
                    if v == 0: return i
                elif e.decide(st, v == 0): return i
                i += 1
                if i > 4096: raise Unsupported('strlen')
        # first NUL at an arbitrary position; exists because the object is assumed NUL-terminated by the caller
        L = e.fresh(64, 'strlen')
        nd = e.node(o)
        e.assume(st, z3.ULT(L, tobv(o.size, 64) - tobv(p.off, 64)))
        e.assume(st, tobv(e.rdn(st, nd, simp(tobv(p.off, 64) + L), 1), 8) == 0)
        po = tobv(p.off, 64)
        fct = lambda k: tobv(e.rdn(st, nd, simp(po + k), 1), 8) != 0
        st.facts.append((L, fct))
        for (oid, L2, po2, f2) in st.ghost.get('strlens', ()):
            if oid == p.o and same_(po, po2):
                e.assume(st, z3.Implies(z3.ULT(L, L2), f2(L))); e.assume(st, z3.Implies(z3.ULT(L2, L), fct(L2)))
        st.ghost['strlens'] = st.ghost.get('strlens', ()) + ((p.o, L, po, fct),)
        e.assume(st, z3.Implies(L != 0, tobv(v, 8) != 0)) if i == 0 else None
        # obligation: a NUL exists: the final byte of the object is NUL
        e.oblige(st, tobv(e.rdn(st, nd, simp(tobv(o.size, 64) - 1), 1), 8) == 0, 'C string is NUL-terminated', 'memory')
        return L
    raise Unsupported('strlen')
@B('memcmp', 'bcmp', '__builtin_memcmp')
def _(e, st, I, a):
    p, q, n = a
    if isc(n):
        if n == 0: return 0
        op = e.access(st, p, n, 'read'); oq = e.access(st, q, n, 'read')
        if n <= 256:
            r = BVV(0, 32)
            for k in reversed(range(n)):
                x = e.unpiece(e.rd(st, op, add64(p.off, k), 1)); y = e.unpiece(e.rd(st, oq, add64(q.off, k), 1))
                if isc(x) and isc(y):
                    if x != y: r = BVV(1 if x > y else mask(32), 32)
                    continue
                X, Y = tobv(x, 8), tobv(y, 8)
                r = z3.If(X == Y, r, z3.If(z3.UGT(X, Y), BVV(1, 32), BVV(mask(32), 32)))
            return simp(r)
    # symbolic length: equal (fact at every index) or different at a skolem index
    if p.o == 0 or q.o == 0:
        if e.decide(st, tobv(n, 64) == 0): return 0
    op = e.access(st, p, n, 'read'); oq = e.access(st, q, n, 'read')
    pn, qn, po, qo = e.node(op), e.node(oq), p.off, q.off
    key = 'memcmp_pending'
    if key not in st.ghost:
        st.ghost[key] = (e.fresh(1, 'memeq'), e.fresh(64, 'mdiff'), e.fresh(1, 'mgt'))
    eq, k, gt = st.ghost[key]
    if e.decide(st, eq):
        del st.ghost[key]
        def fact(i, pn=pn, qn=qn, po=po, qo=qo, st=st):
            return tobv(e.rdn(st, pn, simp(tobv(po, 64) + i), 1), 8) == tobv(e.rdn(st, qn, simp(tobv(qo, 64) + i), 1), 8)
        st.facts.append((tobv(n, 64), fact))
        return 0
    del st.ghost[key]
    e.assume(st, z3.ULT(k, tobv(n, 64)))
    x = e.rdn(st, pn, simp(tobv(po, 64) + k), 1); y = e.rdn(st, qn, simp(tobv(qo, 64) + k), 1)
    e.assume(st, tobv(x, 8) != tobv(y, 8))
    if e.check(st, z3.BoolVal(True)) == z3.unsat: raise KillPath()
    return simp(z3.If(gt, BVV(1, 32), BVV(mask(32), 32)))
@B('strcmp')
def _(e, st, I, a):
    x, y = cstr(e, st, a[0]), cstr(e, st, a[1])
    if x is None or y is None: raise Unsupported('strcmp')
    return 0 if x == y else 1 if x > y else mask(32)
# ---------- llvm intrinsics
@R(r'^llvm\.(assume|dbg|lifetime|va_end|stackrestore|prefetch|donothing)')
def _(e, st, I, a): return None
@R(r'^llvm\.stacksave')
def _(e, st, I, a): return NULL
@R(r'^llvm\.expect')
def _(e, st, I, a): return a[0]
@R(r'^llvm\.threadlocal\.address')
def _(e, st, I, a): return a[0]
@R(r'^llvm\.trap')
def _(e, st, I, a): e.failkill(st, 'trap', 'assertion')
@B('htons', 'ntohs', 'htonl', 'ntohl')
@R(r'^llvm\.bswap\.')
def _(e, st, I, a):
    w = I.ty[1]; v = a[0]
    if isc(v): return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
@R(r'^llvm\.(umin|umax|smin|smax)\.')
def _(e, st, I, a):
    op = I.x['name'].split('.')[1]; w = I.ty[1]
    x, y = tobv(a[0], w), tobv(a[1], w)
    c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[op]
    return simp(z3.If(c, x, y))
@R(r'^llvm\.abs\.')
def _(e, st, I, a):
    w = I.ty[1]
    if isc(a[0]): return abs(signed(a[0], w)) & mask(w)
    return simp(z3.If(a[0] < 0, -a[0], a[0]))
@R(r'^llvm\.(cttz|ctlz|ctpop)\.')
def _(e, st, I, a):
    w = I.ty[1]; v = a[0]; op = I.x['name'].split('.')[1]
    if isc(v):
        if op == 'ctpop': return bin(v).count('1')
        if v == 0: return w
        return (v & -v).bit_length() - 1 if op == 'cttz' else w - v.bit_length()
    raise Unsupported(op)
@R(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow')
def _(e, st, I, a):
    m = re.match(r'^llvm\.(u|s)(add|sub|mul)', I.x['name']); w = I.ty[2][0][1][1]
    x, y = tobv(a[0], w), tobv(a[1], w)
    op = m.group(2); sg = m.group(1) == 's'
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
    if op == 'add': no = z3.BVAddNoOverflow(x, y, sg); no = z3.And(no, z3.BVAddNoUnderflow(x, y)) if sg else no
    elif op == 'sub': no = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if sg else z3.BVSubNoUnderflow(x, y, False)
    else: no = z3.BVMulNoOverflow(x, y, sg); no = z3.And(no, z3.BVMulNoUnderflow(x, y)) if sg else no
    if op == 'mul' and not sg and (isc(a[0]) or isc(a[1])):
        c, o = (a[0], y) if isc(a[0]) else (a[1], x)
        no = z3.ULE(o, mask(w) // c) if c else z3.BoolVal(True)
    ov = simp(z3.Not(no))
    return (simp(r), ov)
@R(r'^llvm\.eh\.typeid\.for')
def _(e, st, I, a): return e.typeid(e.tinfo_name(a[0]))
@R(r'^llvm\.va_start')
def _(e, st, I, a):
    va = st.frames[-1].va or []
    st.ghost[('va', a[0].o)] = va
    # the SysV va_list: all arguments in the overflow area
    ov = e.newobj(st, 8 * len(va) + 8, 'stack', 'va'); st.frames[-1].allocs.append(ov.o)
    for k, v in enumerate(va):
        if z3.is_bv(v) and v.size() < 64: v = z3.ZeroExt(64 - v.size(), v)
        if type(v) is float or z3.is_fp(v): continue
        e.wr(st, ov.o, 8 * k, 8, v)
    b = a[0]; st.wobj(b.o)
    for off, sz, v in ((0, 4, 48), (4, 4, 176), (8, 8, ov), (16, 8, Ptr(0, 0))): e.wr(st, b.o, add64(b.off, off), sz, v)
@R(r'^llvm\.va_copy')
def _(e, st, I, a):
    st.ghost[('va', a[0].o)] = st.ghost.get(('va', a[1].o))
    e.memcpy(st, a[0], a[1], 24)
# ---------- C++ runtime
@B('__cxa_allocate_exception')
def _(e, st, I, a): return e.newobj(st, a[0], 'exc', 'exception')
@B('__cxa_free_exception')
def _(e, st, I, a): return None
def exc_ref(e, st, x, d):
    k = ('excn', x.o); st.ghost[k] = st.ghost.get(k, 1) + d; return st.ghost[k]
def exc_drop(e, st, I, x, r=None):
    """drop one reference to an exception object; destroys it with the last one"""
    if x.o and exc_ref(e, st, x, -1) == 0:
        d = st.ghost.get(('excd', x.o)); F = e.m.funcs.get(d) if d else None
        if F is not None and not F.decl:
            e.finish(st, st.frames[-1], I, r); e.push(st, F, [x], None); return NOADV
    return r
@B('__cxa_throw')
def _(e, st, I, a):
    st.ghost[('excn', a[0].o)] = 1; st.ghost[('excd', a[0].o)] = e.idfn.get(a[2].o) if type(a[2]) is Ptr else None
    raise Throw(a[0], e.tinfo_name(a[1]))
@B('__cxa_begin_catch')
def _(e, st, I, a):
    st.caught.append((a[0], st.ghost.get(('exc', a[0].o))))
    return a[0]
@B('__cxa_get_exception_ptr')
def _(e, st, I, a): return a[0]
@B('__cxa_end_catch')
def _(e, st, I, a):
    if st.caught: return exc_drop(e, st, I, st.caught.pop()[0])
@B('__cxa_rethrow')
def _(e, st, I, a):
    x, t = st.caught[-1]; exc_ref(e, st, x, 1)
    raise Throw(x, t)
EP = '_ZNSt15__exception_ptr13exception_ptr'
@B('_ZSt17current_exceptionv')
def _(e, st, I, a):
    x = st.caught[-1][0] if st.caught else NULL
    if x.o: exc_ref(e, st, x, 1)
    e.store(st, a[0], x, ('p',))
@B('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _(e, st, I, a):
    x = e.load(st, a[0], ('p',)); exc_ref(e, st, x, 1); raise Throw(x, st.ghost.get(('exc', x.o)))
@B(EP + '9_M_addrefEv')
def _(e, st, I, a):
    x = e.load(st, a[0], ('p',))
    if x.o: exc_ref(e, st, x, 1)
@B(EP + '10_M_releaseEv', EP + 'D1Ev', EP + 'D2Ev')
def _(e, st, I, a):
    x = e.load(st, a[0], ('p',)); e.store(st, a[0], NULL, ('p',)); return exc_drop(e, st, I, x)
@B(EP + 'C1Ev', EP + 'C2Ev')
def _(e, st, I, a): e.store(st, a[0], NULL, ('p',))
@B(EP + 'C1ERKS0_', EP + 'C2ERKS0_')
def _(e, st, I, a):
    x = e.load(st, a[1], ('p',)); e.store(st, a[0], x, ('p',))
    if x.o: exc_ref(e, st, x, 1)
@B(EP + 'aSERKS0_')
def _(e, st, I, a):
    o = e.load(st, a[0], ('p',)); x = e.load(st, a[1], ('p',)); e.store(st, a[0], x, ('p',))
    if x.o: exc_ref(e, st, x, 1)
    return exc_drop(e, st, I, o, a[0])
@B(EP + 'C1EOS0_', EP + 'C2EOS0_')
def _(e, st, I, a):
    v = e.load(st, a[1], ('p',)); e.store(st, a[1], NULL, ('p',)); e.store(st, a[0], v, ('p',))
@B(EP + 'aSEOS0_')
def _(e, st, I, a):
    o = e.load(st, a[0], ('p',)); v = e.load(st, a[1], ('p',)); e.store(st, a[1], NULL, ('p',)); e.store(st, a[0], v, ('p',)); return exc_drop(e, st, I, o, a[0])
@B('__cxa_guard_acquire')
def _(e, st, I, a):
    v = e.load(st, a[0], ('i', 8)); return int(v == 0)
@B('__cxa_guard_release')
def _(e, st, I, a): e.store(st, a[0], 1, ('i', 8))
@B('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit')
def _(e, st, I, a): return 0
@B('__clang_call_terminate', '_ZSt9terminatev', 'abort', 'exit', '_exit', '__cxa_call_unexpected', '__cxa_pure_virtual')
def _(e, st, I, a):
    t = st.exc[1] if st.exc else ''
    e.failkill(st, f'process terminates ({I.x["name"]} {t})', 'termination')
@B('__assert_fail')
def _(e, st, I, a):
    e.failkill(st, 'assertion ' + str(cstr(e, st, a[0])), 'assertion')
@R(r'^_ZSt\d+__throw_(\w+)')
def _(e, st, I, a):
    n = re.match(r'^_ZSt\d+__throw_(length_error|out_of_range|logic_error|bad_alloc|bad_function_call|invalid_argument|bad_array_new_length|bad_cast|out_of_range_fmt|bad_weak_ptr|system_error)', I.x['name'])
    n = n.group(1) if n else 'logic_error'
    n = {'out_of_range_fmt': 'out_of_range', 'bad_array_new_length': 'bad_alloc'}.get(n, n)
    x = e.newobj(st, 16, 'exc', n)
    raise Throw(x, f'_ZTISt{len(n)}{n}')
@R(r'^_ZNSt(9exception|9bad_alloc|17bad_function_call)D[012]Ev$')
def _(e, st, I, a): return None
@R(r'^_ZNSt9exceptionC[12]')
def _(e, st, I, a): return None
@B('__errno_location')
def _(e, st, I, a):
    k = e.gcache.get('$errno')
    if k is None: k = e.gcache['$errno'] = e.nobj; e.nobj += 1
    if k not in st.mem:
        p = e.newobj(st, 4, 'global', 'errno', ('base', 'zero', 0)); o = st.mem.pop(p.o); o.id = k; st.mem[k] = o
    return Ptr(k, 0)
@B('__dynamic_cast')
def _(e, st, I, a):
    p, src, dst = a[0], e.tinfo_name(a[1]), e.tinfo_name(a[2])
    if p.o == 0: return NULL
    vt = e.load(st, p, ('p',))
    ti = e.load(st, Ptr(vt.o, sub64(vt.off, 8)), ('p',))
    n = e.tinfo_name(ti)
    return p if dst in e.bases(st, n) else NULL

# ---------- ctype / stdio (assumed contracts, C locale)
def _ctype(*ranges):
    def f(e, st, I, a):
        v = a[0]
        if isc(v): return int(any(lo <= v <= hi for lo, hi in ranges))
        return simp(z3.If(z3.Or(*[z3.And(z3.UGE(v, lo), z3.ULE(v, hi)) for lo, hi in ranges]), BVV(1, 32), BVV(0, 32)))
    return f
_D = (48, 57); _U = (65, 90); _L = (97, 122)
B('isdigit')(_ctype(_D)); B('isxdigit')(_ctype(_D, (65, 70), (97, 102))); B('isspace')(_ctype((9, 13), (32, 32)))
B('isalpha')(_ctype(_U, _L)); B('isalnum')(_ctype(_D, _U, _L)); B('isupper')(_ctype(_U)); B('islower')(_ctype(_L))
def _case(rng, d):
    def f(e, st, I, a):
        v = a[0]
        if isc(v): return v + d if rng[0] <= v <= rng[1] else v
        return simp(z3.If(z3.And(z3.UGE(v, rng[0]), z3.ULE(v, rng[1])), v + d, v))
    return f
B('toupper')(_case(_L, -32)); B('tolower')(_case(_U, 32))
def hexch(n, up=False):
    """character of nibble n (8-bit value 0..15)"""
    if isc(n): return ord('0123456789ABCDEF'[n] if up else '0123456789abcdef'[n])
    return simp(z3.If(z3.ULT(n, 10), n + 48, n + (55 if up else 87)))
def fmt_render(e, st, fmt, args):
    """list of byte values; args are engine values after default promotion"""
    out = []; i = 0; ai = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%': out.append(ord(c)); i += 1; continue
        m = re.match(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsp%])', fmt[i:])
        if not m: raise Unsupported('format ' + fmt[i:i + 8])
        i += m.end(); fl, wd, pr, ln, cv = m.groups()
        if cv == '%': out.append(37); continue
        v = args[ai]; ai += 1
        w = 64 if ln in ('l', 'll', 'z', 'j', 't') else 32
        if cv == 's':
            s = cstr(e, st, v)
            if s is None: raise Unsupported('%s of symbolic string')
            t = s[:int(pr)] if pr else s
            t = t.ljust(int(wd or 0)) if '-' in fl else t.rjust(int(wd or 0))
            out += list(t.encode('latin1')); continue
        if type(v) is Ptr: raise Unsupported('pointer format')
        if not isc(v): v = simp(v)
        if isc(v):
            if cv == 'c': out.append(v & 255); continue
            if cv in 'di':
                v &= mask(w); t = str(signed(v, w))
            elif cv == 'u': t = str(v & mask(w))
            elif cv in 'xX': t = '%x' % (v & mask(w)); t = t.upper() if cv == 'X' else t
            else: raise Unsupported('format %' + cv)
            n = int(wd or 0)
            t = t.ljust(n) if '-' in fl else t.zfill(n) if '0' in fl else t.rjust(n)
            out += list(t.encode()); continue
        if cv == 'c': out.append(e.trunc(v, 8)); continue
        if cv in 'xX' and e.valid(st, z3.ULE(v, 255)):
            b = e.trunc(v, 8); h = simp(z3.LShR(b, 4)); l = simp(b & 15)
            if '0' in fl and wd == '2': out += [hexch(h, cv == 'X'), hexch(l, cv == 'X')]; continue
            if wd == '' or wd == '1':
                if e.decide(st, z3.ULT(b, 16)): out.append(hexch(l, cv == 'X'))
                else: out += [hexch(h, cv == 'X'), hexch(l, cv == 'X')]
                continue
            if wd == '2' and fl == '': 
                out += [simp(z3.If(z3.ULT(b, 16), BVV(32, 8), tobv(hexch(h), 8))), hexch(l, cv == 'X')]; continue
        raise Unsupported('format of a symbolic value: ' + m.group(0))
    return out
def put_bytes(e, st, p, bs):
    for i, b in enumerate(bs): e.store(st, Ptr(p.o, add64(p.off, i)), b, ('i', 8))
@B('sprintf')
def _(e, st, I, a):
    f = cstr(e, st, a[1]); bs = fmt_render(e, st, f, a[2:])
    put_bytes(e, st, a[0], bs + [0]); return len(bs)
@B('snprintf')
def _(e, st, I, a):
    f = cstr(e, st, a[2]); bs = fmt_render(e, st, f, a[3:])
    if not isc(a[1]): raise Unsupported('snprintf size')
    if a[1]: put_bytes(e, st, a[0], bs[:a[1] - 1] + [0])
    return len(bs)
def xval(c):
    if isc(c): return int(chr(c), 16)
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))
def isx(c): return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))
@B('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def _(e, st, I, a):
    f = cstr(e, st, a[1])
    if f not in ('%02x', '%2x', '%02X', '%2X'): raise Unsupported('sscanf ' + str(f))
    def ch(k): 
        o = e.access(st, Ptr(a[0].o, add64(a[0].off, k)), 1, 'read (sscanf)')
        return tobv(e.unpiece(e.rd(st, o, add64(a[0].off, k), 1)), 8)
    c0 = ch(0)
    def out(v): e.store(st, a[2], simp(v), ('i', 32)); return 1
    if e.decide(st, isx(c0)):
        c1 = ch(1)
        if e.decide(st, isx(c1)): return out(z3.ZeroExt(24, tobv(xval(c0), 8) * 16 + tobv(xval(c1), 8)))
        if e.decide(st, z3.And(c0 == 48, z3.Or(c1 == 120, c1 == 88))):
            out(BVV(0, 32)); return 1
        return out(z3.ZeroExt(24, tobv(xval(c0), 8)))
    if e.decide(st, z3.Or(c0 == 43, c0 == 45)):
        c1 = ch(1)
        if not e.decide(st, isx(c1)): return 0
        v = z3.ZeroExt(24, tobv(xval(c1), 8)); return out(z3.If(c0 == 45, -v, v))
    if e.decide(st, c0 == 0): return mask(32)
    if e.decide(st, z3.Or(c0 == 32, z3.And(z3.UGE(c0, 9), z3.ULE(c0, 13)))):
        return out(e.fresh(32, 'scan'))    # skips white space, then reads whatever follows
    return 0

@B('isatty', 'fflush', 'fileno', 'fputs', 'fputc', 'putc', 'puts', 'putchar', 'fclose')
def _(e, st, I, a): return 0
@B('vf_concrete')
def _(e, st, I, a):
    p, n = a
    if not isc(n) or n > 4096: return 0
    if n == 0: return 1
    o = st.mem.get(p.o)
    return int(o is not None and all(isc(e.unpiece(e.rd(st, o, add64(p.off, i), 1))) for i in range(n)))
@B('vf_strtod')
def _(e, st, I, a):
    p, n, out, idx = a
    if not isc(n): raise Unsupported('stod of symbolic text')
    bs = [e.rd(st, st.mem[p.o], add64(p.off, i), 1) for i in range(n)]
    if not all(isc(b) for b in bs): raise Unsupported('stod of symbolic text')
    t = bytes(bs).decode('latin1').split('\0')[0]
    m = re.match(r'\s*([-+]?(?:(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|inf(?:inity)?|nan))', t, re.I)
    if not m: return 1
    v = float(m.group(1))
    if (v in (float('inf'), float('-inf')) and 'i' not in m.group(1).lower()) or (v == 0 and re.search('[1-9]', m.group(1).lower().split('e')[0])): return 2
    e.store(st, out, struct.unpack('<Q', struct.pack('<d', v))[0], ('i', 64)); e.store(st, idx, m.end(), ('i', 64)); return 0
@B('vf_raw_vector')
def _(e, st, I, a):
    p = alloc(e, st, a[1], 'rawvec')
    e.store(st, a[0], p, ('p',)); e.store(st, Ptr(a[0].o, add64(a[0].off, 8)), Ptr(p.o, a[1]), ('p',))
