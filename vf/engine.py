"""Symbolic-execution core of the deductive verifier.

State = call stack + object memory + path condition.  All values are either concrete Python ints or z3
bit-vectors/bools; pointers are (object, offset).  Objects hold a layered, quantifier-free description of
their bytes so that symbolic-length copies/fills need no quantifiers."""
import re, z3, struct, time, re, sys, os
from . import ir
from .ir import UNDEF

BVS, BVV = z3.BitVec, z3.BitVecVal
LIMIT = 1 << 36          # allocations above this throw bad_alloc
ADDR = 1 << 40

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(s, cond): s.cond = cond
class KillPath(Exception): pass
class Halt(Exception): pass
class Throw(Exception):
    """raised by builtins to start C++ unwinding"""
    def __init__(s, ptr, tinfo): s.ptr = ptr; s.tinfo = tinfo

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return f'Ptr({s.o},{s.off})'
NULL = Ptr(0, 0)

class FSym:
    """opaque floating value"""
    __slots__ = ('n', 'e')
    def __init__(s, n, e=None): s.n = n; s.e = e
class Piece:
    __slots__ = ('v', 'k', 'n')
    def __init__(s, v, k, n): s.v = v; s.k = k; s.n = n

def isc(v): return type(v) is int
def simp(e):
    if type(e) is int: return e
    e = z3.simplify(e, bv_le2extract=False)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e
def tobv(v, w):
    if type(v) is int: return BVV(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, BVV(1, w), BVV(0, w))
    return v
def tobool(v):
    if type(v) is int: return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef): return v
    return v != 0
def signed(v, w): return v - (1 << w) if v >> (w - 1) else v
def mask(w): return (1 << w) - 1

def add64(a, b):
    if type(a) is int and type(b) is int: return (a + b) & mask(64)
    if type(b) is int and b == 0: return a
    if type(a) is int and a == 0: return b
    return simp(tobv(a, 64) + tobv(b, 64))
def sub64(a, b):
    if type(a) is int and type(b) is int: return (a - b) & mask(64)
    if type(b) is int and b == 0: return a
    return simp(tobv(a, 64) - tobv(b, 64))

class Obj:
    __slots__ = ('id', 'size', 'kind', 'alive', 'name', 'cells', 'under', 'own', 'ro', 'const')
    def clone(s, own):
        o = Obj(); o.id = s.id; o.size = s.size; o.kind = s.kind; o.alive = s.alive; o.name = s.name
        o.cells = dict(s.cells); o.under = s.under; o.own = own; o.ro = s.ro; o.const = s.const
        return o

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'allocs', 'call', 'loops', 'onret', 'va', 'tag')
    def clone(s):
        f = Frame(); f.fn = s.fn; f.blk = s.blk; f.prev = s.prev; f.ip = s.ip; f.regs = list(s.regs)
        f.allocs = list(s.allocs); f.call = s.call; f.loops = dict(s.loops); f.onret = s.onret; f.va = s.va; f.tag = s.tag
        return f

class LoopRec:
    __slots__ = ('mode', 'snap', 'iters', 'symit', 'data', 'nosum')
    def copy(s):
        r = LoopRec(); r.mode = s.mode; r.snap = s.snap; r.iters = s.iters; r.symit = s.symit; r.data = s.data; r.nosum = s.nosum
        return r

_tok = [0]
class State:
    def __init__(s):
        _tok[0] += 1
        s.tok = _tok[0]
        s.frames = []; s.mem = {}; s.pcs = []; s.caught = []; s.inputs = []; s.ghost = {}; s.trace = []; s.wlog = None; s.exc = None
        s.facts = []; s.model = None; s.steps = 0; s.lockd = {}
    def clone(s):
        n = State.__new__(State)
        _tok[0] += 1; n.tok = _tok[0]
        _tok[0] += 1; s.tok = _tok[0]
        n.frames = [f.clone() for f in s.frames]; n.mem = dict(s.mem); n.pcs = list(s.pcs); n.caught = list(s.caught)
        n.inputs = list(s.inputs); n.ghost = dict(s.ghost); n.trace = list(s.trace); n.wlog = s.wlog; n.exc = s.exc
        n.facts = list(s.facts); n.model = s.model; n.steps = s.steps; n.lockd = dict(s.lockd)
        return n
    def wobj(s, i):
        o = s.mem[i]
        if o.own != s.tok:
            o = o.clone(s.tok); s.mem[i] = o
        return o

class Failure:
    def __init__(s, label, kind, where, inputs, trace, status, bounded, detail=''):
        s.label = label; s.kind = kind; s.where = where; s.inputs = inputs; s.trace = trace
        s.status = status; s.bounded = bounded; s.detail = detail

class Engine:
    def __init__(self, module, mode='prove', opts=None):
        self.m = module
        self.mode = mode            # 'prove' | 'bounded'
        self.o = dict(unroll=6, timeout_ms=20000, max_fail=1, deadline=None, hooks={}, max_paths=20000, stopfail=True)
        if opts: self.o.update(opts)
        self.nobj = 1
        self.nfresh = 0
        self.solver = z3.Solver(); self.solver.set('timeout', 400)
        self.sstack = []
        from .lia import Lia
        self.lia = Lia(); self.lsolver = z3.Solver(); self.lsolver.set('timeout', 2000); self.lstack = []; self.lopq = False; self.nlia = 0
        self.fails = []; self.discharged = {}; self.oblig = 0; self.covers = {}; self.unknowns = []
        self.bounded = set(); self.unsupported = {}; self.funcs_run = {}; self.paths = 0
        self.repc = {}; self.summ = {}; self.hookuse = {}; self.sumfail = {}
        self.tsolve = 0.0; self.nq = 0
        self.gcache = {}        # global name -> obj id
        self.fnids = {}; self.idfn = {}
        self.base = State()
        self.typeids = {}
        self.work = []
        self.noreport = 0
        self.assumed = {}
        self.inloop = 0
        self.strict_uninit = False
        from . import builtins_
        self.B = builtins_.table()
        self.Bre = builtins_.regex_table()
        self.D = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}

    # ---------- solver
    def fresh(self, w, name='v'):
        self.nfresh += 1
        if w == 1: return z3.Bool(f'{name}!{self.nfresh}')
        return BVS(f'{name}!{self.nfresh}', w)
    def sync(self, st):
        s = self.sstack; p = st.pcs; i = 0; n = min(len(s), len(p))
        while i < n and s[i] is p[i]: i += 1
        if len(s) > i:
            self.solver.pop(len(s) - i); del s[i:]
        for c in p[i:]:
            self.solver.push(); self.solver.add(c); s.append(c)
    def lsync(self, st):
        s = self.lstack; p = st.pcs; i = 0; n = min(len(s), len(p))
        while i < n and s[i][0] is p[i]: i += 1
        if len(s) > i:
            self.lsolver.pop(len(s) - i); del s[i:]
        for c in p[i:]:
            b, side, opq = self.lia.boolt(c)
            self.lsolver.push()
            for x in side: self.lsolver.add(x)
            self.lsolver.add(b)
            s.append((c, opq))
        self.lopq = any(x[1] for x in s)
    def check(self, st, cond, force=False):
        """sat status of pc /\\ cond"""
        if st.model is not None and not force:
            try:
                if z3.is_true(st.model.eval(cond, model_completion=True)): return z3.sat
            except z3.Z3Exception: pass
        t = time.time()
        if self.o['deadline'] and t > self.o['deadline']: raise Halt('deadline')
        self.nq += 1
        r = None
        if not force:
            b, side, opq = self.lia.boolt(cond)
            self.lsync(st)
            ls = self.lsolver
            ls.push()
            for x in side: ls.add(x)
            ls.add(b)
            r = ls.check()
            ls.pop()
            if r == z3.unsat: self.nlia += 1
            elif r == z3.sat and not opq and not self.lopq: self.nlia += 1
            else: r = None
        if r is None:
            self.sync(st)
            self.solver.push(); self.solver.add(cond)
            r = self.solver.check()
            if r == z3.sat: self.lastmodel = st.model = self.solver.model()
            self.solver.pop()
            if r == z3.unknown: r = self.fallback(st, cond)
        dt = time.time() - t
        self.tsolve += dt
        if dt > 2 and os.environ.get('VF_SLOW'):
            print('SLOW', round(dt, 2), r, st.frames[-1].fn.name[:80] if st.frames else '', str(cond)[:300], file=sys.stderr)
        return r
    def fallback(self, st, cond):
        for mk in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'qfaufbv').solver(), lambda: z3.Solver(), lambda: z3.SolverFor('QF_AUFBV')):
            s = mk(); s.set('timeout', self.o['timeout_ms'])
            for c in st.pcs: s.add(c)
            s.add(cond)
            r = s.check()
            if r != z3.unknown:
                if r == z3.sat: self.lastmodel = s.model()
                return r
        self.unk_q = getattr(self, 'unk_q', 0) + 1
        return z3.unknown
    def feasible(self, st, cond):
        c = simp(cond)
        if isc(c): return bool(c)
        return self.check(st, c) != z3.unsat
    def valid(self, st, cond):
        c = simp(cond)
        if isc(c): return bool(c)
        return self.check(st, z3.Not(c)) == z3.unsat
    def tri(self, st, cond):
        """True / False / None"""
        c = simp(cond)
        if isc(c): return bool(c)
        if self.check(st, z3.Not(c)) == z3.unsat: return True
        if self.check(st, c) == z3.unsat: return False
        return None
    def assume(self, st, cond):
        c = simp(cond)
        if isc(c):
            if not c: raise KillPath()
            return
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None
            except z3.Z3Exception: st.model = None
        st.pcs.append(c)
    def decide(self, st, cond):
        c = simp(cond)
        if isc(c): return bool(c)
        t = self.tri(st, c)
        if t is None: raise Fork(c)
        return t
    def concretize(self, st, v, what, maxn=64):
        """case split a symbolic value into concrete ones"""
        if isc(v): return v
        v2 = simp(v)
        if isc(v2): return v2
        self.sync(st)
        if self.solver.check() != z3.sat: raise KillPath()
        m = self.solver.model()
        c = m.eval(v2, model_completion=True).as_long()
        if self.valid(st, v2 == c): return c
        raise Fork(v2 == c)

    # ---------- obligations
    def where(self, st):
        for f in reversed(st.frames):
            if f.fn is None: continue
            b = f.fn.blocks[f.blk].ins
            i = b[min(f.ip, len(b) - 1)]
            if i.line and '/repo/' in i.file: return f'{i.file}:{i.line}'
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk].ins
            i = b[min(f.ip, len(b) - 1)]
            if i.line: return f'{i.file}:{i.line}'
        return '?'
    def backtrace(self, st):
        r = []
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk].ins
            i = b[min(f.ip, len(b) - 1)]
            r.append(f'{f.fn.name} {i.file}:{i.line}')
        return r[:14]
    def oblige(self, st, cond, label, kind='assert'):
        """prove pc => cond; record failure otherwise; then assume cond"""
        c = simp(cond)
        if self.noreport:
            if isc(c):
                if not c: raise KillPath()
                return
            self.assume(st, c); return
        self.oblig += 1
        key = (kind, label)
        if isc(c):
            if c: self.discharged[key] = self.discharged.get(key, 0) + 1; return
            if self.check(st, z3.BoolVal(True), force=True) == z3.unsat: raise KillPath()
            self.fail(st, label, kind, 'sat')
            raise KillPath()
        r = self.check(st, z3.Not(c))
        if r == z3.unsat:
            self.discharged[key] = self.discharged.get(key, 0) + 1
            self.assume(st, c) if False else None
            return
        if r == z3.sat:
            st2 = st
            self.check(st, z3.Not(c), force=True)
            self.fail(st, label, kind, 'sat', z3.Not(c))
        else:
            self.unknowns.append((label, kind, self.where(st)))
        self.assume(st, c)
        if not self.feasible(st, z3.BoolVal(True)): raise KillPath()
    def failkill(self, st, label, kind):
        self.oblige(st, 0, label, kind)
        raise KillPath()
    def fail(self, st, label, kind, status, extra=None):
        inputs = self.extract(st, extra)
        f = Failure(label, kind, self.where(st), inputs, self.backtrace(st), status, self.mode, '')
        self.fails.append(f)
        if len(self.fails) >= self.o['max_fail'] and self.o['stopfail']: raise Halt('fail')
    def extract(self, st, extra):
        """concrete values of the nondet inputs of this path, sizes minimised"""
        s = z3.SolverFor('QF_AUFBV'); s.set('timeout', 10000)
        for c in st.pcs: s.add(c)
        if extra is not None: s.add(extra)
        if s.check() != z3.sat:
            s = z3.Solver(); s.set('timeout', 10000)
            for c in st.pcs: s.add(c)
            if extra is not None: s.add(extra)
            if s.check() != z3.sat: return None
        for kind, name, v in st.inputs:
            if kind == 'bytes' and not isc(v[0]):
                for b in (4, 16, 64, 300, 5000, 70000):
                    s.push(); s.add(z3.ULE(v[0], b))
                    if s.check() == z3.sat: break
                    s.pop()
            elif kind == 'u64':
                for b in (4, 64, 1024, 70000):
                    s.push(); s.add(z3.ULE(v, b))
                    if s.check() == z3.sat: break
                    s.pop()
        if s.check() != z3.sat: return None
        m = s.model()
        out = []
        for kind, name, v in st.inputs:
            if kind == 'bytes':
                n, arr = v
                nn = n if isc(n) else m.eval(n, model_completion=True).as_long()
                if nn > (1 << 22): out.append(('bytes', name, None, nn)); continue
                bs = bytes(m.eval(z3.Select(arr, BVV(i, 64)), model_completion=True).as_long() for i in range(min(nn, 8192))) + b'\0' * max(0, nn - 8192)
                out.append(('bytes', name, bs.hex(), nn))
            elif isc(v): out.append((kind, name, v))
            elif isinstance(v, z3.BoolRef): out.append((kind, name, int(z3.is_true(m.eval(v, model_completion=True)))))
            else: out.append((kind, name, m.eval(v, model_completion=True).as_long()))
        return out

    # ---------- memory
    def newobj(self, st, size, kind, name='', base=None):
        i = self.nobj; self.nobj += 1
        o = Obj(); o.id = i; o.size = size; o.kind = kind; o.alive = True; o.name = name; o.cells = {}
        if base is None: base = ('base', 'undef', i)
        o.under = base; o.own = st.tok; o.ro = False; o.const = False
        st.mem[i] = o
        return Ptr(i, 0)
    def undef_arr(self, i): return z3.Array(f'u!{i}', z3.BitVecSort(64), z3.BitVecSort(8))
    def fnptr(self, name):
        i = self.fnids.get(name)
        if i is None:
            i = self.fnids[name] = self.nobj; self.nobj += 1; self.idfn[i] = name
        return Ptr(i, 0)
    def gptr(self, st, name):
        i = self.gcache.get(name)
        if i is None:
            i = self.gcache[name] = self.nobj; self.nobj += 1
        if i not in st.mem:
            L = self.m.L; g = self.m.gname[name]
            ty = self.m.ty(L.LLVMGlobalGetValueType(g))
            o = Obj(); o.id = i; o.size = self.m.size(ty); o.kind = 'global'; o.alive = True; o.name = name; o.cells = {}
            o.under = ('base', 'zero', 0); o.own = st.tok; o.ro = False; o.const = bool(L.LLVMIsGlobalConstant(g))
            st.mem[i] = o
            init = L.LLVMGetInitializer(g)
            if init and not L.LLVMIsDeclaration(g):
                self.ginit(st, o, 0, self.m.const(init), ty)
            elif not (name.startswith('_ZTVN10__cxxabi') or name.startswith('_ZTI') or name.startswith('_ZTV') or name in ('stderr', 'stdout', 'stdin', '__dso_handle')):
                o.under = ('base', 'undef', i)
        return Ptr(i, 0)
    def ginit(self, st, o, off, c, ty):
        k = c[0]
        if k == 'zero' or k == 'undef': return
        if k == 'bytes':
            if off == 0 and not o.cells: o.under = ('base', 'bytes', c[1])
            else:
                for j, b in enumerate(c[1]): o.cells[off + j] = (1, b)
            return
        if k == 'agg':
            if c[1][0] == 's':
                for (eo, et), e in zip(c[1][2], c[2]): self.ginit(st, o, off + eo, e, et)
            else:
                es = self.m.size(c[1][2])
                for j, e in enumerate(c[2]): self.ginit(st, o, off + j * es, e, c[1][2])
            return
        v = self.cval(st, c)
        o.cells[off] = (self.m.size(ty), v)
    def cval(self, st, c):
        k = c[0]
        if k == 'int': return c[1]
        if k == 'null': return NULL
        if k == 'gl':
            p = self.gptr(st, c[1]); return Ptr(p.o, c[2]) if c[2] else p
        if k == 'fn': return self.fnptr(c[1])
        if k == 'flt': return c[1]
        if k == 'i2p': return self.i2p(st, c[1])
        if k == 'undef': return self.undefval(c[1])
        if k == 'zero': return self.zeroval(c[1])
        if k == 'agg': return tuple(self.cval(st, e) for e in c[2])
        if k in ('sub', 'add'): return self.arith(k, self.cval(st, c[1]), self.cval(st, c[2]), c[3])
        if k == 'trunc': return self.toint(self.cval(st, c[1])) & mask(c[2])
        raise Unsupported('const ' + str(c))
    def undefval(self, t):
        k = t[0]
        if k == 'i': return self.fresh(t[1], 'undef')
        if k == 'p': return NULL
        if k == 'f': return 0.0
        if k == 's': return tuple(self.undefval(e) for _, e in t[2])
        if k == 'a': return tuple(self.undefval(t[2]) for _ in range(t[1]))
        return 0
    def zeroval(self, t):
        k = t[0]
        if k == 'p': return NULL
        if k == 'f': return 0.0
        if k == 's': return tuple(self.zeroval(e) for _, e in t[2])
        if k == 'a': return tuple(self.zeroval(t[2]) for _ in range(t[1]))
        return 0
    def toint(self, v):
        """pointer -> address"""
        if type(v) is Ptr:
            b = v.o * ADDR
            return add64(b, v.off) if v.o else v.off
        return v
    def i2p(self, st, v):
        if type(v) is Ptr: return v
        v = simp(v)
        if isc(v):
            o = v // ADDR; off = v % ADDR
            if o and (o in st.mem or o in self.idfn): return Ptr(o, off)
            return Ptr(0, v)
        return Ptr(0, v)

    def access(self, st, p, size, what, write=False):
        """memory-safety obligation; returns Obj"""
        if type(p) is not Ptr: p = self.i2p(st, p)
        if p.o == 0:
            self.failkill(st, f'null/invalid pointer {what}', 'memory')
        o = st.mem.get(p.o)
        if o is None:
            if p.o in self.idfn: self.failkill(st, f'{what} on code pointer', 'memory')
            self.failkill(st, f'dangling pointer {what}', 'memory')
        if not o.alive:
            self.failkill(st, f'use after free/scope ({what} of {o.kind} {o.name})', 'memory')
        off = p.off
        if isc(off) and isc(o.size) and isc(size):
            if off + size > o.size:
                self.failkill(st, f'out of bounds {what} ({o.kind} {o.name})', 'memory')
        else:
            if isc(size) and size == 0: return o
            sz = tobv(size, 64); osz = tobv(o.size, 64); of = tobv(off, 64)
            c = z3.Or(sz == 0, z3.And(z3.ULE(of, osz), z3.ULE(sz, osz - of)))
            self.oblige(st, c, f'in-bounds {what}', 'memory')
        if write and o.const: self.failkill(st, f'write to constant {o.name}', 'memory')
        return o

    def node(self, o):
        """immutable chain for the current content"""
        if len(o.cells) > 256: self.compact(o)
        if o.cells: return ('cells', dict(o.cells), o.under)
        return o.under

    def compact(self, o):
        """long runs of equal constant cells become one fill layer (same content)"""
        keep = {}; under = o.under; ks = sorted(o.cells); i = 0; n = len(ks)
        def byte(c):
            if not isc(c[1]): return None
            b = c[1] & 255
            return b if c[1] == int.from_bytes(bytes([b]) * c[0], 'little') else None
        while i < n:
            c = o.cells[ks[i]]; b = byte(c)
            j = i; e = ks[i] + c[0]
            if b is not None:
                while j + 1 < n and ks[j + 1] == e and byte(o.cells[ks[j + 1]]) == b: j += 1; e = ks[j] + o.cells[ks[j]][0]
            if j - i >= 32: under = ('fill', ks[i], e - ks[i], b, under)
            else:
                for q in range(i, j + 1): keep[ks[q]] = o.cells[ks[q]]
            i = j + 1
        if under is not o.under: o.under = under; o.cells = keep
    # -- loads
    def load(self, st, p, t):
        k = t[0]
        if k == 's':
            return tuple(self.load(st, Ptr(p.o, add64(p.off, eo)), et) for eo, et in t[2])
        if k == 'a':
            es = self.m.size(t[2])
            return tuple(self.load(st, Ptr(p.o, add64(p.off, j * es)), t[2]) for j in range(t[1]))
        size = self.m.size(t)
        if type(p) is not Ptr: p = self.i2p(st, p)
        o = self.access(st, p, size, 'read')
        v = self.rd(st, o, p.off, size)
        return self.conv(st, v, t, size)
    def conv(self, st, v, t, size):
        k = t[0]
        if k == 'i':
            w = t[1]
            if type(v) is Ptr:
                return v if w == 64 else self.trunc(self.toint(v), w)
            if type(v) is float: return int.from_bytes(struct.pack('<d' if size == 8 else '<f', v), 'little')
            if type(v) is FSym: return self.fresh(w, 'fbits') if v.e is None else v.e
            if w == 1:
                if isc(v): return v & 1
                if isinstance(v, z3.BoolRef): return v
                return simp(z3.Extract(0, 0, v) == 1)
            if w < size * 8: return self.trunc(v, w)
            if isinstance(v, z3.BoolRef): return z3.If(v, BVV(1, w), BVV(0, w))
            return v
        if k == 'p':
            if type(v) is Ptr: return v
            return self.i2p(st, v)
        if k == 'f':
            if type(v) in (float, FSym): return v
            if type(v) is Ptr: raise Unsupported('ptr as float')
            if isc(v) and size in (4, 8): return struct.unpack('<d' if size == 8 else '<f', v.to_bytes(size, 'little'))[0]
            return FSym(self.nfresh, v)
        raise Unsupported('load ' + str(t))
    def trunc(self, v, w):
        if isc(v): return v & mask(w)
        if isinstance(v, z3.BoolRef): return v if w == 1 else z3.If(v, BVV(1, w), BVV(0, w))
        if v.size() == w: return v
        if w == 1: return simp(z3.Extract(0, 0, v) == 1)
        return simp(z3.Extract(w - 1, 0, v))

    def rd(self, st, o, off, size):
        if isc(off):
            c = o.cells.get(off)
            if c is not None and c[0] == size: return c[1]
            if o.cells: return self.rdn(st, ('cells', o.cells, o.under), off, size)
            return self.rdn(st, o.under, off, size)
        return self.rdn(st, self.node(o), off, size)
    def rdn(self, st, n, off, size):
        """value of [off,off+size) in chain n"""
        n0 = n
        while True:
            k = n[0]
            if k == 'cells':
                cells = n[1]
                if isc(off):
                    c = cells.get(off)
                    if c is not None and c[0] == size: return c[1]
                    hit = False
                    for d in range(-16, size):
                        c = cells.get(off + d)
                        if c is not None and (d >= 0 or c[0] > -d): hit = True; break
                    if hit: return self.bytes_(st, n, off, size)
                    n = n[2]; continue
                lo = min(cells); hi = max(a + c[0] for a, c in cells.items())
                ov = z3.And(z3.UGT(off + size, lo), z3.ULT(off, hi))
                if self.tri(st, ov) is False: n = n[2]; continue
                if len(cells) <= 64:
                    cs = [(a, c) for a, c in cells.items() if c[0] == size and self.check(st, off == a) != z3.unsat]
                    if len(cs) == 1 and self.valid(st, off == cs[0][0]): return cs[0][1][1]
                    if cs and self.valid(st, z3.Or(*[off == a for a, c in cs])):
                        if any(type(c[1]) in (Ptr, float, FSym) for a, c in cs): raise Fork(off == cs[0][0])
                        r = tobv(cs[-1][1][1], 8 * size)
                        for a, c in cs[:-1]: r = z3.If(off == a, tobv(c[1], 8 * size), r)
                        return simp(r)
                return self.bytes_(st, n, off, size)
            if k == 'w':
                wo, ws, wv, nx = n[1:]
                d = sub64(off, wo)
                if isc(d):
                    if d == 0 and ws == size: return wv
                    if d >= ws and d <= mask(64) + 1 - size: n = nx; continue
                    return self.bytes_(st, n, off, size)
                if ws == size:
                    e = self.tri(st, d == 0)
                    if e is True: return wv
                dis = self.tri(st, z3.And(z3.UGE(d, ws), z3.ULE(d, mask(64) + 1 - size)))
                if dis is True: n = nx; continue
                return self.bytes_(st, n, off, size)
            if k in ('fill', 'copy', 'map'):
                so, ln = n[1], n[2]
                d = sub64(off, so)
                dd = tobv(d, 64); l = tobv(ln, 64)
                ins = self.tri(st, z3.And(z3.ULT(dd, l), z3.ULE(size, l - dd)))
                if ins is True:
                    if k == 'fill':
                        if isc(n[3]): return int.from_bytes(bytes([n[3]]) * size, 'little')
                        return n[3] if size == 1 else z3.Concat(*([n[3]] * size))
                    if k == 'copy':
                        off = add64(n[4], d); n = n[3]; continue
                    mp = n[3]
                    v = mp.read(self, st, d, size)
                    if v is not None: return v
                    if mp.sparse: return self.bytes_(st, n, off, size)
                    return self.bytes_(st, n, off, size)
                # disjoint
                dis = self.tri(st, z3.Or(l == 0, z3.And(z3.UGE(dd, l), z3.ULE(dd, mask(64) + 1 - size) if size > 1 else z3.BoolVal(True))))
                if dis is True: n = n[-1]; continue
                if size > 1:
                    INS = z3.And(z3.ULT(dd, l), z3.ULE(size, l - dd)); DIS = z3.Or(l == 0, z3.And(z3.UGE(dd, l), z3.ULE(dd, mask(64) + 1 - size)))
                    if self.valid(st, z3.Or(INS, DIS)):
                        s1 = st.clone(); s1.pcs.append(INS); s1.model = None
                        s2 = st.clone(); s2.pcs.append(DIS); s2.model = None
                        n1 = len(s1.pcs); n2 = len(s2.pcs)
                        a = self.rdn(s1, n, off, size); b = self.rdn(s2, n[-1], off, size)
                        if type(a) in (Ptr, float, FSym) or type(b) in (Ptr, float, FSym): raise Fork(INS)
                        for c in s1.pcs[n1:]: st.pcs.append(z3.Implies(INS, c)); st.model = None     # facts instantiated while reading
                        for c in s2.pcs[n2:]: st.pcs.append(z3.Implies(DIS, c)); st.model = None
                        return simp(z3.If(INS, tobv(a, 8 * size), tobv(b, 8 * size)))
                return self.bytes_(st, n, off, size)
            # base
            return self.rdbase(st, n, off, size)
    def rdbase(self, st, n, off, size):
        k = n[1]
        if k == 'zero': return 0
        if k == 'bytes' and isc(off):
            b = n[2][off:off + size]
            b = b + b'\0' * (size - len(b))
            return int.from_bytes(b, 'little')
        if k == 'bytes':
            if size != 1: return self.bytes_(st, n, off, size)
            r = BVV(0, 8)
            for i, c in enumerate(n[2]): r = z3.If(off == i, BVV(c, 8), r)
            return simp(r)
        if k == 'undef':
            arr = self.undef_arr(n[2])
        else: arr = n[2]
        of = tobv(off, 64)
        bs = [z3.Select(arr, simp(of + i) if not isc(off) else BVV(off + i, 64)) for i in range(size)]
        if size == 1: return simp(bs[0])
        return simp(z3.Concat(*reversed(bs)))
    def bytes_(self, st, n, off, size):
        if size == 1: return self.rdbyte(st, n, off)
        if size > 64: raise Unsupported('wide read')
        bs = [self.rdbyte(st, n, add64(off, i)) for i in range(size)]
        return self.asm(st, bs)
    def asm(self, st, bs):
        if all(isc(b) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        b0 = bs[0]
        if type(b0) is Piece:
            if len(bs) == b0.n and all(type(b) is Piece and b.k == i and (b.v is b0.v or (type(b.v) is Ptr and type(b0.v) is Ptr and b.v.o == b0.v.o and (b.v.off is b0.v.off or (isc(b.v.off) and isc(b0.v.off) and b.v.off == b0.v.off)))) for i, b in enumerate(bs)):
                return b0.v
        bb = [self.unpiece(b) for b in bs]
        return simp(z3.Concat(*[tobv(b, 8) for b in reversed(bb)]))
    def unpiece(self, b):
        if type(b) is Piece:
            v = b.v
            if type(v) is Ptr: v = self.toint(v)
            elif type(v) is float: v = int.from_bytes(struct.pack('<d' if b.n == 8 else '<f', v), 'little')
            elif type(v) is FSym:
                if v.e is None: v.e = self.fresh(b.n * 8, 'fbits')
                v = v.e
            return self.bytek(v, b.k)
        return b
    def bytek(self, v, k):
        if isc(v): return (v >> (8 * k)) & 255
        if isinstance(v, z3.BoolRef): return z3.If(v, BVV(1, 8), BVV(0, 8)) if k == 0 else 0
        if v.size() <= 8 * k: return 0
        if v.size() < 8 * k + 8: return simp(z3.ZeroExt(8 * k + 8 - v.size(), z3.Extract(v.size() - 1, 8 * k, v)))
        return simp(z3.Extract(8 * k + 7, 8 * k, v))
    def piece(self, v, k, n):
        if type(v) in (Ptr, float, FSym): return Piece(v, k, n)
        return self.bytek(v, k)
    def ite(self, st, c, a, b):
        c = simp(c)
        if isc(c): return a if c else b
        if type(a) is Piece or type(b) is Piece:
            raise Fork(c)
        if isc(a) and isc(b) and a == b: return a
        return z3.If(c, tobv(a, 8), tobv(b, 8))
    def rdbyte(self, st, n, off):
        while True:
            k = n[0]
            if k == 'cells':
                cells = n[1]
                if isc(off):
                    for d in range(0, 17):
                        c = cells.get(off - d)
                        if c is not None:
                            if c[0] > d: return self.piece(c[1], d, c[0])
                            break
                    # cells may be shadowed only by exact overlap; continue search beyond first found
                    else: d = None
                    if d is not None:
                        for d2 in range(d + 1, 17):
                            c = cells.get(off - d2)
                            if c is not None and c[0] > d2: return self.piece(c[1], d2, c[0])
                    n = n[2]; continue
                cands = []
                for a, c in cells.items():
                    for j in range(c[0]): cands.append((a + j, c, j))
                lo = min(cells); hi = max(a + c[0] for a, c in cells.items())
                t = self.tri(st, z3.And(z3.UGE(off, lo), z3.ULT(off, hi)))
                if t is False: n = n[2]; continue
                if len(cands) > 4096: raise Unsupported('symbolic read over large cell object')
                if len(cands) <= 80: cands = [x for x in cands if self.check(st, off == x[0]) != z3.unsat]
                dense = bool(cands) and self.valid(st, z3.Or(*[off == x[0] for x in cands])) if len(cands) <= 80 else (t is True and hi - lo == len(cands))
                r = None
                if not dense: r = self.rdbyte(st, n[2], off)
                for a, c, j in cands:
                    pv = self.piece(c[1], j, c[0])
                    r = pv if r is None else self.ite(st, off == a, pv, r)
                return simp(r) if not type(r) is Piece else r
            if k == 'w':
                wo, ws, wv, nx = n[1:]
                d = sub64(off, wo)
                if isc(d):
                    if d < ws: return self.piece(wv, d, ws)
                    n = nx; continue
                t = self.tri(st, z3.ULT(d, ws))
                if t is False: n = nx; continue
                if ws == 1: v = self.piece(wv, 0, 1)
                else:
                    v = self.piece(wv, 0, ws)
                    for j in range(1, ws): v = self.ite(st, d == j, self.piece(wv, j, ws), v)
                if t is True: return v
                return self.ite(st, z3.ULT(d, ws), v, self.rdbyte(st, nx, off))
            if k in ('fill', 'copy', 'map'):
                d = sub64(off, n[1])
                cond = z3.ULT(tobv(d, 64), tobv(n[2], 64))
                t = self.tri(st, cond)
                if t is False: n = n[-1]; continue
                if k == 'fill': v = n[3]
                elif k == 'copy':
                    if t is True: off = add64(n[4], d); n = n[3]; continue
                    v = self.rdbyte(st, n[3], add64(n[4], d))
                else:
                    v, hit = n[3].byte(self, st, d)
                    if hit is not None:
                        rest = self.rdbyte(st, n[-1], off)
                        return self.ite(st, z3.And(cond, hit), v, rest)
                if t is True: return v
                return self.ite(st, cond, v, self.rdbyte(st, n[-1], off))
            return self.rdbase(st, n, off, 1)

    # -- stores
    def store(self, st, p, v, t):
        k = t[0]
        if k == 's':
            for (eo, et), e in zip(t[2], v): self.store(st, Ptr(p.o, add64(p.off, eo)), e, et)
            return
        if k == 'a':
            es = self.m.size(t[2])
            for j, e in enumerate(v): self.store(st, Ptr(p.o, add64(p.off, j * es)), e, t[2])
            return
        size = self.m.size(t)
        if type(p) is not Ptr: p = self.i2p(st, p)
        self.access(st, p, size, 'write', True)
        if k == 'i' and t[1] == 1 and isinstance(v, z3.BoolRef): pass
        elif k == 'i' and t[1] < size * 8 and not isc(v) and type(v) is not Ptr and isinstance(v, z3.BitVecRef):
            v = z3.ZeroExt(size * 8 - v.size(), v)
        self.wr(st, p.o, p.off, size, v)
    def wr(self, st, oid, off, size, v):
        o = st.wobj(oid)
        if st.wlog is not None: st.wlog.append((oid, off, size))
        if not isc(off): off = simp(off)
        if isc(off):
            self.clear_cells(o, off, size)
            o.cells[off] = (size, v)
        else:
            o.under = ('w', off, size, v, self.node(o)); o.cells = {}
    def clear_cells(self, o, off, size):
        cells = o.cells
        if not cells: return
        c = cells.get(off)
        if c is not None and c[0] == size: return
        if size <= 64:
            rng = range(off - 16, off + size)
            keys = [a for a in rng if a in cells]
        else: keys = [a for a in cells if a > off - 17 and a < off + size]
        for a in keys:
            cs, cv = cells[a]
            if a + cs <= off: continue
            if a >= off and a + cs <= off + size: del cells[a]; continue
            del cells[a]
            for j in range(cs):
                if not (off <= a + j < off + size):
                    pv = self.piece(cv, j, cs)
                    cells[a + j] = (1, self.unpiece(pv))
    def memset(self, st, p, byte, n):
        if isc(n) and n == 0: return
        self.access(st, p, n, 'write', True)
        o = st.wobj(p.o)
        if st.wlog is not None: st.wlog.append((p.o, p.off, n))
        if isc(p.off) and isc(n) and isc(byte) and n <= 256:
            self.clear_cells(o, p.off, n)
            off = p.off; left = n
            while left:
                s = 8 if off % 8 == 0 and left >= 8 else 4 if off % 4 == 0 and left >= 4 else 1
                o.cells[off] = (s, int.from_bytes(bytes([byte]) * s, 'little')); off += s; left -= s
            return
        o.under = ('fill', p.off, n, byte, self.node(o)); o.cells = {}
    def memcpy(self, st, d, s, n):
        if isc(n) and n == 0: return
        if not isc(n):
            n = simp(n)
            if isc(n) and n == 0: return
        if not isc(n) and (d.o == 0 or s.o == 0):
            # pointer may be null only if n==0
            if self.tri(st, n == 0) is True: return
            if self.decide(st, n == 0): return
        so = self.access(st, s, n, 'read'); self.access(st, d, n, 'write', True)
        if d.o == s.o and isc(sub64(d.off, s.off)) and sub64(d.off, s.off) == 0: return
        if isc(n) and isc(s.off) and isc(d.off) and n <= 512 and (so.cells or n <= 16):
            items = self.range_items(st, so, s.off, n)
            do = st.wobj(d.o)
            if st.wlog is not None: st.wlog.append((d.o, d.off, n))
            self.clear_cells(do, d.off, n)
            for a, sz, v in items: do.cells[d.off + a] = (sz, v)
            return
        sn = self.node(so)
        do = st.wobj(d.o)
        if st.wlog is not None: st.wlog.append((d.o, d.off, n))
        do.under = ('copy', d.off, n, sn, s.off, self.node(do)); do.cells = {}
    def range_items(self, st, o, off, n):
        out = []; a = 0
        while a < n:
            c = o.cells.get(off + a)
            if c is not None and a + c[0] <= n: out.append((a, c[0], c[1])); a += c[0]; continue
            # next cell boundary
            s = 8 if (off + a) % 8 == 0 and n - a >= 8 else 4 if (off + a) % 4 == 0 and n - a >= 4 else 1
            if s > 1 and any((off + a + j) in o.cells for j in range(1, s)): s = 1
            out.append((a, s, self.rd(st, o, off + a, s))); a += s
        return out
    def free(self, st, p, what):
        if p.o == 0: return
        o = st.mem.get(p.o)
        if o is None or o.kind != 'heap' or not (isc(p.off) and p.off == 0):
            self.failkill(st, f'invalid free ({what})', 'memory')
        if not o.alive: self.failkill(st, f'double free ({what})', 'memory')
        o = st.wobj(p.o); o.alive = False; o.cells = {}; o.under = ('base', 'undef', o.id)

    # ---------- expression evaluation
    def val(self, st, fr, opd):
        if opd[0] == 'l':
            return fr.regs[opd[1]]
        if opd[0] == 'c': return self.cval(st, opd[1])
        return None
    def arith(self, op, a, b, w):
        if type(a) is Ptr or type(b) is Ptr:
            if op == 'add':
                if type(a) is Ptr and type(b) is not Ptr: return Ptr(a.o, add64(a.off, b))
                if type(b) is Ptr and type(a) is not Ptr: return Ptr(b.o, add64(b.off, a))
            if op == 'sub':
                if type(a) is Ptr and type(b) is Ptr and a.o == b.o: return sub64(a.off, b.off)
                if type(a) is Ptr and type(b) is not Ptr: return Ptr(a.o, sub64(a.off, b))
            a = self.toint(a); b = self.toint(b)
        if w == 1:
            a1, b1 = a, b
            if isc(a) and isc(b): return {'add': a ^ b, 'sub': a ^ b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'mul': a & b}[op]
            A, Bb = tobool(a), tobool(b)
            r = {'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'and': z3.And, 'or': z3.Or, 'mul': z3.And}[op](A, Bb)
            return simp(r)
        if isc(a) and isc(b):
            M = mask(w)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (signed(a, w) >> min(b, w - 1)) & M
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op in ('sdiv', 'srem'):
                x, y = signed(a, w), signed(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & M
        A, Bb = tobv(a, w), tobv(b, w)
        if op == 'add': r = A + Bb
        elif op == 'sub': r = A - Bb
        elif op == 'mul': r = A * Bb
        elif op == 'and': r = A & Bb
        elif op == 'or': r = A | Bb
        elif op == 'xor': r = A ^ Bb
        elif op == 'shl': r = A << Bb
        elif op == 'lshr': r = z3.LShR(A, Bb)
        elif op == 'ashr': r = A >> Bb
        elif op == 'udiv': r = z3.UDiv(A, Bb)
        elif op == 'urem': r = z3.URem(A, Bb)
        elif op == 'sdiv': r = A / Bb
        elif op == 'srem': r = z3.SRem(A, Bb)
        else: raise Unsupported(op)
        return simp(r)
    def icmp(self, st, pred, a, b, t):
        if type(a) is Ptr or type(b) is Ptr:
            if type(a) is not Ptr: a = self.i2p(st, a)
            if type(b) is not Ptr: b = self.i2p(st, b)
            if a.o == b.o: a, b = a.off, b.off
            elif pred == 'eq': return 0
            elif pred == 'ne': return 1
            else: a, b = self.toint(a), self.toint(b)
            w = 64
        else: w = t[1] if t[0] == 'i' else 64
        if isc(a) and isc(b):
            if pred[0] == 's' : a, b = signed(a, w), signed(b, w)
            p = pred[-2:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
        if w == 1:
            A, Bb = tobool(a), tobool(b)
            if pred == 'eq': return simp(A == Bb)
            if pred == 'ne': return simp(A != Bb)
            A, Bb = tobv(a, 1) if not isinstance(a, z3.BoolRef) else z3.If(a, BVV(1, 1), BVV(0, 1)), tobv(b, 1) if not isinstance(b, z3.BoolRef) else z3.If(b, BVV(1, 1), BVV(0, 1))
        else: A, Bb = tobv(a, w), tobv(b, w)
        r = {'eq': lambda: A == Bb, 'ne': lambda: A != Bb, 'ugt': lambda: z3.UGT(A, Bb), 'uge': lambda: z3.UGE(A, Bb),
             'ult': lambda: z3.ULT(A, Bb), 'ule': lambda: z3.ULE(A, Bb), 'sgt': lambda: A > Bb, 'sge': lambda: A >= Bb,
             'slt': lambda: A < Bb, 'sle': lambda: A <= Bb}[pred]()
        return simp(r)

    # ---------- running
    def run(self, st):
        """explore st fully (DFS)"""
        self.work.append(st)
        while self.work:
            s = self.work.pop()
            self.run1(s)
    def run1(self, st, stop=None):
        try:
            while True:
                if not st.frames: self.paths += 1; self.endpath(st); return
                self.step(st)
        except KillPath:
            return
        except Unsupported as e:
            self.unsupported.setdefault(str(e), self.backtrace(st) if st.frames else [])
            return
    def endpath(self, st): pass

    def step(self, st):
        fr = st.frames[-1]
        I = fr.fn.blocks[fr.blk].ins[fr.ip]
        st.steps += 1
        if st.steps & 1023 == 0:
            if self.o['deadline'] and time.time() > self.o['deadline']: raise Halt('deadline')
            if st.steps > self.o.get('max_steps', 3000000): raise Unsupported('step limit')
        try:
            h = self.D.get(I.op)
            if h is None: raise Unsupported('instr ' + I.op)
            h(st, fr, I)
        except Fork as f:
            self.dofork(st, f.cond)
        except Throw as t:
            self.unwind(st, t.ptr, t.tinfo)
    def dofork(self, st, c):
        s2 = st.clone()
        ok1 = self.check(st, c) != z3.unsat
        ok2 = self.check(st, z3.Not(c)) != z3.unsat
        if ok2:
            s2.pcs.append(z3.Not(c)); s2.model = None
            if ok1: self.work.append(s2)
            else:
                st.pcs.append(z3.Not(c)); st.model = None
                return
        if ok1: st.pcs.append(c); st.model = None
        else: raise KillPath()

    def setreg(self, fr, I, v): fr.regs[I.dst] = v

    # ---- control flow
    def op_br(self, st, fr, I):
        if len(I.x) == 1: self.jump(st, fr, I.x[0]); return
        c = self.val(st, fr, I.ops[0])
        if isc(c): self.jump(st, fr, I.x[0] if c else I.x[1]); return
        if I.x[0] == I.x[1]: self.jump(st, fr, I.x[0]); return
        c = simp(tobool(c))
        if isc(c): self.jump(st, fr, I.x[0] if c else I.x[1]); return
        a = self.check(st, c) != z3.unsat
        b = self.check(st, z3.Not(c)) != z3.unsat
        if a and b:
            # is this a loop exit?
            lp = self.exit_loop(fr, I.x)
            if lp is not None:
                if self.loop_symbolic(st, fr, lp): return
            s2 = st.clone()
            s2.pcs.append(z3.Not(c)); s2.model = None
            f2 = s2.frames[-1]
            try:
                self.jump(s2, f2, I.x[1])
                self.work.append(s2)
            except KillPath: pass
            st.pcs.append(c); st.model = None
            self.jump(st, fr, I.x[0])
        elif a: self.jump(st, fr, I.x[0])
        elif b: self.jump(st, fr, I.x[1])
        else: raise KillPath()
    def op_switch(self, st, fr, I):
        v = self.val(st, fr, I.ops[0]); d, cases, w = I.x
        if isc(v):
            for c, b in cases:
                if c == v: self.jump(st, fr, b); return
            self.jump(st, fr, d); return
        if w == 1: v = tobv(v, 1) if not isinstance(v, z3.BoolRef) else z3.If(v, BVV(1, 1), BVV(0, 1))
        for c, b in cases:
            if self.decide(st, v == c): self.jump(st, fr, b); return
        self.jump(st, fr, d)
    def op_unreachable(self, st, fr, I):
        raise KillPath()
    def jump(self, st, fr, t):
        prev = fr.blk
        fn = fr.fn
        B = fn.blocks[t]
        # phis
        k = 0
        if B.ins[0].op == 'phi':
            vals = []
            for J in B.ins:
                if J.op != 'phi': break
                vals.append((J.dst, self.val(st, fr, J.x[prev])))
            for d, v in vals: fr.regs[d] = v
            k = len(vals)
        fr.prev = prev; fr.blk = t; fr.ip = k
        if t in fn.loops: self.loop_header(st, fr, t, prev in fn.loops[t])
    def op_ret(self, st, fr, I):
        v = self.val(st, fr, I.ops[0]) if I.ops else None
        self.doret(st, fr, v)
    def doret(self, st, fr, v):
        st.frames.pop()
        for o in fr.allocs:
            ob = st.mem.pop(o, None)
        if fr.onret: 
            if fr.onret(self, st, v) == 'stop': return
        c = fr.call
        if c is None: return
        cf = st.frames[-1]
        if v is not None: cf.regs[c.dst] = v
        if c.op == 'invoke': self.jump(st, cf, c.x['nd'])
        else: cf.ip += 1

    # ---- loops
    def exit_loop(self, fr, succ):
        best = None
        for h, body in fr.fn.loops.items():
            if fr.blk in body and ((succ[0] in body) != (succ[1] in body)):
                if best is None or len(body) < len(fr.fn.loops[best]): best = h
        return best
    def loop_header(self, st, fr, h, back):
        from . import loops
        loops.header(self, st, fr, h, back)
    def loop_symbolic(self, st, fr, h):
        from . import loops
        return loops.symbolic_exit(self, st, fr, h)

    # ---- calls
    def op_call(self, st, fr, I): self.docall(st, fr, I)
    op_invoke = op_call
    def docall(self, st, fr, I):
        nm = I.x['name']
        if nm is None:
            c = I.x['callee']
            if c[0] == 'asm':
                self.finish(st, fr, I, None); return
            p = self.val(st, fr, c)
            if type(p) is not Ptr: p = self.i2p(st, p)
            nm = self.idfn.get(p.o)
            if nm is None:
                self.failkill(st, 'call through invalid function pointer', 'memory')
        args = [self.val(st, fr, o) for o in I.ops]
        if I.x['byval']:
            pass
        self.invoke_fn(st, fr, I, nm, args)
    def replaced(self, nm):
        """callee contract standing in for a function (opts 'replace': regex -> driver function)"""
        c = self.repc.get(nm, 0)
        if c == 0:
            c = None
            for rx, t in self.o.get('replace', {}).items():
                if re.search(rx, nm): c = self.m.funcs.get(t); self.hookuse[(nm, t)] = self.hookuse.get((nm, t), 0) + 1; break
            self.repc[nm] = c
        return c
    def invoke_fn(self, st, fr, I, nm, args):
        if self.o.get('replace'):
            R = self.replaced(nm)
            if R is not None and not any(f.fn is R for f in st.frames): self.push(st, R, args, I); return
        b = self.B.get(nm)
        if b is None:
            F = self.m.funcs.get(nm)
            if F is None or F.decl:
                for rx, fn in self.Bre:
                    if rx.search(nm): b = fn; self.B[nm] = fn; break
        if b is not None:
            r = b(self, st, I, args)
            if r is NOADV: return
            self.finish(st, fr, I, r)
            return
        if F is None or F.decl: raise Unsupported('external ' + nm)
        self.push(st, F, args, I)
    def push(self, st, F, args, I, onret=None):
        if not F.conv: self.m.convert(F)
        if len(st.frames) > 220: raise Unsupported('recursion depth')
        self.funcs_run[F.name] = self.funcs_run.get(F.name, 0) + 1
        f = Frame(); f.fn = F; f.blk = 0; f.prev = -1; f.ip = 0; f.regs = [None] * F.nregs; f.allocs = []; f.call = I
        f.loops = {}; f.onret = onret; f.va = None; f.tag = None
        n = F.nparams
        for i in range(n):
            f.regs[i] = args[i] if i < len(args) else None
        if len(args) > n: f.va = args[n:]
        if I is not None and I.x and I.x['byval']:
            for j, sz in I.x['byval'].items():
                p = self.newobj(st, sz, 'stack', 'byval')
                self.memcpy(st, p, args[j], sz); f.regs[j] = p; f.allocs.append(p.o)
        st.frames.append(f)
    def finish(self, st, fr, I, v):
        if v is not None: fr.regs[I.dst] = v
        if I.op == 'invoke': self.jump(st, fr, I.x['nd'])
        else: fr.ip += 1

    # ---- exceptions
    def tinfo_name(self, p):
        if p.o == 0: return None
        for n, i in self.gcache.items():
            if i == p.o: return n
        return None
    def bases(self, st, name):
        """type-info names this type converts to"""
        r = [name]
        g = self.m.gname.get(name)
        if g is not None and not self.m.L.LLVMIsDeclaration(g):
            c = self.m.const(self.m.L.LLVMGetInitializer(g))
            for e in c[2][2:]:
                if e[0] == 'gl' and e[1].startswith('_ZTI'): r += self.bases(st, e[1])
        else:
            from .builtins_ import STDEXC
            if name in STDEXC: r += self.bases(st, STDEXC[name])
        return r
    def typeid(self, name):
        if name not in self.typeids: self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]
    def unwind(self, st, exc, tname):
        """exc: Ptr to exception object, tname: type-info symbol"""
        while st.frames:
            fr = st.frames[-1]
            I = fr.fn.blocks[fr.blk].ins[fr.ip]
            if I.op == 'invoke':
                lpb = I.x['ud']
                lp = fr.fn.blocks[lpb].ins
                k = 0
                while lp[k].op == 'phi': k += 1
                L = lp[k]
                sel = 0; hit = L.x[1]
                bs = self.bases(st, tname)
                for kind, c in L.x[0]:
                    if kind == 'catch':
                        if c[0] == 'null': sel = self.typeid('<any>'); hit = True; break
                        if c[1] in bs: sel = self.typeid(c[1]); hit = True; break
                    else:
                        # filter (exception spec) : treat an empty filter as terminate
                        sel = (-1) & mask(32); hit = True; break
                if hit:
                    self.jump(st, fr, lpb)
                    fr.regs[L.dst] = (exc, sel)
                    fr.ip = k + 1
                    st.exc = (exc, tname)
                    st.ghost[('exc', exc.o)] = tname
                    return
            for o in fr.allocs: st.mem.pop(o, None)
            if fr.onret: 
                st.frames.pop()
                self.failkill(st, f'exception {tname} escapes hook', 'exception')
            if len(st.frames) == 1:
                self.oblige(st, 0, f'uncaught exception {tname}', 'exception')
                raise KillPath()
            st.frames.pop()
        raise KillPath()
    def op_landingpad(self, st, fr, I): raise Unsupported('landingpad reached')
    def op_resume(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        exc = v[0]
        tn = st.ghost[('exc', exc.o)]
        for o in fr.allocs: st.mem.pop(o, None)
        if len(st.frames) == 1:
            self.oblige(st, 0, f'uncaught exception {tn}', 'exception'); raise KillPath()
        st.frames.pop()
        self.unwind(st, exc, tn)

    # ---- memory instrs
    def op_alloca(self, st, fr, I):
        n = self.val(st, fr, I.ops[0])
        size = I.x[0]
        if not isc(n): size = simp(tobv(n, 64) * size)
        else: size = size * n
        p = self.newobj(st, size, 'stack', I.name)
        fr.allocs.append(p.o); fr.regs[I.dst] = p; fr.ip += 1
    def op_load(self, st, fr, I):
        fr.regs[I.dst] = self.load(st, self.val(st, fr, I.ops[0]), I.ty); fr.ip += 1
    def op_store(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        self.store(st, self.val(st, fr, I.ops[1]), v, I.x); fr.ip += 1
    # atomic operations: the contract's interference hook runs before (kind) and after (kind|8) each one
    def ahook(self, st, fr, p, kind):
        h = self.o.get('atomic_hook')
        if not h: return False
        F = self.m.funcs.get(h)
        if F is None or any(f.fn is F for f in st.frames): return False
        if kind < 8:
            if fr.loops.get('atomdone') == (fr.blk, fr.ip): return False
            fr.loops['atomdone'] = (fr.blk, fr.ip)
        else: fr.loops.pop('atomdone', None)
        self.push(st, F, [p, kind], None)
        return True
    def op_aload(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        if self.ahook(st, fr, p, 0): return
        self.op_load(st, fr, I); self.ahook(st, fr, p, 8)
    def op_astore(self, st, fr, I):
        p = self.val(st, fr, I.ops[1])
        if self.ahook(st, fr, p, 1): return
        self.op_store(st, fr, I); self.ahook(st, fr, p, 9)
    def op_gep(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        off, dyn = I.x
        if type(p) is not Ptr: p = self.i2p(st, p)
        o = add64(p.off, off & mask(64))
        for opd, scale, w in dyn:
            v = self.val(st, fr, opd)
            if type(v) is Ptr: v = self.toint(v)
            if isc(v): o = add64(o, (signed(v, w) * scale) & mask(64))
            else:
                v = tobv(v, w)
                if w < 64: v = z3.SignExt(64 - w, v)
                o = add64(o, simp(v * scale))
        fr.regs[I.dst] = Ptr(p.o, o); fr.ip += 1
    def binop(self, st, fr, I):
        a = self.val(st, fr, I.ops[0]); b = self.val(st, fr, I.ops[1]); op = I.op; w = I.ty[1]
        if I.ty[0] != 'i': raise Unsupported('vector op')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if isc(b):
                if b == 0: self.failkill(st, 'division by zero', 'arith')
            else: self.oblige(st, b != 0, 'division by zero', 'arith')
        if op in ('shl', 'lshr', 'ashr') and w > 1:
            if isc(b):
                if b >= w: self.failkill(st, f'shift amount out of range', 'arith')
            else: self.oblige(st, z3.ULT(b, w), 'shift amount in range', 'arith')
        fr.regs[I.dst] = self.arith(op, a, b, w); fr.ip += 1
    op_add = op_sub = op_mul = op_and = op_or = op_xor = op_shl = op_lshr = op_ashr = op_udiv = op_sdiv = op_urem = op_srem = binop
    def op_icmp(self, st, fr, I):
        fr.regs[I.dst] = self.icmp(st, I.x[0], self.val(st, fr, I.ops[0]), self.val(st, fr, I.ops[1]), I.x[1]); fr.ip += 1
    def op_select(self, st, fr, I):
        c = self.val(st, fr, I.ops[0]); a = self.val(st, fr, I.ops[1]); b = self.val(st, fr, I.ops[2])
        if not isc(c):
            c = simp(tobool(c))
        if isc(c): r = a if c else b
        elif I.ty[0] == 'i' and type(a) is not Ptr and type(b) is not Ptr:
            w = I.ty[1]
            if w == 1: r = simp(z3.If(c, tobool(a), tobool(b)))
            else: r = simp(z3.If(c, tobv(a, w), tobv(b, w)))
        else:
            r = a if self.decide(st, c) else b
        fr.regs[I.dst] = r; fr.ip += 1
    def op_zext(self, st, fr, I):
        v = self.val(st, fr, I.ops[0]); w = I.ty[1]; w0 = I.x[1]
        if isc(v): r = v
        elif isinstance(v, z3.BoolRef): r = z3.If(v, BVV(1, w), BVV(0, w))
        else: r = simp(z3.ZeroExt(w - w0, tobv(self.toint(v), w0)))
        fr.regs[I.dst] = r; fr.ip += 1
    def op_sext(self, st, fr, I):
        v = self.val(st, fr, I.ops[0]); w = I.ty[1]; w0 = I.x[1]
        if isc(v): r = signed(v, w0) & mask(w)
        elif isinstance(v, z3.BoolRef): r = z3.If(v, BVV(mask(w), w), BVV(0, w))
        else: r = simp(z3.SignExt(w - w0, v))
        fr.regs[I.dst] = r; fr.ip += 1
    def op_trunc(self, st, fr, I):
        v = self.toint(self.val(st, fr, I.ops[0]))
        fr.regs[I.dst] = self.trunc(v, I.ty[1]); fr.ip += 1
    def op_ptrtoint(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        if type(v) is Ptr and I.ty[1] < 64: v = self.trunc(self.toint(v), I.ty[1])
        elif type(v) is Ptr and v.o == 0: v = v.off
        fr.regs[I.dst] = v; fr.ip += 1
    def op_inttoptr(self, st, fr, I):
        fr.regs[I.dst] = self.i2p(st, self.val(st, fr, I.ops[0])); fr.ip += 1
    def op_bitcast(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        if I.ty[0] != I.x[0]: v = self.conv(st, v, I.ty, self.m.size(I.ty))
        fr.regs[I.dst] = v; fr.ip += 1
    def op_freeze(self, st, fr, I):
        fr.regs[I.dst] = self.val(st, fr, I.ops[0]); fr.ip += 1
    def op_extractvalue(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        for i in I.x: v = v[i]
        fr.regs[I.dst] = v; fr.ip += 1
    def op_insertvalue(self, st, fr, I):
        a = self.val(st, fr, I.ops[0]); v = self.val(st, fr, I.ops[1])
        def ins(a, ix):
            if not ix: return v
            l = list(a); l[ix[0]] = ins(l[ix[0]], ix[1:]); return tuple(l)
        if not isinstance(a, tuple): a = self.undefval(I.ty)
        fr.regs[I.dst] = ins(a, I.x); fr.ip += 1
    def op_fence(self, st, fr, I): fr.ip += 1
    def op_cmpxchg(self, st, fr, I):
        p = self.val(st, fr, I.ops[0]); cmp = self.val(st, fr, I.ops[1]); new = self.val(st, fr, I.ops[2])
        t = I.x
        if self.ahook(st, fr, p, 3): return
        old = self.load(st, p, t)
        eq = self.icmp(st, 'eq', old, cmp, t)
        if not isc(eq): eq = int(self.decide(st, eq))
        if eq: self.store(st, p, new, t)
        fr.regs[I.dst] = (old, eq); fr.ip += 1
        self.ahook(st, fr, p, 11)
    def op_atomicrmw(self, st, fr, I):
        p = self.val(st, fr, I.ops[0]); v = self.val(st, fr, I.ops[1]); t = I.ty
        if self.ahook(st, fr, p, 2): return
        old = self.load(st, p, t)
        op = I.x
        if op == 'xchg': new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): new = self.arith(op, old, v, t[1])
        else: raise Unsupported('rmw ' + op)
        self.store(st, p, new, t)
        fr.regs[I.dst] = old; fr.ip += 1
        self.ahook(st, fr, p, 10)
    # ---- floats: concrete or opaque
    def fbin(self, st, fr, I):
        a = self.val(st, fr, I.ops[0]); b = self.val(st, fr, I.ops[1])
        if type(a) is float and type(b) is float:
            try: r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b, 'frem': lambda: a % b}[I.op]()
            except ZeroDivisionError: r = float('inf') if a > 0 else float('-inf') if a < 0 else float('nan')
        else: r = FSym(self.nf())
        fr.regs[I.dst] = r; fr.ip += 1
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = fbin
    def nf(self):
        self.nfresh += 1; return self.nfresh
    def op_fneg(self, st, fr, I):
        a = self.val(st, fr, I.ops[0]); fr.regs[I.dst] = -a if type(a) is float else FSym(self.nf()); fr.ip += 1
    def op_fcmp(self, st, fr, I):
        a = self.val(st, fr, I.ops[0]); b = self.val(st, fr, I.ops[1])
        if type(a) is float and type(b) is float:
            nan = a != a or b != b
            p = I.x
            r = {'oeq': a == b, 'ogt': a > b, 'oge': a >= b, 'olt': a < b, 'ole': a <= b, 'one': a != b, 'ord': not nan}.get(p)
            if r is None: r = nan or {'ueq': a == b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b, 'une': a != b, 'uno': False}[p]
            else: r = r and not nan
            fr.regs[I.dst] = int(bool(r))
        else: fr.regs[I.dst] = self.fresh(1, 'fcmp')
        fr.ip += 1
    def op_fpconv(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        fr.regs[I.dst] = struct.unpack('<f', struct.pack('<f', a))[0] if type(a) is float and I.op == 'fptrunc' else a; fr.ip += 1
    op_fptrunc = op_fpext = op_fpconv
    def op_fptoui(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        fr.regs[I.dst] = int(a) & mask(I.ty[1]) if type(a) is float else self.fresh(I.ty[1], 'fp2i'); fr.ip += 1
    op_fptosi = op_fptoui
    def op_uitofp(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        fr.regs[I.dst] = float(a) if isc(a) else FSym(self.nf()); fr.ip += 1
    def op_sitofp(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        fr.regs[I.dst] = float(signed(a, I.x[1])) if isc(a) else FSym(self.nf()); fr.ip += 1
    def op_va_arg(self, st, fr, I): raise Unsupported('va_arg')

    # ---------- entry
    def start(self, fname, args=()):
        """run global constructors, then the driver function, exhaustively"""
        st = State()
        g = self.m.gname.get('llvm.global_ctors')
        ctors = []
        if g is not None:
            init = self.m.L.LLVMGetInitializer(g)
            c = self.m.const(init)
            if c[0] == 'agg':
                for e in c[2]: ctors.append((e[2][0][1], e[2][1][1]))
        ctors.sort(key=lambda x: x[0])
        F = self.m.funcs[fname]
        self.push(st, F, list(args), None)
        for _, n in reversed(ctors):
            self.push(st, self.m.funcs[n], [], None)
        self.run(st)

NOADV = object()
