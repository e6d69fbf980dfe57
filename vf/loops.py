"""Loop handling: user loop contracts (hooks), automatic affine summaries, bounded unrolling."""
import z3, re
from .engine import *
from .engine import LoopRec, _tok

def lname(fr, h):
    I = fr.fn.blocks[h].ins[-1]
    return f'{fr.fn.name}#{h}'

def header(e, st, fr, h, back):
    rec = fr.loops.get(h)
    if not back:
        rec = LoopRec(); rec.mode = 'unroll'; rec.iters = 0; rec.symit = 0; rec.snap = None; rec.data = None; rec.nosum = False
        fr.loops[h] = rec
        if e.mode == 'prove' and e.o['hooks'] and not any(g != h and h in b for g, b in fr.fn.loops.items()):
            hk = find_hook(e, fr.fn)
            if hk is not None:
                start_hook(e, st, fr, h, rec, hk); return
    else:
        rec = rec.copy(); fr.loops[h] = rec
        if rec.mode == 'hook': back_hook(e, st, fr, h, rec); return
        if rec.mode == 'collect':
            rec.data['ends'].append(st.clone()); raise KillPath()
        if rec.mode == 'summ':
            check_summary(e, st, fr, h, rec); raise KillPath()
        rec.iters += 1
        if rec.iters > e.o.get('max_iters', 5000): raise Unsupported('loop iteration limit ' + lname(fr, h))
    if e.mode == 'prove' and not rec.nosum:
        # forget snapshots of enclosing computations inside the snapshot to bound memory
        rec.snap = None
        s = st.clone()
        rec.snap = s

def find_hook(e, fn):
    for rx, hk in e.o['hooks'].items():
        if re.search(rx, fn.name): return hk
    return None

# ---------------- user contracts
def start_hook(e, st, fr, h, rec, hk):
    F = e.m.funcs.get(hk)
    if F is None or F.decl: raise Unsupported('no hook ' + hk)
    fr.loops['hooked'] = h
    rec.mode = 'hook'; rec.data = dict(hk=hk)
    e.hookuse[(fr.fn.name, hk)] = e.hookuse.get((fr.fn.name, hk), 0) + 1
    depth = len(st.frames)
    def after_havoc(e, st, v):
        f = st.frames[-1]
        r = f.loops[h] = f.loops[h].copy()
        wl = st.wlog; st.wlog = None
        r.data = dict(hk=hk, havoc=list(wl or ()) + r.data.get('auto', []), mem=dict(st.mem), marks=len(st.pcs))
        # freeze: objects in snapshot must not be mutated by this state
        _tok[0] += 1; st.tok = _tok[0]
    def after_enter(e, st, v):
        f = st.frames[-1]
        r = f.loops[h] = f.loops[h].copy()
        auto = auto_havoc(e, st, f, h)
        r.data = dict(hk=hk, auto=auto)
        st.wlog = []
        e.push(st, F, [1], None, onret=after_havoc)
    e.push(st, F, [0], None, onret=after_enter)

def auto_havoc(e, st, fr, h):
    """scalar locals syntactically assigned in the loop get arbitrary values"""
    out = []
    body = fr.fn.loops[h]
    for b in body:
        for I in fr.fn.blocks[b].ins:
            if I.op == 'store' and I.ops[1][0] == 'l':
                p = fr.regs[I.ops[1][1]]
                # only direct allocas of this frame
                if type(p) is Ptr and p.o in fr.allocs and isc(p.off) and I.ops[1][1] in fr.fn.allocas.values():
                    t = I.x
                    if t[0] == 'i':
                        st.wobj(p.o); e.wr(st, p.o, p.off, e.m.size(t), e.fresh(e.m.size(t) * 8, 'lv'))
                        out.append((p.o, p.off, e.m.size(t)))
                    elif t[0] in 'pf': out.append((p.o, p.off, 8))
    return out

def back_hook(e, st, fr, h, rec):
    F = e.m.funcs[rec.data['hk']]
    def done(e, st, v):
        f = st.frames[-1]
        frame_check(e, st, f, f.loops[h])
        raise KillPath()
    e.push(st, F, [2], None, onret=done)

def covered(e, st, hv, oid, off, size):
    for (o, ho, hs) in hv:
        if o != oid: continue
        if ho == 'size': continue
        if isc(off) and isc(ho) and isc(hs) and isc(size):
            if ho <= off and off + size <= ho + hs: return True
        else: return True
    return False
def frame_check(e, st, fr, rec):
    old = rec.data['mem']; hv = rec.data['havoc']
    for oid, o in old.items():
        n = st.mem.get(oid)
        if o.name.startswith('vfg_') or o.name.startswith('_ZL4vfg_') or 'vfg_' in o.name: continue
        if n is o: continue
        if o.kind == 'stack' and oid not in fr.allocs and n is None: continue
        if not o.alive: continue
        if n is None or not n.alive:
            if any(x[0] == oid for x in hv): continue
            e.oblige(st, 0, f'loop frame: object {o.name} freed', 'frame')
            continue
        if oid in fr.allocs and any(x[0] == oid for x in hv): continue
        if n.under is not o.under and not any(x[0] == oid for x in hv):
            e.oblige(st, 0, f'loop frame: {o.name} changed', 'frame')
        for a in set(o.cells) | set(n.cells):
            ca, cb = o.cells.get(a), n.cells.get(a)
            if ca is cb: continue
            if ca is not None and cb is not None and ca[0] == cb[0]:
                x, y = ca[1], cb[1]
                if same(x, y): continue
                if not isinstance(x, (Ptr, float, FSym)) and not isinstance(y, (Ptr, float, FSym)):
                    w = ca[0] * 8
                    if covered(e, st, hv, oid, a, ca[0]): continue
                    e.oblige(st, tobv(x, w) == tobv(y, w), f'loop frame: {o.name}+{a}', 'frame'); continue
            sz = (cb or ca)[0]
            if covered(e, st, hv, oid, a, sz): continue
            if oid in fr.allocs: continue     # local temporaries re-initialised each iteration
            e.oblige(st, 0, f'loop frame: {o.name}+{a} changed', 'frame')

def same(x, y):
    if type(x) is Ptr and type(y) is Ptr:
        return x.o == y.o and same(x.off, y.off)
    if isc(x) and isc(y): return x == y
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef): return x.eq(y)
    if type(x) is float and type(y) is float: return x == y
    return x is y

# ---------------- automatic affine summaries
class MapLayer:
    """bytes written by iterations 0..t-1: iteration i writes val(i) (size bytes) at o0+stride*i (offset d relative to o0)"""
    def __init__(s, t, stride, size, valfn, factfn, sh):
        s.t = t; s.stride = stride; s.size = size; s.val = valfn; s.fact = factfn; s.sparse = stride != size
    def idx(s, d):
        if s.stride == 1: return d, 0
        dd = tobv(d, 64)
        if s.stride & (s.stride - 1) == 0:
            k = s.stride.bit_length() - 1
            return simp(z3.LShR(dd, k)), simp(dd & (s.stride - 1))
        return simp(z3.UDiv(dd, BVV(s.stride, 64))), simp(z3.URem(dd, BVV(s.stride, 64)))
    def inst(s, e, st, i):
        f = s.fact(tobv(i, 64))
        if f is not None:
            st.pcs.append(z3.Implies(z3.ULT(tobv(i, 64), s.t), f)); st.model = None
    def read(s, e, st, d, size):
        i, r = s.idx(d)
        if size == s.size and (isc(r) and r == 0 or not isc(r) and e.tri(st, r == 0) is True):
            s.inst(e, st, i)
            return s.val(tobv(i, 64))
        return None
    def byte(s, e, st, d):
        i, r = s.idx(d)
        s.inst(e, st, i)
        v = s.val(tobv(i, 64))
        if type(v) is Ptr: raise Unsupported('pointer in map layer')
        if s.size == 1: b = v
        elif isc(r): b = e.bytek(v, r) if r < s.size else 0
        else:
            b = e.bytek(v, 0)
            for j in range(1, s.size): b = z3.If(r == j, tobv(e.bytek(v, j), 8), tobv(b, 8))
        hit = None
        if s.sparse: hit = z3.ULT(tobv(r, 64), s.size)
        return b, hit

class SumFail(Exception): pass

def symbolic_exit(e, st, fr, h):
    """called when an exit branch of loop h is undetermined.  Returns True when the state was replaced."""
    rec = fr.loops.get(h)
    if rec is None: return False
    if rec.mode in ('summ', 'hook', 'collect'): return False
    if e.mode == 'prove' and not rec.nosum and rec.snap is not None and not (e.o.get('nosum') and re.search(e.o['nosum'], fr.fn.name)):
        key = lname(fr, h)
        try:
            states = summarise(e, rec.snap, h)
            e.summ[key] = e.summ.get(key, 0) + 1
            for s in states: e.work.append(s)
            raise KillPath()
        except SumFail as f:
            rec = rec.copy()
            if str(f) != 'const' and rec.symit < e.o.get('peel', 2):
                rec.symit += 1; rec.snap = None; fr.loops[h] = rec     # peel this iteration, try again at the next one
                return False
            rec.nosum = True; rec.snap = None; fr.loops[h] = rec
            if str(f) != 'const' and not e.noreport: e.sumfail[key] = str(f)
            if str(f) == 'const': rec.data = 'const'
    rec = rec.copy(); fr.loops[h] = rec
    rec.symit += 1
    if rec.data != 'const':
        lim = e.o['unroll']
        if rec.symit > lim:
            e.bounded.add(lname(fr, h) + f': unrolled {lim}' + (' (' + e.sumfail[lname(fr, h)] + ')' if lname(fr, h) in e.sumfail else ''))
            # keep only the exiting side
            I = fr.fn.blocks[fr.blk].ins[fr.ip]
            body = fr.fn.loops[h]
            c = tobool(e.val(st, fr, I.ops[0]))
            if I.x[0] in body: st.pcs.append(z3.Not(c)); st.model = None; e.jump(st, fr, I.x[1])
            else: st.pcs.append(c); st.model = None; e.jump(st, fr, I.x[0])
            return True
    return False

def run_body(e, s0, h, maxpaths=48):
    """run one iteration from header state s0; returns list of states at the back edge"""
    fr = s0.frames[-1]
    rec = LoopRec(); rec.mode = 'collect'; rec.iters = 0; rec.symit = 0; rec.snap = None; rec.nosum = True
    rec.data = dict(ends=[])
    fr.loops[h] = rec
    depth = len(s0.frames); body = fr.fn.loops[h]
    saved = e.work; e.work = [s0]; e.noreport += 1
    n = 0
    try:
        while e.work:
            s = e.work.pop()
            n += 1
            if n > maxpaths * 4: raise SumFail('too many paths')
            try:
                while True:
                    if len(s.frames) < depth: break
                    f = s.frames[-1]
                    if len(s.frames) == depth and f.blk not in body: break
                    e.step(s)
            except KillPath: pass
            except Unsupported as u: raise SumFail('unsupported in loop: ' + str(u))
    finally:
        e.work = saved; e.noreport -= 1
    if len(rec.data['ends']) > maxpaths: raise SumFail('too many back paths')
    return rec.data['ends']

def diff(e, a, b):
    """cells and layers changed from state a to b (objects existing in a)"""
    cells = {}; layers = {}; sizes = {}
    for oid, o in a.mem.items():
        n = b.mem.get(oid)
        if n is o: continue
        if n is None or n.alive != o.alive: raise SumFail('object destroyed in loop')
        if n.under is not o.under or (o.cells and any(x not in n.cells for x in o.cells)):
            # layered writes: collect chain entries above o's content
            ls = []
            cur = ('cells', n.cells, n.under) if n.cells else n.under
            ok = False; top = o.under
            ocells = o.cells
            while True:
                if cur is top and not ocells: ok = True; break
                if cur[0] == 'cells':
                    if cur[2] is top and cur[1] == ocells: ok = True; break
                    # cells layer containing both old cells and new ones
                    if cur[2] is top:
                        for x, c in cur[1].items():
                            oc = ocells.get(x)
                            if oc is None or not (oc[0] == c[0] and same(oc[1], c[1])): ls.append(('cell', x, c))
                        for x in ocells:
                            if x not in cur[1]: raise SumFail('cell reshaped')
                        ok = True; break
                    for x, c in cur[1].items(): ls.append(('cell', x, c))
                    cur = cur[2]; continue
                if cur[0] == 'base': break
                ls.append(cur); cur = cur[-1]
            if not ok: raise SumFail('content replaced')
            ls.reverse()
            layers[oid] = ls
        else:
            for x, c in n.cells.items():
                oc = o.cells.get(x)
                if oc is not None and oc[0] == c[0] and same(oc[1], c[1]): continue
                cells[(oid, x)] = c
        if not same(n.size, o.size): sizes[oid] = n.size
    for oid, n in b.mem.items():
        if oid not in a.mem and n.alive and n.kind == 'heap' and not n.name.startswith('digest'):
            raise SumFail('allocation survives iteration')
    return cells, layers, sizes

def summarise(e, snap, h):
    S0 = snap.clone()
    fr0 = S0.frames[-1]
    # --- round 1: discover modified cells to a fixpoint, with unknown (fresh) values
    M = {}          # (oid,off) -> size
    Msz = set()
    dropped = set()
    cur = None
    for rnd in range(8):
        s = S0.clone(); sym = {}
        for (oid, off), size in M.items():
            v0 = cellval(e, S0, oid, off, size)
            if type(v0) is Ptr:
                x = e.fresh(64, 'd'); sym[(oid, off)] = x
                e.wr(s, oid, off, size, Ptr(v0.o, x))
            elif type(v0) in (float, FSym): e.wr(s, oid, off, size, FSym(e.nf())); sym[(oid, off)] = None
            else:
                x = e.fresh(size * 8, 'd'); sym[(oid, off)] = x
                e.wr(s, oid, off, size, x)
        for oid in Msz:
            x = e.fresh(64, 'dsz'); sym[(oid, 'size')] = x; s.wobj(oid).size = x
        for x in sym.values():
            if x is not None and x.size() == 64: s.pcs.append(z3.ULE(x, LIMIT * 4)); s.model = None
        base = s.clone()
        ends = run_body(e, s, h)
        if not ends: raise SumFail('const')   # no back edge feasible: nothing to summarise
        grew = False
        dl = []; found = set()
        for en in ends:
            c, l, z = diff(e, base, en); dl.append((c, l, z))
            for (oid, off), (size, v) in c.items():
                found.add((oid, off))
                if (oid, off) not in M or M[(oid, off)] != size: M[(oid, off)] = size; grew = True
            for oid in z:
                if oid not in Msz: Msz.add(oid); grew = True
            for oid, ls in l.items():
                for x in ls:
                    if x[0] == 'cell':
                        # concrete-offset write mixed with layers
                        found.add((oid, x[1]))
                        if (oid, x[1]) not in M: M[(oid, x[1])] = x[2][0]; grew = True
        if not grew:
            stale = [k for k in M if k not in found and k not in dropped]
            for k in stale: del M[k]; dropped.add(k); grew = True
        if not grew:
            cur = (sym, ends, dl); break
    else: raise SumFail('no fixpoint')
    sym, ends, dl = cur
    # --- classify
    aff = {}
    for key, x in sym.items():
        step = None; ok = True
        for en, (c, l, z) in zip(ends, dl):
            if key[1] == 'size': nv = en.mem[key[0]].size; ov = x
            else:
                nv = cellval(e, en, key[0], key[1], M[key]); ov = x
                if type(nv) is Ptr:
                    v0 = cellval(e, S0, key[0], key[1], M[key])
                    if type(v0) is not Ptr or nv.o != v0.o: ok = False; break
                    nv = nv.off
            if ov is None or type(nv) in (float, FSym): ok = False; break
            d = simp(tobv(nv, ov.size()) - ov)
            if not isc(d): ok = False; break
            if step is None: step = d
            elif step != d: ok = False; break
        if ok: aff[key] = step
    # values that are functions of affine ones (e.g. a storage size recomputed from the end pointer)
    tt0 = z3.BitVec('tt!probe', 64)
    def subst(ex, tv):
        subs = []
        for k, stp in aff.items():
            x = sym[k]; w = x.size()
            v0 = S0.mem[k[0]].size if k[1] == 'size' else cellval(e, S0, k[0], k[1], M[k])
            if type(v0) is Ptr: v0 = v0.off
            tw = tv if w == 64 else z3.Extract(w - 1, 0, tv) if w < 64 else z3.ZeroExt(w - 64, tv)
            subs.append((x, tobv(v0, w) + tw * stp))
        return z3.substitute(ex, *subs) if subs else ex
    for _ in range(3):
        for key, x in sym.items():
            if key in aff or x is None: continue
            if key[1] == 'size': init = S0.mem[key[0]].size
            else: init = cellval(e, S0, key[0], key[1], M[key])
            io = init.o if type(init) is Ptr else None
            if type(init) is Ptr: init = init.off
            if type(init) in (float, FSym): continue
            w = x.size(); step = None; ok = True
            for en in ends:
                nv = en.mem[key[0]].size if key[1] == 'size' else cellval(e, en, key[0], key[1], M[key])
                if (type(nv) is Ptr) != (io is not None) or type(nv) is Ptr and nv.o != io: ok = False; break
                if type(nv) is Ptr: nv = nv.off
                if type(nv) in (float, FSym): ok = False; break
                nt = subst(tobv(nv, w), tt0)
                d = simp(z3.substitute(nt, (tt0, tt0 + 1)) - nt)
                if not isc(d): ok = False; break
                tw = tt0 if w == 64 else z3.Extract(w - 1, 0, tt0) if w < 64 else z3.ZeroExt(w - 64, tt0)
                z = simp(nt - (tobv(init, w) + (tw + 1) * d))
                if not (isc(z) and z == 0) or step is not None and step != d: ok = False; break
                step = d
            if ok and step is not None: aff[key] = step
    # --- round 2: with ghost counter
    t = e.fresh(64, 't')
    s = S0.clone()
    nf0 = e.nfresh
    def setup(s, t):
        for key, x in sym.items():
            if key[1] == 'size': continue
            size = M[key]; v0 = cellval(e, S0, key[0], key[1], size)
            if key in aff:
                if type(v0) is Ptr: e.wr(s, key[0], key[1], size, Ptr(v0.o, simp(tobv(v0.off, 64) + t * aff[key])))
                else:
                    w = size * 8
                    tt = t if w == 64 else z3.Extract(w - 1, 0, t) if w < 64 else z3.ZeroExt(w - 64, t)
                    e.wr(s, key[0], key[1], size, simp(tobv(v0, w) + tt * aff[key]))
            else:
                if type(v0) is Ptr:
                    # pointer temp: arbitrary => use null object (any dereference before re-assignment fails)
                    e.wr(s, key[0], key[1], size, Ptr(0, e.fresh(64, 'pt')))
                elif type(v0) in (float, FSym): e.wr(s, key[0], key[1], size, FSym(e.nf()))
                else: e.wr(s, key[0], key[1], size, e.fresh(size * 8, 'tmp'))
        for oid in Msz:
            k = (oid, 'size')
            if k in aff: s.wobj(oid).size = simp(tobv(S0.mem[oid].size, 64) + t * aff[k])
            else: raise SumFail('size not affine')
        s.pcs.append(z3.ULT(t, 1 << 34)); s.model = None
    setup(s, t)
    base = s.clone()
    marks = len(base.pcs)
    nf1 = e.nfresh
    ends = run_body(e, s, h)
    if not ends: raise SumFail('const')
    writes = None; pcs = []
    for en in ends:
        c, l, z = diff(e, base, en)
        for k, (size, v) in c.items():
            if k not in M: raise SumFail('unstable cell')
        for oid in z:
            if oid not in Msz: raise SumFail('unstable size')
        for k in aff:
            exp = None
            if k[1] == 'size':
                if not same(en.mem[k[0]].size, simp(tobv(S0.mem[k[0]].size, 64) + (t + 1) * aff[k])): raise SumFail('not affine')
                continue
            nv = cellval(e, en, k[0], k[1], M[k]); v0 = cellval(e, S0, k[0], k[1], M[k])
            if type(nv) is Ptr:
                if type(v0) is not Ptr or nv.o != v0.o: raise SumFail('ptr object changes')
                nv, v0 = nv.off, v0.off
            w = M[k] * 8
            tt = t if w == 64 else z3.Extract(w - 1, 0, t)
            d = simp(tobv(nv, w) - (tobv(v0, w) + (tt + 1) * aff[k]))
            if not (isc(d) and d == 0): raise SumFail('not affine')
        w = []
        for oid, ls in l.items():
            for x in ls:
                if x[0] == 'cell':
                    if (oid, x[1]) in M: continue
                    raise SumFail('cell write under layers')
                w.append((oid, x))
        pc = z3.And(*en.pcs[marks:]) if len(en.pcs) > marks else z3.BoolVal(True)
        pcs.append(pc)
        if writes is None: writes = [(oid, x, [(pc, x)]) for oid, x in w]
        else:
            if len(w) != len(writes): raise SumFail('different writes on paths')
            for j, (oid, x) in enumerate(w):
                o2, x2, alts = writes[j]
                if o2 != oid or x2[0] != x[0] or not same(x2[1], x[1]) or not same(x2[2], x[2]): raise SumFail('different writes on paths')
                alts.append((pc, x))
    PC = simp(z3.Or(*pcs)) if len(pcs) > 1 else pcs[0]
    if isc(PC): PC = z3.BoolVal(bool(PC))
    # symbols created inside the iteration become functions of the iteration index
    inner = {}
    def collect(x, seen=set()):
        todo = [x]; vis = set()
        while todo:
            y = todo.pop()
            if y.get_id() in vis: continue
            vis.add(y.get_id())
            if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = y.decl().name()
                m_ = re.search(r'!(\d+)$', nm)
                if m_ and int(m_.group(1)) > nf0 and not y.eq(t): inner[nm] = y
            todo.extend(y.children())
    collect(PC)
    outs = []
    for oid, x, alts in writes:
        if x[0] == 'w':
            off, size = x[1], x[2]
            vals = [a[1][3] for a in alts]
            if any(type(v) in (Ptr, float, FSym) for v in vals): raise SumFail('non-integer array write')
            v = tobv(vals[-1], size * 8) if not isinstance(vals[-1], z3.BoolRef) else z3.If(vals[-1], BVV(1, 8), BVV(0, 8))
            for (pc, xx), vv in list(zip(alts, vals))[-2::-1]: v = z3.If(pc, tobv(vv, size * 8) if not isinstance(vv, z3.BoolRef) else z3.If(vv, BVV(1, 8), BVV(0, 8)), v)
        elif x[0] == 'copy' and isc(x[2]) and x[2] <= 64:
            if len(alts) > 1 and not all(a[1] is x for a in alts):
                raise SumFail('copy differs on paths')
            off, size = x[1], x[2]
            v = e.rdn(ends[0], x[3], x[4], size) if size in (1, 2, 4, 8) else tobv(e.bytes_(ends[0], x[3], x[4], size), size * 8)
            if type(v) in (Ptr, float, FSym): raise SumFail('pointer copy')
            v = tobv(v, size * 8)
        elif x[0] == 'fill' and isc(x[2]) and x[2] <= 64:
            # a fill fully overwritten by later writes in the same iteration is common (resize + store)
            off, size = x[1], x[2]
            v = tobv(int.from_bytes(bytes([x[3]]) * size, 'little'), size * 8) if isc(x[3]) else None
            if v is None: raise SumFail('symbolic fill')
        elif x[0] == 'map' or x[0] in ('copy', 'fill'): raise SumFail('nested range write')
        else: raise SumFail('write kind ' + x[0])
        off = tobv(off, 64)
        o0 = simp(z3.substitute(off, (t, BVV(0, 64))))
        st_ = simp(z3.substitute(off, (t, t + 1)) - off)
        if not isc(st_): raise SumFail('offset not affine')
        if st_ == 0 or st_ >> 63: raise SumFail('stride')
        collect(v)
        outs.append((oid, o0, st_, size, v))
    funs = {}
    for nm, y in inner.items():
        if z3.is_array(y): raise SumFail('array created in iteration')
        funs[nm] = (y, z3.Function('it_' + nm, z3.BitVecSort(64), y.sort()))
    def at(ex, i):
        subs = [(t, i)] + [(y, f(i)) for y, f in funs.values()]
        return z3.substitute(ex, *subs)
    fact = lambda i: at(PC, i)
    # --- constant bound?
    G = S0.clone()
    setup(G, t)
    G.pcs.append(z3.Or(t == 0, at(PC, t - 1))); G.model = None
    G.pcs.append(z3.Implies(z3.ULT(BVV(0, 64), t), at(PC, BVV(0, 64))))
    if len(outs) == 0 or True:
        if e.check(G, z3.UGT(t, e.o.get('const_loop', 66))) == z3.unsat: raise SumFail('const')
    for oid, o0, stride, size, v in outs:
        if size > stride: raise SumFail('overlapping strides')
        ob = G.wobj(oid)
        ml = MapLayer(t, stride, size, (lambda i, v=v: simp(at(v, i))), fact, None)
        ob.under = ('map', o0, simp(t * stride), ml, e.node(ob)); ob.cells = {}
    # cells in objects that also have map layers must sit on top: re-write affine/temps
    if outs:
        pcs_keep = list(G.pcs)
        for key in sym:
            if key[1] != 'size' and any(key[0] == o[0] for o in outs): raise SumFail('cells and array writes in one object')
    for t0, f0 in G.facts[-6:]:     # facts of earlier loops at this loop's exit index, and conversely
        for d in (0, 1, -1):        # (loops whose first iteration ran before the summary are shifted by one)
            G.pcs.append(z3.Implies(z3.ULT(t + d, t0), f0(t + d))); G.pcs.append(z3.Implies(z3.ULT(t0 + d, t), fact(t0 + d)))
    G.facts.append((t, fact))
    rec = LoopRec(); rec.mode = 'summ'; rec.iters = 0; rec.symit = 0; rec.snap = None; rec.nosum = True
    rec.data = dict(S0=S0, aff=aff, M=M, Msz=Msz, t=t, sym=set(sym), outs=[(o[0], o[1], o[2], o[3]) for o in outs])
    G.frames[-1].loops[h] = rec
    return [G]

def cellval(e, st, oid, off, size):
    return e.rd(st, st.mem[oid], off, size)

def check_summary(e, st, fr, h, rec):
    """re-check, with reporting on, that the summary is inductive"""
    d = rec.data; t = d['t']
    for k in d['aff']:
        if k[1] == 'size': nv, v0, w = st.mem[k[0]].size, d['S0'].mem[k[0]].size, 64
        else:
            nv = cellval(e, st, k[0], k[1], d['M'][k]); v0 = cellval(e, d['S0'], k[0], k[1], d['M'][k]); w = d['M'][k] * 8
            if type(nv) is Ptr:
                if type(v0) is not Ptr or nv.o != v0.o: e.oblige(st, 0, 'loop summary: pointer', 'loop'); return
                nv, v0 = nv.off, v0.off
        tt = t if w == 64 else z3.Extract(w - 1, 0, t)
        e.oblige(st, tobv(nv, w) == tobv(v0, w) + (tt + 1) * d['aff'][k], 'loop summary inductive', 'loop')
