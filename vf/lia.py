"""Exact translation of (mostly linear) bit-vector constraints to linear integer arithmetic.

Every n-bit operation is expressed over Int with explicit wrap-around variables, so the translation is
equivalence-preserving; sub-terms outside the fragment (array reads, bit operations on symbolic operands,
uninterpreted functions) become opaque range-bounded integers, which weakens the constraint: an `unsat`
answer is always sound, a `sat` answer is only used when nothing was opaque."""
import z3

class T:
    __slots__ = ('e', 'lo', 'hi', 'side', 'opq')
    def __init__(s, e, lo, hi, side, opq): s.e = e; s.lo = lo; s.hi = hi; s.side = side; s.opq = opq

class Lia:
    def __init__(self):
        self.tc = {}; self.bc = {}; self.n = 0; self.keep = []
    def fresh(self):
        self.n += 1; return z3.Int(f'q!{self.n}')
    # ---- terms
    def term(self, e):
        k = e.get_id()
        r = self.tc.get(k)
        if r is None:
            r = self.term_(e); self.tc[k] = r; self.keep.append(e)
        return r
    def wrap(self, lin, lo, hi, w, side, opq):
        M = 1 << w
        if 0 <= lo and hi < M: return T(lin, lo, hi, side, opq)
        q = self.fresh(); r = self.fresh()
        ql, qh = lo // M, hi // M
        side = side + [r == lin - M * q, r >= 0, r < M, q >= ql, q <= qh]
        return T(r, 0, M - 1, side, opq)
    def opaque(self, e, w):
        v = z3.Int(f'o!{e.get_id()}')
        return T(v, 0, (1 << w) - 1, [v >= 0, v < (1 << w)], True)
    def divmod(self, x, c):
        """x T, c const >0 -> (quot T, rem T)"""
        q = self.fresh(); r = self.fresh()
        side = x.side + [x.e == c * q + r, r >= 0, r < c, q >= x.lo // c, q <= x.hi // c]
        return T(q, x.lo // c, x.hi // c, side, x.opq), T(r, 0, min(c - 1, x.hi), side, x.opq)
    def term_(self, e):
        w = e.size(); M = 1 << w
        if z3.is_bv_value(e):
            v = e.as_long(); return T(z3.IntVal(v), v, v, [], False)
        k = e.decl().kind(); ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            v = z3.Int('v!' + e.decl().name())
            return T(v, 0, M - 1, [v >= 0, v < M], False)
        if k == z3.Z3_OP_BADD:
            lo = hi = 0; side = []; opq = False; es = []
            for c in ch:
                co, t = self.scaled(c, w)
                side = side + t.side; opq |= t.opq
                es.append(t.e if co == 1 else co * t.e)
                a, b = co * t.lo, co * t.hi
                lo += min(a, b); hi += max(a, b)
            return self.wrap(z3.Sum(es), lo, hi, w, side, opq)
        if k == z3.Z3_OP_BSUB:
            a, b = self.term(ch[0]), self.term(ch[1])
            return self.wrap(a.e - b.e, a.lo - b.hi, a.hi - b.lo, w, a.side + b.side, a.opq or b.opq)
        if k == z3.Z3_OP_BNEG:
            a = self.term(ch[0]); return self.wrap(-a.e, -a.hi, -a.lo, w, a.side, a.opq)
        if k == z3.Z3_OP_BMUL and any(z3.is_bv_value(c) for c in ch):
            co, t = self.scaled(e, w)
            if co is not None and t is not None and not (co == 1 and t.opq and False):
                a, b = co * t.lo, co * t.hi
                if co != 1: return self.wrap(co * t.e, min(a, b), max(a, b), w, t.side, t.opq)
        if k == z3.Z3_OP_ZERO_EXT: return self.term(ch[0])
        if k == z3.Z3_OP_CONCAT:
            hi = ch[0]; acc = self.term(hi); side = acc.side; opq = acc.opq; ex = acc.e; lo_, hi_ = acc.lo, acc.hi
            for c in ch[1:]:
                t = self.term(c); m = 1 << c.size()
                ex = ex * m + t.e; lo_ = lo_ * m + t.lo; hi_ = hi_ * m + t.hi; side = side + t.side; opq |= t.opq
            return T(ex, lo_, hi_, side, opq)
        if k == z3.Z3_OP_EXTRACT:
            h, l = e.params()
            t = self.term(ch[0])
            if l: t = self.divmod(t, 1 << l)[0]
            if h + 1 < ch[0].size() and t.hi >= (1 << (h + 1 - l)): t = self.divmod(t, 1 << (h + 1 - l))[1]
            return t
        if k == z3.Z3_OP_SIGN_EXT:
            t = self.term(ch[0]); w0 = ch[0].size()
            if t.hi < (1 << (w0 - 1)): return t
            return T(z3.If(t.e >= (1 << (w0 - 1)), t.e + (M - (1 << w0)), t.e), 0, M - 1, t.side, t.opq)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            c = ch[1].as_long()
            if c >= w: return T(z3.IntVal(0), 0, 0, [], False)
            return self.divmod(self.term(ch[0]), 1 << c)[0]
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            c = ch[1].as_long()
            if c >= w: return T(z3.IntVal(0), 0, 0, [], False)
            t = self.term(ch[0])
            return self.wrap(t.e * (1 << c), t.lo << c, t.hi << c, w, t.side, t.opq)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            return self.divmod(self.term(ch[0]), ch[1].as_long())[0]
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            return self.divmod(self.term(ch[0]), ch[1].as_long())[1]
        if k == z3.Z3_OP_BAND and len(ch) == 2 and any(z3.is_bv_value(c) for c in ch):
            c, x = (ch[0], ch[1]) if z3.is_bv_value(ch[0]) else (ch[1], ch[0])
            m = c.as_long()
            if m & (m + 1) == 0: return self.divmod(self.term(x), m + 1)[1]
        if k == z3.Z3_OP_ITE:
            c, side, opq = self.boolt(ch[0]); a, b = self.term(ch[1]), self.term(ch[2])
            return T(z3.If(c, a.e, b.e), min(a.lo, b.lo), max(a.hi, b.hi), side + a.side + b.side, opq or a.opq or b.opq)
        if k == z3.Z3_OP_SELECT and z3.is_const(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_UNINTERPRETED:
            t = self.term(ch[1])
            f = z3.Function('sel!' + ch[0].decl().name(), z3.IntSort(), z3.IntSort()); v = f(t.e)
            return T(v, 0, M - 1, t.side + [v >= 0, v < M], t.opq)
        if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_bv(c) for c in ch):
            ts = [self.term(c) for c in ch]
            f = z3.Function('uf!' + e.decl().name() + f'_{w}', *([z3.IntSort()] * (len(ch) + 1))); v = f(*[t.e for t in ts])
            return T(v, 0, M - 1, [x for t in ts for x in t.side] + [v >= 0, v < M], any(t.opq for t in ts))
        return self.opaque(e, w)
    def scaled(self, c, w):
        """c = co * t with co a (signed) constant"""
        if c.decl().kind() == z3.Z3_OP_BMUL:
            co = 1; rest = []
            for x in c.children():
                if z3.is_bv_value(x): co = co * x.as_long() % (1 << w)
                else: rest.append(x)
            if len(rest) == 1:
                if co >> (w - 1): co -= 1 << w
                return co, self.term(rest[0])
            return 1, self.opaque(c, w)
        return 1, self.term(c)
    # ---- formulas: returns (z3 bool, side list, opaque)
    def boolt(self, e):
        k = e.get_id()
        r = self.bc.get(k)
        if r is None:
            r = self.bool_(e); self.bc[k] = r; self.keep.append(e)
        return r
    def bool_(self, e):
        k = e.decl().kind(); ch = e.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return e, [], False
        if k == z3.Z3_OP_UNINTERPRETED and not ch: return e, [], False
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            xs = [self.boolt(c) for c in ch]
            side = [s for x in xs for s in x[1]]; opq = any(x[2] for x in xs); bs = [x[0] for x in xs]
            f = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}.get(k)
            if f: return f(*bs), side, opq
            if k == z3.Z3_OP_NOT: return z3.Not(bs[0]), side, opq
            if k == z3.Z3_OP_IMPLIES: return z3.Implies(bs[0], bs[1]), side, opq
            return z3.Xor(bs[0], bs[1]), side, opq
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            s = ch[0].sort().kind()
            if s == z3.Z3_BOOL_SORT:
                a, b = self.boolt(ch[0]), self.boolt(ch[1]); r = a[0] == b[0]; side = a[1] + b[1]; opq = a[2] or b[2]
            elif s == z3.Z3_BV_SORT:
                a, b = self.term(ch[0]), self.term(ch[1]); r = a.e == b.e; side = a.side + b.side; opq = a.opq or b.opq
            else:
                return z3.Bool(f'ob!{e.get_id()}'), [], True
            return (z3.Not(r) if k == z3.Z3_OP_DISTINCT else r), side, opq
        if k == z3.Z3_OP_ITE:
            a, b, c = [self.boolt(x) for x in ch]
            return z3.If(a[0], b[0], c[0]), a[1] + b[1] + c[1], a[2] or b[2] or c[2]
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.term(ch[0]), self.term(ch[1])
            r = {z3.Z3_OP_ULEQ: a.e <= b.e, z3.Z3_OP_ULT: a.e < b.e, z3.Z3_OP_UGEQ: a.e >= b.e, z3.Z3_OP_UGT: a.e > b.e}[k]
            return r, a.side + b.side, a.opq or b.opq
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            w = ch[0].size(); H = 1 << (w - 1); M = 1 << w
            def sg(t): return t.e if t.hi < H else z3.If(t.e >= H, t.e - M, t.e)
            a, b = self.term(ch[0]), self.term(ch[1]); x, y = sg(a), sg(b)
            r = {z3.Z3_OP_SLEQ: x <= y, z3.Z3_OP_SLT: x < y, z3.Z3_OP_SGEQ: x >= y, z3.Z3_OP_SGT: x > y}[k]
            return r, a.side + b.side, a.opq or b.opq
        return z3.Bool(f'ob!{e.get_id()}'), [], True
