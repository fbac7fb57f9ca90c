"""H01: memory safety. Words are intervals with an identity (branch conditions refine them); every access is checked against
the bounds, the lifetime and the initialisation of its object. Functions whose parameters have fixed sizes are analysed once
on arbitrary contents and then stand for their calls; functions over spans, strings and buffers are analysed for each length
in a list. Paths are partitioned at unknown branches and cut when a state repeats."""
from engine.util import *
from engine import build
from engine.interp import MemoryFault, MERGED
from engine.field import P
from engine.proto import Proto, Cond
from checks.divn import ORDER
from checks.bounds import split_params, field_class, SIZE, internal, callers
import os, re, sys, hashlib, marshal

B = 'bls12_381::'
HERE = os.path.dirname(os.path.abspath(__file__))
OPS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

class V(AV):
    """an integer between lo and hi; ex: both ends are attained for some input"""
    __slots__ = ('id', 'lo', 'hi', 'ex')
    k = 0
    def __init__(self, lo, hi, ex=False):
        V.k += 1; self.id = V.k; self.lo = lo; self.hi = hi; self.ex = ex
    def __repr__(self): return '[%d,%d]' % (self.lo, self.hi)
class Cnd(V):
    """result of a comparison"""
    __slots__ = ('pred', 'w', 'a', 'b', 'neg')
    def __init__(self, pred, w, a, b):
        V.__init__(self, 0, 1); self.pred = pred; self.w = w; self.a = a; self.b = b
class Mix(AV):
    """bytes of several values, some of them never written"""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = tuple(parts)
    def __repr__(self): return 'mixed bytes'
def word(w): return V(0, (1 << w) - 1, True)
WORD = lambda: V(0, (1 << 64) - 1, True)

class Imprecise(AnalysisError): pass

def short_region(f, blk, memo={}):
    """the branch at the end of blk leads to a join point after a few blocks without loops"""
    k = (id(f), blk)
    if k in memo: return memo[k]
    j = f.ipdom().get(blk); ok = j is not None and j != '<exit>'
    if ok:
        seen = set(); work = list(f.succs(blk))
        while work and ok:
            b = work.pop()
            if b == j or b in seen: continue
            if b == blk or len(seen) > 8 or any(i.op in ('ret', 'unreachable') for i in f.blocks[b]): ok = False
            seen.add(b); work += f.succs(b)
        L = loops(f)
        if any(h in seen for h in L): ok = False
    memo[k] = ok
    return ok

class MemDomain(Domain):
    # ---- ranges
    def rng(self, st, v):
        if isinstance(v, V): return st.facts.get(v.id) or (v.lo, v.hi)
        return v, v
    def urng(self, st, v, w):
        """range as an unsigned number; a wrapped range becomes everything"""
        lo, hi = self.rng(st, v)
        if lo >= 0: return lo, hi
        if hi < 0: return lo + (1 << w), hi + (1 << w)
        return 0, (1 << w) - 1
    def srng(self, st, v, w):
        lo, hi = self.rng(st, v); h = 1 << (w - 1)
        if -h <= lo and hi < h: return lo, hi
        if lo >= h: return lo - 2 * h, hi - 2 * h
        return -h, h - 1
    def mk(self, lo, hi, w, ex=False):
        if hi - lo >= (1 << w) - 1: return V(0, (1 << w) - 1, ex)
        while hi >= 1 << w: lo -= 1 << w; hi -= 1 << w
        while hi < 0: lo += 1 << w; hi += 1 << w
        return lo if lo == hi and lo >= 0 else V(lo, hi, ex)
    def defined(self, it, what, *vs):
        for v in vs:
            if v is UNDEF: raise Violation('%s of a value that was never written' % what, it.where())
            if isinstance(v, Mix):
                if any(x is UNDEF for _, x in v.parts): raise Violation('%s of a value that was only partly written' % what, it.where())
    def plain(self, v):
        if isinstance(v, Mix): return V(0, (1 << (8 * sum(n for n, _ in v.parts))) - 1)
        return v
    # ---- operations
    def binop(self, it, op, w, a, b, flags):
        st = it.cst
        if isinstance(a, Mix) and op == 'lshr' and isinstance(b, int) and b % 8 == 0: return self.cut(a, b // 8, None)
        if isinstance(a, Mix) and op == 'and' and isinstance(b, int) and (b & (b + 1)) == 0 and b.bit_length() % 8 == 0 and b: return self.cut(a, 0, b.bit_length() // 8)
        if op in ('and', 'or') and w % 8 == 0 and any(x is UNDEF or isinstance(x, Mix) for x in (a, b)): return self.bytewise(it, op, w // 8, a, b)
        self.defined(it, 'arithmetic', a, b)
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, (Ptr, Fun)) or isinstance(b, (Ptr, Fun)): raise AnalysisError('pointer arithmetic %s at %s' % (op, it.where()))
        F = (1 << w) - 1
        (la, ha), (lb, hb) = self.rng(st, a), self.rng(st, b)
        ex = isinstance(a, int) or isinstance(b, int)
        ex = ex and (a.ex if isinstance(a, V) else True) and (b.ex if isinstance(b, V) else True)
        if op == 'add': return self.mk(la + lb, ha + hb, w, ex)
        if op == 'sub':
            if a is b: return 0
            return self.mk(la - hb, ha - lb, w, ex)
        if op == 'mul':
            c = [la * lb, la * hb, ha * lb, ha * hb]; return self.mk(min(c), max(c), w, ex and max(c) - min(c) < F)
        if op in ('shl', 'lshr', 'ashr'):
            sl, sh = self.urng(st, b, w)
            if sh >= w:
                if sl >= w or (isinstance(b, V) and b.ex): raise Violation('shift of a %d-bit value by %s' % (w, sl if sl == sh else 'up to %d' % sh), it.where())
                raise Imprecise('shift count may reach %d at %s' % (sh, it.where()))
            if op == 'shl': return self.mk(*((la << sl, ha << sh) if la >= 0 else (0, F)), w)
            ul, uh = self.urng(st, a, w)
            if op == 'lshr': return self.mk(ul >> sh, uh >> sl, w, ex and isinstance(b, int))
            xl, xh = self.srng(st, a, w)
            return self.mk(min(xl >> sl, xl >> sh), max(xh >> sl, xh >> sh), w)
        (la, ha), (lb, hb) = self.urng(st, a, w), self.urng(st, b, w)
        if op == 'and':
            if isinstance(a, int): a, la, ha, b, lb, hb = b, lb, hb, a, la, ha
            if isinstance(b, int):
                if b & (b + 1) == 0:
                    if ha <= b: return a if self.rng(st, a)[0] >= 0 else V(la, ha)
                    return V(0, b, a.ex and ha - la >= b) if b else 0
                return V(0, min(ha, b), a.ex and la == 0 and ha == F)
            return V(0, min(ha, hb))
        if op in ('or', 'xor'):
            if w == 1 and isinstance(b, int):
                if op == 'or': return 1 if b else a
                return self.negate(it, a) if b else a
            n = max(ha, hb).bit_length(); return V(max(la, lb) if op == 'or' else 0, (1 << n) - 1)
        if op in ('udiv', 'urem'):
            if lb == 0:
                if hb == 0 or (isinstance(b, V) and b.ex): raise Violation('division by zero', it.where())
                raise Imprecise('divisor may be zero at ' + it.where())
            if op == 'udiv': return self.mk(la // hb, ha // lb, w, ex and isinstance(b, int))
            if ha < lb: return a
            return V(0, hb - 1, isinstance(b, int) and isinstance(a, V) and a.ex and ha - la >= b)
        (la, ha), (lb, hb) = self.srng(st, a, w), self.srng(st, b, w)
        if lb <= 0 <= hb:
            if lb == hb == 0: raise Violation('division by zero', it.where())
            raise Imprecise('divisor may be zero at ' + it.where())
        tr = lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if op == 'sdiv':
            c = [tr(x, y) for x in (la, ha) for y in (lb, hb)] + ([0] if la <= 0 <= ha else []); return self.mk(min(c), max(c), w, ex and isinstance(b, int))
        if op == 'srem':
            k = max(abs(lb), abs(hb)) - 1
            if la >= 0 and ha < min(abs(lb), abs(hb)): return a
            return self.mk(-min(k, -la) if la < 0 else 0, min(k, ha) if ha > 0 else 0, w)
        raise AnalysisError('operation %s at %s' % (op, it.where()))
    def bytewise(self, it, op, n, a, b):
        """masks that keep or insert whole bytes of a partly undefined word"""
        def byte(v, k):
            if v is UNDEF: return UNDEF
            if isinstance(v, int): return v >> 8 * k & 255
            return self.extract(it, v, n, k, 1)
        out = []
        for k in range(n):
            x, y = byte(a, k), byte(b, k)
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int) and y in (0, 255): out.append(x if (y == 0) == (op == 'or') else 0 if op == 'and' else 255)
            elif x is UNDEF or y is UNDEF: out.append(UNDEF)
            else: out.append(V(0, 255))
        if all(x is UNDEF for x in out): return UNDEF
        return self.assemble(it, [(1, x) for x in out], n)
    def negate(self, it, a):
        if isinstance(a, Cnd): return Cnd(INV[a.pred], a.w, a.a, a.b)
        return Cnd('eq', 1, a, 0)
    def unop(self, it, st, op, w, a):
        self.defined(it, 'arithmetic', a)
        return V(0, w) if op in ('ctlz', 'cttz', 'ctpop') else V(0, (1 << w) - 1)
    def icmp(self, it, pred, w, a, b):
        st = it.cst
        self.defined(it, 'comparison', a, b)
        a, b = self.plain(a), self.plain(b)
        if a is b: return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if isinstance(a, (Ptr, Fun)) or isinstance(b, (Ptr, Fun)): raise AnalysisError('comparison of an address at ' + it.where())
        r = self.truth(st, pred, w, a, b)
        if r is not None: return int(r)
        if isinstance(a, Cnd) and isinstance(b, int) and pred in ('eq', 'ne'): return a if (pred == 'ne') == (b == 0) else self.negate(it, a)
        if isinstance(a, int): a, b, pred = b, a, SWAP[pred]
        return Cnd(pred, w, a, b)
    def truth(self, st, pred, w, a, b):
        if pred in ('eq', 'ne'):
            ra, rb = self.rng(st, a), self.rng(st, b)
            if ra[0] < 0 or rb[0] < 0:
                sa, sb = self.srng(st, a, w), self.srng(st, b, w)
                if sa[1] < sb[0] or sb[1] < sa[0]: return pred == 'ne'
            ra, rb = self.urng(st, a, w), self.urng(st, b, w)
            if ra[0] == ra[1] == rb[0] == rb[1]: return pred == 'eq'
            if ra[1] < rb[0] or rb[1] < ra[0]: return pred == 'ne'
            return None
        ra, rb = (self.urng if pred[0] == 'u' else self.srng)(st, a, w), (self.urng if pred[0] == 'u' else self.srng)(st, b, w)
        p = pred[1:]
        if p in ('gt', 'ge'): ra, rb = rb, ra; p = 'lt' if p == 'gt' else 'le'
        if p == 'lt':
            if ra[1] < rb[0]: return True
            if ra[0] >= rb[1]: return False
        else:
            if ra[1] <= rb[0]: return True
            if ra[0] > rb[1]: return False
        return None
    def cast(self, it, op, fw, tw, v):
        st = it.cst
        if isinstance(v, Mix):
            if op == 'trunc' and tw % 8 == 0: return self.cut(v, 0, tw // 8)
            if op == 'trunc' and tw < 8: v = self.cut(v, 0, 1)
            if v is UNDEF: return UNDEF
            if isinstance(v, Mix): self.defined(it, 'conversion', v); v = self.plain(v)
        if isinstance(v, int): return it.cast(op, INT(fw), INT(tw), v)
        if not isinstance(v, V): raise AnalysisError('cast of %r at %s' % (v, it.where()))
        lo, hi = self.rng(st, v)
        if op == 'zext':
            if lo >= 0: return v
            return V(*self.urng(st, v, fw))
        if op == 'sext':
            if fw == 1: return V(-1, 0)
            h = 1 << (fw - 1)
            if -h <= lo and hi < h: return v
            return V(*self.srng(st, v, fw), v.ex and lo == 0 and hi == 2 * h - 1)
        if op == 'trunc':
            if lo >= 0 and hi < 1 << tw: return v
            return self.mk(lo, hi, tw, v.ex)
        if op in ('bitcast',): return v
        if op in ('uitofp', 'sitofp'): raise AnalysisError('floating point value of an unknown number at ' + it.where())
        raise AnalysisError('cast %s at %s' % (op, it.where()))
    def cut(self, v, off, size):
        """bytes off.. of mixed bytes"""
        out = []; p = 0; end = None if size is None else off + size
        for n, x in v.parts:
            a, b = max(p, off), p + n if end is None else min(p + n, end)
            if a < b:
                if (a, b) == (p, p + n): out.append((n, x))
                elif x is UNDEF: out.append((b - a, UNDEF))
                elif isinstance(x, int): out.append((b - a, x >> 8 * (a - p) & (1 << 8 * (b - a)) - 1))
                else: out.append((b - a, V(0, (1 << 8 * (b - a)) - 1)))
            p += n
        return out[0][1] if len(out) == 1 else Mix(out)
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, Mix): return self.cut(v, off, size)
        if isinstance(v, (Ptr, Fun)): raise AnalysisError('part of an address at ' + it.where())
        lo, hi = (v.lo, v.hi)
        if off == 0 and lo >= 0 and hi < 1 << 8 * size: return v
        if off and lo >= 0 and hi < 1 << 8 * off: return 0
        return V(0, (1 << 8 * size) - 1, v.ex and lo == 0 and hi == (1 << 8 * vsize) - 1)
    def assemble(self, it, parts, size):
        if any(x is UNDEF or isinstance(x, Mix) for _, x in parts): return Mix(parts)
        if any(isinstance(x, (Ptr, Fun)) for _, x in parts): raise AnalysisError('part of an address at ' + it.where())
        if size > 16: return Mix(parts)
        lo = hi = sh = 0
        for n, x in parts:
            l, h = (x, x) if isinstance(x, int) else (x.lo, x.hi) if x.lo >= 0 else (0, (1 << 8 * n) - 1)
            lo |= l << sh; hi |= h << sh; sh += 8 * n
        return V(lo, hi)
    # ---- control
    def branch_policy(self, it, st, f, blk, c): return 'join' if short_region(f, blk) else 'fork'
    def decide(self, it, st, c):
        if isinstance(c, Mix): self.defined(it, 'branch', c); c = self.plain(c)
        lo, hi = self.rng(st, c)
        if lo == hi: return bool(lo)
        if isinstance(c, Cnd): return self.truth(st, c.pred, c.w, c.a, c.b)
        return None
    def assume(self, it, st, c, truth):
        st.facts[c.id] = (int(truth),) * 2
        if isinstance(c, Cnd):
            p = c.pred if truth else INV[c.pred]
            if self.truth(st, p, c.w, c.a, c.b) is False: return False
            self.refine(it, st, p, c.w, c.a, c.b); self.refine(it, st, SWAP[p], c.w, c.b, c.a)
        return True
    def refine(self, it, st, p, w, a, b):
        if not isinstance(a, V): return
        lo, hi = self.rng(st, a)
        bl, bh = (self.srng if p[0] == 's' else self.urng)(st, b, w)
        if p in ('eq', 'ne'):
            if isinstance(a, Cnd) and bl == bh and bl in (0, 1) and a.id not in st.facts:
                self.assume(it, st, a, (bl == 1) == (p == 'eq')); return
            if p == 'eq':
                if lo < 0 and bh >= 1 << (w - 1): bl -= 1 << w; bh -= 1 << w
                lo, hi = max(lo, bl), min(hi, bh)
            elif bl == bh:
                x = bl - (1 << w) if lo < 0 and bl >= 1 << (w - 1) else bl
                if lo == x: lo += 1
                elif hi == x: hi -= 1
        elif p[0] == 's':
            al, ah = self.srng(st, a, w)
            if (al, ah) != (lo, hi): return
            if p == 'slt': hi = min(hi, bh - 1)
            elif p == 'sle': hi = min(hi, bh)
            elif p == 'sgt': lo = max(lo, bl + 1)
            else: lo = max(lo, bl)
        else:
            if lo < 0:
                # negative part stands for the numbers from 2^(w-1) on
                if p in ('ult', 'ule') and bh < 1 << (w - 1): lo = 0
                elif p in ('ugt', 'uge') and bl > hi: hi = -1
                if lo < 0: st.facts[a.id] = (lo, hi); return
            if p == 'ult': hi = min(hi, bh - 1)
            elif p == 'ule': hi = min(hi, bh)
            elif p == 'ugt': lo = max(lo, bl + 1)
            else: lo = max(lo, bl)
        if lo <= hi: st.facts[a.id] = (lo, hi)
    def select(self, it, st, c, a, b, ty):
        self.defined(it, 'selection', c)
        r = self.decide(it, st, c)
        if r is not None: return a if r else b
        if isinstance(a, (int, V)) and isinstance(b, (int, V)):
            if ty == INT(1) and (a, b) == (1, 0): return c
            if ty == INT(1) and (a, b) == (0, 1): return self.negate(it, c)
            (la, ha), (lb, hb) = self.rng(st, a), self.rng(st, b)
            # min / max of the compared values
            if isinstance(c, Cnd) and ty[0] == 'i':
                s1, s2 = st.clone(), st.clone(); self.assume(it, s1, c, True); self.assume(it, s2, c, False)
                (la, ha), (lb, hb) = self.rng(s1, a), self.rng(s2, b)
            return V(min(la, lb), max(ha, hb))
        if a is UNDEF or b is UNDEF: return UNDEF if a is b else Mix([(8, UNDEF)])
        raise AnalysisError('choice between %r and %r at %s' % (a, b, it.where()))
    # ---- memory
    def gep(self, it, st, off, i, iw, sz):
        st = st or it.cst
        self.defined(it, 'indexing', i); i = self.plain(i); off = self.plain(off)
        lo, hi = self.srng(st, i, iw) if isinstance(i, V) else (sgn(i & (1 << iw) - 1, iw),) * 2
        ol, oh = self.rng(st, off)
        ex = not (isinstance(off, V) and isinstance(i, V)) and all(x.ex for x in (off, i) if isinstance(x, V))
        r = V(ol + lo * sz, oh + hi * sz, ex)
        return r.lo if r.lo == r.hi else r
    def span(self, it, st, p, size, what):
        """the bytes an access at an unknown offset may touch"""
        o = st.mem.get(p.obj)
        it.check(st, Ptr(p.obj, 0), 0, what)
        lo, hi = self.rng(st, p.off)
        if lo < 0 or hi + size > o.size:
            if p.off.ex or lo + size > o.size or hi < 0: raise Violation('%s of %d bytes at offset %s of a %d byte object (%s)' % (what, size, 'up to %d' % hi if hi + size > o.size else 'from %d' % lo, o.size, o.name), it.where())
            raise Imprecise('%s at offset %d..%d of a %d byte object (%s) at %s' % (what, lo, hi, o.size, o.name, it.where()))
        it.mem_checks += 1
        return o, lo, hi + size
    def load(self, it, st, p, ty, size):
        o, lo, hi = self.span(it, st, p, size, 'read')
        v = it.gather(o, lo, hi - lo)
        parts = v.parts if isinstance(v, Mix) else [(0, v)]
        if v is UNDEF or any(x is UNDEF for _, x in parts):
            if all(x is UNDEF for _, x in parts) or (p.off.ex and isinstance(p.off, V)): return UNDEF if v is UNDEF else Mix([(size, UNDEF)])
            raise Imprecise('read of bytes that may not be written at ' + it.where())
        cs = [c for k, c in o.cells.items() if lo <= k < hi]
        if any(isinstance(c[1], (Ptr, Fun)) for c in cs):
            raise AnalysisError('address at an unknown position at ' + it.where())
        if cs and all(c[0] == size for c in cs):
            rs = [self.rng(st, c[1]) if isinstance(c[1], (int, V)) else (0, (1 << 8 * size) - 1) for c in cs]
            return V(min(r[0] for r in rs), max(r[1] for r in rs))
        return V(0, (1 << 8 * size) - 1)
    def store(self, it, st, p, v, size):
        o, lo, hi = self.span(it, st, p, size, 'write')
        if o.ro: raise Violation('write to constant object %s' % o.name, it.where())
        if isinstance(v, (Ptr, Fun)): raise AnalysisError('address stored at an unknown position at ' + it.where())
        o = st.wobj(p.obj)
        for k, c in list(o.cells.items()):
            if k < hi and k + c[0] > lo:
                if isinstance(c[1], (Ptr, Fun)): raise AnalysisError('store over an address at ' + it.where())
                if c[1] is UNDEF or isinstance(c[1], Mix): continue
                if v is UNDEF or isinstance(v, Mix): o.cells[k] = (c[0], UNDEF); continue
                if c[0] == size:
                    (la, ha), (lb, hb) = self.rng(st, c[1]), self.rng(st, v); o.cells[k] = (c[0], V(min(la, lb), max(ha, hb)))
                else: o.cells[k] = (c[0], V(0, (1 << 8 * c[0]) - 1))
    def mem_copy(self, it, st, d, s, n):
        if isinstance(n, V) or n is UNDEF:
            self.defined(it, 'copy length', n); raise AnalysisError('copy of an unknown length at ' + it.where())
        # copy at an unknown position
        v = []
        for k in range(0, n, 8):
            z = min(8, n - k)
            q = Ptr(s.obj, self.gep(it, st, s.off, k, 64, 1) if isinstance(s.off, V) else s.off + k)
            x = self.load(it, st, q, None, z) if isinstance(q.off, V) else it.load_bytes(st, q, z)
            v.append((k, z, x))
        for k, z, x in v:
            q = Ptr(d.obj, self.gep(it, st, d.off, k, 64, 1) if isinstance(d.off, V) else d.off + k)
            if isinstance(q.off, V): self.store(it, st, q, x, z)
            else: it.store_bytes(st, q, z, x)
    def mem_set(self, it, st, d, v, n): raise AnalysisError('fill of an unknown length at ' + it.where())
    def memcmp(self, it, st, a, b, n): return self.bytes_compared(it, st, a, b, n)
    def bytes_compared(self, it, st, a, b, n):
        for p in (a, b):
            v = it.load_bytes(st, p, n); self.defined(it, 'comparison', v)
        return V(-1, 1)

class MemInterp(Interp):
    strict = False
    def simple(self, st, env, ins):
        """an element address that is dereferenced at once must not be the one past the end"""
        if ins.op == 'gep' and len(ins.extra[1]) > 1:
            f = ins.fn
            if not hasattr(f, 'dereferenced'):
                f.dereferenced = {v[1] for b in f.blocks.values() for i in b for v in ((i.a[0],) if i.op == 'load' else (i.a[1],) if i.op == 'store' else ()) if v[0] == 'l'}
            self.strict = ins.res in f.dereferenced
            try: return Interp.simple(self, st, env, ins)
            finally: self.strict = False
        return Interp.simple(self, st, env, ins)
    def intrinsic(self, st, env, ins, name):
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
            n = self.val(st, env, ins.a[2][1], ins.a[2][0])
            if type(n) is int and n:
                for k in (0,) if 'memset' in name else (0, 1): self.member_bound(st, env, ins, ins.a[k][1], n)
        return Interp.intrinsic(self, st, env, ins, name)
    def member_bound(self, st, env, ins, v, n):
        """a block operation on (an offset from) a named array stays inside that array, also within a larger object"""
        f = ins.fn
        if not self.dem(f.name).startswith(B): return
        if not hasattr(f, 'geps'): f.geps = {i.res: i for b in f.blocks.values() for i in b if i.op == 'gep'}
        p = self.val(st, env, v, PTR)
        while v[0] == 'l' and v[1] in f.geps:
            g = f.geps[v[1]]; sty, idx = g.extra; t = self.m.resolve(sty)
            if t[0] == 'a' and len(idx) == 2 and t[1] > 1 and all(x == ('c', 0) for _, x in idx):
                q = self.val(st, env, g.a[0], PTR); z = self.m.size(t)
                if isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and type(p.off) is int and type(q.off) is int and not q.off <= p.off <= p.off + n <= q.off + z:
                    raise MemoryFault('block of %d bytes at offset %d of a %d byte array' % (n, p.off - q.off, z), self.where())
                return
            if len(idx) != 1: return
            v = g.a[0]
    def gep(self, st, base, sty, idx):
        if isinstance(base, Ptr) and len(idx) > 1:
            ty = sty
            for n, (ity, i) in enumerate(idx):
                if n == 0: continue
                ty = self.m.resolve(ty)
                if ty[0] == 's': ty = ty[1][i]; continue
                if ty[0] == 'a' and ty[1] > 0:
                    lo, hi = self.dom.srng(st, i, ity[1]) if isinstance(i, V) else (sgn(i, ity[1]),) * 2 if isinstance(i, int) else (0, 0)
                    if lo < 0 or hi > ty[1] - (self.strict and n == len(idx) - 1):
                        if isinstance(i, int) or i.ex or lo > ty[1] - (self.strict and n == len(idx) - 1) or hi < 0: raise Violation('index %s of an array of %d elements' % (lo if lo == hi else '%d..%d' % (lo, hi), ty[1]), self.where())
                        raise Imprecise('index %d..%d of an array of %d elements at %s' % (lo, hi, ty[1], self.where()))
                ty = ty[2]
        return Interp.gep(self, st, base, sty, idx)
    def mem_copy(self, st, d, s, n, move=False):
        if not move and type(n) is int and n and isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj == s.obj and type(d.off) is int and type(s.off) is int and d.off != s.off and abs(d.off - s.off) < n:
            raise Violation('copy between overlapping buffers', self.where())
        return Interp.mem_copy(self, st, d, s, n, move)
    def call(self, st, name, args, ins=None):
        if not self.stack: self.base = V.k       # numbers that exist before the first call
        rs = Interp.call(self, st, name, args, ins)
        return self.joined(rs) if len(rs) > 2 else rs
    def merge(self, st0, c, f, j, a, b):
        """both sides of a short branch become one state when they only differ in numbers"""
        sides = []; env = {}
        ea, eb = a[3], b[3]
        for k, v in ea.items():
            if k == '__allocas': env[k] = sorted(set(v) | set(eb.get(k, ())))
            elif k in eb:
                w = eb[k]
                if v is w or (type(v) is type(w) and not isinstance(v, V) and v == w): env[k] = v
                elif k.startswith('__'): return None
        phis = [i for i in f.blocks[j] if i.op == 'phi']
        for s, _, p, e in (a, b):
            vals = []
            for ins in phis:
                if p is MERGED: vals.append(e[ins.res]); continue
                vals.append(next(self.val(s, e, v, ins.ty) for v, blk in ins.extra if blk == p))
            sides.append((s, tuple(vals)))
        r = self.joined(sides)
        if len(r) != 1: return None
        s, vals = r[0]
        for ins, v in zip(phis, vals): env[ins.res] = v
        return ('cont', s, env, MERGED)
    def joined(self, rs):
        """paths that return the same value and leave memory alike up to the ranges of numbers become one"""
        D = self.dom; groups = {}; glob = self.gstate.mem
        def enc(v):
            if isinstance(v, V): return 'v'
            if isinstance(v, Ptr): return ('p', v.obj, enc(v.off))
            if isinstance(v, Mix): return ('m',) + tuple((n, enc(x)) for n, x in v.parts)
            if isinstance(v, tuple): return tuple(enc(x) for x in v)
            return 'u' if v is UNDEF else v
        def shape(o): return (o.freed, o.ro, o.size, tuple(sorted((k, c[0], enc(c[1])) for k, c in o.cells.items())))
        memo = {}
        def sh(o):
            r = memo.get(id(o))
            if r is None: r = memo[id(o)] = (shape(o), o)
            return r[0]
        m0 = rs[0][0].mem
        for s, v in rs:
            k = (enc(v), tuple((i, sh(o)) for i, o in sorted(s.mem.items()) if o is not glob.get(i) and not o.freed and not (i in m0 and all(t.mem.get(i) is o for t, _ in rs))))
            groups.setdefault(k, []).append((s, v))
        out = []
        for k, g in groups.items():
            s0, v0 = g[0]
            if len(g) == 1: out.append((s0, v0)); continue
            s = s0.clone()
            def hull(vs):
                r = [D.rng(t, v) for t, v in vs]; return V(min(x[0] for x in r), max(x[1] for x in r))
            def comb(vs):
                v = vs[0][1]
                if all(x is v for _, x in vs): return v
                if isinstance(v, V): return hull(vs)
                if isinstance(v, Ptr): return v if v.off.__class__ is int else Ptr(v.obj, hull([(t, x.off) for t, x in vs]))
                if isinstance(v, Mix): return Mix([(n, comb([(t, x.parts[j][1]) for t, x in vs])) for j, (n, _) in enumerate(v.parts)])
                if isinstance(v, tuple): return tuple(comb([(t, x[j]) for t, x in vs]) for j in range(len(v)))
                return v
            for i in list(s.mem):
                if s.mem[i] is glob.get(i) or s.mem[i].freed: continue
                os = [(t, t.mem[i]) for t, _ in g]
                if all(o is os[0][1] for _, o in os): continue
                o = s.wobj(i)
                for c in list(o.cells):
                    o.cells[c] = (o.cells[c][0], comb([(t, x.cells[c][1]) for t, x in os]))
            v = comb([(t, x) for t, x in g])
            for i in list(s.facts):
                if any(i not in t.facts for t, _ in g): del s.facts[i]; continue
                s.facts[i] = (min(t.facts[i][0] for t, _ in g), max(t.facts[i][1] for t, _ in g))
            out.append((s, v))
        return out
    def builtin(self, st, name, args):
        if name == 'malloc' and isinstance(args[0], int):
            s2 = st.clone()
            q = Interp.builtin(self, st, name, args); return [(s2, NULL), (st, q)]
        if name == 'memcmp' and isinstance(args[2], int) and args[2]:
            return self.dom.bytes_compared(self, st, *args)
        return Interp.builtin(self, st, name, args)

def array_len(d):
    k = re.search(r', (\d+)ul>::(?:operator\[\]|at)\(', d)
    return int(k.group(1)) if k else None
def cppsize(t):
    """(size, unit) of a C++ type with a fixed size"""
    t = t.strip()
    k = re.match(r'^' + B + r'(fp12|fp6|fp2|fp|g1|g2)$', t)
    if k: return 48 * SIZE[k.group(1)], 8
    z = {'unsigned long': 8, 'long': 8, 'unsigned int': 4, 'int': 4, 'bool': 1, 'unsigned char': 1, 'char': 1}.get(t)
    if z: return z, z
    k = re.match(r'^std::array<(.*), (\d+)ul>$', t)
    if k:
        r = cppsize(k.group(1))
        return r and (r[0] * int(k.group(2)), r[1])
    return None
def refparam(t):
    """(size, unit, constant) of a reference, pointer to an element, or fixed span"""
    k = re.match(r'^std::span<(unsigned char)( const)?, (\d+)ul(?: \* (\d+))?>(?: const&)?$', t)
    if k:
        n = int(k.group(3)) * int(k.group(4) or 1)
        return (n, 1, bool(k.group(2)), 'span' if t.endswith('>') else 'spanref') if n < 1 << 32 else None
    k = re.match(r'^(.*?)( const)?([&*])$', t)
    if not k: return None
    if k.group(3) == '*' and not k.group(1).startswith(B): return None
    r = cppsize(k.group(1))
    return r and (r[0], r[1], bool(k.group(2)), 'ref')
SCALARS = ('unsigned long', 'long', 'unsigned int', 'int', 'bool', 'unsigned char', B + 'conv_opt', B + 'from_mont')

def digest(x): return hashlib.blake2b(marshal.dumps(x), digest_size=16).digest()
class Mem:
    def __init__(self, m):
        self.m = m; self.inline = set(); self.mode = {}; self.live = {}; self.rets = {}; self.div = set(); self.inv = set()
    def member(self, d):
        name = split_params(d)[0]
        k = re.match(r'^(?:.* )?' + B + r'(fp12|fp6|fp2|fp|g1|g2)::([~\w]+)(<.*>)?$', name)
        return (k.group(1), k.group(2)) if k else None
    def simple(self, n):
        """a function with fixed-size parameters and results -> [(kind, ...)] per IR parameter, or None"""
        m = self.m; f = m.functions.get(n)
        if f is None: return None
        d = m.demangled.get(n, n)
        name, ps, const = split_params(d)
        if ps is None or not re.match(r'^(?:[\w:<>, ]+ )?' + B, name) or name.startswith(('std::', 'void std::')): return None
        if '{lambda' in d or '$_' in d: return None
        mem = self.member(d)
        if mem and (mem[1] == mem[0] or mem[1].startswith(('~', 'operator'))): return None
        if not mem and re.match(r'^(?:[\w:<>, ]+ )?' + B + r'(sha256|Hasher)', name): return None
        f.parse(); irp = list(f.params); out = []
        if ps == ['void']: ps = []
        if irp and irp[0][2] and irp[0][2][0] == 'sret':
            z = self.result(irp[0][2][1])
            if z is None: return None
            out.append(('sret', irp[0][2][1])); irp = irp[1:]
        if irp and irp[0][1] == '%this':
            if not mem: return None
            out.append(('ref', 48 * SIZE[mem[0]], 8, const, 'the object')); irp = irp[1:]
        if len(irp) != len(ps): return None
        for (ty, nm, at), t in zip(irp, ps):
            if at and at[0] == 'byval': return None
            r = refparam(t)
            if r: out.append((r[3] if r[3] != 'span' else 'ref', r[0], r[1], r[2], 'argument ' + nm.lstrip('%'))); continue
            if t in SCALARS and ty[0] == 'i': out.append(('int', ty[1], t)); continue
            return None
        if f.rty != VOID and f.rty[0] != 'i': return None
        return out
    def result(self, ty):
        """[(offset, size, kind)] of the pieces of a result type"""
        m = self.m
        if ty[0] == 'n':
            k = re.match(r'^%"class\.' + B + r'(fp12|fp6|fp2|fp|g1|g2)"$', ty[1])
            if k: return [(8 * i, 8, 'v') for i in range(6 * SIZE[k.group(1)])]
            if 'optional' in ty[1]:
                e = self.engaged(ty)
                if e is None: return None
                return [(o, z, 'p') for o, z in self.leaves(ty) if o < e] + [(e, 1, 'flag')]
            if ty[1].startswith('%"struct.std::array') or ty[1].startswith('%"class.std::tuple') or ty[1].startswith('%"struct.std::pair'):
                return [(o, z, 'v') for o, z in self.leaves(ty)] if self.leaves(ty) is not None else None
        return None
    def leaves(self, ty, base=0):
        m = self.m; r = m.resolve(ty)
        if r[0] == 'i': return [(base, m.size(r))]
        if r[0] == 'a':
            z = m.size(r[2]); out = []
            if r[1] > 4096: return None
            for i in range(r[1]):
                x = self.leaves(r[2], base + i * z)
                if x is None: return None
                out += x
            return out
        if r[0] == 's':
            out = []; seen = -1
            # a union is laid out as its largest member
            for e, o in zip(r[1], m.layout(ty)[0]):
                if m.size(e) == 1 and m.resolve(e)[0] == 's' and not m.resolve(e)[1]: continue
                x = self.leaves(e, base + o)
                if x is None: return None
                out += x
            return out
        return None
    def engaged(self, ty):
        m = self.m; r = m.resolve(ty)
        while r[0] == 's':
            off, z = m.layout(r)
            if len(r[1]) == 1: r = m.resolve(r[1][0]); continue
            for e, o in zip(r[1], off):
                if e == INT(8) or e == INT(1): return o
            if m.resolve(r[1][0])[0] == 's': r = m.resolve(r[1][0]); continue
            return None
        return None
    def fill(self, it, st, p, size, unit, undef=False):
        o = st.wobj(p.obj)
        for k in range(0, size, unit): it.put(o, p.off + k, unit, V(0, (1 << 8 * unit) - 1, True))
    def contract(self, n, sig):
        """transfer function of a function that has its own obligation"""
        m = self.m; d = m.demangled.get(n, n); f = m.functions.get(n)
        def h(it, st, a):
            D = it.dom; i = -1; writes = []
            for v, s in zip(a, sig):
                i += 1
                if s[0] == 'int': continue
                if s[0] == 'sret': continue
                if s[0] == 'spanref': v = it.load_bytes(st, v, 8)
                if isinstance(v, Ptr) and isinstance(v.off, V):
                    o, lo, hi = D.span(it, st, v, s[1], 'read')
                    x = D.load(it, st, v, None, s[1])
                else:
                    x = it.load_bytes(st, v, s[1])
                if i in self.mode.get(n, ()): pass
                elif x is UNDEF or (isinstance(x, Mix) and any(y is UNDEF for _, y in x.parts)):
                    raise Violation('%s of %s is used without being written' % (s[4], d.replace(B, '')), it.where())
                if not s[3]: writes.append((v, s))
            for v, s in writes:
                if isinstance(v.off, V): D.store(it, st, v, WORD(), s[1])
                else:
                    if st.mem[v.obj].ro: raise Violation('write to constant object %s' % st.mem[v.obj].name, it.where())
                    self.fill(it, st, v, s[1], s[2])
            if sig and sig[0][0] == 'sret':
                o = it.check(st, a[0], m.size(sig[0][1]), 'write'); o = st.wobj(a[0].obj)
                for off, z, k in self.result(sig[0][1]): it.put(o, a[0].off + off, z, V(0, 1) if k == 'flag' else V(0, (1 << 8 * z) - 1, True))
                return None
            rt = f.rty if f is not None else VOID
            if rt == VOID: return None
            return self.outcome(n, rt)
        return h
    def divided(self, n, sig):
        """long division: analysed for the constant moduli only (see divisions), so every call must pass one of them"""
        c = self.contract(n, sig); k = len(sig) - 1
        def h(it, st, a):
            z = sig[k][1]; v = 0
            for i in range(0, z, 8):
                w = it.load_bytes(st, Ptr(a[k].obj, a[k].off + i), 8)
                if not isinstance(w, int): raise Imprecise('division by an unknown number at ' + it.where())
                v |= w << 8 * i
            if v not in (P, ORDER): raise Imprecise('division by %#x, which is not one of the two moduli, at %s' % (v, it.where()))
            return c(it, st, a)
        return h
    def outcome(self, n, rt):
        return V(*self.rets.get(n, (0, (1 << rt[1]) - 1)))
    # ---- state identity
    def liveness(self, f):
        r = self.live.get(f.name)
        if r is not None: return r
        use = {}; deff = {}; phiuse = {}
        def locs(v, out):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'l' and isinstance(v[1], str): out.add(v[1]); return
            if isinstance(v, (tuple, list)):
                for x in v: locs(x, out)
            elif isinstance(v, dict):
                for x in v.values(): locs(x, out)
        for b in f.order:
            u, dd = set(), set()
            for i in f.blocks[b]:
                s = set()
                if i.op == 'phi':
                    for v, pb in i.extra:
                        t = set(); locs(v, t); phiuse.setdefault((pb, b), set()).update(t)
                else:
                    locs(i.a, s); locs(i.extra, s)
                u |= s - dd
                if i.res: dd.add(i.res)
            use[b], deff[b] = u, dd
        live = {b: set() for b in f.order}; ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                o = set()
                for s in f.succs(b): o |= live[s] | phiuse.get((b, s), set())
                n = use[b] | (o - deff[b])
                if n != live[b]: live[b] = n; ch = True
        # results of phi nodes of the block itself count as available
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'phi': live[b] = live[b] | {i.res}
        self.live[f.name] = live
        return live
    def sig(self, it, st, env, live):
        """-> (everything the rest of the run depends on, the same without ranges)"""
        D = it.dom; num = {}; base = it.base; facts = st.facts; ranges = []; out = []
        def enc(v):
            if type(v) is int: return v
            if isinstance(v, V):
                i = v.id
                if i <= base: return 'f%d' % i
                k = num.get(i)
                if k is None:
                    k = num[i] = 'v%d' % len(num); ranges.append(facts.get(i) or (v.lo, v.hi))
                return k
            if isinstance(v, Ptr): return ('p', v.obj, enc(v.off))
            if isinstance(v, Mix): return ('m',) + tuple((n, enc(x)) for n, x in v.parts)
            if isinstance(v, tuple): return tuple(enc(x) for x in v)
            if v is UNDEF: return 'u'
            return repr(v)
        for k in sorted(live):
            if k in env: out.append((k, enc(env[k])))
        gm = it.gstate.mem
        for i, o in st.mem.items():
            if o.ro or o.freed or o is gm.get(i): continue
            out.append(i); out.extend(o.cells); out.extend([enc(c[1]) for c in o.cells.values()])
        for i in sorted(i for i in facts if i <= base): out.append(i); ranges.append(facts[i])
        h = digest(out)
        return h + digest(ranges), h
    PARTS = 12
    def forget(self, it, st):
        st.facts.clear()
        for i, o in list(st.mem.items()):
            if o is it.gstate.mem.get(i): continue
            for k, c in list(o.cells.items()):
                if isinstance(c[1], V): st.wobj(i).cells[k] = (c[0], V(0, (1 << 8 * c[0]) - 1))
    def hooks(self, it):
        m = self.m
        def mk(f, blk):
            def hook(it, st, env, prev):
                act = env.get('__act')
                if act is None: act = env['__act'] = {'seen': {}, 'many': {}, 'd': len(it.worklists) - 1}
                if not any(it.worklists[act['d']:]): return True       # no other path of this call is waiting
                seen = act['seen'].setdefault(blk, set()); many = act['many'].setdefault(blk, {})
                s, h = self.sig(it, st, env, self.liveness(f)[blk])
                if s in seen: return False
                seen.add(s)
                many[h] = many.get(h, 0) + 1
                if many[h] <= self.PARTS: return True
                # too many partitions that differ only in ranges: forget the ranges
                self.forget(it, st)
                s, h = self.sig(it, st, env, self.liveness(f)[blk])
                if s in seen: return False
                seen.add(s); return True
            return hook
        def entry(it, st, env, prev):
            if '__act' not in env: env['__act'] = {'seen': {}, 'many': {}, 'd': len(it.worklists) - 1}
            return True
        for n, f in m.functions.items():
            if not m.demangled.get(n, n).find(B) >= 0: continue
            f.parse(); preds = {}
            for b in f.order:
                for s in f.succs(b): preds.setdefault(s, set()).add(b)
            heads = loops(f); merged = {f.ipdom().get(b) for b in f.order if len(f.succs(b)) > 1 and short_region(f, b)}
            for b in f.order:
                if b in heads or (len(preds.get(b, ())) > 1 and b not in merged): it.block_hooks[(n, b)] = mk(f, b)
            if (n, f.entry) not in it.block_hooks: it.block_hooks[(n, f.entry)] = entry
    def interp(self, entry):
        m = self.m; D = MemDomain(); it = MemInterp(m, D, max_steps=20_000_000); it.max_forks = 20000
        from checks.purity import primitives
        if getattr(self, 'gst', None) is None:
            c = primitives(Interp(m, Domain())); c.run_ctors(); self.gst = (c.gstate, c.globals_obj, c.next_id)
        it.gstate, it.globals_obj, it.next_id = self.gst[0].clone(), dict(self.gst[1]), self.gst[2]; it.base = 1 << 62
        H = it.handlers
        for n in set(m.functions) | set(m.declares) | set(m.ifuncs):
            if n == entry or n in self.inline: continue
            s = self.sigs.get(n)
            if s is not None: H[n] = (self.divided if n in self.div else self.contract)(n, s)
        def asmh(it, st, callee, a, ins): return self.asm_result(it, ins)
        H['asm'] = asmh
        for n, d in list(m.demangled.items()):
            if n not in m.functions: continue
            k = re.match(r'^(?:.* )?std::(array|span|vector)<', d)
            if k and re.search(r'::operator\[\]\(unsigned long\)( const)?$', d):
                H[n] = self.index(n, d, k.group(1))
        tree = Proto.__new__(Proto); tree.dom = D
        def insert(it, st, a):
            out = []
            for side in (0, 1):
                s = st.clone()
                if isinstance(a[0], int): s = st; side = a[0]
                elif not D.assume(it, s, a[0], bool(side)): continue
                tree.rb_insert(it, s, [side] + list(a[1:])); out.append((s, None))
                if s is st: break
            return out
        H['_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_'] = insert
        for q in ('P', 'PK'):
            H['_ZSt18_Rb_tree_decrement%sSt18_Rb_tree_node_base' % q] = lambda it, st, a: tree.rb_step(it, st, a[0], 0)
            H['_ZSt18_Rb_tree_increment%sSt18_Rb_tree_node_base' % q] = lambda it, st, a: tree.rb_step(it, st, a[0], 1)
        self.hooks(it)
        return it
    def asm_result(self, it, ins):
        t = ins.ty
        def one(t):
            t = self.m.resolve(t) if t[0] == 'n' else t
            if t == VOID: return None
            if t[0] == 'i': return V(0, (1 << t[1]) - 1)
            if t[0] == 's': return tuple(one(e) for e in t[1])
            raise AnalysisError('inline assembly at ' + it.where())
        return one(t)
    def index(self, n, d, kind):
        m = self.m; f = m.functions[n]
        k = re.search(r', (\d+)ul>::operator\[\]', d)
        N = int(k.group(1)) if k else None
        if N is not None and N >= 1 << 62: N = None
        def h(it, st, a):
            D = it.dom; lim = N; i = a[1]
            D.defined(it, 'indexing', i); i = D.plain(i)
            lo, hi = D.urng(st, i, 64)
            if lim is None and kind == 'vector':
                b, e = it.load_bytes(st, a[0], 8), it.load_bytes(st, Ptr(a[0].obj, a[0].off + 8), 8)
                if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj and isinstance(b.off, int) and isinstance(e.off, int):
                    lim = e.off - b.off; b = hi * self.elsize(d, it)
                    if b is None: return NotImplemented
                    hib = b + self.elsize(d, it)
                    if hib > lim:
                        if lo == hi or (isinstance(i, V) and i.ex): raise Violation('index %s beyond the end of a vector' % (lo if lo == hi else 'up to %d' % hi), it.where())
                        raise Imprecise('index up to %d beyond the end of a vector at %s' % (hi, it.where()))
                return NotImplemented
            if lim is not None and hi >= lim:
                if lo == hi or lo >= lim or (isinstance(i, V) and i.ex): raise Violation('index %s of an array of %d elements' % (lo if lo == hi else 'up to %d' % hi, lim), it.where())
                raise Imprecise('index up to %d of an array of %d elements at %s' % (hi, lim, it.where()))
            return NotImplemented
        return h
    def elsize(self, d, it):
        k = re.search(r'std::vector<(.*?), std::allocator', d)
        r = cppsize(k.group(1)) if k else None
        return r[0] if r else 0
    # ---- obligations on fixed-size functions
    def operands(self, it, n, sig, undef=(), alias=False):
        m = self.m; st = it.gstate.clone(); vals = []; outs = []; first = {}
        for i, s in enumerate(sig):
            if s[0] == 'sret':
                p = it.new_obj(st, m.size(s[1]), 'arg', 'result'); outs.append((p, s, 'the result'))
            elif s[0] == 'int':
                p = V(0, 1, True) if s[2] == 'bool' else word(s[1])
                if s[1] == 1: p = V(0, 1, True)
            else:
                key = (s[1], s[2])
                if alias and key in first and s[0] == 'ref':
                    p = first[key]
                    if not s[3]: st.mem[p.obj].ro = False
                else:
                    p = it.new_obj(st, s[1], 'arg', s[4])
                    if i not in undef: self.fill(it, st, p, s[1], s[2])
                    st.mem[p.obj].ro = s[3]
                    first[key] = p
                if not s[3]: outs.append((p, s, s[4]))
                if s[0] == 'spanref':
                    q = it.new_obj(st, 8, 'arg', 'span'); it.store_bytes(st, q, 8, p); st.mem[q.obj].ro = True; p = q
            vals.append(p)
        return st, vals, outs
    def written(self, it, s, outs):
        for p, sg, label in outs:
            if sg[0] == 'sret':
                pc = self.result(sg[1])
                fl = [x for x in pc if x[2] == 'flag']
                if fl:
                    e = it.load_bytes(s, Ptr(p.obj, fl[0][0]), 1)
                    if e is UNDEF: return 'whether the optional result holds a value is never written'
                    if isinstance(e, int) and not e & 1: continue
                pc = [(o, z) for o, z, k in pc if k != 'flag']
            else: pc = [(k, sg[2]) for k in range(0, sg[1], sg[2])]
            for o, z in pc:
                v = it.load_bytes(s, Ptr(p.obj, p.off + o), z)
                if v is UNDEF or (isinstance(v, Mix) and any(x is UNDEF for _, x in v.parts)): return '%s is returned without being written (byte %d)' % (label, o)
        return None
    def examine(self, n, undef=(), alias=False, comp=None):
        it = self.interp(n)
        if comp: it.handlers[self.m.bydem[B + 'sha256::transform()']] = comp
        sig = self.sigs[n]
        st, vals, outs = self.operands(it, n, sig, undef, alias)
        rs = it.call(st, n, vals)
        if not rs: raise AnalysisError('no path returns')
        f = self.m.functions[n]
        for s, v in rs:
            w = self.written(it, s, outs)
            if w: raise Violation(w, self.m.where(f.dbg))
            if v is UNDEF: raise Violation('returns a value that was never written', self.m.where(f.dbg))
            self.leaks(it, s)
        return it, rs
    def leaks(self, it, s): pass

def prim_sig(d):
    name, ps, const = split_params(d)
    if ps is None or not re.match(r'^' + B + r'_\w+$', name): return None
    out = []
    for i, t in enumerate(ps):
        r = refparam(t)
        if not r: return None
        out.append(('ref', r[0], r[1], r[2], 'operand %d' % i))
    return out

def prepare(m):
    X = Mem(m); X.sigs = {}
    for n in m.functions:
        s = X.simple(n)
        if s is not None: X.sigs[n] = s
    for n in set(m.declares) | set(m.ifuncs):
        s = prim_sig(m.demangled.get(n, n))
        if s: X.sigs[n] = s; X.mode[n] = {i for i, x in enumerate(s) if not x[3]}
    for n in list(X.sigs):
        d = m.demangled.get(n, n)
        if n in m.functions and prim_sig(d): X.mode[n] = {i for i, x in enumerate(X.sigs[n]) if not x[3]}
    for n in X.sigs:
        d = m.demangled.get(n, n)
        k = re.match(r'^void ' + B + r'bn_divn_safe<(\d+)ul, (\d+)ul>\(', d)
        if k: X.div.add(n); X.mode[n] = {0, 1}
        if d == B + 'fp::inverse() const': X.inv.add(n); X.mode[n] = set()
    up = callers(m); down = {}
    for c, cs in up.items():
        for k in cs: down.setdefault(k, set()).add(c)
    # callees first
    order = []; seen = set()
    def visit(n):
        work = [(n, iter(sorted(down.get(n, ()))))]; seen.add(n)
        while work:
            x, itr = work[-1]
            for y in itr:
                if y not in seen and y in m.functions:
                    seen.add(y); work.append((y, iter(sorted(down.get(y, ()))))); break
            else:
                order.append(x); work.pop()
    for n in sorted(X.sigs):
        if n in m.functions and n not in seen: visit(n)
    X.up = up
    return X, [n for n in order if n in X.sigs]
def output_params(X, n):
    f = X.m.functions[n]; f.parse()
    off = [p[1] for p in f.params]
    return [i for i, s in enumerate(X.sigs[n]) if s[0] in ('ref', 'spanref') and not s[3] and off[i] != '%this']
def modes(X, order):
    """parameters a function only writes: it does not read them before they are written"""
    for n in order:
        if n in X.mode: continue
        ok = set()
        for i in output_params(X, n):
            try: X.examine(n, (i,)); ok.add(i)
            except (Violation, AnalysisError): pass
        X.mode[n] = ok
        rt = X.m.functions[n].rty
        if rt[0] == 'i' and rt[1] > 1:
            try: it, rs = X.examine(n, ok)
            except (Violation, AnalysisError): continue
            r = [it.dom.urng(s, v, rt[1]) for s, v in rs]
            X.rets[n] = (min(x[0] for x in r), max(x[1] for x in r))

class Driver:
    """arguments of variable size"""
    def __init__(self, X, it): self.X = X; self.it = it; self.st = it.gstate.clone(); self.outs = []
    def bytes(self, n, name='data', null=False):
        if n == 0 and null: return NULL
        p = self.it.new_obj(self.st, n, 'arg', name); self.X.fill(self.it, self.st, p, n, 1); self.st.mem[p.obj].ro = True; return p
    def words(self, n, name='words', count=1):
        p = self.it.new_obj(self.st, 8 * n * count, 'arg', name); self.X.fill(self.it, self.st, p, 8 * n * count, 8); self.st.mem[p.obj].ro = True; return p
    def out(self, n, name='output', full=False):
        p = self.it.new_obj(self.st, n, 'arg', name)
        if full: self.outs.append((p, n, name))
        return p
    def span(self, n, name='data'): return [self.bytes(n, name, True), n]
    def ptrs(self, kind, items, name, size):
        """array of objects {begin, end, capacity}"""
        p = self.it.new_obj(self.st, 24 * len(items), 'arg', name)
        for i, n in enumerate(items):
            d = self.bytes(n * size, '%s %d' % (name, i)) if n or kind else NULL
            for o, q in ((0, d), (8, Ptr(d.obj, n * size) if d != NULL else NULL), (16, Ptr(d.obj, n * size) if d != NULL else NULL)): self.it.store_bytes(self.st, Ptr(p.obj, 24 * i + o), 8, q)
        self.st.mem[p.obj].ro = True; return p
    def string(self, n, name='string'):
        p = self.it.new_obj(self.st, 32, 'arg', name); d = self.it.new_obj(self.st, n + 1, 'arg', name + ' data')
        self.X.fill(self.it, self.st, d, n, 1); self.it.store_bytes(self.st, Ptr(d.obj, n), 1, 0)
        self.it.store_bytes(self.st, p, 8, d); self.it.store_bytes(self.st, Ptr(p.obj, 8), 8, n); self.it.store_bytes(self.st, Ptr(p.obj, 16), 8, n)
        self.st.mem[p.obj].ro = True; self.st.mem[d.obj].ro = True
        return p
    def function(self):
        p = self.it.new_obj(self.st, 32, 'arg', 'yield function')
        for k in range(4): self.it.store_bytes(self.st, Ptr(p.obj, 8 * k), 8, 0)
        return p

def compression(X, m):
    """sha256::transform: fields it reads and writes, from its own analysis"""
    n = m.bydem.get(B + 'sha256::transform()')
    if n is None or n not in m.functions: return None
    ty = ('n', '%"class.' + B + 'sha256"')
    lv = X.leaves(ty); r = m.resolve(ty); off, size = m.layout(ty)
    fields = [(off[i], m.size(e)) for i, e in enumerate(r[1])]
    def run(undef=None):
        it = X.interp(n); st = it.gstate.clone(); p = it.new_obj(st, size, 'arg', 'the object')
        for o, z in lv:
            if undef is None or not undef[0] <= o < undef[0] + undef[1]: it.store_bytes(st, Ptr(p.obj, o), z, V(0, (1 << 8 * z) - 1, True))
        before = dict(st.mem[p.obj].cells)
        return it, p, before, it.call(st, n, [p])
    it, p, before, rs = run()
    wr = {o for o, z in lv for s, _ in rs if s.mem[p.obj].cells.get(o) is not before[o] and s.mem[p.obj].cells.get(o) != before[o]}
    need = []
    for f in fields:
        try: run(f)
        except MemoryFault: need.append(f)
        except Violation: need.append(f)
    def h(it, st, a):
        q = a[0]
        it.check(st, q, size, 'read')
        for o, z in lv:
            if any(f[0] <= o < f[0] + f[1] for f in need):
                v = it.load_bytes(st, Ptr(q.obj, q.off + o), z)
                if v is UNDEF or isinstance(v, Mix): raise Violation('the compression function reads bytes that were never written', it.where())
        for o, z in lv:
            if o in wr: it.store_bytes(st, Ptr(q.obj, q.off + o), z, V(0, (1 << 8 * z) - 1, True))
    return h

G1, G2, FP2 = 144, 288, 96
def cases(thorough):
    out = []
    def case(prefix, label, build, optional=False): out.append((B + prefix, label, build, optional))
    sp = '(std::span<'
    lens = [0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 255, 256, 257, 1000]
    if thorough: lens = list(range(0, 300)) + [511, 512, 513, 1000, 4097]
    for g, z in (('g1', G1), ('g2', G2)):
        for a, b in [(0, 0), (0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (3, 3), (31, 31), (32, 32), (33, 33), (64, 64)] + ([(63, 63), (65, 64), (127, 127), (128, 128)] if thorough else []):
            case('%s::weightedSum(' % g, '%d points, %d scalars' % (a, b), lambda d, a=a, b=b, z=z: [d.out(z, 'result', True), d.words(z // 8, 'points', a) if a else NULL, a, d.words(4, 'scalars', b) if b else NULL, b, d.function()])
    PAIR = G1 + G2
    def pairs(d, n): return [d.words(PAIR // 8, 'pairs', n) if n else NULL, n]
    for n in (0, 1, 2, 3, 4):
        case('pairing::miller_loop(', '%d pairs' % n, lambda d, n=n: [d.out(576, 'result', True)] + pairs(d, n) + [d.function()])
        case('pairing::calculate(', '%d pairs' % n, lambda d, n=n: [d.out(576, 'result', True)] + pairs(d, n) + [d.function()])
        case('pairing::add_pair(', '%d pairs so far' % n, lambda d, n=n: [vec(d, PAIR, n), d.words(18), d.words(36)])
        case('aggregate_public_keys' + sp, '%d keys' % n, lambda d, n=n: [d.out(G1, 'result', True), d.words(18, 'keys', n) if n else NULL, n])
        case('aggregate_signatures' + sp, '%d signatures' % n, lambda d, n=n: [d.out(G2, 'result', True), d.words(36, 'signatures', n) if n else NULL, n])
        case('aggregate_secret_keys' + sp, '%d keys' % n, lambda d, n=n: [d.out(32, 'result', True), d.words(4, 'keys', n) if n else NULL, n])
        case('pop_fast_aggregate_verify' + sp, '%d keys' % n, lambda d, n=n: [d.words(18, 'keys', n) if n else NULL, n] + d.span(3, 'message') + [d.words(36)])
    for ks, ms in [((), ()), ((1,), (0,)), ((1,), (5,)), ((1,), (300,)), ((2,), (3, 0)), ((2,), (32, 32)), ((1,), ()), ((0,), (1,)), ((2,), (1,)), ((1,), (1, 2))] + ([((3,), (1, 1, 1))] if thorough else []):
        for chk in (0, 1):
            k = sum(ks)
            case('aggregate_verify' + sp, '%d keys, messages of %s bytes%s' % (k, list(ms), ', checked for duplicates' if chk else ''), lambda d, k=k, ms=ms, chk=chk: [d.words(18, 'keys', k) if k else NULL, k, d.ptrs(0, ms, 'message', 1) if ms else NULL, len(ms), d.words(36), chk])
    for n in (0, 1, 32, 100, 129, 257, 1000):
        case('sign(', '%d byte message' % n, lambda d, n=n: [d.out(G2, 'result', True), d.words(4)] + d.span(n, 'message'))
        case('verify(', '%d byte message' % n, lambda d, n=n: [d.words(18)] + d.span(n, 'message') + [d.words(36)])
    for n in (0, 1, 5, 64, 100, 300):
        for t in (0, 1, 43, 200, 254, 255, 256, 300):
            case('fromMessage(', '%d byte message, %d byte tag' % (n, t), lambda d, n=n, t=t: [d.out(G2, 'result', True)] + d.span(n, 'message') + [d.string(t, 'tag')])
    for ol in (0, 1, 31, 32, 33, 63, 64, 256, 8160, 8161, -1):
        for tl in (0, 1, 43, 255, 256):
            case('xmd_sh256(', '%d bytes from 3 bytes with a %d byte tag' % (ol, tl), lambda d, ol=ol, tl=tl: [d.out(max(ol, 0)), ol & 0xffffffff, d.bytes(3), 3, d.bytes(tl, 'tag'), tl])
    for il in lens:
        case('xmd_sh256(', '256 bytes from %d bytes' % il, lambda d, il=il: [d.out(256), 256, d.bytes(il, 'message', True), il, d.bytes(43, 'tag'), 43])
        case('sha256::update(unsigned char const*', '%d bytes, from the start, then the digest' % il, lambda d, il=il: ['sha', il])
    for il in (0, 1, 31, 32, 33, 64, 65, 100, 128, 129, 192, 193, 256, 257, 512, 513, 1000, 1025, 4097):
        for kl in (0, 1, 32, 63, 64, 65, 100, 128, 129, 257, 1000) if il in (1, 32, 100, 257) else (32, 64, 65):
            case('hkdf256_hmac(', '%d bytes, %d byte key' % (il, kl), lambda d, il=il, kl=kl: [d.out(32), d.bytes(il, 'input', True), il, d.bytes(kl, 'key', True), kl])
            case('hkdf256_extract(', '%d bytes, %d byte salt' % (il, kl), lambda d, il=il, kl=kl: [d.out(32), d.bytes(kl, 'salt', True), kl, d.bytes(il, 'input', True), il])
    for L in (0, 1, 31, 32, 33, 48, 63, 64, 65, 96, 300, 8160, 8161, (1 << 64) - 1):
        for nl in (0, 1, 3, 32, 60, 100, 129, 257, 1000):
            if L > 8000 and nl > 0 or nl > 60 and L not in (32, 48, 300): continue
            case('hkdf256_expand(', '%d bytes, %d bytes of context' % (L, nl), lambda d, L=L, nl=nl: [d.out(L if L < 8161 else 0), L, d.bytes(32, 'key'), d.bytes(nl, 'context', True), nl])
    for L, a, b, c in ((48, 32, 20, 2), (48, 33, 0, 0), (100, 32, 4, 0), (0, 0, 0, 0), (8161, 1, 1, 1)):
        case('hkdf256_extract_expand(', '%d bytes from %d, %d, %d' % (L, a, b, c), lambda d, L=L, a=a, b=b, c=c: [d.out(L), L, d.bytes(a, 'key', True), a, d.bytes(b, 'salt', True), b, d.bytes(c, 'context', True), c])
    for a, b in ((32, 4), (0, 0), (100, 70)):
        case('ikm_to_lamport_sk(', '%d bytes, %d byte salt' % (a, b), lambda d, a=a, b=b: [d.out(8160), d.bytes(a, 'input', True), a, d.bytes(b, 'salt', True), b])
    case('parent_sk_to_lamport_pk(', 'any key and index', lambda d: [d.out(32), d.words(4), V(0, (1 << 32) - 1, True)])
    for n in (0, 1, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 191, 192, 255, 256, 257, 512, 1000, 4097):
        case('secret_key(', '%d byte seed' % n, lambda d, n=n: [d.out(32, 'result', True)] + d.span(n, 'seed'))
    for n in list(range(0, 9)) + [15, 16, 17, 32, 48, 96]: case('bytesToHex', '%d bytes' % n, lambda d, n=n: [d.out(32, 'result')] + d.span(n))
    for n in list(range(0, 9)) + [15, 16, 17]: case('hexToBytes(std::basic_string_view', '%d characters' % n, lambda d, n=n: [d.out(24, 'result'), n, d.bytes(n, 'text', True)])
    for n in (0, 1, 15, 16, 63, 64, 65, 130): case('sha256::update(std::', 'string of %d bytes' % n, lambda d, n=n: ['sha', ('string', n)])
    return out
def vec(d, size, n):
    p = d.it.new_obj(d.st, 24, 'arg', 'vector')
    if n:
        q = d.it.new_obj(d.st, size * n, 'heap', 'elements'); d.X.fill(d.it, d.st, q, size * n, 8); d.st.mem[q.obj].name = '_Znwm elements'
        e = Ptr(q.obj, size * n)
    else: q = e = NULL
    for o, v in ((0, q), (8, e), (16, e)): d.it.store_bytes(d.st, Ptr(p.obj, o), 8, v)
    return p

def run_case(X, prefix, build, comp):
    m = X.m
    c = [n for d, n in m.bydem.items() if d.startswith(prefix) and n in m.functions and '$_' not in d and '{lambda' not in d]
    if len(c) != 1: raise AnalysisError('anchor vanished: %d definitions of %s' % (len(c), prefix))
    n = c[0]; it = X.interp(n)
    if comp: it.handlers[m.bydem[B + 'sha256::transform()']] = comp
    it.max_steps = 2 * 10 ** 9
    d = Driver(X, it); a = build(d)
    if a and a[0] == 'sha':
        z = m.size(('n', '%"class.' + B + 'sha256"'))
        p = it.new_obj(d.st, z, 'arg', 'the hasher'); r = d.out(32, 'digest')
        rs = [(s, None) for s, _ in it.call(d.st, fn(m, B + 'sha256::sha256()'), [p])]
        text = isinstance(a[1], tuple)
        for step in ([n, p, a[1][1] if text else a[1]], [n, p, 7]):
            nx = []
            for s, _ in rs:
                if text:
                    d.st = s; nx += it.call(s, n, [p, d.string(step[2], 'text')]); continue
                q = it.new_obj(s, step[2], 'arg', 'data'); X.fill(it, s, q, step[2], 1); s.mem[q.obj].ro = True
                nx += it.call(s, n, [p, q, step[2]])
            rs = nx
        rs = [x for s, _ in rs for x in (it.call(s, fn(m, B + 'sha256::digest()'), [r, p]) if text else it.call(s, fn(m, B + 'sha256::digest(unsigned char*)'), [p, r]))]
        for s, _ in rs:
            if it.load_bytes(s, r, 32).__class__ is Mix and any(x is UNDEF for _, x in it.load_bytes(s, r, 32).parts): raise Violation('the digest is not written completely', where_fn(m, m.demangled[n]))
        return it, rs
    rs = it.call(d.st, n, a)
    for s, v in rs:
        for p, z, name in d.outs:
            for k in range(0, z, 8):
                w = it.load_bytes(s, Ptr(p.obj, p.off + k), 8)
                if w is UNDEF or isinstance(w, Mix): raise Violation('%s is returned without being written (byte %d)' % (name, k), where_fn(m, m.demangled[n]))
        if v is UNDEF: raise Violation('returns a value that was never written', where_fn(m, m.demangled[n]))
    return it, rs

def only_memory(r, f):
    """an obligation decided by the analysis of another property; only its memory faults count here"""
    orig = r.run
    def run(name, body, where=''):
        def b():
            try: w = body()
            except MemoryFault: raise
            except Violation as e: raise AnalysisError('the values are not the expected ones (%s)' % e.msg)
            if isinstance(w, str): raise AnalysisError('the values are not the expected ones (%s)' % w)
        return orig('memory accesses of: ' + name, b, where)
    r.run = run
    try: f(r)
    finally: del r.run
def where_prefix(m, pre):
    for d, n in m.bydem.items():
        if d.startswith(pre) and n in m.functions: return where_fn(m, d)
    return pre
def count(r, it):
    r.absorb(it)

def run_H01(rep):
    from checks import divn, fieldops
    from checks.words import PH, PROBE
    sys.setrecursionlimit(20000)
    rep.limit = 600
    m = build.load(extra_sources=[os.path.join(HERE, 'inst.cpp')])
    rep.explanation = 'abstract interpretation over intervals: every load, store, copy, index, shift, division and release on every path is checked against the bounds, the lifetime and the initialisation of its object; functions with operands of fixed size are analysed on arbitrary contents and replaced by their contract at calls, the others for each listed length'
    rep.assumptions += ['lengths outside the analysed ones behave like their neighbours', 'standard library containers hold consistent pointers on entry', 'assembly routines access exactly their operands (their results are checked by A01)']
    X, order = prepare(m)
    modes(X, order)
    box = []
    if B + 'sha256::transform()' in m.bydem: rep.run('sha256::transform()', lambda: box.append(compression(X, m)), where_fn(m, B + 'sha256::transform()'))
    comp = box[0] if box else None
    jobs = []
    for n in order:
        d = m.demangled.get(n, n)
        if n in X.div or n in X.inv: continue
        def one(r, n=n, d=d):
            box = []
            def body():
                it, rs = X.examine(n, X.mode.get(n, ()), comp=comp); box.append(it); r.count('paths', len(rs))
            r.run(d.replace(B, ''), body, where_fn(m, d))
            if box: count(r, box[0])
        jobs.append((0 if 'derive_child_sk(' in d else 2, one))
    for pre, label, build_args, opt in cases(rep.tier == 'thorough'):
        def one(r, pre=pre, label=label, build_args=build_args):
            box = []
            def body():
                it, rs = run_case(X, pre, build_args, comp); box.append(it); r.count('paths', len(rs))
            name = pre.replace(B, '').rstrip('(<').replace('(std::span', '')
            r.run('%s: %s' % (name, label), body, where_prefix(m, pre))
            if box: count(r, box[0])
        jobs.append((0 if 'lamport_pk' in pre else 1 if 'weightedSum' in pre else 3, one))
    H = PH(build.load(extra_sources=[PROBE], name='scalarprobe')) if X.div else None
    for n in X.div:
        k = re.search(r'<(\d+)ul, (\d+)ul>', m.demangled[n]); N, M = int(k.group(1)), int(k.group(2))
        V, what = (P, 'the field modulus') if M == 6 else (ORDER, 'the group order')
        jobs.append((1, lambda r, N=N, M=M, V=V, what=what: only_memory(r, lambda q: divn.division(q, H, N, M, V, what))))
    if X.inv: jobs.append((1, lambda r: only_memory(r, lambda q: q.run('fp::inverse of a non-zero element', lambda: fieldops.inversion(q, m, False, value=False), where_fn(m, B + 'fp::inverse() const')))))
    jobs.sort(key=lambda x: x[0])
    rep.parallel([j for _, j in jobs])
