"""Linear-form domain: a group element (or a power in a multiplicative group) is an integer linear
combination of named generators whose coefficients are multilinear polynomials over input bits.
Words are the bit-level canonical forms of engine.bits; both sides of a data-dependent branch are
merged by multilinear interpolation, and memory indexed by input bits is expanded into its cases."""
import re
from .bits import *
from .bits import _bitname
from .interp import NoMerge

GSIZE = {'g1': 144, 'g2': 288, 'fp': 48, 'fp2': 96, 'fp6': 288, 'fp12': 576}
P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
ONE_ = frozenset()

# ---- multilinear integer polynomials over bits: {frozenset(bit ids): int}
_poly = {}
def bit_poly(b):
    """0/1-valued integer polynomial of a boolean expression in algebraic normal form"""
    r = _poly.get(b)
    if r is not None: return r
    vs = sorted({v for m in b for v in m})
    if len(vs) > 12: raise AnalysisError('condition over %d bits' % len(vs))
    idx = {v: i for i, v in enumerate(vs)}
    masks = [sum(1 << idx[v] for v in m) for m in b]
    n = 1 << len(vs)
    t = [0] * n
    for m in masks: t[m] ^= 1
    for i in range(len(vs)):            # ANF -> truth table
        for x in range(n):
            if x >> i & 1: t[x] ^= t[x ^ 1 << i]
    for i in range(len(vs)):            # truth table -> integer coefficients
        for x in range(n):
            if x >> i & 1: t[x] -= t[x ^ 1 << i]
    r = _poly[b] = {frozenset(vs[i] for i in range(len(vs)) if x >> i & 1): t[x] for x in range(n) if t[x]}
    return r
def bits_vars(bits): return sorted({v for f in bits for m in f for v in m})
def bit_eval(f, asg):
    r = 0
    for m in f:
        if all(asg[v] for v in m): r ^= 1
    return r
_ind = {}
def indicator(vs, vals):
    """product of b or (1-b)"""
    k = (tuple(vs), tuple(vals)); r = _ind.get(k)
    if r is None:
        r = {ONE_: 1}
        for v, x in zip(vs, vals):
            n = {}
            for m, c in r.items():
                mv = m | {v}
                n[mv] = n.get(mv, 0) + (c if x else -c)
                if not x: n[m] = n.get(m, 0) + c
            r = {m: c for m, c in n.items() if c}
        _ind[k] = r
    return r

def p_add(a, b, k=1):
    """a + k*b of polynomials (shared, never modified)"""
    if k == -1 and a is b: return {}
    if not a and k == 1: return b
    d = dict(a)
    for m, c in b.items():
        y = d.get(m, 0) + k * c
        if y: d[m] = y
        else: d.pop(m, None)
    return d
def p_mul(a, b):
    d = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            x = m | m2; d[x] = d.get(x, 0) + c * c2
    return {m: c for m, c in d.items() if c}
def p_subst(p, asg):
    d = {}
    for m, c in p.items():
        n = m
        if m:
            z = False
            for v in m:
                if v in asg:
                    if not asg[v]: z = True; break
                    n = n - {v}
            if z: continue
        d[n] = d.get(n, 0) + c
    return {m: c for m, c in d.items() if c}

class L(AV):
    """element of a group: {generator: polynomial}"""
    __slots__ = ('kind', 't', '_h')
    def __init__(self, kind, t): self.kind = kind; self.t = t; self._h = None
    def __eq__(self, o): return isinstance(o, L) and self.kind == o.kind and self.t == o.t
    def __hash__(self):
        if self._h is None: self._h = hash((self.kind, frozenset((g, frozenset(p.items())) for g, p in self.t.items())))
        return self._h
    def terms(self): return {(g, m): c for g, p in self.t.items() for m, c in p.items()}
    def __repr__(self):
        t = self.terms()
        s = ' + '.join('%s%s*%s' % (c, ''.join('*%s%d' % _bitname[v] for v in sorted(m)), g) for (g, m), c in sorted(t.items(), key=lambda x: (str(x[0][0]), len(x[0][1]), sorted(x[0][1])))[:5])
        return '%s[%s%s]' % (self.kind, s or '0', ' ..' if len(t) > 5 else '')
def l_map(a, f):
    d = {}
    for g, p in a.t.items():
        q = f(p)
        if q: d[g] = q
    return L(a.kind, d)
def l_add(a, b, k=1):
    if isinstance(a, Cases): return a.map(lambda x: l_add(x, b, k))
    if isinstance(b, Cases): return b.map(lambda x: l_add(a, x, k))
    if not b.t: return a
    d = dict(a.t)
    for g, p in b.t.items():
        q = d.get(g)
        r = p_add(q if q is not None else {}, p, k)
        if r: d[g] = r
        else: d.pop(g, None)
    return L(a.kind, d)
def l_scale(a, k):
    if isinstance(a, Cases): return a.map(lambda x: l_scale(x, k))
    return l_map(a, lambda p: {m: c * k for m, c in p.items()}) if k else L(a.kind, {})
def l_mulpoly(a, p): return l_map(a, lambda q: p_mul(q, p))
def l_subst(a, asg): return l_map(a, lambda q: p_subst(q, asg))
def gen(kind, name): return L(kind, {name: {ONE_: 1}})

class Cases(AV):
    """element read through a symbolic address: one value per case of the address bits"""
    __slots__ = ('kind', 'vs', 'v')
    def __init__(self, kind, vs, v): self.kind = kind; self.vs = vs; self.v = v
    def map(self, f): return Cases(self.kind, self.vs, {k: f(x) for k, x in self.v.items()})
    def flat(self):
        r = L(self.kind, {})
        for k, x in self.v.items(): r = l_add(r, l_mulpoly(l_subst(x, dict(zip(self.vs, k))), indicator(self.vs, k)))
        return r

class Slice(AV):
    """bytes off..off+n of an element"""
    __slots__ = ('e', 'off', 'n')
    def __init__(self, e, off, n): self.e = e; self.off = off; self.n = n
    def __eq__(self, o): return isinstance(o, Slice) and (self.off, self.n) == (o.off, o.n) and self.e == o.e
    def __hash__(self): return hash((self.e, self.off, self.n))
    def __repr__(self): return 'bytes %d..%d of %r' % (self.off, self.off + self.n - 1, self.e)

def mkslice(v, off, n):
    if isinstance(v, Slice): return mkslice(v.e, v.off + off, n)
    return v if off == 0 and n == GSIZE[v.kind] else Slice(v, off, n)

class Zero(AV):
    """truth value: the element is the identity"""
    __slots__ = ('e', 'neg')
    def __init__(self, e, neg=False): self.e = e; self.neg = neg
    def __eq__(self, o): return isinstance(o, Zero) and self.e == o.e and self.neg == o.neg
    def __hash__(self): return hash((self.e, self.neg))
    def __repr__(self): return '%s %s 0' % (self.e, '!=' if self.neg else '=')

class Some(AV):
    """truth value: one of the bits is set (or none, when neg)"""
    __slots__ = ('bits', 'neg')
    def __init__(self, bits, neg=False): self.bits = tuple(bits); self.neg = neg
    def __eq__(self, o): return isinstance(o, Some) and self.bits == o.bits and self.neg == o.neg
    def __hash__(self): return hash((self.bits, self.neg))
    def __repr__(self): return '%s of %d bits set' % ('none' if self.neg else 'one', len(self.bits))
def fact_subst(st):
    """values of single bits known on the path"""
    r = {}
    for k, v in st.facts.items():
        if k[0] == 'bit' and len(k[1]) == 1:
            m, = k[1]
            if len(m) == 1: r[next(iter(m))] = v
    return r

class GroupDomain(BitDomain):
    def __init__(self, exact_zero=False):
        BitDomain.__init__(self)
        self.ops = 0; self.merges = 0; self.cases = 0
        self.one_const = {}
        self.fork_zero = False
    # ---- memory
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, (L, Slice)): return mkslice(v, off, size)
        if isinstance(v, Zero): raise AnalysisError('bytes of a truth value')
        return BitDomain.extract(self, it, v, vsize, off, size)
    def assemble(self, it, parts, size):
        out = []
        for n, v in parts:
            if out and isinstance(v, Slice) and isinstance(out[-1][1], Slice):
                p = out[-1][1]
                if p.e == v.e and p.off + p.n == v.off:
                    out[-1] = (out[-1][0] + n, mkslice(v.e, p.off, p.n + n)); continue
            out.append((n, v))
        if len(out) == 1: return out[0][1]
        if any(isinstance(v, (L, Slice)) for _, v in out): return self.mixed(it, out, size)
        return BitDomain.assemble(self, it, out, size)
    def coalesce(self, o):
        """adjacent slices of one element become one cell again"""
        c = o.cells
        for k in sorted(c):
            x = c.get(k)
            if x is None or not isinstance(x[1], Slice): continue
            n, v = x; j = k + n; m = v.n
            while j in c and isinstance(c[j][1], Slice) and c[j][1].e == v.e and c[j][1].off == v.off + m:
                m += c[j][1].n; d = c.pop(j); j += d[0]
            if m != n:
                c[k] = (m, mkslice(v.e, v.off, m)); o.maxc = max(o.maxc, m)
    def mixed(self, it, parts, size): raise AnalysisError('mixture of %s at %s' % (', '.join('%d bytes of %r' % p for p in parts[:4]), it.where()))
    # ---- conditions
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, Zero) or isinstance(b, Zero):
            if isinstance(b, Zero): a, b = b, a
            if isinstance(b, int) and b in (0, 1) and pred in ('eq', 'ne'):
                return Zero(a.e, a.neg ^ (b == 0) ^ (pred == 'ne'))
        if isinstance(a, Some) and isinstance(b, int) and pred in ('eq', 'ne'): return Some(a.bits, a.neg ^ (b == 0) ^ (pred == 'ne'))
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            if w == 1 and pred in ('eq', 'ne'):
                x = bits_of(a, 1)[0] ^ bits_of(b, 1)[0]
                return from_bits([x ^ (B1 if pred == 'eq' else B0)])
            try: return BitDomain.icmp(self, it, pred, w, a, b)
            except AnalysisError: pass
            x, y = bits_of(a, w), bits_of(b, w)
            if pred in ('eq', 'ne'):
                d = [p ^ q for p, q in zip(x, y) if p != q]
                if len({v for f in d for m in f for v in m}) > 10: return Some(d, pred == 'eq')
                r = B0
                for f in d: r = bor(r, f)
                return from_bits([r ^ (B1 if pred == 'eq' else B0)])
            vs = bits_vars([f for f in x + y])
            if len(vs) <= 8:
                s = pred[0] == 's'; r = B0
                t = []
                for k in range(1 << len(vs)):
                    asg = {v: k >> i & 1 for i, v in enumerate(vs)}
                    p = sum(bit_eval(f, asg) << i for i, f in enumerate(x)); q = sum(bit_eval(f, asg) << i for i, f in enumerate(y))
                    if s: p -= (p >> (w - 1)) << w; q -= (q >> (w - 1)) << w
                    t.append({'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[pred[1:]])
                for i in range(len(vs)):
                    for k in range(len(t)):
                        if k >> i & 1: t[k] ^= t[k ^ 1 << i]
                r = frozenset(frozenset(vs[i] for i in range(len(vs)) if k >> i & 1) for k in range(len(t)) if t[k])
                return from_bits([r])
        return BitDomain.icmp(self, it, pred, w, a, b)
    def binop(self, it, op, w, a, b, flags):
        if isinstance(a, Some) and op == 'xor' and b == 1: return Some(a.bits, not a.neg)
        if isinstance(a, Zero) or isinstance(b, Zero):
            if isinstance(b, Zero): a, b = b, a
            if op == 'xor' and isinstance(b, int) and b & 1: return Zero(a.e, not a.neg)
            if op == 'and' and isinstance(b, int): return a if b & 1 else 0
            if op == 'or' and b == 0: return a
            raise AnalysisError('%s of %r and %r at %s' % (op, a, b, it.where()))
        return BitDomain.binop(self, it, op, w, a, b, flags)
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, (Zero, Some)): return v
        return BitDomain.cast(self, it, op, fw, tw, v)
    def unop(self, it, st, op, w, a):
        if op in ('ctlz', 'cttz') and isinstance(a, BV):
            bs = a.bits()
            if op == 'ctlz': bs = bs[::-1]
            for i, f in enumerate(bs):
                if f == B1: return i
                if f != B0: break
        if op == 'ctpop' and isinstance(a, BV):
            return mk(w, 0, [((f,), 1) for f in a.bits() if f])
        return BitDomain.unop(self, it, st, op, w, a)
    def select(self, it, st, c, a, b, ty):
        if isinstance(c, BV) and not isinstance(a, (Ptr, Zero)) and not isinstance(b, (Ptr, Zero)):
            return self.merge_value(it, c, a, b, None)
        if isinstance(c, Zero):
            if (a, b) == (1, 0): return c
            if (a, b) == (0, 1): return Zero(c.e, not c.neg)
            d = self.decide(it, st, c)
            if d is not None: return a if d else b
        raise AnalysisError('select on %r at %s' % (c, it.where()))
    def branch_policy(self, it, st, f, blk, c): return 'join' if isinstance(c, BV) else 'fork'
    def decide(self, it, st, c):
        if isinstance(c, BV):
            vs = bits_vars([c.bits()[0]])
            s = {bit_eval(c.bits()[0], a) for a in self.assignments(st, vs)}
            if len(s) == 1: return s.pop()
            if not s: return 0
        if isinstance(c, Some):
            k = fact_subst(st)
            if all(len(f) == 1 and len(next(iter(f))) == 1 and k.get(next(iter(next(iter(f))))) == 0 for f in c.bits): return int(c.neg)
            if any(f == B1 for f in c.bits): return int(not c.neg)
            v = st.facts.get(('some', c.bits))
            if v is not None: return int(v ^ c.neg)
        if isinstance(c, Zero):
            if not c.e.t: return int(not c.neg)
            k = st.facts.get(('zero', c.e))
            if k is not None: return int(k != c.neg)
        return None
    def assume(self, it, st, c, truth):
        if isinstance(c, BV):
            st.facts[('bit', c.bits()[0])] = int(truth)
            return True
        if isinstance(c, Some):
            st.facts[('some', c.bits)] = bool(truth) != c.neg
            if bool(truth) == c.neg:
                for f in c.bits: st.facts[('bit', f)] = 0
            return True
        if isinstance(c, Zero):
            if not self.fork_zero: raise AnalysisError('decision on %r at %s' % (c, it.where()))
            st.facts[('zero', c.e)] = bool(truth) != c.neg
            return True
        raise AnalysisError('branch on %r at %s' % (c, it.where()))
    def assignments(self, st, vs):
        """0/1 assignments of the bits compatible with the conditions on the path"""
        if len(vs) > 12: raise AnalysisError('case distinction over %d bits' % len(vs))
        fs = [(k[1], v) for k, v in st.facts.items() if k[0] == 'bit' and set(bits_vars([k[1]])) <= set(vs)]
        out = []
        for k in range(1 << len(vs)):
            a = {v: k >> i & 1 for i, v in enumerate(vs)}
            if all(bit_eval(f, a) == v for f, v in fs): out.append(a)
        return out
    def merge_value(self, it, c, a, b, size):
        if not isinstance(c, BV): raise NoMerge()
        if a is UNDEF or b is UNDEF: return UNDEF
        s = c.bits()[0]
        if isinstance(a, (L, Slice)) or isinstance(b, (L, Slice)):
            x = a if isinstance(a, (L, Slice)) else b
            if isinstance(x, Slice):
                if isinstance(a, Slice) and isinstance(b, Slice) and (a.off, a.n) == (b.off, b.n):
                    return mkslice(self.merge_value(it, c, a.e, b.e, None), a.off, a.n)
                raise NoMerge()
            a = self.as_L(it, a, x.kind); b = self.as_L(it, b, x.kind)
            self.merges += 1
            return l_add(b, l_mulpoly(l_add(a, b, -1), bit_poly(s)))
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            x = a if isinstance(a, BV) else b
            w = x.w if isinstance(x, BV) else 8 * size if size else max(a.bit_length(), b.bit_length(), 1)
            return from_bits([band(s, p) ^ band(s ^ B1, q) for p, q in zip(bits_of(a, w), bits_of(b, w))])
        raise NoMerge()
    # ---- symbolic addresses
    def gep(self, it, st, off, i, iw, sz):
        if iw != 64: raise AnalysisError('%d-bit index at %s' % (iw, it.where()))
        a, la = lin_of(off & ((1 << 64) - 1) if isinstance(off, int) else off)
        b, lb = lin_of(i & ((1 << 64) - 1) if isinstance(i, int) else i)
        return addlin(64, a + b * sz, la, [(x, k * sz) for x, k in lb])
    def offsets(self, it, st, p):
        """[(pointer, bits, values)] for every case of a symbolic address"""
        off = p.off
        vs = bits_vars([f for a, _ in off.lin for f in a])
        out = {}
        for a in self.assignments(st, vs):
            o = off.c
            for at, k in off.lin: o += k * sum(bit_eval(f, a) << i for i, f in enumerate(at))
            o &= (1 << 64) - 1
            if o >> 63: o -= 1 << 64
            out.setdefault(o, []).append([a[v] for v in vs])
        self.cases += len(out)
        return vs, out
    def load(self, it, st, p, ty, size): return self.read(it, st, p, size)
    def store(self, it, st, p, v, size): self.write(it, st, p, size, v)
    def bitcase(self, vs, x):
        s = B1
        for b, val in zip(vs, x): s = band(s, frozenset((frozenset((b,)),)) ^ (B0 if val else B1))
        return from_bits([s])
    def read(self, it, st, p, size, kind=None):
        if isinstance(p, Ptr) and not isinstance(p.off, int):
            vs, cs = self.offsets(it, st, p)
            vals = {o: it.load_bytes(st, Ptr(p.obj, o), size) for o in cs}
            if kind is None:
                ks = [v for v in vals.values() if isinstance(v, L)]
                if ks: kind = ks[0].kind
            if kind is not None:
                return Cases(kind, tuple(vs), {tuple(x): self.as_L(it, vals[o], kind) for o, asg in cs.items() for x in asg})
            r = None
            for o, asg in cs.items():
                if r is None: r = vals[o]; continue
                for x in asg:
                    if vals[o] != r: r = self.merge_value(it, self.bitcase(vs, x), vals[o], r, size)
            return r
        return it.load_bytes(st, p, size)
    def write(self, it, st, p, size, v):
        if isinstance(p, Ptr) and not isinstance(p.off, int):
            vs, cs = self.offsets(it, st, p)
            if isinstance(v, Cases) and v.vs != tuple(vs): v = v.flat()
            for o, asg in cs.items():
                q = Ptr(p.obj, o)
                old = it.load_bytes(st, q, size)
                if isinstance(v, (L, Cases)): old = self.as_L(it, old, v.kind)
                for x in asg:
                    if isinstance(v, (L, Cases)):
                        nv = v.v.get(tuple(x)) if isinstance(v, Cases) else v
                        if nv is None: raise AnalysisError('address cases differ between read and write at ' + it.where())
                        d = l_subst(l_add(nv, old, -1), dict(zip(vs, x)))
                        old = l_add(old, l_mulpoly(d, indicator(vs, x)))
                    else:
                        old = self.merge_value(it, self.bitcase(vs, x), v, old, size)
                it.store_bytes(st, q, size, old)
            return
        it.store_bytes(st, p, size, v.flat() if isinstance(v, Cases) else v)
    def mem_copy(self, it, st, d, s, n):
        if type(n) is not int: raise AnalysisError('copy of symbolic length at ' + it.where())
        self.write(it, st, d, n, self.read(it, st, s, n))
    # ---- elements
    def as_L(self, it, v, kind):
        if isinstance(v, (L, Cases)):
            if v.kind != kind: raise AnalysisError('%r used as %s at %s' % (v, kind, it.where()))
            return v
        if v is UNDEF: raise Violation('use of an uninitialised %s' % kind, it.where())
        if isinstance(v, int):
            k = self.one_const.get((kind, v))
            if k is not None: return k
            n = GSIZE[kind]
            if kind in ('g1', 'g2') and v >> (8 * (n * 2 // 3)) == 0: return L(kind, {})
        raise AnalysisError('unrecognised %s value %s at %s' % (kind, hex(v)[:40] if isinstance(v, int) else v, it.where()))
    def rd(self, it, st, p, kind): return self.as_L(it, self.read(it, st, p, GSIZE[kind], kind), kind)
    def wr(self, it, st, p, v): self.ops += 1; self.write(it, st, p, GSIZE[v.kind], v)

    def install_curve(self, it, endo=None):
        D = self
        rx = re.compile(r'^(?:bls12_381::g[12] )?bls12_381::(g[12])::(\w+)(<\d+ul>)?\(')
        ops = {'add', 'addAssign', 'dbl', 'doubleAssign', 'negate', 'subtract', 'subtractAssign', 'affine', 'equal', 'isZero'}
        def h(it, st, a):
            mm = rx.match(it.callee); g, op = mm.group(1), mm.group(2)
            R = lambda p: D.rd(it, st, p, g); W = lambda p, v: D.wr(it, st, p, v)
            if op == 'add': W(a[0], l_add(R(a[1]), R(a[2])))
            elif op == 'subtract': W(a[0], l_add(R(a[1]), R(a[2]), -1))
            elif op == 'addAssign': W(a[0], l_add(R(a[0]), R(a[1])))
            elif op == 'subtractAssign': W(a[0], l_add(R(a[0]), R(a[1]), -1))
            elif op == 'dbl': W(a[0], l_scale(R(a[1]), 2))
            elif op == 'doubleAssign': W(a[0], l_scale(R(a[0]), 2))
            elif op == 'negate': W(a[0], l_scale(R(a[1]), -1))
            elif op == 'affine': W(a[0], R(a[1]))
            elif op == 'isZero': return D.zero(R(a[0]))
            elif op == 'equal': return D.zero(l_add(R(a[0]), R(a[1]), -1))
            return None
        it.prefix_handlers.append((lambda d: rx.match(d) is not None and rx.match(d).group(2) in ops, h))
    def zero(self, e):
        if isinstance(e, Cases): e = e.flat()
        if not e.t: return 1
        return Zero(e)
    def install_mult(self, it, kind):
        """multiplicative notation for one field"""
        D = self
        n = GSIZE[kind]
        rx = re.compile(r'^bls12_381::%s::(\w+)\(' % kind)
        ops = {'multiply', 'multiplyAssign', 'square', 'squareAssign', 'cyclotomicSquare', 'cyclotomicSquareAssign', 'inverse'}
        def h(it, st, a):
            op = rx.match(it.callee).group(1)
            R = lambda p: D.rd(it, st, p, kind); W = lambda p, v: D.wr(it, st, p, v)
            if op == 'multiply': W(a[0], l_add(R(a[1]), R(a[2])))
            elif op == 'multiplyAssign': W(a[0], l_add(R(a[0]), R(a[1])))
            elif op in ('square', 'cyclotomicSquare'): W(a[0], l_scale(R(a[1]), 2))
            elif op in ('squareAssign', 'cyclotomicSquareAssign'): W(a[0], l_scale(R(a[0]), 2))
            elif op == 'inverse': W(a[0], l_scale(R(a[1]), -1))
            return None
        it.prefix_handlers.append((lambda d: rx.match(d) is not None and rx.match(d).group(1) in ops, h))
        if kind == 'fp':
            R = lambda it, st, p: D.rd(it, st, p, 'fp')
            it.handlers['bls12_381::_multiply(bls12_381::fp*, bls12_381::fp const*, bls12_381::fp const*)'] = lambda it, st, a: D.wr(it, st, a[0], l_add(R(it, st, a[1]), R(it, st, a[2])))
            it.handlers['bls12_381::_square(bls12_381::fp*, bls12_381::fp const*)'] = lambda it, st, a: D.wr(it, st, a[0], l_scale(R(it, st, a[1]), 2))
        one = ((1 << 384) % P)
        self.one_const[(kind, one)] = L(kind, {})

def scalar_words(name, nbits, nwords, exact=None):
    """words of a scalar whose bits are name0.. ; exact: the top set bit is fixed"""
    out = []
    for w in range(nwords):
        b = []
        for i in range(64 * w, 64 * w + 64):
            if exact is not None: b.append(bitvar(name, i) if i < exact - 1 else B1 if i == exact - 1 else B0)
            else: b.append(bitvar(name, i) if i < nbits else B0)
        out.append(from_bits(b))
    return out
def scalar_form(kind, g, words):
    """the form (value of the words) * generator"""
    t = {}
    for i, w in enumerate(words):
        for j, f in enumerate(bits_of(w, 64)):
            for m, c in bit_poly(f).items(): t[m] = t.get(m, 0) + (c << (64 * i + j))
    t = {k: c for k, c in t.items() if c}
    return L(kind, {g: t} if t else {})
