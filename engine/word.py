"""Word domain: machine integers as exact polynomials with power-of-two
denominators over integer-valued variables, interval reasoning, carries as
derived quantities.

A modular word is a variable w in [0, 2^k) keyed by the linear form it is
congruent to; the carry it drops is the polynomial (s - w) / 2^k.  Carry chains
therefore telescope by themselves and number-level identities (x + y, x*y + m*p)
appear without any search.
"""
from .interp import *
from .interp import NoMerge

class WP:
    """value = sum(d[m]*m) / 2^e ; monomials are sorted tuples of variable ids"""
    __slots__ = ('d', 'e', '_k')
    def __init__(self, d, e=0):
        self.d = d; self.e = e; self._k = None
    @staticmethod
    def const(c): return WP({(): c} if c else {})
    @staticmethod
    def var(v): return WP({(v,): 1})
    def key(self):
        if self._k is None:
            e = self.e; d = self.d
            if e and d:
                g = 0
                for c in d.values():
                    g |= c
                    if g & 1: break
                t = min(e, (g & -g).bit_length() - 1)
                if t:
                    d = {m: c >> t for m, c in d.items()}; e -= t
            if not d: e = 0
            self.d = d; self.e = e
            self._k = (e, frozenset(d.items()))
        return self._k
    def __eq__(self, o): return isinstance(o, WP) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def up(self, e): return {m: c << (e - self.e) for m, c in self.d.items()} if e != self.e else self.d
    def __add__(self, o):
        if isinstance(o, int): o = WP.const(o)
        if not o.d: return self
        if not self.d: return o
        e = max(self.e, o.e)
        r = dict(self.up(e))
        for m, c in o.up(e).items():
            x = r.get(m, 0) + c
            if x: r[m] = x
            else: del r[m]
        return WP(r, e)
    def __neg__(self): return WP({m: -c for m, c in self.d.items()}, self.e)
    def __sub__(self, o):
        if isinstance(o, int): o = WP.const(o)
        return self + (-o)
    def __rsub__(self, o): return WP.const(o) - self
    __radd__ = __add__
    def scale(self, k): return WP({m: c * k for m, c in self.d.items()}, self.e) if k else WP({})
    def __mul__(self, o):
        if isinstance(o, int): return self.scale(o)
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = m1 + m2 if not (m1 and m2) else tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + c1 * c2
        return WP({m: c for m, c in r.items() if c}, self.e + o.e)
    __rmul__ = __mul__
    def shr(self, k): return WP(self.d, self.e + k) if self.d else self
    def is_const(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def vars(self):
        s = set()
        for m in self.d: s.update(m)
        return s
    def single(self):
        """variable id if the value is exactly one variable"""
        self.key()
        if self.e == 0 and len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1: return m[0]
        return None
    def __repr__(self):
        out = []
        for m, c in sorted(self.d.items())[:14]:
            out.append((str(c) if abs(c) < 10**7 else hex(c)) + ''.join('*' + name(v) for v in m))
        s = ' + '.join(out) or '0'
        if len(self.d) > 14: s += ' + ...(%d)' % len(self.d)
        return '(%s)/2^%d' % (s, self.e) if self.e else s

ZERO = WP({}); ONE = WP({(): 1})

class VarTab:
    def __init__(self): self.reset()
    def reset(self):
        self.names = []; self.lo = []; self.hi = []; self.lin = []; self.defs = []; self.parts = {}; self.on = {}
        self.byname = {}; self.words = {}; self.atoms = {}; self.splits = {}; self.numbers = []; self.fold0 = {}
        self.bools = {}; self.halves = []; self.shifted = {}
    def new(self, name, lo, hi, lin=None):
        i = len(self.names)
        self.names.append(name); self.lo.append(lo); self.hi.append(hi); self.lin.append(lin); self.defs.append(None)
        return i
    def named(self, name, lo, hi):
        i = self.byname.get(name)
        if i is None:
            i = self.byname[name] = self.new(name, lo, hi)
        return i
VT = VarTab()
def name(v): return VT.names[v]

def number(nm, limbs, lo, hi, w=64, top=None):
    """a multi-limb integer: returns (list of limb polys, poly of the number).
    The number's own range [lo, hi] is known; limbs get ranges implied by it."""
    X = VT.named(nm, lo, hi)
    ids = []
    for i in range(limbs):
        m = (1 << w) - 1
        h = min(m, hi >> (w * i)) if i == limbs - 1 else (min(m, hi >> (w * i)) if hi >> (w * i) <= m else m)
        ids.append(VT.named('%s.%d' % (nm, i), 0, h))
    # folding rule: x0 = X - sum_{i>0} 2^{wi} x_i
    p = WP.var(X)
    for i in range(1, limbs): p = p - WP.var(ids[i]).scale(1 << (w * i))
    VT.fold0[ids[0]] = p
    VT.numbers.append((X, ids, w))
    return [WP.var(i) for i in ids], WP.var(X)

def expand(p):
    """replace split variables by their parts"""
    parts = VT.parts
    if not parts: return p
    while True:
        hit = None
        for m in p.d:
            for v in m:
                if v in parts: hit = v; break
            if hit is not None: break
        if hit is None: return p
        p = subst1(p, hit, parts[hit])

def subst1(p, v, q):
    keep = {}
    out = None
    for m, c in p.d.items():
        if v in m:
            l = list(m); n = l.count(v)
            l = [x for x in l if x != v]
            t = WP({tuple(l): c}, p.e)
            for _ in range(n): t = t * q
            out = t if out is None else out + t
        else: keep[m] = c
    r = WP(keep, p.e)
    return r if out is None else r + out

class Ctx:
    """what is known on one path"""
    __slots__ = ('rng', 'facts', 'subs', 'dead', 'known', 'kgen', 'fgen')
    def __init__(self):
        self.rng = {}; self.facts = (); self.subs = {}; self.dead = False; self.known = {}; self.kgen = (0, 0); self.fgen = 0
    def copy(self):
        c = Ctx(); c.rng = dict(self.rng); c.facts = self.facts; c.subs = dict(self.subs); c.dead = self.dead
        c.known = dict(self.known); c.kgen = self.kgen; c.fgen = self.fgen
        return c
    def range(self, v):
        r = self.rng.get(v)
        return r if r is not None else (VT.lo[v], VT.hi[v])
    def norm(self, p):
        p = expand(p)
        if self.subs:
            n = 0
            while True:
                hit = None
                for m in p.d:
                    for v in m:
                        if v in self.subs: hit = v; break
                    if hit is not None: break
                if hit is None: break
                p = expand(subst1(p, hit, self.subs[hit]))
                n += 1
                if n > 2000: raise AnalysisError('substitution does not terminate')
        p.key()
        return p
    def raw(self, p):
        """interval of the numerator (scaled by 2^e)"""
        lo = hi = 0
        for m, c in p.d.items():
            if not m:
                lo += c; hi += c; continue
            a = b = 1
            for v in m:
                l, h = self.range(v)
                if l >= 0: a, b = (a * l, b * h) if a >= 0 else (min(a * h, b * l), max(b * h, a * l))
                else:
                    xs = (a * l, a * h, b * l, b * h); a, b = min(xs), max(xs)
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
        return lo, hi
    def fold(self, p):
        f0 = VT.fold0
        if not f0: return None
        hits = [v for v in p.vars() if v in f0]
        if not hits: return None
        for v in hits: p = subst1(p, v, f0[v])
        p.key()
        return p
    def bound(self, p, depth=2):
        """integer interval containing the value of p (p integer valued)"""
        p = self.norm(p)
        r = self.qbound(p, depth)
        if r[0] != r[1]:
            k = self.knows(p)
            if k is not None: r = meet(r, k)
        return r
    def knows(self, p):
        g = (len(VT.parts), len(self.subs))
        if g != self.kgen:
            self.kgen = g; old = self.known; self.known = {}
            for q, b in old.items():
                q = self.norm(q)
                o = self.known.get(q)
                self.known[q] = b if o is None else meet(o, b)
        return self.known.get(p)
    def know(self, p, lo, hi):
        p = self.norm(p)
        if p.is_const(): return
        o = self.knows(p)
        self.known[p] = (lo, hi) if o is None else meet(o, (lo, hi))
    def qbound(self, p, depth=2, integer=True):
        best = self._ival(p)
        if best[0] == best[1]: return best
        f = self.fold(p)
        if f is not None:
            best = meet(best, self._ival(f))
        if self.facts and depth:
            seen = set()
            frontier = [(p, 1, 0, 0)] + ([(f, 1, 0, 0)] if f is not None else [])
            for lvl in range(depth):
                nxt = []
                for q, s, alo, ahi in frontier:
                    qv = q.vars()
                    for fi, (F, flo, fhi) in enumerate(self.nfacts()):
                        if not (F.vars() & qv): continue
                        done = set()
                        for m in F.d:
                            if not m or m not in q.d: continue
                            # s*value = q + [alo,ahi];  cancel m:  q' = cf*q - cq*F'
                            e = max(q.e, F.e)
                            cq = q.d[m] << (e - q.e); cf = F.d[m] << (e - F.e)
                            from math import gcd
                            g = gcd(abs(cq), abs(cf)); cq //= g; cf //= g
                            if cf < 0: cq, cf = -cq, -cf
                            if (cf, cq) in done: continue
                            done.add((cf, cq))
                            q2 = q.scale(cf) - F.scale(cq)
                            if cq > 0: l2, h2 = cq * flo if flo is not None else None, cq * fhi if fhi is not None else None
                            else: l2, h2 = cq * fhi if fhi is not None else None, cq * flo if flo is not None else None
                            if l2 is None and h2 is None: continue
                            s2 = s * cf
                            nl = None if (l2 is None or alo is None) else alo * cf + l2
                            nh = None if (h2 is None or ahi is None) else ahi * cf + h2
                            k = (q2.key(), s2, nl, nh)
                            if k in seen: continue
                            seen.add(k)
                            forms = [q2]
                            f2 = self.fold(q2)
                            if f2 is not None: forms.append(f2)
                            for form in forms:
                                a, b = self.raw(form)
                                D = s2 << form.e
                                if nl is not None:
                                    x = -((-(a + (nl << form.e))) // D)
                                    if x > best[0]: best = (x, best[1])
                                if nh is not None:
                                    x = (b + (nh << form.e)) // D
                                    if x < best[1]: best = (best[0], x)
                                if best[0] >= best[1]: return best
                                nxt.append((form, s2, nl, nh))
                            if len(seen) > 3000: return best
                frontier = nxt
                if len(frontier) > 400: frontier = frontier[:400]
        return best
    def nfacts(self):
        g = len(VT.parts)
        if g != self.fgen:
            self.fgen = g
            if any(v in VT.parts for f in self.facts for v in f[0].vars()): self.refact()
        return self.facts
    def _ival(self, p):
        lo, hi = self.raw(p)
        if p.e:
            D = 1 << p.e
            return -((-lo) >> p.e), hi >> p.e
        return lo, hi
    # --- learning
    def learn(self, p, lo, hi):
        """assume lo <= p <= hi (None = open); False when contradictory"""
        p = self.norm(p)
        if p.is_const():
            c = p.d.get((), 0)
            assert p.e == 0
            ok = (lo is None or c >= lo) and (hi is None or c <= hi)
            if not ok: self.dead = True
            return ok
        l, h = self.qbound(p)
        if (lo is not None and h < lo) or (hi is not None and l > hi) or l > h:
            self.dead = True; return False
        nl = l if lo is None else max(l, lo); nh = h if hi is None else min(h, hi)
        if nl > nh: self.dead = True; return False
        v = None
        nc = [m for m in p.d if m]
        if len(nc) == 1 and len(nc[0]) == 1:
            v = nc[0][0]; c = p.d[nc[0]]; k = p.d.get((), 0)
            # nl <= (c v + k)/2^e <= nh
            a = (nl << p.e) - k; b = (nh << p.e) - k
            if c < 0: a, b, c = -b, -a, -c
            lo2 = -((-a) // c); hi2 = b // c
            r = self.range(v)
            r2 = (max(r[0], lo2), min(r[1], hi2))
            if r2[0] > r2[1]: self.dead = True; return False
            self.rng[v] = r2
            if r2[0] == r2[1]: self.setsub(v, WP.const(r2[0]))
            return True
        if nl == nh:
            # equality: eliminate the newest variable that occurs linearly and alone
            q = p - nl
            cand = sorted((m[0] for m in q.d if len(m) == 1 and sum(m[0] in mm for mm in q.d) == 1), reverse=True)
            for v in cand:
                c = q.d[(v,)]
                if c & (c - 1) == 0 or -c & (-c - 1) == 0:
                    rest = WP({m: (-k if c > 0 else k) for m, k in q.d.items() if m != (v,)}, abs(c).bit_length() - 1)
                    self.setsub(v, rest)
                    return self.feasible()
            self.facts = self.facts + ((p, nl, nh),)
            return self.feasible()
        self.facts = self.facts + ((p, nl, nh),)
        return True
    def setsub(self, v, q):
        r = self.range(v)
        self.subs = dict(self.subs); self.subs[v] = q
        self.refact()
        if not q.is_const():
            self.facts = self.facts + ((self.norm(q), r[0], r[1]),)
    def refact(self):
        out = []
        for p, l, h in self.facts:
            q = self.norm(p)
            if q.is_const():
                c = q.d.get((), 0)
                if q.e or (l is not None and c < l) or (h is not None and c > h): self.dead = True
                continue
            out.append((q, l, h))
        self.facts = tuple(out)
    def feasible(self):
        if self.dead: return False
        for i, (p, l, h) in enumerate(self.facts):
            save = self.facts
            self.facts = save[:i] + save[i + 1:]
            try: a, b = self.qbound(p)
            finally: self.facts = save
            if a > b or (l is not None and b < l) or (h is not None and a > h):
                self.dead = True; return False
        return True

def meet(a, b): return (max(a[0], b[0]), min(a[1], b[1]))

class W(AV):
    """word of width w holding the value of polynomial p (0 <= p < 2^w)"""
    __slots__ = ('p', 'w')
    def __init__(self, p, w): self.p = p; self.w = w
    def __eq__(self, o): return isinstance(o, W) and self.w == o.w and self.p == o.p
    def __hash__(self): return hash((self.p, self.w))
    def __repr__(self): return 'W%d(%r)' % (self.w, self.p)

class B(AV):
    """boolean function of 0/1-valued polynomials; bit i of table is the value under assignment i"""
    __slots__ = ('atoms', 'table')
    def __init__(self, atoms, table): self.atoms = atoms; self.table = table
    def __eq__(self, o): return isinstance(o, B) and self.atoms == o.atoms and self.table == o.table
    def __hash__(self): return hash((self.atoms, self.table))
    def __repr__(self): return 'B(%s:%s)' % (', '.join(map(repr, self.atoms)), bin(self.table))
    def inv(self): return B(self.atoms, self.table ^ ((1 << (1 << len(self.atoms))) - 1))
def batom(p): return B((p,), 2)

class BW(AV):
    """bitwise combination that has not been projected yet"""
    __slots__ = ('op', 'a', 'b', 'w')
    def __init__(self, op, a, b, w): self.op = op; self.a = a; self.b = b; self.w = w
    def __eq__(self, o): return isinstance(o, BW) and (self.op, self.w) == (o.op, o.w) and self.a == o.a and self.b == o.b
    def __hash__(self): return hash((self.op, self.w, self.a, self.b))
    def __repr__(self): return '(%r %s %r)' % (self.a, self.op, self.b)

def is_mask(c):
    return c and (c & (c + 1)) == 0

class Words:
    """operations; ctx is supplied by the caller"""
    def P(self, v):
        if isinstance(v, W): return v.p
        if isinstance(v, int): return WP.const(v)
        if isinstance(v, B): return self.bpoly(v)
        raise AnalysisError('integer expected, got %r' % (v,))
    def mk(self, ctx, p, w):
        p.key()
        if p.is_const() and p.e == 0: return p.d.get((), 0)
        return W(p, w)
    # ---- linear forms modulo 2^k
    def lin(self, p, k):
        """canonical integer form congruent to p modulo 2^k"""
        p = expand(p); p.key()
        if p.e:
            a = VT.atoms.get(p)
            if a is None:
                a = VT.atoms[p] = VT.new('q%d' % len(VT.names), 0, 1 << 4096)
                VT.defs[a] = p
            return {(a,): 1}
        out = {}
        M = (1 << k) - 1
        for m, c in p.d.items():
            if len(m) == 1 and VT.lin[m[0]] is not None and VT.lin[m[0]][1] >= k:
                for m2, c2 in VT.lin[m[0]][0].items():
                    out[m2] = (out.get(m2, 0) + c * c2) & M
            else:
                out[m] = (out.get(m, 0) + c) & M
        return {m: c for m, c in out.items() if c}
    def linpoly(self, l, k):
        H = 1 << (k - 1)
        r = ZERO
        for m, c in l.items():
            c2 = c - (1 << k) if c >= H else c
            t = WP({(): c2})
            for v in m:
                d = VT.defs[v]
                t = t * (d if d is not None else WP.var(v))
            r = r + t
        return r
    def wrap(self, ctx, addends, k, s=None):
        """value of sum(addends) modulo 2^k -> (value poly, quotient poly)"""
        if s is None:
            s = ZERO
            for a in addends: s = s + a
        lo, hi = ctx.bound(s)
        if hi >> k != lo >> k and len(addends) > 1:
            bs = [ctx.bound(a) for a in addends]
            lo, hi = meet((lo, hi), (sum(b[0] for b in bs), sum(b[1] for b in bs)))
        if lo > hi: lo, hi = 0, 0
        q = lo >> k
        if hi >> k == q:
            r = s - (q << k) if q else s
            if len(addends) > 1 and len(r.d) > 1:
                ctx.know(r, lo - (q << k), hi - (q << k))
            return r, WP.const(q)
        l = {}
        M = (1 << k) - 1
        for a in addends:
            for m, c in self.lin(ctx_norm(ctx, a), k).items():
                l[m] = (l.get(m, 0) + c) & M
        l = {m: c for m, c in l.items() if c}
        if not l: r = ZERO
        elif set(l) == {()}: r = WP.const(l[()])
        else:
            r = self.word(l, k)
        Q = (s - r).shr(k)
        if ctx is not None:
            ctx.know(Q, lo >> k, hi >> k)
        return r, Q
    def word(self, l, k):
        if len(l) == 1:
            (m, c), = l.items()
            if c == 1 and len(m) == 1 and VT.defs[m[0]] is None and VT.hi[m[0]] < (1 << k): return WP.var(m[0])
        key = (k, frozenset(l.items()))
        v = VT.words.get(key)
        if v is None:
            v = VT.words[key] = VT.new('w%d' % len(VT.names), 0, (1 << k) - 1, (l, k))
            if k == 63:
                for (k2, _), w in list(VT.words.items())[-20:]:
                    if k2 == 64: self.link(v, w)
            elif k == 64 and VT.halves:
                for r in VT.halves[-8:]: self.link(r, v)
            if k == 63: VT.halves.append(v)
            if v in VT.parts: return expand(WP.var(v))
        return WP.var(v)
    def link(self, r, w):
        """w = 2r + bit when their defining forms say so (r modulo 2^63, w modulo 2^64)"""
        if w in VT.parts: return
        d = expand(self.linpoly(VT.lin[w][0], 64) - self.linpoly(VT.lin[r][0], 63).scale(2)); d.key()
        if len(d.d) > 2: return
        lo, hi = Ctx()._ival(d)
        if 0 <= lo and hi <= 1:
            q = expand(WP.var(r).scale(2) + d)
            if w not in q.vars() and not any(w in VT.parts[x].vars() for x in VT.parts): VT.parts[w] = q
    # ---- splitting
    def cut(self, v, k):
        """variable v = hi * 2^k + lo"""
        s = VT.splits.get((v, k))
        if s is not None: return s
        if v in VT.parts:
            pass
        p = VT.parts.get(v)
        if p is not None:
            r = self.split_segments(p, k)
            VT.splits[(v, k)] = r
            return r
        h = VT.hi[v]
        lo = VT.new('%s[%d:0]' % (VT.names[v], k - 1), 0, min(h, (1 << k) - 1))
        hi = VT.new('%s[:%d]' % (VT.names[v], k), max(0, VT.lo[v] >> k), h >> k)
        VT.parts[v] = WP.var(lo) + WP.var(hi).scale(1 << k)
        r = (WP.var(lo), WP.var(hi))
        VT.splits[(v, k)] = r
        # a word already known to be 2v modulo 2^(k+1) is twice the lower part
        l = VT.lin[v]
        M = (1 << (k + 1)) - 1
        l2 = {(v,): 2} if l is None else {m: 2 * c & M for m, c in l[0].items()} if l[1] == k + 1 else None
        if l2 is not None and h <= M:
            w = VT.words.get((k + 1, frozenset((m, c) for m, c in l2.items() if c)))
            if w is not None and w not in VT.parts: VT.parts[w] = WP.var(lo).scale(2)
        return r
    def segments(self, p):
        """[(position, bits, coefficient-one poly)] when p is a sum of disjoint bit fields, else None"""
        p = expand(p); p.key()
        if p.e: return None
        segs = []
        for m, c in p.d.items():
            if c <= 0: return None
            if not m:
                i = 0
                while c >> i:
                    if c >> i & 1:
                        j = i
                        while c >> j & 1: j += 1
                        segs.append((i, j - i, WP.const((1 << (j - i)) - 1))); i = j
                    else: i += 1
                continue
            if c & (c - 1): return None
            h = 1
            for v in m:
                if VT.lo[v] < 0: return None
                h *= VT.hi[v]
            segs.append((c.bit_length() - 1, h.bit_length(), WP({m: 1})))
        segs.sort(key=lambda s: s[0])
        for a, b in zip(segs, segs[1:]):
            if a[0] + a[1] > b[0]: return None
        return segs
    def split_segments(self, p, k):
        """(p mod 2^k, p >> k) for a disjoint sum of fields, else None"""
        segs = self.segments(p)
        if segs is None: return None
        lo = ZERO; hi = ZERO
        for pos, n, q in segs:
            if pos + n <= k: lo = lo + q.scale(1 << pos)
            elif pos >= k: hi = hi + q.scale(1 << (pos - k))
            else:
                c = k - pos
                if q.is_const():
                    x = q.d[()]
                    lo = lo + WP.const((x & ((1 << c) - 1)) << pos); hi = hi + WP.const(x >> c); continue
                v = q.single()
                if v is None: return None
                a, b = self.cut(v, c)
                lo = lo + a.scale(1 << pos); hi = hi + b
        return lo, hi
    def split(self, ctx, p, k):
        """p = hi * 2^k + lo"""
        p = ctx.norm(p)
        lo_, hi_ = ctx.bound(p)
        if hi_ >> k == lo_ >> k and lo_ <= hi_:
            return p - ((hi_ >> k) << k), WP.const(hi_ >> k)
        r = self.split_segments(p, k)
        if r is not None: return expand(r[0]), expand(r[1])
        if lo_ >= 0:
            # complement of a word: bit fields complement independently
            n = p.d.get((), 0)
            if p.e == 0 and is_mask(n) and n.bit_length() > k and hi_ <= n:
                r = self.split_segments(WP.const(n) - p, k)
                if r is not None: return expand(WP.const((1 << k) - 1) - r[0]), expand(WP.const(n >> k) - r[1])
        lo, hi = self.wrap(ctx, [p], k)
        return lo, hi
    # ---- arithmetic
    def add(self, ctx, a, b, w):
        r, _ = self.wrap(ctx, [self.P(a), self.P(b)], w)
        return self.mk(ctx, r, w)
    def sub(self, ctx, a, b, w):
        r, _ = self.wrap(ctx, [self.P(a), -self.P(b)], w)
        return self.mk(ctx, r, w)
    def mul(self, ctx, a, b, w):
        x, y = ctx.norm(self.P(a)), ctx.norm(self.P(b))
        if x.is_const() and x.e == 0: return self.mulc(ctx, y, x.d.get((), 0), w)
        if y.is_const() and y.e == 0: return self.mulc(ctx, x, y.d.get((), 0), w)
        r, _ = self.wrap(ctx, [x * y], w)
        return self.mk(ctx, r, w)
    def mulc(self, ctx, x, c, w):
        s = x.scale(c)
        lo, hi = ctx.bound(s)
        if 0 <= lo and hi < (1 << w): return self.mk(ctx, s, w)
        l = {m: (k * c) & ((1 << w) - 1) for m, k in self.lin(x, w).items()}
        l = {m: k for m, k in l.items() if k}
        if not l: return 0
        if set(l) == {()}: return l[()]
        return self.mk(ctx, self.word(l, w), w)
    def widemul(self, ctx, a, b, w):
        """(lo, hi)"""
        x, y = ctx.norm(self.P(a)), ctx.norm(self.P(b))
        s = x * y
        lo, hi = ctx.bound(s)
        if hi < (1 << w) and lo >= 0: return s, ZERO
        if x.is_const() and x.e == 0: x, y = y, x
        if y.is_const() and y.e == 0:
            c = y.d.get((), 0)
            l = {m: (k * c) & ((1 << w) - 1) for m, k in self.lin(x, w).items()}
            l = {m: k for m, k in l.items() if k}
            if not l: r = ZERO
            elif set(l) == {()}: r = WP.const(l[()])
            else: r = self.word(l, w)
            q = (s - r).shr(w); ctx.know(q, lo >> w, hi >> w)
            return r, q
        return self.wrap(ctx, [s], w)
    def shl(self, ctx, a, k, w):
        p = ctx.norm(self.P(a))
        if k == 0: return a
        lo, hi = ctx.bound(p)
        if hi < (1 << (w - k)):
            r = p.scale(1 << k); r.key(); VT.shifted[r] = k
            return self.mk(ctx, r, w)
        l, _ = self.split(ctx, p, w - k)
        return self.mk(ctx, l.scale(1 << k), w)
    def lshr(self, ctx, a, k, w):
        if k == 0: return a
        if isinstance(a, BW):
            if k == w - 1: return self.topbit(ctx, a)
            return BW('lshr', a, k, w)
        l, h = self.split(ctx, self.P(a), k)
        return self.mk(ctx, h, w)
    def trunc(self, ctx, a, k):
        if isinstance(a, B): return a
        if isinstance(a, BW):
            if a.op == 'lshr': raise AnalysisError('truncation of a shifted bitwise value')
            return self.bw(ctx, a.op, self.trunc1(ctx, a.a, k), self.trunc1(ctx, a.b, k), k)
        l, h = self.split(ctx, self.P(a), k)
        if k == 1:
            return self.bool_of(ctx, l)
        return self.mk(ctx, l, k)
    def trunc1(self, ctx, a, k):
        if a is None: return None
        if isinstance(a, int): return a & ((1 << k) - 1)
        return self.trunc(ctx, a, k)
    # ---- bitwise
    def bw(self, ctx, op, a, b, w):
        M = (1 << w) - 1
        if isinstance(a, int) and not isinstance(b, int): a, b = b, a
        if isinstance(a, (B,)) and w == 1 or isinstance(b, B) and w == 1: return self.bop(ctx, op, a, b)
        if isinstance(a, B): a = W(self.bpoly(a), w)
        if isinstance(b, B): b = W(self.bpoly(b), w)
        if isinstance(b, int):
            if op == 'and':
                if b == 0: return 0
                if b == M: return a
            if op in ('or', 'xor') and b == 0: return a
            if op == 'or' and b == M: return M
            if op == 'xor' and b == M and isinstance(a, W): return W(WP.const(M) - a.p, w)
            if isinstance(a, W):
                if op == 'and':
                    # contiguous field masks
                    t = (b & -b).bit_length() - 1
                    if is_mask(b >> t):
                        n = (b >> t).bit_length()
                        lo, hi = ctx.bound(a.p)
                        if t == 0 and hi <= b: return a
                        l, h = self.split(ctx, a.p, t) if t else (ZERO, a.p)
                        f, _ = self.split(ctx, h, n)
                        return self.mk(ctx, f.scale(1 << t), w)
                if op == 'or' or op == 'xor':
                    r = self.disjoint(ctx, a.p, WP.const(b))
                    if r is not None: return self.mk(ctx, r, w)
        elif isinstance(a, W) and isinstance(b, W):
            if a.p == b.p: return a if op in ('and', 'or') else 0
            if ctx.bound(a.p) == (0, 1) and ctx.bound(b.p) == (0, 1):
                r = self.bop(ctx, op, a, b)
                return r if isinstance(r, int) else self.mk(ctx, ctx.norm(self.bpoly(r)), w)
            if op in ('or', 'xor'):
                r = self.disjoint(ctx, a.p, b.p)
                if r is not None: return self.mk(ctx, r, w)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                # mask built as 0 - bit
                if isinstance(x, W):
                    pass
        return BW(op, a, b, w)
    def disjoint(self, ctx, p, q):
        p = ctx.norm(p); q = ctx.norm(q)
        sp, sq = self.segments(p), self.segments(q)
        if sp is None:
            lo, hi = ctx.bound(p)
            if lo < 0: return None
            k = VT.shifted.get(p, 0)
            sp = [(k, max(0, hi.bit_length() - k), p)]
        if sq is None:
            lo, hi = ctx.bound(q); k = VT.shifted.get(q, 0)
            sq = [(k, max(0, hi.bit_length() - k), q)]
        occ = 0
        for pos, n, _ in sp: occ |= ((1 << n) - 1) << pos
        for pos, n, _ in sq:
            if occ & (((1 << n) - 1) << pos): return None
        return p + q
    def topbit(self, ctx, x):
        """boolean: most significant bit"""
        if isinstance(x, BW):
            if x.op == 'lshr': return 0 if x.b else self.topbit(ctx, x.a)
            return self.bop(ctx, x.op, self.topbit_(ctx, x.a, x.w), self.topbit_(ctx, x.b, x.w))
        return self.topbit_(ctx, x, x.w)
    def topbit_(self, ctx, x, w):
        if isinstance(x, int): return x >> (w - 1) & 1
        if isinstance(x, BW): return self.topbit(ctx, x)
        _, h = self.split(ctx, x.p, w - 1)
        return self.bool_of(ctx, h)
    # ---- booleans
    def bool_of(self, ctx, p):
        p = ctx.norm(p)
        lo, hi = ctx.bound(p)
        if lo == hi: return lo
        return batom(p)
    def bpoly(self, b):
        r = ZERO
        n = len(b.atoms)
        for i in range(1 << n):
            if b.table >> i & 1:
                t = ONE
                for j, a in enumerate(b.atoms):
                    t = t * (a if i >> j & 1 else ONE - a)
                r = r + t
        return r
    def bop(self, ctx, op, a, b):
        f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
        if isinstance(a, int) and isinstance(b, int): return f(a, b)
        if isinstance(a, W): a = self.bool_of(ctx, a.p)
        if isinstance(b, W): b = self.bool_of(ctx, b.p)
        if isinstance(a, int) and isinstance(b, int): return f(a, b)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            b &= 1
            if op == 'and': return a if b else 0
            if op == 'or': return 1 if b else a
            return a.inv() if b else a
        atoms = list(a.atoms)
        for x in b.atoms:
            if x not in atoms: atoms.append(x)
        if len(atoms) > 8: raise AnalysisError('boolean function of too many conditions')
        ib = [atoms.index(x) for x in b.atoms]
        t = 0
        na = len(a.atoms)
        for i in range(1 << len(atoms)):
            va = a.table >> (i & ((1 << na) - 1)) & 1
            j = 0
            for k, x in enumerate(ib): j |= (i >> x & 1) << k
            vb = b.table >> j & 1
            if f(va, vb): t |= 1 << i
        return self.canon(ctx, B(tuple(atoms), t))
    def feasible_assignments(self, ctx, atoms):
        out = []
        for i in range(1 << len(atoms)):
            c = ctx.copy()
            ok = True
            for j, a in enumerate(atoms):
                if not self.assume_poly(c, a, i >> j & 1): ok = False; break
            if ok and c.feasible(): out.append((i, c))
        return out
    def canon(self, ctx, b):
        """simplify a boolean function: constant, one atom, or a carry it coincides with"""
        if len(b.atoms) > 4: return self.shrink(b)
        fa = self.feasible_assignments(ctx, b.atoms)
        vals = {b.table >> i & 1 for i, _ in fa}
        if len(vals) == 1: return vals.pop()
        if not vals: return 0
        for j, a in enumerate(b.atoms):
            if all((b.table >> i & 1) == (i >> j & 1) for i, _ in fa): return batom(a)
            if all((b.table >> i & 1) != (i >> j & 1) for i, _ in fa): return batom(a).inv()
        for c in self.carries(ctx, b.atoms):
            if all(cc.bound(c) == ((b.table >> i & 1),) * 2 for i, cc in fa): return batom(ctx.norm(c))
        return self.shrink(b)
    def shrink(self, b):
        """drop atoms the function does not depend on"""
        atoms = list(b.atoms); t = b.table
        j = 0
        while j < len(atoms):
            dep = False
            for i in range(1 << len(atoms)):
                if not i >> j & 1 and (t >> i & 1) != (t >> (i | 1 << j) & 1): dep = True; break
            if dep: j += 1; continue
            t2 = 0; n = 0
            for i in range(1 << len(atoms)):
                if not i >> j & 1:
                    if t >> i & 1: t2 |= 1 << n
                    n += 1
            t = t2; atoms.pop(j)
        if not atoms: return t & 1
        return B(tuple(atoms), t)
    def carries(self, ctx, atoms):
        """carry/borrow quantities of modular words related to the atoms"""
        vs = set()
        for a in atoms:
            vs |= a.vars()
        # words one of whose parts or definition occurs
        cand = []
        for (k, _), v in list(VT.words.items()):
            fam = {v}
            if v in VT.parts: fam |= expand(WP.var(v)).vars()
            if fam & vs: cand.append((k, v))
        # words defined from the same operands (most recent first)
        for (k, _), v in reversed(list(VT.words.items())[-12:]):
            if (k, v) not in cand: cand.append((k, v))
        out = []
        n = 0
        for q, b in reversed(list(ctx.known.items())):
            if b in ((0, 1), (-1, 0)) and q.e and q.vars() & vs:
                q = ctx.norm(q)
                if ctx.bound(q) == (0, 1): out.append(q); out.append(ONE - q)
                elif ctx.bound(q) == (-1, 0): out.append(-q); out.append(ONE + q)
                n += 1
                if n >= 8: break
        for k, v in cand[:16]:
            q = (self.linpoly(VT.lin[v][0], k) - WP.var(v)).shr(k)
            lo, hi = ctx.bound(q)
            if (lo, hi) == (0, 1): out.append(q); out.append(ONE - q)
            elif (lo, hi) == (-1, 0): out.append(-q); out.append(ONE + q)
        return out
    def zero_ind(self, ctx, polys, num=None):
        """boolean: all polys are zero"""
        ps = []
        for p in polys:
            p = ctx.norm(p)
            lo, hi = ctx.bound(p)
            if lo > 0 or hi < 0: return 0
            if (lo, hi) != (0, 0): ps.append(p)
        if not ps: return 1
        if len(ps) == 1:
            lo, hi = ctx.bound(ps[0])
            if (lo, hi) == (0, 1): return batom(ps[0]).inv()
        key = frozenset(ps)
        v = VT.bools.get(key)
        if v is None:
            v = VT.bools[key] = VT.new('zero%d' % len(VT.names), 0, 1)
            VT.on[v] = {1: [(p, 0, 0) for p in ps], 0: []}
            if len(ps) == 1:
                lo, hi = ctx.bound(ps[0])
                if VT_nonneg(ps[0]): VT.on[v][0] = [(ps[0], 1, None)]
            else:
                # limbs of one non-negative number: not all zero
                if all(VT_nonneg(p) for p in ps):
                    s = ZERO
                    for p in ps: s = s + p
                    VT.on[v][0] = [(s, 1, None)]
                    for X, ids, w in VT.numbers:
                        if {WP.var(i) for i in ids} == set(ps): VT.on[v][0].append((WP.var(X), 1, None)); VT.on[v][1].append((WP.var(X), 0, 0))
        return batom(WP.var(v))
    def less(self, ctx, x, y, w):
        """boolean x < y for words of width w"""
        d = ctx.norm(x - y)
        lo, hi = ctx.bound(d)
        if hi < 0: return 1
        if lo >= 0: return 0
        if hi == 0:
            z = self.zero_ind(ctx, [d])
            return 1 - z if isinstance(z, int) else z.inv()
        # a known carry may already decide the sign
        cand = []
        for q, b in list(reversed(list(ctx.known.items())))[:12]:
            if b[1] - b[0] == 1 and q.vars() & d.vars(): cand.append(ctx.norm(q))
        for (k, _), v in reversed(list(VT.words.items())[-40:]):
            vs = expand(WP.var(v)).vars()
            if not vs & d.vars(): continue
            cand.append((self.linpoly(VT.lin[v][0], k) - WP.var(v)).shr(k))
        for q in cand:
            l, h = ctx.bound(q)
            if h - l != 1: continue
            ok = True; val = {}
            for t in (l, h):
                c = ctx.copy()
                if not c.learn(q, t, t): val[t] = None; continue
                a, b = c.bound(d)
                if b < 0: val[t] = 1
                elif a >= 0: val[t] = 0
                else: ok = False; break
            if not ok: continue
            if val[l] in (0, None) and val[h] in (1, None): return batom(ctx.norm(q - l))
            if val[l] in (1, None) and val[h] in (0, None): return batom(ctx.norm(WP.const(h) - q))
        r, q = self.wrap(ctx, [x, -y], w)
        return batom(ctx.norm(-q))
    def eqz(self, ctx, x, y):
        return self.zero_ind(ctx, [ctx.norm(x - y)])
    # ---- path facts
    def assume_poly(self, ctx, p, v):
        """assume the 0/1 polynomial p equals v"""
        p = ctx.norm(p)
        if p.is_const(): return p.d.get((), 0) == v and not p.e
        if not ctx.learn(p, v, v): return False
        s = p.single()
        t = p
        if s is None and len(p.d) == 2 and () in p.d and p.e == 0:
            # 1 - z
            (m, c), = [(m, c) for m, c in p.d.items() if m]
            if c == -1 and len(m) == 1 and p.d[()] == 1: s = m[0]; v = 1 - v
        if s is not None and s in VT.on:
            for q, lo, hi in VT.on[s][v]:
                if not ctx.learn(q, lo, hi): return False
            if v == 0 and len(VT.on[s][1]) == 1:
                # a difference that is not zero: known sign makes it strict
                q = VT.on[s][1][0][0]
                lo, hi = ctx.bound(q)
                if lo == 0 and hi == 0: return False
                if lo == 0:
                    if not ctx.learn(q, 1, None): return False
                elif hi == 0:
                    if not ctx.learn(q, None, -1): return False
        return True
    def strict(self, ctx):
        """differences assumed different from zero whose sign became known since"""
        for z, on in VT.on.items():
            if len(on[1]) == 1 and (ctx.range(z) == (0, 0) or (z in ctx.subs and not ctx.subs[z].d)):
                q = on[1][0][0]; lo, hi = ctx.bound(q)
                if lo == 0 and not ctx.learn(q, 1, None): return False
                if hi == 0 and not ctx.learn(q, None, -1): return False
        return True
    def decide(self, ctx, b):
        if isinstance(b, int): return bool(b)
        if isinstance(b, W): b = self.bool_of(ctx, b.p)
        if isinstance(b, int): return bool(b)
        if len(b.atoms) == 1:
            lo, hi = ctx.bound(b.atoms[0])
            if lo == hi: return bool(b.table >> lo & 1)
            return None
        fa = self.feasible_assignments(ctx, b.atoms)
        vals = {b.table >> i & 1 for i, _ in fa}
        if len(vals) == 1: return bool(vals.pop())
        return None
    def assume(self, ctx, b, truth):
        """constrain ctx; False if contradictory"""
        if isinstance(b, int): return bool(b) == truth
        if isinstance(b, W): b = batom(b.p)
        fa = [(i, c) for i, c in self.feasible_assignments(ctx, b.atoms) if (b.table >> i & 1) == int(truth)]
        if not fa: return False
        if len(fa) == 1:
            c = fa[0][1]
            ctx.rng, ctx.facts, ctx.subs, ctx.known, ctx.kgen = c.rng, c.facts, c.subs, c.known, c.kgen
            return True
        for j, a in enumerate(b.atoms):
            vs = {i >> j & 1 for i, _ in fa}
            if len(vs) == 1:
                if not self.assume_poly(ctx, a, vs.pop()): return False
        return True

def VT_nonneg(p):
    return all(c > 0 for c in p.d.values()) and all(VT.lo[v] >= 0 for m in p.d for v in m)

def ctx_norm(ctx, p):
    return ctx.norm(p) if ctx is not None else expand(p)

class WordDomain(Domain, Words):
    """glue to the IR interpreter; the path context lives in State.aux['w']"""
    def ctx(self, st):
        c = st.aux.get('w')
        if c is None: c = st.aux['w'] = Ctx()
        return c
    def wctx(self, st):
        c = self.ctx(st).copy(); st.aux['w'] = c
        return c
    def binop(self, it, op, w, a, b, flags):
        ctx = self.ctx(it.cst)
        if a is UNDEF or b is UNDEF:
            if op in ('and',) and (a == 0 or b == 0): return 0
            return UNDEF
        if op in ('and', 'or', 'xor'):
            return self.bw(ctx, op, a, b, w)
        if isinstance(a, BW) or isinstance(b, BW):
            if op == 'lshr' and isinstance(b, int): return self.lshr(ctx, a, b, w)
            a = self.resolve(ctx, a); b = self.resolve(ctx, b)
        if op == 'add': return self.add(ctx, a, b, w)
        if op == 'sub': return self.sub(ctx, a, b, w)
        if op == 'mul': return self.mul(ctx, a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int):
                p = ctx.norm(self.P(b)); lo, hi = ctx.bound(p)
                if lo == hi: b = lo
                else: return self.varshift(it, ctx, op, w, a, b, lo, hi)
            if b >= w: raise Violation('shift of a %d-bit value by %d' % (w, b), it.where())
            if op == 'shl': return self.shl(ctx, a, b, w)
            if op == 'lshr': return self.lshr(ctx, a, b, w)
            lo, hi = ctx.bound(self.P(a))
            if hi < (1 << (w - 1)): return self.lshr(ctx, a, b, w)
            raise AnalysisError('arithmetic shift of %r at %s' % (a, it.where()))
        if op in ('udiv', 'urem') and isinstance(b, int):
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                return self.lshr(ctx, a, k, w) if op == 'udiv' else self.mk(ctx, self.split(ctx, self.P(a), k)[0], w)
            return self.divc(it, ctx, op, w, a, b)
        if op in ('sdiv', 'srem'):
            pa = ctx.norm(self.P(a)); lo, hi = ctx.bound(pa)
            if hi < (1 << (w - 1)) and isinstance(b, int) and b < (1 << (w - 1)):
                return self.binop(it, 'u' + op[1:], w, a, b, flags)
        return self.other(it, ctx, op, w, a, b)
    def other(self, it, ctx, op, w, a, b):
        raise AnalysisError('word operation %s %r %r at %s' % (op, a, b, it.where()))
    def assume_b(self, ctx, b, truth): return Words.assume(self, ctx, b, truth)
    def varshift(self, it, ctx, op, w, a, b, lo, hi):
        if a == 0 and hi < w: return 0
        raise AnalysisError('shift by %r at %s' % (b, it.where()))
    def divc(self, it, ctx, op, w, a, b):
        p = ctx.norm(self.P(a)); lo, hi = ctx.bound(p)
        q, r = self.divmod_vars(ctx, p, b)
        return self.mk(ctx, q if op == 'udiv' else r, w)
    def divmod_vars(self, ctx, p, c):
        """q = floor(p/c), r = p - c q with r in [0, c)"""
        lo, hi = ctx.bound(p)
        if lo // c == hi // c: return WP.const(lo // c), p - (lo // c) * c
        key = ('div', p, c)
        v = VT.bools.get(key)
        if v is None:
            v = VT.bools[key] = VT.new('div%d' % len(VT.names), 0, max(0, hi // c))
        q = WP.var(v)
        ctx.learn(p - q.scale(c), 0, c - 1)
        return q, p - q.scale(c)
    def resolve(self, ctx, v):
        if isinstance(v, BW):
            r = self.bw_resolve(ctx, v)
            if r is None: raise AnalysisError('arithmetic on the bitwise value %r' % (v,))
            return r
        return v
    def bw_resolve(self, ctx, v):
        """exact value of a bitwise combination via an opaque word (x op y)"""
        a = self.resolve(ctx, v.a) if isinstance(v.a, BW) else v.a
        b = self.resolve(ctx, v.b) if isinstance(v.b, BW) else v.b
        if v.op == 'lshr': return self.lshr(ctx, a, v.b, v.w)
        # and with an all-zero/all-one mask that is -(bit)
        if v.op == 'and':
            for x, y in ((a, b), (b, a)):
                m = self.maskbit(ctx, x, v.w)
                if m is not None: return W(ctx.norm(self.P(y) * m), v.w)
        k = ('bw', v.op, a, b) if repr(a) <= repr(b) else ('bw', v.op, b, a)
        t = VT.bools.get(k)
        if t is None: t = VT.bools[k] = VT.new('%s%d' % (v.op, len(VT.names)), 0, (1 << v.w) - 1)
        return W(WP.var(t), v.w)
    def maskbit(self, ctx, x, w):
        """0/1 polynomial m with x = m * (2^w - 1), if x is such a mask"""
        if isinstance(x, int):
            return {0: ZERO, (1 << w) - 1: ONE}.get(x)
        if not isinstance(x, W): return None
        s = x.p.single()
        if s is not None and VT.lin[s] is not None and VT.lin[s][1] == w:
            l = self.linpoly(VT.lin[s][0], w)
            lo, hi = ctx.bound(l)
            if (lo, hi) == (-1, 0): return -l
        p = ctx.norm(x.p)
        q = p.d
        if all(c % ((1 << w) - 1) == 0 for c in q.values()):
            m = WP({mm: c // ((1 << w) - 1) for mm, c in q.items()}, p.e)
            if ctx.bound(m) == (0, 1): return m
        return None
    def unop(self, it, st, op, w, a):
        ctx = self.ctx(st)
        if op == 'bswap':
            p = self.P(self.resolve(ctx, a)); out = ZERO
            for i in range(w // 8):
                l, p = self.split(ctx, p, 8)
                out = out + l.scale(1 << (w - 8 - 8 * i))
            return self.mk(ctx, out, w)
        if op in ('ctlz', 'cttz'):
            lo, hi = ctx.bound(self.P(self.resolve(ctx, a)))
            if op == 'ctlz' and lo.bit_length() == hi.bit_length(): return w - lo.bit_length()
        raise AnalysisError('%s of %r at %s' % (op, a, it.where()))
    def icmp(self, it, pred, w, a, b):
        ctx = self.ctx(it.cst)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, B) and isinstance(b, int):
            if b == 0: return a.inv() if pred == 'eq' else a if pred in ('ne', 'ugt') else self._ic(it, pred)
            if b == 1 and pred in ('eq', 'ne'): return a if pred == 'eq' else a.inv()
        if pred in ('eq', 'ne'):
            r = self.equal(ctx, a, b, w)
            if isinstance(r, int): return r if pred == 'eq' else 1 - r
            return r if pred == 'eq' else r.inv()
        x = self.P(self.resolve(ctx, a)); y = self.P(self.resolve(ctx, b))
        if pred[0] == 's':
            x = self.signed(ctx, x, w); y = self.signed(ctx, y, w)
            p = pred[1:]
            if p in ('gt', 'le'): x, y = y, x
            r = self.less(ctx, x, y, w + 1)
        else:
            p = pred[1:]
            if p in ('gt', 'le'): x, y = y, x
            r = self.less(ctx, x, y, w)
        if p in ('le', 'ge'): r = 1 - r if isinstance(r, int) else r.inv()
        return r
    def signed(self, ctx, p, w):
        lo, hi = ctx.bound(p)
        if hi < (1 << (w - 1)): return p
        if lo >= (1 << (w - 1)): return p - (1 << w)
        _, h = self.split(ctx, p, w - 1)
        return p - h.scale(1 << w)
    def _ic(self, it, pred): raise AnalysisError('comparison %s at %s' % (pred, it.where()))
    def equal(self, ctx, a, b, w):
        if isinstance(a, BW) or isinstance(b, BW):
            if b == 0:
                ls = self.or_leaves(a)
                if ls is not None: return self.zero_ind(ctx, [self.P(x) for x in ls])
            if isinstance(a, BW) and a.op == 'xor' and b == 0: return self.equal(ctx, a.a, a.b, w)
            a = self.resolve(ctx, a); b = self.resolve(ctx, b)
        return self.zero_ind(ctx, [self.P(a) - self.P(b)])
    def or_leaves(self, a):
        if isinstance(a, BW):
            if a.op == 'or':
                x, y = self.or_leaves(a.a), self.or_leaves(a.b)
                if x is None or y is None: return None
                return x + y
            if a.op == 'xor' and isinstance(a.a, (W, int)) and isinstance(a.b, (W, int)):
                return [W(self.P(a.a) - self.P(a.b), a.w)]
            return None
        return [a]
    def cast(self, it, op, fw, tw, v):
        ctx = self.ctx(it.cst)
        if isinstance(v, B):
            if op == 'zext': return self.mk(ctx, ctx.norm(self.bpoly(v)), tw)
            if op == 'trunc': return v
            if op == 'sext':
                p = self.bpoly(v)
                return self.mk(ctx, ctx.norm(p.scale((1 << tw) - 1)), tw)
            if op == 'bitcast': return v
        if op == 'trunc':
            return self.trunc(ctx, v, tw)
        if op == 'zext':
            v = self.resolve(ctx, v)
            return self.mk(ctx, self.P(v), tw)
        if op == 'sext':
            v = self.resolve(ctx, v)
            s = self.signed(ctx, self.P(v), fw)
            r, _ = self.wrap(ctx, [s], tw)
            return self.mk(ctx, r, tw)
        if op == 'bitcast': return v
        raise AnalysisError('cast %s of %r at %s' % (op, v, it.where()))
    def select(self, it, st, c, a, b, ty):
        ctx = self.ctx(st)
        d = self.decide_(ctx, c)
        if d is not None: return a if d else b
        return self.ite(ctx, c, a, b, ty[1] if ty[0] == 'i' else 64)
    def ite(self, ctx, c, a, b, w):
        if isinstance(a, (Ptr, Fun)) or isinstance(b, (Ptr, Fun)): raise AnalysisError('selection between pointers on %r' % (c,))
        if (isinstance(a, B) or isinstance(b, B) or w == 1) and all(isinstance(x, (B, int)) for x in (a, b)) and all(isinstance(x, B) or x in (0, 1) for x in (a, b)):
            x = self.bop(ctx, 'and', c, a); y = self.bop(ctx, 'and', c.inv() if isinstance(c, B) else 1 - c, b)
            return self.bop(ctx, 'or', x, y)
        p = self.bpoly(c) if isinstance(c, B) else self.P(c)
        x = self.P(self.resolve(ctx, a)); y = self.P(self.resolve(ctx, b))
        r = ctx.norm(y + p * (x - y))
        if x.is_const() and y.is_const():
            x = x.d.get((), 0); y = y.d.get((), 0); ctx.know(r, min(x, y), max(x, y))
        return self.mk(ctx, r, w)
    def decide_(self, ctx, c):
        return self.decide_b(ctx, c)
    def decide_b(self, ctx, c):
        return Words.decide(self, ctx, c)
    def decide(self, it, st, c):
        if isinstance(c, (B, W)): return Words.decide(self, self.ctx(st), c)
        return None
    def assume(self, it, st, c, truth):
        if isinstance(c, (B, W)):
            ctx = self.wctx(st)
            return Words.assume(self, ctx, c, truth)
        raise AnalysisError('branch on %r at %s' % (c, it.where()))
    def merge_value(self, it, c, a, b, size):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(c, B) and all(isinstance(x, (int, W, B)) for x in (a, b)):
            return self.ite(self.ctx(it.cst), c, a, b, size * 8)
        raise NoMerge()
    def merge_aux(self, it, c, a, b):
        r = dict(it.merge_base.aux)
        return r
    def extract(self, it, v, vsize, off, size):
        ctx = self.ctx(it.cst)
        if isinstance(v, (W, B, BW)):
            v = self.resolve(ctx, v)
            p = self.P(v)
            if off: _, p = self.split(ctx, p, 8 * off)
            if off + size < vsize: p, _ = self.split(ctx, p, 8 * size)
            return self.mk(ctx, p, 8 * size)
        raise AnalysisError('partial access to %r at %s' % (v, it.where()))
    def assemble(self, it, parts, size):
        if any(v is UNDEF for _, v in parts): return UNDEF
        ctx = self.ctx(it.cst)
        p = ZERO; sh = 0
        for n, v in parts:
            p = p + self.P(self.resolve(ctx, v)).scale(1 << sh); sh += 8 * n
        return self.mk(ctx, p, 8 * size)
