"""Algebraic domain: field elements as polynomials over GF(p)[u]/(u^2+1).

A stored 48-byte element s denotes the field value s * R^-1 (Montgomery view);
FE.poly is that value as a polynomial in symbolic operands, FE.bound = k states
stored < k*p.  Monomials are sorted tuples of variable ids; id 0 is u.
"""
from .interp import *

P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
R = pow(2, 384, P)
RINV = pow(R, -1, P)
Q = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
XABS = 0xd201000000010000

class Vars:
    def __init__(self):
        self.names = ['u']; self.conj = [0]; self.byname = {}
    def fp(self, name):
        """self-conjugate variable (an element of Fp)"""
        k = self.byname.get(name)
        if k is None:
            k = len(self.names); self.names.append(name); self.conj.append(k); self.byname[name] = k
        return k
    def fp2(self, name):
        k = self.byname.get(name)
        if k is None:
            k = len(self.names); self.names += [name, name + "'"]; self.conj += [k + 1, k]
            self.byname[name] = k
        return k
V = Vars()

class Poly:
    __slots__ = ('d', '_k')
    def __init__(self, d):
        self.d = d; self._k = None
    @staticmethod
    def const(c): return Poly({(): c % P} if c % P else {})
    @staticmethod
    def var(v): return Poly({(v,): 1})
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k
    def __eq__(self, o): return isinstance(o, Poly) and self.d == o.d
    def __hash__(self): return hash(frozenset(self.d.items()))
    def __add__(self, o):
        if not self.d: return o
        if not o.d: return self
        if len(self.d) < len(o.d): a, b = o.d, self.d
        else: a, b = self.d, o.d
        r = dict(a)
        for m, c in b.items():
            x = (r.get(m, 0) + c) % P
            if x: r[m] = x
            else: r.pop(m, None)
        return Poly(r)
    def __neg__(self): return Poly({m: P - c for m, c in self.d.items()})
    def __sub__(self, o):
        if not o.d: return self
        r = dict(self.d)
        for m, c in o.d.items():
            x = (r.get(m, 0) - c) % P
            if x: r[m] = x
            else: r.pop(m, None)
        return Poly(r)
    def scale(self, k):
        k %= P
        if k == 0: return ZERO
        if k == 1: return self
        return Poly({m: c * k % P for m, c in self.d.items()})
    def __mul__(self, o):
        if isinstance(o, int): return self.scale(o)
        if not self.d or not o.d: return ZERO
        if len(self.d) == 1 and () in self.d: return o.scale(self.d[()])
        if len(o.d) == 1 and () in o.d: return self.scale(o.d[()])
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                if not m1: m = m2
                elif not m2: m = m1
                else: m = tuple(sorted(m1 + m2))
                c = c1 * c2
                if len(m) > 1 and m[1] == 0:
                    m = m[2:]; c = -c
                r[m] = r.get(m, 0) + c
        return Poly({m: x for m, x in ((m, c % P) for m, c in r.items()) if x})
    def __pow__(self, n):
        r = ONE; b = self
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r
    def conj(self):
        r = {}
        cj = V.conj
        for m, c in self.d.items():
            m2 = tuple(sorted(cj[v] for v in m))
            if m and m[0] == 0: c = P - c
            r[m2] = c
        return Poly(r)
    def re(self):
        return (self + self.conj()).scale(HALF)
    def im(self):
        # (X - X')/(2u) = -(u/2)(X - X')
        return ((self - self.conj()) * U).scale(P - HALF)
    def is_const(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def const_val(self): return self.d.get((), 0)
    def vars(self):
        s = set()
        for m in self.d: s.update(m)
        return s
    def subst(self, mp):
        """mp: var id -> Poly"""
        out = ZERO
        simple = {}
        for m, c in self.d.items():
            if not any(v in mp for v in m):
                simple[m] = c
        out = Poly(simple)
        for m, c in self.d.items():
            if m in simple: continue
            rest = tuple(v for v in m if v not in mp)
            t = Poly({rest: c})
            for v in m:
                if v in mp: t = t * mp[v]
            out = out + t
        return out
    def lead(self):
        return min(self.d) if self.d else None
    def __repr__(self):
        if not self.d: return '0'
        out = []
        for m, c in sorted(self.d.items())[:12]:
            cc = c if c < P // 2 else c - P
            cs = str(cc) if abs(cc) < 10**6 else hex(c)[:14] + '..'
            out.append(cs + ''.join('*' + V.names[v] for v in m))
        return ' + '.join(out) + (' + ...(%d terms)' % len(self.d) if len(self.d) > 12 else '')
ZERO = Poly({}); ONE = Poly({(): 1}); U = Poly({(0,): 1}); HALF = (P + 1) // 2

def cinv(a, b):
    """inverse of a+bu"""
    n = pow(a * a + b * b, -1, P)
    return a * n % P, -b * n % P

# operand ranges (multiples of p) of the base-field multiplier and squaring; A01 verifies the routines on them
MUL_RANGES = ((3, 3), (4, 2), (2, 4))
SQR_RANGE = 3

class FE(AV):
    __slots__ = ('poly', 'bound')
    def __init__(self, poly, bound=1):
        self.poly = poly; self.bound = bound
    def __eq__(self, o): return isinstance(o, FE) and self.poly == o.poly and self.bound == o.bound
    def __hash__(self): return hash(self.poly)
    def __repr__(self): return 'FE(%r%s)' % (self.poly, '' if self.bound == 1 else ' <%sp' % self.bound)

class Limb(AV):
    __slots__ = ('fe', 'i')
    def __init__(self, fe, i): self.fe = fe; self.i = i
    def __eq__(self, o): return isinstance(o, Limb) and self.i == o.i and self.fe == o.fe
    def __hash__(self): return hash((self.fe, self.i))
    def __repr__(self): return 'Limb%d(%r)' % (self.i, self.fe)

class Cond(AV):
    """boolean atom; key is hashable.  neg handled by wrapper"""
    __slots__ = ('key', 'neg')
    def __init__(self, key, neg=False): self.key = key; self.neg = neg
    def __eq__(self, o): return isinstance(o, Cond) and self.key == o.key and self.neg == o.neg
    def __hash__(self): return hash((self.key, self.neg))
    def __repr__(self): return '%s%s' % ('!' if self.neg else '', self.key)
    def inv(self): return Cond(self.key, not self.neg)

def zkey(poly):
    """canonical atom for poly == 0 : monic representative"""
    m = min(poly.d)
    base = tuple(v for v in m if v != 0)
    a = poly.d.get(base, 0); b = poly.d.get((0,) + base, 0)
    x, y = cinv(a, b)
    p = poly * Poly({k: c for k, c in (((), x), ((0,), y)) if c})
    return ('z', p)

class FieldDomain(Domain):
    def __init__(self):
        self.bound_issues = []
        self.prims = 0
        self.fp2_level = False
        self.invs = {}      # inverse variable -> poly it inverts
        self.inv_by_poly = {}
        self.sq_roots = {}
        self.split_conds = True
    # ---- memory glue
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, FE):
            if size == 8 and off % 8 == 0: return Limb(v, off // 8)
            if off == 0 and size == vsize: return v
            return ('part', v, off, size) if False else self._bad('partial read (%d,%d) of a field element at %s' % (off, size, it.where()))
        self._bad('extract %r' % (v,))
    def _bad(self, msg): raise AnalysisError(msg)
    def assemble(self, it, parts, size):
        if size == 48 and len(parts) == 6:
            v0 = parts[0][1]
            if isinstance(v0, Limb) and all(isinstance(v, Limb) and v.i == i and v.fe == v0.fe for i, (n, v) in enumerate(parts)):
                return v0.fe
            if any(v is UNDEF for _, v in parts): return UNDEF
        # longer blocks of whole elements stay as lists
        if any(v is UNDEF for _, v in parts) : return UNDEF
        raise AnalysisError('cannot assemble %d bytes from %r at %s' % (size, [type(v).__name__ for _, v in parts], it.where()))
    # ---- reading / writing elements
    def rd(self, it, st, p):
        v = it.load_bytes(st, p, 48)
        if isinstance(v, FE): return v
        if isinstance(v, int):
            b = v // P + 1
            return FE(Poly.const(v * RINV), b if b > 1 else 1)
        if v is UNDEF: raise Violation('field operation reads an undefined element', it.where())
        raise AnalysisError('field element expected, got %r at %s' % (v, it.where()))
    def wr(self, it, st, p, fe):
        if fe.bound == 1 and fe.poly.is_const():
            it.store_bytes(st, p, 48, fe.poly.const_val() * R % P)
        else:
            it.store_bytes(st, p, 48, fe)
    def rd2(self, it, st, p):
        a = self.rd(it, st, p); b = self.rd(it, st, Ptr(p.obj, p.off + 48))
        if a.bound != 1 or b.bound != 1: self.issue(it, 'unreduced element used by an extension-field operation')
        return a.poly + U * b.poly
    def wr2(self, it, st, p, poly):
        self.wr(it, st, p, FE(poly.re())); self.wr(it, st, Ptr(p.obj, p.off + 48), FE(poly.im()))
    def issue(self, it, msg):
        self.bound_issues.append((msg, it.where()))
    # ---- inverse variables
    def inv_var(self, poly):
        """variable standing for 1/poly (0 when poly is 0)"""
        k = self.inv_by_poly.get(poly)
        if k is None:
            cj = poly.conj()
            selfc = cj == poly
            n = 'inv%d' % len(self.inv_by_poly)
            v = V.fp(n + '#%d' % len(V.names)) if selfc else V.fp2(n + '#%d' % len(V.names))
            self.inv_by_poly[poly] = v; self.invs[v] = poly
            if not selfc:
                self.inv_by_poly[cj] = V.conj[v]; self.invs[V.conj[v]] = cj
            k = v
        return Poly.var(k)
    def inverse(self, poly):
        if poly.is_const():
            c = poly.const_val()
            return Poly.const(pow(c, -1, P)) if c else ZERO
        if all(m in ((), (0,)) for m in poly.d):
            x, y = cinv(poly.d.get((), 0), poly.d.get((0,), 0))
            return Poly.const(x) + U.scale(y)
        # a monomial times constant: invert factorwise for canonical form
        if len(poly.d) == 1:
            (m, c), = poly.d.items()
            r = Poly.const(pow(c, -1, P))
            for v in m:
                if v == 0: r = r * (-U)
                elif v in self.invs: r = r * self.invs[v]
                else: r = r * self.inv_var(Poly.var(v))
            return r
        # scale to monic so that 1/(c f) = c^-1 (1/f)
        c = poly.d[min(poly.d)]
        k = pow(c, -1, P)
        return self.inv_var(poly.scale(k)).scale(k)
    def cancel(self, poly):
        """apply v * inv(v) = 1 for inverse variables of single variables"""
        mp = {}
        for iv, q in self.invs.items():
            if len(q.d) == 1:
                (m, c), = q.d.items()
                if len(m) == 1 and c == 1: mp[iv] = m[0]
        if not mp: return poly
        r = {}
        for m, c in poly.d.items():
            l = list(m)
            for iv, v in mp.items():
                while iv in l and v in l:
                    l.remove(iv); l.remove(v)
            t = tuple(l)
            r[t] = (r.get(t, 0) + c) % P
        return Poly({m: c for m, c in r.items() if c})
    # ---- conditions
    def zero_cond(self, it, st, poly):
        if not poly.d: return 1
        if all(m in ((), (0,)) for m in poly.d): return 0
        return Cond(zkey(poly))
    def decide(self, it, st, c):
        if isinstance(c, Cond):
            r = st.facts.get(c.key)
            if r is None: return None
            return r != c.neg
        return None
    def assume(self, it, st, c, truth):
        if not isinstance(c, Cond): raise AnalysisError('branch on %r at %s' % (c, it.where()))
        st.facts[c.key] = truth != c.neg
        return True
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, Cond) and b == 0:
            return a.inv() if pred == 'eq' else a
        if isinstance(a, Cond) and b == 1 and w == 1:
            return a if pred == 'eq' else a.inv()
        raise AnalysisError('compare %r %s %r at %s' % (a, pred, b, it.where()))
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, Cond): return v
        raise AnalysisError('cast %s %r at %s' % (op, v, it.where()))
    def binop(self, it, op, w, a, b, flags):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == 'xor':
                if b == 1: return a.inv()
                if a == 1: return b.inv()
            if op == 'and':
                if b == 1 or b == 255: return a
                if a == 1: return b
                if a == 0 or b == 0: return 0
                if a == b: return a
            if op == 'or':
                if b == 0: return a
                if a == 0: return b
                if a == 1 or b == 1: return 1
                if a == b: return a
        if isinstance(a, Limb) and op == 'and' and b == 1 and a.i == 0:
            return Cond(('odd', a.fe.poly))
        raise AnalysisError('abstract %s %r %r at %s' % (op, a, b, it.where()))
    def select(self, it, st, c, a, b, ty):
        r = self.decide(it, st, c)
        if r is not None: return a if r else b
        if isinstance(c, Cond) and ty == INT(1):
            if a == 1 and b == 0: return c
            if a == 0 and b == 1: return c.inv()
        raise AnalysisError('abstract select %r at %s' % (c, it.where()))

    # ---- primitives
    def install_fp(self, it):
        """base-field primitives (their exactness is established by the word-level analysis)"""
        H = it.handlers
        D = self
        def chk(it, *es):
            for e in es:
                if e.bound != 1:
                    D.issue(it, 'unreduced operand (< %sp) reaches an operation that needs a canonical one' % e.bound)
        def f2(op):
            def h(it, st, a):
                D.prims += 1
                x = D.rd(it, st, a[1]); y = D.rd(it, st, a[2])
                chk(it, x, y)
                D.wr(it, st, a[0], FE(x.poly + y.poly if op == '+' else x.poly - y.poly))
            return h
        def f1(fn):
            def h(it, st, a):
                D.prims += 1
                x = D.rd(it, st, a[1]); chk(it, x)
                D.wr(it, st, a[0], FE(fn(x.poly)))
            return h
        def mul(it, st, a):
            D.prims += 1
            x = D.rd(it, st, a[1]); y = D.rd(it, st, a[2])
            if not any(x.bound <= i and y.bound <= j for i, j in MUL_RANGES):
                D.issue(it, 'multiplier operands < %sp and < %sp exceed its range' % (x.bound, y.bound))
            D.wr(it, st, a[0], FE(D.norm(x.poly * y.poly)))
        def sq(it, st, a):
            D.prims += 1
            x = D.rd(it, st, a[1])
            if x.bound > SQR_RANGE:
                D.issue(it, 'squaring operand < %sp exceeds its range' % x.bound)
            D.wr(it, st, a[0], FE(D.norm(x.poly * x.poly)))
        def ladd(it, st, a):
            D.prims += 1
            x = D.rd(it, st, a[1]); y = D.rd(it, st, a[2])
            D.lazy(it, st, a[0], x.poly + y.poly, x.bound + y.bound)
        def ldbl(it, st, a):
            D.prims += 1
            x = D.rd(it, st, a[1])
            D.lazy(it, st, a[0], x.poly + x.poly, 2 * x.bound)
        def lsub(it, st, a):
            D.prims += 1
            x = D.rd(it, st, a[1]); y = D.rd(it, st, a[2])
            D.issue(it, 'non-reducing subtraction may wrap below zero')
            D.lazy(it, st, a[0], x.poly - y.poly, x.bound)
        FPT = 'bls12_381::fp*'
        FPC = 'bls12_381::fp const*'
        for n, h in (('_add', f2('+')), ('_subtract', f2('-')), ('_multiply', mul), ('_ladd', ladd), ('_lsubtract', lsub)):
            H['bls12_381::%s(%s, %s, %s)' % (n, FPT, FPC, FPC)] = h
        for n, h in (('_double', f1(lambda p: p + p)), ('_negate', f1(lambda p: -p)), ('_square', sq), ('_ldouble', ldbl)):
            H['bls12_381::%s(%s, %s)' % (n, FPT, FPC)] = h
        C = 'bls12_381::fp::'
        def fe_cond(fn):
            def h(it, st, a):
                x = D.rd(it, st, a[0]); chk(it, x)
                return D.zero_cond(it, st, fn(x.poly))
            return h
        H[C + 'isZero() const'] = fe_cond(lambda p: p)
        H[C + 'isOne() const'] = fe_cond(lambda p: p - ONE)
        def eq(it, st, a):
            x = D.rd(it, st, a[0]); y = D.rd(it, st, a[1]); chk(it, x, y)
            return D.zero_cond(it, st, x.poly - y.poly)
        H[C + 'equal(bls12_381::fp const&) const'] = eq
        def inv(it, st, a):
            x = D.rd(it, st, a[1]); chk(it, x)
            D.wr(it, st, a[0], FE(D.inverse(x.poly)))
        H[C + 'inverse() const'] = inv
        return self
    def norm(self, poly): return poly
    def lazy(self, it, st, dst, poly, bound):
        if bound > 9: self.issue(it, 'unreduced value may reach %sp, beyond 2^384' % bound)
        it.store_bytes(st, dst, 48, FE(poly, bound))

    def install_fp2(self, it):
        """Fp2 operations as primitives (established by the tower analysis, B01)"""
        H = it.handlers; D = self
        C = 'bls12_381::fp2::'
        c2 = 'bls12_381::fp2 const&'
        def bin_(fn):
            def h(it, st, a):
                D.prims += 1
                x = D.rd2(it, st, a[1]); y = D.rd2(it, st, a[2])
                D.wr2(it, st, a[0], D.norm(fn(x, y)))
            def ha(it, st, a):
                D.prims += 1
                x = D.rd2(it, st, a[0]); y = D.rd2(it, st, a[1])
                D.wr2(it, st, a[0], D.norm(fn(x, y)))
            return h, ha
        def un_(fn):
            def h(it, st, a):
                D.prims += 1
                D.wr2(it, st, a[0], D.norm(fn(D.rd2(it, st, a[1]))))
            def ha(it, st, a):
                D.prims += 1
                D.wr2(it, st, a[0], D.norm(fn(D.rd2(it, st, a[0]))))
            return h, ha
        for n, fn in (('add', lambda x, y: x + y), ('subtract', lambda x, y: x - y), ('multiply', lambda x, y: x * y)):
            h, ha = bin_(fn)
            H[C + n + '(' + c2 + ') const'] = h
            H[C + n + 'Assign(' + c2 + ')'] = ha
        B4 = Poly.const(4) + U.scale(4)
        for n, an, fn in (('dbl', 'doubleAssign', lambda x: x + x), ('square', 'squareAssign', lambda x: x * x),
                          ('negate', None, lambda x: -x), ('conjugate', None, lambda x: x.conj()),
                          ('mulByNonResidue', None, lambda x: x * (ONE + U)), ('mulByB', None, lambda x: x * B4),
                          ('inverse', None, lambda x: D.inverse(x))):
            h, ha = un_(fn)
            H[C + n + '() const'] = h
            if an: H[C + an + '()'] = ha
        def mulfq(it, st, a):
            D.prims += 1
            x = D.rd2(it, st, a[1]); y = D.rd(it, st, a[2])
            D.wr2(it, st, a[0], D.norm(x * y.poly))
        H[C + 'mulByFq(bls12_381::fp const&) const'] = mulfq
        def frob(it, st, a):
            x = D.rd2(it, st, a[1]); k = it.load_bytes(st, a[2], 8)
            if not isinstance(k, int): k = it.binop('urem', INT(64), k, 2, ())
            D.wr2(it, st, a[0], x.conj() if k & 1 else x)
        H[C + 'frobeniusMap(unsigned long const&) const'] = frob
        def froba(it, st, a):
            x = D.rd2(it, st, a[0]); k = it.load_bytes(st, a[1], 8)
            if not isinstance(k, int): k = it.binop('urem', INT(64), k, 2, ())
            D.wr2(it, st, a[0], x.conj() if k & 1 else x)
        H[C + 'frobeniusMapAssign(unsigned long const&)'] = froba
        H[C + 'isZero() const'] = lambda it, st, a: D.zero_cond(it, st, D.rd2(it, st, a[0]))
        H[C + 'isOne() const'] = lambda it, st, a: D.zero_cond(it, st, D.rd2(it, st, a[0]) - ONE)
        H[C + 'equal(' + c2 + ') const'] = lambda it, st, a: D.zero_cond(it, st, D.rd2(it, st, a[0]) - D.rd2(it, st, a[1]))
        return self
