"""A03: predicates, powers, roots and inversion of the base field and its quadratic extension."""
from engine.wutil import *
from engine import build
from engine.field import FieldDomain, Poly, FE, Cond, V, ZERO, ONE, U, P, RINV
from engine.field import R as MONT
from checks.arith import sig3, sig2
from checks.words import PH, sx, strict, value
from checks.constants import f2mul, f2inv
from checks.tower import fp2pow
from fractions import Fraction as Q
import checks.scale as scale
import checks.codec as codec
from engine.bits import bor
HALF = (P + 1) // 2
C1, C2 = 'bls12_381::fp::', 'bls12_381::fp2::'

# =============== word-level predicates
def cases(H, rs):
    """(context, truth value, path) for each answer of each path"""
    for st, r in rs:
        ctx = H.ctx(st)
        if not ctx.feasible(): continue
        for truth in (0, 1):
            c = ctx.copy()
            if isinstance(r, int):
                if (r & 1) != truth: continue
            elif not H.D.assume_b(c, r, truth): continue
            if c.feasible(): yield c, truth
def predicate(rep, H, name, sig, judge, second=False):
    """judge(ctx, truth, X, Y, xs, ys) -> error text or None; the words are arbitrary"""
    def body():
        H.fresh()
        p, xs, X = H.full('x', 6); a = [p]; ys = Y = None
        if second: q, ys, Y = H.full('y', 6); a.append(q)
        rs = H.call(sig, a); seen = set()
        for c, t in cases(H, rs):
            seen.add(t)
            e = judge(c, t, X, Y, xs, ys)
            if e: return e
        if seen != {0, 1}: return 'always answers %s' % seen
        H.done(rep)
    rep.run(name, body, H.where(sig))
M384 = 1 << 384
def threshold(k):
    def judge(c, t, X, Y, xs, ys):
        lo, hi = c.bound(X - WP.const(k))
        if t and lo < 0: return 'answers true where the value may be below the threshold'
        if not t and hi >= 0: return 'answers false where the value may reach the threshold'
    return judge

def word_preds(rep, m):
    H = PH(m)
    def valid(c, t, X, Y, xs, ys):
        lo, hi = c.bound(X - WP.const(P))
        if t and hi >= 0: return 'accepts a value that may not be below the modulus'
        if not t and lo < 0: return 'refuses a value that may be below the modulus'
    predicate(rep, H, 'fp::isValid', C1 + 'isValid() const', valid)
    def cmp_():
        sig = C1 + 'cmp(bls12_381::fp const&) const'; H.fresh()
        pa, _, X = H.full('x', 6); pb, _, Y = H.full('y', 6)
        rs = H.call(sig, [pa, pb]); seen = set()
        for st, r in rs:
            ctx = H.ctx(st)
            if not ctx.feasible(): continue
            r = H.D.resolve(ctx, r) if not isinstance(r, int) else r
            r = r & 255; r = r - 256 if r > 127 else r
            lo, hi = ctx.bound(X - Y); seen.add(r)
            if not ((r == -1 and hi < 0) or (r == 1 and lo > 0) or (r == 0 and (lo, hi) == (0, 0))): return 'answers %r where x - y is in [%d, %d]' % (r, lo, hi)
        if seen != {-1, 0, 1}: return 'not every ordering is reachable: %r' % seen
        H.done(rep)
    rep.run('fp::cmp', cmp_, where_fn(m, C1 + 'cmp(bls12_381::fp const&) const'))
    # largest
    def lex():
        sig = C1 + 'isLexicographicallyLargest() const'; H.fresh()
        p = H.A.buf(48, 'this'); H.A.const_arg(p); xs = [WP.var(VT.named('y%d' % i, 0, (1 << 64) - 1)) for i in range(6)]; X = value(xs); done = []
        def from_mont(it, st, a):
            if a[1].obj != p.obj or a[1].off != p.off: raise AnalysisError('conversion of another element')
            done.append(1)
            for i, x in enumerate(xs): it.store_bytes(st, Ptr(a[0].obj, a[0].off + 8 * i), 8, W(x, 64))
        old = dict(H.it.handlers); H.it.handlers[C1 + 'fromMont() const'] = from_mont; H.it._hcache.clear()
        try:
            rs = H.call(sig, [p]); seen = set()
            for c, t in cases(H, rs):
                seen.add(t); e = threshold(HALF)(c, t, X, None, None, None)
                if e: return e
            if seen != {0, 1}: return 'always answers %s' % seen
        finally:
            H.it.handlers.clear(); H.it.handlers.update(old); H.it._hcache.clear()
        H.done(rep)
    rep.run('fp::isLexicographicallyLargest: the canonical value exceeds (p-1)/2', lex, where_fn(m, C1 + 'isLexicographicallyLargest() const'))
def anf(w):
    if not isinstance(w, codec.Or): return tuple(codec.bits_of(w, 64))
    out = []
    for x in w.pos:
        b = codec.B0
        for y in x: b = bor(b, y)
        out.append(b)
    return tuple(out)
def bitwise(rep, m):
    """halving, doubling, zero test and equality on symbolic bits"""
    def setup(sig):
        D, it, st = codec.new(m); p = it.new_obj(st, 48, 'arg', 'this'); bs = ()
        for i in range(6):
            b = tuple(codec.bitvar('w%d' % i, j) for j in range(64)); bs += b; it.store_bytes(st, Ptr(p.obj, 8 * i), 8, codec.from_bits(b))
        it.handlers.pop(sig, None)
        return D, it, st, p, bs
    def words(it, s, p):
        out = ()
        for i in range(6):
            w = it.load_bytes(s, Ptr(p.obj, 8 * i), 8); out += anf(w)
        return out
    def same(what, one=None):
        """answers true exactly when all pairs of bits agree"""
        sig = C1 + what; D, it, st, p, bs = setup(sig); seen = set(); args = [p]
        for x in ('isZero() const', 'isOne() const', 'equal(bls12_381::fp const&) const'): it.handlers.pop(C1 + x, None)
        if one is None:
            q = it.new_obj(st, 48, 'arg', 'other'); os = (); args.append(q)
            for i in range(6):
                b = tuple(codec.bitvar('v%d' % i, j) for j in range(64)); os += b; it.store_bytes(st, Ptr(q.obj, 8 * i), 8, codec.from_bits(b))
        else: os = tuple(codec.B1 if one >> i & 1 else codec.B0 for i in range(384))
        ds = [x ^ y for x, y in zip(bs, os)]; al = set(ds)
        for s, r in it.call(st, fn(m, sig), args):
            for truth in (0, 1):
                if isinstance(r, int):
                    if (r & 1) != truth: continue
                    t = s
                else:
                    c = D.cond(r); k = D.decide(it, s, c)
                    if k is not None and k != bool(truth): continue
                    t = s.clone()
                    if D.assume(it, t, c, bool(truth)) is False: continue
                F = t.facts; seen.add(truth)
                if truth and not all(D.bit(F, b) == 0 for b in ds): return 'answers true where a bit may differ'
                if not truth and not any(D.bit(F, b) == 1 for b in ds) and not any(k[0] == 'some' and v and set(k[1]) <= al for k, v in F.items()): return 'answers false where no bit may differ'
        if seen != {0, 1}: return 'always answers %s' % seen
        rep.absorb(it)
    for what, one in (('isZero() const', 0), ('isOne() const', MONT % P), ('equal(bls12_381::fp const&) const', None)):
        rep.run('fp::' + what.split('(')[0], lambda what=what, one=one: same(what, one), where_fn(m, C1 + what))
    def half():
        sig = C1 + 'div2(unsigned long const&)'; D, it, st, p, bs = setup(sig)
        e = it.new_obj(st, 8, 'arg', 'e'); eb = (codec.bitvar('e', 0),) + (codec.B0,) * 63; it.store_bytes(st, e, 8, codec.from_bits(eb))
        rs = it.call(st, fn(m, sig), [p, e])
        for s, r in rs:
            if words(it, s, p) != bs[1:] + (eb[0],): return 'the result is not the 385-bit number shifted down by one bit'
        if not rs: return 'no path returns'
        rep.absorb(it)
    rep.run('fp::div2', half, where_fn(m, C1 + 'div2(unsigned long const&)'))
    def twice():
        sig = C1 + 'mul2()'; D, it, st, p, bs = setup(sig); rs = it.call(st, fn(m, sig), [p])
        for s, r in rs:
            if words(it, s, p) != (codec.B0,) + bs[:-1]: return 'the result is not the number shifted up by one bit'
            if anf(r) != (bs[-1],) + (codec.B0,) * 63: return 'the bit shifted out is not returned'
        if not rs: return 'no path returns'
        rep.absorb(it)
    rep.run('fp::mul2', twice, where_fn(m, C1 + 'mul2()'))
def parities(rep, m):
    for name, odd in (('isOdd', True), ('isEven', False)):
        sig = C1 + name + '() const'
        def body(sig=sig, odd=odd):
            D, it, st = codec.new(m); p = it.new_obj(st, 48, 'arg', 'this'); bs = ()
            for i in range(6):
                b = tuple(codec.bitvar('w%d' % i, j) for j in range(64)); bs += b; it.store_bytes(st, Ptr(p.obj, 8 * i), 8, codec.from_bits(b))
            for h in ('isOdd() const', 'isEven() const'): it.handlers.pop(C1 + h, None)
            for s, r in it.call(st, fn(m, sig), [p]):
                if answer(D, s, r) != bitcond(bs[0], not odd): return 'does not test the lowest bit'
            rep.absorb(it)
        rep.run('fp::' + name, body, where_fn(m, sig))
    def sgn(cls, kind):
        sig = 'bls12_381::%s::sign() const' % cls; n = 1 if cls == 'fp' else 2
        D, it, st = codec.new(m); p = it.new_obj(st, 48 * n, 'arg', 'this')
        xs = [Poly.var(V.fp('x%d' % i)) for i in range(n)]
        if kind == 'c0 zero': xs[0] = ZERO
        elif n == 2: D.nonzero |= set(xs[0].vars())
        if kind == 'zero': xs = [ZERO] * n
        for i, x in enumerate(xs): D.wr(it, st, Ptr(p.obj, 48 * i), FE(x))
        rs = it.call(st, fn(m, sig), [p]); rep.absorb(it)
        if not rs: return 'no path returns'
        for s, r in rs:
            a = answer(D, s, r)
            if kind == 'zero': want = 1
            else: want = bitcond(D.bits381('int', xs[1 if kind == 'c0 zero' else 0])[0], True)
            if a != want: return 'is not the parity of the canonical value of %s' % ('the imaginary part' if kind == 'c0 zero' else 'the real part' if n == 2 else 'the element')
    rep.run('fp::sign', lambda: sgn('fp', ''), where_fn(m, C1 + 'sign() const'))
    rep.run('fp::sign of zero', lambda: sgn('fp', 'zero'), where_fn(m, C1 + 'sign() const'))
    for k in ('c0 not zero', 'c0 zero', 'zero'): rep.run('fp2::sign, %s' % k, lambda k=k: sgn('fp2', k), where_fn(m, C2 + 'sign() const'))
    def lex2(kind):
        sig = C2 + 'isLexicographicallyLargest() const'
        D, it, st = codec.new(m); p = it.new_obj(st, 96, 'arg', 'this'); it.handlers.pop(sig, None)
        x = Poly.var(V.fp('x0')); y = ZERO if kind else Poly.var(V.fp('x1'))
        if not kind: D.nonzero |= set(y.vars())
        D.wr(it, st, p, FE(x)); D.wr(it, st, Ptr(p.obj, 48), FE(y))
        rs = it.call(st, fn(m, sig), [p]); rep.absorb(it)
        for s, r in rs:
            r = answer(D, s, r); l = D.lex(x if kind else y)
            t = D.decide(it, s, l); want = int(t) if t is not None else l
            if r != want: return 'the order is not decided by the %s part' % ('real' if kind else 'imaginary')
    for k in (0, 1): rep.run('fp2::isLexicographicallyLargest, imaginary part %s' % ('zero' if k else 'not zero'), lambda k=k: lex2(k), where_fn(m, C2 + 'isLexicographicallyLargest() const'))
    def qnr2():
        sig = C2 + 'isQuadraticNonResidue() const'
        D, it, st = codec.new(m); p = it.new_obj(st, 96, 'arg', 'this')
        a, b = Poly.var(V.fp('x0')), Poly.var(V.fp('x1')); D.wr(it, st, p, FE(a)); D.wr(it, st, Ptr(p.obj, 48), FE(b))
        it.handlers[C1 + 'isQuadraticNonResidue() const'] = lambda it, st, q: Cond(('qnr', D.rd(it, st, q[0]).poly))
        for s, r in it.call(st, fn(m, sig), [p]):
            if answer(D, s, r) != Cond(('qnr', a * a + b * b)): return 'is not the residue test of the norm'
        rep.absorb(it)
    rep.run('fp2::isQuadraticNonResidue tests the norm', qnr2, where_fn(m, C2 + 'isQuadraticNonResidue() const'))
def bitcond(b, neg):
    c = codec.CodecDomain.cond
    f = min(b, b ^ codec.B1, key=lambda f: (frozenset() in f))
    return Cond(('bit', f), (f != b) ^ neg)
def answer(D, s, r):
    """the returned truth value under the facts of the path"""
    if isinstance(r, int): return r & 1
    r = D.cond(r); t = D.decide(None, s, r)
    return int(t) if t is not None else r

# =============== powers: elements const * x^e * (sum)^f
class Mon(AV):
    __slots__ = ('k', 'e', 's')
    def __init__(self, k, e, s): self.k = k; self.e = e; self.s = s
    def __eq__(self, o): return isinstance(o, Mon) and (self.k, self.e, self.s) == (o.k, o.e, o.s)
    def __hash__(self): return hash((self.k, self.e, self.s))
    def __repr__(self): return 'x^%#x' % self.e if not self.s else 'x^%#x * sums' % self.e
class Half(AV):
    __slots__ = ('m', 'i', 'neg')
    def __init__(self, m, i, neg): self.m = m; self.i = i; self.neg = neg
    def __eq__(self, o): return isinstance(o, Half) and (self.m, self.i, self.neg) == (o.m, o.i, o.neg)
    def __hash__(self): return hash((self.m, self.i, self.neg))
class Power:
    """arithmetic of one case: x^N = kx, group order n"""
    def __init__(self, dim, N, kx, square, noteq=()):
        self.dim = dim; self.N = N; self.kx = kx; self.square = square; self.q = P ** dim
        self.one = (1, 0); self.zero = (0, 0); self.noteq = set()
        self.mu = {}
        for q in noteq: self.noteq |= {self.mon(q.k, q.e, {}), self.inv(self.mon(q.k, q.e, {}))}
    def kpow(self, k, e): return fp2pow(k, e % (self.q - 1)) if k != (0, 0) else ((0, 0) if e else (1, 0))
    def mon(self, k, e, s):
        s = dict(s)
        if k == (0, 0): return Mon(k, 0, frozenset())
        for a in list(s):
            f = s[a]; mu = self.mu.get(a)
            if mu is not None:
                d, f = divmod(f, P - 1)
                if d: k = f2mul(k, self.kpow(mu.k, d)); e += mu.e * d
            else: f %= self.q - 1
            if f: s[a] = f
            else: del s[a]
        d, e = divmod(e, self.N)
        if d: k = f2mul(k, self.kpow(self.kx, d))
        return Mon(k, e, frozenset(s.items()))
    def mul(self, a, b):
        s = dict(a.s)
        for x, f in b.s: s[x] = s.get(x, 0) + f
        return self.mon(f2mul(a.k, b.k), a.e + b.e, s)
    def pow(self, a, n):
        if a.k == (0, 0): return a if n else self.const(1)
        return self.mon(self.kpow(a.k, n), a.e * n, {x: f * n for x, f in a.s})
    def inv(self, a): return self.pow(a, self.q - 2)
    def const(self, c): return Mon(c if isinstance(c, tuple) else (c % P, 0), 0, frozenset())
    def add(self, a, b):
        if a.k == (0, 0): return b
        if b.k == (0, 0): return a
        if (a.e, a.s) == (b.e, b.s): return self.mon(tuple((x + y) % P for x, y in zip(a.k, b.k)), a.e, dict(a.s))
        if self.equal(a, self.mul(self.const(-1), b)) != 0: raise AnalysisError('a sum that may vanish')
        atom = frozenset((a, b))
        if atom not in self.mu:
            # is the p-th power a multiple of the sum?
            fa, fb = self.pow(a, P), self.pow(b, P); self.mu[atom] = None
            for x, y in ((a, b), (b, a)):
                m = self.mul(fa, self.inv(x))
                if self.mul(m, y) == fb: self.mu[atom] = m
        return self.mon((1, 0), 0, {atom: 1})
    def equal(self, a, b):
        """1, 0 or the ratio"""
        if a == b: return 1
        if a.k == (0, 0) or b.k == (0, 0): return 0
        r = self.mul(a, self.inv(b))
        if not r.e and not r.s: return int(r.k == (1, 0))
        if r in self.noteq: return 0
        if all(f % 2 == 0 for _, f in r.s):
            chi = 1 if self.kpow(r.k, (self.q - 1) // 2) == (1, 0) else -1
            if r.e % 2 and not self.square: chi = -chi
            if chi == -1: return 0
        return r

class Piece(AV):
    """some bytes of an element that is only ever copied"""
    __slots__ = ('v', 'vsize', 'off', 'size')
    def __init__(self, v, vsize, off, size): self.v = v; self.vsize = vsize; self.off = off; self.size = size
    def __repr__(self): return 'bytes %d..%d of an element' % (self.off, self.off + self.size - 1)
class Copyable:
    """elements are whole values; byte-wise copies of them are recognised"""
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, Piece): v, vsize, off = v.v, v.vsize, v.off + off
        return self.piece(Piece(v, vsize, off, size))
    def piece(self, p):
        if p.off == 0 and p.size == p.vsize: return p.v
        if isinstance(p.v, Mon) and p.vsize == 96 and p.size == 48 and p.off % 48 == 0: return Half(p.v, p.off // 48, False)
        return p
    def assemble(self, it, parts, size):
        if any(v is UNDEF for _, v in parts): return UNDEF
        out = []
        for n, v in parts:
            q = out[-1][1] if out else None
            if isinstance(v, Piece) and isinstance(q, Piece) and q.v == v.v and q.off + q.size == v.off: out[-1] = (out[-1][0] + n, self.piece(Piece(v.v, v.vsize, q.off, q.size + v.size)))
            else: out.append((n, v))
        if len(out) == 1: return out[0][1]
        return self.join(it, out, size)
class PowerDomain(Copyable, FieldDomain):
    def __init__(self, pw): FieldDomain.__init__(self); self.pw = pw; self.sz = 48 * pw.dim
    def join(self, it, parts, size):
        if len(parts) == 2 and all(isinstance(v, Half) for _, v in parts):
            a, b = parts[0][1], parts[1][1]
            if a.m == b.m:
                if a.i != b.i:
                    # (c0, c1), (-c1, c0) = u x and their conjugates
                    turn = a.i == 1
                    if turn: y = self.pw.mul(self.pw.const((0, 1)), a.m); base = (True, False)      # u x = (-c1, c0)
                    else: y = a.m; base = (False, False)
                    for sgn in (1, -1):
                        for cj in (False, True):
                            na, nb = base[0], base[1] ^ cj
                            if sgn < 0: na, nb = not na, not nb
                            if (na, nb) == (a.neg, b.neg):
                                r = self.pw.pow(y, P) if cj else y
                                return r if sgn > 0 else self.pw.mul(self.pw.const(-1), r)
        if all(isinstance(v, int) for _, v in parts): return FieldDomain.assemble(self, it, parts, size)
        raise AnalysisError('mixture of powers at ' + it.where())
    def rdm(self, it, st, p):
        v = it.load_bytes(st, p, self.sz)
        if isinstance(v, Mon): return v
        if v is UNDEF: raise Violation('reads an element that was never written', it.where())
        if isinstance(v, int):
            c = [(v >> (384 * i) & M384 - 1) * RINV % P for i in range(self.sz // 48)]
            return self.pw.const(tuple(c + [0] * (2 - len(c))))
        raise AnalysisError('element %r at %s' % (v, it.where()))
    def wrm(self, it, st, p, v):
        self.prims += 1
        if not v.e and not v.s: it.store_bytes(st, p, self.sz, sum((v.k[i] * MONT % P) << (384 * i) for i in range(self.sz // 48)))
        else: it.store_bytes(st, p, self.sz, v)
    def cond(self, r): return r if isinstance(r, int) else Cond(('eq', r))
    def assume(self, it, st, c, truth): return FieldDomain.assume(self, it, st, c, truth)
    def install(self, it):
        D = self; pw = self.pw; H = it.handlers; cls = 'fp' if pw.dim == 1 else 'fp2'; C = 'bls12_381::%s::' % cls
        R, Wr = self.rdm, self.wrm
        def b(f):
            def h(it, st, a): Wr(it, st, a[0], f(R(it, st, a[1]), R(it, st, a[2])))
            return h
        def ba(f):
            def h(it, st, a): Wr(it, st, a[0], f(R(it, st, a[0]), R(it, st, a[1])))
            return h
        def u(f): return lambda it, st, a: Wr(it, st, a[0], f(R(it, st, a[1])))
        def ua(f): return lambda it, st, a: Wr(it, st, a[0], f(R(it, st, a[0])))
        neg = lambda x: pw.mul(pw.const(-1), x); sub = lambda x, y: pw.add(x, neg(y)); dbl = lambda x: pw.mul(pw.const(2), x)
        for n, f in (('multiply', pw.mul), ('add', pw.add), ('subtract', sub)):
            H['%s%s(bls12_381::%s const&) const' % (C, n, cls)] = b(f); H['%s%sAssign(bls12_381::%s const&)' % (C, n, cls)] = ba(f)
            if pw.dim == 1: H[sig3('_' + n)] = b(f)
        for n, an, f in (('square', 'squareAssign', lambda x: pw.mul(x, x)), ('dbl', 'doubleAssign', dbl), ('negate', None, neg), ('inverse', None, pw.inv)):
            H['%s%s() const' % (C, n)] = u(f)
            if an: H['%s%s()' % (C, an)] = ua(f)
        if pw.dim == 1:
            H[sig2('_square')] = u(lambda x: pw.mul(x, x)); H[sig2('_double')] = u(dbl); H[sig2('_negate')] = u(neg)
        else:
            H[C + 'conjugate() const'] = u(lambda x: pw.pow(x, P))
            H[C + 'mulByNonResidue() const'] = u(lambda x: pw.mul(pw.const((1, 1)), x))
            def hneg(it, st, a):
                v = it.load_bytes(st, a[1], 48)
                if isinstance(v, int): r = -v % P
                elif isinstance(v, Half): r = Half(v.m, v.i, not v.neg)
                else: raise AnalysisError('negation of %r' % (v,))
                it.store_bytes(st, a[0], 48, r)
            def hzero(it, st, a):
                v = it.load_bytes(st, a[0], 48)
                return int(v == 0) if isinstance(v, int) else Cond(('half', v.m, v.i))
            H[C1 + 'isZero() const'] = hzero
            H[sig2('_negate')] = hneg; H[C1 + 'negate() const'] = hneg
        H[C + 'equal(bls12_381::%s const&) const' % cls] = lambda it, st, a: D.cond(pw.equal(R(it, st, a[0]), R(it, st, a[1])))
        H[C + 'isOne() const'] = lambda it, st, a: D.cond(pw.equal(R(it, st, a[0]), pw.const(1)))
        H[C + 'isZero() const'] = lambda it, st, a: D.cond(pw.equal(R(it, st, a[0]), pw.const(0)))
        def exp(it, st, a):
            n = int(it.callee_words) if False else None
            d = it.dem(it.callee) if hasattr(it, 'callee') else ''
            import re
            w = int(re.search(r'::exp<(\d+)ul>', d).group(1))
            e = it.load_bytes(st, a[2], 8 * w)
            if not isinstance(e, int): raise AnalysisError('exponent %r at %s' % (e, it.where()))
            Wr(it, st, a[0], pw.pow(R(it, st, a[1]), e))
        it.prefix_handlers.append((lambda d: ('%sexp<' % C) in d and d.split('(')[0].startswith('bls12_381::%s ' % cls), exp))

def power_cases(dim):
    """(name, Power or None for zero, is a square)"""
    p1 = (P - 1, 0)
    if dim == 1:
        return [('zero', Power(1, (P - 1) // 2, (1, 0), True), None), ('square', Power(1, (P - 1) // 2, (1, 0), True), True), ('non-square', Power(1, (P - 1) // 2, p1, False), False)]
    N = (P * P - 1) // 2; h = (P - 1) // 2
    return [('zero', Power(2, N, (1, 0), True), None),
            ('square with x^((p-1)/2) = -1', Power(2, h, p1, True), True),
            ('other square', Power(2, N, (1, 0), True, [Mon(p1, h, frozenset())]), True),
            ('non-square', Power(2, N, p1, False), False)]

def root(rep, m, dim, cname, pw, sq, alias):
    cls = 'fp' if dim == 1 else 'fp2'; sig = 'bls12_381::%s::sqrt(bls12_381::%s&) const' % (cls, cls); W = where_fn(m, sig)
    D = PowerDomain(pw); it = Interp(m, D); D.install(it); it.run_ctors(); st = it.gstate.clone()
    it.handlers.pop(sig, None)
    x = pw.const(0) if sq is None else pw.mon((1, 0), 1, {})
    p = it.new_obj(st, D.sz, 'arg', 'this'); D.wrm(it, st, p, x)
    if alias: out = p
    else: st.mem[p.obj].ro = True; out = it.new_obj(st, D.sz, 'arg', 'root')
    rs = it.call(st, fn(m, sig), [p, out]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    for s, r in rs:
        if isinstance(r, Cond): t = D.decide(it, s, r); r = r if t is None else int(t)
        if isinstance(r, Cond):
            q = r.key[1]
            if not isinstance(q, Mon): raise Violation('the answer for a %s depends on one coordinate' % cname, W)
            if len(q.s) > 1: raise AnalysisError('the answer depends on %r' % (q,))
            raise Violation('the answer for a %s depends on x^%#x%s' % (cname, q.e, ' * sums' if q.s else ''), W)
        want = int(sq is not False)
        if r & 1 != want: raise Violation('%s for a %s' % ('fails' if want else 'succeeds', cname), W)
        if want:
            c = D.rdm(it, s, out); e = pw.equal(pw.mul(c, c), x)
            if e != 1: raise Violation('the square of the result is not the argument for a %s' % cname, W)
def residue(rep, m, cname, pw, sq):
    sig = C1 + 'isQuadraticNonResidue() const'; W = where_fn(m, sig)
    if sq is None: return
    D = PowerDomain(pw); it = Interp(m, D); D.install(it); it.run_ctors(); st = it.gstate.clone()
    p = it.new_obj(st, 48, 'arg', 'this'); D.wrm(it, st, p, pw.mon((1, 0), 1, {})); st.mem[p.obj].ro = True
    rs = it.call(st, fn(m, sig), [p]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    for s, r in rs:
        if isinstance(r, Cond): raise Violation('the answer for a %s depends on the argument' % cname, W)
        if bool(r & 1) != (not sq): raise Violation('wrong answer for a %s' % cname, W)

# =============== inversion
SYM = ('u', 'v', 's', 'r')
class IntV(AV):
    """integer linear form over the symbols of the loop state"""
    __slots__ = ('d',)
    def __init__(self, d): self.d = {k: c for k, c in d.items() if c}
    def key(self): return frozenset(self.d.items())
    def __eq__(self, o): return isinstance(o, IntV) and self.d == o.d
    def __hash__(self): return hash(self.key())
    def __repr__(self): return 'int(%s)' % ' + '.join('%s*%s' % (c, k) for k, c in self.d.items())
    def __add__(self, o): return IntV({k: self.d.get(k, 0) + o.d.get(k, 0) for k in set(self.d) | set(o.d)})
    def __sub__(self, o): return self + o.scale(-1)
    def scale(self, c): return IntV({k: x * c for k, x in self.d.items()})
    def is_const(self): return not set(self.d) - {1}
    def c(self): return self.d.get(1, 0)
def sym(n): return IntV({n: Q(1)})
def num(c): return IntV({1: Q(c)})
class CmpV(AV):
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def __repr__(self): return 'ordering'

class InvDomain(Copyable, FieldDomain):
    def __init__(self):
        FieldDomain.__init__(self); self.A = Poly.var(V.fp('A')); self.n = 0; self.visited = {}; self.dropped = False; self.exits = set()
    def extract(self, it, v, vsize, off, size):
        return FieldDomain.extract(self, it, v, vsize, off, size) if isinstance(v, FE) else Copyable.extract(self, it, v, vsize, off, size)
    def join(self, it, parts, size): return FieldDomain.assemble(self, it, parts, size)
    def rdi(self, it, st, p):
        v = it.load_bytes(st, p, 48)
        if isinstance(v, int): return num(v)
        if v is UNDEF: raise Violation('reads an element that was never written', it.where())
        if isinstance(v, IntV): return v
        raise AnalysisError('integer operation on %r at %s' % (v, it.where()))
    def wri(self, it, st, p, v):
        self.prims += 1
        it.store_bytes(st, p, 48, int(v.c()) if v.is_const() and v.c().denominator == 1 and v.c() >= 0 else v)
    def rd(self, it, st, p):
        v = it.load_bytes(st, p, 48)
        if isinstance(v, IntV): return FE(self.field(it, st, v))
        return FieldDomain.rd(self, it, st, p)
    def field(self, it, st, v):
        """the field element whose stored words are the integer"""
        if set(v.d) <= {'a', 1}: return self.A.scale(int(v.d.get('a', 0))) + Poly.const(int(v.c()) * RINV)
        if set(v.d) - {'r', 1}: raise AnalysisError('field operation on a loop variable at ' + it.where())
        if not self.nonneg(st, v) or not self.nonneg(st, num(P) - v): raise Violation('an integer that may not be below the modulus is used as a field element', it.where())
        k = self.loop_count(st)
        # a r = -2^k, a = A R
        return self.inverse(self.A).scale(int(v.d.get('r', 0)) * -pow(2, k, P) * RINV * RINV) + Poly.const(int(v.c()) * RINV)
    def loop_count(self, st):
        n = st.facts.get('n')
        if n is None: raise AnalysisError('the inversion loop was not recognised')
        return n
    def nonneg(self, st, f):
        known = [num(0), sym('u') - num(1), sym('v'), sym('s'), sym('r'), sym('a') - num(1), num(P - 1) - sym('a'), num(2 * P - 1) - sym('r')] + [IntV(dict(k[1])) for k, t in st.facts.items() if isinstance(k, tuple) and k[0] == 'ge' and t] + [IntV(dict(k[1])).scale(-1) - num(1) for k, t in st.facts.items() if isinstance(k, tuple) and k[0] == 'ge' and not t]
        return any((f - g.scale(c)).is_const() and (f - g.scale(c)).c() >= 0 for g in known for c in (1, Q(1, 2), 2))
    def ge(self, st, f):
        """f >= 0 (integers) as a truth value"""
        if f.is_const(): return int(f.c() >= 0)
        if self.nonneg(st, f): return 1
        if self.nonneg(st, num(-1) - f): return 0
        return Cond(('ge', f.key()))
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, CmpV) and b == 0:
            f = a.f; st = it.cst
            if pred == 'sgt': return self.ge(st, f - num(1))
            if pred == 'sge': return self.ge(st, f)
            if pred == 'slt': return self.inv_(self.ge(st, f))
            if pred == 'sle': return self.inv_(self.ge(st, f - num(1)))
        return FieldDomain.icmp(self, it, pred, w, a, b)
    def inv_(self, c): return c.inv() if isinstance(c, Cond) else 1 - c
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, CmpV): return v
        return FieldDomain.cast(self, it, op, fw, tw, v)
    def parity(self, st, f):
        """0, 1 or None"""
        t = 0
        for k, c in f.d.items():
            if c.denominator != 1: return None
            if k == 1: t += int(c); continue
            if c % 2 == 0: continue
            p = st.facts.get(('even', frozenset({(k, Q(1))})))
            if p is None: return None
            t += 0 if p else 1
        return t & 1
    def install(self, it):
        self.install_fp(it); H = it.handlers; D = self
        def iz(it, st, a):
            v = it.load_bytes(st, a[0], 48)
            if isinstance(v, int): return int(v == 0)
            if isinstance(v, FE): return D.zero_cond(it, st, v.poly)
            f = D.rdi(it, st, a[0])
            if D.nonneg(st, f - num(1)): return 0
            t = st.facts.get(('ge', (f - num(1)).key()))
            return Cond(('ge', (f - num(1)).key()), True) if t is None else int(not t)
        H[C1 + 'isZero() const'] = iz
        def even(it, st, a):
            f = D.rdi(it, st, a[0]); p = D.parity(st, f)
            return Cond(('even', f.key())) if p is None else 1 - p
        H[C1 + 'isEven() const'] = even
        H[C1 + 'isOdd() const'] = lambda it, st, a: D.inv_(even(it, st, a))
        H[C1 + 'cmp(bls12_381::fp const&) const'] = lambda it, st, a: CmpV(D.rdi(it, st, a[0]) - D.rdi(it, st, a[1]))
        def div2(it, st, a):
            f = D.rdi(it, st, a[0]); e = it.load_bytes(st, a[1], 8)
            if e != 0: raise AnalysisError('carry into a halving')
            if D.parity(st, f) != 0: raise Violation('halves an integer that may be odd', it.where())
            D.wri(it, st, a[0], f.scale(Q(1, 2)))
        H[C1 + 'div2(unsigned long const&)'] = div2
        def mul2(it, st, a):
            f = D.rdi(it, st, a[0]); D.small(it, f); D.wri(it, st, a[0], f.scale(2)); return 0
        H[C1 + 'mul2()'] = mul2
        def lsub(it, st, a):
            f = D.rdi(it, st, a[1]) - D.rdi(it, st, a[2])
            if not D.nonneg(st, f): raise Violation('subtracts a larger integer from a smaller one', it.where())
            D.wri(it, st, a[0], f)
        H[sig3('_lsubtract')] = lsub
        def ladd(it, st, a):
            f = D.rdi(it, st, a[1]) + D.rdi(it, st, a[2]); D.small(it, f.scale(Q(1, 2))); D.wri(it, st, a[0], f)
        H[sig3('_ladd')] = ladd
        H[sig2('_ldouble')] = lambda it, st, a: (D.small(it, D.rdi(it, st, a[1])), D.wri(it, st, a[0], D.rdi(it, st, a[1]).scale(2)))[1]
    def small(self, it, f):
        """twice the integer stays below 2^384: s + r <= p while the loop runs"""
        if f.is_const() and 0 <= f.c() < 1 << 383: return
        if set(f.d) <= {'s', 'r', 1} and all(0 <= f.d.get(k, 0) <= 1 for k in ('s', 'r')) and 0 <= f.c() < P: return
        raise AnalysisError('an unreduced sum may wrap around at ' + it.where())
    # ---- loop
    def hook(self, it, st, env, prev):
        ob = [(i, o) for i, o in st.mem.items() if o.kind == 'stack' and o.size == 48]
        val = {i: (o.cells[0][1] if 0 in o.cells and o.cells[0][0] == 48 else o) for i, o in ob}
        for i, o in ob:
            if not o.cells: val[i] = None
        roles = st.facts.get('roles')
        if roles is None:
            want = {'u': lambda v: v == P and isinstance(v, int), 'v': lambda v: v == sym('a'), 's': lambda v: isinstance(v, int) and v == 1, 'r': lambda v: isinstance(v, int) and v == 0}
            roles = {}
            for k, t in want.items():
                c = [i for i, o in ob if t(self.whole(it, st, i))]
                if len(c) > 1: c = [i for i in c if st.mem[i].name.rsplit(':', 1)[-1] in self.used]
                if len(c) != 1: raise AnalysisError('the state of the inversion loop was not recognised (%s: %d candidates)' % (k, len(c)))
                roles[k] = c[0]
            st.facts['roles'] = roles; n = 0
        else:
            n = st.facts['n'] + 1; f = {}
            for k in SYM:
                v = self.whole(it, st, roles[k])
                f[k] = v if isinstance(v, IntV) else num(v) if isinstance(v, int) else None
                if f[k] is None: raise AnalysisError('loop variable holds %r' % (v,))
            self.preserved(it, st, f)
        # generic state: p = u s + v r, a r = -2^n u, a s = 2^n v
        for k in SYM: it.store_bytes(st, Ptr(roles[k], 0), 48, sym(k))
        for k in [k for k in st.facts if k not in ('n', 'roles')]: del st.facts[k]
        st.facts['n'] = n
        if n < 381: st.facts[('ge', (sym('v') - num(1)).key())] = True     # s <= 2^n < p
        if n > 762: st.facts[('ge', (sym('v') - num(1)).key())] = False    # u v <= p^2 / 2^n < 1
        key = (n, tuple(sorted((k, v) for k, v in env.items() if isinstance(v, int) and not k.startswith('__') and k in self.phis)),
               tuple(sorted((i, tuple(sorted((o, c[1]) for o, c in x.cells.items() if isinstance(c[1], int)))) for i, x in st.mem.items() if x.kind == 'stack' and x.size <= 16 and x.name.rsplit(':', 1)[-1] not in self.scratch)))
        seen = self.visited.setdefault(n, set())
        if key in seen: return False
        if len(seen) >= 3: self.dropped = True; return False
        seen.add(key)
        return True
    def whole(self, it, st, i):
        try: return it.load_bytes(st, Ptr(i, 0), 48)
        except (AnalysisError, Violation): return None
    def preserved(self, it, st, f):
        w = it.where()
        def bil(x, y):
            r = {}
            for a, c in x.d.items():
                for b, e in y.d.items(): k = tuple(sorted((str(a), str(b)))); r[k] = r.get(k, 0) + c * e
            return r
        a, b = bil(f['u'], f['s']), bil(f['v'], f['r'])
        t = {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}; t = {k: c for k, c in t.items() if c}
        if t != {('s', 'u'): 1, ('r', 'v'): 1}: raise Violation('an iteration does not preserve p = u s + v r', w)
        img = lambda x: sym('v').scale(x.d.get('s', 0)) - sym('u').scale(x.d.get('r', 0))   # a x / 2^n
        for k in ('s', 'r'):
            if set(f[k].d) - {'s', 'r'} or any(c.denominator != 1 or c < 0 for c in f[k].d.values()): raise Violation('an iteration does not keep the coefficients integral', w)
        if img(f['r']) + f['u'].scale(2) != IntV({}) or img(f['s']) - f['v'].scale(2) != IntV({}): raise Violation('an iteration does not preserve the congruences of the inverse', w)
        if not self.nonneg(st, f['u'] - num(1)) and not self.pos_half(st, f['u']): raise Violation('an iteration may make the first remainder zero', w)
        if not self.nonneg(st, f['v']) : raise Violation('an iteration may make the second remainder negative', w)
        if any(sum(f[k].d.values()) > 2 for k in ('s', 'r')): raise AnalysisError('growth of the coefficients')   # both stay at most 2^n
        le = lambda x, y: all(c >= 0 for c in (y - x).d.values())
        u, v = sym('u'), sym('v')
        if not ((le(f['u'].scale(2), u) and le(f['v'], v)) or (le(f['v'].scale(2), v) and le(f['u'], u))): raise Violation('an iteration does not halve the product of the remainders', w)
    def pos_half(self, st, f):
        """half of a positive even number is positive"""
        g = f.scale(2); return self.nonneg(st, g - num(1))

def names(x):
    if isinstance(x, str): yield x
    elif isinstance(x, (tuple, list)):
        for y in x: yield from names(y)
    elif isinstance(x, dict):
        for y in x.values(): yield from names(y)
def scratch(f, body):
    """local variables used only inside single blocks of the loop that write them first: dead at the loop head"""
    loc = {i.res for b in f.order for i in f.blocks[b] if i.op == 'alloca'}; live = set()
    for b in f.order:
        wrote = set()
        for i in f.blocks[b]:
            if i.op == 'alloca': continue
            if i.op == 'store' and b in body:
                p = set(names(i.a[1])) & loc; live |= set(names(i.a[0])) & loc
                wrote |= p; continue
            u = set(names(i.a)) & loc
            live |= u - wrote if b in body else u
    return loc - live
def inversion(rep, m, zero, value=True):
    sig = C1 + 'inverse() const'; W = where_fn(m, sig)
    D = InvDomain(); it = Interp(m, D, max_steps=2_000_000_000); it.max_forks = 10 ** 6; D.install(it); it.handlers.pop(sig, None); it.run_ctors()
    st = it.gstate.clone(); p = it.new_obj(st, 48, 'arg', 'this'); out = it.new_obj(st, 48, 'arg', 'result')
    it.store_bytes(st, p, 48, 0 if zero else sym('a')); st.mem[p.obj].ro = True
    f = m.functions[fn(m, sig)]; L = loops(f); D.phis = set(); D.used = set(); D.scratch = set()
    outer = [h for h in L if not any(h in b and g != h for g, b in L.items())]
    for h in outer:
        it.block_hooks[(f.name, h)] = D.hook
        D.scratch |= scratch(f, L[h])
        D.used |= {n for b in L[h] for i in f.blocks[b] for n in names(i.a)}
        D.phis |= {i.res for i in f.blocks[h] if i.op == 'phi'}
    rs = it.call(st, f.name, [out, p]); rep.absorb(it); rep.count('loop_iterations', len(D.visited))
    if not rs: raise Violation('no path returns', W)
    for s, _ in rs:
        r = D.rd(it, s, out).poly
        if not value: continue
        if zero:
            if r != ZERO: raise Violation('the inverse of zero is not zero', W)
        elif r != D.inverse(D.A):
            n = s.facts.get('n')
            raise Violation('the result is not the inverse%s' % (' when the loop ends after %d iterations' % n if n else ''), W)
    if D.dropped: raise AnalysisError('the iterations of the loop leave too many different counters')

def run_A03(rep):
    m = scale.load()
    rep.explanation = 'predicates by word-level interpretation; square roots and residue tests over monomials in the multiplicative group (one case per class of arguments); inversion by checking that every loop path preserves the invariants of the binary algorithm, for every possible iteration count; exponentiation over linear forms in the exponent bits'
    rep.assumptions += ['base-field primitives are exact (A01), extension-field operations are exact (B01)', 'p is prime and congruent to 3 modulo 4']
    jobs = [lambda r: word_preds(r, build.load()), lambda r: bitwise(r, m), lambda r: parities(r, m)]
    for dim in (1, 2):
        cls = 'fp' if dim == 1 else 'fp2'
        for cname, pw, sq in power_cases(dim):
            for al in (False, True):
                jobs.append(lambda r, dim=dim, cname=cname, pw=pw, sq=sq, al=al, cls=cls: r.run('%s::sqrt of a %s%s' % (cls, cname, ' (result is the argument)' if al else ''), lambda: root(r, m, dim, cname, pw, sq, al), where_fn(m, 'bls12_381::%s::sqrt(bls12_381::%s&) const' % (cls, cls))))
            if dim == 1 and sq is not None: jobs.append(lambda r, cname=cname, pw=pw, sq=sq: r.run('fp::isQuadraticNonResidue of a %s' % cname, lambda: residue(r, m, cname, pw, sq), where_fn(m, C1 + 'isQuadraticNonResidue() const')))
    for z in (False, True): jobs.append(lambda r, z=z: r.run('fp::inverse of %s' % ('zero' if z else 'a non-zero element'), lambda: inversion(r, m, z), where_fn(m, C1 + 'inverse() const')))
    for cls in ('fp', 'fp2'): jobs += scale.loop_jobs(rep, m, cls, 'exp', cls)
    rep.parallel(jobs)
