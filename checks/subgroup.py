"""C03: curve and subgroup membership, cofactor clearing.

The rational points of either curve form a cyclic module over the Eisenstein integers Z[w]
(the endomorphism ring): E(F_q) = Z[w]/(pi - 1).  The subgroup test evaluated by the code is an
element f of Z[w] applied to the point; it accepts exactly ker f, so the test is exact iff
gcd(f, pi - 1) is the prime above the group order.  f is obtained by interpreting the code with
coordinates tracked up to constant factors and conjugation."""
from engine.util import *
from engine import build
from engine.group import *
from engine.field import Cond
from engine.proto import R as ORDER
from checks.curve import setup, Group
from checks.constants import f2mul, f2inv, EC, G1X, G1Y
from checks.tower import fp2pow
import checks.scale as scale
import re
X = -0xd201000000010000
# ---- Eisenstein integers (a, b) = a + b w
def zmul(x, y): a, b = x; c, d = y; return (a * c - b * d, a * d + b * c - b * d)
def zsub(x, y): return (x[0] - y[0], x[1] - y[1])
def znorm(x): return x[0] * x[0] - x[0] * x[1] + x[1] * x[1]
def zconj(x): return (x[0] - x[1], -x[1])
def zdivmod(x, y):
    n = znorm(y); q = zmul(x, zconj(y))
    r = tuple((2 * c + n) // (2 * n) for c in q)
    return r, zsub(x, zmul(r, y))
def zgcd(x, y):
    while y != (0, 0): x, y = y, zdivmod(x, y)[1]
    return x
def zdivides(d, x): return zdivmod(x, d)[1] == (0, 0)
UNITS = [(1, 0), (0, 1), (-1, -1), (-1, 0), (0, -1), (1, 1)]
def isqrt(n):
    import math
    r = math.isqrt(n)
    if r * r != n: raise AnalysisError('internal: not a square')
    return r
T = X + 1                                    # trace of Frobenius on E
_s = isqrt((4 * P - T * T) // 3)
PI = ((T + _s) // 2, _s)                     # norm P, trace T
BETA = None
LAMBDA = (X * X - 1) % ORDER
H1 = (X - 1) ** 2 // 3
H2 = (X ** 8 - 4 * X ** 7 + 5 * X ** 6 - 4 * X ** 4 + 6 * X ** 3 - 4 * X ** 2 - 4 * X + 13) // 9

class Curve:
    """module structure of one of the two curves"""
    def __init__(self, g):
        self.g = g
        if g == 'g1':
            self.h = H1
            # choose the embedding in which w is the endomorphism (x, y) -> (beta x, y), beta acting as LAMBDA on the subgroup
            for pi in (PI, zconj(PI)):
                rho = zgcd((ORDER, 0), zsub(pi, (1, 0)))
                if znorm(rho) == ORDER and zdivides(rho, zsub((0, 1), (LAMBDA, 0))): self.m = zsub(pi, (1, 0)); self.rho = rho; break
            else: raise AnalysisError('internal: no embedding')
            self.psi = None
        else:
            self.h = H2
            c = [zsub(zmul(u, zmul(PI, PI)), (1, 0)) for u in UNITS]
            c = [m for m in c if znorm(m) == H2 * ORDER]
            if len(c) != 1: raise AnalysisError('internal: twist')
            self.m = c[0]; self.rho = zgcd((ORDER, 0), self.m); self.psi = PI
            # psi o psi is (x, y) -> (N(a) x, N(b) y) on rational points and equals the inverse of the unit u
            u = next(u for u in UNITS if zsub(zmul(u, zmul(PI, PI)), (1, 0)) == self.m)
            iu = next(v for v in UNITS if zmul(u, v) == (1, 0))
            na = f2mul(PSIX, (PSIX[0], -PSIX[1] % P)); nb = f2mul(PSIY, (PSIY[0], -PSIY[1] % P))
            self.units = {}; k, a, b = (1, 0), (1, 0), (1, 0)
            for _ in range(6):
                self.units[a, b] = k; k = zmul(k, iu); a = f2mul(a, na); b = f2mul(b, nb)
            if len(self.units) != 6 or set(self.units.values()) != set(UNITS): raise AnalysisError('internal: units')
        assert znorm(self.m) == self.h * ORDER and znorm(self.rho) == ORDER
    def gcd(self, f): return zgcd(self.m, f)

def beta():
    """cube root of unity acting as LAMBDA on the prime-order subgroup of E"""
    global BETA
    if BETA is None:
        G = ((G1X, 0), (G1Y, 0)); Q = EC.mul(LAMBDA, G)
        BETA = Q[0][0] * pow(G1X, -1, P) % P
        if pow(BETA, 3, P) != 1 or BETA == 1 or Q[1] != G[1]: raise AnalysisError('internal: beta')
    return BETA
_ui = f2inv((1, 1))
PSIX = fp2pow(_ui, (P - 1) // 3); PSIY = fp2pow(_ui, (P - 1) // 2)

class Coord(AV):
    """constant * coordinate i of an element (conjugated when cj)"""
    __slots__ = ('e', 'i', 'cj', 'k')
    def __init__(self, e, i, cj, k): self.e = e; self.i = i; self.cj = cj; self.k = k
    def __eq__(self, o): return isinstance(o, Coord) and (self.i, self.cj, self.k) == (o.i, o.cj, o.k) and self.e == o.e
    def __hash__(self): return hash((self.e, self.i, self.cj, self.k))
    def __repr__(self): return 'coordinate %d%s of %r' % (self.i, ' (conjugated)' if self.cj else '', self.e)
class Part(AV):
    """bytes of a coordinate"""
    __slots__ = ('c', 'off', 'n')
    def __init__(self, c, off, n): self.c = c; self.off = off; self.n = n
    def __eq__(self, o): return isinstance(o, Part) and (self.off, self.n) == (o.off, o.n) and self.c == o.c
    def __hash__(self): return hash((self.c, self.off, self.n))
    def __repr__(self): return 'part of %r' % self.c

class EndoDomain(GroupDomain):
    def __init__(self, g):
        GroupDomain.__init__(self)
        self.g = g; self.dim = 1 if g == 'g1' else 2; self.csz = 48 * self.dim; self.cv = Curve(g); self.fork_zero = True
    # ---- field constants
    def const(self, v):
        ri = pow(1 << 384, -1, P)
        c = [(v >> (384 * i) & (1 << 384) - 1) for i in range(self.dim)]
        if any(x >= P for x in c): raise AnalysisError('unreduced constant')
        return tuple(x * ri % P for x in c) + (0,) * (2 - self.dim)
    def enc(self, k):
        return sum((k[i] * (1 << 384) % P) << (384 * i) for i in range(self.dim))
    def rdc(self, it, st, p):
        """coordinate or constant"""
        v = it.load_bytes(st, p, self.csz)
        if v is UNDEF: raise Violation('use of an uninitialised coordinate', it.where())
        if isinstance(v, int): return self.const(v)
        return self.as_coord(it, v)
    def as_coord(self, it, v):
        if isinstance(v, Coord): return v
        if isinstance(v, Slice) and v.n == self.csz and v.off % self.csz == 0: return Coord(v.e, v.off // self.csz, False, (1, 0))
        raise AnalysisError('unrecognised coordinate %r at %s' % (v, it.where()))
    def wrc(self, it, st, p, c):
        self.ops += 1
        if isinstance(c, tuple): it.store_bytes(st, p, self.csz, self.enc(c))
        else: it.store_bytes(st, p, self.csz, c)
    def cmul(self, it, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple): return f2mul(a, b)
        if isinstance(a, tuple): a, b = b, a
        if not isinstance(b, tuple): raise AnalysisError('product of two coordinates at ' + it.where())
        return Coord(a.e, a.i, a.cj, f2mul(a.k, b))
    def cconj(self, a):
        if isinstance(a, tuple): return (a[0], -a[1] % P)
        return Coord(a.e, a.i, not a.cj, (a.k[0], -a.k[1] % P))
    def cneg(self, a):
        if isinstance(a, tuple): return tuple(-x % P for x in a)
        return Coord(a.e, a.i, a.cj, tuple(-x % P for x in a.k))
    # ---- memory
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, Coord): return v if size == self.csz and off == 0 else Part(v, off, size)
        if isinstance(v, Part): return Part(v.c, v.off + off, size)
        return GroupDomain.extract(self, it, v, vsize, off, size)
    def assemble(self, it, parts, size):
        out = []
        for n, v in parts:
            if out and isinstance(v, Part) and isinstance(out[-1][1], Part) and out[-1][1].c == v.c and out[-1][1].off + out[-1][1].n == v.off:
                q = Part(v.c, out[-1][1].off, out[-1][1].n + n)
                out[-1] = (out[-1][0] + n, v.c if q.off == 0 and q.n == self.csz else q); continue
            if out and isinstance(v, Slice) and isinstance(out[-1][1], Slice) and out[-1][1].e == v.e and out[-1][1].off + out[-1][1].n == v.off:
                out[-1] = (out[-1][0] + n, mkslice(v.e, out[-1][1].off, out[-1][1].n + n)); continue
            out.append((n, v))
        if len(out) == 1: return out[0][1]
        if any(isinstance(v, (Coord, Part)) for _, v in out): return self.mixed(it, out, size)
        return GroupDomain.assemble(self, it, out, size)
    def mixed(self, it, parts, size):
        # split into coordinates
        cs = []; c = self.csz
        flat = []
        for n, v in parts:
            if isinstance(v, int):
                for k in range(n): flat.append((1, v >> (8 * k) & 255))
            else: flat.append((n, v))
        i = 0
        while i < len(flat):
            n, v = flat[i]
            if isinstance(v, (Slice, L)) and n % c == 0:
                for k in range(n // c): cs.append(self.as_coord(it, mkslice(v, c * k, c)))
                i += 1; continue
            if isinstance(v, Coord): cs.append(v); i += 1; continue
            if n == 1 and isinstance(v, int):
                w = flat[i:i + c]
                if len(w) == c and all(isinstance(x, int) and m == 1 for m, x in w):
                    cs.append(self.const(int.from_bytes(bytes(x for _, x in w), 'little'))); i += c; continue
            raise AnalysisError('mixture of coordinates (%s) at %s' % (', '.join('%d bytes of %r' % p for p in parts[:6]), it.where()))
        if len(cs) != 3 or size != GSIZE[self.g]: raise AnalysisError('mixture of coordinates (%r) at %s' % (cs, it.where()))
        if all(isinstance(x, tuple) for x in cs): raise AnalysisError('unrecognised point')
        if not all(isinstance(x, Coord) and x.i == j and x.e == cs[0].e and x.cj == cs[0].cj for j, x in enumerate(cs)):
            raise Violation('coordinates of different points are combined', it.where())
        e = cs[0].e
        zi = f2inv(cs[2].k); z2 = f2mul(zi, zi)
        a = f2mul(cs[0].k, z2); b = f2mul(cs[1].k, f2mul(z2, zi))
        return self.endo(it, e, cs[0].cj, a, b)
    def endo(self, it, e, cj, a, b):
        """(x, y) -> (a x, b y), conjugated or not"""
        if self.g == 'g1':
            s = {(1, 0): 1, (P - 1, 0): -1}.get(b); be = beta()
            for i, u in enumerate(((1, 0), (0, 1), (-1, -1))):
                if s and a == (pow(be, i, P), 0): return self.act(e, (s * u[0], s * u[1]))
        else:
            k = (1, 0)
            if cj:   # after psi
                k = self.cv.psi; a = f2mul(a, f2inv(PSIX)); b = f2mul(b, f2inv(PSIY))
            u = self.cv.units.get((a, b))
            if u: return self.act(e, zmul(u, k))
        raise Violation('the coordinates are scaled by constants that do not give an endomorphism of the curve', it.where())
    def act(self, e, u):
        """multiply by a Eisenstein integer; generators P and wP"""
        z = self.coef(e); r = zmul(z, u)
        return self.elem(r)
    def coef(self, e):
        for g in e.t:
            if g not in ('P', 'wP') or set(e.t[g]) - {ONE_}: raise AnalysisError('unexpected generator')
        return (e.t.get('P', {}).get(ONE_, 0), e.t.get('wP', {}).get(ONE_, 0))
    def elem(self, z):
        t = {}
        if z[0]: t['P'] = {ONE_: z[0]}
        if z[1]: t['wP'] = {ONE_: z[1]}
        return L(self.g, t)
    # ---- decisions
    def zero(self, e):
        if not e.t: return 1
        # a multiple of the point that cannot vanish unless the point does
        z = self.coef(e)
        if znorm(self.cv.gcd(z)) == 1: return 0 if self.nonid else 1
        return Zero(e)
    def install(self, it):
        self.install_curve(it)
        R = lambda it, st, p: self.rdc(it, st, p)
        H = it.handlers; F = 'bls12_381::fp%s' % ('' if self.dim == 1 else '2')
        D = self
        def bin_(it, st, a): D.wrc(it, st, a[0], D.cmul(it, R(it, st, a[1]), R(it, st, a[2])))
        def bina(it, st, a): D.wrc(it, st, a[0], D.cmul(it, R(it, st, a[0]), R(it, st, a[1])))
        H['%s::multiply(%s const&) const' % (F, F)] = bin_
        H['%s::multiplyAssign(%s const&)' % (F, F)] = bina
        H['%s::negate() const' % F] = lambda it, st, a: D.wrc(it, st, a[0], D.cneg(R(it, st, a[1])))
        if self.dim == 1:
            H['bls12_381::_multiply(bls12_381::fp*, bls12_381::fp const*, bls12_381::fp const*)'] = bin_
            H['bls12_381::_negate(bls12_381::fp*, bls12_381::fp const*)'] = lambda it, st, a: D.wrc(it, st, a[0], D.cneg(R(it, st, a[1])))
        else:
            H['%s::conjugate() const' % F] = lambda it, st, a: D.wrc(it, st, a[0], D.cconj(R(it, st, a[1])))
            def fr(it, st, a, src):
                k = it.load_bytes(st, a[-1], 8)
                if not isinstance(k, int): raise AnalysisError('Frobenius power %r' % (k,))
                c = R(it, st, src); D.wrc(it, st, a[0], D.cconj(c) if k & 1 else c)
            H['%s::frobeniusMap(unsigned long const&) const' % F] = lambda it, st, a: fr(it, st, a, a[1])
            H['%s::frobeniusMapAssign(unsigned long const&)' % F] = lambda it, st, a: fr(it, st, a, a[0])
        it.prefix_handlers.append((lambda d: re.match(r'^bls12_381::%s::affine\(' % self.g, d) is not None, lambda it, st, a: self.wr(it, st, a[0], self.rd(it, st, a[1], self.g))))

def run_paths(m, g, sig, nonid, ret=None):
    D = EndoDomain(g); D.nonid = nonid
    it = Interp(m, D); D.install(it); it.run_ctors()
    st = it.gstate.clone()
    p = scale.elem(it, st, D.elem((1, 0)) if nonid else L(g, {}), 'point')
    f = fn(m, sig)
    if ret is None: rs = it.call(st, f, [p])
    else:
        out = it.new_obj(st, GSIZE[g], 'arg', 'result'); rs = it.call(st, f, [out, p] + ret)
        rs = [(s, D.rd(it, s, out, g)) for s, _ in rs]
    if not rs: raise Violation('no path returns', where_fn(m, sig))
    return D, it, rs

def subgroup_test(rep, m, g):
    sig = 'bls12_381::%s::inCorrectSubgroup() const' % g; W = where_fn(m, sig)
    D, it, rs = run_paths(m, g, sig, False); rep.absorb(it)
    for s, r in rs:
        if isinstance(r, Zero): r = D.decide(it, s, r)
        if r not in (1, True): raise Violation('the identity is not accepted', W)
    D, it, rs = run_paths(m, g, sig, True); rep.absorb(it)
    cv = D.cv; got = []
    for s, r in rs:
        pos = [k[1] for k, v in s.facts.items() if k[0] == 'zero' and v]
        if isinstance(r, Zero):
            if r.neg: raise Violation('points are accepted because a multiple of them is not the identity', W)
            pos.append(r.e)
        elif isinstance(r, int):
            if not r: continue
        else: raise AnalysisError('unrecognised result %r' % (r,))
        k = cv.m
        for e in pos: k = zgcd(k, D.coef(e))
        got.append(znorm(k))
    if not got: raise Violation('no point other than the identity is accepted', W)
    for n in got:
        if n % ORDER: 
            if n != 1: raise Violation('accepts a subgroup of order %d, which is not the prime-order subgroup' % n, W)
        elif n != ORDER: raise Violation('accepts a subgroup of order %d times the group order: points outside the prime-order subgroup pass the test' % (n // ORDER), W)
    if ORDER not in got: raise Violation('points of the prime-order subgroup are rejected (the accepted subgroup has order %d)' % max(got), W)

def clear(rep, m, g):
    sig = 'bls12_381::%s::clearCofactor() const' % g; W = where_fn(m, sig)
    for nonid in (False, True):
        D, it, rs = run_paths(m, g, sig, nonid, []); rep.absorb(it)
        for s, e in rs:
            cond = [k for k, v in s.facts.items() if k[0] == 'zero']
            if not nonid:
                if D.coef(e) != (0, 0): raise Violation('the identity is mapped to another point', W)
                continue
            cv = D.cv; z = D.coef(e)
            if cond: raise AnalysisError('cofactor clearing distinguishes cases: %r' % cond)
            # image in the kernel of rho: rho * z divisible by m
            if not zdivides(cv.m, zmul(z, cv.rho)): raise Violation('the result is not always in the prime-order subgroup', W)
            heff = 1 - X if g == 'g1' else 3 * (X * X - 1) * H2
            if not zdivides(cv.m, zsub(z, (heff, 0))): raise Violation('the result is not the multiple by the effective cofactor of the standard', W)

def endomorphism(rep, m, g, name, want, extra=()):
    """a map applied to any point is the given element of the endomorphism ring"""
    sig = 'bls12_381::%s::%s' % (g, name)
    W = where_fn(m, sig)
    for nonid in (True, False):
        D, it, rs = run_paths(m, g, sig, nonid, list(extra)); rep.absorb(it)
        w = want(D.cv)
        for s, e in rs:
            z = D.coef(e)
            if not zdivides(D.cv.m, zsub(z, w)) if nonid else z != (0, 0): raise Violation('%s is not the expected endomorphism' % name, W)

def on_curve(rep, m, gname):
    g = Group(gname); sig = g.cls + 'isOnCurve() const'; W = where_fn(m, sig)
    def case(what, pt, want, e=None, free=()):
        it, D = setup(m, g)
        if e is not None:
            b = g.var('b'); A = Poly.var(g.var('a'))
            old = D.reduce
            q = A * A * A + g.B + e
            def red(poly):
                while any(mm.count(b) >= 2 for mm in poly.d):
                    acc = {}; add = ZERO
                    for mm, c in poly.d.items():
                        if mm.count(b) >= 2:
                            l = list(mm); l.remove(b); l.remove(b); add = add + Poly({tuple(l): c}) * q
                        else: acc[mm] = c
                    poly = Poly(acc) + add
                return poly
            D.reduce = red; D.nonzero -= {b, V.conj[b]}
            ev = g.var('e'); D.nonzero |= {ev, V.conj[ev]}
        Ar = Arena(it); st = Ar.st; p = Ar.buf(g.size, 'point'); g.wr(it, D, st, p, pt); Ar.const_arg(p)
        rs = it.call(st, fn(m, sig), [p]); rep.absorb(it)
        if not rs: raise Violation('no path returns', W)
        for s, r in rs:
            if isinstance(r, Cond):
                t = D.decide(it, s, r)
                if t is None: raise Violation('%s: the result depends on %r' % (what, r), W)
                r = int(t)
            if r != want: raise Violation('%s %s' % (what, 'is rejected' if want else 'is accepted'), W)
    A, b, Z = g.V('a'), g.V('b'), g.V('Z1'); e = g.V('e')
    case('a point of the curve', (A * Z * Z, b * Z * Z * Z, Z), 1)
    case('an affine point of the curve', (A, b, ONE), 1)
    case('the identity', (g.V('ox1'), g.V('oy1'), ZERO), 1)
    case('a triple off the curve', (A * Z * Z, b * Z * Z * Z, Z), 0, e)
    case('an affine pair off the curve', (A, b, ONE), 0, e)

def run_C03(rep):
    m = build.load()
    rep.explanation = 'the on-curve test is compared with the curve equation over polynomials; subgroup tests and cofactor clearing are evaluated to an element of the endomorphism ring Z[w] and decided by exact ideal arithmetic in Z[w]/(pi-1), which is the group of rational points'
    rep.assumptions += ['point operations are exact (C01); scalar multiplication is interpreted on the constants used',
                        'E(F_q) is isomorphic to End/(pi-1) as a module (Lenstra), End = Z[w] for these curves']
    for g in ('g1', 'g2'):
        rep.run('%s::isOnCurve' % g, lambda g=g: on_curve(rep, m, g), where_fn(m, 'bls12_381::%s::isOnCurve() const' % g))
        rep.run('%s::inCorrectSubgroup' % g, lambda g=g: subgroup_test(rep, m, g), where_fn(m, 'bls12_381::%s::inCorrectSubgroup() const' % g))
        rep.run('%s::clearCofactor' % g, lambda g=g: clear(rep, m, g), where_fn(m, 'bls12_381::%s::clearCofactor() const' % g))
    rep.run('g1::glvEndomorphism', lambda: endomorphism(rep, m, 'g1', 'glvEndomorphism() const', lambda cv: (0, 1)), where_fn(m, 'bls12_381::g1::glvEndomorphism() const'))
    rep.run('g2::psi', lambda: endomorphism(rep, m, 'g2', 'psi() const', lambda cv: cv.psi), where_fn(m, 'bls12_381::g2::psi() const'))
    for k in range(0, 4):
        def frob(k=k):
            z = (1, 0)
            for _ in range(k): z = zmul(z, PI)
            endomorphism(rep, m, 'g2', 'frobeniusMap(long) const', lambda cv: z, (k,))
        rep.run('g2::frobeniusMap(%d)' % k, frob, where_fn(m, 'bls12_381::g2::frobeniusMap(long) const'))
