"""E01: the pairing.  Line steps as polynomial identities, the Miller loop as a formal product of line values
with exponents, the final exponentiation as an exponent modulo p^12 - 1."""
from engine.util import *
from engine import build
from engine.field import Poly, FE, Cond, V, ZERO, ONE, U, P, Q, XABS
from checks.fieldops import Copyable, Piece
from checks.curve import CurveDomain
import checks.scale as scale
import re
PN = 'bls12_381::pairing::'
STEP_D = PN + 'doubling_step(std::array<bls12_381::fp2, 3ul>&, bls12_381::g2&)'
STEP_A = PN + 'addition_step(std::array<bls12_381::fp2, 3ul>&, bls12_381::g2&, bls12_381::g2 const&)'
FINAL = PN + 'final_exponentiation(bls12_381::fp12&)'
MILLER = PN + 'miller_loop('; CALC = PN + 'calculate('; ADD = PN + 'add_pair('
PRE = PN + 'pre_compute('
B2 = Poly.const(4) + U.scale(4)

# =============== line functions
def rd2(it, D, st, p, off): return D.rd2(it, st, Ptr(p.obj, p.off + off))
def base(m):
    D = CurveDomain(); it = Interp(m, D); it.run_ctors(); D.install_fp(it); D.install_fp2(it)
    return D, it, it.gstate.clone()
def monomial(p, vs):
    """a non-zero constant times a product of the given variables"""
    return len(p.d) == 1 and all(v in vs for m in p.d for v in m)
def modulo(p, v, deg, rhs):
    """replace v^deg by rhs until the degree is smaller"""
    while any(m.count(v) >= deg for m in p.d):
        acc = {}; add = ZERO
        for m, c in p.d.items():
            if m.count(v) >= deg:
                l = list(m)
                for _ in range(deg): l.remove(v)
                add = add + Poly({tuple(l): c}) * rhs
            else: acc[m] = c
        p = Poly(acc) + add
    return p
def no_conj(ps):
    for p in ps:
        for v in p.vars():
            if V.names[v].endswith("'"): raise AnalysisError('a line coefficient contains a conjugate')
def write2(it, D, st, p, xs):
    for i, x in enumerate(xs): D.wr2(it, st, Ptr(p.obj, p.off + 96 * i), x)
def doubling(rep, m):
    W = where_fn(m, STEP_D); D, it, st = base(m)
    x, y, z = [V.fp2('R' + c) for c in 'xyz']; X, Y, Z = map(Poly.var, (x, y, z))
    co = it.new_obj(st, 288, 'arg', 'coefficients'); r = it.new_obj(st, 288, 'arg', 'point'); write2(it, D, st, r, (X, Y, Z))
    rs = it.call(st, fn(m, STEP_D), [co, r]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    red = lambda p: modulo(p, x, 3, Y * Y * Z - B2 * Z * Z * Z)
    for s, _ in rs:
        c = [rd2(it, D, s, co, 96 * i) for i in range(3)]; n = [rd2(it, D, s, r, 96 * i) for i in range(3)]
        no_conj(c + n)
        # slope 3x^2 / 2y with x = X/Z, y = Y/Z: numerator L over denominator M
        L = X * X.scale(3); M = (Y * Z).scale(2)
        if red(c[2]) == ZERO: raise Violation('the tangent has no ordinate coefficient', W)
        if not monomial(c[2], (y, z)): raise AnalysisError('the scale of the tangent line is not a product of coordinates')
        if red(c[1] * M + c[2] * L) != ZERO: raise Violation('the coefficient of the abscissa is not minus the slope of the tangent', W)
        if red(c[0] * M * Z - c[2] * (L * X - M * Y)) != ZERO: raise Violation('the constant coefficient is not that of the tangent line', W)
        # 2R: x' = (L/M)^2 - 2x, y' = (L/M)(x - x') - y
        if not monomial(n[2], (y, z)): raise AnalysisError('the denominator of the doubled point is not a product of coordinates')
        x2n, x2d = L * L * Z - (X * M * M).scale(2), M * M * Z
        if red(n[0] * x2d - n[2] * x2n) != ZERO: raise Violation('the abscissa is not that of the doubled point', W)
        y2n, y2d = L * (X * x2d - x2n * Z) - Y * M * x2d, M * Z * x2d
        if red(n[1] * y2d - n[2] * y2n) != ZERO: raise Violation('the ordinate is not that of the doubled point', W)
def addition(rep, m, alias=False):
    W = where_fn(m, STEP_A); D, it, st = base(m)
    a, b, d, e, z = [V.fp2('T' + c) for c in 'abdez']; A, B, Dv, E, Z = map(Poly.var, (a, b, d, e, z))
    # R = (X : Y : Z) with X = a Z + d, Y = b Z + e; Q = (a, b) on the curve
    X, Y = A * Z + Dv, B * Z + E
    co = it.new_obj(st, 288, 'arg', 'coefficients'); r = it.new_obj(st, 288, 'arg', 'point'); write2(it, D, st, r, (X, Y, Z))
    q = it.new_obj(st, 288, 'arg', 'added point'); write2(it, D, st, q, (A, B, ONE)); st.mem[q.obj].ro = True
    rs = it.call(st, fn(m, STEP_A), [co, r, q]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    # relations: b^2 = a^3 + B; Y^2 Z = X^3 + B Z^3  <=>  e^2 Z = ... (leading term e^2 z)
    curve = Y * Y * Z - X * X * X - B2 * Z * Z * Z
    lead = tuple(sorted((e, e, z))); rest = Poly({k: c for k, c in curve.d.items() if k != lead}).scale(-pow(curve.d[lead], -1, P))
    def red(p):
        while True:
            p = modulo(p, b, 2, A * A * A + B2); hit = [k for k in p.d if k.count(e) >= 2 and k.count(z) >= 1]
            if not hit: return p
            add = ZERO; acc = dict(p.d)
            for k in hit:
                l = list(k); l.remove(e); l.remove(e); l.remove(z); add = add + Poly({tuple(l): acc.pop(k)}) * rest
            p = Poly(acc) + add
    for s, _ in rs:
        c = [rd2(it, D, s, co, 96 * i) for i in range(3)]; n = [rd2(it, D, s, r, 96 * i) for i in range(3)]
        no_conj(c + n)
        # slope e/d
        if red(c[2]) == ZERO: raise Violation('the chord has no ordinate coefficient', W)
        if not monomial(c[2], (d, z)): raise AnalysisError('the scale of the chord is not a product of known factors')
        if red(c[1] * Dv + c[2] * E) != ZERO: raise Violation('the coefficient of the abscissa is not minus the slope of the chord', W)
        if red(c[0] * Dv - c[2] * (E * A - Dv * B)) != ZERO: raise Violation('the constant coefficient is not that of the chord', W)
        if not monomial(n[2], (d, z)): raise AnalysisError('the denominator of the sum is not a product of known factors')
        x2n, x2d = E * E * Z - A * Dv * Dv * Z - X * Dv * Dv, Dv * Dv * Z
        if red(n[0] * x2d - n[2] * x2n) != ZERO: raise Violation('the abscissa is not that of the sum', W)
        y2n, y2d = E * (A * x2d - x2n) - B * Dv * x2d, Dv * x2d
        if red(n[1] * y2d - n[2] * y2n) != ZERO: raise Violation('the ordinate is not that of the sum', W)

# =============== tokens
class Tok(AV):
    """named value: point multiples, coordinates, line coefficients"""
    __slots__ = ('k',)
    def __init__(self, *k): self.k = k
    def __eq__(self, o): return isinstance(o, Tok) and self.k == o.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return '%s' % (self.k,)
class Prod(AV):
    """formal product of line values: {line: (exponent, exponent of the conjugate)}"""
    __slots__ = ('d',)
    def __init__(self, d): self.d = {k: v for k, v in d.items() if v != (0, 0)}
    def __eq__(self, o): return isinstance(o, Prod) and self.d == o.d
    def __hash__(self): return hash(frozenset(self.d.items()))
    def __repr__(self): return 'product of %d line values' % len(self.d)
    def mul(self, o): return Prod({k: tuple(x + y for x, y in zip(self.d.get(k, (0, 0)), o.d.get(k, (0, 0)))) for k in set(self.d) | set(o.d)})
    def pow(self, n): return Prod({k: (n * a, n * b) for k, (a, b) in self.d.items()})
    def conj(self): return Prod({k: (b, a) for k, (a, b) in self.d.items()})
class Exp(AV):
    """power of the argument: exponent modulo p^12 - 1"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __eq__(self, o): return isinstance(o, Exp) and self.e == o.e
    def __hash__(self): return hash(self.e)
    def __repr__(self): return 'f^%#x' % self.e
G12 = P ** 12 - 1
EASY = (P ** 6 - 1) * (P ** 2 + 1)

class PairDomain(Copyable, FieldDomain):
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, FE): return FieldDomain.extract(self, it, v, vsize, off, size)
        return Copyable.extract(self, it, v, vsize, off, size)
    def join(self, it, parts, size):
        if all(isinstance(v, (FE, int)) or type(v).__name__ == 'Limb' for _, v in parts): return FieldDomain.assemble(self, it, parts, size)
        raise AnalysisError('mixture of values at ' + it.where())
    def get(self, it, st, p, size, cls, what):
        v = it.load_bytes(st, p, size)
        if v is UNDEF: raise Violation('reads %s that was never written' % what, it.where())
        if not isinstance(v, cls): raise AnalysisError('%s expected, found %r at %s' % (what, v, it.where()))
        return v
    # ---- formal products
    def fp12(self, it, f, cls, one, mul, powi, conj, extra=()):
        D = self; H = it.handlers; C = 'bls12_381::fp12::'
        R = lambda it, st, p: D.get(it, st, p, 576, cls, 'a field element')
        def Wr(it, st, p, v): D.prims += 1; it.store_bytes(st, p, 576, v)
        H[C + 'one()'] = lambda it, st, a: Wr(it, st, a[0], one)
        H[C + 'multiply(bls12_381::fp12 const&) const'] = lambda it, st, a: Wr(it, st, a[0], mul(R(it, st, a[1]), R(it, st, a[2])))
        H[C + 'multiplyAssign(bls12_381::fp12 const&)'] = lambda it, st, a: Wr(it, st, a[0], mul(R(it, st, a[0]), R(it, st, a[1])))
        H[C + 'square() const'] = lambda it, st, a: Wr(it, st, a[0], powi(R(it, st, a[1]), 2))
        H[C + 'squareAssign()'] = lambda it, st, a: Wr(it, st, a[0], powi(R(it, st, a[0]), 2))
        H[C + 'conjugate() const'] = lambda it, st, a: Wr(it, st, a[0], conj(R(it, st, a[1])))
        return R, Wr

# =============== Miller loop
def miller_domain(m, n):
    D = PairDomain(); it = Interp(m, D, max_steps=2_000_000_000); it.run_ctors(); H = it.handlers
    D.yields = 0
    D.install_fp(it)
    R, Wr = D.fp12(it, None, Prod, Prod({}), Prod.mul, Prod.pow, Prod.conj)
    def step(kind):
        def h(it, st, a):
            r = D.get(it, st, a[1], 288, Tok, 'the running point')
            if r.k[0] != 'Q': raise AnalysisError('step on %r' % (r,))
            _, j, k = r.k
            if kind == 'add':
                t = D.get(it, st, a[2], 288, Tok, 'the added point')
                if t.k != ('Q', j, 1): raise Violation('adds %r instead of the original point' % (t,), it.where())
                if k < 2: raise Violation('chord through a point and itself', it.where())
            D.prims += 1
            for i in range(3): it.store_bytes(st, Ptr(a[0].obj, a[0].off + 96 * i), 96, Tok('c', kind, j, k, i))
            it.store_bytes(st, a[1], 288, Tok('Q', j, 2 * k if kind == 'dbl' else k + 1))
        return h
    fn(m, STEP_D); fn(m, STEP_A)
    H[STEP_D] = step('dbl'); H[STEP_A] = step('add')
    H['bls12_381::g2::isZero() const'] = lambda it, st, a: D.get(it, st, a[0], 288, Tok, 'a point') and 0
    H['bls12_381::g1::isZero() const'] = lambda it, st, a: 0
    def mulfq(it, st, a):
        c = D.get(it, st, a[1], 96, Tok, 'a line coefficient'); x = D.get(it, st, a[2], 48, Tok, 'a coordinate')
        if c.k[0] != 'c' or x.k[0] != 'P': raise AnalysisError('product of %r and %r' % (c, x))
        it.store_bytes(st, a[0], 96, Tok('e', c, x))
    H['bls12_381::fp2::mulByFq(bls12_381::fp const&) const'] = mulfq
    def m014(it, st, a):
        f = R(it, st, a[0]); c0, e1, e4 = [D.get(it, st, p, 96, Tok, 'a line coefficient') for p in a[1:4]]
        w = it.where()
        if c0.k[0] != 'c' or c0.k[4] != 0: raise Violation('the constant position receives %r' % (c0,), w)
        kind, j, k = c0.k[1:4]
        for e, i, co, name in ((e1, 1, 'x', 'abscissa'), (e4, 2, 'y', 'ordinate')):
            if e.k != ('e', Tok('c', kind, j, k, i), Tok('P', j, co)): raise Violation('the %s position of the line receives %r' % (name, e), w)
        Wr(it, st, a[0], f.mul(Prod({(kind, j, k): (1, 0)})))
    H['bls12_381::fp12::mulBy014Assign(bls12_381::fp2 const&, bls12_381::fp2 const&, bls12_381::fp2 const&)'] = m014
    def fbool(it, st, a): return 1
    def fcall(it, st, a): D.yields += 1
    it.prefix_handlers.append((lambda d: d.startswith('std::function<void ()>::operator bool('), fbool))
    it.prefix_handlers.append((lambda d: d.startswith('std::function<void ()>::operator()('), fcall))
    it.prefix_handlers.append((lambda d: d.startswith('std::function<void ()>::~function') or d.startswith('std::function<void ()>::function('), lambda it, st, a: None))
    it.prefix_handlers.append((lambda d: d.startswith('std::_Function_base::~_Function_base'), lambda it, st, a: None))
    return D, it, R
def expected(n):
    """exponents of the line values in the product of f_{|x|, Q_j}(P_j), conjugated because x is negative"""
    e = {}; k = 1
    for b in bin(XABS)[3:]:
        e = {l: 2 * v for l, v in e.items()}; e[('dbl', k)] = e.get(('dbl', k), 0) + 1; k *= 2
        if b == '1': e[('add', k)] = e.get(('add', k), 0) + 1; k += 1
    assert k == XABS
    return Prod({(l[0], j, l[1]): (0, v) for l, v in e.items() for j in range(n)})
def pairs_obj(it, st, n):
    p = it.new_obj(st, 432 * n, 'arg', 'pairs')
    for j in range(n):
        it.store_bytes(st, Ptr(p.obj, 432 * j), 288, Tok('Q', j, 1))
        for i, c in enumerate('xyz'): it.store_bytes(st, Ptr(p.obj, 432 * j + 288 + 48 * i), 48, Tok('P', j, c))
    st.mem[p.obj].ro = True
    return p
def miller(rep, m, n):
    f = fn_prefix(m, MILLER); W = where_name(m, f); D, it, R = miller_domain(m, n); st = it.gstate.clone()
    p = pairs_obj(it, st, n) if n else Ptr(it.new_obj(st, 1, 'arg', 'no pairs').obj, 0)
    out = it.new_obj(st, 576, 'arg', 'result'); y = it.new_obj(st, 32, 'arg', 'yield')
    rs = it.call(st, f, [out, p, n, y]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    want = expected(n)
    for s, _ in rs:
        v = R(it, s, out)
        if v == want: continue
        for k in sorted(set(want.d) | set(v.d), key=lambda k: (k[1], k[2], k[0])):
            a, b = v.d.get(k, (0, 0)), want.d.get(k, (0, 0))
            if a != b: raise Violation('pair %d of %d: the %s at multiple %d has exponent %d%s instead of %d of the conjugate' % (k[1] + 1, n, 'tangent' if k[0] == 'dbl' else 'chord', k[2], a[0] or a[1], '' if a[0] else ' of the conjugate', b[1]), W)

# =============== final exponentiation and target group
def exp_domain(m):
    D = PairDomain(); it = Interp(m, D); it.run_ctors(); H = it.handlers; C = 'bls12_381::fp12::'
    D.install_fp(it)
    R, Wr = D.fp12(it, None, Exp, Exp(0), lambda a, b: Exp((a.e + b.e) % G12), lambda a, n: Exp(a.e * n % G12), lambda a: Exp(a.e * P ** 6 % G12))
    H[C + 'inverse() const'] = lambda it, st, a: Wr(it, st, a[0], Exp(-R(it, st, a[1]).e % G12))
    def frob(dst, src):
        def h(it, st, a):
            k = it.load_bytes(st, a[src + 1], 8)
            if not isinstance(k, int): raise AnalysisError('Frobenius power %r' % (k,))
            Wr(it, st, a[dst], Exp(R(it, st, a[src]).e * pow(P, k % 12) % G12))
        return h
    H[C + 'frobeniusMap(unsigned long const&) const'] = frob(0, 1); H[C + 'frobeniusMapAssign(unsigned long const&)'] = frob(0, 0)
    def cyc(it, v):
        if v.e % EASY: raise Violation('cyclotomic operation on an element that may lie outside the cyclotomic subgroup', it.where())
        return v
    H[C + 'cyclotomicSquare() const'] = lambda it, st, a: Wr(it, st, a[0], Exp(cyc(it, R(it, st, a[1])).e * 2 % G12))
    H[C + 'cyclotomicSquareAssign()'] = lambda it, st, a: Wr(it, st, a[0], Exp(cyc(it, R(it, st, a[0])).e * 2 % G12))
    def power(cyclo):
        def h(it, st, a):
            N = int(re.search(r'<(\d+)ul>', it.callee).group(1)); e = 0
            for i in range(N):
                w = it.load_bytes(st, Ptr(a[2].obj, a[2].off + 8 * i), 8)
                if not isinstance(w, int): raise AnalysisError('exponent word %r' % (w,))
                e |= w << (64 * i)
            x = R(it, st, a[1])
            if cyclo: cyc(it, x)
            Wr(it, st, a[0], Exp(x.e * e % G12))
        return h
    it.prefix_handlers.append((lambda d: 'bls12_381::fp12::cyclotomicExp<' in d, power(True)))
    it.prefix_handlers.append((lambda d: 'bls12_381::fp12::exp<' in d, power(False)))
    def one(it, st, a):
        e = R(it, st, a[0]).e
        return 1 if e == 0 else Cond(('pow', e))
    H[C + 'isOne() const'] = one
    H[C + 'isZero() const'] = lambda it, st, a: R(it, st, a[0]) and 0     # the argument is not zero
    def eq(it, st, a):
        e = (R(it, st, a[0]).e - R(it, st, a[1]).e) % G12
        return 1 if e == 0 else Cond(('pow', e))
    H[C + 'equal(bls12_381::fp12 const&) const'] = eq
    return D, it, R
def final(rep, m):
    W = where_fn(m, FINAL); D, it, R = exp_domain(m); st = it.gstate.clone()
    p = it.new_obj(st, 576, 'arg', 'f'); it.store_bytes(st, p, 576, Exp(1))
    rs = it.call(st, fn(m, FINAL), [p]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    for s, _ in rs:
        e = R(it, s, p).e
        if e != 3 * (G12 // Q) % G12:
            h = ' (not a multiple of the easy part)' if e % EASY else ' (results would not have the group order)' if e * Q % G12 else ''
            raise Violation('the exponent is not three times (p^12 - 1)/r%s' % h, W)
def gtvalid(rep, m):
    sig = 'bls12_381::fp12::isGtValid() const'; W = where_fn(m, sig); D, it, R = exp_domain(m); st = it.gstate.clone()
    p = it.new_obj(st, 576, 'arg', 'this'); it.store_bytes(st, p, 576, Exp(1)); st.mem[p.obj].ro = True
    rs = it.call(st, fn(m, sig), [p]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    for s, r in rs:
        # the set of accepted exponents' constraints on this path
        conds = [(k[1], v) for k, v in s.facts.items() if isinstance(k, tuple) and k[0] == 'pow']
        if isinstance(r, Cond): cases = [(conds + [(r.key[1], True)], not r.neg), (conds + [(r.key[1], False)], r.neg)]
        else: cases = [(conds, bool(r & 1))]
        for cs, acc in cases:
            from math import gcd
            g = G12
            for e, v in cs:
                if v: g = gcd(g, e)
            if acc and Q % g: raise Violation('accepts elements of order dividing a number other than the group order', W)
            if not acc and not any(not v and e % Q == 0 for e, v in cs): raise Violation('may refuse an element whose order divides the group order', W)

# =============== admission and composition
def admission(rep, m):
    f = fn_prefix(m, ADD); W = where_name(m, f)
    D = PairDomain(); it = Interp(m, D); it.run_ctors(); H = it.handlers; st = it.gstate.clone(); pushed = []
    v = it.new_obj(st, 24, 'arg', 'pairs'); e1 = it.new_obj(st, 144, 'arg', 'e1'); e2 = it.new_obj(st, 288, 'arg', 'e2')
    it.store_bytes(st, e1, 144, Tok('e1')); it.store_bytes(st, e2, 288, Tok('e2')); st.mem[e1.obj].ro = st.mem[e2.obj].ro = True
    for g, sz in (('g1', 144), ('g2', 288)):
        C = 'bls12_381::%s::' % g
        def zero(it, st, a, sz=sz):
            t = D.get(it, st, a[0], sz, Tok, 'a point'); return Cond(('identity', t.k[-1]))
        def aff(it, st, a, sz=sz):
            t = D.get(it, st, a[1], sz, Tok, 'a point'); it.store_bytes(st, a[0], sz, t if t.k[0] == 'affine' else Tok('affine', t.k[-1]))
        def affa(it, st, a, sz=sz):
            t = D.get(it, st, a[0], sz, Tok, 'a point'); it.store_bytes(st, a[0], sz, t if t.k[0] == 'affine' else Tok('affine', t.k[-1]))
        H[C + 'isZero() const'] = zero; H[C + 'affine() const'] = aff; H[C + 'affineAssign()'] = affa
    def some(n):
        return lambda it, st, a: Cond(('coordinate', n, tuple(str(it.load_bytes(st, p, 48 if 'fp::' in n else 96)) for p in a)))
    for c in ('fp', 'fp2'):
        for n in ('isZero() const', 'isOne() const', 'equal(bls12_381::%s const&) const' % c): H['bls12_381::%s::%s' % (c, n)] = some('%s::%s' % (c, n))
    for g in ('g1', 'g2'): H['bls12_381::%s::isOnCurve() const' % g] = H['bls12_381::%s::inCorrectSubgroup() const' % g] = lambda it, st, a, g=g: Cond(('membership', g, it.callee))
    def emplace(it, st, a):
        st.log.append(('push', tuple(D.get(it, st, p, sz, Tok, 'a point').k for p, sz in ((a[1], 144), (a[2], 288)))))
        return Ptr(a[0].obj, 0)
    def push(it, st, a):
        st.log.append(('push', (D.get(it, st, Ptr(a[1].obj, a[1].off + 288), 144, Tok, 'a point').k, D.get(it, st, a[1], 288, Tok, 'a point').k)))
    isv = lambda d: 'std::vector<std::tuple<bls12_381::g1, bls12_381::g2>' in d
    it.prefix_handlers.append((lambda d: isv(d) and '::emplace_back<bls12_381::g1' in d, emplace))
    it.prefix_handlers.append((lambda d: isv(d) and ('::push_back(' in d or '::emplace_back<std::tuple' in d), push))
    rs = it.call(st, f, [v, e1, e2]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    got = set()
    for s, _ in rs:
        z = {k[1]: t for k, t in s.facts.items() if isinstance(k, tuple) and k[0] == 'identity'}
        ps = [x[1] for x in s.log if x[0] == 'push']; got.add(len(ps))
        if any(z.values()):
            if ps: raise Violation('a pair with an identity element is kept', W)
        elif z.get('e1') is False and z.get('e2') is False:
            if ps != [(('affine', 'e1'), ('affine', 'e2'))]: raise Violation('a pair of non-identity points is not added exactly once in affine form: %r' % (ps,), W)
        elif ps: raise Violation('a pair is added without testing both points for the identity', W)
        else: raise Violation('a pair may be dropped although neither point is the identity', W)
    if got != {0, 1}: raise Violation('always adds %s pairs' % got, W)
def compose(rep, m, n):
    f = fn_prefix(m, CALC); W = where_name(m, f)
    D = PairDomain(); it = Interp(m, D); it.run_ctors(); st = it.gstate.clone()
    D.install_fp(it)
    D.fp12(it, None, Tok, Tok('one'), lambda a, b: Tok('mul', a, b), lambda a, k: Tok('pow', a, k), lambda a: Tok('conj', a))
    p = it.new_obj(st, max(432 * n, 1), 'arg', 'pairs'); y = it.new_obj(st, 32, 'arg', 'yield'); out = it.new_obj(st, 576, 'arg', 'result')
    def mill(it, st, a):
        if a[1].obj != p.obj or a[1].off != 0 or a[2] != n: raise Violation('the Miller loop does not receive all pairs', it.where())
        it.store_bytes(st, a[0], 576, Tok('miller'))
    def fin(it, st, a):
        t = D.get(it, st, a[0], 576, Tok, 'a value'); it.store_bytes(st, a[0], 576, Tok('final', t))
    fn_prefix(m, MILLER); fn(m, FINAL)
    it.prefix_handlers.append((lambda d: d.startswith(MILLER), mill)); it.handlers[FINAL] = fin
    it.prefix_handlers.append((lambda d: d.startswith('std::function<void ()>::') or d.startswith('std::_Function_base::'), lambda it, st, a: None))
    rs = it.call(st, f, [out, p, n, y]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    for s, _ in rs:
        t = D.get(it, s, out, 576, Tok, 'the result')
        ok = (t == Tok('one') if n == 0 else t == Tok('final', Tok('miller')))
        if n == 0 and t == Tok('final', Tok('miller')): ok = True      # the empty product is one
        if not ok: raise Violation('for %d pairs the result is %r' % (n, t), W)
def sizes(m):
    """batch sizes around every constant the code compares with anything on the way (loop unrolling, batching)"""
    cs = set()
    for name in (fn_prefix(m, MILLER), fn_prefix(m, PRE)):
        f = m.functions[name]; f.parse()
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'alloca': continue
                for x in i.a:
                    if isinstance(x, tuple) and x[0] == 'c' and isinstance(x[1], int) and 1 < x[1] <= 256: cs.add(x[1])
    return sorted({1, 2, 3} | {max(1, c + d) for c in cs for d in (-1, 0, 1)})
def widths(m):
    """the loops over the pairs are not controlled by counters of 16 or fewer bits"""
    name = fn_prefix(m, MILLER); f = m.functions[name]; f.parse()
    defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}; ctl = loop_conditions(f)
    for r in ctl:
        i = defs.get(r)
        if i is None or i.op != 'icmp': continue
        for x in i.a[:2]:
            d = defs.get(x[1]) if isinstance(x, tuple) and x[0] == 'l' else None
            while d is not None and d.op == 'cast' and d.extra[0] in ('zext', 'sext'):
                if d.extra[1] is not None and width(d) <= 16: return 'a loop is controlled by a counter of %d bits' % width(d)
                y = d.a[0]; d = defs.get(y[1]) if isinstance(y, tuple) and y[0] == 'l' else None
def width(d):
    t = d.extra[1]; k = re.search(r'i?(\d+)', str(t)); return int(k.group(1)) if k else 64

def run_E01(rep):
    m = scale.load()
    rep.explanation = 'tangent and chord steps as polynomial identities modulo the curve equation; the Miller loop interpreted over formal products of line values, compared with the exponents of f_{|x|,Q}(P); the final exponentiation as an exponent modulo p^12 - 1; pair admission and composition on every path'
    rep.assumptions += ['extension-field operations, Frobenius maps and power loops are exact (B01)', 'constants are exact (B02)', 'line values are determined up to factors in Fp2, which the final exponentiation removes']
    W = where_fn
    jobs = [lambda r: r.run('tangent step', lambda: doubling(r, m), where_fn(m, STEP_D)),
            lambda r: r.run('chord step', lambda: addition(r, m), where_fn(m, STEP_A)),
            lambda r: r.run('final exponentiation', lambda: final(r, m), where_fn(m, FINAL)),
            lambda r: r.run('target group membership', lambda: gtvalid(r, m), where_fn(m, 'bls12_381::fp12::isGtValid() const')),
            lambda r: r.run('pair admission', lambda: admission(r, m), where_name(m, fn_prefix(m, ADD)))]
    jobs.append(lambda r: r.run('loops over the pairs', lambda: widths(m), where_name(m, fn_prefix(m, MILLER))))
    for n in (0, 1, 2): jobs.append(lambda r, n=n: r.run('composition for %d pairs' % n, lambda: compose(r, m, n), where_name(m, fn_prefix(m, CALC))))
    for n in sorted(sizes(m), reverse=True): jobs.append(lambda r, n=n: r.run('Miller loop over %d pairs' % n, lambda: miller(r, m, n), where_name(m, fn_prefix(m, MILLER))))
    rep.parallel(jobs)
