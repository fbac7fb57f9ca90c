"""C01: group law of G1 and G2 on symbolic projective representations."""
from engine.util import *
from engine import build

class CurveDomain(FieldDomain):
    """adds: variables known to be non-zero, substitutions implied by assumed equalities"""
    def __init__(self):
        FieldDomain.__init__(self)
        self.nonzero = set()
    def norm(self, p): return self.cancel(p)
    def strip(self, poly):
        if not poly.d: return poly
        common = None
        for m in poly.d:
            c = {}
            for v in m:
                if v in self.nonzero or v in self.invs: c[v] = c.get(v, 0) + 1
            if common is None: common = c
            else: common = {v: min(n, c[v]) for v, n in common.items() if v in c}
            if not common: return poly
        r = {}
        for m, k in poly.d.items():
            l = list(m)
            for v, n in common.items():
                for _ in range(n): l.remove(v)
            r[tuple(l)] = k
        return Poly(r)
    def zero_cond(self, it, st, poly):
        poly = self.subst(st, poly)
        poly = self.reduce(self.clear(poly))
        return FieldDomain.zero_cond(self, it, st, self.strip(poly))
    def clear(self, poly):
        """multiply inverse variables of non-zero variables away"""
        for iv, q in list(self.invs.items()):
            deg = max((m.count(iv) for m in poly.d), default=0)
            if deg == 0 or not (len(q.d) == 1): continue
            (qm, qc), = q.d.items()
            if any(v not in self.nonzero for v in qm): continue
            r = ZERO
            for m, c in poly.d.items():
                k = m.count(iv)
                r = r + Poly({tuple(v for v in m if v != iv): c}) * (q ** (deg - k))
            poly = r
        return poly
    def reduce(self, poly): return poly
    def subst(self, st, poly):
        for v, q in st.aux.get('subst', ()):
            if any(v in m for m in poly.d): poly = poly.subst({v: q})
        return poly
    def assume(self, it, st, c, truth):
        r = FieldDomain.assume(self, it, st, c, truth)
        if isinstance(c, Cond) and (truth != c.neg) and c.key[0] == 'z':
            poly = c.key[1]
            for m, k in poly.d.items():
                if len(m) == 1 and m[0] != 0 and sum(m[0] in mm for mm in poly.d) == 1 and V.conj[m[0]] not in poly.vars() - {m[0]}:
                    v = m[0]
                    rest = Poly({mm: kk for mm, kk in poly.d.items() if mm != m}).scale(-pow(k, -1, P))
                    sub = [(v, rest)]
                    if V.conj[v] != v: sub.append((V.conj[v], rest.conj()))
                    if v in self.nonzero and not rest.d: return False
                    st.aux['subst'] = tuple((a, q.subst(dict(sub))) for a, q in st.aux.get('subst', ())) + tuple(sub)
                    break
        return r

class Group:
    def __init__(self, name):
        self.name = name; self.cls = 'bls12_381::%s::' % name
        self.dim = 1 if name == 'g1' else 2
        self.csz = 48 * self.dim; self.size = 3 * self.csz
        self.B = Poly.const(4) if name == 'g1' else Poly.const(4) + U.scale(4)
    def var(self, n):
        return V.fp(n + '@1') if self.dim == 1 else V.fp2(n + '@2')
    def V(self, n): return Poly.var(self.var(n))
    def rd(self, it, D, st, p, i):
        q = Ptr(p.obj, p.off + i * self.csz)
        return (D.rd(it, st, q).poly if self.dim == 1 else D.rd2(it, st, q))
    def wr(self, it, D, st, p, pt):
        for i, e in enumerate(pt):
            q = Ptr(p.obj, p.off + i * self.csz)
            if self.dim == 1: D.wr(it, st, q, FE(e))
            else: D.wr2(it, st, q, e)
    def read(self, it, D, st, p):
        bounds = []
        out = [self.rd(it, D, st, p, i) for i in range(3)]
        for j in range(3 * self.dim):
            fe = D.rd(it, st, Ptr(p.obj, p.off + 48 * j))
            if fe.bound != 1: D.issue(it, 'coordinate word %d of the result is not reduced' % j)
        return out

def setup(m, g):
    D = CurveDomain(); it = Interp(m, D); it.run_ctors()
    D.install_fp(it)
    if g.dim == 2: D.install_fp2(it)
    a, b, Z1, Z2, d, b2 = [g.var(n) for n in ('a', 'b', 'Z1', 'Z2', 'd', 'b2')]
    nz = [b, Z1, Z2, d, b2]
    D.nonzero = set(nz) | {V.conj[v] for v in nz}
    rels = {}
    A = Poly.var(a); A2 = A + Poly.var(d)
    rels[b] = A * A * A + g.B
    rels[b2] = A2 * A2 * A2 + g.B
    def red(poly):
        out = poly
        for v, q in rels.items():
            while any(m2.count(v) >= 2 for m2 in out.d):
                acc = {}; add = ZERO
                for m2, c in out.d.items():
                    if m2.count(v) >= 2:
                        l = list(m2); l.remove(v); l.remove(v)
                        add = add + Poly({tuple(l): c}) * q
                    else: acc[m2] = c
                out = Poly(acc) + add
        return out
    D.reduce = red
    return it, D

def operands(g):
    A, b, Z1, Z2, d, b2 = [g.V(n) for n in ('a', 'b', 'Z1', 'Z2', 'd', 'b2')]
    p1 = (A * Z1 * Z1, b * Z1 * Z1 * Z1, Z1)
    gen2 = ((A + d) * Z2 * Z2, b2 * Z2 * Z2 * Z2, Z2)
    same = (A * Z2 * Z2, b * Z2 * Z2 * Z2, Z2)
    opp = (A * Z2 * Z2, -b * Z2 * Z2 * Z2, Z2)
    o1 = (g.V('ox1'), g.V('oy1'), ZERO); o2 = (g.V('ox2'), g.V('oy2'), ZERO)
    p1a = (A, b, ONE); p2a = (A + d, b2, ONE); samea = (A, b, ONE); oppa = (A, -b, ONE)
    return dict(p1=p1, gen2=gen2, same=same, opp=opp, o1=o1, o2=o2, p1a=p1a, p2a=p2a, samea=samea, oppa=oppa)

def chord(g):
    """affine sum of (a,b) and (a+d,b2) as (num, den) pairs"""
    A, b, d, b2 = [g.V(n) for n in ('a', 'b', 'd', 'b2')]
    l = b2 - b
    d2 = d * d; d3 = d2 * d
    xn = l * l - (A + A + d) * d2                       # / d^2
    yn = l * (A * d2 - xn) - b * d3                     # / d^3
    return (xn, d2), (yn, d3)
def tangent(g):
    A, b = g.V('a'), g.V('b')
    l = A * A * 3; dn = b * 2
    d2 = dn * dn; d3 = d2 * dn
    xn = l * l - A * 2 * d2
    yn = l * (A * d2 - xn) - b * d3
    return (xn, d2), (yn, d3)
def aff(x, y): return (x, ONE), (y, ONE)

def represents(D, st, pt, want, where):
    """raise Violation unless pt is a projective representation of want (None = identity)"""
    pt = [D.subst(st, c) for c in pt]
    X, Y, Z = pt
    Zc = D.strip(D.reduce(D.clear(Z)))
    if want is None:
        if Zc.d: raise Violation('the result is not the identity (Z = %r)' % Z, where)
        return
    if not Zc.d: raise Violation('the result is the identity, but the correct point is not', where)
    if not Zc.is_const() and not all(m in ((), (0,)) for m in Zc.d):
        raise Violation('the Z coordinate of the result may vanish: %r' % Zc, where)
    (xn, xd), (yn, yd) = [(D.subst(st, p), D.subst(st, q)) for p, q in want]
    ex = D.reduce(D.clear(X * xd - xn * Z * Z))
    if ex.d: raise Violation('the abscissa of the result differs from the group law: %r' % ex, where)
    ey = D.reduce(D.clear(Y * yd - yn * Z * Z * Z))
    if ey.d: raise Violation('the ordinate of the result differs from the group law: %r' % ey, where)

def run_C01(rep):
    m = build.load()
    for g in (Group('g1'), Group('g2')):
        ops = operands(g)
        cr = 'bls12_381::%s const&' % g.name
        def obligation(name, sig, args, want, assign=False, alias=False):
            def body():
                f = fn(m, sig); it, D = setup(m, g)
                Ar = Arena(it); st = Ar.st
                this = Ar.buf(g.size, 'this'); g.wr(it, D, st, this, args[0])
                ptrs = []
                for a in args[1:]:
                    if alias: ptrs.append(this); continue
                    q = Ar.buf(g.size, 'operand'); g.wr(it, D, st, q, a); Ar.const_arg(q); ptrs.append(q)
                if assign: out = this; call = [this] + ptrs
                else:
                    Ar.const_arg(this); out = Ar.buf(g.size, 'result'); call = [out, this] + ptrs
                rs = it.call(st, f, call); rep.absorb(it)
                if not rs: raise Violation('no path returns', sig)
                for st2, _ in rs:
                    res = g.read(it, D, st2, out)
                    if D.bound_issues: raise Violation(*D.bound_issues[0])
                    represents(D, st2, res, want, where_fn(m, sig))
                rep.count('paths', len(rs))
            rep.run(name, body, where_fn(m, sig))
        A, b, d, b2 = [g.V(n) for n in ('a', 'b', 'd', 'b2')]
        P1 = aff(A, b); P2 = aff(A + d, b2)
        def neg(w): return None if w is None else (w[0], (-w[1][0], w[1][1]))
        cases = [('generic', 'p1', 'gen2', chord(g)), ('equal points', 'p1', 'same', tangent(g)), ('opposite points', 'p1', 'opp', None),
                 ('first is the identity', 'o1', 'gen2', P2), ('second is the identity', 'p1', 'o2', P1), ('both are the identity', 'o1', 'o2', None),
                 ('second affine', 'p1', 'p2a', chord(g)), ('first affine', 'p1a', 'gen2', chord(g)), ('both affine', 'p1a', 'p2a', chord(g)),
                 ('equal points, second affine', 'p1', 'samea', tangent(g)), ('equal points, both affine', 'p1a', 'samea', tangent(g)),
                 ('opposite points, second affine', 'p1', 'oppa', None), ('opposite points, both affine', 'p1a', 'oppa', None),
                 ('identity plus affine', 'o1', 'p2a', P2), ('affine plus identity', 'p1a', 'o2', P1)]
        for cn, x, y, w in cases:
            obligation('%s::add (%s)' % (g.name, cn), g.cls + 'add(%s) const' % cr, [ops[x], ops[y]], w)
            obligation('%s::addAssign (%s)' % (g.name, cn), g.cls + 'addAssign(%s)' % cr, [ops[x], ops[y]], w, assign=True)
            # subtraction: negate the second operand
            oy = ops[y]; ny = (oy[0], -oy[1], oy[2])
            obligation('%s::subtract (%s)' % (g.name, cn), g.cls + 'subtract(%s) const' % cr, [ops[x], ny], w)
            obligation('%s::subtractAssign (%s)' % (g.name, cn), g.cls + 'subtractAssign(%s)' % cr, [ops[x], ny], w, assign=True)
        for x, w in (('p1', tangent(g)), ('p1a', tangent(g)), ('o1', None)):
            obligation('%s::dbl (%s)' % (g.name, x), g.cls + 'dbl() const', [ops[x]], w)
            obligation('%s::doubleAssign (%s)' % (g.name, x), g.cls + 'doubleAssign()', [ops[x]], w, assign=True)
            obligation('%s::add (same object, %s)' % (g.name, x), g.cls + 'add(%s) const' % cr, [ops[x], ops[x]], w, alias=True)
            obligation('%s::addAssign (same object, %s)' % (g.name, x), g.cls + 'addAssign(%s)' % cr, [ops[x], ops[x]], w, assign=True, alias=True)
            obligation('%s::subtract (same object, %s)' % (g.name, x), g.cls + 'subtract(%s) const' % cr, [ops[x], ops[x]], None, alias=True)
            obligation('%s::subtractAssign (same object, %s)' % (g.name, x), g.cls + 'subtractAssign(%s)' % cr, [ops[x], ops[x]], None, assign=True, alias=True)
        for x, w in (('p1', P1), ('p1a', P1), ('o1', None)):
            obligation('%s::negate (%s)' % (g.name, x), g.cls + 'negate() const', [ops[x]], neg(w))
            obligation('%s::affine (%s)' % (g.name, x), g.cls + 'affine() const', [ops[x]], w)
        def affine_form():
            sig = g.cls + 'affine() const'
            for x in ('p1', 'p1a'):
                it, D = setup(m, g); Ar = Arena(it); st = Ar.st
                this = Ar.buf(g.size, 'this'); g.wr(it, D, st, this, ops[x]); Ar.const_arg(this); out = Ar.buf(g.size)
                for st2, _ in it.call(st, fn(m, sig), [out, this]):
                    X, Y, Z = [D.subst(st2, c) for c in g.read(it, D, st2, out)]
                    if (Z - ONE).d: return 'Z is %r, not one' % Z
        rep.run('%s::affine normalises' % g.name, affine_form, where_fn(m, g.cls + 'affine() const'))
        # predicates
        def predicate(name, sig, args, want, alias=False):
            def body():
                it, D = setup(m, g); Ar = Arena(it); st = Ar.st
                ptrs = []
                for a in args:
                    if alias and ptrs: ptrs.append(ptrs[0]); continue
                    q = Ar.buf(g.size, 'operand'); g.wr(it, D, st, q, a); Ar.const_arg(q); ptrs.append(q)
                rs = it.call(st, fn(m, sig), ptrs); rep.absorb(it)
                if not rs: raise Violation('no path returns', sig)
                for st2, r in rs:
                    if isinstance(r, Cond):
                        t = D.decide(it, st2, r)
                        if t is not None: r = int(t)
                    if not isinstance(r, int) or r != want:
                        return 'returns %r where the points %s' % (r, 'are the same' if want else 'differ')
            rep.run(name, body, where_fn(m, sig))
        eqs = g.cls + 'equal(%s) const' % cr
        for cn, x, y, w in cases:
            same = int(cn.startswith('equal') or cn.startswith('both are'))
            predicate('%s::equal (%s)' % (g.name, cn), eqs, [ops[x], ops[y]], same)
        for x in ('p1', 'p1a', 'o1'):
            predicate('%s::equal (same object, %s)' % (g.name, x), eqs, [ops[x], ops[x]], 1, alias=True)
            predicate('%s::isZero (%s)' % (g.name, x), g.cls + 'isZero() const', [ops[x]], int(x == 'o1'))
        def constant(name, want):
            def body():
                it, D = setup(m, g); Ar = Arena(it); st = Ar.st
                out = Ar.buf(g.size)
                for st2, _ in it.call(st, fn(m, g.cls + name + '()'), [out]):
                    pt = g.read(it, D, st2, out)
                    if want == 'zero':
                        if pt[2].d: return 'zero() is not the identity'
                    else:
                        base = it.global_ptr(st2, m.bydem.get(g.cls + 'BASE') or [n for n, dm in m.demangled.items() if dm == g.cls + 'BASE'][0])
                        bp = g.read(it, D, st2, base)
                        if [c.d for c in bp] != [c.d for c in pt]: return 'one() is not the generator'
            rep.run('%s::%s' % (g.name, name), body, where_fn(m, g.cls + name + '()'))
        constant('zero', 'zero'); constant('one', 'one')
    rep.explanation = 'Abstract interpretation over polynomials in the affine coordinates and the projective scale of both operands; every partition (generic, equal, opposite, identity, affine operands, same object) is compared with the chord-and-tangent law, including that the result scale cannot vanish.'
    rep.assumptions += ['base-field operations are exact (A01, A03) and Fp2 operations implement the tower (B01)', 'neither group has a point with y = 0 (both curve orders are odd)']
