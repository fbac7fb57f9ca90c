"""F02: hash-to-curve. Expander and assembly over symbolic bytes, SWU map and isogeny over polynomials."""
from engine.util import *
from engine import build
from engine.proto import *
from .keys import K, xmd, sym, arg, first, differ
from .curve import CurveDomain, Group
from engine.field import *
from engine.field import R as R_MONT

P_ = P
TAG = b'QUUX-V01-CS02-with-expander-SHA256-128'

# ---- suite parameters (curves isogenous to G1 and G2, standard suites SSWU)
A1 = 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
B1 = 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
Z1 = 11
def c2(a, b): return Poly.const(a % P) + U.scale(b % P)
SUITE = {'g1': dict(A=Poly.const(A1), B=Poly.const(B1), Z=Poly.const(Z1)),
         'g2': dict(A=c2(0, 240), B=c2(1012, 1012), Z=c2(-2, -1))}

def cval(p):
    return p.d.get((), 0), p.d.get((0,), 0)
def pinv(p):
    x, y = cinv(*cval(p)); return Poly.const(x) + U.scale(y)
def fpow(p, e):
    r = ONE
    while e:
        if e & 1: r = r * p
        p = p * p; e >>= 1
    return r
def is_square(g, p):
    """p constant polynomial of the field of g"""
    if not p.d: return True
    return fpow(p, (P - 1) // 2 if g.dim == 1 else (P * P - 1) // 2) == ONE

def const_roots(g, p):
    """both square roots of a constant, if it has any"""
    if not is_square(g, p): return []
    if g.dim == 1:
        r = pow(p.const_val(), (P + 1) // 4, P); return [Poly.const(r), Poly.const(P - r)]
    a, b = cval(p)
    if b == 0:
        r = pow(a, (P + 1) // 4, P)
        rt = c2(r, 0) if r * r % P == a else c2(0, pow(-a % P, (P + 1) // 4, P))
    else:
        n = pow((a * a + b * b) % P, (P + 1) // 4, P)
        for d in (a + n, a - n):
            h = d * pow(2, -1, P) % P; x = pow(h, (P + 1) // 4, P)
            if x * x % P == h: break
        rt = c2(x, b * pow(2 * x, -1, P))
    assert rt * rt == p
    return [rt, -rt]

# ---- univariate polynomials over the field (lists of constant Polys)
def uadd(a, b):
    n = max(len(a), len(b)); z = [ZERO]
    return [(a + z * n)[i] + (b + z * n)[i] for i in range(n)]
def umul(a, b):
    r = [ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] = r[i + j] + x * y
    return r
def uscale(a, k): return [x * k for x in a]
def udiff(a): return [x.scale(i) for i, x in enumerate(a)][1:]

def kernel(g):
    """abscissas of the kernel of the suite's isogeny"""
    if g.dim == 2: return [c2(-6, 6)]
    # the only subgroup of order 11 of E'(Fp): multiply points by #E'/11 and by 11 until the order is 11
    n = (0x396c8c005555e1568c00aaab0000aaab) * 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
    def add(p, q):
        if p is None: return q
        if q is None: return p
        if p[0] == q[0]:
            if (p[1] + q[1]) % P == 0: return None
            l = (3 * p[0] * p[0] + A1) * pow(2 * p[1], -1, P) % P
        else: l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
        x = (l * l - p[0] - q[0]) % P
        return x, (l * (p[0] - x) - p[1]) % P
    def mul(k, p):
        r = None
        while k:
            if k & 1: r = add(r, p)
            p = add(p, p); k >>= 1
        return r
    co = n
    while co % 11 == 0: co //= 11
    x = 0
    while True:
        x += 1
        y2 = (x ** 3 + A1 * x + B1) % P; y = pow(y2, (P + 1) // 4, P)
        if y * y % P != y2: continue
        q = mul(co, (x, y))
        if q is None: continue
        while True:
            t = mul(11, q)
            if t is None: break
            q = t
        out = []; t = q
        for _ in range(5): out.append(Poly.const(t[0])); t = add(t, q)
        return out

def velu(g):
    """(N, h, M): abscissa N/h^2 and ordinate y*M/h^3 of the isogeny onto the target curve"""
    s = SUITE[g.name]; A, B = s['A'], s['B']; ks = kernel(g)
    h = [ONE]
    for q in ks: h = umul(h, [-q, ONE])
    h2 = umul(h, h)
    N = umul([ZERO, ONE], h2)
    for q in ks:
        v = q * q * 6 + A * 2
        u = (q * q * q + A * q + B) * 4
        rest = [ONE]
        for q2 in ks:
            if q2 != q: rest = umul(rest, [-q2, ONE])
        r2 = umul(rest, rest)
        N = uadd(N, uadd(umul(umul(r2, [-q, ONE]), [v]), umul(r2, [u])))
    # derivative of N/h^2 is (N' h - 2 N h')/h^3
    M = uadd(umul(udiff(N), h), uscale(umul(N, udiff(h)), Poly.const(P - 2)))
    d = 11 if g.dim == 1 else 3
    # normalisation of the published maps
    iu = pow(d, -1, P) if g.dim == 1 else P - pow(d, -1, P)
    return uscale(N, Poly.const(iu * iu % P)), h, uscale(M, Poly.const(iu * iu * iu % P))

def uev(a, x):
    r = ZERO
    for c in reversed(a): r = r * x + c
    return r

def proportional(p, q):
    if not p.d or len(p.d) != len(q.d): return False
    l = next(iter(q.d))
    return l in p.d and p.scale(q.d[l] * pow(p.d[l], -1, P)) == q

class MapDomain(CurveDomain):
    def __init__(self, g):
        CurveDomain.__init__(self); self.g = g; self.nzpolys = (); self.roots = {}
    def zero_cond(self, it, st, poly):
        p = self.strip(self.clear(poly))
        if any(proportional(p, self.strip(q)) for q in self.nzpolys): return 0
        return CurveDomain.zero_cond(self, it, st, poly)
    def inverse(self, poly):
        r = CurveDomain.inverse(self, poly)
        self.nonzero |= set(self.invs)
        return r
    def clear(self, poly):
        for _ in range(4):
            hit = False
            for iv, q in list(self.invs.items()):
                deg = max((m.count(iv) for m in poly.d), default=0)
                if not deg: continue
                hit = True; r = ZERO
                pw = [ONE]
                for _ in range(deg): pw.append(pw[-1] * q)
                byk = {}
                for m, c in poly.d.items():
                    k = m.count(iv)
                    byk.setdefault(k, {})[tuple(v for v in m if v != iv)] = c
                for k, d in byk.items(): r = r + Poly(d) * pw[deg - k]
                poly = r
            if not hit: break
        return poly
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, Cond) and isinstance(b, Cond) and pred in ('eq', 'ne'):
            if a.key == b.key: return int((a.neg == b.neg) == (pred == 'eq'))
            ka, kb = sorted((a.key, b.key), key=repr)
            neg = (a.neg != b.neg) != (pred == 'ne')
            return Cond(('same', ka, kb), neg)
        return CurveDomain.icmp(self, it, pred, w, a, b)
    def binop(self, it, op, w, a, b, flags):
        if op == 'xor' and isinstance(a, Cond) and isinstance(b, Cond):
            return self.icmp(it, 'ne', w, a, b)
        return CurveDomain.binop(self, it, op, w, a, b, flags)

def setup(m, g):
    D = MapDomain(g); it = Interp(m, D); it.run_ctors()
    D.install_fp(it)
    F = 'fp'
    if g.dim == 2: D.install_fp2(it); F = 'fp2'
    C = 'bls12_381::%s::' % F
    def rd(it, st, p): return D.rd(it, st, p).poly if g.dim == 1 else D.rd2(it, st, p)
    def wr(it, st, p, v):
        if g.dim == 1: D.wr(it, st, p, FE(v))
        else: D.wr2(it, st, p, v)
    D.rdE, D.wrE = rd, wr
    def nonres(it, st, a):
        p = rd(it, st, a[0])
        if all(mm in ((), (0,)) for mm in p.d): return 0 if is_square(g, p) else 1
        return Cond(('nonres', p))
    def sqrt(it, st, a):
        p = rd(it, st, a[0])
        if p not in D.roots:
            n = 'root%d@%s' % (len(V.names), F)
            D.roots[p] = V.fp(n) if g.dim == 1 else V.fp2(n)
        wr(it, st, a[1], Poly.var(D.roots[p]))
        if all(mm in ((), (0,)) for mm in p.d): return 1 if is_square(g, p) else 0
        return Cond(('nonres', p), True)
    H = it.handlers
    H[C + 'isQuadraticNonResidue() const'] = nonres
    H[C + 'sqrt(bls12_381::%s&) const' % F] = sqrt
    def sign(it, st, a):
        p = rd(it, st, a[0])
        # the sign of a negated root is kept symbolic
        return Cond(('sign', p))
    H[C + 'sign() const'] = sign
    return it, D

def swu_obligations(k, m, g):
    rep = k.rep; s = SUITE[g.name]; A, B, Z = s['A'], s['B'], s['Z']
    F = 'fp' if g.dim == 1 else 'fp2'
    name = 'bls12_381::%s::swuMap%s(bls12_381::%s const&)' % (g.name, g.name.upper(), F)
    W = where_fn(m, name)
    sz = 48 * g.dim
    mB = -B * pinv(A); xe = B * pinv(Z * A)
    def run(e):
        exceptional = e is not None
        it, D = setup(m, g); Ar = Arena(it); st = Ar.st
        if e is None:
            e = g.V('u'); D.nonzero |= {g.var('u'), V.conj[g.var('u')]}
        t = Z * e * e; tv = t * t + t
        if not exceptional: D.nzpolys = (tv, t + ONE)
        pe = Ar.buf(sz, 'argument'); D.wrE(it, st, pe, e); Ar.const_arg(pe)
        out = Ar.buf(2 * sz, 'result')
        rs = it.call(st, fn(m, name), [out, pe])
        k.rep.absorb(it); k.rep.count('paths', len(rs))
        if D.bound_issues: raise Violation(*D.bound_issues[0])
        if not rs: raise Violation('no path returns', W)
        seen = set()
        w = None
        for v, q in D.invs.items():
            c = [mm for mm in tv.d]
            if len(q.d) == len(tv.d):
                l = next(iter(q.d)); kk = tv.d.get(l)
                if kk is not None and q.scale(kk * pow(q.d[l], -1, P)) == tv: w = Poly.var(v).scale(q.d[l] * pow(kk, -1, P)); break
        if not exceptional and w is None: raise Violation('the map never inverts Z^2 u^4 + Z u^2', W)
        x1 = xe if exceptional else mB * (ONE + w)
        gx = lambda x: x * x * x + A * x + B
        zero = lambda p: not D.reduce(D.clear(p)).d
        for st2, _ in rs:
            y = D.rdE(it, st2, out); x = D.rdE(it, st2, Ptr(out.obj, sz))     # std::tuple stores in reverse
            # facts on this path
            res = None; signs = []; ztrue = []
            def fail(msg):
                if ztrue: raise AnalysisError('%s: %s on a path restricted by a zero test of %r' % (W, msg, ztrue[0]))
                raise Violation(msg, W)
            for key, val in st2.facts.items():
                if key[0] == 'nonres': res = (key[1], val)
                elif key[0] == 'same': signs.append((key, val))
                elif key[0] == 'z' and val: ztrue.append(key[1])
            if res is None:
                if not exceptional: fail('the choice between the two abscissas does not depend on a residue test')
                want = x1
            else:
                if not zero(res[0] - gx(x1)): fail('the residue test is applied to %r, not to g(x1)' % res[0])
                want = t * x1 if res[1] else x1
            if not zero(x - want):
                fail('%s abscissa is not %s' % ('exceptional' if exceptional else 'generic', 'Z u^2 x1 although g(x1) is not a square' if res and res[1] else 'x1 although g(x1) is a square'))
            rt = [(p, v) for p, v in D.roots.items() if v in y.vars()]
            if len(rt) != 1: fail('the ordinate is not a square root: %r' % y)
            p, v = rt[0]
            # g(Z u^2 x1) = (Z u^2)^3 g(x1) is checked as a polynomial identity here
            if not zero(p - gx(want)): fail('the root taken is not that of g(x)')
            if len(signs) != 1: fail('the sign of the ordinate is not compared with the sign of the argument exactly once')
            key, val = signs[0]
            ks = {key[1], key[2]}
            root = Poly.var(v)
            if ks == {('sign', root), ('sign', e)}: eq = val
            elif ks == {('sign', -root), ('sign', e)}: eq = not val
            else: fail('the sign comparison relates %r' % (ks,))
            if y != (root if eq else -root):
                fail('the ordinate has the sign opposite to that of the argument')
            seen.add((bool(res and res[1]), eq))
        need = {(False, True), (False, False)} | (set() if exceptional else {(True, True), (True, False)})
        if not need <= seen: raise Violation('not every case of the map is reachable: %r' % (sorted(need - seen),), W)
    k.job('%s SWU map, generic arguments' % g.name, W, lambda: run(None))
    k.job('%s SWU map, zero argument' % g.name, W, lambda: run(ZERO))
    for i, e in enumerate(const_roots(g, -pinv(Z))):
        k.job('%s SWU map, exceptional argument %d (Z u^2 = -1)' % (g.name, i + 1), W, lambda e=e: run(e))
    def suite():
        # properties of the suite that make the map total
        if is_square(g, Z): return 'Z is a square'
        if not is_square(g, xe * xe * xe + A * xe + B): return 'g(B/(Z A)) is not a square'
    k.job('%s SWU suite parameters' % g.name, W, suite)

def on_target(g, N, h, M):
    s = SUITE[g.name]; A, B = s['A'], s['B']
    gx = [B, A, ZERO, ONE]
    h2 = umul(h, h); h6 = umul(umul(h2, h2), h2)
    l = umul(umul(M, M), gx); r = uadd(umul(umul(N, N), N), uscale(h6, g.B))
    d = uadd(l, uscale(r, Poly.const(P - 1)))
    return all(not c.d for c in d)

def iso_obligations(k, m, g):
    rep = k.rep
    N, h, M = velu(g)
    s = SUITE[g.name]
    F = 'fp' if g.dim == 1 else 'fp2'
    def sanity():
        if not on_target(g, N, h, M): return 'specification error: the Velu map does not reach the curve'
    k.job('%s isogeny specification maps onto the curve' % g.name, 'checks/hashing.py', sanity)
    xv = g.V('x'); yv = g.V('y')
    Nx = uev(N, xv); hx = uev(h, xv); Mx = uev(M, xv)
    def compare(D, X, Y, Z, W):
        """(X, Y, Z) represents (N/h^2, y M/h^3), h not zero"""
        zero = lambda p: not D.reduce(D.clear(p)).d
        hx2 = hx * hx
        if not zero(X * hx2 - Nx * Z * Z): raise Violation('the abscissa of the image differs from the isogeny of the suite', W)
        if not zero(Y * hx2 * hx - yv * Mx * Z * Z * Z): raise Violation('the ordinate of the image differs from the isogeny of the suite', W)
    name_swu = 'bls12_381::%s::swuMap%s(' % (g.name, g.name.upper())
    def infeasible(D, st, W):
        """zero tests of both coordinates cannot hold together on the target curve; a denominator is not zero here"""
        zs = [D.clear(key[1]) for key, val in st.facts.items() if key[0] == 'z' and val]
        def mult(p, q):    # p equals q up to a constant and powers of h
            for e in range(0, 7):
                qq = q * (hx ** e)
                if len(qq.d) == len(p.d):
                    l = max(p.d)
                    if l in qq.d and p.scale(qq.d[l] * pow(p.d[l], -1, P)) == qq: return True
            return False
        if any(mult(z, hx) or mult(z, hx * hx) for z in zs): return True
        return any(mult(z, Nx) for z in zs) and any(mult(z, yv * Mx) or mult(z, Mx) for z in zs)
    if g.dim == 1:
        nm = 'bls12_381::g1::isogenyMapG1(bls12_381::fp&, bls12_381::fp&)'
        def generic1():
            it, D = setup(m, g); Ar = Arena(it); st = Ar.st; W = where_fn(m, nm)
            px = Ar.buf(48, 'x'); py = Ar.buf(48, 'y'); D.wrE(it, st, px, xv); D.wrE(it, st, py, yv)
            rs = it.call(st, fn(m, nm), [px, py]); k.rep.absorb(it); k.rep.count('paths', len(rs)); n = 0
            for st2, _ in rs:
                if infeasible(D, st2, W): continue
                compare(D, D.rdE(it, st2, px), D.rdE(it, st2, py), ONE, W); n += 1
            if not n: raise Violation('no path returns', W)
            if D.bound_issues: raise Violation(*D.bound_issues[0])
        k.job('g1 isogeny, points outside the kernel', where_fn(m, nm), generic1)
    else:
        nm = 'bls12_381::g2::isogenyMap() const'
        def run2(x, y, case):
            it, D = setup(m, g); Ar = Arena(it); st = Ar.st; W = where_fn(m, nm)
            this = Ar.buf(288, 'this'); g.wr(it, D, st, this, (x, y, ONE)); Ar.const_arg(this); out = Ar.buf(288, 'result')
            rs = it.call(st, fn(m, nm), [out, this]); k.rep.absorb(it); k.rep.count('paths', len(rs)); n = 0
            for st2, _ in rs:
                if case == 'generic' and infeasible(D, st2, W): continue
                n += 1
                X, Y, Z = g.read(it, D, st2, out)
                if case == 'kernel':
                    if Z.d: raise Violation('a point of the kernel is not mapped to the identity', W)
                else:
                    compare(D, X, Y, Z, W)
                    # Z may only vanish on the kernel: it is a constant times powers of h
                    zc = D.clear(Z)
                    if zc.d and not any(len((hx ** e).d) == len(zc.d) and (hx ** e).scale(1) * Poly({(): 1}) == prim(zc) for e in range(0, 12)):
                        raise Violation('the Z coordinate of the image may vanish outside the kernel', W)
            if not n: raise Violation('no path returns', W)
            if D.bound_issues: raise Violation(*D.bound_issues[0])
        k.job('g2 isogeny, points outside the kernel', where_fn(m, nm), lambda: run2(xv, yv, 'generic'))
        for q in kernel(g): k.job('g2 isogeny, kernel abscissa', where_fn(m, nm), lambda q=q: run2(q, yv, 'kernel'))
    # the complete map: SWU abscissa and ordinate symbolic, image handed to the cofactor clearing
    mc = 'bls12_381::%s::mapToCurve(bls12_381::%s const&)' % (g.name, F)
    def whole(x, y, case):
        it, D = setup(m, g); Ar = Arena(it); st = Ar.st; W = where_fn(m, mc)
        e = g.V('u'); sz = 48 * g.dim
        def swu(it, st, a):
            if D.rdE(it, st, a[1]) != e: raise Violation('the SWU map is applied to another element than the argument', it.where())
            D.wrE(it, st, a[0], y); D.wrE(it, st, Ptr(a[0].obj, a[0].off + sz), x); return None
        cv = [g.V('c%d' % i) for i in range(3)]
        def clr(it, st, a):
            pt = g.rd(it, D, st, a[1], 0), g.rd(it, D, st, a[1], 1), g.rd(it, D, st, a[1], 2)
            st.aux['cleared'] = st.aux.get('cleared', ()) + (pt,)
            g.wr(it, D, st, a[0], (cv[0], cv[1], cv[2]) if pt[2].d else (ZERO, ZERO, ZERO)); return None
        it.prefix_handlers.append((lambda d: d.startswith(name_swu), swu))
        it.prefix_handlers.append((lambda d: d.startswith('bls12_381::%s::clearCofactor(' % g.name), clr))
        pe = Ar.buf(sz, 'argument'); D.wrE(it, st, pe, e); Ar.const_arg(pe); out = Ar.buf(g.size, 'result')
        rs = it.call(st, fn(m, mc), [out, pe]); k.rep.absorb(it); k.rep.count('paths', len(rs)); n = 0
        for st2, _ in rs:
            if case == 'generic' and infeasible(D, st2, W): continue
            n += 1
            pts = st2.aux.get('cleared', ())
            res = g.read(it, D, st2, out)
            if case == 'kernel':
                if res[2].d: raise Violation('an argument whose SWU image lies in the kernel of the isogeny is not mapped to the identity', W)
                continue
            if len(pts) != 1: raise Violation('the cofactor is cleared %d times' % len(pts), W)
            if tuple(res) != tuple(cv): raise Violation('the result is not the point with cleared cofactor', W)
            compare(D, *pts[0], W)
        if not n: raise Violation('no path returns', W)
    k.job('%s mapToCurve, generic' % g.name, where_fn(m, mc), lambda: whole(xv, yv, 'generic'))
    for i, q in enumerate(kernel(g)):
        k.job('%s mapToCurve, kernel abscissa %d' % (g.name, i + 1), where_fn(m, mc), lambda q=q: whole(q, yv, 'kernel'))

def prim(p):
    """scale to the same leading coefficient as a monic polynomial"""
    l = max(p.d, key=lambda mm: (len([v for v in mm if v]), mm))
    top = {}
    deg = max(len([v for v in mm if v]) for mm in p.d)
    lead = ZERO
    for mm, c in p.d.items():
        if len([v for v in mm if v]) == deg: lead = lead + Poly({tuple(v for v in mm if v == 0): c})
    return p * pinv(lead)

# ---- expander and assembly
def run_F02(rep):
    k = K(rep); J = k.job; W = k.W; m = k.s.m
    rep.explanation = ('XMD expander and message assembly evaluated over symbolic byte strings; SWU map and isogenies evaluated over polynomials with a partition of exceptional arguments; '
                       'the isogeny is compared with the Velu map computed from its kernel')
    rep.assumptions += ['SHA-256 is F01, division by the field prime A04, roots, residue test and sign A03, point addition C01, cofactor clearing C02',
                        'message and tag lengths are analysed at the representatives named in the obligations']
    thorough = rep.tier == 'thorough'
    X = 'bls12_381::xmd_sh256('
    def one(n, ml, dl):
        ms = sym(ml, 'msg') if 0 < ml else B([]); ds = sym(dl, 'dst') if 0 < dl else B([])
        ok = 0 <= n <= 8160 and ml >= 0 and 0 <= dl <= 255
        return k.status_call(X, lambda pr, st, o: [o, n & 0xffffffff, arg(pr, st, ms, 'msg'), ml & 0xffffffff, arg(pr, st, ds, 'dst'), dl & 0xffffffff], n if ok else 8192, xmd(ms, ds, n) if ok else None)
    for n in (0, 1, 31, 32, 33, 63, 64, 65, 96, 128, 255, 256, 257, 1000, 8128, 8129, 8159, 8160) + ((tuple(range(2, 300, 13))) if thorough else ()):
        J('xmd_sh256, %d bytes' % n, W(X), lambda n=n: first(one(n, a, b) for a, b in ((0, 0), (33, 43))))
    for ml in (0, 1, 31, 32, 63, 64, 100, 4096, (1 << 31) - 1): J('xmd_sh256, message of %d bytes' % ml, W(X), lambda ml=ml: first(one(256, ml, d) for d in (43, 0)))
    for dl in (0, 1, 2, 43, 127, 128, 254, 255): J('xmd_sh256, tag of %d bytes' % dl, W(X), lambda dl=dl: first(one(n, 20, dl) for n in (256, 48)))
    for n, ml, dl in ((8161, 5, 5), (8192, 5, 5), (1 << 30, 5, 5), (-1, 5, 5), (-33, 5, 5), (-(1 << 31), 0, 0), (256, -1, 5), (256, -(1 << 31), 5), (256, 5, 256), (256, 5, 1000), (256, 5, -1), (256, 5, 1 << 30), ((1 << 31) - 1, 5, 5)):
        J('xmd_sh256 refuses lengths %d, %d, %d' % (n, ml, dl), W(X), lambda a=(n, ml, dl): one(*a))
    FM = 'bls12_381::fromMessage('
    def fm(ml, dl):
        pr = k.s.pr(); pr.msg_handler = False; pr.expand_only(); st = pr.new()
        ms = sym(ml, 'msg'); ds = sym(dl, 'dst')
        out = pr.buf(st, 288, 'result')
        outs = pr.call(st, FM, [out, arg(pr, st, ms, 'msg'), ml, pr.string(st, ds, 'dst')])
        rep2 = k.rep; rep2.absorb(pr.it)
        if len(outs) != 1 or pr.dom.throws: return 'expected exactly one path, found %d' % len(outs)
        buf = xmd(ms, ds, 256)
        el = lambda i: Bt(T(48, 'modPrime', strip_zero(buf.slice(64 * i, 64).rev())))
        form = {}
        onef2 = cat(Bc((R_MONT % P).to_bytes(48, 'little')), Bc(bytes(48)))
        for i in (0, 2):
            u = cat(el(i), el(i + 1))
            pt = cat(Bt(T(96, 'swu.x', u)), Bt(T(96, 'swu.y', u)), onef2)
            a = T(288, 'H', 'cleared', T(288, 'isogeny', pt))
            form[a] = {(): 1}
        got = pr.form(pr.it, outs[0][0], out, 'g2')
        if not same_form(outs[0][0].facts, got, form): return 'the point is %s, expected %s' % (got, form)
        l = pr.leaks(outs[0][0])
        if l: return 'memory left allocated: ' + l[0]
    for ml in (0, 1, 32, 33, 64, 200, 5000): J('fromMessage, message of %d bytes' % ml, W(FM), lambda ml=ml: first(fm(ml, d) for d in (43, 255, 1, 0)))
    def modp(n):
        pr = k.s.pr(); st = pr.new(); c = sym(8 * n, 'number')
        pr.it.prefix_handlers.append((lambda d: d.startswith('bls12_381::fp::toMont('), lambda it, st, a: pr.wr(it, st, a[0], Bt(T(48, 'toMont', pr.rd(it, st, a[1], 48))))))
        out = pr.buf(st, 48, 'result')
        name = 'bls12_381::fp bls12_381::fp::modPrime<%dul>(' % n
        outs = pr.call(st, name, [out, pr.buf(st, c, 'number')]); k.rep.absorb(pr.it)
        if len(outs) != 1: return '%d paths' % len(outs)
        d = differ(pr.rd(pr.it, outs[0][0], out, 48), Bt(T(48, 'toMont', mod_content(c, P, 48))))
        if d: return 'result is not the Montgomery form of the number modulo the field prime: ' + d
    J('fp::modPrime<8>', W('bls12_381::fp bls12_381::fp::modPrime<8ul>('), lambda: modp(8))
    for g in (Group('g1'), Group('g2')):
        swu_obligations(k, m, g); iso_obligations(k, m, g)
    rep.parallel(k.jobs)
