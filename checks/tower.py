"""B01: extension tower."""
from engine.util import *
from engine import build

class ModInt(AV):
    """an integer known only modulo 12"""
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
    def __repr__(self): return '%d mod 12' % self.r

class TowerDomain(FieldDomain):
    def binop(self, it, op, w, a, b, flags):
        if isinstance(a, ModInt) and isinstance(b, int):
            if op == 'urem' and b and 12 % b == 0: return a.r % b
            if op == 'and' and b in (1, 3): return a.r & b
            if op == 'urem' and b and b % 12 == 0: return a if b != 12 else a.r
            raise Violation('result depends on more than the Frobenius power modulo 12', it.where())
        return FieldDomain.binop(self, it, op, w, a, b, flags)
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, ModInt) and isinstance(b, int):
            if pred in ('eq', 'ne'):
                if b % 12 != a.r: return int(pred == 'ne')
                return Cond(('modint', b), pred == 'ne')
            return Cond(('modint', pred, b))
        return FieldDomain.icmp(self, it, pred, w, a, b)
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, ModInt):
            if op == 'trunc' and tw < 3: return v.r & ((1 << tw) - 1)
            return v
        return FieldDomain.cast(self, it, op, fw, tw, v)
    def gep(self, it, st, base, idx, w, sz):
        if isinstance(idx, ModInt):
            raise Violation('table index is the unreduced Frobenius power: out of bounds for large powers', it.where())
        return FieldDomain.gep(self, it, st, base, idx, w, sz)

# ---- tower specification on polynomials over Fp variables
XI = ONE + U
class F6:
    def __init__(s, a, b, c): s.c = (a, b, c)
    def __add__(s, o): return F6(*[x + y for x, y in zip(s.c, o.c)])
    def __sub__(s, o): return F6(*[x - y for x, y in zip(s.c, o.c)])
    def __neg__(s): return F6(*[-x for x in s.c])
    def __mul__(s, o):
        a, b = s.c, o.c
        r = [ZERO] * 5
        for i in range(3):
            for j in range(3):
                r[i + j] = r[i + j] + a[i] * b[j]
        return F6(r[0] + r[3] * XI, r[1] + r[4] * XI, r[2])
    def nr(s): return F6(s.c[2] * XI, s.c[0], s.c[1])
    def flat(s): return list(s.c)
class F12:
    def __init__(s, a, b): s.c = (a, b)
    def __add__(s, o): return F12(s.c[0] + o.c[0], s.c[1] + o.c[1])
    def __sub__(s, o): return F12(s.c[0] - o.c[0], s.c[1] - o.c[1])
    def __neg__(s): return F12(-s.c[0], -s.c[1])
    def __mul__(s, o):
        a, b = s.c; c, d = o.c
        return F12(a * c + (b * d).nr(), a * d + b * c)
    def flat(s): return s.c[0].flat() + s.c[1].flat()

def fp2pow(x, e):
    """x=(a,b) concrete Fp2"""
    r = (1, 0)
    while e:
        if e & 1: r = ((r[0]*x[0] - r[1]*x[1]) % P, (r[0]*x[1] + r[1]*x[0]) % P)
        x = ((x[0]*x[0] - x[1]*x[1]) % P, 2*x[0]*x[1] % P); e >>= 1
    return r
def c2(x): return Poly.const(x[0]) + U.scale(x[1])

LV = {'fp': 1, 'fp2': 2, 'fp6': 6, 'fp12': 12}

def elem(name, cls, pair=False):
    """symbolic element as list of Fp2 polys (or one Fp poly)"""
    n = LV[cls]
    if n == 1: return [Poly.var(V.fp(name))]
    out = []
    if n > 2 or pair:
        return [Poly.var(V.fp2('%s_%d' % (name, i))) for i in range(n // 2)]
    for i in range(n // 2):
        out.append(Poly.var(V.fp('%s%d' % (name, 2*i))) + U * Poly.var(V.fp('%s%d' % (name, 2*i+1))))
    return out
def spec(e):
    if len(e) == 1: return e[0]
    if len(e) == 3: return F6(*e)
    return F12(F6(*e[:3]), F6(*e[3:]))
def flat(x):
    if isinstance(x, Poly): return [x]
    return x.flat()

class Tower:
    def __init__(self, rep, m):
        self.rep = rep; self.m = m
    def interp(self, cls='fp2'):
        D = TowerDomain()
        it = Interp(self.m, D)
        it.run_ctors()
        D.install_fp(it)
        if cls in ('fp6', 'fp12'): D.install_fp2(it)   # established by the fp2 obligations
        return it, D
    def put(self, it, D, st, p, e, cls):
        if LV[cls] == 1: D.wr(it, st, p, FE(e[0])); return
        for i, x in enumerate(e): D.wr2(it, st, Ptr(p.obj, p.off + 96*i), x)
    def get(self, it, D, st, p, cls):
        if LV[cls] == 1:
            return [D.rd(it, st, p).poly]
        return [D.rd2(it, st, Ptr(p.obj, p.off + 96*i)) for i in range(LV[cls] // 2)]

    def one(self, name, sig, cls, args, expect, assign=False, alias=None, rcls=None, const_this=True):
        """args: list of (cls, elem) ; expect: list of Fp2 polys of result"""
        rep = self.rep
        def run():
            f = fn(self.m, sig)
            it, D = self.interp(cls)
            A = Arena(it)
            st = A.st
            this = A.buf(48 * LV[cls], 'this')
            self.put(it, D, st, this, args[0][1], cls)
            ptrs = []
            for j, a in enumerate(args[1:]):
                if a[0] == 'int':
                    ptrs.append(A.u64(a[1])); A.const_arg(ptrs[-1]); continue
                if alias and j in alias:
                    ptrs.append(this); continue
                q = A.buf(48 * LV[a[0]], 'operand%d' % j)
                self.put(it, D, st, q, a[1], a[0]); A.const_arg(q)
                ptrs.append(q)
            rc = rcls or cls
            if assign:
                call = [this] + ptrs; out = this
            else:
                A.const_arg(this)
                out = A.buf(48 * LV[rc], 'result')
                call = [out, this] + ptrs
            rs = it.call(st, f, call)
            rep.absorb(it)
            if not rs: raise Violation('no path returns', sig)
            for st2, _ in rs:
                got = self.get(it, D, st2, out, rc)
                if D.bound_issues:
                    raise Violation(*D.bound_issues[0])
                for i, (g, e) in enumerate(zip(got, expect)):
                    if self.differ(g, e, D):
                        raise Violation('coefficient %d of the result is %r, definition gives %r' % (i, g, e), where_fn(self.m, sig))
        rep.run(name, run, where_fn(self.m, sig))
    def differ(self, g, e, D):
        return g != e

def check_inverse(T, cls):
    """x * inverse(x) == 1 as rational functions"""
    rep = T.rep
    sig = 'bls12_381::%s::inverse() const' % cls
    def run():
        f = fn(T.m, sig)
        it, D = T.interp(cls); A = Arena(it); st = A.st
        x = elem('a', cls)
        this = A.buf(48 * LV[cls], 'this'); T.put(it, D, st, this, x, cls); A.const_arg(this)
        out = A.buf(48 * LV[cls], 'result')
        rs = it.call(st, f, [out, this])
        rep.absorb(it)
        if not rs: raise Violation('no path returns', sig)
        for st2, _ in rs:
            got = T.get(it, D, st2, out, cls)
            facts_zero = [k for k, t in st2.facts.items() if t and k[0] == 'z']
            if facts_zero:
                # partition where some expression is zero: only the all-zero answer or a proper inverse is right
                pass
            pr = flat(spec(x) * spec(got))
            want = [ONE] + [ZERO] * (len(pr) - 1)
            if LV[cls] == 2: want = [ONE]
            for i, (g, w) in enumerate(zip(pr, want)):
                bad = clear_inverses(g - w, D)
                if bad.d: raise Violation('x * inverse(x) has coefficient %d different from that of one (residue %r)' % (i, bad), where_fn(T.m, sig))
    rep.run('%s::inverse is the inverse' % cls, run, where_fn(T.m, sig))

def clear_inverses(poly, D):
    """multiply by inverted polynomials until no inverse variable is left; zero iff identity holds"""
    for iv in sorted(D.invs, reverse=True):
        q = D.invs[iv]
        deg = max((m.count(iv) for m in poly.d), default=0)
        if deg == 0: continue
        acc = ZERO
        powq = [ONE]
        for i in range(deg): powq.append(powq[-1] * q)
        byk = {}
        for m, c in poly.d.items():
            k = m.count(iv)
            byk.setdefault(k, {})[tuple(v for v in m if v != iv)] = c
        for k, d in byk.items():
            acc = acc + Poly(d) * powq[deg - k]
        poly = acc
    return poly

def run(rep, m=None, parts=None):
    m = m or build.load()
    T = Tower(rep, m)
    for cls in ('fp2', 'fp6', 'fp12'):
        C = 'bls12_381::%s::' % cls
        cr = 'bls12_381::%s const&' % cls
        a = elem('a', cls); b = elem('b', cls)
        A = spec(a); B = spec(b)
        for n, fnx in (('add', lambda x, y: x + y), ('subtract', lambda x, y: x - y), ('multiply', lambda x, y: x * y)):
            T.one('%s::%s' % (cls, n), C + '%s(%s) const' % (n, cr), cls, [(cls, a), (cls, b)], flat(fnx(A, B)))
            T.one('%s::%s(same object)' % (cls, n), C + '%s(%s) const' % (n, cr), cls, [(cls, a), (cls, a)], flat(fnx(A, A)), alias={0})
            T.one('%s::%sAssign' % (cls, n), C + '%sAssign(%s)' % (n, cr), cls, [(cls, a), (cls, b)], flat(fnx(A, B)), assign=True)
            T.one('%s::%sAssign(same object)' % (cls, n), C + '%sAssign(%s)' % (n, cr), cls, [(cls, a), (cls, a)], flat(fnx(A, A)), assign=True, alias={0})
        for n, an, fnx in (('dbl', 'doubleAssign', lambda x: x + x), ('square', 'squareAssign', lambda x: x * x), ('negate', None, lambda x: -x)):
            T.one('%s::%s' % (cls, n), C + n + '() const', cls, [(cls, a)], flat(fnx(A)))
            if an: T.one('%s::%s' % (cls, an), C + an + '()', cls, [(cls, a)], flat(fnx(A)), assign=True)
        check_inverse(T, cls)
    a = elem('a', 'fp2')[0]
    B4 = Poly.const(4) * (ONE + U)
    T.one('fp2::conjugate', 'bls12_381::fp2::conjugate() const', 'fp2', [('fp2', [a])], [a.conj()])
    T.one('fp2::mulByNonResidue', 'bls12_381::fp2::mulByNonResidue() const', 'fp2', [('fp2', [a])], [a * XI])
    T.one('fp2::mulByB', 'bls12_381::fp2::mulByB() const', 'fp2', [('fp2', [a])], [a * B4])
    e = Poly.var(V.fp('e'))
    T.one('fp2::mulByFq', 'bls12_381::fp2::mulByFq(bls12_381::fp const&) const', 'fp2', [('fp2', [a]), ('fp', [e])], [a * e])
    a6 = elem('a', 'fp6'); A6 = spec(a6); e0 = elem('e', 'fp2', True)[0]; e1 = elem('f', 'fp2', True)[0]; e4 = elem('g', 'fp2', True)[0]
    f2 = 'bls12_381::fp2 const&'
    T.one('fp6::mulByNonResidue', 'bls12_381::fp6::mulByNonResidue() const', 'fp6', [('fp6', a6)], A6.nr().flat())
    T.one('fp6::mulByBaseField', 'bls12_381::fp6::mulByBaseField(%s) const' % f2, 'fp6', [('fp6', a6), ('fp2', [e0])], (A6 * F6(e0, ZERO, ZERO)).flat())
    T.one('fp6::mulBy01', 'bls12_381::fp6::mulBy01(%s, %s) const' % (f2, f2), 'fp6', [('fp6', a6), ('fp2', [e0]), ('fp2', [e1])], (A6 * F6(e0, e1, ZERO)).flat())
    T.one('fp6::mulBy01Assign', 'bls12_381::fp6::mulBy01Assign(%s, %s)' % (f2, f2), 'fp6', [('fp6', a6), ('fp2', [e0]), ('fp2', [e1])], (A6 * F6(e0, e1, ZERO)).flat(), assign=True)
    T.one('fp6::mulBy1', 'bls12_381::fp6::mulBy1(%s) const' % f2, 'fp6', [('fp6', a6), ('fp2', [e1])], (A6 * F6(ZERO, e1, ZERO)).flat())
    a12 = elem('a', 'fp12'); A12 = spec(a12)
    T.one('fp12::conjugate', 'bls12_381::fp12::conjugate() const', 'fp12', [('fp12', a12)], F12(A12.c[0], -A12.c[1]).flat())
    T.one('fp12::mulBy014Assign', 'bls12_381::fp12::mulBy014Assign(%s, %s, %s)' % (f2, f2, f2), 'fp12',
          [('fp12', a12), ('fp2', [e0]), ('fp2', [e1]), ('fp2', [e4])], (A12 * F12(F6(e0, e1, ZERO), F6(ZERO, e4, ZERO))).flat(), assign=True)
    # cyclotomic squaring (Granger-Scott)
    (g0, g1_, g2_), (h0, h1, h2) = A12.c[0].c, A12.c[1].c
    def f4sq(x, y): return (x * x + y * y * XI, (x * y).scale(2))
    def f4conj(x, y): return (x, -y)
    A4 = (g0, h1); B4_ = (h0, g2_); C4 = (g1_, h2)
    a2 = f4sq(*A4); b2 = f4sq(*B4_); cc2 = f4sq(*C4)
    ra = (a2[0].scale(3) - A4[0].scale(2), a2[1].scale(3) + A4[1].scale(2))
    sc2 = (cc2[1] * XI, cc2[0])                      # s * C^2
    rb = (sc2[0].scale(3) + B4_[0].scale(2), sc2[1].scale(3) - B4_[1].scale(2))
    rc = (b2[0].scale(3) - C4[0].scale(2), b2[1].scale(3) + C4[1].scale(2))
    cyc = [ra[0], rc[0], rb[1], rb[0], ra[1], rc[1]]
    T.one('fp12::cyclotomicSquare', 'bls12_381::fp12::cyclotomicSquare() const', 'fp12', [('fp12', a12)], cyc)
    T.one('fp12::cyclotomicSquareAssign', 'bls12_381::fp12::cyclotomicSquareAssign()', 'fp12', [('fp12', a12)], cyc, assign=True)
    # Frobenius
    for r in range(12):
        g3 = c2(fp2pow((1, 1), (P**r - 1) // 3)); g6 = c2(fp2pow((1, 1), (P**r - 1) // 6))
        cj = (lambda x: x.conj()) if r & 1 else (lambda x: x)
        def fr6(x): return F6(cj(x.c[0]), cj(x.c[1]) * g3, cj(x.c[2]) * g3 * g3)
        def fr12(x):
            y = fr6(x.c[1])
            return F12(fr6(x.c[0]), F6(*[k * g6 for k in y.c]))
        for cls, el, ex in (('fp2', [a], [cj(a)]), ('fp6', a6, fr6(A6).flat()), ('fp12', a12, fr12(A12).flat())):
            C = 'bls12_381::%s::' % cls
            T.one('%s::frobeniusMap(power = %d mod 12)' % (cls, r), C + 'frobeniusMap(unsigned long const&) const', cls, [(cls, el), ('int', ModInt(r))], ex)
            T.one('%s::frobeniusMapAssign(power = %d mod 12)' % (cls, r), C + 'frobeniusMapAssign(unsigned long const&)', cls, [(cls, el), ('int', ModInt(r))], ex, assign=True)
    return rep

def predicates(rep, m):
    """zero, one and equality: the answer is the conjunction over all coordinates, on every path"""
    from engine.field import zkey
    for cls, n in (('fp2', 2), ('fp6', 6), ('fp12', 12)):
        C = 'bls12_381::%s::' % cls; xs = [Poly.var(V.fp('x%d' % i)) for i in range(n)]; ys = [Poly.var(V.fp('y%d' % i)) for i in range(n)]
        one = [ONE] + [ZERO] * (n - 1)
        def static(name, want, n=n, C=C):
            sig = C + name + '()'; D = FieldDomain(); it = Interp(m, D); it.run_ctors(); D.install_fp(it); st = it.gstate.clone()
            out = it.new_obj(st, 48 * n, 'arg', 'result')
            for s, _ in it.call(st, fn(m, sig), [out]):
                for i in range(n):
                    if D.rd(it, s, Ptr(out.obj, 48 * i)).poly != want[i]: raise Violation('coordinate %d is wrong' % i, where_fn(m, sig))
            rep.absorb(it)
        rep.run('%s::zero()' % cls, lambda: static('zero', [ZERO] * n), where_fn(m, C + 'zero()'))
        rep.run('%s::one()' % cls, lambda: static('one', one), where_fn(m, C + 'one()'))
        def pred(sig, ds, second, same=False, n=n, C=C, xs=xs, ys=ys):
            D = FieldDomain(); it = Interp(m, D); it.run_ctors(); D.install_fp(it); st = it.gstate.clone(); it.max_forks = 10 ** 5
            W = where_fn(m, C + sig); a = [it.new_obj(st, 48 * n, 'arg', 'this')]
            for i in range(n): D.wr(it, st, Ptr(a[0].obj, 48 * i), FE(xs[i]))
            st.mem[a[0].obj].ro = True
            if second:
                a.append(a[0] if same else it.new_obj(st, 48 * n, 'arg', 'other'))
                if not same:
                    for i in range(n): D.wr(it, st, Ptr(a[1].obj, 48 * i), FE(ys[i]))
                    st.mem[a[1].obj].ro = True
            keys = [zkey(d) for d in ds]; seen = set()
            rs = it.call(st, fn(m, C + sig), a); rep.absorb(it)
            for s, r in rs:
                for truth in (0, 1):
                    if isinstance(r, int):
                        if (r & 1) != truth: continue
                        t = s
                    else:
                        k = D.decide(it, s, r)
                        if k is not None and bool(k) != bool(truth): continue
                        t = s.clone(); D.assume(it, t, r, bool(truth))
                    seen.add(truth); f = [t.facts.get(k) for k in keys]
                    if truth and not all(f): raise Violation('answers true although coordinate %d may differ' % [i for i in range(n) if not f[i]][0], W)
                    if not truth and not any(x is False for x in f): raise Violation('answers false although all coordinates may agree', W)
            if keys and seen != {0, 1} or not keys and seen != {1}: raise Violation('always answers %s' % sorted(seen), W)
        rep.run('%s::isZero' % cls, lambda: pred('isZero() const', xs, False), where_fn(m, C + 'isZero() const'))
        rep.run('%s::isOne' % cls, lambda: pred('isOne() const', [x - o for x, o in zip(xs, one)], False), where_fn(m, C + 'isOne() const'))
        eq = 'equal(bls12_381::%s const&) const' % cls
        rep.run('%s::equal' % cls, lambda: pred(eq, [x - y for x, y in zip(xs, ys)], True), where_fn(m, C + eq))
        rep.run('%s::equal(same object)' % cls, lambda: pred(eq, [], True, True), where_fn(m, C + eq))

def run_B01(rep):
    import checks.scale as scale
    m = build.load(); m2 = scale.load()
    rep.explanation = 'every tower operation interpreted over polynomials in symbolic coordinates and compared with the tower relations; predicates as conjunctions over coordinates on every path; power loops over linear forms in the exponent bits'
    rep.assumptions += ['base-field primitives are exact (A01, A03)']
    jobs = [lambda r: run(r, m), lambda r: predicates(r, m)]
    jobs += scale.loop_jobs(rep, m2, 'fp6', 'exp', 'fp6') + scale.loop_jobs(rep, m2, 'fp12', 'exp', 'fp12') + scale.loop_jobs(rep, m2, 'fp12', 'cyclotomicExp', 'fp12')
    rep.parallel(jobs)
