"""B02: every published constant equals its mathematical definition.
The static initialisers are folded by constant propagation over the IR; each named
constant is compared with the value computed here from the curve parameter."""
from engine.util import *
from engine import build
from checks.tower import fp2pow

X = -XABS
G1X = 0x17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB
G1Y = 0x08B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1
G2X = (0x024AA2B2F08F0A91260805272DC51051C6E47AD4FA403B02B4510B647AE3D1770BAC0326A805BBEFD48056C8C121BDB8,
       0x13E02B6052719F607DACD3A088274F65596BD0D09920B61AB5DA61BBDC7F5049334CF11213945D57E5AC7D055D042B7E)
G2Y = (0x0CE5D527727D6E118CC9CDC6DA2E351AADFD9BAA8CBDD3A76D429A695160D12C923AC9CC3BACA289E193548608B82801,
       0x0606C4A02EA734CC32ACD2B02BC28B99CB3E287E85A763AF267492AB572E99AB3F370D275CEC1DA1AAA9075FF05F79BE)

def f2mul(a, b): return ((a[0]*b[0] - a[1]*b[1]) % P, (a[0]*b[1] + a[1]*b[0]) % P)
def f2inv(a):
    n = pow(a[0]*a[0] + a[1]*a[1], -1, P); return (a[0]*n % P, -a[1]*n % P)
def f2sub(a, b): return ((a[0]-b[0]) % P, (a[1]-b[1]) % P)
def f2add(a, b): return ((a[0]+b[0]) % P, (a[1]+b[1]) % P)

class EC:
    """affine curve y^2 = x^3 + b over Fp2 pairs (Fp embedded as (a,0)); None is the identity"""
    @staticmethod
    def add(p, q):
        if p is None: return q
        if q is None: return p
        if p[0] == q[0]:
            if f2add(p[1], q[1]) == (0, 0): return None
            l = f2mul(f2mul((3, 0), f2mul(p[0], p[0])), f2inv(f2mul((2, 0), p[1])))
        else:
            l = f2mul(f2sub(q[1], p[1]), f2inv(f2sub(q[0], p[0])))
        x = f2sub(f2sub(f2mul(l, l), p[0]), q[0])
        return (x, f2sub(f2mul(l, f2sub(p[0], x)), p[1]))
    @staticmethod
    def mul(k, p):
        if k < 0: k = -k; p = (p[0], ((-p[1][0]) % P, (-p[1][1]) % P))
        r = None
        while k:
            if k & 1: r = EC.add(r, p)
            p = EC.add(p, p); k >>= 1
        return r

def find(m, dem):
    for n, d in m.demangled.items():
        if d == dem and n in m.globals: return n
    for n in m.globals:
        if n == dem: return n
    return None

def run_B02(rep):
    m = build.load()
    it = Interp(m, FieldDomain()); it.run_ctors()
    st = it.gstate
    def raw(dem, size):
        n = find(m, 'bls12_381::' + dem)
        if n is None: raise AnalysisError('anchor vanished: constant ' + dem)
        p = it.global_ptr(st, n)
        v = it.load_bytes(st, p, size)
        if not isinstance(v, int): raise Violation('constant %s is not a compile-time value (%r)' % (dem, v), dem)
        return v
    def words(dem, n): return raw(dem, 8 * n)
    def fps(dem, n):
        v = raw(dem, 48 * n); out = []
        for i in range(n):
            x = (v >> (384 * i)) & ((1 << 384) - 1)
            if x >= P: raise Violation('coordinate %d of %s is not canonical' % (i, dem), dem)
            out.append(x * RINV % P)
        return out
    def eq(dem, got, want, what):
        if got != want: raise Violation('%s is %s, definition gives %s' % (what, _h(got), _h(want)), 'bls12_381::' + dem)
    def _h(x):
        return hex(x) if isinstance(x, int) else '(' + ', '.join(_h(i) for i in x) + ')'
    def chk(dem, want, get):
        rep.run('constant ' + dem, lambda: eq(dem, get(), want, dem), 'bls12_381::' + dem)
        rep.count('constants')
    # the parameter determines both moduli
    r = X**4 - X**2 + 1
    p = (X - 1)**2 * r // 3 + X
    rep.check('moduli follow from the parameter', p == P and r == Q, 'BLS12-381 parameter')
    chk('fp::MODULUS', P, lambda: words('fp::MODULUS', 6))
    chk('fp::Q', Q, lambda: words('fp::Q', 4))
    chk('fp::INP', (-pow(P, -1, 1 << 64)) % (1 << 64), lambda: words('fp::INP', 1))
    chk('fp::R1', R % P, lambda: words('fp::R1', 6))
    chk('fp::R2', R * R % P, lambda: words('fp::R2', 6))
    chk('fp::pPlus1Over4', (P + 1)//4, lambda: words('fp::pPlus1Over4', 6))
    chk('fp::pMinus1Over2', (P - 1)//2, lambda: words('fp::pMinus1Over2', 6))
    chk('fp::pMinus3Over4', (P - 3)//4, lambda: words('fp::pMinus3Over4', 6))
    chk('fp::B', [4], lambda: fps('fp::B', 1))
    chk('fp::twoInv', [(P + 1)//2], lambda: fps('fp::twoInv', 1))
    chk('fp2::B', [4, 4], lambda: fps('fp2::B', 2))
    chk('fp2::negativeOne2', [P - 1, 0], lambda: fps('fp2::negativeOne2', 2))
    xi = (1, 1)
    def fl(x): return [x[0], x[1]]
    chk('fp2::psiX', fl(f2inv(fp2pow(xi, (P - 1)//3))), lambda: fps('fp2::psiX', 2))
    chk('fp2::psiY', fl(f2inv(fp2pow(xi, (P - 1)//2))), lambda: fps('fp2::psiY', 2))
    w = []; w2 = []; w12 = []
    for i in range(6): w += fl(fp2pow(xi, (P**i - 1)//3)); w2 += fl(fp2pow(xi, 2*(P**i - 1)//3))
    for i in range(12): w12 += fl(fp2pow(xi, (P**i - 1)//6))
    chk('fp6::frobeniusCoeffs61', w, lambda: fps('fp6::frobeniusCoeffs61', 12))
    chk('fp6::frobeniusCoeffs62', w2, lambda: fps('fp6::frobeniusCoeffs62', 12))
    chk('fp12::frobeniusCoeffs12', w12, lambda: fps('fp12::frobeniusCoeffs12', 24))
    chk('g1::cofactorEFF', 1 - X, lambda: words('g1::cofactorEFF', 1))
    chk('g2::cofactorEFF', -X, lambda: words('g2::cofactorEFF', 1))
    chk('g1::BASE', [G1X, G1Y, 1], lambda: fps('g1::BASE', 3))
    chk('g2::BASE', [*G2X, *G2Y, 1, 0], lambda: fps('g2::BASE', 6))
    g1p = ((G1X, 0), (G1Y, 0)); g2p = (G2X, G2Y)
    def oncurve(pt, b):
        return f2mul(pt[1], pt[1]) == f2add(f2mul(pt[0], f2mul(pt[0], pt[0])), b)
    rep.check('generators of the definition lie on their curves and have order q',
              oncurve(g1p, (4, 0)) and oncurve(g2p, (4, 4)) and EC.mul(Q, g1p) is None and EC.mul(Q, g2p) is None, 'bls12_381::g1::BASE, g2::BASE')
    # the GLV root of unity acts on the prime-order group as multiplication by x^2-1
    def glv():
        b, = fps('fp::glvPhi1', 1)
        if (b*b + b + 1) % P: return 'not a primitive cube root of one'
        img = ((b * G1X % P, 0), (G1Y, 0))
        if img != EC.mul(X*X - 1, g1p): return 'acts as the conjugate root: (beta x, y) is not [x^2-1](x, y) on the generator'
    rep.run('constant fp::glvPhi1', glv, 'bls12_381::fp::glvPhi1')
    def psi():
        # psi(Q) = (conj(x) psiX, conj(y) psiY) acts as multiplication by x
        a = fps('fp2::psiX', 2); b = fps('fp2::psiY', 2)
        im = (f2mul((G2X[0], -G2X[1] % P), tuple(a)), f2mul((G2Y[0], -G2Y[1] % P), tuple(b)))
        if im != EC.mul(X, g2p): return 'psi does not act as [x] on the generator'
    rep.run('psi coefficients act as the parameter on G2', psi, 'bls12_381::fp2::psiX')
    # initialisers must not depend on the order in which translation units are initialised
    def order():
        for _, only in m.ctors:
            it2 = Interp(m, FieldDomain())
            rs = it2.call(it2.gstate, only, [])
            st2 = rs[0][0]
            for name in sorted({n for n, _ in it2.global_writes if n.startswith('bls12_381::')}):
                g = find(m, name)
                size = m.size(m.globals[g][0])
                if size % 48: continue
                a = it.load_bytes(st, it.global_ptr(st, g), size)
                b = it2.load_bytes(st2, it2.global_ptr(st2, g), size)
                rep.count('order_checked')
                if a != b: return 'value of %s depends on the initialisation order of other translation units' % name
    rep.run('constants do not depend on initialisation order', order, 'static initialisers')
    rep.absorb(it)
    rep.explanation = 'Constant propagation over the static initialisers of the current sources; every named constant is compared with the value computed from the BLS12-381 parameter and the tower definition, in Montgomery form and canonical.'
    rep.assumptions += ['the two generators are fixed by the standard and quoted in the checker; their order and curve membership are verified there']
