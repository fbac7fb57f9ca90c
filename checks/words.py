"""A04 word-level helpers and multi-word integer routines."""
import os
from engine.wutil import *

B64 = 1 << 64
FULL = (0, B64 - 1); BIT = (0, 1)
# helper -> (operand ranges, number of result words, exact integer result over the operands, does the result fit)
SPEC = {
 'Add64': ([FULL, FULL, BIT], 2, lambda x, y, c: x + y + c),
 'Sub64': ([FULL, FULL, BIT], 2, lambda x, y, c: x - y - c),
 'Mul64': ([FULL] * 2, 2, lambda x, y: x * y),
 'madd': ([FULL] * 5, 3, lambda a, b, t, u, v: a * b + v + u.scale(B64) + t.scale(B64 * B64)),
 'madd0': ([FULL] * 3, 1, lambda a, b, c: a * b + c),
 'madd1': ([FULL] * 3, 2, lambda a, b, c: a * b + c),
 'madd2': ([FULL] * 4, 2, lambda a, b, c, d: a * b + c + d),
 'madd3': ([FULL] * 5, 2, lambda a, b, c, d, e: a * b + c + d + e.scale(B64)),
 'madd2s': ([FULL, FULL, FULL, BIT, FULL], 3, lambda a, b, c, d, e: (a * b).scale(2) + c + d.scale(B64) + e),
 'madd1s': ([FULL, FULL, BIT, FULL], 3, lambda a, b, d, e: (a * b).scale(2) + d.scale(B64) + e),
 'madd2sb': ([FULL] * 4, 3, lambda a, b, c, e: (a * b).scale(2) + c + e),
 'madd1sb': ([FULL] * 3, 3, lambda a, b, e: (a * b).scale(2) + e),
}
MODULAR = {'madd': 192, 'madd3': 128}   # result kept modulo 2^k where it may not fit

def helper(rep, H, f):
    rng, nres, spec = SPEC[f]
    sig = 'bls12_381::%s(%s)' % (f, ', '.join([U64C] * len(rng)))
    def body():
        A = H.fresh(); D = H.D
        args = []; vals = []
        for i, (lo, hi) in enumerate(rng):
            w = H.word('abcde'[i], lo, hi); args.append(H.wordbuf(w)); vals.append(w.p)
        out = None
        if nres > 1: out = A.buf(8 * nres, 'result')
        rs = H.call(sig, ([out] if out else []) + args)
        want = spec(*vals)
        if not rs: raise Violation('no path returns', sig)
        rep.count('paths', len(rs))
        for st, ret in rs:
            ctx = H.ctx(st)
            if not ctx.feasible(): continue
            if f == 'Add64' or f == 'Sub64':
                v, c = H.read(st, out, 2)[::-1]       # tuple<word, carry>: the first element is stored last
                lo, hi = ctx.bound(c)
                if lo < 0 or hi > 1: return 'the carry may be outside 0/1'
                lo, hi = ctx.bound(v)
                if lo < 0 or hi >= B64: return 'result word out of range'
                got = v + c.scale(B64 if f == 'Add64' else -B64)
                if not H.same(st, got, want): return 'result %r, expected %r' % (ctx.norm(got), ctx.norm(want))
                continue
            if out is None:
                hi = ctx.norm(D.P(D.resolve(ctx, ret)))
                l, q = D.wrap(ctx, [want], 64)
                if not H.same(st, hi, q): return 'returns %r, expected the upper word of %r' % (hi, want)
                continue
            ws = H.read(st, out, nres)                # tuple<hi,...,lo>: the last element is stored first
            for i, w in enumerate(ws):
                lo, hi = ctx.bound(w)
                if lo < 0 or hi >= B64: return 'result word %d out of range' % i
            got = H.value(ws)
            if H.same(st, got, want): continue
            k = MODULAR.get(f)
            if k is None or not congruent(H, ctx, ws, want, k):
                return 'result %r, expected %r' % (ctx.norm(got), ctx.norm(want))
        rep.absorb(H.it); H.it.steps = H.it.mem_checks = H.it.forks = 0
    rep.run('%s is exact' % f, body, H.where(sig))

def congruent(H, ctx, ws, want, k):
    """words ws represent want modulo 2^k: the upper word is compared through the linear form it is congruent to"""
    top = ctx.norm(ws[-1]); s = top.single()
    if s is None or VT.lin[s] is None:
        for v, l in enumerate(VT.lin):
            if l is not None and v in VT.parts and ctx.norm(WP.var(v)) == top: s = v; break
        else: return False
    t = H.D.linpoly(VT.lin[s][0], 64)
    low = H.value(ws[:-1]) + t.scale(1 << (64 * (len(ws) - 1)))
    d = ctx.norm(low - want)
    return d.e == 0 and all(c % (1 << k) == 0 for c in d.d.values())

def helpers(rep, m, tag=''):
    H = WHarness(m)
    for f in SPEC: helper(rep, H, f)


PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'probes', 'scalar_probe.cpp')
ADDS = ((1, 1, 1), (2, 1, 1), (3, 1, 2), (4, 4, 4), (5, 4, 4), (6, 6, 6), (7, 6, 4), (8, 8, 8), (10, 4, 4), (10, 10, 10), (3, 4, 4))
MULS = ((2, 1, 1), (3, 1, 2), (3, 2, 1), (8, 4, 4), (10, 4, 4), (10, 6, 4), (12, 6, 6))
WIDTHS = (1, 2, 3, 4, 6, 8)
class PH(WHarness):
    """harness over the probe entry points; thrown states are kept"""
    def __init__(self, m):
        super().__init__(m); self.thrown = []
        self.D.on_throw = lambda it, st: self.thrown.append(st)
        install_word_prims(self)
    def probe(self, name, args):
        if name not in self.m.functions: raise AnalysisError('probe %s missing' % name)
        self.thrown = []
        return self.it.call(self.st, name, args)
    def done(self, rep):
        rep.absorb(self.it); self.it.steps = self.it.mem_checks = self.it.forks = 0
    def full(self, nm, n):
        p, xs, X = self.num(nm, 0, (1 << (64 * n)) - 1, n)
        return p, xs, value(xs)

def wh(m, frag):
    c = [d for d in m.bydem if frag in d]
    return where_fn(m, min(c, key=len)) if c else frag

def chk_add(rep, H, nc, na, nb):
    def body():
        A = H.fresh()
        pa, _, X = H.full('a', na); pb, _, Y = H.full('b', nb); out = A.buf(8 * nc, 'sum')
        rs = H.probe('probe_add_%d_%d_%d' % (nc, na, nb), [out, pa, pb])
        S = X + Y
        for st, _ in rs:
            if not H.ctx(st).feasible(): continue
            if not H.same(st, H.value(H.read(st, out, nc)), S): return 'the sum of %d and %d words returned in %d words is not exact' % (na, nb, nc)
        for st in H.thrown:
            ctx = H.ctx(st)
            if not ctx.feasible(): continue
            if max(na, nb) > nc: continue       # may not fit: reported
            if ctx.bound(S)[0] < 1 << (64 * nc): return 'reports overflow where the sum may fit'
        if not rs and not H.thrown: return 'neither returns nor reports'
        rep.count('paths', len(rs) + len(H.thrown)); H.done(rep)
    rep.run('add %d words + %d words -> %d words' % (na, nb, nc), body, wh(H.m, 'scalar::add<'))

def chk_mul(rep, H, nc, na, nb):
    def body():
        A = H.fresh()
        pa, _, X = H.full('a', na); pb, _, Y = H.full('b', nb); out = A.buf(8 * nc, 'product')
        rs = H.probe('probe_mul_%d_%d_%d' % (nc, na, nb), [out, pa, pb])
        for st, _ in rs:
            if not H.ctx(st).feasible(): continue
            if not H.same(st, H.value(H.read(st, out, nc)), X * Y): return 'the product of %d and %d words is not exact' % (na, nb)
        for st in H.thrown:
            if H.ctx(st).feasible(): return 'reports overflow for a product that fits'
        if not rs: return 'never returns'
        rep.count('paths', len(rs)); H.done(rep)
    rep.run('multiply %d words * %d words -> %d words' % (na, nb, nc), body, wh(H.m, 'scalar::multiply<'))

def sx(v): return v - (1 << 32) if isinstance(v, int) and v >> 31 else v
def chk_cmp(rep, H, n):
    def body():
        H.fresh()
        pa, _, X = H.full('a', n); pb, _, Y = H.full('b', n)
        rs = H.probe('probe_cmp_%d' % n, [pa, pb]); seen = set()
        for st, r in rs:
            ctx = H.ctx(st)
            if not ctx.feasible(): continue
            r = sx(H.D.resolve(ctx, r)) if not isinstance(r, int) else sx(r)
            lo, hi = ctx.bound(X - Y)
            seen.add(r)
            if not ((r == -1 and hi < 0) or (r == 1 and lo > 0) or (r == 0 and (lo, hi) == (0, 0))): return 'answers %r where a - b is in [%d, %d]' % (r, lo, hi)
        if seen != {-1, 0, 1}: return 'not every ordering is reachable: %r' % seen
        rep.count('paths', len(rs)); H.done(rep)
    rep.run('cmp of %d words' % n, body, wh(H.m, 'scalar::cmp<'))
def chk_equal(rep, H, n):
    def body():
        H.fresh()
        pa, xs, X = H.full('a', n); pb, ys, Y = H.full('b', n)
        rs = H.probe('probe_equal_%d' % n, [pa, pb]); seen = set()
        for st, r in rs:
            ctx = H.ctx(st)
            if not ctx.feasible(): continue
            for truth in (0, 1):
                c = ctx.copy()
                if isinstance(r, int):
                    if r != truth: continue
                elif not H.D.assume_b(c, r, truth): continue
                if not c.feasible(): continue
                seen.add(truth)
                same = all(c.bound(x - y) == (0, 0) for x, y in zip(xs, ys))
                differ = any(strict(c, x - y) for x, y in zip(xs, ys))
                if truth and not same: return 'answers true where a word may differ'
                if not truth and not differ: return 'answers false where all words may agree'
        if seen != {0, 1}: return 'not every answer is reachable'
        rep.count('paths', len(rs)); H.done(rep)
    rep.run('equal of %d words' % n, body, wh(H.m, 'scalar::equal<'))

def strict(ctx, p):
    """p is known to be non-zero"""
    lo, hi = ctx.bound(p)
    if lo > 0 or hi < 0: return True
    p = ctx.norm(p)
    for q in (p, -p):
        v = VT.bools.get(frozenset([q]))
        if v is not None and ctx.bound(WP.var(v)) == (0, 0): return True
    return False

def chk_bitlen(rep, H, n):
    def body():
        for L in range(64 * n + 1):
            A = H.fresh(); p = A.buf(8 * n, 'a')
            top = (L - 1) // 64 if L else -1
            for i in range(n):
                if i > top: v = 0
                elif i == top:
                    b = (L - 1) % 64
                    v = W(WP.var(VT.named('a.%d' % i, 1 << b, (2 << b) - 1)), 64) if b else 1
                else: v = H.word('a.%d' % i)
                H.it.store_bytes(H.st, Ptr(p.obj, 8 * i), 8, v)
            A.const_arg(p)
            rs = H.probe('probe_bitlen_%d' % n, [p])
            rs = [(s, r) for s, r in rs if H.ctx(s).feasible()]
            if not rs: return 'does not return'
            for s, r in rs:
                if H.ctx(s).bound(H.D.P(r)) != (L, L): return 'a number of %d bits is given length %r' % (L, r)
            rep.count('paths', len(rs))
        H.done(rep)
    rep.run('bitLength of %d words' % n, body, wh(H.m, 'scalar::bitLength<'))

def chk_rsh(rep, H, n):
    def body():
        for alias in (False, True):
            for k in list(range(64 * n)) + ['large']:
                if alias and k == 'large': continue
                A = H.fresh(); p, xs, X = H.num('a', 0, (1 << (64 * n)) - 1, n, const=not alias); out = p if alias else A.buf(8 * n, 'out')
                kk = k if k != 'large' else H.word('bits', 64 * n, B64 - 1)
                rs = H.probe('probe_rsh_%d' % n, [out, p, kk])
                if not rs: return 'does not return'
                for s, _ in rs:
                    ctx = H.ctx(s)
                    if not ctx.feasible(): continue
                    got = H.value(H.read(s, out, n))
                    if k == 'large': 
                        if ctx.bound(got) != (0, 0): return 'a shift by at least the width does not give zero'
                        continue
                    # X = got * 2^k + r with 0 <= r < 2^k, word by word
                    r = ctx.norm(value(xs) - got.scale(1 << k))
                    lo, hi = Ctx.raw(ctx, r) if not r.e else (-1, 0)
                    if lo < 0 or hi >= 1 << k: return 'a shift by %d is not exact: remainder %r' % (k, r)
                    g = ctx.norm(got); lo, hi = ctx.bound(g)
                    if lo < 0: return 'a shift by %d is negative' % k
                rep.count('paths', len(rs))
        H.done(rep)
    rep.run('rsh of %d words by every amount' % n, body, wh(H.m, 'scalar::rsh<'))

def value(ws):
    z = ZERO
    for i, w in enumerate(ws): z = z + w.scale(1 << (64 * i))
    return z

def run_A04(rep):
    m = load_default()
    mp = build.load(extra_sources=[PROBE], name='scalarprobe')
    jobs = [lambda r: helpers(r, m)]
    H = PH(mp)
    for a in ADDS: jobs.append(lambda r, a=a: chk_add(r, H, *a))
    for a in MULS: jobs.append(lambda r, a=a: chk_mul(r, H, *a))
    for n in WIDTHS:
        for f in (chk_cmp, chk_equal, chk_bitlen, chk_rsh): jobs.append(lambda r, f=f, n=n: f(r, H, n))
    from checks import divn
    divn.helper_jobs(H, jobs, 10)
    for N, M, V, what in ((4, 4, divn.ORDER, 'the group order'), (6, 4, divn.ORDER, 'the group order'), (8, 4, divn.ORDER, 'the group order'), (6, 6, P, 'the field modulus'), (8, 6, P, 'the field modulus')):
        jobs.append(lambda r, a=(N, M, V, what): divn.division(r, H, *a))
    rep.parallel(jobs)
