"""long division: helper routines, then the digit loop with the remainder invariant"""
from engine.wutil import *
from engine.util import loops, pure_region
from checks.words import PH, value, B64, wh, sx

U = 'unsigned long'
HS = {
 'subn': 'bls12_381::bn_subn_low(unsigned long*, unsigned long const*, unsigned long const*, int)',
 'addn': 'bls12_381::bn_addn_low(unsigned long*, unsigned long const*, unsigned long const*, int)',
 'sub1': 'bls12_381::bn_sub1_low(unsigned long*, unsigned long const*, unsigned long, int)',
 'add1': 'bls12_381::bn_add1_low(unsigned long*, unsigned long const*, unsigned long, int)',
 'mul1': 'bls12_381::bn_mul1_low(unsigned long*, unsigned long const*, unsigned long, int)',
 'lshb': 'bls12_381::bn_lshb_low(unsigned long*, unsigned long const*, int, int)',
 'rshb': 'bls12_381::bn_rshb_low(unsigned long*, unsigned long const*, int, int)',
 'cmp': 'bls12_381::dv_cmp(unsigned long const*, unsigned long const*, int)',
 'lshd': 'bls12_381::dv_lshd(unsigned long*, unsigned long const*, int, int)',
 'rshd': 'bls12_381::dv_rshd(unsigned long*, unsigned long const*, int, int)',
}
DIVN = 'bls12_381::bn_divn_low(unsigned long*, unsigned long*, unsigned long*, int, unsigned long*, int)'
ORDER = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001

def policy(it, st, f, blk, c): return 'join' if pure_region(f, blk) else 'fork'

def words_at(H, it, st, p, n):
    D = H.D; out = []
    for i in range(n):
        v = it.load_bytes(st, Ptr(p.obj, p.off + 8 * i), 8)
        if v is UNDEF: raise Violation('undefined word used', it.where())
        out.append(D.P(D.resolve(D.ctx(st), v)))
    return out
def put(H, it, st, p, i, v): it.store_bytes(st, Ptr(p.obj, p.off + 8 * i), 8, H.D.mk(H.D.ctx(st), v, 64))

# ---- transfer functions (each is itself an obligation of this check)
def chain(H, sub, digit):
    def h(it, st, a):
        D = H.D; n = conc(a[3], it); xs = words_at(H, it, st, a[1], n); ctx = D.wctx(st)
        if digit: c = D.P(D.resolve(ctx, a[2])); ys = [ZERO] * n
        else: c = ZERO; ys = words_at(H, it, st, a[2], n)
        T = value(xs) - value(ys) if sub else value(xs) + value(ys)
        if digit: T = T - c if sub else T + c
        lo, hi = ctx.bound(T)
        for i in range(n):
            parts = [xs[i], -ys[i], -c] if sub else [xs[i], ys[i], c]
            if i == n - 1 and lo >> 64 * n == hi >> 64 * n:
                q = WP.const(lo >> 64 * n); r = parts[0] + parts[1] + parts[2] - q.scale(B64)
                ctx.know(r, 0, B64 - 1)
            else: r, q = D.wrap(ctx, parts, 64)
            put(H, it, st, a[0], i, r); c = -q if sub else q
        return D.mk(ctx, ctx.norm(c), 64)
    return h
def mul1(H):
    def h(it, st, a):
        D = H.D; n = conc(a[3], it); xs = words_at(H, it, st, a[1], n); ctx = D.wctx(st); d = D.P(D.resolve(ctx, a[2])); c = ZERO
        for i in range(n):
            r, c = D.wrap(ctx, [xs[i] * d, c], 64); put(H, it, st, a[0], i, r)
        return D.mk(ctx, ctx.norm(c), 64)
    return h
def lshb(H):
    def h(it, st, a):
        D = H.D; n = conc(a[2], it); k = conc(a[3], it); xs = words_at(H, it, st, a[1], n); ctx = D.wctx(st); c = ZERO
        for i in range(n):
            r, c = D.wrap(ctx, [xs[i].scale(1 << k), c], 64); put(H, it, st, a[0], i, r)
        return D.mk(ctx, ctx.norm(c), 64)
    return h
def rshb(H):
    def h(it, st, a):
        D = H.D; n = conc(a[2], it); k = conc(a[3], it); xs = words_at(H, it, st, a[1], n); ctx = D.wctx(st)
        N = ctx.norm(value(xs))
        if N.e or any(c & ((1 << k) - 1) for c in N.d.values()):
            return it.exec_function(st, it.m.functions[it.m.bydem[HS['rshb']]], a)
        M = WP({m: c >> k for m, c in N.d.items()})
        for i in range(n - 1):
            r, M = D.wrap(ctx, [M], 64); put(H, it, st, a[0], i, r)
        lo, hi = ctx.bound(M)
        if lo < 0 or hi >= B64: raise AnalysisError('upper word of a shifted number is not bounded')
        put(H, it, st, a[0], n - 1, M)
        return 0
    return h
def cmp_(H):
    def h(it, st, a):
        D = H.D; n = conc(a[2], it)
        H.ncmp += 1
        if H.ncmp > 120: raise Violation('comparisons of the division do not end: a trial digit or the leading digit is corrected without bound', it.where())
        d = value(words_at(H, it, st, a[0], n)) - value(words_at(H, it, st, a[1], n))
        out = []
        for r, (lo, hi) in ((0xffffffff, (None, -1)), (0, (0, 0)), (1, (1, None))):
            s = st.clone(); c = D.wctx(s)
            if c.learn(d, lo, hi) and c.feasible(): out.append((s, r))
        return out
    return h
def conc(v, it):
    if isinstance(v, int): return v
    raise AnalysisError('length is not constant at %s' % it.where())

def install(H):
    mk = {'subn': lambda: chain(H, True, False), 'addn': lambda: chain(H, False, False), 'sub1': lambda: chain(H, True, True), 'add1': lambda: chain(H, False, True),
          'mul1': lambda: mul1(H), 'lshb': lambda: lshb(H), 'rshb': lambda: rshb(H), 'cmp': lambda: cmp_(H)}
    got = []
    for k, f in mk.items():
        if HS[k] in H.m.bydem: H.it.handlers[HS[k]] = f(); got.append(k)
    return got

# ---- the helpers themselves
def helper_jobs(H, jobs, top):
    def add(name, key, body):
        if HS[key] not in H.m.bydem: return
        def job(r, name=name, body=body):
            H.D.branch_policy = policy
            r.run(name, lambda: body(r), where_fn(H.m, HS[key])); H.done(r)
        jobs.append(job)
    def lin(key, sub, digit, alias):
        def body(r):
            for n in range(1, top + 1):
                A = H.fresh(); pa, xs, X = H.num('a', 0, (1 << 64 * n) - 1, n, const=not alias); X = value(xs)
                out = pa if alias else A.buf(8 * n, 'out')
                if digit: w = H.word('d'); y = w; Y = w.p
                else: y, ys, Y = H.num('b', 0, (1 << 64 * n) - 1, n); Y = value(ys)
                rs = H.it.call(H.st, fn(H.m, HS[key]), [out, pa, y, n])
                if not rs: return 'does not return'
                for st, c in rs:
                    ctx = H.ctx(st)
                    if not ctx.feasible(): continue
                    c = H.D.P(H.D.resolve(ctx, c))
                    got = H.value(H.read(st, out, n)) + (-c if sub else c).scale(1 << 64 * n)
                    if not H.same(st, got, X - Y if sub else X + Y): return 'not exact for %d words: %r' % (n, ctx.norm(got - X))
                r.count('paths', len(rs))
        return body
    for key, sub, digit in (('subn', 1, 0), ('addn', 0, 0), ('sub1', 1, 1), ('add1', 0, 1)):
        for alias in (0, 1):
            add('%s is exact%s' % (HS[key].split('(')[0].split('::')[1], ' in place' if alias else ''), key, lin(key, sub, digit, alias))
    def bmul(alias):
        def body(r):
            for n in range(1, top + 1):
                A = H.fresh(); pa, xs, X = H.num('a', 0, (1 << 64 * n) - 1, n, const=not alias); out = pa if alias else A.buf(8 * n, 'out'); d = H.word('d')
                rs = H.it.call(H.st, fn(H.m, HS['mul1']), [out, pa, d, n])
                if not rs: return 'does not return'
                for st, c in rs:
                    ctx = H.ctx(st)
                    if not ctx.feasible(): continue
                    c = H.D.P(H.D.resolve(ctx, c))
                    if not H.same(st, H.value(H.read(st, out, n)) + c.scale(1 << 64 * n), value(xs) * d.p): return 'not exact for %d words' % n
                r.count('paths', len(rs))
        return body
    for al in (0, 1): add('bn_mul1_low is exact%s' % (' in place' if al else ''), 'mul1', bmul(al))
    def bsh(left):
        def body(r):
            for n in (1, 2, 4, 6, top):
                for k in range(1 if left else 0, 64):
                    A = H.fresh(); pa, xs, X = H.num('a', 0, (1 << 64 * n) - 1, n, const=not left); out = pa if left else A.buf(8 * n, 'out')
                    rs = H.it.call(H.st, fn(H.m, HS['lshb' if left else 'rshb']), [out, pa, n, k])
                    if not rs: return 'does not return'
                    for st, c in rs:
                        ctx = H.ctx(st)
                        c = H.D.P(H.D.resolve(ctx, c)); got = H.value(H.read(st, out, n))
                        if left: ok = H.same(st, got + c.scale(1 << 64 * n), value(xs).scale(1 << k))
                        else: ok = H.same(st, got.scale(1 << k) + c, value(xs)) and ctx.bound(c)[0] >= 0 and ctx.bound(c)[1] < (1 << k)
                        if not ok: return 'shift of %d words by %d bits is not exact' % (n, k)
                    r.count('paths', len(rs))
        return body
    add('bn_lshb_low is exact', 'lshb', bsh(True)); add('bn_rshb_low is exact', 'rshb', bsh(False))
    def bcmp(r):
        for n in range(1, top + 1):
            H.fresh(); H.D.branch_policy = lambda *a: 'fork'
            pa, xs, _ = H.num('a', 0, (1 << 64 * n) - 1, n); pb, ys, _ = H.num('b', 0, (1 << 64 * n) - 1, n)
            seen = set()
            for st, v in H.it.call(H.st, fn(H.m, HS['cmp']), [pa, pb, n]):
                ctx = H.ctx(st)
                if not ctx.feasible(): continue
                pv = ctx.norm(H.D.P(H.D.resolve(ctx, v))); alts = [ctx]
                if not pv.is_const():
                    alts = []
                    for q, b in list(ctx.known.items()):
                        if b in ((0, 1), (-1, 0)) and q.vars() <= pv.vars():
                            for t in b:
                                c2 = ctx.copy()
                                if c2.learn(q, t, t) and H.D.strict(c2) and c2.feasible(): alts.append(c2)
                            break
                    if not alts: raise AnalysisError('result %r is not decided' % pv)
                for c2 in alts:
                    lo, hi = c2.bound(value(xs) - value(ys)); t = c2.norm(pv)
                    if not t.is_const(): raise AnalysisError('result %r is not decided' % t)
                    t = sx(t.d.get((), 0)); seen.add(t)
                    if not ((t == -1 and hi < 0) or (t == 1 and lo > 0) or (t == 0 and (lo, hi) == (0, 0))): return 'answers %r for %d words where a - b is in [%d, %d]' % (t, n, lo, hi)
                r.count('paths')
            if seen != {-1, 0, 1}: return 'not every ordering is reachable'
    add('dv_cmp is exact', 'cmp', bcmp)
    def bdig(left):
        def body(r):
            for n in range(1, top + 1):
                for k in range(0, n + 1):
                    A = H.fresh(); pa, xs, _ = H.num('a', 0, (1 << 64 * n) - 1, n, const=False)
                    for st, _ in H.it.call(H.st, fn(H.m, HS['lshd' if left else 'rshd']), [pa, pa, n, k]):
                        got = H.read(st, pa, n)
                        want = [ZERO] * k + xs[:n - k] if left else xs[k:] + [ZERO] * k
                        if any((g - w).d for g, w in zip(got, want)): return 'shift of %d words by %d words is wrong' % (n, k)
                        r.count('paths')
        return body
    add('dv_lshd moves whole words', 'lshd', bdig(True)); add('dv_rshd moves whole words', 'rshd', bdig(False))

# ---- the division
class Inv:
    """generalises the state at the head of the digit loop: Xs = C*V + U with U < V * 2^(64k)"""
    def __init__(self, H):
        self.H = H; self.seen = set(); self.n = 0
    def enter(self, st, c, a, b, sa, sb):
        pass
    def hook(self, it, st, env, prev):
        H = self.H; D = H.D; ctx = D.ctx(st)
        if not ctx.feasible(): return False
        cp, ap, bp = self.ptrs
        nw = (st.mem[ap.obj].size - ap.off) // 8
        a = words_at(H, it, st, ap, nw); b = words_at(H, it, st, bp, nw)
        V = ctx.norm(value(b))
        if not V.is_const(): raise AnalysisError('divisor is not constant at the loop head')
        V = V.d.get((), 0)
        nc = (st.mem[cp.obj].size - cp.off) // 8
        c = words_at(H, it, st, cp, nc)
        Uv = value(a); Cv = value(c); X = st.aux.get('X', self.X0)
        s = 0
        while V >> s > self.V0: s += 1
        if V != self.V0 << s: return True
        E = ctx.norm(X.scale(1 << s) - Cv.scale(V) - Uv)
        if E.d:
            f = ctx.fold(E)
            if f is None or ctx.norm(f).d: raise Violation('dividend = quotient * divisor + remainder is not maintained: %r' % E, it.where())
        lo, hi = ctx.bound(Uv)
        k = 0
        while hi >= V << (64 * k): k += 1
        key = tuple((n, v) for n, v in sorted(env.items()) if isinstance(v, int)) + (k, s)
        key = (k, s, tuple(v for n, v in sorted(env.items()) if isinstance(v, int) and n in self.live))
        if lo < 0: raise Violation('the partial remainder may be negative', it.where())
        if key in self.seen: return False
        self.seen.add(key); self.n += 1; H.ncmp = 0
        # generalise
        nctx = Ctx(); st.aux['w'] = nctx
        # the partial remainder is 2^s * (dividend - quotient * divisor): a multiple of 2^s
        top = self.V0 << 64 * k
        rw = 0
        while top - 1 >> 64 * rw: rw += 1
        ws, R = number('rem%d' % self.n, rw, 0, top - 1)
        ws = ws + [ZERO] * (nw - rw); c0 = ZERO
        for i, w in enumerate(ws):
            w, c0 = D.wrap(nctx, [w.scale(1 << s), c0], 64)
            put(H, it, st, ap, i, w)
        if nctx.bound(c0) != (0, 0): raise AnalysisError('partial remainder does not fit')
        cs = []
        for i, x in enumerate(c):
            w = x if x.is_const() else WP.var(VT.named('quo%d.%d' % (self.n, i), 0, B64 - 1))
            cs.append(w); put(H, it, st, cp, i, w)
        a2 = words_at(H, it, st, ap, nw)
        st.aux['X'] = value(cs).scale(self.V0) + value(ws); st.aux['s'] = s
        return True

def division(rep, H, N, M, V, what):
    H = PH(H.m)          # own interpreter: the transfer functions must not leak into other obligations
    def body():
        A = H.fresh(); H.D.branch_policy = policy; install(H); H.ncmp = 0
        X0 = None
        pa, xs, _ = H.num('a', 0, (1 << 64 * N) - 1, N); X = value(xs)
        pb = A.buf(8 * M, 'divisor')
        for i in range(M): H.it.store_bytes(H.st, Ptr(pb.obj, 8 * i), 8, V >> 64 * i & (B64 - 1))
        A.const_arg(pb)
        q = A.buf(8 * N, 'quotient'); r = A.buf(8 * M, 'remainder')
        inv = Inv(H); inv.X0 = X; inv.V0 = V
        H.it.block_hooks = {}
        f = H.m.functions.get(H.m.bydem.get(DIVN, ''))
        if f is not None:
            f.parse(); L = loops(f); best = None
            for h, blks in L.items():
                if any(i.op == 'call' and i.extra[0][0] == 'g' and H.m.demangled.get(i.extra[0][1], '') == HS['subn'] for bb in blks for i in f.blocks[bb]):
                    if any(h2 != h and h2 in blks for h2 in L): best = h
            if best:
                inv.live = {i.res for i in f.blocks[best] if i.op == 'phi'}
                H.it.block_hooks[(f.name, best)] = inv.hook
                orig = H.it.exec_function
                def ef(st, fx, args):
                    if fx is f: inv.ptrs = (args[0], args[2], args[4])
                    return orig(st, fx, args)
                H.it.exec_function = ef
        try: rs = H.probe('probe_divn_%d_%d' % (N, M), [q, r, pa, pb])
        finally:
            H.it.block_hooks = {}; H.it.__dict__.pop('exec_function', None)
        if not rs: return 'does not return'
        k = 0
        for st, _ in rs:
            ctx = H.ctx(st)
            if not ctx.feasible(): continue
            k += 1
            Qq = H.value(H.read(st, q, N)); Rr = H.value(H.read(st, r, M))
            Xs = st.aux.get('X', X); s = st.aux.get('s', 0)
            E = Qq.scale(V) + Rr - Xs
            if not H.same(st, E.scale(1 << s), ZERO): return 'quotient * divisor + remainder differs from the dividend: %r' % ctx.norm(E)
            lo, hi = ctx.bound(Rr)
            if lo < 0 or hi >= V: return 'the remainder may be as large as %#x' % hi
        if not k: return 'no feasible path'
        rep.count('paths', len(rs)); rep.count('loop_heads_generalised', inv.n); H.done(rep)
    rep.run('%d-word dividend modulo %s' % (N, what), body, where_fn(H.m, DIVN) if DIVN in H.m.bydem else wh(H.m, 'bn_divn_safe<'))
