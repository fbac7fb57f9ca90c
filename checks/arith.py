"""A01 base-field primitives on every CPU variant; H04 dispatch; H05 data independence of the word primitives."""
from engine.wutil import *
from engine.asm import uses_extensions
from engine.field import MUL_RANGES, SQR_RANGE, FieldDomain, Poly, FE, RINV, R
from engine.field import V

M384 = 1 << 384
def sig3(n): return 'bls12_381::%s(%s, %s, %s)' % (n, FPP, FPC, FPC)
def sig2(n): return 'bls12_381::%s(%s, %s)' % (n, FPP, FPC)

# name, operands, (bounds of operands), expected: fn(ctx, X, Y) -> list of acceptable polys, result range
def variants(n):
    """which pointers are the same object: result/first/second"""
    if n == 3: return [('distinct', 'zxy'), ('result is the first operand', 'xxy'), ('result is the second operand', 'yxy'), ('operands are one object', 'zxx'), ('all one object', 'xxx')]
    return [('distinct', 'zx'), ('result is the operand', 'xx')]

def ideal(poly):
    """poly == 0 modulo p, coefficient-wise (powers of two are units)"""
    return all(c % P == 0 for c in poly.d.values())

class PrimCheck:
    def __init__(self, H, tag, jobs):
        self.H = H; self.tag = tag; self.jobs = jobs
    def run(self, sig, xr, yr, pre, judge, label='', only=None):
        H = self.H
        n = 3 if yr is not None else 2
        for vn, lay in variants(n):
            if only and vn not in only: continue
            if vn in ('operands are one object', 'all one object') and xr != yr: continue
            def job(rep, vn=vn, lay=lay):
                rep.run('%s: %s%s (%s)' % (self.tag, sig.split('::')[1].split('(')[0], label, vn), lambda: body(rep, vn, lay), H.where(sig))
                rep.absorb(H.it); rep.count('assembly_instructions_interpreted', getattr(H.it, 'asm_steps', 0))
                H.it.steps = H.it.mem_checks = H.it.forks = H.it.asm_steps = 0
            def body(rep, vn, lay):
                H.fresh(); D = H.D
                bufs = {}; nums = {}
                for ch, r in zip('xy', (xr, yr)):
                    if r is None or ch not in lay: continue
                    p, ws, X = H.num(ch, r[0], r[1], const=(lay[0] != ch))
                    bufs[ch] = p; nums[ch] = (ws, X)
                if lay[0] == 'z': bufs['z'] = H.A.buf(48, 'result')
                X = nums[lay[1]][1]; Y = nums[lay[2]][1] if n == 3 else None
                c = H.ctx(H.st)
                for p, lo, hi in pre(X, Y):
                    if not c.learn(p, lo, hi): return None
                s0 = H.it.steps
                rs = H.call(sig, [bufs[ch] for ch in lay])
                rep.count('paths', len(rs))
                if not rs: raise Violation('no path returns', sig)
                for st, _ in rs:
                    ctx = H.ctx(st)
                    if not ctx.feasible(): continue
                    ws = H.read(st, bufs[lay[0]])
                    for i, w in enumerate(ws):
                        lo, hi = ctx.bound(w)
                        if lo < 0 or hi >= 1 << 64: raise Violation('result word %d may be out of range' % i, H.where(sig))
                    r = judge(H, st, ctx, H.value(ws), X, Y)
                    if r: return r
                    for ch in bufs:
                        if ch != lay[0] and ch in nums:
                            now = H.read(st, bufs[ch])
                            if any(ctx.norm(a - b).d for a, b in zip(now, nums[ch][0])): return 'an input operand is modified'
            self.jobs.append(job)

def canonical(H, ctx, Z, what):
    lo, hi = ctx.bound(Z)
    if lo < 0 or hi >= P: return '%s is not proved to be below p (range [%#x, %#x])' % (what, lo, hi)

def one_of(cands, canon=True):
    def judge(H, st, ctx, Z, X, Y):
        if canon:
            r = canonical(H, ctx, Z, 'the result')
            if r: return r
        if not any(H.same(st, Z, c) for c in cands(X, Y)):
            return 'the result is %r, expected %s' % (ctx.norm(Z), ' or '.join(repr(c) for c in cands(X, Y)))
    return judge

def mont(H, st, ctx, Z, X, Y):
    r = canonical(H, ctx, Z, 'the product')
    if r: return r
    E = ctx.norm(Z.scale(M384) - X * (Y if Y is not None else X))
    f = ctx.fold(E)
    for e in (E, f):
        if e is not None and ideal(e): return None
    # eliminate operand limbs in favour of the numbers
    return 'result * 2^384 - x*y is not a multiple of p: residue %r' % (f if f is not None else E)

def negj(H, st, ctx, Z, X, Y):
    r = canonical(H, ctx, Z, 'the result')
    if r: return r
    if ctx.bound(X) == (0, 0):
        return None if ctx.bound(Z) == (0, 0) else 'the negation of zero is %r' % Z
    if ctx.bound(X)[0] < 1: return 'the operand may be zero where the result is %r' % ctx.norm(Z)
    if not H.same(st, Z, WP.const(P) - X): return 'the result is %r, expected p - x' % ctx.norm(Z)

def below_p(H, st, ctx, Z, X, Y): return canonical(H, ctx, Z, 'the result')

def prims(jobs, H, tag, mults, deep, reduced_only=False):
    mont_, one_of_, negj_ = (below_p, lambda c, canon=True: below_p if canon else one_of(c, canon), below_p) if reduced_only else (mont, one_of, negj)
    C = PrimCheck(H, tag, jobs); nopre = lambda X, Y: []
    R1 = (0, P - 1); RF = (0, M384 - 1)
    for n in mults:
        for i, (kx, ky) in enumerate(MUL_RANGES):
            C.run(n if '(' in n else sig3(n), (0, kx * P - 1), (0, ky * P - 1), nopre, mont_, ' (operands below %dp, %dp)' % (kx, ky), None if i == 0 or deep else ('distinct',))
    C.run(sig2('_square'), (0, SQR_RANGE * P - 1), None, nopre, mont_, ' (operand below %dp)' % SQR_RANGE)
    C.run(sig3('_add'), R1, R1, nopre, one_of_(lambda X, Y: [X + Y, X + Y - P]))
    C.run(sig2('_double'), R1, None, nopre, one_of_(lambda X, Y: [X + X, X + X - P]))
    C.run(sig3('_subtract'), R1, R1, nopre, one_of_(lambda X, Y: [X - Y, X - Y + P]))
    C.run(sig2('_negate'), R1, None, nopre, negj_)
    C.run(sig3('_ladd'), RF, RF, lambda X, Y: [(X + Y, 0, M384 - 1)], one_of_(lambda X, Y: [X + Y], False))
    C.run(sig2('_ldouble'), RF, None, lambda X, Y: [(X + X, 0, M384 - 1)], one_of_(lambda X, Y: [X + X], False))
    C.run(sig3('_lsubtract'), RF, RF, lambda X, Y: [(X - Y, 0, None)], one_of_(lambda X, Y: [X - Y], False))


def run_A01(rep):
    R = asm_routines()
    m = load_default()
    H = WHarness(m, R); install_word_prims(H)
    mults = sorted(dispatch_targets(m)) if m.ifuncs else [sig3('_multiply')]
    if not mults: raise AnalysisError('no multiplication routine found')
    deep = rep.tier == 'thorough'
    jobs = []
    prims(jobs, H, 'x86-64', mults, deep)
    for dm in R: rep.functions.add(dm)
    mp = load_portable()
    Hp = WHarness(mp); install_word_prims(Hp)
    pj = []
    prims(pj, Hp, 'portable', [sig3('_multiply')], deep)
    rep.parallel(pj + jobs + [lambda r: wrappers(r, m)])
    rep.explanation = 'Word-level abstract interpretation of the disassembled routines and of the portable sources (preprocessed as on a target without x86-64): operands are symbolic 6-word integers in range, carries are derived quantities, and every path must return the canonical representative of the exact result, for every aliasing of result and operands.'
    rep.assumptions += ['System V calling convention', 'documented semantics of the x86-64 instructions used']

def dispatch_targets(m):
    """demangled names of every function the multiplication resolver can return"""
    out = set()
    for sym, res in m.ifuncs.items():
        f = m.functions.get(res)
        if f is None: raise AnalysisError('resolver %s is not defined' % res)
        if '_multiply' not in m.demangled.get(sym, sym): continue
        out |= {m.demangled.get(n, n) for n in reachable_function_constants(m, f)}
    return {d for d in out if d.endswith('(%s, %s, %s)' % (FPP, FPC, FPC))}

def operands(ins):
    for v in ins.a or ():
        if isinstance(v, tuple):
            yield v
            if len(v) == 3 and isinstance(v[1], tuple): yield v[1]
    if ins.op == 'phi':
        for v, _ in ins.extra: yield v
    if ins.op == 'call' and ins.extra: yield ins.extra[0]

def reachable_function_constants(m, f, seen=None):
    """function symbols mentioned by f or by functions it calls"""
    seen = seen if seen is not None else set()
    if f.name in seen: return set()
    seen.add(f.name); f.parse(); out = set()
    for b in f.blocks.values():
        for ins in (b.insts if hasattr(b, 'insts') else b):
            callee = ins.extra[0] if ins.op == 'call' and ins.extra else None
            for v in operands(ins):
                if v[0] == 'g' and (v[1] in m.functions or v[1] in m.declares):
                    if v is callee:
                        if v[1] in m.functions: out |= reachable_function_constants(m, m.functions[v[1]], seen)
                    else: out.add(v[1])
    return out

def wrappers(rep, m):
    """the member functions of fp are exactly the primitives they name"""
    fpc = 'bls12_381::fp const&'; C = 'bls12_381::fp::'
    x, y = Poly.var(V.fp('x@1')), Poly.var(V.fp('y@1'))
    def setup():
        D = FieldDomain(); it = Interp(m, D); it.run_ctors()
        D.install_fp(it)
        for n in [n for n in it.handlers if n.startswith(C)]: del it.handlers[n]
        for n in dispatch_targets(m):
            it.handlers[n] = it.handlers[sig3('_multiply')]
        return it, D
    sp = ModConst(m)
    def one(name, sig, nargs, assign, want, alias):
        def body():
            it, D = setup(); A = Arena(it); st = A.st
            # drop the handler of the function under test only
            this = A.buf(48, 'this'); D.wr(it, st, this, FE(x))
            args = []
            for k in range(nargs):
                if alias: args.append(this); continue
                q = A.buf(48, 'operand'); D.wr(it, st, q, FE(y)); A.const_arg(q); args.append(q)
            if assign: out = this; call = [this] + args
            else: A.const_arg(this); out = A.buf(48, 'result'); call = [out, this] + args
            rs = it.call(st, fn(m, sig), call); rep.absorb(it)
            if not rs: raise Violation('no path returns', sig)
            for st2, _ in rs:
                r = D.rd(it, st2, out)
                w = want(x, x if alias else y)
                if (r.poly - w).d: return 'computes %r, expected %r' % (r.poly, w)
                if r.bound != 1: return 'the result is not reduced'
        rep.run('fp::%s%s' % (name, ' (same object)' if alias else ''), body, where_fn(m, sig))
    for n, k, f in (('add', 1, lambda a, b: a + b), ('subtract', 1, lambda a, b: a - b), ('multiply', 1, lambda a, b: a * b),
                    ('dbl', 0, lambda a, b: a + a), ('square', 0, lambda a, b: a * a), ('negate', 0, lambda a, b: -a),
                    ('toMont', 0, lambda a, b: a.scale(sp.R)), ('fromMont', 0, lambda a, b: a.scale(RINV)), ('phi', 0, lambda a, b: a * sp.phi)):
        for al in ((False, True) if k else (False,)):
            one(n, C + n + ('(%s) const' % fpc if k else '() const'), k, False, f, al)
    for n, k, f in (('addAssign', 1, lambda a, b: a + b), ('subtractAssign', 1, lambda a, b: a - b), ('multiplyAssign', 1, lambda a, b: a * b),
                    ('doubleAssign', 0, lambda a, b: a + a), ('squareAssign', 0, lambda a, b: a * a)):
        for al in ((False, True) if k else (False,)):
            one(n, C + n + ('(%s)' % fpc if k else '()'), k, True, f, al)

class ModConst:
    def __init__(self, m):
        self.R = R % P
        D = FieldDomain(); it = Interp(m, D); it.run_ctors(); A = Arena(it)
        g = [n for n, d in m.demangled.items() if d == 'bls12_381::fp::glvPhi1']
        if not g: raise AnalysisError('anchor vanished: fp::glvPhi1')
        self.phi = D.rd(it, A.st, it.global_ptr(A.st, g[0])).poly
