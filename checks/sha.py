"""F01: SHA-256 by induction over blocks and chunks on bit-level canonical forms."""
from engine.util import *
from engine import build
from engine.bits import *
import math

CL = 'bls12_381::sha256::'
# ---- FIPS 180-4
def _primes(n):
    out = []; k = 2
    while len(out) < n:
        if all(k % p for p in out): out.append(k)
        k += 1
    return out
def _root_frac(p, n):
    """first 32 bits of the fractional part of the n-th root"""
    x = p << (32 * n); lo, hi = 0, 1 << 40
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** n <= x: lo = m
        else: hi = m - 1
    return lo & 0xffffffff
H0 = [_root_frac(p, 2) for p in _primes(8)]
KC = [_root_frac(p, 3) for p in _primes(64)]
def add(*xs):
    r = 0
    for x in xs:
        a, b = lin_of(r); c, d = lin_of(x); r = addlin(32, a + c, b, d)
    return r
def bw(f, *xs): return from_bits([f(*t) for t in zip(*[bits_of(x, 32) for x in xs])])
def rot(x, n):
    b = bits_of(x, 32); return from_bits(b[n:] + b[:n])
def shr(x, n):
    b = bits_of(x, 32); return from_bits(b[n:] + (B0,) * n)
def xor3(a, b, c): return bw(lambda p, q, r: p ^ q ^ r, a, b, c)
_memo = {}
def compress(st, blk):
    """blk: 64 byte values (8-bit words or ints)"""
    key = (tuple(st), tuple(blk))
    if key in _memo: return _memo[key]
    w = []
    for i in range(16):
        b = ()
        for j in (3, 2, 1, 0): b += bits_of(blk[4 * i + j], 8)
        w.append(from_bits(b))
    for t in range(16, 64):
        s0 = xor3(rot(w[t - 15], 7), rot(w[t - 15], 18), shr(w[t - 15], 3))
        s1 = xor3(rot(w[t - 2], 17), rot(w[t - 2], 19), shr(w[t - 2], 10))
        w.append(add(w[t - 16], s0, w[t - 7], s1))
    a, b, c, d, e, f, g, h = st
    for t in range(64):
        S1 = xor3(rot(e, 6), rot(e, 11), rot(e, 25))
        ch = bw(lambda p, q, r: band(p, q) ^ band(p ^ B1, r), e, f, g)
        t1 = add(h, S1, ch, KC[t], w[t])
        S0 = xor3(rot(a, 2), rot(a, 13), rot(a, 22))
        mj = bw(lambda p, q, r: band(p, q) ^ band(p, r) ^ band(q, r), a, b, c)
        t2 = add(S0, mj)
        h, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
    r = [add(x, y) for x, y in zip(st, (a, b, c, d, e, f, g, h))]
    _memo[key] = r
    return r
def be_bytes(v, n):
    b = bits_of(v, 8 * n)
    return [from_bits(b[8 * (n - 1 - i):8 * (n - i)]) for i in range(n)]

class Sha:
    def __init__(self, m):
        self.m = m; self.D = BitDomain(); self.it = Interp(m, self.D, max_steps=400_000_000); self.it.run_ctors()
        self.ctor = self.find(('sha256()',)); self.size = None
        self.upd = fn(m, CL + 'update(unsigned char const*, unsigned long)')
        self.dig = fn(m, CL + 'digest(unsigned char*)')
        self.sizes()
    def find(self, names):
        for n in names:
            c = [d for d in self.m.bydem if d == CL + n and self.m.bydem[d] in self.m.functions]
            if c: return self.m.bydem[c[0]]
        raise AnalysisError('anchor vanished: sha256 constructor')
    def sizes(self):
        # object size: an object large enough; the constructor only touches what belongs to it
        self.size = 4096
    def new(self):
        st = self.it.gstate.clone(); p = self.it.new_obj(st, self.size, 'arg', 'sha256 object')
        return self.one(st, self.ctor, [p]), p
    def one(self, st, f, args):
        r = self.it.call(st, f, args)
        if len(r) != 1: raise AnalysisError('%d paths' % len(r))
        return r[0][0]
    def data(self, st, vals):
        p = self.it.new_obj(st, max(1, len(vals)), 'arg', 'message')
        for i, v in enumerate(vals): self.it.store_bytes(st, Ptr(p.obj, i), 1, v)
        st.mem[p.obj].ro = True
        return p
    def update(self, st, p, vals):
        if not vals: return self.one(st, self.upd, [p, NULL, 0])
        q = self.data(st, vals)
        return self.one(st, self.upd, [p, q, len(vals)])
    def digest(self, st, p):
        out = self.it.new_obj(st, 32, 'arg', 'digest')
        st = self.one(st, self.dig, [p, out])
        return [self.it.load_bytes(st, Ptr(out.obj, i), 1) for i in range(32)]
    def cells(self, st, p):
        """defined content as maximal typed cells"""
        return dict(st.mem[p.obj].cells)

def msgb(i, tag='m'): return word('%s%d' % (tag, i), 8)

def infer(S, where):
    """find which parts of the object hold the chaining value and the counters; returns a builder of the state after k whole blocks"""
    st0, p0 = S.new()
    blocks = [[msgb(64 * b + i) for i in range(64)] for b in range(3)]
    h = list(H0); snaps = [S.cells(st0, p0)]; hs = [h]
    st, p = st0, p0
    for b in range(3):
        st = S.update(st, p, blocks[b]); h = compress(h, blocks[b]); hs.append(h); snaps.append(S.cells(st, p))
    c0, c1, c2, c3 = snaps
    plan = {}
    found = set()
    for off, (sz, v) in sorted(c1.items()):
        v2 = c2.get(off, (0, None)); v3 = c3.get(off, (0, None))
        if v2[0] != sz or v3[0] != sz: raise AnalysisError('object layout varies between blocks at offset %d' % off)
        a, b, c = v, v2[1], v3[1]
        if sz == 4 and any(a == hs[1][j] for j in range(8)):
            j = [j for j in range(8) if a == hs[1][j]][0]
            if b != hs[2][j] or c != hs[3][j]: raise Violation('chaining value word %d is wrong after the second or third block' % j, where)
            plan[off] = (sz, 'h', j); found.add(j)
        elif isinstance(a, int) and isinstance(b, int) and isinstance(c, int):
            M = (1 << (8 * sz)) - 1
            if (b - a) & M != (c - b) & M: raise AnalysisError('counter at offset %d is not linear in the number of blocks' % off)
            plan[off] = (sz, 'c', (a - (b - a)) & M, (b - a) & M)
        elif isinstance(a, Ptr): raise AnalysisError('object holds a pointer')
        else: plan[off] = None      # stale message bytes
    if len(found) != 8:
        raise Violation('after one block the object does not hold the chaining value of the standard (%d of 8 words found)' % len(found), where)
    # the state before any block must be the same family with k = 0
    for off, pl in plan.items():
        if pl is None: continue
        got = c0.get(off)
        want = H0[pl[2]] if pl[1] == 'h' else pl[2]
        if got is None or got != (pl[0], want):
            raise Violation('the constructor leaves %r at offset %d, expected %#x' % (got and got[1], off, want), where)
    return plan

def generic(S, plan):
    st = S.it.gstate.clone(); p = S.it.new_obj(st, S.size, 'arg', 'sha256 object')
    k = word('k', 64)
    h = [word('h%d' % j) for j in range(8)]
    fill(S, st, p, plan, k, 0, h)
    return st, p, k, h
def counter(pl, k, dk):
    w = 8 * pl[0]
    return mk(w, pl[2] + pl[3] * dk, [(bits_of(k, 64)[:w], pl[3])])
def fill(S, st, p, plan, k, dk, h):
    for off, pl in plan.items():
        if pl is None: continue
        S.it.store_bytes(st, Ptr(p.obj, off), pl[0], h[pl[2]] if pl[1] == 'h' else counter(pl, k, dk))

def same_state(S, st, p, plan, k, dk, h, ref, what, where):
    """the live part of the object equals the state after k+dk blocks (ref: cells of the reference state with its buffered bytes)"""
    got = S.cells(st, p)
    for off, (sz, v) in ref.items():
        g = got.get(off)
        if g is None or g[0] != sz: g = (sz, S.it.load_bytes(st, Ptr(p.obj, off), sz))
        if g[1] != v:
            pl = plan.get(off)
            kind = 'chaining value word %d' % pl[2] if pl and pl[1] == 'h' else 'a counter' if pl else 'a buffered byte'
            raise Violation('%s: %s (offset %d) is %r, expected %r' % (what, kind, off, g[1], v), where)

def run_F01(rep):
    m = build.load()
    W = where_fn(m, CL + 'update(unsigned char const*, unsigned long)'); WD = where_fn(m, CL + 'digest(unsigned char*)')
    rep.explanation = 'bit-level canonical forms: the state after k whole blocks is inferred and proved inductive with k and the chaining value symbolic, for every fill level and chunk length up to two blocks; padding and output for every fill level'
    rep.assumptions += ['messages shorter than 2^64 bits', 'chunks longer than the analysed lengths repeat the same per-byte or per-block steps']
    thorough = rep.tier == 'thorough'
    jobs = []
    def job(name, where, f):
        jobs.append(lambda r, f=f: (r.run(name, f, where), 'S' in base and r.absorb(base['S'].it)))
    base = {}
    def env():
        if 'S' not in base:
            base['S'] = S = Sha(m); base['plan'] = infer(S, W)
        return base['S'], base['plan']
    rep.run('constructor and first blocks', lambda: (env(), None)[1], W)
    if 'plan' not in base: return
    def ref_state(S, plan, r, msg, dk=0, h=None):
        st, p, k, hh = generic(S, plan)
        if h is not None or dk:
            st = S.it.gstate.clone(); p = S.it.new_obj(st, S.size, 'arg', 'sha256 object'); fill(S, st, p, plan, k, dk, h or hh)
        if r:
            for x in msg: st = S.update(st, p, [x])        # byte by byte
        return st, p, k, hh
    def chunks(r):
        S, plan = env()
        # reference with r bytes buffered
        pre = [msgb(i, 'p') for i in range(r)]
        st0, p0, k, h = ref_state(S, plan, r, pre)
        lens = sorted({0, 1, 7, 32, 63 - r, 64 - r, 65 - r, 64, 128 - r, 129 - r, 200} | ({2, 8, 31, 65, 127 - r, 128, 192 - r} | set(range(0, 194, 3)) if thorough else set()))
        for n in lens:
            if n < 0: continue
            new = [msgb(i, 'n') for i in range(n)]
            st = st0.clone(); st = S.update(st, p0, new)
            total = pre + new; nb = len(total) // 64
            hh = h
            for b in range(nb): hh = compress(hh, total[64 * b:64 * b + 64])
            st2, p2, _, _ = ref_state(S, plan, len(total) % 64, total[64 * nb:], nb, hh)
            same_state(S, st, p0, plan, k, nb, hh, live(S, st2, p2), 'chunk of %d bytes after %d buffered' % (n, r), W)
            rep_count[0] += 1
    rep_count = [0]
    def live(S, st, p): return S.cells(st, p)
    def split(r):
        """absorbing r bytes in one call equals absorbing them one by one"""
        S, plan = env()
        pre = [msgb(i, 'p') for i in range(r)]
        st0, p0, k, h = ref_state(S, plan, r, pre)
        st, p, k, h = generic(S, plan); st = S.update(st, p, pre)
        same_state(S, st, p, plan, k, 0, h, live(S, st0, p0), 'chunk of %d bytes on an empty buffer' % r, W)
    def digests(r, dig):
        S, plan = env()
        pre = [msgb(i, 'p') for i in range(r)]
        st0, p0, k, h = ref_state(S, plan, r, pre)
        st, p = st0, p0
        if dig == 'ptr': out = S.digest(st, p)
        else:
            f = fn(m, CL + 'digest()'); o = S.it.new_obj(st, 32, 'arg', 'digest'); st = S.one(st, f, [o, p])
            out = [S.it.load_bytes(st, Ptr(o.obj, i), 1) for i in range(32)]
        bl = mk(64, 8 * r, [(bits_of(k, 64)[:55], 512)])
        blk = pre + [0x80]
        while len(blk) % 64 != 56: blk.append(0)
        blk += be_bytes(bl, 8)
        hh = h
        for b in range(len(blk) // 64): hh = compress(hh, blk[64 * b:64 * b + 64])
        want = [x for v in hh for x in be_bytes(v, 4)]
        for i, (g, w) in enumerate(zip(out, want)):
            if g is UNDEF: raise Violation('digest byte %d is never written' % i, WD)
            if g != w: raise Violation('with %d bytes in the last block, digest byte %d differs from the standard' % (r, i), WD)
    for r in range(64):
        job('update, %d bytes buffered' % r, W, lambda r=r: split(r) or chunks(r))
        job('digest, %d bytes in the last block' % r, WD, lambda r=r: digests(r, 'ptr'))
    for r in (0, 55, 56, 63): job('digest (array form), %d bytes in the last block' % r, WD, lambda r=r: digests(r, 'array'))
    def whole_length():
        f = m.functions[fn(m, CL + 'update(unsigned char const*, unsigned long)')]
        f.parse()
        bad = narrowed(f, [f.params[2][1]])
        if bad: raise Violation(bad[0][1], 'src/sha256.cpp: %s (%s)' % (m.where(bad[0][0].dbg), CL + 'update'))
    def forwards():
        c = [d for d in m.bydem if d.startswith(CL + 'update(std::') and m.bydem[d] in m.functions]
        if not c: return
        S, plan = env()
        it = S.it; st = it.gstate.clone(); o = it.new_obj(st, S.size, 'arg', 'sha256 object'); st_ = it.new_obj(st, 32, 'arg', 'string'); d = it.new_obj(st, 64, 'arg', 'characters')
        L = word('L', 64); it.store_bytes(st, st_, 8, d); it.store_bytes(st, Ptr(st_.obj, 8), 8, L)
        seen = []
        def rec(it, st, a): seen.append(a); return [(st, None)]
        def cut(it, st, a): raise Violation('the string overload stops at the first zero byte', W)
        it._hcache[S.upd] = rec; it._hcache['strlen'] = cut
        try: r = it.call(st, m.bydem[c[0]], [o, st_])
        finally: it._hcache[S.upd] = None
        if len(r) != 1 or len(seen) != 1 or seen[0][0] != o or seen[0][1] != d or seen[0][2] != L:
            raise Violation('the string overload does not forward exactly the characters of the string', W)
    job('update, loops run over the whole 64-bit length', W, whole_length)
    job('update, string overload', W, forwards)
    rep.parallel(jobs)
