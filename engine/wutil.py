"""word-level harness: modules with the assembly routines linked in as transfer functions"""
import subprocess
from .util import *
from .word import *
from . import build, asm, llir

U64C = 'unsigned long const&'
FPP = 'bls12_381::fp*'; FPC = 'bls12_381::fp const*'
PORTABLE_H = """#include <bits/stdc++.h>
#include <cpuid.h>
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
"""
def load_default():
    return build.load()
def load_portable():
    """the sources as compiled on a target without x86-64 support"""
    import os
    h = os.path.join(build.scratch(), 'portable.h')
    with open(h, 'w') as f: f.write(PORTABLE_H)
    return build.load(flags=['-include', h], name='portable')

def asm_routines():
    """{demangled: (symbol, insts)}"""
    L = asm.load()
    d = subprocess.run([build.LLVM + 'llvm-cxxfilt'], input='\n'.join(L), capture_output=True, text=True).stdout.splitlines()
    return {dm: (s, L[s]) for dm, s in zip(d, L)}

class WHarness:
    def __init__(self, m, routines=None, dom=None):
        VT.reset()
        self.m = m; self.D = dom or WordDomain(); self.it = Interp(m, self.D)
        self.routines = routines or {}
        for dm, (s, ins) in self.routines.items():
            self.it.handlers[dm] = self._mk(s, ins)
        self.it.run_ctors()
    def _mk(self, s, ins):
        return lambda it, st, a: asm.call_asm(ins, s, it, st, a, len(a))
    def where(self, sig):
        r = self.routines.get(sig)
        return '%s (%s)' % (r[1][0].line, sig) if r else where_fn(self.m, sig)
    def name(self, sig):
        n = self.m.bydem.get(sig)
        if sig in self.routines: return n or self.routines[sig][0]
        return fn(self.m, sig)
    def fresh(self):
        VT.reset()
        self.A = Arena(self.it); self.st = self.A.st
        self.st.aux['w'] = Ctx()
        return self.A
    def num(self, nm, lo, hi, limbs=6, const=True):
        """buffer holding a fresh multi-word number -> (Ptr, limb polys, number poly)"""
        p = self.A.buf(8 * limbs, nm)
        xs, X = number(nm, limbs, lo, hi)
        for i, x in enumerate(xs): self.it.store_bytes(self.st, Ptr(p.obj, 8 * i), 8, W(x, 64))
        if const: self.A.const_arg(p)
        return p, xs, X
    def word(self, nm, lo=0, hi=(1 << 64) - 1, w=64):
        return W(WP.var(VT.named(nm, lo, hi)), w)
    def wordbuf(self, v, size=8):
        p = self.A.buf(size, 'word'); self.it.store_bytes(self.st, p, size, v); self.A.const_arg(p)
        return p
    def read(self, st, p, limbs=6):
        out = []
        for i in range(limbs):
            v = self.it.load_bytes(st, Ptr(p.obj, p.off + 8 * i), 8)
            if v is UNDEF: raise Violation('result word %d is undefined' % i, '')
            out.append(self.D.P(self.D.resolve(self.D.ctx(st), v)))
        return out
    def value(self, ws):
        z = ZERO
        for i, w in enumerate(ws): z = z + w.scale(1 << (64 * i))
        return z
    def ctx(self, st): return self.D.ctx(st)
    def call(self, sig, args):
        return self.it.call(self.st, self.name(sig), args)
    def same(self, st, a, b):
        c = self.ctx(st)
        d = c.norm(a - b)
        if not d.d: return True
        if c.bound(d) == (0, 0): return True
        f = c.fold(d)
        return f is not None and not c.norm(f).d

def install_word_prims(H):
    """transfer functions of Add64, Sub64, Mul64 (their exactness is an obligation of A04)"""
    it, D = H.it, H.D
    def arg(it, st, p): return D.P(D.resolve(D.ctx(st), it.load_bytes(st, p, 8)))
    def put(it, st, p, first, second):
        ctx = D.ctx(st)
        it.store_bytes(st, Ptr(p.obj, p.off + 8), 8, D.mk(ctx, first, 64))
        it.store_bytes(st, p, 8, D.mk(ctx, second, 64))
    def carry_ok(it, ctx, c):
        lo, hi = ctx.bound(c)
        if lo < 0 or hi > 1: raise Violation('carry operand may be %d, outside 0/1' % hi, it.where())
    def add64(it, st, a):
        x, y, c = [arg(it, st, p) for p in a[1:]]
        ctx = D.wctx(st); carry_ok(it, ctx, c)
        r, q = D.wrap(ctx, [x, y, c], 64); put(it, st, a[0], r, q)
    def sub64(it, st, a):
        x, y, c = [arg(it, st, p) for p in a[1:]]
        ctx = D.wctx(st); carry_ok(it, ctx, c)
        r, q = D.wrap(ctx, [x, -y, -c], 64); put(it, st, a[0], r, -q)
    def mul64(it, st, a):
        ctx = D.wctx(st)
        x, y = [it.load_bytes(st, p, 8) for p in a[1:]]
        lo, hi = D.widemul(ctx, D.resolve(ctx, x), D.resolve(ctx, y), 64); put(it, st, a[0], hi, lo)
    for n, k, h in (('Add64', 3, add64), ('Sub64', 3, sub64), ('Mul64', 2, mul64)):
        it.handlers['bls12_381::%s(%s)' % (n, ', '.join([U64C] * k))] = h
