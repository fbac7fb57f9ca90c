"""Bit-vector domain with canonical forms: a word is a sum modulo 2^w of bit strings
with integer coefficients; a bit is its algebraic normal form over input bits.
Sums are named by a fresh word when their individual bits are needed, so equal
computations get equal forms whatever order or formula the code uses."""
from .interp import *

_bit = {}
_bitname = []
def bitvar(v, i):
    k = (v, i)
    n = _bit.get(k)
    if n is None: n = _bit[k] = len(_bitname); _bitname.append(k)
    return frozenset((frozenset((n,)),))
B0 = frozenset(); B1 = frozenset((frozenset(),))
def bxor(a, b): return a ^ b
_and = {}
def band(a, b):
    if not a or not b: return B0
    if a == B1: return b
    if b == B1 or a == b: return a
    k = (a, b)
    r = _and.get(k)
    if r is None:
        s = set()
        for x in a:
            for y in b: s ^= {x | y}
        if len(s) > 200: raise AnalysisError('boolean expression too large')
        r = _and[k] = frozenset(s)
    return r
def bor(a, b): return a ^ b ^ band(a, b)

def strip(bits):
    n = len(bits)
    while n and not bits[n - 1]: n -= 1
    return bits[:n]

class BV(AV):
    """c + sum(coef * atom) mod 2^w; atom = tuple of bits (no zero top or low bit)"""
    __slots__ = ('w', 'c', 'lin', '_bits', '_h')
    def __init__(self, w, c, lin):
        self.w = w; self.c = c; self.lin = lin; self._bits = None; self._h = hash((w, c, lin))
    def __eq__(self, o): return isinstance(o, BV) and self._h == o._h and self.w == o.w and self.c == o.c and self.lin == o.lin
    def __hash__(self): return self._h
    def __repr__(self): return 'word%d(%s)' % (self.w, ' + '.join(['%#x' % self.c] * bool(self.c) + ['%s%s' % ('' if k == 1 else '%#x*' % k, atom_name(a)) for a, k in sorted(self.lin, key=lambda t: (len(t[0]), t[1]))[:6]]) + (' ..' if len(self.lin) > 6 else ''))
    def bits(self):
        if self._bits is None: self._bits = _to_bits(self)
        return self._bits

def atom_name(a):
    f = a[0]
    if len(f) == 1:
        m = next(iter(f))
        if len(m) == 1:
            v, i = _bitname[next(iter(m))]
            if all(a[j] == bitvar(v, i + j) for j in range(len(a))): return '%s[%d..%d]' % (v if isinstance(v, str) else 'sum%d' % v, i + len(a) - 1, i)
    return 'bits%d' % len(a)

_fresh = {}      # (w, c, lin) -> number
_freshdef = []
def _to_bits(x):
    w = x.w
    # disjoint powers of two: no carries
    out = [None] * w; ok = True
    for i in range(w):
        if x.c >> i & 1: out[i] = B1
    for a, k in x.lin:
        if k & (k - 1): ok = False; break
        s = k.bit_length() - 1
        for i, b in enumerate(a):
            if s + i >= w or not b: continue
            if out[s + i] is not None: ok = False; break
            out[s + i] = b
        if not ok: break
    if ok: return tuple(b if b is not None else B0 for b in out)
    # common low zero bits
    key = (w, x.c, x.lin)
    n = _fresh.get(key)
    if n is None: n = _fresh[key] = len(_freshdef); _freshdef.append(x)
    return tuple(bitvar(n, i) for i in range(w))

class Atom(tuple):
    """interned normalised bit string"""
    __hash__ = object.__hash__
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
_atoms = {}
def atom(a):
    """bits (no zero top or low bit) -> (interned atom, None) or (None, value) when constant"""
    if type(a) is Atom: return a
    r = _atoms.get(a)
    if r is None:
        r = _atoms[a] = Atom(a)
        r.one = B1 in a
        r.const = sum(1 << i for i, b in enumerate(a) if b) if all(b == B0 or b == B1 for b in a) else None
        r.named = _is_named(a); r.inp = _is_input(a)
    return r
def mk(w, c, terms):
    """normalised word (int when constant)"""
    M = (1 << w) - 1
    d = {}
    c &= M
    for a, k in terms:
        k &= M
        if not k: continue
        # low zero bits of the atom move into the coefficient, constants out
        if type(a) is not Atom:
            a = strip(a)
            if not a: continue
            z = 0
            while not a[z]: z += 1
            if z: a = a[z:]; k = (k << z) & M
            if not k: continue
            a = atom(a)
        if a.const is not None:
            c = (c + k * a.const) & M; continue
        d[a] = (d.get(a, 0) + k) & M
    d = {a: k for a, k in d.items() if k}
    if not d: return c
    # merge pieces that do not overlap
    if len(d) > 1:
        pw = sorted(((k.bit_length() - 1, a) for a, k in d.items() if len(a) < w and not k & (k - 1) and a.inp), key=lambda t: t[0])
        if len(pw) > 1 and pw[-1][0] >= min(s + len(a) for s, a in pw):
            ch = False; merged = []
            for s, a in pw:
                for j, (s0, a0) in enumerate(merged):
                    if s0 + len(a0) <= s:
                        merged[j] = (s0, a0 + (B0,) * (s - s0 - len(a0)) + a); ch = True; break
                else: merged.append((s, a))
            if ch:
                return mk(w, c, [(a, k) for a, k in d.items() if k & (k - 1)] + [(a, 1 << s) for s, a in merged])
    if len(d) == 1:
        (a, k), = d.items()
        # constant bits inside an atom
        if a.one:
            c2 = sum(1 << i for i, b in enumerate(a) if b == B1)
            return mk(w, c + k * c2, [(tuple(B0 if b == B1 else b for b in a), k)])
    elif any(a.one for a in d):
        t = []
        for a, k in d.items():
            c += k * sum(1 << i for i, b in enumerate(a) if b == B1)
            t.append((tuple(B0 if b == B1 else b for b in a), k))
        return mk(w, c, t)
    # all the bits of a named sum: use the sum
    if any(a.named is not None for a in d):
        t = []; ch = False
        for a, k in d.items():
            n = a.named
            if n is not None and k == 1 and len(a) >= w:
                x = _freshdef[n]
                if x.w >= w:
                    ch = True; c += k * x.c; t += [(aa, kk * k) for aa, kk in x.lin]; continue
            t.append((a, k))
        if ch: return mk(w, c, t)
    return BV(w, c, frozenset(d.items()))

def addlin(w, c, la, lb):
    """sum of two normalised words; full-width atoms need no renormalisation"""
    M = (1 << w) - 1
    d = dict(la); again = False
    for a, k in lb:
        k2 = (d.get(a, 0) + k) & M
        if k2: d[a] = k2
        else: d.pop(a, None)
    n = 0
    for a, k in d.items():
        if len(a) < w:
            n += 1
            if n > 1: return mk(w, c, d.items())
        if k & 1 == 0 or k > M or k < 0: return mk(w, c, d.items())
    if not d: return c & M
    if len(d) < 2: return mk(w, c, d.items())
    return BV(w, c & M, frozenset(d.items()))

def _is_input(a):
    for f in a:
        if not f: continue
        m = next(iter(f)) if len(f) == 1 else None
        if not m or len(m) != 1 or not isinstance(_bitname[next(iter(m))][0], str): return False
    return True
def _is_named(a):
    """number of the fresh word whose low bits the atom is"""
    f = a[0]
    if len(f) != 1: return None
    m = next(iter(f))
    if len(m) != 1: return None
    v, i = _bitname[next(iter(m))]
    if i != 0 or isinstance(v, str): return None
    for j in range(1, len(a)):
        if a[j] != bitvar(v, j): return None
    return v

def bits_of(v, w):
    if isinstance(v, int): return tuple(B1 if v >> i & 1 else B0 for i in range(w))
    if isinstance(v, BV): return v.bits()
    raise AnalysisError('bits of %r' % (v,))
def from_bits(bits): return mk(len(bits), 0, [(tuple(bits), 1)])
def lin_of(v):
    if isinstance(v, int): return v, []
    return v.c, list(v.lin)
def word(name, w=32): return from_bits([bitvar(name, i) for i in range(w)])

class BitDomain(Domain):
    def __init__(self): self.memo = {}
    def binop(self, it, op, w, a, b, flags):
        if a is UNDEF or b is UNDEF: raise Violation('arithmetic on a value that was never written', it.where())
        if not isinstance(a, (int, BV)) or not isinstance(b, (int, BV)): raise AnalysisError('%s of %r and %r at %s' % (op, a, b, it.where()))
        k = (op, w, a, b)
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self._binop(it, op, w, a, b)
        return r
    def unop(self, it, st, op, w, a):
        if op == 'bswap' and isinstance(a, BV):
            b = a.bits(); return from_bits([x for i in range(w // 8 - 1, -1, -1) for x in b[8 * i:8 * i + 8]])
        raise AnalysisError('%s at %s' % (op, it.where()))
    def _binop(self, it, op, w, a, b):
        if op in ('add', 'sub'):
            ca, la = lin_of(a); cb, lb = lin_of(b)
            if op == 'sub': cb, lb = -cb, [(x, -k) for x, k in lb]
            return addlin(w, ca + cb, la, lb)
        if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
            if isinstance(a, int): a, b = b, a
            if b & (b - 1) == 0:
                s = b.bit_length() - 1
                return from_bits((B0,) * s + a.bits()[:w - s])
            return mk(w, a.c * b, [(x, k * b) for x, k in a.lin])
        if op == 'shl' and isinstance(b, int): return self._binop(it, 'mul', w, a, 1 << b)
        if op in ('lshr', 'ashr', 'udiv', 'urem') and isinstance(b, int):
            x = bits_of(a, w)
            if op in ('udiv', 'urem'):
                if b & (b - 1) or not b: raise AnalysisError('%s by %d at %s' % (op, b, it.where()))
                if op == 'urem':
                    s = b.bit_length() - 1
                    return from_bits(x[:s] + (B0,) * (w - s))
                b = b.bit_length() - 1
            return from_bits(x[b:] + ((x[-1] if op == 'ashr' else B0),) * b)
        if op in ('and', 'or', 'xor'):
            f = {'and': band, 'or': bor, 'xor': bxor}[op]
            return from_bits([f(p, q) for p, q in zip(bits_of(a, w), bits_of(b, w))])
        raise AnalysisError('%s of %r and %r at %s' % (op, a, b, it.where()))
    def icmp(self, it, pred, w, a, b):
        if a is UNDEF or b is UNDEF: raise Violation('comparison of a value that was never written', it.where())
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            x, y = bits_of(a, w), bits_of(b, w)
            if pred in ('eq', 'ne'):
                if x == y: return int(pred == 'eq')
                if any((p ^ q) == B1 for p, q in zip(x, y)): return int(pred == 'ne')
                d = [p ^ q for p, q in zip(x, y) if p != q]
                if len(d) == 1: return from_bits([d[0] ^ (B1 if pred == 'eq' else B0)])
            else:
                lo = lambda z: sum(1 << i for i, p in enumerate(z) if p == B1)
                hi = lambda z: sum(1 << i for i, p in enumerate(z) if p != B0)
                if pred[0] == 's' and (x[-1] != B0 or y[-1] != B0): raise AnalysisError('signed comparison at %s' % it.where())
                p = pred[1:]
                if p in ('gt', 'ge'): x, y = y, x; p = {'gt': 'lt', 'ge': 'le'}[p]
                if p == 'lt':
                    if hi(x) < lo(y): return 1
                    if lo(x) >= hi(y): return 0
                else:
                    if hi(x) <= lo(y): return 1
                    if lo(x) > hi(y): return 0
        raise AnalysisError('comparison %r %s %r at %s' % (a, pred, b, it.where()))
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, BV):
            if op == 'trunc':
                return from_bits(v.bits()[:tw])
            if op == 'zext': return from_bits(v.bits() + (B0,) * (tw - fw))
            if op == 'sext': return from_bits(v.bits() + (v.bits()[-1],) * (tw - fw))
        raise AnalysisError('cast %s %r at %s' % (op, v, it.where()))
    def select(self, it, st, c, a, b, ty):
        if isinstance(c, BV):
            w = 8 * ty.size() if hasattr(ty, 'size') and callable(getattr(ty, 'size')) else None
            x = a if isinstance(a, BV) else b if isinstance(b, BV) else None
            w = x.w if x is not None else w
            s = c.bits()[0]
            if w: return from_bits([band(s, p) ^ band(s ^ B1, q) for p, q in zip(bits_of(a, w), bits_of(b, w))])
        raise AnalysisError('select on %r at %s' % (c, it.where()))
    def assume(self, it, st, c, truth): raise AnalysisError('branch on %r at %s' % (c, it.where()))
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, BV): return from_bits(v.bits()[8 * off:8 * (off + size)])
        raise AnalysisError('extract %r at %s' % (v, it.where()))
    def assemble(self, it, parts, size):
        if any(v is UNDEF for _, v in parts): return UNDEF
        bits = ()
        for n, v in parts: bits += bits_of(v, 8 * n)
        return from_bits(bits)
