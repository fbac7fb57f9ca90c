"""D01/D02: byte encodings.  The input bytes are symbolic bits, field elements are polynomials; validity of a
384-bit string, curve membership, the square-root test and the lexicographic order are uninterpreted conditions
(A03, C03).  Every path of every codec is compared with the format."""
from engine.util import *
from engine import build
from engine.bits import *
from engine.bits import bitvar, B0, B1, from_bits, bits_of
from checks.scale import load
import re

class Order(AV):
    """result of comparing a value with the modulus"""
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
    def __repr__(self): return 'order of %r' % (self.c,)

class CodecDomain(FieldDomain):
    def __init__(self):
        FieldDomain.__init__(self)
        self.bd = BitDomain(); self.ids = {}; self.back = {}; self.cb = {}; self.nonzero = set(); self.roots = {}; self.decoded = 0
    def uid(self, kind, k):
        return self.ids.setdefault((kind, k), '%s#%d' % (kind, len(self.ids)))
    # ---- bit strings of field elements
    def bits381(self, kind, poly):
        """the integer (kind 'int') or the stored words (kind 'rep') of an element"""
        if poly.is_const():
            v = poly.const_val() * (R if kind == 'rep' else 1) % P
            return bits_of(v, 384)
        n = self.uid(kind, poly)
        b = tuple(bitvar(n, i) for i in range(381)) + (B0,) * 3
        self.back[kind, b] = poly
        return b
    def elem_of(self, kind, bits):
        if all(x in (B0, B1) for x in bits):
            v = sum(1 << i for i, x in enumerate(bits) if x == B1)
            return Poly.const(v * (RINV if kind == 'rep' else 1))
        p = self.back.get((kind, bits))
        if p is None:
            p = Poly.var(V.fp('%s-%d' % (kind, len(V.names)))); self.back[kind, bits] = p; self.ids[('bits', kind, p)] = bits
        return p
    def words(self, it, st, p):
        """the 384 bits stored in an element"""
        v = it.load_bytes(st, p, 48)
        if v is UNDEF: raise Violation('reads an element that was never written', it.where())
        if isinstance(v, FE): return self.bits381('rep', v.poly)
        return bits_of(v, 384)
    def store_bits(self, it, st, p, bits):
        it.store_bytes(st, p, 48, from_bits(bits))
    def rd(self, it, st, p):
        v = it.load_bytes(st, p, 48)
        if isinstance(v, BV): return FE(self.elem_of('rep', v.bits()))
        return FieldDomain.rd(self, it, st, p)
    def valid(self, bits):
        if all(x in (B0, B1) for x in bits): return int(sum(1 << i for i, x in enumerate(bits) if x == B1) < P)
        if ('rep', bits) in self.back or ('int', bits) in self.back: 
            if ('bits', 'rep', self.back.get(('rep', bits))) not in self.ids and ('bits', 'int', self.back.get(('int', bits))) not in self.ids: return 1
        return Cond(('valid', bits))
    # ---- memory
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, FE):
            if size == 48 and off == 0: return v
            return from_bits(self.bits381('rep', v.poly)[8 * off:8 * (off + size)])
        if isinstance(v, Cond): v = self.condbv(v, 8 * vsize)
        if isinstance(v, Or): return Or(v.pos[8 * off:8 * (off + size)])
        return self.bd.extract(it, v, vsize, off, size)
    def assemble(self, it, parts, size):
        if any(v is UNDEF for _, v in parts): return UNDEF
        if len(parts) == 1: return parts[0][1]
        bits = ()
        for n, v in parts:
            if isinstance(v, FE): bits += self.bits381('rep', v.poly)
            elif isinstance(v, Cond): bits += bits_of(self.condbv(v, 8 * n), 8 * n)
            else: bits += bits_of(v, 8 * n)
        return from_bits(bits)
    # ---- conditions
    def condbv(self, c, w):
        n = self.uid('cond', c.key); b = bitvar(n, 0); self.cb[b] = Cond(c.key); self.cb[b ^ B1] = Cond(c.key, True)
        return from_bits((b ^ B1 if c.neg else b,) + (B0,) * (w - 1))
    def cond(self, v):
        if isinstance(v, BV):
            b = v.bits()
            if any(x != B0 for x in b[1:]): return Cond(('some', tuple(x for x in b if x != B0)))
            c = self.cb.get(b[0])
            return c if c is not None else Cond(('bit', min(b[0], b[0] ^ B1, key=lambda f: (frozenset() in f))), frozenset() in b[0])
        return v
    def zero_cond(self, it, st, poly):
        poly = self.cancel(poly)
        if len(poly.d) == 1:
            (m, c), = poly.d.items()
            if m and all(v in self.nonzero for v in m): return 0
        if poly in self.nonzero: return 0
        return FieldDomain.zero_cond(self, it, st, poly)
    def decide(self, it, st, c):
        c = self.cond(c)
        r = FieldDomain.decide(self, it, st, c)
        if r is not None: return r
        if c.key[0] == 'some':
            # bits already known
            unk = [b for b in c.key[1] if self.bit(st.facts, b) is None]
            if any(self.bit(st.facts, b) == 1 for b in c.key[1]): return not c.neg
            if not unk: return c.neg
        if c.key[0] == 'bit':
            b = self.bit(st.facts, c.key[1])
            if b is not None: return (b == 1) != c.neg
        return None
    def bit(self, F, b):
        """value of a bit under the facts of a path"""
        if b == B0: return 0
        if b == B1: return 1
        for k, v in F.items():
            if k[0] == 'bit':
                if k[1] == b: return int(v)
                if k[1] == b ^ B1: return int(not v)
            elif k[0] == 'some' and not v and b in k[1]: return 0
        c = self.cb.get(b)
        if c is not None and c.key in F: return int(F[c.key] != c.neg)
        return None
    def assume(self, it, st, c, truth):
        return FieldDomain.assume(self, it, st, self.cond(c), truth)
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, Order) or isinstance(b, Order):
            if isinstance(b, int) and pred in ('slt', 'sge') and b == 0: return a.c if pred == 'slt' else a.c.inv()
            raise AnalysisError('comparison with the modulus is used as %s %r' % (pred, b))
        if isinstance(a, Or) or isinstance(b, Or):
            if isinstance(a, int): a, b = b, a
            if b == 0 and pred in ('eq', 'ne', 'ugt'):
                c = Cond(('some', a.bits())); return c.inv() if pred == 'eq' else c
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and pred in ('eq', 'ne', 'ugt', 'ult'):
                if pred == 'ugt' and b == 0: pred = 'ne'
                if pred == 'ult' and b == 1: pred, b = 'eq', 0
                if b == 0: return a.inv() if pred == 'eq' else a
                if b == 1: return a if pred == 'eq' else a.inv()
            if isinstance(a, Cond) and isinstance(b, Cond) and pred in ('eq', 'ne'):
                if a.key == b.key: return int((a.neg == b.neg) == (pred == 'eq'))
            if isinstance(a, Cond): a = self.condbv(a, w)
            if isinstance(b, Cond): b = self.condbv(b, w)
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            if a is UNDEF or b is UNDEF: pass
            elif pred in ('eq', 'ne'):
                d = [p ^ q for p, q in zip(bits_of(a, w), bits_of(b, w)) if p != q]
                if not d: return int(pred == 'eq')
                if B1 in d: return int(pred == 'ne')
                if len(d) == 1:
                    c = self.cb.get(d[0])
                    if c is None: c = self.cond(from_bits((d[0],)))
                else: c = Cond(('some', tuple(d)))
                return c if pred == 'ne' else c.inv()
            elif pred == 'ugt' and b == 0: return self.icmp(it, 'ne', w, a, b)
        return self.bd.icmp(it, pred, w, a, b)
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, Cond): return v
        if isinstance(v, Order): return v
        if isinstance(v, Or): return Or(v.pos[:tw] if op == 'trunc' else v.pos + ((),) * (tw - fw))
        return self.bd.cast(it, op, fw, tw, v)
    def binop(self, it, op, w, a, b, flags):
        if isinstance(a, Cond) or isinstance(b, Cond):
            try: return FieldDomain.binop(self, it, op, w, a, b, flags)
            except AnalysisError: pass
            if isinstance(a, Cond): a = self.condbv(a, w)
            if isinstance(b, Cond): b = self.condbv(b, w)
        if op == 'or' and all(isinstance(x, (int, BV, Or)) for x in (a, b)) and not (isinstance(a, int) or isinstance(b, int)):
            x, y = Or.of(a, w), Or.of(b, w)
            if any(p and q for p, q in zip(x, y)): return Or([set(p) | set(q) for p, q in zip(x, y)])
        if isinstance(a, Or) or isinstance(b, Or):
            if isinstance(a, int): a, b = b, a
            if op == 'and' and isinstance(b, int): return Or([x if b >> i & 1 else () for i, x in enumerate(a.pos)])
            if op == 'or' and b == 0: return a
            raise AnalysisError('%s of accumulated bits at %s' % (op, it.where()))
        if op in ('and', 'or'):   # compiler-built aggregates start from an undefined value and overwrite its fields
            if a is UNDEF: a = self.junk(w)
            if b is UNDEF: b = self.junk(w)
        return self.bd.binop(it, op, w, a, b, flags)
    def junk(self, w): return from_bits(tuple(bitvar('undefined', i) for i in range(w)))
    def unop(self, it, st, op, w, a): return self.bd.unop(it, st, op, w, a)
    def select(self, it, st, c, a, b, ty):
        c = self.cond(c)
        r = self.decide(it, st, c)
        if r is not None: return a if r else b
        if isinstance(a, (int, Cond)) and isinstance(b, (int, Cond)) and a in (0, 1) and b in (0, 1): return c if a == 1 else c.inv()
        w = ty[1] if ty[0] == 'i' else 64
        if isinstance(a, Cond): a = self.condbv(a, w)
        if isinstance(b, Cond): b = self.condbv(b, w)
        sb = self.condbv(c, 8).bits()[0]; from engine.bits import band
        return from_bits([band(sb, p) ^ band(sb ^ B1, q) for p, q in zip(bits_of(a, w), bits_of(b, w))])
    def memcmp(self, it, st, pa, pb, n):
        if not n: return 0
        a = it.load_bytes(st, pa, n); b = it.load_bytes(st, pb, n)
        if a is UNDEF or b is UNDEF: raise Violation('compares bytes that were never written', it.where())
        a, b = [self.bits381('rep', x.poly) if isinstance(x, FE) else bits_of(x, 8 * n) for x in (a, b)]
        d = [p ^ q for p, q in zip(a, b) if p != q]
        if not d: return 0
        if B1 in d: return 1
        return Cond(('some', tuple(d)))
    # ---- primitives
    def lex(self, poly):
        if not poly.d: return 0
        n = -poly
        k, s = min((sorted(poly.d.items()), False), (sorted(n.d.items()), True))
        return Cond(('lex', tuple(k)), s)
    def install(self, it):
        self.install_fp(it); self.install_fp2(it)
        H = it.handlers; D = self; F = 'bls12_381::fp::'
        def valid(it, st, a): return D.valid(D.words(it, st, a[0]))
        H[F + 'isValid() const'] = valid
        def cmp_(it, st, a):
            m = it.load_bytes(st, a[1], 48)
            if m != P: raise AnalysisError('comparison with %r' % (m,))
            c = D.valid(D.words(it, st, a[0]))
            return Order(c) if isinstance(c, Cond) else (-1 & 0xffffffff if c else 1)
        H[F + 'cmp(bls12_381::fp const&) const'] = cmp_
        H[F + 'toMont() const'] = lambda it, st, a: D.wr(it, st, a[0], FE(D.elem_of('int', D.words(it, st, a[1]))))
        H[F + 'fromMont() const'] = lambda it, st, a: D.store_bits(it, st, a[0], D.bits381('int', D.rd(it, st, a[1]).poly))
        def sqrt(n):
            def h(it, st, a):
                x = D.rd(it, st, a[0]).poly if n == 1 else D.rd2(it, st, a[0])
                k = (n, x)
                if k not in D.roots: D.roots[k] = Poly.var(V.fp('root%d' % len(V.names)) if n == 1 else V.fp2('root%d' % len(V.names)))
                if n == 1: D.wr(it, st, a[1], FE(D.roots[k]))
                else: D.wr2(it, st, a[1], D.roots[k])
                return Cond(('square', n, x))
            return h
        H[F + 'sqrt(bls12_381::fp&) const'] = sqrt(1)
        H['bls12_381::fp2::sqrt(bls12_381::fp2&) const'] = sqrt(2)
        H[F + 'isLexicographicallyLargest() const'] = lambda it, st, a: D.lex(D.rd(it, st, a[0]).poly)
        H['bls12_381::fp2::isLexicographicallyLargest() const'] = lambda it, st, a: D.lex(D.rd2(it, st, a[0]))
        for g, n in (('g1', 1), ('g2', 2)):
            def rdp(it, st, p, n=n):
                return [D.rd(it, st, Ptr(p.obj, p.off + 48 * i)).poly if n == 1 else D.rd2(it, st, Ptr(p.obj, p.off + 96 * i)) for i in range(3)]
            def wrp(it, st, p, c, n=n):
                for i in range(3):
                    if n == 1: D.wr(it, st, Ptr(p.obj, p.off + 48 * i), FE(c[i]))
                    else: D.wr2(it, st, Ptr(p.obj, p.off + 96 * i), c[i])
            def oncurve(it, st, a, g=g, rdp=rdp): return Cond(('oncurve', g, tuple(rdp(it, st, a[0]))))
            H['bls12_381::%s::isOnCurve() const' % g] = oncurve
            def affine(it, st, a, rdp=rdp, wrp=wrp):
                x, y, z = rdp(it, st, a[1])
                z0 = D.zero_cond(it, st, z); z1 = D.zero_cond(it, st, z - ONE)
                if isinstance(z0, Cond): z0 = D.decide(it, st, z0)
                if z0 is None: raise AnalysisError('affine form of a point that may be the identity')
                if z0 or z1 == 1: wrp(it, st, a[0], [x, y, z]); return
                i = D.inverse(z); wrp(it, st, a[0], [x * i * i, y * i * i * i, ONE])
            it.prefix_handlers.append((lambda d, g=g: d.startswith('bls12_381::%s::affine(' % g), affine))

class Or(AV):
    """word whose bits are disjunctions of many bits (accumulated with |=)"""
    __slots__ = ('pos',)
    def __init__(self, pos): self.pos = tuple(frozenset(x) for x in pos)
    def __eq__(self, o): return isinstance(o, Or) and self.pos == o.pos
    def __hash__(self): return hash(self.pos)
    def __repr__(self): return 'disjunction'
    @staticmethod
    def of(v, w): return v.pos if isinstance(v, Or) else [{b} if b != B0 else set() for b in bits_of(v, w)]
    def bits(self): return tuple(x for p in self.pos for x in p)

def new(m):
    D = CodecDomain(); it = Interp(m, D); it.max_forks = 10 ** 6; D.install(it); it.run_ctors()
    return D, it, it.gstate.clone()
NAMES = {'fp': 1, 'fp2': 2, 'fp6': 6, 'fp12': 12}
def conv(it, f, check, mont):
    """the by-value options as the compiler passes them"""
    return (1 if check else 0) | (1 if mont else 0) << 8
def inbytes(it, st, n, pre='in', fix=()):
    """symbolic input; fix: {(byte, bit): value}"""
    p = it.new_obj(st, n, 'arg', 'input'); fix = dict(fix); bs = []
    for i in range(n):
        b = tuple({0: B0, 1: B1}[fix[i, j]] if (i, j) in fix else bitvar('%s%d' % (pre, i), j) for j in range(8))
        bs.append(b); it.store_bytes(st, Ptr(p.obj, i), 1, from_bits(b))
    st.mem[p.obj].ro = True
    return p, bs
def be(bs): return tuple(x for b in reversed(bs) for x in b)
def le(bs): return tuple(x for b in bs for x in b)
def coords(order, n):
    """byte offsets of base-field coordinates 0..n-1 (c0 first) of one element"""
    return [48 * (n - 1 - i) for i in range(n)] if order == 'BE' else [48 * i for i in range(n)]

def invalid(D, F, bits):
    if F.get(('valid', bits)) is False: return True
    top = set(b for b in bits[381:] if b != B0)
    for k, v in F.items():
        if k[0] == 'some' and v and set(k[1]) <= top: return True
        if k[0] == 'bit' and D.bit(F, k[1]) == 1 and k[1] in top: return True
        if k[0] == 'bit' and (k[1] ^ B1) in top and not v: return True
    return False
def isvalid(D, F, bits): return F.get(('valid', bits)) is True or D.valid(bits) == 1

def field_decode(rep, m, cls, order, check, mont):
    n = NAMES[cls]
    # a few coordinates at a time are arbitrary, the others canonical (keeps the number of paths small)
    for u in ([range(n)] if n <= 6 else [range(0, 4), range(4, 8), range(8, 12), (0, 5, 10), (1, 6, 11), (2, 7), (3, 8), (4, 9)]): field_decode1(rep, m, cls, order, check, mont, set(u))
def field_decode1(rep, m, cls, order, check, mont, unknown):
    n = NAMES[cls]; sig = 'bls12_381::%s::fromBytes%s(std::span<unsigned char const, %dul>, bls12_381::conv_opt)' % (cls, order, 48 * n)
    W = where_fn(m, sig); f = fn(m, sig); D, it, st = new(m)
    p, bs = inbytes(it, st, 48 * n, fix=[((o + (0 if order == 'BE' else 47), j), 0) for i, o in enumerate(coords(order, n)) if i not in unknown for j in (5, 6, 7)])
    out = it.new_obj(st, 48 * n + 8, 'arg', 'result')
    for i, o in enumerate(coords(order, n)):
        if i not in unknown: st.facts[('valid', (be if order == 'BE' else le)(bs[o:o + 48]))] = True
    rs = it.call(st, f, [out, p, conv(it, f, check, mont)]); rep.absorb(it)
    want = [(be if order == 'BE' else le)(bs[o:o + 48]) for o in coords(order, n)]
    if not rs: raise Violation('no path returns', W)
    acc = 0
    for s, _ in rs:
        e = it.load_bytes(s, Ptr(out.obj, 48 * n), 1)
        if e not in (0, 1): raise AnalysisError('engaged flag %r' % (e,))
        F = s.facts
        if e == 0:
            if not check: raise Violation('an encoding is refused although validation is off', W)
            if not any(invalid(D, F, w) for w in want): raise Violation('a canonical encoding is refused', W)
            continue
        acc += 1
        for i, w in enumerate(want):
            if check and not isvalid(D, F, w): raise Violation('accepts an encoding although coordinate %d may not be below the modulus' % i, W)
            got = D.words(it, s, Ptr(out.obj, 48 * i))
            exp = D.bits381('rep', D.elem_of('int', w)) if mont else w
            if got != exp: raise Violation('coordinate %d is not the value encoded at its position%s' % (i, '' if mont else ' (raw representation)'), W)
    if not acc: raise Violation('no encoding is accepted', W)


# ---- encoders
def call_encoder(D, it, st, m, cls, name, size, p, fm, span, hasfm=True):
    """-> [(state, pointer to the bytes)]"""
    args = (['std::span<unsigned char, %dul>' % size] if span else []) + (['bls12_381::from_mont'] if hasfm else [])
    sig = 'bls12_381::%s::%s(%s) const' % (cls, name, ', '.join(args))
    f = fn(m, sig); out = it.new_obj(st, size, 'arg', 'output')
    a = ([p, out] if span else [out, p]) + ([fm] if hasfm else [])
    rs = it.call(st, f, a)
    if not rs: raise Violation('no path returns', where_fn(m, sig))
    return sig, out, [s for s, _ in rs]
def read_bits(D, it, st, p, n):
    r = []
    for i in range(n):
        v = it.load_bytes(st, Ptr(p.obj, p.off + i), 1)
        if v is UNDEF: return i
        r.append(tuple(bits_of(D.condbv(v, 8) if isinstance(v, Cond) else v, 8)))
    return r
def compare(D, W, s, got, want, what):
    if isinstance(got, int): raise Violation('byte %d of %s is never written' % (got, what), W)
    F = s.facts
    for i, (g, w) in enumerate(zip(got, want)):
        if g == w: continue
        for j in range(8):
            x, y = g[j], w[j]
            if x != y and not (D.bit(F, x) is not None and D.bit(F, x) == D.bit(F, y)):
                raise Violation('byte %d of %s is not the byte of the format' % (i, what), W)
def layout(order, cs):
    """bytes of the coordinates (384-bit strings, c0 first) of one element"""
    out = []
    for b in (cs if order == 'LE' else cs[::-1]):
        l = [b[8 * k:8 * k + 8] for k in range(48)]
        out += l if order == 'LE' else l[::-1]
    return out

def field_encode(rep, m, cls, order, fm, span):
    n = NAMES[cls]; D, it, st = new(m)
    p = it.new_obj(st, 48 * n, 'arg', 'element'); xs = []
    for i in range(n):
        x = Poly.var(V.fp('x%d' % i)); xs.append(x); D.wr(it, st, Ptr(p.obj, 48 * i), FE(x))
    st.mem[p.obj].ro = True
    sig, out, ss = call_encoder(D, it, st, m, cls, 'toBytes' + order, 48 * n, p, fm, span); W = where_fn(m, sig); rep.absorb(it)
    want = layout(order, [D.bits381('int' if fm else 'rep', x) for x in xs])
    for s in ss: compare(D, W, s, read_bits(D, it, s, out, 48 * n), want, 'the encoding')

def gdim(g): return 1 if g == 'g1' else 2
def point(D, it, st, g, kind):
    d = gdim(g); p = it.new_obj(st, 144 * d, 'arg', 'point')
    mkv = (lambda n: Poly.var(V.fp(n))) if d == 1 else (lambda n: Poly.var(V.fp2(n)))
    X, Y = mkv('X'), mkv('Y'); Z = {'zero': ZERO, 'one': ONE}.get(kind) or mkv('Z')
    if kind == 'zero': Z = ZERO
    if kind == 'any':
        D.nonzero |= {Z, Z - ONE, ONE - Z} | set(Z.vars())
    for i, c in enumerate((X, Y, Z)):
        if d == 1: D.wr(it, st, Ptr(p.obj, 48 * i), FE(c))
        else: D.wr2(it, st, Ptr(p.obj, 96 * i), c)
    st.mem[p.obj].ro = True
    return p, X, Y, Z
def fcoords(d, c): return [c] if d == 1 else [c.re(), c.im()]
def affine_of(D, X, Y, Z):
    if Z == ONE: return X, Y
    i = D.inverse(Z); return X * i * i, Y * i * i * i

def point_encode(rep, m, g, form, order, fm, span, kind):
    d = gdim(g); D, it, st = new(m)
    p, X, Y, Z = point(D, it, st, g, kind)
    size = 48 * d * (3 if form == 'Jacobian' else 2)
    sig, out, ss = call_encoder(D, it, st, m, g, 'to%sBytes%s' % (form, order), size, p, fm, span); W = where_fn(m, sig); rep.absorb(it)
    k = 'int' if fm else 'rep'
    if form == 'Jacobian': cs = [X, Y, Z]
    elif kind == 'zero': cs = None
    else: cs = affine_of(D, X, Y, Z)
    if cs is None: want = [(B0,) * 8] * size
    else: want = sum((layout(order, [D.bits381(k, x) for x in fcoords(d, c)]) for c in cs), [])
    for s in ss: compare(D, W, s, read_bits(D, it, s, out, size), want, 'the encoding of %s' % {'zero': 'the identity', 'one': 'a point with z = 1', 'any': 'a point'}[kind])

def point_compress(rep, m, g, span, kind):
    d = gdim(g); D, it, st = new(m)
    p, X, Y, Z = point(D, it, st, g, kind); size = 48 * d
    sig, out, ss = call_encoder(D, it, st, m, g, 'toCompressedBytesBE', size, p, None, span, False); W = where_fn(m, sig); rep.absorb(it)
    if kind == 'zero': want = [(B0,) * 6 + (B1, B1)] + [(B0,) * 8] * (size - 1)
    else:
        x, y = affine_of(D, X, Y, Z)
        want = layout('BE', [D.bits381('int', c) for c in fcoords(d, x)])
        want[0] = want[0][:5] + (D.condbv(D.lex(y), 8).bits()[0], B0, B1)
    for s in ss: compare(D, W, s, read_bits(D, it, s, out, size), want, 'the compressed encoding of %s' % {'zero': 'the identity', 'one': 'a point with z = 1', 'any': 'a point'}[kind])

# ---- decoders of points
def rdpt(D, it, s, p, d):
    return [D.rd(it, s, Ptr(p.obj, p.off + 48 * i)).poly if d == 1 else D.rd2(it, s, Ptr(p.obj, p.off + 96 * i)) for i in range(3)]
def engaged(it, s, out, d):
    e = it.load_bytes(s, Ptr(out.obj, 144 * d), 1)
    if e not in (0, 1): raise AnalysisError('engaged flag %r' % (e,))
    return e
def is0(D, F, c, bits):
    """the coordinate is zero on the path (True / False / None)"""
    z = D.zero_cond(None, None, c)
    if not isinstance(z, Cond): return bool(z)
    if z.key in F: return F[z.key] != z.neg
    vals = [D.bit(F, b) for w in bits for b in w]
    if all(v == 0 for v in vals): return True
    if any(v == 1 for v in vals): return False
    al = set(b for w in bits for b in w)
    if any(k[0] == 'some' and v and set(k[1]) <= al for k, v in F.items()): return False
    return None

def point_decode(rep, m, g, form, order, check, mont):
    d = gdim(g); nc = 3 if form == 'Jacobian' else 2; size = 48 * d * nc
    sig = 'bls12_381::%s::from%sBytes%s(std::span<unsigned char const, %dul>, bls12_381::conv_opt)' % (g, form, order, size)
    W = where_fn(m, sig); D, it, st = new(m); f = fn(m, sig)
    p, bs = inbytes(it, st, size); out = it.new_obj(st, 144 * d + 8, 'arg', 'result')
    rs = it.call(st, f, [out, p, conv(it, f, check, mont)]); rep.absorb(it)
    words = []; cs = []
    for i in range(nc):
        blk = bs[48 * d * i:48 * d * (i + 1)]
        w = [(be if order == 'BE' else le)(blk[o:o + 48]) for o in coords(order, d)]
        e = [D.elem_of('int' if mont else 'rep', x) for x in w]
        words.append(w); cs.append(e[0] if d == 1 else e[0] + U * e[1])
    acc = set()
    for s, _ in rs:
        F = s.facts; allw = [x for w in words for x in w]
        zs = [is0(D, F, c, w) for c, w in zip(cs, words)] if form == 'Affine' else []
        pt = tuple(cs if form == 'Jacobian' else cs + [ONE])
        alb = set(b for x in allw for b in x)
        notid = False in zs or any(k[0] == 'some' and v and set(k[1]) <= alb for k, v in F.items())
        onc = F.get(('oncurve', g, pt))
        if engaged(it, s, out, d) == 0:
            if any(invalid(D, F, x) for x in allw): continue
            if onc is False:
                if not check: raise Violation('a point is refused although point checking is off', W)
                if form == 'Affine' and not notid: raise Violation('the all-zero encoding of the identity is refused', W)
                continue
            raise Violation('a canonical encoding is refused', W)
        for i, x in enumerate(allw):
            if not isvalid(D, F, x) and not (form == 'Affine' and all(z is True for z in zs)): raise Violation('accepts an encoding although coordinate %d may not be below the modulus' % i, W)
        got = rdpt(D, it, s, out, d)
        if form == 'Affine' and all(z is True for z in zs):
            if got[2] != ZERO: raise Violation('the all-zero encoding does not denote the identity', W)
            acc.add('identity'); continue
        if check and onc is not True: raise Violation('accepts a point that may be off the curve', W)
        if form == 'Affine' and not check and not notid: raise Violation('the all-zero encoding does not denote the identity', W)
        if tuple(got) != pt: raise Violation('the decoded coordinates are not those encoded', W)
        acc.add('point')
    need = {'point'} | ({'identity'} if form == 'Affine' else set())
    if need - acc: raise Violation('no encoding of %s is accepted' % ' / '.join(sorted(need - acc)), W)

def point_decompress(rep, m, g, c, inf, sign):
    d = gdim(g); size = 48 * d
    sig = 'bls12_381::%s::fromCompressedBytesBE(std::span<unsigned char const, %dul>)' % (g, size); W = where_fn(m, sig)
    D, it, st = new(m)
    p, bs = inbytes(it, st, size, fix={(0, 7): c, (0, 6): inf, (0, 5): sign}); out = it.new_obj(st, 144 * d + 8, 'arg', 'result')
    rs = it.call(st, fn(m, sig), [out, p]); rep.absorb(it)
    rest = [b for i, x in enumerate(bs) for b in x if not (i == 0 and b in x[5:])]; rest = [b for b in rest if b not in (B0, B1)]
    w = [be(bs[o:o + 48]) for o in coords('BE', d)]
    w[-1] = w[-1][:381] + (B0,) * 3
    x = [D.elem_of('int', b) for b in w]; x = x[0] if d == 1 else x[0] + U * x[1]
    rhs = x * x * x + (Poly.const(4) if d == 1 else Poly.const(4) + U.scale(4))
    acc = set()
    for s, _ in rs:
        F = s.facts; e = engaged(it, s, out, d)
        if not c:
            if e: raise Violation('accepts an encoding without the compression flag', W)
            continue
        if inf:
            nz = any(k[0] == 'some' and v and set(k[1]) <= set(rest) for k, v in F.items()) or any(D.bit(F, b) == 1 for b in rest)
            if sign:
                if e: raise Violation('accepts the infinity flag together with the sign flag', W)
                continue
            zero = all(D.bit(F, b) == 0 for b in rest)
            if e:
                if not zero: raise Violation('accepts an encoding of the identity with other bits set: the identity has several encodings', W)
                if rdpt(D, it, s, out, d)[2] != ZERO: raise Violation('the infinity flag does not give the identity', W)
                acc.add('identity')
            elif not nz: raise Violation('the encoding of the identity is refused', W)
            continue
        sq = F.get(('square', d, rhs))
        if not e:
            if any(invalid(D, F, b) for b in w) or sq is False: continue
            raise Violation('refuses an encoding of a curve point', W)
        for b in w:
            if not isvalid(D, F, b): raise Violation('accepts an abscissa that may not be below the modulus', W)
        if sq is not True: raise Violation('accepts an abscissa that may not be on the curve', W)
        gx, gy, gz = rdpt(D, it, s, out, d)
        if gx != x: raise Violation('the abscissa is not the encoded one', W)
        if gz != ONE: raise Violation('the decoded point is not in affine form', W)
        rt = D.roots[d, rhs]
        if gy != rt and gy != -rt: raise Violation('the ordinate is not a root of the curve equation', W)
        l = D.lex(gy); t = D.decide(it, s, l)
        if t is None: raise Violation('the ordinate does not depend on the sign flag', W)
        if bool(t) != bool(sign): raise Violation('the ordinate is not the one selected by the sign flag', W)
        acc.add('point')
    want = set() if not c else ({'point'} if not inf else set() if sign else {'identity'})
    if want - acc: raise Violation('no encoding of %s is accepted' % ' / '.join(want), W)

# ---- words
def word_codec(rep, m, n, order, to, byref):
    D, it, st = new(m)
    if to:
        p = it.new_obj(st, 8 * n, 'arg', 'words'); ws = []
        for i in range(n):
            b = tuple(bitvar('w%d' % i, j) for j in range(64)); ws += b; it.store_bytes(st, Ptr(p.obj, 8 * i), 8, from_bits(b))
        st.mem[p.obj].ro = True; out = it.new_obj(st, 8 * n, 'arg', 'output')
        sig = ('void bls12_381::scalar::toBytes%s<%dul>(std::array<unsigned long, %dul> const&, std::span<unsigned char, %dul * 8>)' if byref else
               'std::array<unsigned char, %dul * 8> bls12_381::scalar::toBytes%s<%dul>(std::array<unsigned long, %dul> const&)')
        sig = sig % ((order, n, n, n) if byref else (n, order, n, n))
        W = where_fn(m, sig); f = fn(m, sig)
        want = [tuple(ws[8 * k:8 * k + 8]) for k in range(8 * n)]
        if order == 'BE': want = want[::-1]
    else:
        p, bs = inbytes(it, st, 8 * n); out = it.new_obj(st, 8 * n, 'arg', 'output')
        sig = ('void bls12_381::scalar::fromBytes%s<%dul>(std::span<unsigned char const, %dul * 8> const&, std::array<unsigned long, %dul>&)' if byref else
               'std::array<unsigned long, %dul> bls12_381::scalar::fromBytes%s<%dul>(std::span<unsigned char const, %dul * 8> const&)')
        sig = sig % ((order, n, n, n) if byref else (n, order, n, n))
        W = where_fn(m, sig); f = fn(m, sig)
        want = bs if order == 'LE' else bs[::-1]
        sp = it.new_obj(st, 8, 'arg', 'span'); it.store_bytes(st, sp, 8, p); st.mem[sp.obj].ro = True; p = sp
    a = [p, out] if byref else [out, p]
    f_ = m.functions[f]; f_.parse()
    rs = it.call(st, f, a); rep.absorb(it)
    for s, _ in rs: compare(D, W, s, read_bits(D, it, s, out, 8 * n), want, 'the result')

def defaults(rep, m, name, size, olen):
    """omitted options mean: convert, and validate field elements (points always validate their coordinates; the curve equation only on request)"""
    D, it, st = new(m); f = fn_prefix(m, name + '('); W = where_name(m, f)
    p, bs = inbytes(it, st, size); out = it.new_obj(st, olen + 8, 'arg', 'result')
    seen = []
    def spy(it, st, a): seen.append(a[2]); it.store_bytes(st, Ptr(a[0].obj, a[0].off + olen), 1, 0)
    it.prefix_handlers.insert(0, (lambda d: 'conv_opt)' in d, spy))
    it.call(st, f, [out, p]); rep.absorb(it)
    if len(seen) != 1: raise AnalysisError('decoder not reached')
    v = seen[0] if isinstance(seen[0], int) else None
    if v is None: raise AnalysisError('options %r' % (seen[0],))
    if not v >> 8 & 1: raise Violation('by default the bytes are not converted to the internal representation', W)
    if not name.startswith('inst_g') and not v & 1: raise Violation('by default the encoding is not validated', W)

def run_D01(rep):
    m = load()
    rep.explanation = 'every path of every codec is interpreted on symbolic input bits (decoders) or symbolic coordinates (encoders) and compared with the byte layout of the format, including each condition under which an encoding is refused'
    rep.assumptions += ['isValid and Montgomery conversions are exact (A03), affine() and isOnCurve() are exact (C01, C03)']
    rep.parallel([(lambda r, j=j: r.run(j[0], lambda: j[1](r), j[2])) for j in jobs_D01(m)])
def jobs_D01(m):
    J = []
    for cls in NAMES:
        n = NAMES[cls]
        for order in ('BE', 'LE'):
            sig = 'bls12_381::%s::fromBytes%s(std::span<unsigned char const, %dul>, bls12_381::conv_opt)' % (cls, order, 48 * n)
            for check in (True, False):
                for mont in (True, False):
                    J.append(('%s::fromBytes%s(check=%d,mont=%d)' % (cls, order, check, mont), lambda r, a=(cls, order, check, mont): field_decode(r, m, *a), where_fn(m, sig)))
            for fm in (1, 0):
                for span in (True, False):
                    sig = 'bls12_381::%s::toBytes%s(%sbls12_381::from_mont) const' % (cls, order, 'std::span<unsigned char, %dul>, ' % (48 * n) if span else '')
                    J.append(('%s::toBytes%s(%s, from_mont=%d)' % (cls, order, 'span' if span else 'array', fm), lambda r, a=(cls, order, fm, span): field_encode(r, m, *a), where_fn(m, sig)))
    for g in ('g1', 'g2'):
        d = gdim(g)
        for form in ('Jacobian', 'Affine'):
            size = 48 * d * (3 if form == 'Jacobian' else 2)
            for order in ('BE', 'LE'):
                sig = 'bls12_381::%s::from%sBytes%s(std::span<unsigned char const, %dul>, bls12_381::conv_opt)' % (g, form, order, size)
                for check in (True, False):
                    for mont in (True, False):
                        J.append(('%s::from%sBytes%s(check=%d,mont=%d)' % (g, form, order, check, mont), lambda r, a=(g, form, order, check, mont): point_decode(r, m, *a), where_fn(m, sig)))
                for fm in (1, 0):
                    for span in (True, False):
                        for kind in ('any', 'one', 'zero'):
                            sig = 'bls12_381::%s::to%sBytes%s(%sbls12_381::from_mont) const' % (g, form, order, 'std::span<unsigned char, %dul>, ' % size if span else '')
                            J.append(('%s::to%sBytes%s(%s, from_mont=%d), z %s' % (g, form, order, 'span' if span else 'array', fm, kind), lambda r, a=(g, form, order, fm, span, kind): point_encode(r, m, *a), where_fn(m, sig)))
    for n in (4, 6):
        for order in ('BE', 'LE'):
            for to in (True, False):
                for byref in (True, False):
                    nm = 'scalar::%sBytes%s<%d>%s' % ('to' if to else 'from', order, n, '' if byref else ' (value)')
                    J.append((nm, lambda r, a=(n, order, to, byref): word_codec(r, m, *a), 'include/bls12-381/scalar.hpp'))
    for cls in ('fp', 'fp2', 'fp6', 'fp12', 'g1', 'g2'):
        if cls in NAMES: L = [('%s::fromBytes%s' % (cls, o), 'inst_%s_%s' % (cls, o), 48 * NAMES[cls], 48 * NAMES[cls]) for o in ('BE', 'LE')]
        else: L = [('%s::from%sBytes%s' % (cls, f, o), 'inst_%s_%s_%s' % (cls, f, o), 48 * gdim(cls) * k, 144 * gdim(cls)) for f, k in (('Jacobian', 3), ('Affine', 2)) for o in ('BE', 'LE')]
        for nm, w, size, olen in L: J.append((nm + ' default options', lambda r, a=(w, size, olen): defaults(r, m, *a), 'include/bls12-381'))
    return J

def run_D02(rep):
    m = load()
    rep.explanation = 'compressed codecs are interpreted for each setting of the three flag bits on symbolic remaining bits; acceptance conditions, abscissa, ordinate (root selected by the lexicographic order) and output bytes are compared with the format'
    rep.assumptions += ['sqrt succeeds exactly on squares and returns a root, isLexicographicallyLargest distinguishes y and -y (A03)', 'the groups have no point of order two, so the ordinate of a finite point is not zero']
    J = []
    for g in ('g1', 'g2'):
        size = 48 * gdim(g)
        sig = 'bls12_381::%s::fromCompressedBytesBE(std::span<unsigned char const, %dul>)' % (g, size)
        for c in (0, 1):
            for inf in (0, 1):
                for sign in (0, 1): J.append(('%s::fromCompressedBytesBE(compression=%d,infinity=%d,sign=%d)' % (g, c, inf, sign), lambda r, a=(g, c, inf, sign): point_decompress(r, m, *a), where_fn(m, sig)))
        for span in (True, False):
            sig = 'bls12_381::%s::toCompressedBytesBE(%s) const' % (g, 'std::span<unsigned char, %dul>' % size if span else '')
            for kind in ('any', 'one', 'zero'): J.append(('%s::toCompressedBytesBE(%s), z %s' % (g, 'span' if span else 'array', kind), lambda r, a=(g, span, kind): point_compress(r, m, *a), where_fn(m, sig)))
    rep.parallel([(lambda r, j=j: r.run(j[0], lambda: j[1](r), j[2])) for j in J])
