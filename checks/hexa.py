"""H06: hexadecimal conversion over a domain of finite tables (a value is a function of at most two input characters)."""
from engine.util import *
from engine import build
from engine.interp import *
import os

DIGITS = tuple(ord(c) for c in '0123456789abcdefABCDEF')
BYTES = tuple(range(256))
ALPHA = {}                       # variable -> possible values
class T(AV):
    """function of the variables vs (sorted), tab[i0*n1+i1..]; not constant"""
    __slots__ = ('vs', 'tab', '_h')
    def __init__(self, vs, tab): self.vs = vs; self.tab = tab; self._h = hash((vs, tab))
    def __eq__(self, o): return isinstance(o, T) and self._h == o._h and self.vs == o.vs and self.tab == o.tab
    def __hash__(self): return self._h
    def __repr__(self): return 'f(%s)' % ','.join('input[%s]' % (v[1],) for v in self.vs)
def mkt(vs, tab):
    a = tab[0]
    if all(x == a for x in tab) and not isinstance(a, T): return a
    # drop variables that do not matter
    for i, v in enumerate(vs):
        n = len(ALPHA[v]); inner = 1
        for u in vs[i + 1:]: inner *= len(ALPHA[u])
        outer = len(tab) // (n * inner)
        if all(tab[(o * n + k) * inner + j] == tab[o * n * inner + j] for o in range(outer) for k in range(1, n) for j in range(inner)):
            return mkt(vs[:i] + vs[i + 1:], tuple(tab[o * n * inner + j] for o in range(outer) for j in range(inner)))
    return T(vs, tuple(tab))
def vars_of(*xs): return tuple(sorted({v for x in xs if isinstance(x, T) for v in x.vs}))
def spread(x, vs):
    """table of x over the variables vs"""
    n = 1
    for v in vs: n *= len(ALPHA[v])
    if n > 1 << 17: raise AnalysisError('a value depends on more than two characters')
    if not isinstance(x, T): return (x,) * n
    if x.vs == vs: return x.tab
    idx = [0]
    for v in vs:
        k = len(ALPHA[v])
        if v in x.vs:
            s = 1
            for u in x.vs[x.vs.index(v) + 1:]: s *= len(ALPHA[u])
        else: s = 0
        idx = [i + s * j for i in idx for j in range(k)]
    return tuple(x.tab[i] for i in idx)
def lift(f, *xs):
    vs = vars_of(*xs)
    return mkt(vs, tuple(map(f, *[spread(x, vs) for x in xs])))
def var(name, alpha):
    ALPHA[name] = alpha
    return T((name,), tuple(alpha))
class Bad:
    """result of an operation the language leaves undefined; only allowed where the path excludes it"""
    def __init__(self, why): self.why = why
    def __eq__(self, o): return isinstance(o, Bad)
    def __hash__(self): return 7
def safe(f):
    def g(*a):
        for x in a:
            if isinstance(x, Bad): return x
        return f(*a)
    return g

class TableDomain(Domain):
    def ok(self, *xs):
        for x in xs:
            if x is UNDEF: raise Violation('use of a value that was never written', self.it.where())
            if not isinstance(x, (int, T)): raise AnalysisError('operation on %r at %s' % (x, self.it.where()))
    def binop(self, it, op, w, a, b, flags):
        self.it = it; self.ok(a, b); M = (1 << w) - 1
        def f(x, y):
            if op == 'add': return x + y & M
            if op == 'sub': return x - y & M
            if op == 'mul': return x * y & M
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op in ('shl', 'lshr', 'ashr'):
                if y >= w: return Bad('shift by %d' % y)
                return (x << y) & M if op == 'shl' else x >> y if op == 'lshr' else (sgn(x, w) >> y) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0: return Bad('division by zero')
            if op == 'udiv': return x // y
            if op == 'urem': return x % y
            p, q = sgn(x, w), sgn(y, w)
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            if op == 'sdiv': return d & M
            if op == 'srem': return (p - d * q) & M
            raise AnalysisError('%s at %s' % (op, it.where()))
        return lift(safe(f), a, b)
    def icmp(self, it, pred, w, a, b):
        self.it = it; self.ok(a, b)
        s = (lambda x: sgn(x, w)) if pred[0] == 's' else (lambda x: x)
        g = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: s(x) < s(y), 'le': lambda x, y: s(x) <= s(y), 'gt': lambda x, y: s(x) > s(y), 'ge': lambda x, y: s(x) >= s(y)}[pred if pred in ('eq', 'ne') else pred[1:]]
        return lift(safe(lambda x, y: int(g(x, y))), a, b)
    def cast(self, it, op, fw, tw, v):
        self.it = it; self.ok(v); M = (1 << tw) - 1
        return lift(safe(lambda x: (sgn(x, fw) if op == 'sext' else x) & M), v)
    def extract(self, it, v, vsize, off, size):
        return lift(safe(lambda x: x >> 8 * off & (1 << 8 * size) - 1), v)
    def assemble(self, it, parts, size):
        if any(v is UNDEF for _, v in parts): return UNDEF
        r = 0; sh = 0; self.it = it
        for n, v in parts:
            self.ok(v); s = sh; r = lift(safe(lambda x, y: x | y << s), r, v); sh += 8 * n
        return r
    def select(self, it, st, c, a, b, ty):
        d = self.decide(it, st, c)
        if d is not None: return a if d else b
        return self.mix(it, c, a, b)
    def mix(self, it, c, a, b):
        self.it = it
        if not isinstance(a, (int, T)) or not isinstance(b, (int, T)): raise NoMerge()
        return lift(lambda t, x, y: t if isinstance(t, Bad) else x if t else y, c, a, b)
    def merge_value(self, it, c, a, b, size): return self.mix(it, c, a, b)
    fork = False
    def branch_policy(self, it, st, fn, blk, c): return 'fork' if self.fork else 'join'
    # path conditions: the remaining values of single variables
    def reach(self, st, x):
        al = st.aux
        idx = [()]
        for v in x.vs: idx = [i + (k,) for i in idx for k in range(len(ALPHA[v])) if k in al.get(v, ALLK) ]
        out = set()
        for i in idx:
            n = 0
            for v, k in zip(x.vs, i): n = n * len(ALPHA[v]) + k
            out.add(x.tab[n])
        return out
    def decide(self, it, st, c):
        self.it = it; self.ok(c)
        if isinstance(c, int): return bool(c & 1)
        r = self.reach(st, c)
        for x in r:
            if isinstance(x, Bad): raise Violation('%s' % x.why, it.where())
        if len(r) == 1: return bool(r.pop() & 1)
        return None
    def assume(self, it, st, c, truth):
        if isinstance(c, T) and len(c.vs) == 1:
            v = c.vs[0]; al = st.aux.get(v, ALLK)
            ks = frozenset(k for k, x in enumerate(c.tab) if k in al and bool(x) == truth)
            if not ks: return False
            st.aux = dict(st.aux); st.aux[v] = ks
        return True
    def merge_aux(self, it, c, a, b):
        out = {}
        for v in set(a) & set(b): out[v] = a[v] | b[v]
        return out
    # table look-ups
    def gep(self, it, st, off, i, w, sz):
        self.it = it; self.ok(off, i)
        return lift(safe(lambda o, k: o + sgn(k, w) * sz), off, i)
    def load(self, it, st, p, ty, size):
        offs = self.reach(st, p.off); val = {}
        for o in sorted(offs, key=str):
            if isinstance(o, Bad): raise Violation(o.why, it.where())
            val[o] = it.load_bytes(st, Ptr(p.obj, o), size)
            if val[o] is UNDEF: raise Violation('reads a byte that was never written', it.where())
        if any(not isinstance(v, (int, T)) for v in val.values()): raise AnalysisError('look-up of %r at %s' % (val, it.where()))
        if all(isinstance(v, int) for v in val.values()):
            return mkt(p.off.vs, tuple(val.get(o, 0) if not isinstance(o, Bad) else o for o in p.off.tab))
        r = 0
        for o, v in val.items(): r = self.mix(it, lift(safe(lambda x: int(x == o)), p.off), v, r)
        return r
def either(f, *a):
    """join at open branches; where that mixes too many characters, follow the sides separately"""
    try: return f(*a)
    except AnalysisError as e:
        if 'more than two' not in str(e): raise
        TableDomain.fork = True
        try: return f(*a)
        finally: TableDomain.fork = False
class All:
    def __contains__(self, k): return True
    def __or__(self, o): return self
    __ror__ = __or__
ALLK = All()

def show(v, st=None):
    if isinstance(v, T): return 'a different function of the input (%s)' % ', '.join('%s' % (x,) for x in v.vs)
    return repr(v)
def interp(m):
    D = TableDomain(); it = Interp(m, D); it.run_ctors()
    def fail(it, st, a): raise Violation('the library throws', it.where())
    it.prefix_handlers.append((lambda d: d.startswith('std::__throw_'), fail))
    return it
def same(it, st, got, want):
    """equal for every input of the path"""
    if got is UNDEF: return False
    if isinstance(got, int) and isinstance(want, int): return got == want
    if not isinstance(got, (int, T)): return False
    d = lift(lambda x, y: int(x == y), got, want)
    return it.dom.decide(it, st, d) is True
def nib(c): return int(chr(c), 16)

def decode(rep, m, f, n, prefix, odd=False, extra=None):
    """vector<uint8_t> hexToBytes(string_view) on 2n digits"""
    it = interp(m); st = it.gstate.clone(); W = where_name(m, f); ALPHA.clear()
    cs = [ord('0'), ord('x')] if prefix else []
    L = len(cs) + 2 * n + (1 if odd else 0)
    cs += [var(('c', i), DIGITS) for i in range(len(cs), L)]
    p = it.new_obj(st, max(L, 1), 'arg', 'string')
    for i, c in enumerate(cs): it.store_bytes(st, Ptr(p.obj, i), 1, c)
    st.mem[p.obj].size = L; st.mem[p.obj].ro = True
    out = it.new_obj(st, 24, 'arg', 'result')
    rs = it.call(st, f, [out, L, p]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    what = '%d digits%s' % (2 * n + odd, ' after 0x' if prefix else '')
    for s, _ in rs:
        b = it.load_bytes(s, out, 8); e = it.load_bytes(s, Ptr(out.obj, 8), 8)
        want = 0 if odd else n
        k = (e.off - b.off) if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj else 0 if b == e else None
        if b == NULL and e == NULL: k = 0
        if k != want: raise Violation('%s give %r bytes, expected %d' % (what, k, want), W)
        for i in range(want):
            hi, lo = cs[len(cs) - 2 * n + 2 * i:][:2]
            w = lift(lambda x, y: nib(x) * 16 + nib(y), hi, lo)
            g = it.load_bytes(s, Ptr(b.obj, b.off + i), 1)
            if not same(it, s, g, w): raise Violation('%s: byte %d is not the value of its two digits%s' % (what, i, example(it, s, g, w)), W)
def example(it, s, g, w):
    if not isinstance(g, (int, T)): return ' (%r)' % (g,)
    vs = vars_of(g, w)
    import itertools
    for idx, (x, y) in zip(itertools.product(*[range(len(ALPHA[v])) for v in vs]), zip(spread(g, vs), spread(w, vs))):
        if x != y and all(k in s.aux.get(v, ALLK) for v, k in zip(vs, idx)):
            return ' (%s gives %r, expected %r)' % (', '.join('%s%d=%s' % (v[0], v[1], repr(chr(ALPHA[v][k])) if v[0] == 'c' else '%#x' % ALPHA[v][k]) for v, k in zip(vs, idx)), x if not isinstance(x, Bad) else x.why, y)
    return ''
def text(it, s, out, L, W, what):
    b = it.load_bytes(s, out, 8); k = it.load_bytes(s, Ptr(out.obj, 8), 8)
    if not isinstance(b, Ptr) or k != L: raise Violation('%s give a string of length %r, expected %d' % (what, k, L), W)
    return [it.load_bytes(s, Ptr(b.obj, b.off + i), 1) for i in range(L)]
def encode(rep, m, f, n, fixed=False):
    it = interp(m); st = it.gstate.clone(); W = where_name(m, f); ALPHA.clear()
    bs = [var(('b', i), BYTES) for i in range(n)]
    p = it.new_obj(st, max(n, 1), 'arg', 'bytes')
    for i, c in enumerate(bs): it.store_bytes(st, Ptr(p.obj, i), 1, c)
    st.mem[p.obj].size = n; st.mem[p.obj].ro = True
    out = it.new_obj(st, 32, 'arg', 'result')
    if fixed:
        q = it.new_obj(st, 8, 'arg', 'span'); it.store_bytes(st, q, 8, p); args = [out, q]
    else: args = [out, p, n]
    rs = it.call(st, f, args); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    for s, _ in rs:
        t = text(it, s, out, 2 + 2 * n, W, '%d bytes' % n)
        if t[0] != ord('0') or t[1] != ord('x'): raise Violation('the text does not start with 0x', W)
        for i in range(2 * n):
            d = t[2 + i]; sh = 0 if i & 1 else 4
            if not isinstance(d, (int, T)): raise Violation('character %d is never written' % (2 + i), W)
            w = lift(lambda x: x >> sh & 15, bs[i // 2])
            v = lift(lambda x: x if isinstance(x, Bad) else nib(x) if x in DIGITS else 99, d)
            if not same(it, s, v, w): raise Violation('character %d of the text of %d bytes is not the %s digit of byte %d%s' % (2 + i, n, 'low' if i & 1 else 'high', i // 2, example(it, s, v, w)), W)
def strobj(it, st, cs):
    s = it.new_obj(st, 32, 'arg', 'string object'); L = len(cs)
    if L < 16: d = Ptr(s.obj, 16)
    else: d = it.new_obj(st, L + 1, 'arg', 'characters')
    it.store_bytes(st, s, 8, d); it.store_bytes(st, Ptr(s.obj, 8), 8, L)
    if L >= 16: it.store_bytes(st, Ptr(s.obj, 16), 8, L)
    for i, c in enumerate(cs + [0]): it.store_bytes(st, Ptr(d.obj, d.off + i), 1, c)
    st.mem[d.obj].ro = True; st.mem[s.obj].ro = True
    return s
def decode_fixed(rep, m, f, n, prefix, array):
    it = interp(m); st = it.gstate.clone(); W = where_name(m, f); ALPHA.clear()
    cs = [ord('0'), ord('x')] if prefix else []
    cs += [var(('c', i), DIGITS) for i in range(len(cs), len(cs) + 2 * n)]
    s0 = strobj(it, st, cs); out = it.new_obj(st, n, 'arg', 'result')
    rs = it.call(st, f, [out, s0] if array else [s0, out]); rep.absorb(it)
    if not rs: raise Violation('no path returns', W)
    if array and len(rs) == 1 and rs[0][1] is not None: raise AnalysisError('array returned in a register')
    for s, _ in rs:
        for i in range(n):
            hi, lo = cs[len(cs) - 2 * n + 2 * i:][:2]
            w = lift(lambda x, y: nib(x) * 16 + nib(y), hi, lo); g = it.load_bytes(s, Ptr(out.obj, i), 1)
            if not same(it, s, g, w): raise Violation('%d digits%s: byte %d is not the value of its two digits%s' % (2 * n, ' after 0x' if prefix else '', i, example(it, s, g, w)), W)

ENC = 'bls12_381::bytesToHex'
DEC = 'bls12_381::hexToBytes(std::basic_string_view<char, std::char_traits<char>>)'
WID = (17, 32, 48, 96, 192)
def load():
    src = '#include <bls12-381/bls12-381.hpp>\nusing namespace bls12_381;\n'
    for n in WID:
        src += 'template std::string bls12_381::bytesToHex<%d>(const std::span<const uint8_t, %d>&);\ntemplate void bls12_381::hexToBytes<%d>(const std::string&, std::span<uint8_t, %d>);\ntemplate std::array<uint8_t, %d> bls12_381::hexToBytes<%d>(const std::string&);\n' % ((n,) * 6)
    p = os.path.join(build.scratch(), 'hexinst.cpp')
    open(p, 'w').write(src)
    return build.load(extra_sources=[p])
def one(m, pred, what):
    c = [f for d, f in m.bydem.items() if pred(d) and f in m.functions]
    if len(c) != 1: raise AnalysisError('anchor vanished: %d definitions of %s' % (len(c), what))
    return c[0]
def counters(m, names):
    """no loop of these functions is controlled by a counter narrower than 32 bits"""
    import re
    for n in names:
        f = m.functions[n]; f.parse(); defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
        for r in loop_conditions(f):
            i = defs.get(r)
            if i is None or i.op != 'icmp': continue
            for x in i.a[:2]:
                d = defs.get(x[1]) if isinstance(x, tuple) and x[0] == 'l' else None
                while d is not None and d.op == 'cast' and d.extra[0] in ('zext', 'sext'):
                    k = re.search(r'(\d+)', str(d.extra[1]))
                    if k and int(k.group(1)) <= 32 and is_counter(defs, d): raise Violation('a loop over the data counts in %s bits' % k.group(1), m.where(i.dbg))
                    y = d.a[0]; d = defs.get(y[1]) if isinstance(y, tuple) and y[0] == 'l' else None
def run_H06(rep):
    m = load()
    rep.explanation = 'hexadecimal conversions interpreted over tables: each character ranges over all 22 digits, each byte over all 256 values, results compared as functions of the input for every length in a list'
    f = one(m, lambda d: d == DEC, 'hexToBytes'); g = one(m, lambda d: d.startswith(ENC) and '(std::span<unsigned char const, 18446744073709551615ul>)' in d, 'bytesToHex')
    Wf, Wg = where_name(m, f), where_name(m, g)
    jobs = []
    lens = list(range(0, 35)) + [47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 144, 192, 255, 256, 257] + ([288, 511, 512, 513, 576, 1024] if rep.tier == 'thorough' else [])
    def dec(r, ns):
        for n in ns:
            for pre in (False, True):
                r.run('hexToBytes of %d digits%s' % (2 * n, ' after 0x' if pre else ''), lambda: either(decode, r, m, f, n, pre), Wf)
                r.run('hexToBytes refuses %d digits%s' % (2 * n + 1, ' after 0x' if pre else ''), lambda: either(decode, r, m, f, n, pre, True), Wf)
    def enc(r, ns):
        for n in ns: r.run('bytesToHex of %d bytes' % n, lambda: either(encode, r, m, g, n), Wg)
    for k in range(8):
        jobs.append(lambda r, k=k: dec(r, lens[k::8])); jobs.append(lambda r, k=k: enc(r, lens[k::8]))
    def fixed(r, n):
        a = one(m, lambda d: ENC in d and 'bytesToHex' in d and '<%dul>' % n in d, 'bytesToHex<%d>' % n)
        r.run('bytesToHex<%d>' % n, lambda: either(encode, r, m, a, n, True), where_name(m, a))
        v = one(m, lambda d: d.startswith('void bls12_381::hexToBytes<%dul>(' % n), 'hexToBytes<%d>' % n)
        c = one(m, lambda d: d.startswith('std::array<unsigned char, %dul> bls12_381::hexToBytes<%dul>(' % (n, n)), 'hexToBytes<%d>' % n)
        for pre in (False, True):
            r.run('hexToBytes<%d> into a span%s' % (n, ' after 0x' if pre else ''), lambda: either(decode_fixed, r, m, v, n, pre, False), where_name(m, v))
            r.run('hexToBytes<%d> to an array%s' % (n, ' after 0x' if pre else ''), lambda: either(decode_fixed, r, m, c, n, pre, True), where_name(m, c))
    for n in WID: jobs.append(lambda r, n=n: fixed(r, n))
    jobs.append(lambda r: r.run('loop counters', lambda: counters(m, [f, g]), Wf))
    rep.assumptions.append('lengths above the listed ones behave as the loop counters (64 bits wide) and the listed lengths show')
    rep.parallel(jobs)
