"""Protocol-level domain: byte strings as sequences of slices of uninterpreted
terms, curve points as formal linear combinations, pairing values as bilinear
forms.  Component routines (curve operations, pairing, SHA-256, division) are
replaced by transfer functions; each of them is an obligation of another
property (C01/C02/C03, D02, E01, F01, A04)."""
import re
from .interp import *
from .llir import INT, PTR

R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab

# ---------------------------------------------------------------- terms
class Term:
    """uninterpreted value of n bytes; interned"""
    __slots__ = ('op', 'args', 'n', 'id')
    def __repr__(self): return show(self)
_TERMS = {}
def T(n, op, *args):
    k = (n, op, args)
    t = _TERMS.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = args; t.n = n; t.id = len(_TERMS)
        _TERMS[k] = t
    return t
UNDEFT = T(1 << 40, 'undefined')

def show(x, d=4):
    if isinstance(x, Term):
        if d == 0: return '..'
        if not x.args: return x.op
        return '%s(%s)' % (x.op, ', '.join(show(a, d - 1) for a in x.args))
    if isinstance(x, B): return x.show(d)
    if isinstance(x, bytes): return x.hex() if len(x) < 40 else x[:16].hex() + '...'
    if isinstance(x, int): return hex(x) if x > 999 else str(x)
    if isinstance(x, frozenset): return '{' + ', '.join(sorted(show(e, d) for e in x)[:6]) + '}'
    if isinstance(x, tuple): return '(' + ', '.join(show(e, d) for e in x[:8]) + ')'
    return str(x)

# ---------------------------------------------------------------- byte contents
# segment: (n, parts, const) ; parts = tuple of (term, off, dir) sorted; const = bytes or None (zero)
def seg_const(b): return (len(b), (), bytes(b))
def seg_slice(seg, off, n):
    sn, parts, const = seg
    if off == 0 and n == sn: return seg
    ps = tuple((t, o + d * off, d if n > 1 else 1) for t, o, d in parts)
    c = None if const is None else const[off:off + n]
    if c is not None and parts and not any(c): c = None
    return (n, ps, c)
def seg_rev(seg):
    n, parts, const = seg
    ps = tuple((t, o + d * (n - 1), -d if n > 1 else 1) for t, o, d in parts)
    return (n, ps, None if const is None else const[::-1])
def pkey(p): return (p[0].id, p[1], p[2])
def seg_xor(a, b):
    n = a[0]
    d = {}
    for p in a[1] + b[1]:
        if p in d: del d[p]
        else: d[p] = 1
    ps = tuple(sorted(d, key=pkey))
    ca, cb = a[2], b[2]
    if ca is None: c = cb
    elif cb is None: c = ca
    else: c = bytes(x ^ y for x, y in zip(ca, cb))
    if not ps: c = c if c is not None else bytes(n)
    elif c is not None and not any(c): c = None
    return (n, ps, c)
def try_merge(a, b):
    an, ap, ac = a; bn, bp, bc = b
    if not ap and not bp: return (an + bn, (), ac + bc)
    if len(ap) != len(bp): return None
    for D in (1, -1):
        if an > 1 and any(d != D for _, _, d in ap): continue
        if bn > 1 and any(d != D for _, _, d in bp): continue
        if tuple(sorted(((t, o + D * an) for t, o, _ in ap), key=lambda x: (x[0].id, x[1]))) == tuple(sorted(((t, o) for t, o, _ in bp), key=lambda x: (x[0].id, x[1]))):
            c = None
            if ac is not None or bc is not None:
                if an + bn > 1 << 20: return None
                c = (ac or bytes(an)) + (bc or bytes(bn))
            return (an + bn, tuple(sorted(((t, o, D) for t, o, _ in ap), key=pkey)), c)
    return None
def norm_segs(segs):
    out = []
    for s in segs:
        if s[0] == 0: continue
        if s[0] == 1: s = (1, tuple((t, o, 1) for t, o, _ in s[1]), s[2])
        if out:
            m = try_merge(out[-1], s)
            if m is not None:
                out[-1] = m; continue
        out.append(s)
    return tuple(out)

class B(AV):
    """byte content (memory order); as an integer: little endian"""
    __slots__ = ('segs', 'n', 'h')
    def __init__(self, segs):
        self.segs = norm_segs(segs); self.n = sum(s[0] for s in self.segs); self.h = hash(self.segs)
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, B) and self.h == o.h and self.segs == o.segs
    def __repr__(self): return self.show()
    def show(self, d=4):
        l = []
        for n, ps, c in self.segs[:8]:
            x = ''
            if c is not None: x = c.hex() if n < 40 else c[:12].hex() + '..(%d)' % n
            for t, o, dr in ps:
                w = show(t, d - 1)
                if not (o == 0 and n == t.n and dr == 1):
                    w += '[%d..%d]' % (o, o + dr * (n - 1)) if n > 1 else '[%d]' % o
                x = x + '^' + w if x else w
            l.append(x)
        if len(self.segs) > 8: l.append('... %d bytes' % self.n)
        return '|'.join(l) if l else '""'
    def slice(self, off, n):
        out = []; pos = 0
        for s in self.segs:
            lo = max(off, pos); hi = min(off + n, pos + s[0])
            if lo < hi: out.append(seg_slice(s, lo - pos, hi - lo))
            pos += s[0]
        return B(out)
    def rev(self): return B([seg_rev(s) for s in reversed(self.segs)])
    def term(self):
        """the term when the content is exactly one whole term"""
        if len(self.segs) == 1:
            n, ps, c = self.segs[0]
            if c is None and len(ps) == 1 and ps[0][1] == 0 and ps[0][2] == 1 and ps[0][0].n == n: return ps[0][0]
        return None
    def const(self):
        if not self.segs: return b''
        if len(self.segs) == 1 and not self.segs[0][1]: return self.segs[0][2]
        return None
    def value(self):
        c = self.const()
        return self if c is None else int.from_bytes(c, 'little')
    def undef(self):
        return any(t is UNDEFT for s in self.segs for t, _, _ in s[1])
    def terms(self):
        return {t for s in self.segs for t, _, _ in s[1]}
    def cat(self, o): return B(self.segs + o.segs)

def Bt(t): return B([(t.n, ((t, 0, 1),), None)])
def Bc(b): return B([seg_const(b)]) if b else B([])
def Bi(v, n): return Bc(int(v).to_bytes(n, 'little'))
def as_B(v, n):
    if isinstance(v, B): return v
    if type(v) is int: return Bi(v, n)
    if v is UNDEF: return B([(n, ((UNDEFT, 0, 1),), None)])
    raise AnalysisError('not a byte content: %r' % (v,))
def cat(*parts):
    s = ()
    for p in parts: s += p.segs
    return B(s)

# ---------------------------------------------------------------- conditions
class Cond(AV):
    __slots__ = ('key', 'neg')
    def __init__(self, key, neg=False): self.key = key; self.neg = neg
    def __eq__(self, o): return isinstance(o, Cond) and self.key == o.key and self.neg == o.neg
    def __hash__(self): return hash((self.key, self.neg))
    def __repr__(self): return ('!' if self.neg else '') + show(self.key)
    def inv(self): return Cond(self.key, not self.neg)

def cond_eval(facts, key):
    """three-valued truth of a condition key under the facts"""
    if key in facts: return facts[key]
    if key[0] == 'and':
        vs = []
        for k, neg in key[1:]:
            v = cond_eval(facts, k)
            if v is not None and v == neg: return False
            vs.append(v)
        return True if all(v is not None for v in vs) else None
    return None

# ---------------------------------------------------------------- scalar polynomials and linear forms
# poly: dict monomial(tuple of var ids sorted) -> int ; form: dict atom -> poly
VARS = []          # id -> Term or content naming the variable
_VID = {}
def vid(x):
    if x not in _VID: _VID[x] = len(VARS); VARS.append(x)
    return _VID[x]
def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items(): r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}
def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n)); r[q] = r.get(q, 0) + c * d
    return {m: c for m, c in r.items() if c}
def p_mod(a): return {m: c % R for m, c in a.items() if c % R}
def f_norm(f):
    o = {}
    for a, p in f.items():
        if atom_order_r(a): p = p_mod(p)
        if p: o[a] = p
    return o
def atom_order_r(a):
    if isinstance(a, tuple): return True       # pairing values lie in the order-r target group
    return a.op in ('G1', 'G2', 'H')
def f_add(a, b, k=1):
    r = dict(a)
    for t, p in b.items(): r[t] = p_add(r.get(t, {}), p, k)
    return f_norm(r)
def f_scale(f, poly): return f_norm({a: p_mul(p, poly) for a, p in f.items()})
def f_key(f): return frozenset((a, frozenset(p.items())) for a, p in f.items())
def f_un(k): return {a: dict(p) for a, p in k}

G1A = T(144, 'G1'); G2A = T(288, 'G2')
GSZ = {'g1': 144, 'g2': 288}
def point(g, form): return Bt(T(GSZ[g], 'point', g, f_key(form)))
def in_point(g, name): return {T(GSZ[g], 'input', g, name): {(): 1}}
def var_scalar(name, bound=R - 1): return Bt(T(32, 'scalar', name, bound))
def bound(c):
    """largest value of a little-endian integer content"""
    v = c.value()
    if type(v) is int: return v
    t = c.term()
    if t is not None:
        if t.op == 'mod': return t.args[1] - 1
        if t.op == 'scalar': return t.args[1]
        if t.op == 'add': return bound(t.args[0]) + bound(t.args[1])
    k = len(c.segs)
    # leading zero bytes
    n = c.n
    s = c.segs[-1]
    if not s[1]:
        z = len(s[2]) - len(s[2].rstrip(b'\0')); n -= z
    return (1 << (8 * n)) - 1
def strip_zero(c):
    s = c.segs[-1] if c.segs else None
    if s and not s[1]:
        z = len(s[2]) - len(s[2].rstrip(b'\0'))
        if z: return c.slice(0, c.n - z)
    return c
def spoly(c, modr=True):
    """polynomial of a scalar content; modr: value only matters modulo the group order"""
    v = c.value()
    if type(v) is int: return {(): v} if v else {}
    t = c.term()
    if t is not None:
        if t.op == 'mod' and t.args[1] == R and modr: return spoly(t.args[0], modr)
        if t.op == 'add': return p_add(spoly(t.args[0], modr), spoly(t.args[1], modr))
    return {(vid(strip_zero(c)),): 1}

def mod_content(a, m, n):
    """a mod m as a content of n bytes"""
    v = a.value()
    if type(v) is int: return Bi(v % m, n)
    if bound(a) < m:
        s = strip_zero(a)
        if s.n > n: s = s.slice(0, n)
        return cat(s, Bc(bytes(n - s.n)))
    L = (m.bit_length() + 63) // 64 * 8
    return cat(Bt(T(L, 'mod', strip_zero(a), m)).slice(0, min(L, n)), Bc(bytes(max(0, n - L))))

# ---------------------------------------------------------------- simplification under zero facts
class Infeasible(Exception): pass
def rules(facts):
    try: return rules_(facts)
    except Infeasible: return []
def feasible(facts):
    try: rules_(facts); return True
    except Infeasible: return False
def rules_(facts):
    """rewriting rules implied by 'form = 0' facts: (monomial, atom or None) -> replacement"""
    zeros = [f_un(k[1]) for k, v in facts.items() if k[0] == 'zero' and v]
    for k, v in facts.items():
        if k[0] == 'eq' and v and (not k[1].segs or not k[2].segs): zeros.append({G1A: spoly(k[1] if k[1].segs else k[2])})
    if not zeros: return []
    non = [f_un(k[1]) for k, v in facts.items() if k[0] == 'zero' and not v]
    for k, v in facts.items():
        if k[0] == 'eq' and not v and (not k[1].segs or not k[2].segs): non.append({G1A: spoly(k[1] if k[1].segs else k[2])})
    rs = []; todo = list(zeros)
    for _ in range(60):
        # products that cannot vanish: every factor is non-zero (the group order is prime)
        nzv = set(); nza = {G1A, G2A}
        for f in non:
            if len(f) == 1:
                (a, p), = f.items()
                if len(p) == 1:
                    (m, c), = p.items()
                    if atom_order_r(a): nzv.update(m)
                    nza.add(a)
        if not todo: break
        f = apply_rules(todo.pop(0), rs)
        if not f: continue
        rule = None
        if len(f) == 1:
            (a, p), = f.items()
            if len(p) == 1:
                (m, c), = p.items()
                m2 = tuple(v for v in m if v not in nzv) if atom_order_r(a) else m
                if atom_order_r(a) or c in (1, -1):
                    if not m2 and a in nza: raise Infeasible
                    if not m2: rule = ((), a, {})
                    elif a in nza: rule = (m2, None, {})
                    else: rule = (m2, a, {})
            if rule is None and a in (G1A, G2A):
                for m, c in sorted(p.items(), key=lambda x: (-len(x[0]), x[0])):
                    if m and c in (1, R - 1, -1):
                        rule = (m, None, {n: (-d if c == 1 else d) for n, d in p.items() if n != m}); break
        if rule is None:
            for a, p in sorted(f.items(), key=lambda x: x[0].id):
                for m, c in sorted(p.items(), key=lambda x: (-len(x[0]), x[0])):
                    if c in (1, -1, R - 1):
                        rest = {}
                        for b, q in f.items():
                            for n, d in q.items():
                                if b is a and n == m: continue
                                rest.setdefault(b, {})[n] = (-d if c == 1 else d)
                        rule = (m, a, rest); break
                if rule: break
        if rule is None: continue
        # interreduce: earlier rules whose pattern the new one rewrites go back to the list
        keep = []
        for m, a, rest in rs:
            hit = mono_div(m, rule[0]) is not None and (rule[1] is None or rule[1] is a)
            if hit:
                if a is None: g = {G1A: p_add({m: 1}, rest, -1)}
                else: g = f_add({a: {m: 1}}, rest, -1)
                todo.append(g)
            else: keep.append((m, a, rest))
        rs = keep + [rule]
    for f in non:
        if not apply_rules(f, rs): raise Infeasible
    return rs
def same_form(facts, f, g):
    """equality of linear forms under the facts of a path"""
    if f_norm(f) == f_norm(g): return True
    rs = rules(facts)
    return bool(rs) and apply_rules(f_norm(f), rs) == apply_rules(f_norm(g), rs)
def same_poly(facts, a, b):
    return same_form(facts, {G1A: a}, {G1A: b})
def mono_div(n, m):
    """n / m for monomials or None"""
    n = list(n)
    for v in m:
        if v in n: n.remove(v)
        else: return None
    return tuple(n)
def apply_rules(f, rs):
    """f: form with point atoms or (g1 atom, g2 atom) pairs"""
    for _ in range(40):
        ch = False
        for m, a, rest in rs:
            out = {}
            for t, p in f.items():
                for n, c in p.items():
                    q = mono_div(n, m)
                    hit = None
                    if q is not None:
                        if a is None: hit = 'all'
                        elif t is a: hit = 'pt'
                        elif isinstance(t, tuple):
                            if t[0] is a: hit = 0
                            elif t[1] is a: hit = 1
                    if hit is None:
                        out.setdefault(t, {}); out[t][n] = out[t].get(n, 0) + c; continue
                    ch = True
                    if hit == 'all':
                        for k, d in rest.items():
                            z = tuple(sorted(q + k)); out.setdefault(t, {}); out[t][z] = out[t].get(z, 0) + c * d
                    else:
                        for b, pp in rest.items():
                            t2 = b if hit == 'pt' else ((b, t[1]) if hit == 0 else (t[0], b))
                            for k, d in pp.items():
                                z = tuple(sorted(q + k)); out.setdefault(t2, {}); out[t2][z] = out[t2].get(z, 0) + c * d
            f = f_norm({t: {n: c for n, c in p.items() if c} for t, p in out.items()})
        if not ch: break
    return f

def mont(x): return x * (1 << 384) % P

class ProtoDomain(Domain):
    def __init__(self):
        self.assume_true = set()       # predicates(key) assumed to hold
        self.assume_hook = None
        self.consts = {}
    # --- integers / bytes
    def bw(self, w):
        if w % 8: raise AnalysisError('odd width %d' % w)
        return w // 8
    def opaque(self, op, w, *a):
        return Bt(T(self.bw(w), op, *[as_B(x, self.bw(w)) for x in a]))
    def binop(self, it, op, w, a, b, flags):
        if isinstance(a, Cond) or isinstance(b, Cond):
            return self.cbin(op, a, b)
        n = self.bw(w)
        if op in ('shl', 'lshr') and type(b) is int:
            if b >= w: raise Violation('shift of a %d-bit value by %d' % (w, b), it.where())
            A = as_B(a, n)
            if b % 8 == 0:
                k = b // 8
                if op == 'shl': return cat(Bc(bytes(k)), A.slice(0, n - k)).value()
                return cat(A.slice(k, n - k), Bc(bytes(k))).value()
            return self.opaque(op + str(b), w, a)
        if op == 'and':
            if type(a) is int: a, b = b, a
            if type(b) is int:
                mb = b.to_bytes(n, 'little'); A = as_B(a, n)
                if all(x in (0, 255) for x in mb):
                    out = []
                    for i, x in enumerate(mb): out.append(A.slice(i, 1) if x else Bc(b'\0'))
                    return cat(*out).value()
            return self.comm('and', w, a, b)
        if op in ('or', 'xor', 'add'):
            A = as_B(a, n); C = as_B(b, n)
            r = self.disjoint(A, C, n)
            if r is not None: return r.value()
            if op == 'xor': return self.xor(A, C).value()
            if op == 'or' and A == C: return A.value()
            return self.comm(op, w, a, b)
        if op == 'mul' and type(a) is int: a, b = b, a
        if op == 'mul' and type(b) is int and b and b & (b - 1) == 0:
            return self.binop(it, 'shl', w, a, b.bit_length() - 1, flags)
        if op == 'udiv' and type(b) is int and b and b & (b - 1) == 0:
            return self.binop(it, 'lshr', w, a, b.bit_length() - 1, flags)
        return self.opaque(op, w, a, b)
    def comm(self, op, w, a, b):
        n = self.bw(w)
        a, b = as_B(a, n), as_B(b, n)
        if show(b) < show(a): a, b = b, a
        return Bt(T(n, op, a, b))
    def cells(self, A, C):
        """common refinement of two contents"""
        i = j = 0; ao = co = 0
        while i < len(A.segs) and j < len(C.segs):
            k = min(A.segs[i][0] - ao, C.segs[j][0] - co)
            yield k, seg_slice(A.segs[i], ao, k), seg_slice(C.segs[j], co, k)
            ao += k; co += k
            if ao == A.segs[i][0]: i += 1; ao = 0
            if co == C.segs[j][0]: j += 1; co = 0
    def disjoint(self, A, C, n):
        out = []
        for k, x, y in self.cells(A, C):
            zx = None
            # byte-wise zero tests on constants
            if not x[1] and not any(x[2]): out.append(y)
            elif not y[1] and not any(y[2]): out.append(x)
            elif not x[1] or not y[1]:
                for i in range(k):
                    bx, by = seg_slice(x, i, 1), seg_slice(y, i, 1)
                    if not bx[1] and not any(bx[2]): out.append(by)
                    elif not by[1] and not any(by[2]): out.append(bx)
                    else: return None
            else: return None
        return B(out)
    def xor(self, A, C):
        return B([seg_xor(x, y) for k, x, y in self.cells(A, C)])
    def cbin(self, op, a, b):
        if type(a) is int: a, b = b, a
        if op == 'xor' and type(b) is int: return a.inv() if b & 1 else a
        if op == 'and':
            if type(b) is int: return a if b & 1 else 0
            if a == b: return a
            if isinstance(a, Cond) and isinstance(b, Cond):
                fl = []
                for c in (a, b):
                    if c.key[0] == 'and' and not c.neg: fl += list(c.key[1:])
                    else: fl.append((c.key, c.neg))
                return Cond(('and',) + tuple(fl))
        if op == 'or':
            if type(b) is int: return 1 if b & 1 else a
            if isinstance(a, Cond) and isinstance(b, Cond):
                return self.cbin('and', a.inv(), b.inv()).inv()
        raise AnalysisError('boolean %s of %r and %r' % (op, a, b))
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, Cond):
            return v
        if op == 'zext':
            if isinstance(v, B): return cat(as_B(v, v.n), Bc(bytes(tw // 8 - v.n))).value()
        if op == 'trunc':
            if tw == 1:
                return Cond(('bit', v))
            return as_B(v, fw // 8).slice(0, self.bw(tw)).value()
        if op == 'sext': return self.opaque('sext%d' % fw, tw, cat(v, Bc(bytes(tw // 8 - v.n))))
        raise AnalysisError('cast %s of %r at %s' % (op, v, it.where()))
    def unop(self, it, st, op, w, a):
        if op == 'bswap': return as_B(a, w // 8).rev().value()
        return self.opaque(op, w, a)
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(b, Cond): a, b = b, a
            if isinstance(b, Cond):
                if a == b: return int(pred == 'eq')
                raise AnalysisError('comparison of two conditions')
            b &= 1
            return a if (pred == 'eq') == bool(b) else a.inv()
        if a == b:
            return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if isinstance(a, (B, int)) and isinstance(b, (B, int)):
            n = self.bw(w)
            A, C = as_B(a, n), as_B(b, n)
            if A.undef() or C.undef(): raise Violation('comparison of an undefined value', it.where())
            if pred in ('eq', 'ne'):
                c = eq_cond(A, C)
                if c is None: return int(pred == 'ne')
                return c if pred == 'eq' else c.inv()
            ba, bb = bound(A), bound(C)
            if pred[0] == 'u':
                if type(b) is int:
                    if pred == 'ult' and ba < b: return 1
                    if pred == 'uge' and ba < b: return 0
                    if pred == 'ugt' and ba <= b: return 0
                    if pred == 'ule' and ba <= b: return 1
            if pred in ('ugt', 'sgt'): return Cond(('lt' + pred[0], C, A))
            if pred in ('ult', 'slt'): return Cond(('lt' + pred[0], A, C))
            if pred in ('ule', 'sle'): return Cond(('lt' + pred[0], C, A), True)
            if pred in ('uge', 'sge'): return Cond(('lt' + pred[0], A, C), True)
        raise AnalysisError('comparison %s %r %r at %s' % (pred, a, b, it.where()))
    def select(self, it, st, c, a, b, ty):
        d = self.decide(it, st, c)
        if d is not None: return a if d else b
        if isinstance(a, (Cond, int)) and isinstance(b, (Cond, int)) and ty == INT(1):
            # c ? a : b as a boolean expression
            if a == 0 and type(a) is int: return self.cbin('and', c.inv(), b) if not (type(b) is int and b == 1) else c.inv()
            if b == 0 and type(b) is int: return self.cbin('and', c, a) if not (type(a) is int and a == 1) else c
            if a == 1 and type(a) is int: return self.cbin('or', c, b)
            if b == 1 and type(b) is int: return self.cbin('or', c.inv(), a)
        raise AnalysisError('select on %r at %s' % (c, it.where()))
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, B): return v.slice(off, size).value()
        if isinstance(v, Cond) and size == 1: return v
        if isinstance(v, Ptr): raise AnalysisError('part of a pointer')
        raise AnalysisError('extract %r' % (v,))
    def assemble(self, it, parts, size):
        if any(isinstance(v, (Cond, Ptr, Fun, float)) for _, v in parts): raise AnalysisError('assembling %r' % (parts,))
        return cat(*[as_B(v, n) for n, v in parts]).value()
    # --- conditions
    def decide(self, it, st, c):
        if not isinstance(c, Cond): raise AnalysisError('condition %r' % (c,))
        v = cond_eval(st.facts, c.key)
        if v is None and c.key[0] == 'zero':
            f = apply_rules(f_un(c.key[1]), rules(st.facts))
            if not f: v = True
        if v is None and c.key[0] == 'gt':
            f = apply_rules(f_un(c.key[1]), rules(st.facts))
            if not f: v = True
        if v is None and self.assume_hook:
            v = self.assume_hook(c.key)
            if v is not None: st.facts[c.key] = v
        if v is None: return None
        return v != c.neg
    def assume(self, it, st, c, truth):
        v = truth != c.neg
        k = c.key
        st.facts[k] = v
        if k[0] == 'and' and v:
            for kk, neg in k[1:]:
                if not self.assume(it, st, Cond(kk), not neg): return False
        if k[0] == 'zero': return feasible(st.facts)
        return True
    def memcmp(self, it, st, pa, pb, n):
        A = as_B(it.load_bytes(st, pa, n), n); C = as_B(it.load_bytes(st, pb, n), n)
        return three_way(it, st, A, C)
    def mem_copy(self, it, st, d, s, n): raise AnalysisError('copy of symbolic length at ' + it.where())
    def mem_set(self, it, st, d, v, n): raise AnalysisError('fill of symbolic length at ' + it.where())
    def on_throw(self, it, st):
        self.throws.append((st, it.where()))
    throws = []

def eq_cond(A, C):
    """equality of two contents; None when certainly different"""
    if A == C: return Cond(('true',))
    for x, y in ((A, C), (C, A)):
        if type(x.value()) is int and type(y.value()) is int: return None
    a, b = strip_zero(A), strip_zero(C)
    if show(b) < show(a): a, b = b, a
    return Cond(('eq', a, b))

def three_way(it, st, A, C):
    """lexicographic comparison; forks"""
    if A.undef() or C.undef(): raise Violation('comparison of undefined bytes', it.where())
    if A == C: return 0
    ca, cc = A.const(), C.const()
    if ca is not None and cc is not None: return 0 if ca == cc else (1 if ca > cc else 0xffffffff)
    k = ('ord', A, C)
    v = order_lookup(st.facts, A, C)
    if v is not None: return v & 0xffffffff
    outs = []
    for r in (0, 1, -1):
        s = st.clone(); s.facts[k] = r
        if order_consistent(s.facts): outs.append((s, r & 0xffffffff))
    return outs

def order_lookup(facts, A, C):
    """-1/0/1 when implied by the recorded order facts"""
    if ('ord', A, C) in facts: return facts[('ord', A, C)]
    f = dict(facts); ok = []
    for r in (-1, 0, 1):
        f[('ord', A, C)] = r
        if order_consistent(f): ok.append(r)
    return ok[0] if len(ok) == 1 else None

def order_consistent(facts):
    le = []; lt = []
    for k, v in facts.items():
        if k[0] != 'ord': continue
        a, b = k[1], k[2]
        if v == 0: le += [(a, b), (b, a)]
        elif v < 0: lt.append((a, b)); le.append((a, b))
        else: lt.append((b, a)); le.append((b, a))
    if not lt: return True
    succ = {}
    for a, b in le: succ.setdefault(a, set()).add(b)
    for a, b in lt:
        seen = {b}; w = [b]
        while w:
            x = w.pop()
            if x == a: return False
            for y in succ.get(x, ()):
                if y not in seen: seen.add(y); w.append(y)
    return True

# ---------------------------------------------------------------- handlers
G1X = 0x17F1D3A73197D7942695638C4FA9AC0FC3688C4F9774B905A14E3A3F171BAC586C55E83FF97A1AEFFB3AF00ADB22C6BB
G1Y = 0x08B3F481E3AAA0F1A09E30ED741D8AE4FCF5E095D5D00AF600DB18CB2C04B3EDD03CC744A2888AE40CAA232946C5E7E1
G2X = (0x024AA2B2F08F0A91260805272DC51051C6E47AD4FA403B02B4510B647AE3D1770BAC0326A805BBEFD48056C8C121BDB8, 0x13E02B6052719F607DACD3A088274F65596BD0D09920B61AB5DA61BBDC7F5049334CF11213945D57E5AC7D055D042B7E)
G2Y = (0x0CE5D527727D6E118CC9CDC6DA2E351AADFD9BAA8CBDD3A76D429A695160D12C923AC9CC3BACA289E193548608B82801, 0x0606C4A02EA734CC32ACD2B02BC28B99CB3E287E85A763AF267492AB572E99AB3F370D275CEC1DA1AAA9075FF05F79BE)
def fpb(*xs): return b''.join(mont(x).to_bytes(48, 'little') for x in xs)
G1CONST = fpb(G1X, G1Y, 1)
G2CONST = fpb(G2X[0], G2X[1], G2Y[0], G2Y[1], 1, 0)
G1NEG = fpb(G1X, P - G1Y, 1)
FP12ONE = fpb(1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)

class Proto:
    """interpreter + handlers for one module"""
    def __init__(self, m):
        self.m = m
        self.dom = ProtoDomain()
        self.it = Interp(m, self.dom)
        it = self.it
        H = it.handlers; PH = it.prefix_handlers
        it.run_ctors()
        H['_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_'] = self.rb_insert
        H['_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base'] = lambda it, st, a: self.rb_step(it, st, a[0], 0)
        H['_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'] = lambda it, st, a: self.rb_step(it, st, a[0], 1)
        H['_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'] = H['_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base']
        H['_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'] = H['_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base']
        self.rx = re.compile(r'^(?:bls12_381::g[12] )?bls12_381::(g[12])::(\w+)(<\d+ul>)?\(')
        PH.append((lambda d: self.rx.match(d) is not None and self.rx.match(d).group(2) in self.POINT, self.point_op))
        PH.append((lambda d: d.startswith('bls12_381::sha256::'), self.sha))
        PH.append((lambda d: d.startswith('bls12_381::pairing::calculate('), self.calculate))
        PH.append((lambda d: d.startswith('bls12_381::fp12::') and d.split('(')[0].split('::')[-1] in ('equal', 'isOne'), self.fp12_pred))
        PH.append((lambda d: 'bls12_381::bn_divn_safe<' in d, self.divn))
        PH.append((lambda d: 'bls12_381::scalar::' in d and 'scalar::add<' in d.split('(')[0], self.sadd))
        PH.append((lambda d: 'bls12_381::scalar::equal<' in d, self.sequal))
        PH.append((lambda d: 'bls12_381::scalar::cmp<' in d, self.scmp))
        PH.append((lambda d: re.match(r'^bls12_381::(fp|fp2|fp6)::(equal|isZero)\(', d) is not None, self.fpeq))
        self.msg_handler = True
        PH.append((lambda d: self.msg_handler and d.startswith('bls12_381::fromMessage('), self.from_message))
        self.sha_uses = 0
    POINT = {'add', 'addAssign', 'dbl', 'doubleAssign', 'negate', 'subtract', 'subtractAssign', 'affine', 'equal', 'isZero', 'isOnCurve',
             'inCorrectSubgroup', 'scale', 'clearCofactor', 'isAffine', 'toCompressedBytesBE', 'toAffineBytesLE', 'toAffineBytesBE', 'toJacobianBytesLE', 'toJacobianBytesBE', 'weightedSum'}

    # ---- reading arguments
    def rd(self, it, st, p, n):
        if n == 0: return B([])
        c = as_B(it.load_bytes(st, p, n), n)
        return c
    def wr(self, it, st, p, c):
        if c.n: it.store_bytes(st, p, c.n, c.value())
    def form(self, it, st, p, g):
        n = GSZ[g]
        c = self.rd(it, st, p, n)
        t = c.term()
        if t is not None and t.op == 'point' and t.args[0] == g: return f_un(t.args[1])
        if c.undef(): raise Violation('use of an uninitialised point', it.where())
        k = c.const()
        if k is not None:
            z = k[n * 2 // 3:]
            if not any(z): return {}
            if g == 'g1' and k == G1CONST: return {G1A: {(): 1}}
            if g == 'g1' and k == G1NEG: return {G1A: {(): R - 1}}
            if g == 'g2' and k == G2CONST: return {G2A: {(): 1}}
        raise AnalysisError('unrecognised %s value %s at %s' % (g, show(c), it.where()))
    def wform(self, it, st, p, g, f): self.wr(it, st, p, point(g, f))

    def point_op(self, it, st, a):
        raise AnalysisError('unbound')
    def bind(self):
        """prefix handlers need the callee's name: wrap them"""
    # ---- curve operations
    def _point(self, d, it, st, a):
        mm = self.rx.match(d); g, op, tp = mm.group(1), mm.group(2), mm.group(3)
        F = lambda p: self.form(it, st, p, g)
        o = 'g1' if g == 'g2' else 'g2'
        if op in ('addAssign', 'subtractAssign'):
            self.wform(it, st, a[0], g, f_add(F(a[0]), F(a[1]), 1 if op[0] == 'a' else -1)); return None
        if op in ('add', 'subtract'):
            self.wform(it, st, a[0], g, f_add(F(a[1]), F(a[2]), 1 if op == 'add' else -1)); return None
        if op == 'doubleAssign': self.wform(it, st, a[0], g, f_scale(F(a[0]), {(): 2})); return None
        if op == 'dbl': self.wform(it, st, a[0], g, f_scale(F(a[1]), {(): 2})); return None
        if op == 'negate': self.wform(it, st, a[0], g, f_scale(F(a[1]), {(): -1})); return None
        if op == 'affine': self.wform(it, st, a[0], g, F(a[1])); return None
        if op == 'scale':
            n = 8 * int(tp[1:-3])
            k = self.rd(it, st, a[2], n)
            if k.undef(): raise Violation('scalar multiplication by an undefined scalar', it.where())
            f = F(a[1])
            out = {}
            for at, p in f.items(): out[at] = p_mul(p, spoly(k, atom_order_r(at)))
            self.wform(it, st, a[0], g, f_norm(out)); return None
        if op == 'equal': return self.zero(it, f_add(F(a[0]), F(a[1]), -1))
        if op == 'isZero': return self.zero(it, F(a[0]))
        if op in ('isOnCurve', 'inCorrectSubgroup'):
            f = F(a[0])
            if all(atom_order_r(t) for t in f): return 1
            return Cond((op, g, f_key(f)))
        if op == 'isAffine': return Cond(('isAffine', g, f_key(F(a[0]))))
        if op == 'clearCofactor':
            f = F(a[1])
            # linear: the image of every atom lies in the prime-order subgroup
            self.wform(it, st, a[0], g, f_norm({T(GSZ[g], 'H', 'cleared', t): p for t, p in f.items()})); return None
        if op.startswith('to'):
            # (this, span ptr[, fm]) or (sret, this[, fm]) distinguished by the signature
            sg = d[d.index('(') + 1:]
            sz = {'toC': GSZ[g] // 3, 'toA': GSZ[g] * 2 // 3, 'toJ': GSZ[g]}[op[:3]]
            if sg.startswith('std::span'): this, out, rest = a[0], a[1], a[2:]
            else: out, this, rest = a[0], a[1], a[2:]
            if rest and type(rest[0]) is not int: raise AnalysisError('symbolic conversion mode')
            if op[:3] == 'toJ':
                t = T(sz, op, g, self.rd(it, st, this, GSZ[g]), *rest)
            else: t = T(sz, op, g, f_key(F(this)), *rest)
            self.wr(it, st, out, Bt(t)); return None
        raise AnalysisError('no transfer function for ' + d)
    def zero(self, it, f):
        if not f: return 1
        if len(f) == 1:
            (a, p), = f.items()
            if a in (G1A, G2A) and set(p) == {()}: return 0
        # sign-normalise
        k1 = f_key(f); k2 = f_key(f_scale(f, {(): -1}))
        return Cond(('zero', min(k1, k2, key=lambda k: sorted((show(a), sorted(p)) for a, p in k))))
    # ---- pairing
    def calculate(self, it, st, a):
        # sret, span ptr, len, function*
        out, p, n = a[0], a[1], a[2]
        if type(n) is not int: raise AnalysisError('number of pairs not known')
        form = {}
        sz = 144 + 288
        for i in range(n):
            q = Ptr(p.obj, p.off + i * sz)
            f1 = f2 = None
            for o1, o2 in ((288, 0), (0, 144)):
                try:
                    f1 = self.form(it, st, Ptr(q.obj, q.off + o1), 'g1'); f2 = self.form(it, st, Ptr(q.obj, q.off + o2), 'g2'); break
                except AnalysisError: f1 = None
            if f1 is None: raise AnalysisError('unrecognised pair handed to the pairing at ' + it.where())
            for x, px in f1.items():
                for y, py in f2.items():
                    form[(x, y)] = p_add(form.get((x, y), {}), p_mul(px, py))
        self.wr(it, st, out, Bt(T(576, 'gt', f_key(f_norm(form))))); return None
    def gtform(self, it, st, p):
        c = self.rd(it, st, p, 576); t = c.term()
        if t is not None and t.op == 'gt': return f_un(t.args[0])
        if c.const() == FP12ONE: return {}
        raise AnalysisError('unrecognised target-group value %s at %s' % (show(c), it.where()))
    def gtcond(self, f):
        f = f_norm(f)
        if not f: return 1
        k1 = f_key(f); k2 = f_key(f_scale(f, {(): -1}))
        return Cond(('gt', min(k1, k2, key=lambda k: sorted((show(a), sorted(p)) for a, p in k))))
    def _fp12(self, d, it, st, a):
        if '::isOne(' in d: return self.gtcond(self.gtform(it, st, a[0]))
        return self.gtcond(f_add(self.gtform(it, st, a[0]), self.gtform(it, st, a[1]), -1))
    # ---- SHA-256
    def _sha(self, d, it, st, a):
        nm = d[len('bls12_381::sha256::'):]
        if nm.startswith('toString'): raise AnalysisError('sha256::toString')
        if nm.startswith('sha256('):
            k = ('sha', a[0].obj, a[0].off); st.aux[k] = B([]); return None
        if nm.startswith('update('):
            k = ('sha', a[0].obj, a[0].off)
            if 'string' in nm:
                ptr = it.load_bytes(st, a[1], 8); n = it.load_bytes(st, Ptr(a[1].obj, a[1].off + 8), 8)
            else: ptr, n = a[1], a[2]
            if type(n) is not int: raise AnalysisError('hashing a symbolic length at ' + it.where())
            c = self.rd(it, st, ptr, n)
            if c.undef(): raise Violation('hashes bytes that were never written', it.where())
            cur = st.aux.get(k)
            if cur is None: raise AnalysisError('hash object not constructed at ' + it.where())
            if cur == 'done': raise Violation('hash object updated after its digest was taken', it.where())
            st.aux[k] = cur.cat(c); self.sha_uses += 1
            return None
        if nm.startswith('digest('):
            if nm.startswith('digest()'): out, th = a[0], a[1]
            else: th, out = a[0], a[1]
            k = ('sha', th.obj, th.off)
            cur = st.aux.get(k)
            if cur is None: raise AnalysisError('hash object not constructed at ' + it.where())
            if cur == 'done': raise Violation('digest taken twice from one hash object', it.where())
            st.aux[k] = 'done'
            self.wr(it, st, out, Bt(T(32, 'sha256', cur)))
            return None
        raise AnalysisError('call to %s at %s' % (d, it.where()))
    # ---- big integers
    def _divn(self, d, it, st, a):
        mm = re.search(r'bn_divn_safe<(\d+)ul, (\d+)ul>', d); N, M = int(mm.group(1)), int(mm.group(2))
        q, r, x, y = a
        X = self.rd(it, st, x, 8 * N); Y = self.rd(it, st, y, 8 * M)
        if X.undef() or Y.undef(): raise Violation('division of undefined words', it.where())
        m = Y.value()
        if type(m) is not int: raise AnalysisError('division by a symbolic value')
        if m == 0: raise Violation('division by zero', it.where())
        v = X.value()
        self.wr(it, st, q, Bi(v // m, 8 * N) if type(v) is int else Bt(T(8 * N, 'div', X, m)))
        self.wr(it, st, r, mod_content(X, m, 8 * M)); return None
    def _sadd(self, d, it, st, a):
        mm = re.search(r'scalar::add<(\d+)ul, (\d+)ul, (\d+)ul>', d)
        if not mm: raise AnalysisError('scalar::add with other template arguments')
        NC, NA, NB = [8 * int(x) for x in mm.groups()]
        ret = None
        if d.startswith('void'):
            # (c, a, b) output order is decided by the signature
            c, x, y = a; c = a[0]
        else: c, x, y = a
        A = self.rd(it, st, x, NA); C = self.rd(it, st, y, NB)
        if A.undef() or C.undef(): raise Violation('addition of undefined words', it.where())
        self.wr(it, st, c, self.add_content(A, C, NC)); return None
    def add_content(self, A, C, n):
        va, vc = A.value(), C.value()
        if type(va) is int and type(vc) is int: return Bi((va + vc) % (1 << 8 * n), n)
        if va == 0 and type(va) is int: A, C, va, vc = C, A, vc, va
        if type(vc) is int and vc == 0:
            s = strip_zero(A)
            return cat(s, Bc(bytes(n - s.n))) if s.n <= n else s.slice(0, n)
        a, b = strip_zero(A), strip_zero(C)
        if show(b) < show(a): a, b = b, a
        if bound(A) + bound(C) < 1 << (8 * n): return Bt(T(n, 'add', a, b))
        return Bt(T(n, 'addwrap', a, b))
    def _sequal(self, d, it, st, a):
        n = 8 * int(re.search(r'equal<(\d+)ul>', d).group(1))
        A = self.rd(it, st, a[0], n); C = self.rd(it, st, a[1], n)
        if A.undef() or C.undef(): raise Violation('comparison of undefined words', it.where())
        if A == C: return 1
        c = eq_cond(A, C)
        return 0 if c is None else c
    def _scmp(self, d, it, st, a):
        n = 8 * int(re.search(r'cmp<(\d+)ul>', d).group(1))
        A = self.rd(it, st, a[0], n); C = self.rd(it, st, a[1], n)
        if A == C: return 0
        va, vc = A.value(), C.value()
        if type(va) is int and type(vc) is int: return 1 if va > vc else 0xffffffff
        k = ('cmp', A, C)
        if k in st.facts: return st.facts[k] & 0xffffffff
        outs = []
        for r in (0, 1, -1):
            if r > 0 and bound(A) <= (vc if type(vc) is int else -1): continue
            s = st.clone(); s.facts[k] = r; outs.append((s, r & 0xffffffff))
        return outs
    def _fpeq(self, d, it, st, a):
        cls, op = re.match(r'^bls12_381::(fp\d*)::(\w+)', d).groups()
        n = {'fp': 48, 'fp2': 96, 'fp6': 288}[cls]
        A = self.rd(it, st, a[0], n); C = self.rd(it, st, a[1], n) if op == 'equal' else Bi(0, n)
        if A == C: return 1
        c = eq_cond(A, C)
        return 0 if c is None else c
    def _from_message(self, d, it, st, a):
        out, p, n, s = a
        if type(n) is not int: raise AnalysisError('message length')
        msg = self.rd(it, st, p, n)
        if msg.undef(): raise Violation('hashes message bytes that were never written', it.where())
        sp = it.load_bytes(st, s, 8); sn = it.load_bytes(st, Ptr(s.obj, s.off + 8), 8)
        dst = self.rd(it, st, sp, sn)
        self.wform(it, st, out, 'g2', {T(288, 'H', msg, dst): {(): 1}}); return None
    # ---- std::set support: plain binary search tree links (balancing does not change the set)
    def rb_insert(self, it, st, a):
        left, x, p, header = a
        # node: color(4) pad parent(8) left(16) right(24)
        W = lambda q, o, v: it.store_bytes(st, Ptr(q.obj, q.off + o), 8, v)
        Rd = lambda q, o: it.load_bytes(st, Ptr(q.obj, q.off + o), 8)
        W(x, 8, p); W(x, 16, NULL); W(x, 24, NULL)
        if not isinstance(left, int):
            d = self.dom.decide(it, st, left)
            if d is None: raise AnalysisError('tree insertion side')
            left = d
        if left:
            W(p, 16, x)
            if p == header: W(header, 8, x); W(header, 24, x)
            elif p == Rd(header, 16): W(header, 16, x)
        else:
            W(p, 24, x)
            if p == Rd(header, 24): W(header, 24, x)
        return None
    def rb_step(self, it, st, x, up):
        Rd = lambda q, o: it.load_bytes(st, Ptr(q.obj, q.off + o), 8)
        fwd, back = (24, 16) if up else (16, 24)
        nul = lambda v: v == NULL or v == 0
        # header: its parent's parent is itself and (decrement) it is red; the header's parent is the root
        if not up and not nul(Rd(x, 8)) and Rd(Rd(x, 8), 8) == x and self.is_header(it, st, x):
            return Rd(x, 24)
        if not nul(Rd(x, fwd)):
            y = Rd(x, fwd)
            while not nul(Rd(y, back)): y = Rd(y, back)
            return y
        y = Rd(x, 8)
        while Rd(y, fwd) == x: x = y; y = Rd(y, 8)
        if Rd(x, fwd) != y: x = y
        return x
    def is_header(self, it, st, x):
        o = st.mem[x.obj]
        return o.kind != 'heap'

    # ---- hash-to-curve components
    def expand_only(self, s=None):
        PH = self.it.prefix_handlers
        def modp(it, st, a):
            n = 8 * int(re.search(r'modPrime<(\d+)ul>', it.callee).group(1))
            c = self.rd(it, st, a[1], n)
            if c.undef(): raise Violation('reduces bytes that were never written', it.where())
            self.wr(it, st, a[0], Bt(T(48, 'modPrime', strip_zero(c))))
        def swu(it, st, a):
            g = it.callee.split('::')[1]; e = GSZ[g] // 3
            c = self.rd(it, st, a[1], e)
            if c.undef(): raise Violation('maps an undefined field element', it.where())
            # std::tuple stores its elements in reverse order
            self.wr(it, st, a[0], Bt(T(e, 'swu.y', c))); self.wr(it, st, Ptr(a[0].obj, a[0].off + e), Bt(T(e, 'swu.x', c)))
        def iso(it, st, a):
            c = self.rd(it, st, a[1], 288)
            if c.undef(): raise Violation('isogeny of an undefined point', it.where())
            self.wform(it, st, a[0], 'g2', {T(288, 'isogeny', c): {(): 1}})
        PH.append((lambda d: 'bls12_381::fp::modPrime<' in d, modp))
        PH.append((lambda d: d.startswith(('bls12_381::g2::swuMapG2(', 'bls12_381::g1::swuMapG1(')), swu))
        PH.append((lambda d: d.startswith('bls12_381::g2::isogenyMap('), iso))
    # ---- running
    def new(self): return self.it.gstate.clone()
    def fn(self, prefix):
        c = [d for d in self.m.bydem if d.startswith(prefix) and self.m.bydem[d] in self.m.functions]
        if len(c) != 1: raise AnalysisError('anchor vanished: %d definitions of %s' % (len(c), prefix))
        return self.m.bydem[c[0]]
    def where(self, prefix):
        try: f = self.m.functions[self.fn(prefix)]
        except AnalysisError: return prefix
        f.parse()
        return '%s (%s)' % (self.m.where(f.dbg), prefix.rstrip('('))
    def call(self, st, prefix, args):
        self.dom.throws = []
        return self.it.call(st, self.fn(prefix), args)
    def buf(self, st, c, name='arg', ro=True):
        """object holding a content (B, int size for an output)"""
        if isinstance(c, int):
            return self.it.new_obj(st, c, 'out', name)
        p = self.it.new_obj(st, c.n, 'arg', name)
        if c.n: self.it.store_bytes(st, p, c.n, c.value())
        st.mem[p.obj].ro = ro
        return p
    def point_arg(self, st, g, form, name='point'): return self.buf(st, point(g, form), name)
    def vec_bytes(self, st, contents):
        """array of std::vector<uint8_t> -> pointer"""
        p = self.it.new_obj(st, 24 * len(contents), 'arg', 'messages')
        for i, c in enumerate(contents):
            d = self.buf(st, c, 'message %d' % i)
            for o, q in ((0, d), (8, Ptr(d.obj, c.n)), (16, Ptr(d.obj, c.n))):
                self.it.store_bytes(st, Ptr(p.obj, 24 * i + o), 8, q)
        st.mem[p.obj].ro = True
        return p
    def string(self, st, c, name='string'):
        p = self.it.new_obj(st, 32, 'arg', name)
        d = self.buf(st, c.cat(Bc(b'\0')), name + ' data')
        self.it.store_bytes(st, p, 8, d); self.it.store_bytes(st, Ptr(p.obj, 8), 8, c.n); self.it.store_bytes(st, Ptr(p.obj, 16), 8, c.n)
        st.mem[p.obj].ro = True
        return p
    def leaks(self, st): return [o.name for i, o in st.mem.items() if o.kind == 'heap' and not o.freed and i not in self.it.gstate.mem]

def _mk(name):
    def h(self, it, st, a):
        return getattr(self, '_' + name)(it.callee, it, st, a)
    return h
for _a, _b in (('point_op', 'point'), ('sha', 'sha'), ('fp12_pred', 'fp12'), ('divn', 'divn'), ('sadd', 'sadd'), ('sequal', 'sequal'), ('scmp', 'scmp'), ('fpeq', 'fpeq'), ('from_message', 'from_message')):
    setattr(Proto, _a, _mk(_b))
