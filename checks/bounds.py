"""A02: canonical form as an invariant of the field classes. A scan over the typed IR finds every construct that can
produce an element without reducing it (limb writes, raw constructions, calls of the non-reducing primitives); everything
else only moves elements around or uses reducing primitives. Each function reached by such a construct is then interpreted
over magnitude intervals (multiples of the modulus)."""
from engine.util import *
from engine import build
import re

B = 'bls12_381::'
FIELD = ('fp', 'fp2', 'fp6', 'fp12', 'g1', 'g2')
LAZY = ('_ladd', '_ldouble', '_lsubtract')
PRIMS = ('_add', '_double', '_subtract', '_negate', '_multiply', '_square', '__multiply', '__mul_ex', '__negate')

def split_params(dem):
    """parameter types of a demangled signature -> (name, [types], const?)"""
    d = dem; const = False
    while True:
        if d.endswith(' const'): d = d[:-6]; const = True; continue
        m = re.search(r' \[(clone|abi:)[^\]]*\]$', d) or re.search(r' \(\.[^)]*\)$', d)
        if m: d = d[:m.start()]; continue
        if d.endswith(' &') or d.endswith(' &&'): d = d[:d.rindex(' &')]; continue
        break
    if not d.endswith(')'): return dem, None, const
    k = 0; i = len(d) - 1
    while i >= 0:
        if d[i] == ')': k += 1
        elif d[i] == '(':
            k -= 1
            if k == 0: break
        i -= 1
    inner = d[i + 1:-1]; out = []; k = 0; cur = ''
    for c in inner:
        if c in '(<[{': k += 1
        if c in ')>]}': k -= 1
        if c == ',' and k == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return d[:i], out, const

def elem_of(name):
    """class type mentioned first in a template argument list, e.g. std::array<bls12_381::fp, 2ul>::operator[]"""
    m = re.search(r'<(?:std::\w+<)*' + B + r'(fp12|fp6|fp2|fp|g1|g2)\b', name)
    return ('n', '%%"class.%s%s"' % (B, m.group(1))) if m else None

class Scan:
    def __init__(self, m):
        self.m = m; self.fpc = {}
        self.limbT = None
    def fpish(self, ty):
        """type contains a base-field element"""
        if ty is None: return False
        r = self.fpc.get(ty)
        if r is None:
            self.fpc[ty] = False
            k = ty[0]
            if k == 'n':
                r = ty[1] in ('%%"class.%sfp"' % B,) or (self.m.named(ty[1]) is not None and self.fpish(self.m.named(ty[1])))
            elif k == 's': r = any(self.fpish(e) for e in ty[1])
            elif k == 'a': r = self.fpish(ty[2])
            else: r = False
            self.fpc[ty] = r
        return r
    def isfp(self, ty): return ty == ('n', '%%"class.%sfp"' % B)
    def ptype_of_param(self, t):
        t = t.strip()
        if t[-1] not in '&*': return None
        t = t.rstrip('&*').strip()
        if t.endswith(' const'): t = t[:-6]
        n = '%%"class.%s"' % t
        if n in self.m.types: return ('n', n)
        n = '%%"struct.%s"' % t
        if n in self.m.types: return ('n', n)
        if t == 'unsigned char' or t == 'char' or t == 'void': return INT(8)
        if t == 'unsigned long': return INT(64)
        return None
    def roles(self, f, dem=None):
        """[(IR param name, 'sret'|'this'|'arg', C++ type)]"""
        m = self.m; f.parse(); dem = dem or m.demangled.get(f.name, f.name)
        name, ps, const = split_params(dem)
        out = []; irp = list(f.params)
        if irp and irp[0][2] and irp[0][2][0] == 'sret': out.append((irp[0][1], 'sret', irp[0][2][1])); irp = irp[1:]
        if ps is None: return name, out, const, None
        if ps == ['void']: ps = []
        return name, out, const, (irp, ps)
    def gep_type(self, sty, idx):
        ty = sty
        for _, v in idx[1:]:
            ty = self.m.resolve(ty)
            if ty[0] == 'a': ty = ty[2]
            elif ty[0] == 's':
                if v[0] != 'c': return None
                ty = ty[1][v[1]]
            else: return None
        return ty
    def events(self, f):
        """constructs of f that may produce an unreduced element: [(kind, text, inst, detail)]"""
        m = self.m; f.parse(); ev = []
        dem = m.demangled.get(f.name, f.name)
        cls = re.match(r'(?:.* )?' + B + r'(fp12|fp6|fp2|fp|g1|g2)::', split_params(dem)[0] + '')
        pt = {}      # local -> pointee type
        limb = {}    # local -> instruction that created the limb pointer
        name, rs, const, rest = self.roles(f)
        for p, kind, ty in rs: pt[p] = ty
        ctor = bool(re.search(r'::(\w+)::\1$', name))
        if rest:
            irp, ps = rest
            this = len(irp) > 0 and irp[0][1] == '%this'
            if this:
                mt = re.match(r'^(?:.* )?(' + B + r'(?:fp12|fp6|fp2|fp|g1|g2))::[~\w]+(<.*>)?$', name)
                if mt: pt['%this'] = ('n', '%%"class.%s"' % mt.group(1))
                else:
                    e = elem_of(name)
                irp = irp[1:]
            if len(irp) == len(ps):
                for (ty, p, _), t in zip(irp, ps):
                    q = self.ptype_of_param(t)
                    if q: pt[p] = q
        def vt(v):
            if v[0] == 'l': return pt.get(v[1])
            if v[0] == 'g' and v[1] in m.globals: return m.globals[v[1]][0]
            if v[0] == 'gep': return self.gep_type(v[1], v[3])
            return None
        def islimb(v):
            if v[0] == 'l': return v[1] in limb
            if v[0] == 'gep': return self.isfp(v[1]) and len(v[3]) > 1
            return False
        for rounds in range(3):
            before = (len(pt), len(limb)); ev = []
            for b in f.order:
                for ins in f.blocks[b]:
                    o = ins.op
                    if o == 'alloca': pt[ins.res] = ins.ty
                    elif o == 'gep':
                        sty, idx = ins.extra; base = ins.a[0]
                        if islimb(base): limb[ins.res] = ins
                        elif self.isfp(sty) and len(idx) > 1: limb[ins.res] = ins
                        elif self.fpish(vt(base)) and not self.fpish(sty) and sty[0] == 'i': limb[ins.res] = ins
                        t = self.gep_type(sty, idx)
                        if t is not None: pt[ins.res] = t
                    elif o in ('phi', 'select'):
                        vs = [v for v, _ in ins.extra] if o == 'phi' else ins.a[1:]
                        for v in vs:
                            if islimb(v): limb[ins.res] = ins
                            t = vt(v)
                            if t is not None: pt.setdefault(ins.res, t)
                    elif o == 'store':
                        v, p = ins.a
                        if islimb(p): ev.append(('limb', 'writes a limb', ins, None))
                        elif self.fpish(vt(p)) and ins.ty[0] != 'p': ev.append(('limb', 'stores raw data into an element', ins, None))
                        if islimb(v): ev.append(('limb', 'stores the address of limbs', ins, None))
                    elif o == 'ret':
                        if ins.a and islimb(ins.a[0]): ev.append(('limb', 'returns the address of limbs', ins, None))
                    elif o == 'call':
                        callee = ins.extra[0]
                        cn = callee[1] if callee[0] == 'g' else None
                        cn = m.aliases.get(cn, cn)
                        d = m.demangled.get(cn, cn) if cn else '?'
                        args = ins.a
                        if cn and cn.startswith('llvm.'):
                            if cn.startswith(('llvm.memcpy', 'llvm.memmove')):
                                dst, src = args[0][1], args[1][1]
                                if islimb(dst): ev.append(('limb', 'copies raw data into limbs', ins, None))
                                elif self.fpish(vt(dst)) and not self.fpish(vt(src)): ev.append(('limb', 'copies data of unknown type into an element', ins, None))
                            elif cn.startswith('llvm.memset'):
                                if (islimb(args[0][1]) or self.fpish(vt(args[0][1]))) and args[1][1] != ('c', 0): ev.append(('limb', 'fills an element', ins, None))
                            continue
                        cname, cps, cconst = split_params(d)
                        short = cname.split('::')[-1] if cname.startswith(B) else cname
                        if cname.startswith(B) and short in LAZY: ev.append(('lazy', 'calls ' + short, ins, None))
                        if d == B + 'fp::fp(std::array<unsigned long, 6ul> const&)': ev.append(('raw', 'builds an element from limbs', ins, None))
                        for q, a in enumerate(args):
                            v = a[1]
                            if v[0] == 'g' and v[1] == m.bydem.get(B + 'fp::MODULUS'): ev.append(('modulus', 'uses the modulus as an operand', ins, (d, q)))
                            lb = islimb(v); fpp = self.fpish(vt(v))
                            if not lb and not fpp: continue
                            # formal parameter
                            k = q - (1 if args and args[0][2] and args[0][2][0] == 'sret' else 0)
                            isthis = False; ft = None
                            if cps is not None:
                                np = len(args) - (q - k if q != k else 0)
                                npar = len(cps) if cps != ['void'] else 0
                                extra = (len(args) - (q - k)) - npar
                                if extra == 1:
                                    if k == 0: isthis = True
                                    elif 0 < k <= npar: ft = cps[k - 1]
                                elif extra == 0 and 0 <= k < npar: ft = cps[k]
                            if lb:
                                if isthis and cconst: 
                                    pass
                                elif isthis and re.match(r'^(unsigned long& )?std::array<unsigned long, 6ul>::(operator\[\]|at|begin|end|data|front|back)$', cname):
                                    if ins.res: limb[ins.res] = ins
                                elif ft and (ft.endswith(' const&') or ft.endswith(' const*')): pass
                                else: ev.append(('limb', 'passes limbs to ' + d, ins, None))
                            elif fpp and not d.startswith(('operator delete', 'free(')) and cn != 'free':
                                if ft in ('void*', 'char*', 'unsigned char*', 'unsigned long*'): ev.append(('limb', 'passes an element as raw memory to ' + d, ins, None))
                        if ins.res and ins.res not in pt and cn:
                            e = elem_of(cname)
                            if e and ins.ty == PTR: pt[ins.res] = e
            if (len(pt), len(limb)) == before: break
        # reads of constants through limb pointers returned by non-const accessors are not writes: handled by 'store' above
        return ev

TOP = 10          # anything below 2^384 is below 10 p
class AnyPoly:
    """value part of an element: not tracked"""
    def __add__(self, o): return self
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __add__
    def __neg__(self): return self
    def is_const(self): return False
    def scale(self, c): return self
    def re(self): return self
    def im(self): return self
    def conj(self): return self
    def __repr__(self): return 'x'
ANY = AnyPoly()
class E(FE):
    """an element of known magnitude; the identity lets comparisons refine it"""
    __slots__ = ('id',)
    k = 0
    def __init__(self, bound=1): E.k += 1; self.id = E.k; self.poly = ANY; self.bound = bound
    def __eq__(self, o): return self is o
    def __hash__(self): return self.id
    def __repr__(self): return 'element < %sp' % self.bound
class Unk(AV):
    """a value that is not tracked"""
    __slots__ = ('n',)
    k = 0
    def __init__(self): Unk.k += 1; self.n = Unk.k
    def __add__(self, o): return self
    __radd__ = __add__
    def __repr__(self): return 'unknown'
class Ord(AV):
    """result of comparing two elements as integers"""
    __slots__ = ('a', 'b')
    def __init__(self, a, b): self.a = a; self.b = b
    def __repr__(self): return 'ordering'
def key(v): return v.id if isinstance(v, E) else ('n', v)
MOD = ('n', P)

class BoundDomain(FieldDomain):
    def __init__(self):
        FieldDomain.__init__(self); self.cache = {}; self.keep = []
    def fresh(self): return Cond(('unknown', Unk().n))
    def extract(self, it, v, vsize, off, size):
        if isinstance(v, FE):
            if size == 8 and off % 8 == 0: return Limb(v, off // 8)
            return Unk()
        return Unk()
    def assemble(self, it, parts, size):
        if any(v is UNDEF for _, v in parts): return UNDEF
        if size == 48:
            if len(parts) == 6 and all(isinstance(v, Limb) for _, v in parts):
                f = parts[0][1].fe
                if all(v.i == i and v.fe is f for i, (_, v) in enumerate(parts)): return f
            key = tuple((n, v if isinstance(v, int) else (id(v.fe), v.i) if isinstance(v, Limb) else id(v)) for n, v in parts)
            r = self.cache.get(key)
            if r is None:
                self.keep.append(parts); r = self.cache[key] = E(TOP)
            return r
        return Unk()
    def bound(self, st, e):
        if isinstance(e, int): return e // P + 1
        return 1 if st.facts.get(('ge', e.id, MOD)) is False else e.bound
    def wr(self, it, st, p, fe): self.putE(it, st, p, E(fe.bound))
    def elements(self, st, p):
        o = st.mem[p.obj]
        return [(k, c[1]) for k, c in o.cells.items() if isinstance(c[1], FE)]
    def putE(self, it, st, p, e):
        """writes an element; at an unknown position it joins all elements of the object"""
        if isinstance(p.off, int): it.store_bytes(st, p, 48, e); return
        for k, x in self.elements(st, p): it.store_bytes(st, Ptr(p.obj, k), 48, E(max(self.bound(st, x), e.bound)))
    def load(self, it, st, p, ty, size):
        if self.elements(st, p):
            if size == 48: return self.raw(it, st, p)
            raise AnalysisError('limb at an unknown position at ' + it.where())
        return Unk()
    def store(self, it, st, p, v, size):
        if self.elements(st, p): raise AnalysisError('store at an unknown position at ' + it.where())
        o = st.wobj(p.obj)
        for k in range(0, o.size, 8): it.put(o, k, min(8, o.size - k), Unk())
    def ge(self, st, x, y):
        """x >= y is known"""
        kx, ky = key(x), key(y)
        if isinstance(x, int) and isinstance(y, int): return x >= y
        if st.facts.get(('ge', kx, ky)) is True or st.facts.get(('ge', ky, kx)) is False: return True
        return kx == MOD and self.bound(st, y) == 1
    def zero(self, st, v):
        return v == 0 if isinstance(v, int) else st.facts.get(('zero', v.id))
    def raw(self, it, st, p):
        if not isinstance(p.off, int):
            v = self.elements(st, p)
            if not v: raise AnalysisError('element at an unknown position at ' + it.where())
            return E(max(self.bound(st, x) for _, x in v))
        v = it.load_bytes(st, p, 48)
        if isinstance(v, Unk): v = self.assemble(it, [(48, v)], 48)
        return v
    def rd(self, it, st, p):
        v = self.raw(it, st, p)
        if isinstance(v, FE): return FE(ANY, self.bound(st, v))
        if isinstance(v, int): return FE(ANY, v // P + 1)
        if v is UNDEF: raise AnalysisError('a field operation reads an element that was not written at ' + it.where())
        raise AnalysisError('element expected, got %r at %s' % (v, it.where()))
    def zero_cond(self, it, st, poly): return self.fresh()
    def inverse(self, poly): return ANY
    def binop(self, it, op, w, a, b, flags):
        if isinstance(a, Cond) or isinstance(b, Cond):
            try: return FieldDomain.binop(self, it, op, w, a, b, flags)
            except AnalysisError: return Unk()
        return Unk()
    def unop(self, *a): return Unk()
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, Ord) and b == 0:
            x, y = a.a, a.b
            if pred in ('sge', 'slt'): c = Cond(('ge', x, y)); return c if pred == 'sge' else c.inv()
            if pred in ('sle', 'sgt'): c = Cond(('ge', y, x)); return c if pred == 'sle' else c.inv()
            return self.fresh()
        if isinstance(a, Cond) and isinstance(b, int):
            try: return FieldDomain.icmp(self, it, pred, w, a, b)
            except AnalysisError: pass
        return self.fresh()
    def cast(self, it, op, fw, tw, v):
        if isinstance(v, (Cond, Ord)): return v
        return Unk()
    def decide(self, it, st, c):
        if isinstance(c, Cond): return FieldDomain.decide(self, it, st, c)
        return None
    def assume(self, it, st, c, truth):
        if isinstance(c, Cond): st.facts[c.key] = truth != c.neg
        return True
    def select(self, it, st, c, a, b, ty):
        r = self.decide(it, st, c)
        if r is not None: return a if r else b
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise AnalysisError('choice between addresses at ' + it.where())
        return self.fresh() if ty == INT(1) else Unk()
    def gep(self, it, st, off, i, iw, sz): return Unk()
    def lazy(self, it, st, dst, poly, bound):
        if bound > 9: self.issue(it, 'unreduced value may reach %sp, beyond 2^384' % bound); bound = TOP
        self.putE(it, st, dst, E(bound))

# members that work on the plain integer representation; not field operations
HELPERS = {B + 'fp::div2(unsigned long const&)', B + 'fp::mul2()'}
def field_class(t):
    t = t.strip()
    t = re.sub(r' const(?=[&*])', '', t)
    m = re.match(r'^' + B + r'(fp12|fp6|fp2|fp|g1|g2)([&*])$', t)
    return m.group(1) if m else None
SIZE = {'fp': 1, 'fp2': 2, 'fp6': 6, 'fp12': 12, 'g1': 3, 'g2': 6}

class Bounds:
    def __init__(self, m):
        self.m = m; self.S = Scan(m); self.ev = {}; self.inline = set(); self.scanned = 0
        for n, f in m.functions.items():
            self.scanned += 1
            e = self.S.events(f)
            if e: self.ev[n] = e
    def member(self, dem):
        """(class, name) when the function is a member of a field or curve class"""
        name = split_params(dem)[0]
        k = re.match(r'^(?:.* )?' + B + r'(fp12|fp6|fp2|fp|g1|g2)::([~\w]+)(<.*>)?$', name)
        return (k.group(1), k.group(2)) if k else None
    def offsets(self, ty, base=0):
        """offsets of the base-field elements inside a type"""
        m = self.m
        if self.S.isfp(ty): return [base]
        if not self.S.fpish(ty): return []
        r = m.resolve(ty)
        if r[0] == 'a':
            z = m.size(r[2]); return [o for i in range(r[1]) for o in self.offsets(r[2], base + i * z)]
        if r[0] == 's':
            return [o for e, f in zip(r[1], m.layout(ty)[0]) for o in self.offsets(e, base + f)]
        return []
    def contract(self, name):
        """transfer function of a callee: canonical operands in, canonical results out"""
        m = self.m; d = m.demangled.get(name, name); f = m.functions.get(name)
        cname, ps, const = split_params(d)
        mem = self.member(d)
        sret = None
        if f is not None:
            f.parse()
            if f.params and f.params[0][2] and f.params[0][2][0] == 'sret': sret = f.params[0][2][1]
        static = mem is not None and not (f is not None and any(p[1] == '%this' for p in f.params[:2]))
        def h(it, st, a):
            D = it.dom; a = list(a)
            out = a.pop(0) if sret is not None else None
            args = []
            if mem and not static: args.append((a.pop(0), mem[0], const))
            if len(a) != len(ps): raise AnalysisError('call of %s is not understood' % d)
            for v, t in zip(a, ps):
                c = field_class(t)
                if c: args.append((v, c, ' const' in t))
                elif not isinstance(v, Ptr): pass
                elif ' const' in t or 'span<unsigned char const' in t or t.startswith('std::function<void'): pass
                elif v.obj in st.mem and 'fp' not in t and 'g1' not in t and 'g2' not in t:
                    o = st.wobj(v.obj)
                    for k in range(0, o.size or 0): it.put(o, k, 1, Unk())
                else: raise AnalysisError('argument %s of %s' % (t, d))
            for v, c, cst in args:
                for i in range(SIZE[c]):
                    q = Ptr(v.obj, v.off + 48 * i)
                    if isinstance(q.off, int) and it.load_bytes(st, q, 48) is UNDEF: continue
                    e = D.rd(it, st, q)
                    if e.bound != 1:
                        # the contract does not cover the call: the body itself is interpreted on what is passed
                        if f is not None and f.rty[0] != 'i' and len(it.stack) < 8: return NotImplemented
                        D.issue(it, 'an element below %sp that was not reduced is passed to %s' % (e.bound, d.replace(B, '')))
            for v, c, cst in args:
                if not cst:
                    for i in range(SIZE[c]): D.putE(it, st, Ptr(v.obj, v.off + 48 * i), E())
            if out is not None:
                z = m.size(sret); fo = self.offsets(sret); o = st.wobj(out.obj); k = 0
                while k < z:
                    if k in fo: it.put(o, out.off + k, 48, E()); k += 48
                    else: it.put(o, out.off + k, 1, D.fresh() if sret[0] == 'n' and 'optional' in sret[1] else Unk()); k += 1
                return None
            rt = f.rty if f is not None else VOID
            if rt == VOID: return None
            if rt[0] == 'i': return D.fresh() if rt[1] == 1 else Unk()
            if rt[0] == 'p': raise AnalysisError('%s returns an address' % d)
            return Unk()
        return h
    def interp(self, entry):
        m = self.m; D = BoundDomain(); it = Interp(m, D); it.max_forks = 4000
        it.run_ctors()
        D.install_fp(it)
        for n in [n for n in it.handlers if n.startswith(B + 'fp::')]: del it.handlers[n]
        H = it.handlers
        FPT, FPC = B + 'fp*', B + 'fp const*'
        for n in ('__multiply', '__mul_ex'): H['%s%s(%s, %s, %s)' % (B, n, FPT, FPC, FPC)] = H['%s_multiply(%s, %s, %s)' % (B, FPT, FPC, FPC)]
        def lsub(it, st, a):
            x, y = D.raw(it, st, a[1]), D.raw(it, st, a[2])
            if UNDEF in (x, y): raise AnalysisError('a field operation reads an element that was not written at ' + it.where())
            b = D.bound(st, x)
            if not D.ge(st, x, y): D.issue(it, 'non-reducing subtraction may wrap below zero'); b = TOP
            elif isinstance(x, int): b = 1 if x <= P and D.zero(st, y) is False else b
            elif y == P: b -= 1
            D.putE(it, st, a[0], E(max(b, 1)))
        H['%s_lsubtract(%s, %s, %s)' % (B, FPT, FPC, FPC)] = lsub
        def cmp(it, st, a):
            x, y = D.raw(it, st, a[0]), D.raw(it, st, a[1])
            if isinstance(x, (E, int)) and isinstance(y, (E, int)): return Ord(key(x), key(y))
            return Unk()
        H[B + 'fp::cmp(%sfp const&) const' % B] = cmp
        def iszero(it, st, a):
            v = D.raw(it, st, a[0])
            if isinstance(v, int): return int(v == 0)
            if not isinstance(v, E): return D.fresh()
            if D.bound(st, v) != 1: D.issue(it, 'an element that was not reduced is compared with zero')
            return Cond(('zero', v.id))
        H[B + 'fp::isZero() const'] = iszero
        names = dict(m.demangled)
        me = entry
        for n, d in names.items():
            if n == me or n not in m.functions or n in self.inline: continue
            if d in HELPERS: continue
            mem = self.member(d)
            if mem:
                if mem[1] == mem[0] or mem[1].startswith('~') or mem[1].startswith('operator'): continue
                if d.startswith((B + 'fp::isValid', B + 'fp::isZero')) or '::cmp(' in d: continue
                H[n] = self.contract(n)
            elif d.startswith((B + 'pairing::',)) or (re.match(r'^(?:\w+ )?' + B, d) and any(field_class(t) for t in split_params(d)[1] or ())):
                if not d.startswith(B + '_'): H[n] = self.contract(n)
        def from_bytes(it, st, a):
            # (result array, span) or (span) -> array
            q = a[0]; o = st.wobj(q.obj)
            for i in range(6): it.put(o, q.off + 8 * i, 8, Unk())
            if self.trust:
                e = D.raw(it, st, q); st.facts[('ge', e.id, MOD)] = False
        def fb(n):
            d = names[n]; k = re.search(r'scalar::fromBytes(?:BE|LE)<6', d)
            if not k: return None
            f = m.functions[n]; f.parse(); ps = split_params(d)[1]
            if f.params and f.params[0][2] and f.params[0][2][0] == 'sret': return from_bytes
            # void form: the array is the reference parameter
            idx = [i for i, t in enumerate(ps) if t.startswith('std::array<unsigned long, 6ul>&')]
            if not idx: return None
            i0 = len(f.params) - 1 if idx[0] == len(ps) - 1 else idx[0]
            return lambda it, st, a: from_bytes(it, st, [a[i0]])
        for n in m.functions:
            if names.get(n, '').find('scalar::fromBytes') >= 0:
                h = fb(n)
                if h: H[n] = h
            elif m.functions[n].rty[0] == 'i' and re.match(r'^(?:[\w ]+ )?' + B + r'scalar::\w+', names.get(n, '')):
                # numbers computed from plain integers: not elements
                ps = split_params(names[n])[1] or ()
                if ps and all(t.endswith((' const&', ' const*')) or t in ('unsigned long', 'int', 'unsigned int', 'bool') for t in ps): H[n] = lambda it, st, a: Unk()
        def divide(ri, bi, words_):
            def h(it, st, a):
                if it.load_bytes(st, a[bi], 48) != P: raise AnalysisError('division by another number at ' + it.where())
                it.store_bytes(st, a[ri], 48, E())
            return h
        for n in m.functions:
            if re.match(r'^void ' + B + r'bn_divn_safe<\d+ul, 6ul>\(', names.get(n, '')): H[n] = divide(1, 3, None)
        H[B + 'bn_divn_low(unsigned long*, unsigned long*, unsigned long*, int, unsigned long*, int)'] = divide(1, 4, None)
        self.hooks(it, D)
        return it, D
    def hooks(self, it, D):
        """cut a path at a loop head once its magnitudes repeat and the exit of the loop is not decided"""
        m = self.m
        def sig(st):
            return tuple(sorted((o.name, k, D.bound(st, c[1])) for i, o in st.mem.items() if o.kind in ('stack', 'arg', 'heap') for k, c in o.cells.items() if isinstance(c[1], FE)))
        def mk(f, h, body):
            exits = [b for b in body if f.blocks[b][-1].op == 'br' and any(s not in body for s in f.succs(b))]
            def hook(it, st, env, prev):
                k = ('loop', f.name, h, len(it.stack))
                if prev not in body: st.aux[k] = {sig(st)}; return True
                seen = st.aux.get(k)
                if seen is None: st.aux[k] = seen = set()
                if any(not isinstance(env.get(f.blocks[b][-1].a[0][1]) if f.blocks[b][-1].a[0][0] == 'l' else 0, (int, type(None))) for b in exits):
                    s = sig(st)
                    if s in seen: return False
                    seen.add(s)
                return True
            return hook
        for n, f in m.functions.items():
            d = m.demangled.get(n, n)
            if B not in d: continue
            for h, body in loops(f).items(): it.block_hooks[(n, h)] = mk(f, h, body)
    def args(self, it, f, alias=None):
        """canonical operands for every parameter -> (args, [(ptr, offsets, label)] to be canonical afterwards, description)"""
        m = self.m; D = it.dom; st = it.gstate.clone(); f.parse()
        d = m.demangled.get(f.name, f.name); name, ps, const = split_params(d)
        irp = list(f.params); vals = []; outs = []; mem = self.member(d)
        if irp and irp[0][2] and irp[0][2][0] == 'sret':
            ty = irp[0][2][1]; p = it.new_obj(st, m.size(ty), 'arg', 'result'); vals.append(p); irp = irp[1:]
            outs.append((p, ty, 'the result'))
        first = {}
        def elem(c, label, cst):
            if alias and c in first: return first[c]
            p = it.new_obj(st, 48 * SIZE[c], 'arg', label); first.setdefault(c, p)
            for i in range(SIZE[c]): it.store_bytes(st, Ptr(p.obj, 48 * i), 48, E())
            outs.append((p, ('n', '%%"class.%s%s"' % (B, c)), label))
            return p
        if irp and irp[0][1] == '%this':
            if not mem: raise AnalysisError('method of another class: ' + d)
            vals.append(elem(mem[0], 'the object', const)); irp = irp[1:]
        if len(irp) != len(ps): raise AnalysisError('parameters of %s are not understood' % d)
        for (ty, nm, at), t in zip(irp, ps):
            c = field_class(t)
            if c: vals.append(elem(c, 'argument ' + nm.lstrip('%'), ' const' in t)); continue
            k = re.match(r'^std::span<unsigned char(?: const)?, (\d+)ul>$', t)
            if k or t.startswith('std::array<unsigned long'):
                n = int(k.group(1)) if k else 8 * int(re.search(r', (\d+)ul>', t).group(1))
                p = it.new_obj(st, n, 'arg', nm)
                w = 1 if k else 8
                for i in range(0, n, w): it.store_bytes(st, Ptr(p.obj, i), w, Unk())
                vals.append(p); continue
            if ty[0] == 'i': vals.append(Unk()); continue
            k = re.match(r'^(unsigned long|long|int|unsigned int|bool) const&$', t)
            if k:
                z = {'unsigned long': 8, 'long': 8, 'int': 4, 'unsigned int': 4, 'bool': 1}[k.group(1)]
                p = it.new_obj(st, z, 'arg', nm); it.store_bytes(st, p, z, Unk()); vals.append(p); continue
            raise AnalysisError('parameter %s of %s' % (t, d))
        return st, vals, outs
    def examine(self, n, trust=False, fixed=None, alias=False):
        """one function on canonical operands -> (interp, issue or None)"""
        m = self.m; f = m.functions[n]; self.trust = trust
        it, D = self.interp(n)
        st, vals, outs = self.args(it, f, alias)
        if fixed: vals = fixed(it, st, vals)
        rs = it.call(st, n, vals)
        issue = D.bound_issues[0] if D.bound_issues else None
        paths = 0
        for s, _ in rs:
            paths += 1
            if issue: break
            for p, ty, label in outs:
                if ty[0] == 'n' and 'optional' in ty[1]:
                    e = it.load_bytes(s, Ptr(p.obj, self.engaged(ty)), 1)
                    if isinstance(e, int) and not e & 1: continue
                for o in self.offsets(ty):
                    q = Ptr(p.obj, p.off + o)
                    v = D.raw(it, s, q)
                    if v is UNDEF: continue
                    b = D.rd(it, s, q).bound
                    if b != 1:
                        issue = ('%s may hold %s' % (label, 'any 384-bit value' if b >= TOP else 'a value up to %dp that was not reduced' % b), m.where(f.dbg)); break
                if issue: break
        return it, issue, paths
    def engaged(self, ty):
        """offset of the flag of an optional"""
        m = self.m; r = m.resolve(ty)
        while True:
            if r[0] == 's':
                off, z = m.layout(r)
                if len(r[1]) == 1: r = m.resolve(r[1][0]); continue
                for e, o in zip(r[1], off):
                    if e == INT(8) or e == INT(1): return o
                if m.resolve(r[1][0])[0] == 's': r = m.resolve(r[1][0]); continue
            raise AnalysisError('layout of %r' % (ty,))

def internal(f): return bool(re.match(r'define (?:dso_local )?internal ', f.header))

def callers(m):
    out = {}
    for n, f in m.functions.items():
        f.parse()
        for b in f.blocks.values():
            for i in b:
                if i.op == 'call' and i.extra[0][0] == 'g':
                    c = i.extra[0][1]; out.setdefault(m.aliases.get(c, c), set()).add(n)
    return out

def run_A02(rep):
    m = build.load()
    X = Bounds(m)
    rep.count('functions_scanned', X.scanned); rep.count('functions_with_unreduced_constructs', len(X.ev))
    rep.explanation = 'An invariant of the field classes: a typed scan of every function finds the constructs that can yield an element without reduction (limb writes, construction from limbs, raw copies, calls of the non-reducing primitives, the modulus as an operand); all other functions only move canonical elements or use reducing primitives. Each function with such a construct is interpreted over magnitudes (multiples of p) with every callee replaced by its contract (canonical in, canonical out); the primitives are interpreted at word level on the operand ranges those contracts allow.'
    rep.assumptions += ['division with remainder is exact (A04)', 'fp::div2 and fp::mul2 are helpers on the plain limb representation, not field operations', 'with check_valid disabled the caller supplies canonical bytes']
    from checks import arith, fieldops, scale
    from engine.wutil import asm_routines, WHarness, install_word_prims, load_portable
    jobs = [lambda r: r.run('constants', lambda: constants(r, m), 'src/fp.cpp, src/g.cpp')]
    R_ = asm_routines(); H = WHarness(m, R_); install_word_prims(H)
    mults = sorted(arith.dispatch_targets(m)) if m.ifuncs else [arith.sig3('_multiply')]
    if not mults: raise AnalysisError('no multiplication routine found')
    pj = []
    arith.prims(pj, H, 'x86-64', mults, rep.tier == 'thorough', True)
    mp = load_portable(); Hp = WHarness(mp); install_word_prims(Hp)
    arith.prims(pj, Hp, 'portable', [arith.sig3('_multiply')], rep.tier == 'thorough', True)
    ms = scale.load()
    for z in (False, True): jobs.append(lambda r, z=z: r.run('fp::inverse of %s' % ('zero' if z else 'a non-zero element'), lambda: fieldops.inversion(r, ms, z, False), where_fn(ms, B + 'fp::inverse() const')))
    rep.parallel(functions(rep, X) + jobs + pj)

def constants(rep, m):
    """every element with static storage is canonical (the modulus itself excepted)"""
    from checks.purity import primitives
    it = primitives(Interp(m, Domain())); it.run_ctors(); st = it.gstate; X = Bounds.__new__(Bounds); X.m = m; X.S = Scan(m)
    k = 0
    for g, (ty, init, const, ext, tl) in m.globals.items():
        if not X.S.fpish(ty) or (ext and init is None): continue
        d = m.demangled.get(g, g)
        if d == B + 'fp::MODULUS': continue
        p = it.global_ptr(st, g)
        for o in X.offsets(ty):
            v = it.load_bytes(st, Ptr(p.obj, p.off + o), 48); k += 1
            if v is UNDEF: continue
            if not isinstance(v, int): raise AnalysisError('value of %s' % d)
            if v >= P: raise Violation('%s holds an element that is not below the modulus' % d, d)
    rep.count('constant_elements', k); rep.absorb(it)
    if not k: raise AnalysisError('no constant elements found')

def functions(rep, X):
    m = X.m; up = callers(m)
    def exempt(n):
        d = m.demangled.get(n, n); nm = split_params(d)[0]
        return d in HELPERS or bool(re.search(r'::(\w+)::\1$', nm)) or nm.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I')) or d == B + 'fp::inverse() const'
    def public(n):
        d = m.demangled.get(n, n)
        return (X.member(d) is not None or bool(re.match(r'^(?:[\w:<>, ]+ )?' + B, split_params(d)[0]))) and not internal(m.functions[n]) and '{lambda' not in d and '$_' not in d and '(anonymous' not in d
    # helpers that are not part of the interface and do not keep the invariant on their own are analysed inside their callers
    todo = set(n for n in X.ev if not exempt(n)); done = set()
    work = sorted(n for n in todo if not public(n))
    while work:
        n = work.pop()
        if n in done: continue
        done.add(n)
        try: it, issue, paths = X.examine(n); ok = issue is None and paths > 0
        except (AnalysisError, Violation): ok = False
        if ok: continue
        todo.discard(n); X.inline.add(n)
        for c in up.get(n, ()):
            if exempt(c): continue
            todo.add(c)
            if not public(c): done.discard(c); work.append(c)
    jobs = []
    def one(n, d, label, trust, fixed, alias=False):
        def body():
            it, issue, paths = X.examine(n, trust, fixed, alias); rep.absorb(it); rep.count('paths', paths)
            if issue: raise Violation(*issue)
            if not paths: raise AnalysisError('no path returns')
        jobs.append(lambda r: r.run(d.replace(B, '') + label, body, where_fn(m, d)))
    for n in sorted(todo):
        if n in X.inline: continue
        d = m.demangled.get(n, n); ps = split_params(d)[1]
        if B + 'conv_opt' in ps:
            k = ps.index(B + 'conv_opt')
            f = m.functions[n]; f.parse()
            at = len(f.params) - len(ps) + k
            for cv in (1, 0):
                for tm in (1, 0):
                    def fixed(it, st, vals, cv=cv, tm=tm):
                        vals = list(vals); vals[at] = cv | tm << 8; return vals
                    one(n, d, ', %s, %s' % ('validated' if cv else 'canonical bytes', 'to Montgomery form' if tm else 'plain form'), not cv, fixed)
        else:
            one(n, d, '', False, None)
            if sum(1 for t in ps if field_class(t)) + (1 if X.member(d) else 0) > 1: one(n, d, ' (operands are one object)', False, None, True)
    return jobs
