"""H04: dispatch of the optimised multiplication and register discipline of the assembly routines;
H05: data independence of the word primitives and of the assembly routines."""
from engine.util import *
from engine import build, asm
from engine.asm import *
from engine.bits import *
from engine.wutil import asm_routines, FPP, FPC, U64C
import re, glob, os

class T:
    """operand data"""
    def __repr__(self): return 'operand data'
T = T()
class U:
    """undefined flag"""
U = U()
JCC = {'b': 'c', 'c': 'c', 'nae': 'c', 'ae': 'c', 'nc': 'c', 'nb': 'c', 'e': 'z', 'z': 'z', 'ne': 'z', 'nz': 'z', 's': 's', 'ns': 's', 'o': 'o', 'no': 'o',
       'a': 'cz', 'nbe': 'cz', 'be': 'cz', 'na': 'cz', 'l': 'so', 'nge': 'so', 'ge': 'so', 'nl': 'so', 'g': 'soz', 'nle': 'soz', 'le': 'soz', 'ng': 'soz', 'p': 'p', 'np': 'p'}
NEG = ('ae', 'nc', 'nb', 'ne', 'nz', 'ns', 'no', 'np', 'nl', 'ge')
class Taint(Asm):
    """operand data flows through a routine; registers, stack and addresses stay exact"""
    def run(self, args, nin):
        self.readable = {}; self.writable = {}; objs = {}
        for k, (r, p) in enumerate(args):
            self.readable.setdefault(p.obj, []).append((p.off, p.off + 48))
            if k == 0: self.writable[p.obj] = [(p.off, p.off + 48)]
            d = objs.setdefault(p.obj, {})
            if k: d.update({p.off + 8 * j: T for j in range(6)})
        return Asm.run(self, objs, dict(args))
    def num(self, i, v):
        if v is T or isinstance(v, int): return v
        if isinstance(v, tuple): raise Violation('uses register contents of the caller (%r)' % (v,), i.line)
        self.err(i, 'arithmetic on %r' % (v,))
    def get(self, st, i, a):
        if a.startswith('%') and a[1:] in R32:
            v = st.reg[R32[a[1:]]]
            if v is T: return T
            return self.num(i, v) & 0xffffffff
        if a.startswith('%') and a[1:] in R8:
            v = self.num(i, st.reg[R8[a[1:]]]); return T if v is T else v & 0xff
        if '(%rip)' in a: return T
        return Asm.get(self, st, i, a)
    def put(self, st, i, a, v):
        if a.startswith('%') and a[1:] in R32: st.reg[R32[a[1:]]] = T if v is T else v & 0xffffffff; return
        if a.startswith('%') and a[1:] in R8: st.reg[R8[a[1:]]] = T; return
        return Asm.put(self, st, i, a, v)
    def flags(self, st, c=U, z=U, s=U, o=U):
        st.cf = c; st.zf = (z, s); st.of = o
    def flag(self, st, i, names):
        out = []
        for n in names:
            f = st.cf if n == 'c' else st.of if n == 'o' else (st.zf[0] if n == 'z' else st.zf[1] if n == 's' else U) if st.zf else U
            if f is None: f = U
            if f is U: raise Violation('uses a flag left by an unrelated instruction', i.line)
            out.append(f)
        return out
    def test(self, st, i, cc):
        """T when it depends on data, otherwise the truth"""
        if cc not in JCC: self.err(i, 'condition code')
        f = self.flag(st, i, JCC[cc])
        if any(x is T for x in f): return T
        k = JCC[cc]
        if k in 'czsop': return bool(f[0]) != (cc in NEG)
        if k == 'cz': return bool(f[0] or f[1]) == (cc in ('be', 'na'))
        l = f[0] != f[1]
        if k == 'so': return l == (cc in ('l', 'nge'))
        return (l or bool(f[2])) == (cc in ('le', 'ng'))
    def alu(self, st, i, b, x, y, cin=0):
        if x is T or y is T or cin is T:
            if b in ('and', 'or', 'xor', 'test'): self.flags(st, 0, T, T, 0); return T
            self.flags(st, T, T, T, T); return T
        if b in ('add', 'adc'):
            r = x + y + cin; v = r & M64
            self.flags(st, int(r > M64), int(v == 0), v >> 63, int((x >> 63) == (y >> 63) != (v >> 63))); return v
        if b in ('sub', 'sbb', 'cmp'):     # y - x
            r = y - x - cin; v = r & M64
            self.flags(st, int(r < 0), int(v == 0), v >> 63, int((x >> 63) != (y >> 63) and (v >> 63) != (y >> 63))); return v
        v = {'and': x & y, 'test': x & y, 'or': x | y, 'xor': x ^ y}[b]
        self.flags(st, 0, int(v == 0), v >> 63, 0); return v
    def step(self, st, i, op, work):
        a = i.args; b = op
        names = ('mov', 'add', 'adc', 'sub', 'sbb', 'xor', 'push', 'pop', 'mul', 'mulx', 'adcx', 'adox', 'cmp', 'test', 'and', 'or', 'imul', 'lea', 'inc', 'dec', 'neg', 'movabs', 'not', 'xchg', 'shl', 'shr', 'sal', 'sar', 'rol', 'ror', 'shld', 'shrd', 'rorx', 'shlx', 'shrx', 'sarx', 'bswap', 'div', 'idiv', 'andn')
        for suf in ('q', 'l'):
            if op.endswith(suf) and op[:-1] in names: b = op[:-1]; break
        if b in ('div', 'idiv'):
            self.leaks.append((i.line, 'variable-latency instruction')); st.reg['rax'] = st.reg['rdx'] = T; return True
        if b in ('mov', 'movabs', 'movzx', 'movzb', 'movzbq', 'movzbl'): self.put(st, i, a[1], self.get(st, i, a[0])); return True
        if b == 'push':
            v = self.get(st, i, a[0]); sp = st.reg['rsp']; st.reg['rsp'] = Ptr('stack', sp.off - 8)
            self.store(st, i, 'stack', sp.off - 8, v); return True
        if b == 'pop':
            sp = st.reg['rsp']
            if not isinstance(sp, Ptr) or sp.off >= 0: raise Violation('pops beyond its frame', i.line)
            v = self.load(st, i, 'stack', sp.off); st.reg['rsp'] = Ptr('stack', sp.off + 8); self.put(st, i, a[0], v); return True
        if b == 'lea':
            m = re.match(r'^(-?(?:0x[0-9a-f]+|\d+))?\((?:%(\w+))?(?:,\s*%(\w+)(?:,\s*(\d+))?)?\)$', a[0])
            rs = [st.reg[r] for r in (m.group(2), m.group(3)) if r and r != 'rip'] if m else [None]
            if m and m.group(2) != 'rip' and any(r is T for r in rs): self.put(st, i, a[1], T); return True
            if m and not any(isinstance(r, Ptr) for r in rs) and all(isinstance(r, int) for r in rs):
                v = int(m.group(1) or '0', 0) + (st.reg[m.group(2)] if m.group(2) else 0) + (st.reg[m.group(3)] * int(m.group(4) or 1) if m.group(3) else 0)
                self.put(st, i, a[1], v & M64); return True
            o, off = self.ea(st, i, a[0]); self.put(st, i, a[1], Ptr(o, off)); return True
        if b in ('add', 'sub', 'and', 'inc', 'dec') and isinstance(self.peek(st, a[-1]), Ptr):
            p = self.peek(st, a[-1]); k = {'inc': 1, 'dec': -1}.get(b)
            if k is None:
                k = self.get(st, i, a[0])
                if k is T: self.leaks.append((i.line, 'memory address depends on data')); self.err(i, 'address from data')
                if not isinstance(k, int) or b == 'and': self.err(i, 'pointer arithmetic')
                k = k - (1 << 64) if k >> 63 else k
                if b == 'sub': k = -k
            self.put(st, i, a[-1], Ptr(p.obj, p.off + k)); self.flags(st); return True
        if b in ('add', 'adc', 'sub', 'sbb', 'cmp', 'xor', 'and', 'or', 'test'):
            cin = self.flag(st, i, 'c')[0] if b in ('adc', 'sbb') else 0
            if a[0] == a[1] and b in ('xor', 'sub', 'sbb'): x = y = 0
            else: x, y = self.num(i, self.get(st, i, a[0])), self.num(i, self.get(st, i, a[1]))
            v = self.alu(st, i, b, x, y, cin)
            if b not in ('cmp', 'test'): self.put(st, i, a[1], v)
            return True
        if b in ('adcx', 'adox'):
            n = 'c' if b == 'adcx' else 'o'; cin = self.flag(st, i, n)[0]
            x, y = self.num(i, self.get(st, i, a[0])), self.num(i, self.get(st, i, a[1]))
            if T in (x, y, cin): v = f = T
            else: v = x + y + cin; f = int(v > M64); v &= M64
            if n == 'c': st.cf = f
            else: st.of = f
            self.put(st, i, a[1], v); return True
        if b in ('neg', 'not', 'inc', 'dec', 'bswap'):
            x = self.num(i, self.get(st, i, a[0])); cf = st.cf
            if b == 'not': v = T if x is T else x ^ M64
            elif b == 'bswap': v = T if x is T else int.from_bytes(x.to_bytes(8, 'little'), 'big')
            else:
                v = self.alu(st, i, 'add' if b == 'inc' else 'sub', *{'neg': (x, 0), 'inc': (1, x), 'dec': (1, x)}[b])
                if b != 'neg': st.cf = cf
            self.put(st, i, a[0], v); return True
        if b in ('mul', 'imul') and len(a) == 1:
            self.num(i, self.get(st, i, a[0])); self.num(i, st.reg['rax']); st.reg['rax'] = st.reg['rdx'] = T; self.flags(st, T, U, U, T); return True
        if b == 'imul':
            xs = [self.num(i, self.get(st, i, x)) for x in a[:2]]
            self.put(st, i, a[-1], T if T in xs else xs[0] * xs[1] & M64); self.flags(st, T, U, U, T); return True
        if b == 'mulx':
            self.num(i, self.get(st, i, a[0])); self.num(i, st.reg['rdx']); self.put(st, i, a[1], T); self.put(st, i, a[2], T); return True
        if b in ('rorx', 'shlx', 'shrx', 'sarx', 'andn'):
            for x in a[:2]: self.num(i, self.get(st, i, x))
            self.put(st, i, a[2], T)
            if b == 'andn': self.flags(st, 0, T, T, 0)
            return True
        if b in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror', 'shld', 'shrd'):
            xs = [self.num(i, self.get(st, i, x)) for x in a]
            k = xs[0] if len(xs) > 1 else 1; y = xs[-1]
            if len(xs) < 3 and isinstance(k, int) and isinstance(y, int) and b in ('shl', 'sal', 'shr'): v = (y << (k & 63)) & M64 if b != 'shr' else y >> (k & 63)
            else: v = T
            self.put(st, i, a[-1], v); self.flags(st, T, T, T, U); return True
        if b == 'xchg':
            x = self.get(st, i, a[0]); y = self.get(st, i, a[1]); self.put(st, i, a[0], y); self.put(st, i, a[1], x); return True
        m = re.match(r'^cmov(\w+?)q?$', op)
        if m:
            t = self.test(st, i, m.group(1) if m.group(1) in JCC else op[4:])
            x = self.get(st, i, a[0]); y = self.get(st, i, a[1])
            if t is True: self.put(st, i, a[1], x)
            elif t is T:
                if isinstance(x, Ptr) or isinstance(y, Ptr):
                    if x == y: return True
                    self.leaks.append((i.line, 'memory address depends on data')); self.err(i, 'address selected by data')
                self.num(i, x)
                self.put(st, i, a[1], T)
            return True
        m = re.match(r'^set(\w+)$', op)
        if m: self.test(st, i, m.group(1)); self.put(st, i, a[0], T); return True
        if op.startswith('j'):
            if op in ('jmp', 'jmpq'): t = True
            else: t = self.test(st, i, op[1:])
            m = re.match(r'^(0x[0-9a-f]+)', a[0]) if a else None
            if not m or int(m.group(1), 16) not in self.index or i.reloc: self.err(i, 'jump leaves the routine')
            tgt = self.index[int(m.group(1), 16)]
            if t is T:
                self.leaks.append((i.line, 'branch depends on operand data'))
                self.nf = getattr(self, 'nf', 0) + 1
                if self.nf > 60: self.err(i, 'too many data-dependent branches')
                s2 = st.copy(); s2.pc = tgt; work.append(s2)
            elif t: st.pc = tgt
            return True
        if op in ('nop', 'nopw', 'nopl', 'endbr64', 'cld'): return True
        self.err(i, 'instruction not modelled')
    def peek(self, st, a): return st.reg[a[1:]] if a.startswith('%') and a[1:] in R64 else None

def layouts(n):
    """which pointers name the same object"""
    a, b, c = Ptr('A', 0), Ptr('B', 0), Ptr('C', 0)
    if n == 2: return [('distinct', (a, b)), ('result is the operand', (a, a))]
    return [('distinct', (a, b, c)), ('result is the first operand', (a, a, b)), ('result is the second operand', (a, b, a)), ('operands are one object', (a, b, b)), ('all one object', (a, a, a))]
def arity(dm):
    k = dm.count('bls12_381::fp')
    if '(' not in dm or k not in (2, 3): raise AnalysisError('routine with unexpected parameters: ' + dm)
    return k
def routine(rep, dm, sym, insts, want):
    """want: 'state' (H04) or 'time' (H05)"""
    for vn, ps in layouts(arity(dm)):
        A = Taint(insts, sym)
        outs = A.run(list(zip(('rdi', 'rsi', 'rdx'), ps)), len(ps))
        rep.count('assembly_instructions_interpreted', A.steps); rep.count('paths', len(outs))
        if want == 'time' and A.leaks: raise Violation('%s (%s)' % (A.leaks[0][1], vn), A.leaks[0][0])
        if want == 'state':
            for o in outs:
                for j in range(6):
                    if (ps[0].obj, 8 * j) not in o.writes: raise Violation('result word %d is never written (%s)' % (j, vn), insts[-1].line)

# ---- H04
BASE = {'cmov', 'cx8', 'fxsr', 'mmx', 'sse', 'sse2', 'x87', 'x86', 'crc32'}
def features(m, f):
    """instruction-set extensions a compiled function may use"""
    out = set()
    for g in re.findall(r'#\d+', f.header):
        t = re.search(r'"target-features"="([^"]*)"', m.attrs.get(g, ''))
        if t: out |= {x[1:] for x in t.group(1).split(',') if x.startswith('+')}
    return out - BASE
def ext_functions(m, R):
    """{symbol: (place, why)} of every function that contains instructions beyond the base set"""
    out = {}
    for dm, (s, ins) in R.items():
        u = uses_extensions(ins)
        if u: out[s] = (u[0].line, '%s contains %s' % (dm.split('(')[0], u[0].op))
    for n, f in m.functions.items():
        e = features(m, f)
        if e: out[n] = (where_name(m, n), 'it is compiled for %s' % ', '.join(sorted(e)))
        f.parse()
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call' and i.extra and i.extra[0][0] == 'asm' and re.search(r'\b(mulx|adcx|adox|rorx|sarx|shlx|shrx|bzhi|pdep|pext)', str(i.extra[0])):
                    out[n] = (m.where(i.dbg), 'inline assembly with extension instructions')
    return out
def refs(m, f):
    from checks.arith import operands
    f.parse(); out = []
    for b in f.order:
        for i in f.blocks[b]:
            for v in operands(i):
                if v[0] == 'g': out.append((v[1], i))
    return out

class CpuDomain(BitDomain):
    """unknown processor words; open branches are followed on both sides"""
    def assume(self, it, st, c, truth): st.facts[c] = truth; return True
    def decide(self, it, st, c): return st.facts.get(c)
    def icmp(self, it, pred, w, a, b):
        if isinstance(a, (Ptr, Fun)) or isinstance(b, (Ptr, Fun)): return BitDomain.icmp(self, it, pred, w, a, b)
        try: return BitDomain.icmp(self, it, pred, w, a, b)
        except AnalysisError:
            self.n += 1; return word('cmp%d' % self.n, 1)
    n = 0
def cpu(m, maxleaf, bmi2, adx, env, argc):
    D = CpuDomain(); it = Interp(m, D)
    st = it.gstate
    seq = [0]
    def asmh(it, st, callee, args, ins):
        t = str(callee)
        if 'cpuid' in t:
            leaf = args[0]
            if not isinstance(leaf, int): raise AnalysisError('cpuid leaf is not a constant')
            sub = args[1] if len(args) > 1 and isinstance(args[1], int) else 0
            def wd(r): return word('leaf%x.%d.%s.%d' % (leaf, sub, r, maxleaf), 32)
            if leaf == 0: return (maxleaf, wd('ebx'), wd('ecx'), wd('edx'))
            ebx = wd('ebx')
            if leaf == 7 and sub == 0 and maxleaf >= 7:
                bits = list(bits_of(ebx, 32)); bits[8] = B1 if bmi2 else B0; bits[19] = B1 if adx else B0
                ebx = from_bits(tuple(bits))
            return (wd('eax'), ebx, wd('ecx'), wd('edx'))
        if 'xgetbv' in t: return (word('xcr.lo', 32), word('xcr.hi', 32))
        raise AnalysisError('inline assembly at ' + it.where())
    it.handlers['asm'] = asmh
    # environment block: argc, arguments, 0, variables, 0
    ptrs = [('arg%d' % k).encode() for k in range(argc)] + [None] + [e.encode() for e in env] + [None]
    blk = it.new_obj(st, 8 + 8 * len(ptrs), 'arg', 'process arguments')
    it.store_bytes(st, blk, 8, argc)
    for k, s in enumerate(ptrs):
        if s is None: v = NULL
        else:
            v = it.new_obj(st, len(s) + 1, 'arg', 'environment string')
            for j, c in enumerate(s + b'\0'): it.store_bytes(st, Ptr(v.obj, j), 1, c)
            st.mem[v.obj].ro = True
        it.store_bytes(st, Ptr(blk.obj, 8 + 8 * k), 8, v)
    st.mem[blk.obj].ro = True
    for g in ('_dl_argv', 'environ', '__environ'):
        if g in m.globals:
            p = it.global_ptr(st, g)
            it.store_bytes(st, p, 8, Ptr(blk.obj, 8 + (0 if g == '_dl_argv' else 8 * (argc + 1))))
    def byte(st, p, k):
        c = it.load_bytes(st, Ptr(p.obj, p.off + k), 1)
        if not isinstance(c, int): raise AnalysisError('string comparison on unknown bytes')
        return c
    def cmp(it, st, p, q, n):
        for k in range(n):
            x, y = byte(st, p, k), byte(st, q, k)
            if x != y: return (x - y) & 0xffffffff
            if x == 0: return 0
        return 0
    it.handlers['strncmp'] = lambda it, st, a: cmp(it, st, a[0], a[1], a[2])
    it.handlers['strcmp'] = lambda it, st, a: cmp(it, st, a[0], a[1], 1 << 20)
    def getenv(it, st, a):
        n = it.builtin(st, 'strlen', [a[0]]); key = bytes(byte(st, a[0], k) for k in range(n))
        for k, s in enumerate(ptrs[argc + 1:-1]):
            if s.startswith(key + b'='):
                p = it.load_bytes(st, Ptr(blk.obj, 8 + 8 * (argc + 1 + k)), 8); return Ptr(p.obj, p.off + n + 1)
        return NULL
    it.handlers['getenv'] = getenv; it.handlers['secure_getenv'] = getenv
    it.handlers['__cpu_indicator_init'] = lambda it, st, a: 0
    it.global_writes = []
    return it
ENVS = [[], ['A=1'], ['BLS_DISABLE_BMI=1', 'PATH=/bin'], ['BLS_DISABLE_BMI2=1'], ['X=', 'BLS_DISABLE_BMI2=1'], ['BLS_DISABLE_BMI2=', 'HOME=/'], ['A=1', 'BLS_DISABLE_BMI2=0', 'B=2']]
LEAVES = list(range(0, 9)) + [0xd, 0x14, 0x16, 0x1f, 0x20, 0x40]
def resolver(rep, m, ext, sym, res):
    W = where_name(m, res)
    for maxleaf in LEAVES:
        for bmi2 in (0, 1):
            for adx in (0, 1):
                for env in ENVS if maxleaf in (1, 7, 0xd) else ENVS[:2]:
                    for argc in (0, 1, 3):
                        it = cpu(m, maxleaf, bmi2, adx, env, argc)
                        rs = it.call(it.gstate, res, []); rep.count('configurations'); rep.count('paths', len(rs))
                        if not rs: raise Violation('the resolver does not return', W)
                        judge(it, ext, [v for _, v in rs], maxleaf, bmi2, adx, env, W)
                        if it.global_writes: raise AnalysisError('the resolver writes to %s' % it.global_writes[0][0])
                        rep.absorb(it)
def judge(it, ext, vals, maxleaf, bmi2, adx, env, W):
    off = any(e.startswith('BLS_DISABLE_BMI2=') for e in env)
    for v in vals:
        if not isinstance(v, Fun): raise Violation('the selection returns %r, not a routine' % (v,), W)
        if v.name in ext:
            if maxleaf < 7 or not bmi2 or not adx:
                raise Violation('%s is selected although the processor %s' % (it.dem(v.name).split('(')[0], 'does not report feature leaf 7' if maxleaf < 7 else 'lacks ' + ' and '.join(n for n, b in (('BMI2', bmi2), ('ADX', adx)) if not b)), W)
            if off: raise Violation('%s is selected although BLS_DISABLE_BMI2 is set' % it.dem(v.name).split('(')[0], W)
def initialiser(rep, m, ext):
    """variant without ifuncs: the function pointer after static initialisation"""
    g = [n for n in m.globals if m.demangled.get(n, n) == 'bls12_381::_multiply']
    if not g: raise AnalysisError('anchor vanished: bls12_381::_multiply')
    W = 'src/arithmetic.cpp'
    for maxleaf in LEAVES:
        for bmi2 in (0, 1):
            for adx in (0, 1):
                it = cpu(m, maxleaf, bmi2, adx, [], 1)
                v0 = it.load_bytes(it.gstate, it.global_ptr(it.gstate, g[0]), 8)
                if not isinstance(v0, Fun): raise Violation('before initialisation the multiplication is %r' % (v0,), W)
                judge(it, ext, [v0], 0, 0, 0, [], W)
                sts = [it.gstate]
                for pr, f in m.ctors: sts = [s for st in sts for s, _ in it.call(st, f, [])]
                for s in sts: judge(it, ext, [it.load_bytes(s, it.global_ptr(s, g[0]), 8)], maxleaf, bmi2, adx, [], W)
                rep.count('configurations'); rep.absorb(it)
def references(rep, m, ext, selectors):
    """extension code is mentioned only by the selection and by other extension code"""
    seen = 0
    for n, f in m.functions.items():
        if n in selectors or n in ext: continue
        for r, i in refs(m, f):
            seen += 1
            if r in ext: raise Violation('%s is used without checking the processor: %s' % (m.demangled.get(r, r).split('(')[0], ext[r][1]), '%s (%s)' % (m.where(i.dbg), m.demangled.get(n, n).split('(')[0]))
    for n, (ty, init, const, e, tl) in m.globals.items():
        for r in ext:
            if init is not None and repr(('g', r)) in repr(init): raise Violation('%s is stored in %s without checking the processor' % (m.demangled.get(r, r).split('(')[0], m.demangled.get(n, n)), '')
    rep.count('references_checked', seen)
def callees(m, f, seen):
    if f.name in seen: return
    seen.add(f.name)
    for r, i in refs(m, f):
        if r in m.functions and i.op == 'call' and i.extra and i.extra[0] == ('g', r): callees(m, m.functions[r], seen)
def run_H04(rep):
    rep.explanation = 'the selection interpreted for every highest cpuid leaf, feature combination and environment in a list with all other processor words unknown; call-graph rule for extension code; every assembly routine interpreted on opaque operand data for stack, register and memory discipline'
    rep.assumptions += ['System V calling convention', 'cpuid leaf 7 (subleaf 0) EBX bits 8 and 19 mean BMI2 and ADX; leaves above the reported maximum return arbitrary data']
    R = asm_routines(); m = build.load(); jobs = []
    ext = ext_functions(m, R)
    selectors = set()
    for sym, res in m.ifuncs.items():
        if res not in m.functions: raise AnalysisError('resolver %s is not defined' % res)
        callees(m, m.functions[res], selectors)
        jobs.append(lambda r, sym=sym, res=res: r.run('selection of %s' % m.demangled.get(sym, sym).split('(')[0], lambda: resolver(r, m, ext, sym, res), where_name(m, res)))
    jobs.append(lambda r: r.run('extension code is reached only through the selection', lambda: references(r, m, ext, selectors), ''))
    def alt(r):
        m2 = build.load(name='noelf', flags=['-U__ELF__'])
        e2 = ext_functions(m2, R)
        r.run('selection by static initialisation', lambda: initialiser(r, m2, e2), 'src/arithmetic.cpp')
        sel = set()
        for _, f in m2.ctors: callees(m2, m2.functions[f], sel)
        r.run('extension code is reached only through the selection (static initialisation)', lambda: references(r, m2, e2, sel), '')
    jobs.append(alt)
    for dm, (s, ins) in sorted(R.items()):
        rep.functions.add(dm)
        jobs.append(lambda r, dm=dm, s=s, ins=ins: r.run('registers, stack and result of %s' % dm.split('(')[0], lambda: routine(r, dm, s, ins, 'state'), ins[0].line))
    if not R: raise AnalysisError('anchor vanished: assembly routines')
    rep.parallel(jobs)

# ---- H05
class Data(AV):
    def __repr__(self): return 'operand data'
DATA = Data()
class DataDomain(Domain):
    def chk(self, it, *xs):
        for x in xs:
            if isinstance(x, Ptr): raise AnalysisError('pointer arithmetic at %s' % it.where())
    def binop(self, it, op, w, a, b, flags):
        self.chk(it, a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not (op[0] == 'u' and isinstance(b, int) and b and b & (b - 1) == 0): raise Violation('division of operand data', it.where())
        if op == 'and' and (a == 0 or b == 0): return 0
        return DATA
    def icmp(self, it, pred, w, a, b):
        self.chk(it, a, b); return DATA
    def cast(self, it, op, fw, tw, v): return DATA
    def unop(self, it, st, op, w, a): return DATA
    def select(self, it, st, c, a, b, ty):
        if isinstance(a, (Ptr, Fun)) or isinstance(b, (Ptr, Fun)):
            if a == b: return a
            raise Violation('a memory address depends on operand values', it.where())
        if a is UNDEF or b is UNDEF: return UNDEF
        return DATA
    def extract(self, it, v, vsize, off, size): return DATA
    def assemble(self, it, parts, size): return UNDEF if any(v is UNDEF for _, v in parts) else DATA
    def decide(self, it, st, c): raise Violation('a branch depends on operand values', it.where())
    def gep(self, it, st, off, i, w, sz): raise Violation('a memory address depends on operand values', it.where())
def primitive(rep, m, dm, nin, words, alias, R):
    D = DataDomain(); it = Interp(m, D); it.run_ctors(); f = fn(m, dm); A = Arena(it)
    def asmh(it, st, a):
        for p in a[1:]:
            for j in range(6): it.load_bytes(st, Ptr(p.obj, p.off + 8 * j), 8)
        for j in range(6): it.store_bytes(st, Ptr(a[0].obj, a[0].off + 8 * j), 8, DATA)
    for d in R: it.handlers[d] = asmh
    for s in m.ifuncs: it.handlers[m.demangled.get(s, s)] = asmh
    def adc(it, st, a): raise AnalysisError('call at ' + it.where())
    ps = []
    for k in range(nin):
        if alias and k: ps.append(ps[0]); continue
        p = A.buf(8 * words, 'operand')
        for j in range(words): it.store_bytes(A.st, Ptr(p.obj, 8 * j), 8, DATA)
        ps.append(p)
    out = ps[0] if alias and words == 6 else A.buf(48 if words == 6 else 16, 'result')
    if out is not ps[0]:
        for p in ps: A.const_arg(p)
    rs = it.call(A.st, f, [out] + ps); rep.absorb(it)
    if not rs: raise Violation('no path returns', where_fn(m, dm))
def run_H05(rep):
    rep.explanation = 'taint interpretation with opaque operands: word primitives on the IR (default and portable build), assembly routines on the disassembly; a branch, address or division that depends on operand data is a violation'
    rep.assumptions += ['select and conditional moves, multiplications and shifts execute in data-independent time', 'the compiler does not introduce branches into branch-free source']
    R = asm_routines(); jobs = []
    from engine.wutil import load_portable
    mods = [('x86-64', build.load()), ('portable', load_portable())]
    for tag, m in mods:
        for n, k in (('Add64', 3), ('Sub64', 3), ('Mul64', 2)):
            dm = 'bls12_381::%s(%s)' % (n, ', '.join([U64C] * k))
            for al in (False, True):
                jobs.append(lambda r, m=m, dm=dm, n=n, k=k, al=al, tag=tag: r.run('%s: %s%s' % (tag, n, ' (one operand object)' if al else ''), lambda: primitive(r, m, dm, k, 1, al, R), where_fn(m, dm)))
    m = mods[0][1]
    for n, k in (('_square', 1), ('_multiply', 2), ('_add', 2), ('_subtract', 2), ('_double', 1), ('_ladd', 2), ('_ldouble', 1), ('_lsubtract', 2)):
        dm = 'bls12_381::%s(%s)' % (n, ', '.join([FPP] + [FPC] * k))
        if m.bydem.get(dm) not in m.functions: continue
        for al in (False, True):
            jobs.append(lambda r, dm=dm, n=n, k=k, al=al: r.run('x86-64: %s%s' % (n, ' (one object)' if al else ''), lambda: primitive(r, m, dm, k, 6, al, R), where_fn(m, dm)))
    for dm, (s, ins) in sorted(R.items()):
        rep.functions.add(dm)
        jobs.append(lambda r, dm=dm, s=s, ins=ins: r.run('assembly %s' % dm.split('(')[0], lambda: routine(r, dm, s, ins, 'time'), ins[0].line))
    if not R: raise AnalysisError('anchor vanished: assembly routines')
    rep.parallel(jobs)
