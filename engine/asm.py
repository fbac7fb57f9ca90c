"""Assembly routines: disassembled from the assembled object and interpreted over
the word domain (straight-line code, conditional moves partition on the carry)."""
import re, subprocess, os, glob
from .interp import AnalysisError, Violation, Ptr
from .word import *
from .build import LLVM, REPO, scratch, BuildError

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
R32 = {'eax': 'rax', 'ecx': 'rcx', 'edx': 'rdx', 'ebx': 'rbx', 'esp': 'rsp', 'ebp': 'rbp', 'esi': 'rsi', 'edi': 'rdi'}
for i in range(8, 16): R32['r%dd' % i] = 'r%d' % i
R8 = {'al': 'rax', 'cl': 'rcx', 'dl': 'rdx', 'bl': 'rbx', 'sil': 'rsi', 'dil': 'rdi', 'bpl': 'rbp'}
for i in range(8, 16): R8['r%db' % i] = 'r%d' % i
CALLEE = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15', 'rsp']
M64 = (1 << 64) - 1

class AInst:
    __slots__ = ('addr', 'op', 'args', 'line', 'reloc')

def load():
    """{symbol: [AInst]} for every assembly file of the sources"""
    out = {}
    ro = {}
    files = sorted(glob.glob(REPO + '/src/*.s') + glob.glob(REPO + '/src/*.S'))
    if not files: raise AnalysisError('no assembly source')
    for f in files:
        o = os.path.join(scratch(), os.path.basename(f) + '.o')
        r = subprocess.run([LLVM + 'clang', '-g', '-c', f, '-o', o], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-2000:])
        d = subprocess.run([LLVM + 'llvm-objdump', '-d', '-l', '-r', '--no-show-raw-insn', o], capture_output=True, text=True).stdout
        cur = None; line = '?'
        for l in d.splitlines():
            m = re.match(r'^[0-9a-f]+ <(.+)>:$', l)
            if m: cur = out.setdefault(m.group(1), []); continue
            if l.startswith('; '):
                m = re.match(r'^; (.*:\d+)$', l)
                if m: line = m.group(1).replace(REPO + '/', '')
                continue
            m = re.match(r'^\s*([0-9a-f]+):\s+R_X86_64_(\S+)\s+(\S+)', l)
            if m and cur:
                cur[-1].reloc = (m.group(2), m.group(3)); continue
            m = re.match(r'^\s*([0-9a-f]+):\s+(\S+)\s*(.*)$', l)
            if m and cur is not None:
                i = AInst(); i.addr = int(m.group(1), 16); i.op = m.group(2); i.line = line; i.reloc = None
                a = m.group(3).split('#')[0].strip()
                i.args = split_args(a)
                cur.append(i)
    return out

def split_args(a):
    out = []; depth = 0; cur = ''
    for ch in a:
        if ch == '(': depth += 1
        if ch == ')': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

EXTS = ('mulx', 'adcx', 'adox', 'rorx', 'sarx', 'shlx', 'shrx', 'bzhi', 'pdep', 'pext')

def uses_extensions(insts):
    return [i for i in insts if i.op.rstrip('lq') in EXTS or i.op in EXTS]

class AState:
    __slots__ = ('reg', 'cf', 'of', 'zf', 'mem', 'ctx', 'pc', 'writes')
    def copy(self):
        s = AState(); s.reg = dict(self.reg); s.cf = self.cf; s.of = self.of; s.zf = self.zf
        s.mem = {k: dict(v) for k, v in self.mem.items()}; s.ctx = self.ctx.copy(); s.pc = self.pc; s.writes = set(self.writes)
        return s

class Asm(Words):
    """interpreter for one routine"""
    def __init__(self, insts, sym):
        self.insts = insts; self.sym = sym
        self.index = {i.addr: n for n, i in enumerate(insts)}
        self.steps = 0; self.leaks = []
    def err(self, i, msg): raise AnalysisError('%s: %s (%s %s)' % (i.line, msg, i.op, ','.join(i.args)))
    def run(self, objs, args, ctx=None):
        """objs: {name: {off: value}}; self.readable / self.writable: {name: [(lo, hi)]}; args: register -> Ptr"""
        st = AState(); st.reg = {}; st.mem = {k: dict(v) for k, v in objs.items()}; st.mem['stack'] = {}
        st.cf = st.of = st.zf = None; st.ctx = ctx.copy() if ctx else Ctx(); st.pc = 0; st.writes = set()
        for r in R64: st.reg[r] = ('init', r)
        st.reg['rsp'] = Ptr('stack', 0)
        st.mem['stack'][0] = ('retaddr',)
        st.reg.update(args)
        work = [st]; done = []
        while work:
            st = work.pop()
            r = self.path(st, work)
            if r is not None: done.append(r)
            if len(done) + len(work) > 64: raise AnalysisError('too many paths in ' + self.sym)
        return done
    # --- operands
    def ea(self, st, i, a):
        m = re.match(r'^(-?(?:0x[0-9a-f]+|\d+))?\((?:%(\w+))?(?:,\s*%(\w+)(?:,\s*(\d+))?)?\)$', a)
        if not m: self.err(i, 'addressing mode')
        off = int(m.group(1), 0) if m.group(1) else 0
        b = st.reg[m.group(2)] if m.group(2) != 'rip' else self.err(i, 'rip-relative operand')
        if m.group(3):
            x = st.reg[m.group(3)]
            if not isinstance(x, int):
                self.leaks.append((i.line, 'memory address depends on data'))
                self.err(i, 'symbolic index')
            off += x * int(m.group(4) or 1)
        if not isinstance(b, Ptr):
            raise Violation('memory access through %r, not an argument or the stack' % (b,), i.line)
        o = b.off + off
        return b.obj, o - (1 << 64) if o >= 1 << 63 else o
    def load(self, st, i, obj, off):
        if obj != 'stack':
            if not any(lo <= off <= hi - 8 for lo, hi in self.readable[obj]):
                raise Violation('reads outside its operands (offset %d of %s)' % (off, obj), i.line)
        v = st.mem[obj].get(off)
        if v is None: raise Violation('read of uninitialised memory %s%+d' % (obj, off), i.line)
        return v
    def store(self, st, i, obj, off, v):
        if obj == 'stack':
            if off >= 0: raise Violation('write above the frame (offset %d)' % off, i.line)
            sp = st.reg['rsp']
            if isinstance(sp, Ptr) and off < sp.off - 128: raise Violation('write below the red zone', i.line)
        else:
            if not any(lo <= off <= hi - 8 for lo, hi in self.writable.get(obj, ())):
                raise Violation('writes outside the result (offset %d of %s)' % (off, obj), i.line)
        for k in range(off - 7, off + 8):
            if k != off and k in st.mem[obj]: self.err(i, 'overlapping store')
        st.mem[obj][off] = v; st.writes.add((obj, off))
    def get(self, st, i, a):
        if a.startswith('$'): return int(a[1:], 0) & M64
        if a.startswith('%'):
            r = a[1:]
            if r in R64: return st.reg[r]
            if r in R32:
                v = st.reg[R32[r]]
                if isinstance(v, int): return v & 0xffffffff
                self.err(i, '32-bit use of a 64-bit value')
            self.err(i, 'register')
        o, off = self.ea(st, i, a)
        return self.load(st, i, o, off)
    def put(self, st, i, a, v):
        if a.startswith('%'):
            r = a[1:]
            if r in R64: st.reg[r] = v; return
            if r in R32 and isinstance(v, int): st.reg[R32[r]] = v & 0xffffffff; return
            self.err(i, 'destination')
        o, off = self.ea(st, i, a)
        self.store(st, i, o, off, v)
    def num(self, i, v):
        if isinstance(v, (int, W)): return self.P(v)
        self.err(i, 'arithmetic on %r' % (v,))
    def fl(self, i, c):
        if c is None: raise Violation('uses a flag left by an unrelated instruction', i.line)
        return c if isinstance(c, WP) else WP.const(c)
    def setz(self, st, v):
        st.zf = (v == 0) if isinstance(v, int) else (v if isinstance(v, W) else None)
    # --- execution
    def path(self, st, work):
        while True:
            if st.pc >= len(self.insts): raise Violation('runs off the end', self.sym)
            i = self.insts[st.pc]; self.steps += 1
            if self.steps > 200000: self.err(i, 'step budget')
            op = i.op
            st.pc += 1
            if op in ('retq', 'ret'):
                self.exit_check(st, i)
                return st
            if not self.step(st, i, op, work): return None
    def exit_check(self, st, i):
        for r in CALLEE:
            want = Ptr('stack', 0) if r == 'rsp' else ('init', r)
            if st.reg[r] != want: raise Violation('register %s is not restored on return' % r, i.line)
    def arith(self, st, i, sgns, dst, cin, flag='both'):
        """dst <- sum of sgns; carry/borrow to cf"""
        polys = [p if s > 0 else -p for p, s in sgns]
        r, q = self.wrap(st.ctx, polys, 64)
        return r, q
    def step(self, st, i, op, work):
        a = i.args
        b = op
        for suf in ('q', 'l', ''):
            if suf and op.endswith(suf) and op[:-1] in ('mov', 'add', 'adc', 'sub', 'sbb', 'xor', 'push', 'pop', 'mul', 'mulx', 'adcx', 'adox', 'cmp', 'test', 'and', 'or', 'imul', 'lea', 'inc', 'dec', 'neg', 'movabs', 'not', 'xchg', 'shl', 'shr'):
                b = op[:-1]; break
        ctx = st.ctx
        if b in ('mov', 'movabs'):
            self.put(st, i, a[1], self.get(st, i, a[0])); return True
        if b == 'push':
            v = self.get(st, i, a[0])
            sp = st.reg['rsp']; st.reg['rsp'] = Ptr('stack', sp.off - 8)
            self.store(st, i, 'stack', sp.off - 8, v); return True
        if b == 'pop':
            sp = st.reg['rsp']
            if sp.off >= 0: raise Violation('pops beyond its frame', i.line)
            v = self.load(st, i, 'stack', sp.off)
            st.reg['rsp'] = Ptr('stack', sp.off + 8)
            self.put(st, i, a[0], v); return True
        if b == 'lea':
            o, off = self.ea(st, i, a[0]); self.put(st, i, a[1], Ptr(o, off)); return True
        if b in ('add', 'sub') and a[1] == '%rsp':
            k = self.get(st, i, a[0])
            if not isinstance(k, int): self.err(i, 'stack adjustment')
            k = k - (1 << 64) if k >> 63 else k
            sp = st.reg['rsp']; st.reg['rsp'] = Ptr('stack', sp.off + (k if b == 'add' else -k))
            st.cf = st.of = st.zf = None; return True
        if b in ('add', 'adc', 'adcx', 'adox'):
            x = self.get(st, i, a[0]); y = self.get(st, i, a[1])
            if isinstance(y, Ptr) and b == 'add' and isinstance(x, int):
                self.put(st, i, a[1], Ptr(y.obj, y.off + (x - (1 << 64) if x >> 63 else x))); st.cf = st.of = st.zf = None; return True
            ps = [self.num(i, x), self.num(i, y)]
            if b in ('adc', 'adcx'): ps.append(self.fl(i, st.cf))
            if b == 'adox': ps.append(self.fl(i, st.of))
            r, q = self.wrap(ctx, ps, 64)
            v = self.mk(ctx, r, 64)
            self.put(st, i, a[1], v)
            if b == 'adox': st.of = q
            else:
                st.cf = q
                if b in ('add', 'adc'): st.of = None; self.setz(st, v)
            return True
        if b in ('sub', 'sbb', 'cmp'):
            x = self.get(st, i, a[0]); y = self.get(st, i, a[1])
            if b == 'sbb' and a[0] == a[1] and not isinstance(x, (int, W)): x = y = 0
            ps = [self.num(i, y), -self.num(i, x)]
            if b == 'sbb': ps.append(-self.fl(i, st.cf))
            r, q = self.wrap(ctx, ps, 64)
            v = self.mk(ctx, r, 64)
            if b != 'cmp': self.put(st, i, a[1], v)
            st.cf = -q; st.of = None; self.setz(st, v)
            return True
        if b == 'neg':
            x = self.get(st, i, a[0]); r, q = self.wrap(ctx, [-self.num(i, x)], 64)
            v = self.mk(ctx, r, 64); self.put(st, i, a[0], v); st.cf = -q; st.of = None; self.setz(st, v); return True
        if b in ('xor', 'and', 'or', 'test'):
            if b == 'xor' and a[0] == a[1]: v = 0
            else:
                x = self.get(st, i, a[0]); y = self.get(st, i, a[1])
                if b == 'test' and a[0] == a[1]: v = x
                else: v = self.bw(ctx, 'and' if b == 'test' else b, x if isinstance(x, int) else W(self.num(i, x), 64), y if isinstance(y, int) else W(self.num(i, y), 64), 64) if not (isinstance(x, int) and isinstance(y, int)) else {'xor': x ^ y, 'and': x & y, 'or': x | y, 'test': x & y}[b]
            if isinstance(v, BW):
                m = WordDomain.bw_resolve(WD, ctx, v)
                v = m
            if b != 'test': self.put(st, i, a[1], v)
            st.cf = ZERO; st.of = ZERO; self.setz(st, v); return True
        if b == 'not':
            x = self.get(st, i, a[0]); self.put(st, i, a[0], self.mk(ctx, WP.const(M64) - self.num(i, x), 64)); return True
        if b in ('inc', 'dec'):
            x = self.get(st, i, a[0])
            r, q = self.wrap(ctx, [self.num(i, x), WP.const(1 if b == 'inc' else -1)], 64)
            v = self.mk(ctx, r, 64); self.put(st, i, a[0], v); st.of = None; self.setz(st, v); return True
        if b == 'mul':
            x = self.get(st, i, a[0]); y = st.reg['rax']
            lo, hi = self.widemul(ctx, self.vv(i, x), self.vv(i, y), 64)
            st.reg['rax'] = self.mk(ctx, lo, 64); st.reg['rdx'] = self.mk(ctx, hi, 64)
            st.cf = st.of = st.zf = None; return True
        if b == 'mulx':
            x = self.get(st, i, a[0]); y = st.reg['rdx']
            lo, hi = self.widemul(ctx, self.vv(i, x), self.vv(i, y), 64)
            self.put(st, i, a[1], self.mk(ctx, lo, 64)); self.put(st, i, a[2], self.mk(ctx, hi, 64)); return True
        if b == 'imul' and len(a) in (2, 3):
            x = self.get(st, i, a[0]); y = self.get(st, i, a[1])
            x = self.vv(i, x); y = self.vv(i, y)
            v = (x * y) & M64 if isinstance(x, int) and isinstance(y, int) else self.mul(ctx, x, y, 64)
            self.put(st, i, a[-1], v); st.cf = st.of = st.zf = None; return True
        if b == 'xchg':
            x = self.get(st, i, a[0]); y = self.get(st, i, a[1]); self.put(st, i, a[0], y); self.put(st, i, a[1], x); return True
        if b in ('shl', 'shr') and len(a) == 2 and a[0].startswith('$'):
            k = int(a[0][1:], 0); x = self.vv(i, self.get(st, i, a[1]))
            if isinstance(x, int): v = (x << k) & M64 if b == 'shl' else x >> k
            else: v = self.shl(ctx, x, k, 64) if b == 'shl' else self.lshr(ctx, x, k, 64)
            self.put(st, i, a[1], v); st.cf = st.of = st.zf = None; return True
        m = re.match(r'^cmov(\w+?)q?$', op)
        if m:
            t = self.cond(st, i, m.group(1), work)
            if t: self.put(st, i, a[1], self.get(st, i, a[0]))
            elif a[0].startswith('%') is False: self.ea(st, i, a[0])
            return True
        if op.startswith('set'):
            self.err(i, 'set')
        if op.startswith('j'):
            if op == 'jmp': t = True
            else: t = self.branch(st, i, op[1:], work)
            if t:
                tgt = int(re.match(r'^(0x[0-9a-f]+)', a[0]).group(1), 16)
                if tgt not in self.index: self.err(i, 'jump leaves the routine')
                st.pc = self.index[tgt]
            return True
        if op in ('nop', 'nopw', 'nopl', 'endbr64', 'cld'): return True
        self.err(i, 'instruction not modelled')
    def vv(self, i, v):
        if isinstance(v, (int, W)): return v
        self.err(i, 'arithmetic on %r' % (v,))
    def cond(self, st, i, cc, work):
        """truth of a condition code; partitions when open"""
        if cc in ('b', 'c', 'nae', 'ae', 'nc', 'nb'):
            c = self.fl(i, st.cf); neg = cc in ('ae', 'nc', 'nb')
            c = st.ctx.norm(c)
            lo, hi = st.ctx.bound(c)
            if lo == hi: return bool(lo) != neg
            s2 = st.copy(); s2.pc -= 1
            if s2.ctx.learn(c, 0, 0) and s2.ctx.feasible():
                s2.cf = ZERO; work.append(s2)
            if not (st.ctx.learn(c, 1, 1) and st.ctx.feasible()):
                # only the other side is possible
                o = work.pop(); st.ctx = o.ctx; st.cf = ZERO; return neg
            st.cf = ONE
            return not neg
        if cc in ('e', 'z', 'ne', 'nz'):
            pos = cc in ('e', 'z')
            if isinstance(st.zf, bool): return st.zf == pos
            if st.zf is None: raise Violation('uses a flag left by an unrelated instruction', i.line)
            z = self.zero_ind(st.ctx, [st.ctx.norm(st.zf.p)])
            if isinstance(z, int): return bool(z) == pos
            s2 = st.copy(); s2.pc -= 1; s2.zf = False
            if self.assume(s2.ctx, z, False) and s2.ctx.feasible(): work.append(s2)
            if not (self.assume(st.ctx, z, True) and st.ctx.feasible()):
                o = work.pop(); st.ctx = o.ctx; st.zf = False; return not pos
            st.zf = True
            return pos
        if cc in ('a', 'nbe', 'be', 'na'):
            pos = cc in ('be', 'na')
            if self.cond(st, i, 'b', work): return pos
            return self.cond(st, i, 'e', work) == pos
        self.err(i, 'condition code')
    def branch(self, st, i, cc, work):
        n = len(work)
        r = self.cond(st, i, cc, work)
        if len(work) != n: self.leaks.append((i.line, 'branch depends on operand data'))
        return r
WD = WordDomain()

def call_asm(insts, sym, it, st, args, nargs):
    """run a routine on the interpreter's memory: first pointer is the result, the others are inputs"""
    A = Asm(insts, sym)
    A.readable = {}; A.writable = {}
    objs = {}
    for k, p in enumerate(args):
        if not isinstance(p, Ptr): raise AnalysisError('pointer argument expected for ' + sym)
        A.readable.setdefault(p.obj, []).append((p.off, p.off + 48))
        if k == 0:
            A.writable.setdefault(p.obj, []).append((p.off, p.off + 48))
        d = objs.setdefault(p.obj, {})
        if k == 0: continue
        for j in range(6):
            v = it.load_bytes(st, Ptr(p.obj, p.off + 8 * j), 8)
            if isinstance(v, (int, W, B)): d[p.off + 8 * j] = W(A.bpoly(v), 64) if isinstance(v, B) else v
            else: raise AnalysisError('operand word %r of %s' % (v, sym))
    outs = A.run(objs, dict(zip(('rdi', 'rsi', 'rdx'), args)), st.aux.get('w'))
    res = []
    for n, o in enumerate(outs):
        s2 = st.clone()
        res.append((s2, o))
    final = []
    for s2, o in res:
        z = args[0]
        for j in range(6):
            if (z.obj, z.off + 8 * j) not in o.writes: raise Violation('result word %d is never written' % j, A.insts[-1].line)
            it.store_bytes(s2, Ptr(z.obj, z.off + 8 * j), 8, o.mem[z.obj][z.off + 8 * j])
        s2.aux['w'] = o.ctx
        final.append((s2, None))
    it.asm_steps = getattr(it, 'asm_steps', 0) + A.steps
    it.asm_leaks = getattr(it, 'asm_leaks', []) + A.leaks
    return final
