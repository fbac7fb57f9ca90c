"""Abstract interpreter over the IR.

Concrete integers are Python ints, pointers are Ptr, everything else is an
abstract value (AV) interpreted by a pluggable domain.  Control flow on an
abstract condition either partitions the state (both sides are kept, each with
the fact assumed) or is joined at the immediate post-dominator, as the domain
decides.  No constraint solver is involved.
"""
import sys, time
from .llir import INT, PTR, VOID, IRError

sys.setrecursionlimit(100000)

class AnalysisError(Exception):
    """the analyser cannot handle a construct (never a verdict)"""

class Violation(Exception):
    """an obligation is broken at a specific construct"""
    def __init__(self, msg, where=None):
        Exception.__init__(self, msg); self.msg = msg; self.where = where
class MemoryFault(Violation):
    """an access outside an object or its lifetime, or a use of undefined data"""

DEADLINE = [None]
class AV:
    """abstract value"""
    __slots__ = ()

class Undef(AV):
    __slots__ = ()
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0):
        self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.obj, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off
    def __hash__(self): return hash((self.obj, self.off))
NULL = Ptr(0, 0)

class Fun:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Fun(%s)' % self.name
    def __eq__(self, o): return isinstance(o, Fun) and self.name == o.name
    def __hash__(self): return hash(self.name)

class Obj:
    __slots__ = ('size', 'cells', 'owner', 'kind', 'name', 'ro', 'freed', 'maxc')
    def __init__(self, size, kind, name='', owner=None, ro=False):
        self.size = size; self.cells = {}; self.owner = owner; self.kind = kind; self.name = name
        self.ro = ro; self.freed = False; self.maxc = 600
    def copy(self, owner):
        o = Obj(self.size, self.kind, self.name, owner, self.ro)
        o.cells = dict(self.cells); o.freed = self.freed; o.maxc = self.maxc
        return o

MERGED = ('merged',)

class State:
    __slots__ = ('mem', 'facts', 'log', 'aux', 'tag')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.log = []; self.aux = {}; self.tag = object()
    def clone(self):
        s = State()
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.log = list(self.log); s.aux = dict(self.aux)
        self.tag = object()          # both sides lose exclusive ownership
        return s
    def obj(self, oid):
        return self.mem[oid]
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tag:
            o = o.copy(self.tag); self.mem[oid] = o
        return o

class Domain:
    """default domain: concrete only"""
    def binop(self, it, op, w, a, b, flags): raise AnalysisError('abstract binop %s %r %r' % (op, a, b))
    def icmp(self, it, pred, w, a, b): raise AnalysisError('abstract icmp %s %r %r' % (pred, a, b))
    def cast(self, it, op, fw, tw, v): raise AnalysisError('abstract cast %s %r' % (op, v))
    def select(self, it, st, c, a, b, ty):
        r = self.decide(it, st, c)
        if r is not None: return a if r else b
        raise AnalysisError('abstract select %r' % (c,))
    def extract(self, it, v, vsize, off, size): raise AnalysisError('abstract extract %r' % (v,))
    def assemble(self, it, parts, size): raise AnalysisError('abstract assemble %r' % (parts,))
    def decide(self, it, st, c): return None
    def assume(self, it, st, c, truth):
        """return False when contradictory"""
        st.facts[c] = truth
        return True
    def branch_policy(self, it, st, fn, blk, c): return 'fork'
    def merge_value(self, it, c, a, b): raise AnalysisError('merge')
    def gep(self, it, st, base, idxs): raise AnalysisError('abstract gep index %r' % (idxs,))
    def load(self, it, st, p, ty, size): raise AnalysisError('abstract load')
    def store(self, it, st, p, v, size): raise AnalysisError('abstract store')
    def undef_branch(self, it, st, fn, blk): raise MemoryFault('branch on an undefined value', fn)

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

class Interp:
    def __init__(self, module, domain, max_steps=50_000_000):
        self.m = module; self.dom = domain
        self.next_id = 1000
        self.handlers = {}       # mangled name -> callable
        self.block_hooks = {}
        self.prefix_handlers = []  # (predicate(demangled) , callable)
        self._hcache = {}
        self.globals_obj = {}
        self.gstate = State()
        self.steps = 0; self.max_steps = max_steps
        self.stack = []
        self.worklists = []
        self.cur = None
        self.cst = None
        self.merge_base = None
        self.visited = {}     # function name -> count (coverage)
        self.global_writes = []
        self.trace_loads = None
        self.unknown_call = None
        self.mem_checks = 0
        self.blocks_seen = set()
        self.max_forks = 20000
        self.forks = 0

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name=''):
        self.next_id += 1
        o = Obj(size, kind, name, st.tag)
        st.mem[self.next_id] = o
        return Ptr(self.next_id, 0)

    def where(self, ins=None):
        ins = ins or self.cur
        if ins is None: return '?'
        return '%s in %s' % (self.m.where(ins.dbg), self.dem(ins.fn.name))

    def chain(self):
        return [self.dem(f.name) for f in self.stack]

    def dem(self, n):
        return self.m.demangled.get(n, n)

    def check(self, st, p, size, what):
        self.mem_checks += 1
        if not isinstance(p, Ptr):
            if p is UNDEF:
                raise MemoryFault('%s through an undefined pointer' % what, self.where())
            raise AnalysisError('%s through %r at %s' % (what, p, self.where()))
        if p.obj == 0:
            raise MemoryFault('%s through a null pointer' % what, self.where())
        o = st.mem.get(p.obj)
        if o is None:
            raise MemoryFault('%s of an object whose lifetime ended' % what, self.where())
        if o.freed:
            raise MemoryFault('%s of freed memory' % what, self.where())
        if not isinstance(p.off, int):
            raise AnalysisError('symbolic offset %r at %s' % (p.off, self.where()))
        if o.size is not None and isinstance(o.size, int):
            if p.off < 0 or p.off + size > o.size:
                raise MemoryFault('%s of %d bytes at offset %d of a %d byte object (%s)' % (what, size, p.off, o.size, o.name), self.where())
        return o

    def load_bytes(self, st, p, size):
        """load -> python int / AV / Ptr"""
        o = self.check(st, p, size, 'read')
        c = o.cells.get(p.off)
        if c is not None and c[0] == size:
            return c[1]
        # gather overlapping cells
        return self.gather(o, p.off, size)

    def gather(self, o, off, size):
        parts = []
        pos = off
        end = off + size
        while pos < end:
            c = o.cells.get(pos)
            start = pos
            if c is None:
                # look backwards for a covering cell
                if len(o.cells) < o.maxc:
                    b = max((k for k in o.cells if k < pos), default=None)
                    if b is not None and b + o.cells[b][0] > pos:
                        c = o.cells[b]; start = b
                else:
                    for b in range(pos - 1, max(-1, pos - o.maxc), -1):
                        c2 = o.cells.get(b)
                        if c2 is not None:
                            if b + c2[0] > pos:
                                c = c2; start = b
                            break
            if c is None:
                # undefined gap
                if end - pos > len(o.cells):
                    nxt = min((k for k in o.cells if pos < k < end), default=end)
                else:
                    nxt = pos + 1
                    while nxt < end and nxt not in o.cells: nxt += 1
                parts.append((nxt - pos, UNDEF)); pos = nxt
                continue
            csize, v = c
            lo = pos - start
            n = min(csize - lo, end - pos)
            if lo == 0 and n == csize:
                parts.append((n, v))
            else:
                parts.append((n, self.extract(v, csize, lo, n)))
            pos += n
        if len(parts) == 1: return parts[0][1]
        if all(isinstance(v, int) for _, v in parts):
            r = 0; sh = 0
            for n, v in parts:
                r |= v << (8 * sh); sh += n
            return r
        if all(v is UNDEF for _, v in parts): return UNDEF
        return self.dom.assemble(self, parts, size)

    def extract(self, v, vsize, off, size):
        if isinstance(v, int):
            return (v >> (8 * off)) & ((1 << (8 * size)) - 1)
        if v is UNDEF: return UNDEF
        return self.dom.extract(self, v, vsize, off, size)

    def store_bytes(self, st, p, size, v):
        o = self.check(st, p, size, 'write')
        if o.ro:
            raise MemoryFault('write to constant object %s' % o.name, self.where())
        if o.kind == 'global':
            self.global_writes.append((o.name, self.where()))
        if o.owner is not st.tag:
            o = o.copy(st.tag); st.mem[p.obj] = o
        self.put(o, p.off, size, v)

    def put(self, o, off, size, v):
        cells = o.cells
        if size > o.maxc: o.maxc = size
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v); return
        self.clear(o, off, size)
        cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells
        # cell that starts before and overlaps
        end = off + size
        if not cells: return
        if len(cells) < size + o.maxc:
            keys = [k for k, c in cells.items() if k < end and k + c[0] > off]
        else:
            keys = [k for k in range(max(0, off - o.maxc), end) if k in cells and k + cells[k][0] > off]
        for k in keys:
            cs, cv = cells.pop(k)
            if k < off:
                cells[k] = (off - k, self.extract(cv, cs, 0, off - k))
            if k + cs > end:
                cells[end] = (k + cs - end, self.extract(cv, cs, end - k, k + cs - end))

    def copy_bytes(self, st, dst, src, size):
        if size == 0: return
        so = self.check(st, src, size, 'read')
        do = self.check(st, dst, size, 'write')
        if do.ro: raise MemoryFault('write to constant object %s' % do.name, self.where())
        if do.kind == 'global': self.global_writes.append((do.name, self.where()))
        if dst.obj == src.obj and dst.off == src.off: return
        # collect cells
        items = []
        end = src.off + size
        cov = src.off
        if len(so.cells) <= size + so.maxc:
            ks = sorted(k for k, c in so.cells.items() if k < end and k + c[0] > src.off)
        else:
            ks = [k for k in range(max(0, src.off - so.maxc), end) if k in so.cells and k + so.cells[k][0] > src.off]
        for k in ks:
            cs, cv = so.cells[k]
            lo = max(k, src.off); hi = min(k + cs, end)
            v = cv if (lo == k and hi == k + cs) else self.extract(cv, cs, lo - k, hi - lo)
            items.append((lo - src.off, hi - lo, v))
        if do.owner is not st.tag:
            do = do.copy(st.tag); st.mem[dst.obj] = do
        self.clear(do, dst.off, size)
        do.maxc = max(do.maxc, so.maxc)
        for o2, n, v in items:
            do.cells[dst.off + o2] = (n, v)

    def set_bytes(self, st, dst, val, size):
        if size == 0: return
        do = self.check(st, dst, size, 'write')
        if do.ro: raise MemoryFault('write to constant object %s' % do.name, self.where())
        if do.kind == 'global': self.global_writes.append((do.name, self.where()))
        do = st.wobj(dst.obj)
        self.clear(do, dst.off, size)
        if isinstance(val, int):
            i = 0
            # align on 8-byte cells
            while i < size:
                n = min(8, size - i)
                do.cells[dst.off + i] = (n, int.from_bytes(bytes([val & 255]) * n, 'little')); i += n
        else:
            for i in range(size): do.cells[dst.off + i] = (1, val)

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        m = self.m
        if name in m.aliases: name = m.aliases[name]
        if name in m.functions or name in m.ifuncs or (name in m.declares):
            return Fun(name)
        oid = self.globals_obj.get(name)
        if oid is None:
            g = m.globals.get(name)
            if g is None: raise AnalysisError('unknown global ' + name)
            ty, init, const, ext, tl = g
            self.next_id += 1
            oid = self.next_id
            self.globals_obj[name] = oid
            try:
                sz = m.size(ty)
            except IRError:
                sz = None
            o = Obj(sz, 'global', m.demangled.get(name, name), None, False)
            if init is not None:
                self.init_global(o, 0, ty, init)
            o.ro = const
            self.gstate.mem[oid] = o
        if oid not in st.mem:
            st.mem[oid] = self.gstate.mem[oid]
        return Ptr(oid, 0)

    def init_global(self, o, off, ty, v):
        m = self.m
        ty = m.resolve(ty)
        k = v[0]
        if k == 'z':
            n = m.size(ty); i = 0
            while i < n:
                s = min(8, n - i); o.cells[off + i] = (s, 0); i += s
        elif k == 'u':
            pass
        elif k == 's':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
        elif k == 'agg':
            if ty[0] == 's':
                offs = m.layout(ty)[0]
                for (ety, e), oo in zip(v[1], offs): self.init_global(o, off + oo, ety, e)
            else:
                es = m.size(ty[2])
                for i, (ety, e) in enumerate(v[1]): self.init_global(o, off + i * es, ety, e)
        else:
            o.cells[off] = (m.size(ty), self.constval(self.gstate, v, ty))

    def constval(self, st, v, ty):
        k = v[0]
        if k == 'c': return v[1]
        if k == 'd': return v[1]
        if k == 'n': return NULL if ty[0] == 'p' else 0
        if k == 'u': return UNDEF
        if k == 'g': return self.global_ptr(st, v[1])
        if k == 'z':
            ty = self.m.resolve(ty)
            if ty[0] == 'i': return 0
            if ty[0] == 'p': return NULL
            if ty[0] == 'f': return 0.0
            if ty[0] == 's': return tuple(self.constval(st, v, e) for e in ty[1])
            if ty[0] in ('a', 'x'): return tuple(self.constval(st, v, ty[2]) for _ in range(ty[1]))
        if k == 'agg': return tuple(self.constval(st, e, t) for t, e in v[1])
        if k == 'gep':
            base = self.constval(st, v[2], PTR)
            return self.gep(st, base, v[1], [(t, self.constval(st, x, t)) for t, x in v[3]])
        if k == 'cast':
            x = self.constval(st, v[3], v[2])
            return self.cast(v[1], v[2], v[4], x)
        if k == 'cbin':
            a = self.constval(st, v[3], v[2]); b = self.constval(st, v[4], v[2])
            return self.binop(v[1], v[2], a, b, ())
        raise AnalysisError('constant %r' % (v,))

    # ------------------------------------------------------------ ops
    def gep(self, st, base, sty, idx):
        if not isinstance(base, Ptr):
            if base is UNDEF: return UNDEF
            raise AnalysisError('gep on %r at %s' % (base, self.where()))
        m = self.m
        off = base.off
        first = True
        ty = sty
        for ity, i in idx:
            if first:
                sz = m.size(ty); first = False
                if isinstance(i, int):
                    i = sgn(i, ity[1]); off = self.padd(st, off, i * sz)
                else:
                    off = self.dom.gep(self, st, off, i, ity[1], sz)
                continue
            ty = m.resolve(ty)
            if ty[0] == 's':
                off = self.padd(st, off, m.layout(ty)[0][i]); ty = ty[1][i]
            else:
                ty = ty[2]; sz = m.size(ty)
                if isinstance(i, int):
                    i = sgn(i, ity[1]); off = self.padd(st, off, i * sz)
                else:
                    off = self.dom.gep(self, st, off, i, ity[1], sz)
        return Ptr(base.obj, off)

    def padd(self, st, off, d):
        if isinstance(off, int): return off + d
        if d == 0: return off
        return self.dom.gep(self, st, off, d, 64, 1)

    def binop(self, op, ty, a, b, flags):
        if ty[0] == 'f':
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv': return a / b if b else float('inf')
            raise AnalysisError(op)
        w = ty[1]
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w: raise MemoryFault('shift of a %d-bit value by %d' % (w, b), self.where())
                if op == 'shl': return (a << b) & M
                if op == 'lshr': return a >> b
                return (sgn(a, w) >> b) & M
            if b == 0: raise MemoryFault('division by zero', self.where())
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv': return q & M
            if op == 'srem': return (sa - q * sb) & M
            raise AnalysisError(op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_binop(op, w, a, b)
        return self.dom.binop(self, op, w, a, b, flags)

    def ptr_binop(self, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int):
                return (a.off - b.off) & ((1 << w) - 1)
        if op == 'sub' and isinstance(a, Ptr) and b == 0: return a
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return self.dom.binop(self, 'sub', w, a.off, b.off, ())
        if op == 'add' and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.obj, a.off + sgn(b, w))
        if op == 'add' and isinstance(b, Ptr) and isinstance(a, int):
            return Ptr(b.obj, b.off + sgn(a, w))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.obj, a.off - sgn(b, w))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            raise MemoryFault('difference of pointers into different objects', self.where())
        raise AnalysisError('pointer arithmetic %s %r %r at %s' % (op, a, b, self.where()))

    def icmp(self, pred, ty, a, b):
        if type(a) is int and type(b) is int:
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's':
                w = ty[1]; a = sgn(a, w); b = sgn(b, w)
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if isinstance(a, (Ptr, Fun)) or isinstance(b, (Ptr, Fun)):
            if a == 0: a = NULL
            if b == 0: b = NULL
            if isinstance(a, (Ptr, Fun)) and isinstance(b, (Ptr, Fun)):
                if pred == 'eq' or pred == 'ne':
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and not (isinstance(a.off, int) and isinstance(b.off, int)):
                        return self.dom.icmp(self, pred, 64, a.off, b.off)
                    return int((a == b) == (pred == 'eq'))
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    return self.icmp(pred, INT(64), a.off & (2**64-1), b.off & (2**64-1)) if isinstance(a.off, int) and isinstance(b.off, int) else self.dom.icmp(self, pred, 64, a.off, b.off)
                # distinct objects: order unknown but consistent; order by id
                return self.icmp(pred, INT(64), a.obj, b.obj)
        return self.dom.icmp(self, pred, ty[1] if ty[0] == 'i' else 64, a, b)

    def cast(self, op, fty, tty, v):
        if type(v) is int:
            if op == 'zext' or op == 'bitcast': return v
            if op == 'trunc': return v & ((1 << tty[1]) - 1)
            if op == 'sext': return sgn(v, fty[1]) & ((1 << tty[1]) - 1)
            if op == 'inttoptr': return NULL if v == 0 else Ptr(0, v)
            if op == 'uitofp': return float(v)
            if op == 'sitofp': return float(sgn(v, fty[1]))
            raise AnalysisError(op)
        if isinstance(v, float):
            if op in ('fptoui', 'fptosi'): return int(v) & ((1 << tty[1]) - 1)
            return v
        if isinstance(v, (Ptr, Fun)):
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): return v
        if v is UNDEF: return UNDEF
        return self.dom.cast(self, op, fty[1] if fty[0] == 'i' else 64, tty[1] if tty[0] == 'i' else 64, v)

    # ------------------------------------------------------------ driver
    def handler(self, name):
        h = self._hcache.get(name, 0)
        if h != 0: return h
        h = self.handlers.get(name)
        if h is None:
            d = self.dem(name)
            h = self.handlers.get(d)
            if h is None:
                for pred, fn in self.prefix_handlers:
                    if pred(d):
                        h = fn; break
        self._hcache[name] = h
        return h

    def call(self, st, name, args, ins=None):
        """-> list of (state, retval)"""
        name = self.m.aliases.get(name, name)
        h = self.handler(name)
        if h is not None:
            self.callee = self.dem(name)
            r = h(self, st, args)
            if isinstance(r, list): return r
            if r is not NotImplemented: return [(st, r)]
        f = self.m.functions.get(name)
        if f is None:
            r = self.builtin(st, name, args)
            if r is not NotImplemented:
                if isinstance(r, list): return r
                return [(st, r)]
            if self.unknown_call:
                r = self.unknown_call(self, st, name, args)
                if r is not NotImplemented:
                    return r if isinstance(r, list) else [(st, r)]
            raise AnalysisError('call to unmodelled external %s at %s' % (self.dem(name), self.where()))
        return self.exec_function(st, f, args)

    def exec_function(self, st, f, args):
        f.parse()
        self.visited[f.name] = self.visited.get(f.name, 0) + 1
        if len(self.stack) > 200: raise AnalysisError('call depth')
        if len(args) != len(f.params):
            raise AnalysisError('arity of ' + self.dem(f.name))
        env = {}
        for (ty, nm, at), a in zip(f.params, args):
            if at and at[0] == 'byval' and isinstance(a, Ptr):
                sz = self.m.size(at[1])
                q = self.new_obj(st, sz, 'stack', 'byval')
                self.copy_bytes(st, q, a, sz)
                env.setdefault('__allocas', []).append(q.obj)
                a = q
            env[nm] = a
        self.stack.append(f)
        try:
            outs = self.run(st, f, env, f.entry, None, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            st2, kind, val, env2 = o[0], o[1], o[2], o[3]
            if kind == 'ret':
                for a in env2.get('__allocas', ()):
                    st2.mem.pop(a, None)
                res.append((st2, val))
            elif kind == 'throw':
                pass
        return res

    def run(self, st0, f, env0, blk0, prev0, stop):
        """Execute from blk0; returns list of (state, 'ret'|'stop', value|prevblk, env).
        stop: block label at which to stop (join point) or None."""
        outs = []
        work = [(st0, env0, blk0, prev0, 0)]
        dom = self.dom
        self.worklists.append(work)
        while work:
            st, env, blk, prev, start = work.pop()
            while True:
                if blk == stop and start == 0:
                    outs.append((st, 'stop', prev, env)); break
                insts = f.blocks[blk]
                self.blocks_seen.add((f.name, blk))
                n = len(insts)
                i = start
                entered = start == 0
                start = 0
                if i == 0 and insts[0].op == 'phi' and prev is MERGED:
                    while insts[i].op == 'phi': i += 1
                elif i == 0 and insts[0].op == 'phi':
                    vals = []
                    while i < n and insts[i].op == 'phi':
                        ins = insts[i]
                        for v, b in ins.extra:
                            if b == prev:
                                vals.append((ins.res, self.val(st, env, v, ins.ty))); break
                        else:
                            raise AnalysisError('phi without edge %s in %s' % (prev, f.name))
                        i += 1
                    for k, v in vals: env[k] = v
                nxt = None
                if entered and self.block_hooks:
                    hk = self.block_hooks.get((f.name, blk))
                    if hk is not None:
                        self.cst = st; self.cur = insts[i]
                        if hk(self, st, env, prev) is False: break
                while i < n:
                    ins = insts[i]
                    self.cur = ins
                    self.cst = st
                    self.steps += 1
                    op = ins.op
                    if op == 'call':
                        rs = self.do_call(st, env, ins)
                        if not rs:
                            nxt = 'DEAD'; break
                        cont = ins.extra[1]
                        if len(rs) > 1:
                            self.forks += len(rs) - 1
                            if self.forks > self.max_forks: raise AnalysisError('too many partitions in ' + self.dem(f.name))
                        for s2, v2 in rs[1:]:
                            e2 = dict(env)
                            if '__allocas' in e2: e2['__allocas'] = list(e2['__allocas'])
                            if ins.res: e2[ins.res] = v2
                            if cont: work.append((s2, e2, cont, blk, 0))
                            else: work.append((s2, e2, blk, prev, i + 1))
                        st, v = rs[0]
                        if ins.res: env[ins.res] = v
                        self.cur = ins
                        if cont:
                            nxt = cont; break
                        i += 1
                        continue
                    if op == 'br':
                        c = self.val(st, env, ins.a[0], INT(1))
                        t, e = ins.extra
                        if type(c) is int:
                            nxt = t if c else e; break
                        if t == e:
                            nxt = t; break
                        if c is UNDEF:
                            raise MemoryFault('branch on an undefined value', self.where())
                        d = dom.decide(self, st, c)
                        if d is not None:
                            nxt = t if d else e; break
                        pol = dom.branch_policy(self, st, f, blk, c)
                        if pol == 'join':
                            j = f.ipdom().get(blk)
                            if j is not None and j != '<exit>':
                                r = self.join_region(st, env, f, blk, c, t, e, j)
                                first = None
                                for kind, s2, e2, x in r:
                                    if kind == 'ret': outs.append((s2, 'ret', x, e2))
                                    elif first is None: first = (s2, e2, x)
                                    else: work.append((s2, e2, j, x, 0))
                                if first is None:
                                    nxt = 'DEAD'; break
                                st, env, prev = first
                                nxt = ('J', j, prev); break
                        # partition
                        self.forks += 1
                        if self.forks > self.max_forks: raise AnalysisError('too many partitions in ' + self.dem(f.name))
                        s2 = st.clone()
                        okF = dom.assume(self, s2, c, False)
                        okT = dom.assume(self, st, c, True)
                        if okF:
                            e2 = dict(env)
                            if '__allocas' in e2: e2['__allocas'] = list(e2['__allocas'])
                            if okT:
                                work.append((s2, e2, e, blk, 0))
                            else:
                                st, env = s2, e2
                                nxt = e; break
                        if okT:
                            nxt = t; break
                        nxt = 'DEAD'; break
                    if op == 'jmp':
                        nxt = ins.extra; break
                    if op == 'ret':
                        v = self.val(st, env, ins.a[0], ins.ty) if ins.a else None
                        outs.append((st, 'ret', v, env)); nxt = 'DEAD'; break
                    if op == 'switch':
                        c = self.val(st, env, ins.a[0], ins.ty)
                        d, cases = ins.extra
                        if type(c) is not int:
                            if c is UNDEF: raise MemoryFault('switch on an undefined value', self.where())
                            dead = False
                            for cv, b in cases:
                                r = self.icmp('eq', ins.ty, c, cv)
                                if type(r) is not int:
                                    dd = dom.decide(self, st, r)
                                    if dd is not None: r = int(dd)
                                if type(r) is int:
                                    if r: nxt = b; break
                                    continue
                                self.forks += 1
                                s2 = st.clone()
                                if dom.assume(self, s2, r, True):
                                    e2 = dict(env)
                                    if '__allocas' in e2: e2['__allocas'] = list(e2['__allocas'])
                                    work.append((s2, e2, b, blk, 0))
                                if not dom.assume(self, st, r, False):
                                    dead = True; break
                            if dead: nxt = 'DEAD'
                            elif nxt is None: nxt = d
                            break
                        nxt = d
                        for cv, b in cases:
                            if cv == c: nxt = b; break
                        break
                    if op == 'unreachable':
                        nxt = 'DEAD'; break
                    self.simple(st, env, ins)
                    i += 1
                if self.steps > self.max_steps: raise AnalysisError('step budget exhausted in ' + self.dem(f.name))
                if DEADLINE[0] and time.time() > DEADLINE[0]: raise AnalysisError('time budget exhausted in ' + self.dem(f.name))
                if nxt == 'DEAD': break
                if nxt is None: raise AnalysisError('fell off block %s of %s' % (blk, f.name))
                if type(nxt) is tuple:
                    blk = nxt[1]
                    continue
                prev = blk; blk = nxt
        self.worklists.pop()
        return outs

    def join_region(self, st, env, f, blk, c, t, e, j):
        """run both sides up to join block j and merge; returns list of
        ('cont', st, env, prev|startindex) / ('ret', st, env, val)"""
        s2 = st.clone(); e2 = dict(env)
        if '__allocas' in e2: e2['__allocas'] = list(e2['__allocas'])
        base_mem = st.mem
        sides = []
        rets = []
        for s, en, target, truth in ((st.clone(), env, t, True), (s2, e2, e, False)):
            if not self.dom.assume(self, s, c, truth):
                sides.append([]); continue
            en = dict(en)
            if '__allocas' in en: en['__allocas'] = list(en['__allocas'])
            outs = self.run(s, f, en, target, blk, j)
            stops = [o for o in outs if o[1] == 'stop']
            rets += [('ret', o[0], o[3], o[2]) for o in outs if o[1] == 'ret']
            sides.append(stops)
        res = []
        if len(sides[0]) == 1 and len(sides[1]) == 1:
            a = sides[0][0]; b = sides[1][0]
            m = self.merge(st, c, f, j, a, b)
            if m is not None:
                return [m] + rets
        for side in sides:
            for o in side:
                res.append(('cont', o[0], o[3], o[2]))
        return res + rets

    def merge(self, st0, c, f, j, a, b):
        sa, _, pa, ea = a; sb, _, pb, eb = b
        dom = self.dom
        self.merge_base = st0; self.cst = st0
        try:
            env = {}
            for k, v in ea.items():
                if k == '__allocas':
                    env[k] = sorted(set(v) | set(eb.get(k, ()))); continue
                if k in eb:
                    w = eb[k]
                    if v is w or (type(v) is type(w) and v == w): env[k] = v
                    # values local to one side are dead after the join unless in phis
                    else: env[k] = UNDEF
            # phis
            idx = 0
            insts = f.blocks[j]
            newv = []
            while insts[idx].op == 'phi':
                ins = insts[idx]
                va = vb = None
                for v, blk in ins.extra:
                    if blk == pa: va = self.val(sa, ea, v, ins.ty)
                    if blk == pb: vb = self.val(sb, eb, v, ins.ty)
                if pa is MERGED: va = ea[ins.res]
                if pb is MERGED: vb = eb[ins.res]
                if va is vb or (type(va) is type(vb) and va == vb): r = va
                else: r = dom.merge_value(self, c, va, vb, 8)
                newv.append((ins.res, r)); idx += 1
            for k, v in newv: env[k] = v
            # memory
            s = State(); s.aux = dict(sa.aux); s.facts = dict(st0.facts)
            s.log = sa.log
            if sa.log != sb.log:
                s.log = dom.merge_log(self, c, sa.log, sb.log) if hasattr(dom, 'merge_log') else sa.log
            s.aux = dom.merge_aux(self, c, sa.aux, sb.aux) if hasattr(dom, 'merge_aux') else dict(sa.aux)
            for oid, oa in sa.mem.items():
                ob = sb.mem.get(oid)
                if ob is None or ob is oa:
                    s.mem[oid] = oa; continue
                if oa.freed != ob.freed or oa.size != ob.size: return None
                o = oa.copy(s.tag)
                if hasattr(dom, 'coalesce'):
                    oa = oa.copy(None); ob = ob.copy(None)
                    dom.coalesce(oa); dom.coalesce(ob)
                if oa.cells == ob.cells:
                    s.mem[oid] = o; continue
                # align cells on identical boundaries
                keys = set(oa.cells) | set(ob.cells)
                cells = {}
                done = 0
                for k in sorted(keys):
                    if k < done: continue
                    ca = oa.cells.get(k); cb = ob.cells.get(k)
                    if ca is not None and cb is not None and ca[0] == cb[0]:
                        if ca[1] is cb[1] or (type(ca[1]) is type(cb[1]) and ca[1] == cb[1]): cells[k] = ca
                        else: cells[k] = (ca[0], dom.merge_value(self, c, ca[1], cb[1], ca[0]))
                        done = k + ca[0]; continue
                    # find a common boundary
                    end = max(k + (ca[0] if ca else 1), k + (cb[0] if cb else 1))
                    ch = True
                    while ch:
                        ch = False
                        for cc in (oa.cells, ob.cells):
                            for k2, c2 in cc.items():
                                if k2 < end and k2 + c2[0] > end and k2 >= k:
                                    end = k2 + c2[0]; ch = True
                    va = self.gather(oa, k, end - k); vb = self.gather(ob, k, end - k)
                    if va is UNDEF or vb is UNDEF:
                        cells[k] = (end - k, UNDEF)
                    else:
                        cells[k] = (end - k, va if (type(va) is type(vb) and va == vb) else dom.merge_value(self, c, va, vb, end - k))
                    done = end
                o.cells = cells
                s.mem[oid] = o
            for oid, ob in sb.mem.items():
                if oid not in sa.mem: s.mem[oid] = ob
            self.merged = getattr(self, 'merged', 0) + 1
            return ('cont', s, env, MERGED)
        except NoMerge:
            return None

    def val(self, st, env, v, ty):
        k = v[0]
        if k == 'l':
            try:
                return env[v[1]]
            except KeyError:
                raise AnalysisError('use of unbound %s in %s' % (v[1], self.where()))
        if k == 'c': return v[1]
        return self.constval(st, v, ty)

    def do_call(self, st, env, ins):
        callee = ins.extra[0]
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('llvm.'):
                r = self.intrinsic(st, env, ins, name)
                return r if isinstance(r, list) else [(st, r)]
        elif callee[0] == 'asm':
            h = self.handlers.get('asm')
            if not h and not asm_text(callee).strip():
                outs = [self.val(st, env, v, t) for t, v, _ in ins.a]
                return [(st, outs[0] if len(outs) == 1 and ins.res else None)]
            if h:
                return [(st, h(self, st, callee, [self.val(st, env, v, t) for t, v, _ in ins.a], ins))]
            raise AnalysisError('inline asm at ' + self.where())
        else:
            fv = self.val(st, env, callee, PTR)
            if not isinstance(fv, Fun):
                if fv is UNDEF: raise MemoryFault('call through undefined pointer', self.where())
                h = self.handlers.get('indirect')
                if h:
                    r = h(self, st, fv, [self.val(st, env, v, t) for t, v, _ in ins.a])
                    return r if isinstance(r, list) else [(st, r)]
                raise AnalysisError('indirect call at ' + self.where())
            name = fv.name
        args = [self.val(st, env, v, t) for t, v, _ in ins.a]
        self.call_ret_ty = ins.ty
        return self.call(st, name, args, ins)

    def simple(self, st, env, ins):
        op = ins.op
        if op == 'bin':
            a = self.val(st, env, ins.a[0], ins.ty); b = self.val(st, env, ins.a[1], ins.ty)
            env[ins.res] = self.binop(ins.extra[0], ins.ty, a, b, ins.extra[1])
        elif op == 'load':
            p = self.val(st, env, ins.a[0], PTR)
            sz = self.m.size(ins.ty)
            if isinstance(p, Ptr) and not isinstance(p.off, int):
                env[ins.res] = self.dom.load(self, st, p, ins.ty, sz); return
            v = self.load_bytes(st, p, sz)
            env[ins.res] = self.conv(st, v, ins.ty, sz, p)
        elif op == 'store':
            v = self.val(st, env, ins.a[0], ins.ty); p = self.val(st, env, ins.a[1], PTR)
            sz = self.m.size(ins.ty)
            if isinstance(p, Ptr) and not isinstance(p.off, int):
                self.dom.store(self, st, p, v, sz); return
            if isinstance(v, tuple):
                self.store_agg(st, p, v, ins.ty)
            else:
                self.store_bytes(st, p, sz, v)
        elif op == 'gep':
            base = self.val(st, env, ins.a[0], PTR)
            sty, idx = ins.extra
            env[ins.res] = self.gep(st, base, sty, [(t, self.val(st, env, v, t)) for t, v in idx])
        elif op == 'cast':
            v = self.val(st, env, ins.a[0], ins.extra[1])
            env[ins.res] = self.cast(ins.extra[0], ins.extra[1], ins.ty, v)
        elif op == 'icmp':
            a = self.val(st, env, ins.a[0], ins.ty); b = self.val(st, env, ins.a[1], ins.ty)
            env[ins.res] = self.icmp(ins.extra, ins.ty, a, b)
        elif op == 'fcmp':
            a = self.val(st, env, ins.a[0], ins.ty); b = self.val(st, env, ins.a[1], ins.ty)
            p = ins.extra[1:]
            env[ins.res] = int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[p])
        elif op == 'alloca':
            cnt = self.val(st, env, ins.a[0], INT(64))
            p = self.new_obj(st, self.m.size(ins.ty) * cnt, 'stack', '%s:%s' % (self.dem(ins.fn.name).split('(')[0], ins.res))
            env.setdefault('__allocas', []).append(p.obj)
            env[ins.res] = p
        elif op == 'select':
            c = self.val(st, env, ins.a[0], INT(1))
            a = self.val(st, env, ins.a[1], ins.ty); b = self.val(st, env, ins.a[2], ins.ty)
            if type(c) is int: env[ins.res] = a if c else b
            elif a is b or (type(a) is type(b) and a == b): env[ins.res] = a
            elif c is UNDEF: raise MemoryFault('selection on an undefined value', self.where())
            else: env[ins.res] = self.dom.select(self, st, c, a, b, ins.ty)
        elif op == 'extractvalue':
            v = self.val(st, env, ins.a[0], ins.ty)
            for i in ins.extra:
                if v is UNDEF: break
                v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, env, ins.a[0], ins.ty); x = self.val(st, env, ins.a[1], VOID)
            env[ins.res] = self.insert(v, ins.ty, ins.extra, x)
        elif op == 'freeze':
            env[ins.res] = self.val(st, env, ins.a[0], ins.ty)
        elif op == 'fneg':
            env[ins.res] = -self.val(st, env, ins.a[0], ins.ty)
        elif op == 'phi':
            raise AnalysisError('phi')
        elif op == 'fence':
            pass
        else:
            raise AnalysisError('instruction %s at %s' % (op, self.where()))

    def insert(self, v, ty, ix, x):
        ty = self.m.resolve(ty)
        if v is UNDEF:
            n = len(ty[1]) if ty[0] == 's' else ty[1]
            v = (UNDEF,) * n
        l = list(v)
        if len(ix) == 1: l[ix[0]] = x
        else:
            sub = ty[1][ix[0]] if ty[0] == 's' else ty[2]
            l[ix[0]] = self.insert(l[ix[0]], sub, ix[1:], x)
        return tuple(l)

    def store_agg(self, st, p, v, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 's':
            offs = self.m.layout(ty)[0]
            for x, o, e in zip(v, offs, ty[1]):
                q = Ptr(p.obj, p.off + o)
                if isinstance(x, tuple): self.store_agg(st, q, x, e)
                else: self.store_bytes(st, q, self.m.size(e), x)
        else:
            es = self.m.size(ty[2])
            for i, x in enumerate(v):
                q = Ptr(p.obj, p.off + i * es)
                if isinstance(x, tuple): self.store_agg(st, q, x, ty[2])
                else: self.store_bytes(st, q, es, x)

    def conv(self, st, v, ty, sz, p):
        ty = self.m.resolve(ty) if ty[0] == 'n' else ty
        if ty[0] == 'i':
            if type(v) is int:
                if ty[1] % 8: v &= (1 << ty[1]) - 1
                return v
            if ty[1] % 8 and not isinstance(v, (Ptr, Fun)) and v is not UNDEF:
                return self.dom.cast(self, 'trunc', sz * 8, ty[1], v)
            return v
        if ty[0] == 'p':
            if v == 0 and type(v) is int: return NULL
            return v
        if ty[0] == 'f':
            if type(v) is int:
                import struct
                return struct.unpack('<d', v.to_bytes(8, 'little'))[0] if ty[1] == 64 else v
            return v
        if ty[0] == 's':
            offs = self.m.layout(ty)[0]
            return tuple(self.conv(st, self.load_bytes(st, Ptr(p.obj, p.off + o), self.m.size(e)), e, self.m.size(e), Ptr(p.obj, p.off + o)) for o, e in zip(offs, ty[1]))
        if ty[0] in ('a', 'x'):
            es = self.m.size(ty[2])
            return tuple(self.conv(st, self.load_bytes(st, Ptr(p.obj, p.off + i * es), es), ty[2], es, Ptr(p.obj, p.off + i * es)) for i in range(ty[1]))
        raise AnalysisError('load type %r' % (ty,))

    # ------------------------------------------------------------ intrinsics / libc
    def intrinsic(self, st, env, ins, name):
        A = lambda i: self.val(st, env, ins.a[i][1], ins.a[i][0])
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch', 'llvm.donothing')):
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            return self.mem_copy(st, A(0), A(1), A(2), name.startswith('llvm.memmove'))
        if name.startswith('llvm.memset'):
            return self.mem_set(st, A(0), A(1), A(2))
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            a, b = A(0), A(1)
            pred = {'max': 'gt', 'min': 'lt'}[name[6:9]]
            c = self.icmp(name[5] + pred, ins.ty, a, b)
            if type(c) is int: return a if c else b
            return self.dom.select(self, st, c, a, b, ins.ty)
        if name.startswith('llvm.ctlz'):
            a = A(0); w = ins.ty[1]
            if type(a) is int: return w - a.bit_length()
            return self.dom.unop(self, st, 'ctlz', w, a)
        if name.startswith('llvm.cttz'):
            a = A(0); w = ins.ty[1]
            if type(a) is int: return w if a == 0 else (a & -a).bit_length() - 1
            return self.dom.unop(self, st, 'cttz', w, a)
        if name.startswith('llvm.ctpop'):
            a = A(0)
            if type(a) is int: return bin(a).count('1')
            return self.dom.unop(self, st, 'ctpop', ins.ty[1], a)
        if name.startswith('llvm.bswap'):
            a = A(0); w = ins.ty[1]
            if type(a) is int: return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
            return self.dom.unop(self, st, 'bswap', w, a)
        if name.startswith(('llvm.fshl', 'llvm.fshr')):
            a, b, c = A(0), A(1), A(2); w = ins.ty[1]
            if type(c) is not int: raise AnalysisError('funnel shift by abstract amount')
            c %= w
            if name.startswith('llvm.fshr'): c = (w - c) % w if True else c
            if name.startswith('llvm.fshr') and c == 0: return b
            if c == 0: return a
            T = INT(w)
            return self.binop('or', T, self.binop('shl', T, a, c, ()), self.binop('lshr', T, b, w - c, ()), ())
        if '.with.overflow.' in name:
            op = {'uadd': 'add', 'sadd': 'add', 'usub': 'sub', 'ssub': 'sub', 'umul': 'mul', 'smul': 'mul'}[name[5:9]]
            a, b = A(0), A(1); w = ins.a[0][0][1]
            r = self.binop(op, INT(w), a, b, ())
            if type(a) is int and type(b) is int:
                if name[5] == 'u': ex = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]; ov = int(ex != r)
                else:
                    x, y = sgn(a, w), sgn(b, w); ex = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]; ov = int(ex != sgn(r, w))
                return (r, ov)
            if name[5] == 'u' and op == 'add': return (r, self.icmp('ult', INT(w), r, a))
            if name[5] == 'u' and op == 'sub': return (r, self.icmp('ult', INT(w), a, b))
            raise AnalysisError(name)
        if name.startswith('llvm.usub.sat'):
            a, b = A(0), A(1)
            if type(a) is int and type(b) is int: return max(0, a - b)
        if name.startswith('llvm.abs'):
            a = A(0)
            if type(a) is int: return abs(sgn(a, ins.ty[1])) & ((1 << ins.ty[1]) - 1)
        if name.startswith('llvm.expect'): return A(0)
        if name.startswith('llvm.is.constant'): return 0
        if name.startswith('llvm.objectsize'): return (1 << 64) - 1
        if name == 'llvm.trap': return []
        if name.startswith('llvm.log') or name.startswith(('llvm.ceil', 'llvm.floor', 'llvm.exp', 'llvm.fabs', 'llvm.sqrt', 'llvm.round')):
            import math
            fn = name.split('.')[1]
            return {'log': math.log, 'log2': math.log2, 'log10': math.log10, 'ceil': math.ceil, 'floor': math.floor, 'exp': math.exp, 'fabs': abs, 'sqrt': math.sqrt, 'round': round, 'exp2': lambda x: 2.0 ** x}[fn](A(0)) * 1.0
        raise AnalysisError('intrinsic %s at %s' % (name, self.where()))

    def mem_copy(self, st, d, s, n, move=False):
        if type(n) is not int:
            return self.dom.mem_copy(self, st, d, s, n)
        if n == 0: return None
        if isinstance(d, Ptr) and isinstance(s, Ptr) and (type(d.off) is not int or type(s.off) is not int):
            return self.dom.mem_copy(self, st, d, s, n)
        self.copy_bytes(st, d, s, n)
    def mem_set(self, st, d, v, n):
        if type(n) is not int:
            return self.dom.mem_set(self, st, d, v, n)
        if type(v) is int: v &= 255
        self.set_bytes(st, d, v, n)

    def builtin(self, st, name, args):
        if name in ('malloc', '_Znwm', '_Znam'):
            n = args[0]
            return self.new_obj(st, n, 'heap', name + ' at ' + self.where())
        if name in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            p = args[0]
            if p == NULL: return None
            if not isinstance(p, Ptr): raise MemoryFault('free of a non-pointer', self.where())
            o = st.mem.get(p.obj)
            if o is None or o.kind != 'heap' or p.off != 0: raise MemoryFault('free of a pointer that was not allocated', self.where())
            if o.freed: raise MemoryFault('double free', self.where())
            isnew = o.name.startswith('_Zn')
            if isnew != name.startswith('_Zd'): raise MemoryFault('mismatched allocation and release', self.where())
            st.wobj(p.obj).freed = True
            return None
        if name in ('memcpy', 'memmove'):
            self.mem_copy(st, args[0], args[1], args[2]); return args[0]
        if name == 'memset':
            self.mem_set(st, args[0], args[1], args[2]); return args[0]
        if name == 'memcmp':
            if type(args[2]) is int:
                if args[2] == 0: return 0
                a = self.load_bytes(st, args[0], args[2]); b = self.load_bytes(st, args[1], args[2])
                if type(a) is int and type(b) is int:
                    A = a.to_bytes(args[2], 'little'); B = b.to_bytes(args[2], 'little')
                    return 0 if A == B else (1 if A > B else 0xffffffff)
                h = getattr(self.dom, 'memcmp', None)
                if h: return h(self, st, args[0], args[1], args[2])
            return NotImplemented
        if name == 'strlen':
            p = args[0]; n = 0
            while True:
                c = self.load_bytes(st, Ptr(p.obj, p.off + n), 1)
                if type(c) is not int: raise AnalysisError('strlen')
                if c == 0: return n
                n += 1
        if name in ('log', 'log2', 'ceil', 'floor', 'sqrt', 'exp', 'log10', 'pow', 'round'):
            import math
            return float(getattr(math, name)(*args)) if name != 'round' else float(round(args[0]))
        if name in ('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort'): return 0
        if name == '__cxa_guard_acquire': return 1
        if name in ('__cxa_throw', '__cxa_rethrow', '_ZSt17__throw_bad_allocv', '_ZSt9terminatev', 'abort', '__cxa_throw_bad_array_new_length') or name.startswith('_ZSt') and 'throw' in name:
            st.log.append(('throw', self.where()))
            h = getattr(self.dom, 'on_throw', None)
            if h: h(self, st)
            return []
        if name == '__cxa_allocate_exception':
            return self.new_obj(st, 1024, 'exc', 'exception')
        if name == '__cxa_free_exception': return None
        if name in ('__cxa_begin_catch', '__cxa_end_catch'): return NULL
        d = self.dem(name)
        if d.startswith(('std::invalid_argument::', 'std::length_error::', 'std::runtime_error::', 'std::logic_error::', 'std::out_of_range::')):
            return None
        return NotImplemented

    def run_ctors(self, strict=False):
        """evaluate the module's dynamic initialisers (constants) into the global state"""
        for pr, fn in self.m.ctors:
            rs = self.call(self.gstate, fn, [])
            if len(rs) != 1: raise AnalysisError('static initialiser partitions')
            self.gstate = rs[0][0]
        self.global_writes = []

def asm_text(callee):
    return callee[1] if len(callee) > 1 and isinstance(callee[1], str) else '?'

class NoMerge(Exception):
    pass
