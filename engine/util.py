"""helpers shared by the checks"""
from .interp import *
from .field import *

def fn(m, dem):
    """mangled name of a function defined in the module (anchor must exist)"""
    n = m.bydem.get(dem)
    if n is None or n not in m.functions:
        raise AnalysisError('anchor vanished: no definition of ' + dem)
    return n

def where_fn(m, dem):
    n = m.bydem.get(dem)
    if n and n in m.functions:
        f = m.functions[n]; f.parse()
        return '%s (%s)' % (m.where(f.dbg), dem)
    return dem

class Arena:
    """operands and results for one obligation"""
    def __init__(self, it):
        self.it = it
        self.st = it.gstate.clone()
    def buf(self, size, name='arg'):
        return self.it.new_obj(self.st, size, 'arg', name)
    def const_arg(self, p):
        self.st.mem[p.obj].ro = True
    def u64(self, v):
        p = self.buf(8, 'u64'); self.it.store_bytes(self.st, p, 8, v); return p

def loops(f):
    """natural loops of a function: {header: set of blocks}"""
    f.parse()
    dom = dominators(f); out = {}
    for b in f.order:
        for h in f.succs(b):
            if h in dom.get(b, ()):
                body = out.setdefault(h, {h}); work = [b]
                preds = {}
                for x in f.order:
                    for y in f.succs(x): preds.setdefault(y, []).append(x)
                while work:
                    x = work.pop()
                    if x in body: continue
                    body.add(x); work += preds.get(x, [])
    return out

def dominators(f):
    preds = {}
    for x in f.order:
        for y in f.succs(x): preds.setdefault(y, []).append(x)
    allb = set(f.order); dom = {b: set(allb) for b in f.order}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == f.entry: continue
            ps = [dom[p] for p in preds.get(b, ())]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]: dom[b] = n; ch = True
    return dom

def pure_region(f, blk, memo={}):
    """the branch at the end of blk only selects values: no store, call or loop before its join point"""
    k = (id(f), blk)
    if k in memo: return memo[k]
    j = f.ipdom().get(blk); ok = j is not None and j != '<exit>'
    if ok:
        seen = set(); work = list(f.succs(blk))
        while work and ok:
            b = work.pop()
            if b == j or b in seen: continue
            if b == blk: ok = False; break
            seen.add(b)
            if any(i.op in ('store', 'call', 'ret', 'unreachable', 'switch') for i in f.blocks[b]): ok = False
            work += f.succs(b)
            if len(seen) > 12: ok = False
    memo[k] = ok
    return ok

def narrowed(f, params):
    """loop bounds that are one of the given 64-bit parameters cut to fewer bits, or that compare it with a
    counter narrower than it"""
    f.parse()
    defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
    def regs(i):
        a = list(i.a) if i.op != 'phi' else [v for v, _ in i.extra]
        return [x[1] for x in a if isinstance(x, tuple) and x[0] == 'l']
    def flow(seed, ops):
        s = set(seed); chg = True
        while chg:
            chg = False
            for i in defs.values():
                if i.res not in s and ops(i) and any(r in s for r in regs(i)): s.add(i.res); chg = True
        return s
    arith = lambda i: (i.op == 'bin' and i.extra[0] in ('add', 'sub')) or i.op == 'freeze'
    whole = flow(params, arith)
    cut = [i for i in defs.values() if i.op == 'cast' and i.extra[0] == 'trunc' and any(r in whole for r in regs(i))]
    cutv = flow([i.res for i in cut], lambda i: arith(i) or (i.op == 'cast' and i.extra[0] in ('zext', 'sext')) or i.op == 'phi')
    ctl = loop_conditions(f)
    out = []
    for b in f.order:
        for i in f.blocks[b]:
            if i.op != 'icmp' or i.res not in ctl: continue
            rs = [(x[1] if isinstance(x, tuple) and x[0] == 'l' else None) for x in i.a[:2]]
            if any(r in cutv for r in rs): out.append((i, 'a length is cut to fewer bits before it bounds a loop'))
            for p, q in (rs, rs[::-1]):
                if p in whole and q in defs and defs[q].op == 'cast' and defs[q].extra[0] in ('zext', 'sext') and is_counter(defs, defs[q]):
                    out.append((i, 'a length bounds a loop whose counter is narrower'))
    return out

def loop_conditions(f):
    """results of comparisons that decide a branch inside a loop"""
    inl = set()
    L = loops(f)
    for body in (L.values() if isinstance(L, dict) else L): inl |= set(body if not isinstance(body, tuple) else body[1])
    out = set()
    for b in f.order:
        if b not in inl: continue
        for i in f.blocks[b]:
            if i.op == 'br':
                for x in i.a:
                    if isinstance(x, tuple) and x[0] == 'l': out.add(x[1])
    return out

def is_counter(defs, cast):
    """the extended value is a loop counter (a phi that is incremented)"""
    v = cast.a[0]
    d = defs.get(v[1]) if isinstance(v, tuple) and v[0] == 'l' else None
    return d is not None and d.op == 'phi'

def fn_prefix(m, pre):
    """the one defined function whose demangled name starts with pre"""
    c = [f for d, f in m.bydem.items() if d.startswith(pre) and f in m.functions]
    if len(c) != 1: raise AnalysisError('anchor vanished: %d definitions of %s' % (len(c), pre))
    return c[0]
def where_name(m, f):
    m.functions[f].parse()
    return '%s (%s)' % (m.where(m.functions[f].dbg), m.demangled.get(f, f).split('(')[0])
