"""Reader for textual LLVM IR (LLVM 18, opaque pointers), enough for clang -O0+SROA output."""
import re, subprocess, os, sys

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# int -> ('i', n); ptr -> ('p',); array -> ('a', n, T); struct -> ('s', (T..), packed); named -> ('n', name)
# void -> ('v',); double/float -> ('f', bits); vector -> ('x', n, T); metadata/label -> ('o', name)
VOID = ('v',); PTR = ('p',)
_INT = {}
def INT(n):
    t = _INT.get(n)
    if t is None:
        t = _INT[n] = ('i', n)
    return t

TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<punct><\{|\}>|[\[\]{}()<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError("tokenize: %r at %d" % (s, pos))
        k = m.lastgroup
        if k:
            out.append((k, m.group()))
        pos = m.end()
    return out

class Toks:
    __slots__ = ('t', 'i', 'src')
    def __init__(self, s):
        self.t = tokenize(s); self.i = 0; self.src = s
    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None
    def peekk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %s at token %d (%s) in %s" % (v, self.i, self.peek(), self.src))
    def done(self):
        return self.i >= len(self.t)

def parse_type(t):
    k, v = t.t[t.i]
    t.i += 1
    if k == 'word':
        if v[0] == 'i' and v[1:].isdigit():
            r = INT(int(v[1:]))
        elif v == 'ptr':
            r = PTR
        elif v == 'void':
            r = VOID
        elif v == 'double':
            r = ('f', 64)
        elif v == 'float':
            r = ('f', 32)
        elif v == 'x86_fp80':
            r = ('f', 80)
        elif v in ('label', 'metadata', 'token', 'opaque'):
            r = ('o', v)
        else:
            raise IRError("type? %s in %s" % (v, t.src))
    elif k == 'loc':
        r = ('n', v)
    elif v == '[':
        n = int(t.next()); t.expect('x')
        e = parse_type(t); t.expect(']')
        r = ('a', n, e)
    elif v == '{' or v == '<{':
        end = '}' if v == '{' else '}>'
        els = []
        if not t.accept(end):
            while True:
                els.append(parse_type(t))
                if t.accept(end): break
                t.expect(',')
        r = ('s', tuple(els), v == '<{')
    elif v == '<':
        n = int(t.next()); t.expect('x')
        e = parse_type(t); t.expect('>')
        r = ('x', n, e)
    else:
        raise IRError("type? %s in %s" % (v, t.src))
    # function type / function pointers: T (args)
    while t.peek() == '(' and r[0] != 'o':
        # only treat as a function type in call position; callers handle
        break
    return r

def skip_parens(t):
    t.expect('(')
    d = 1
    while d:
        v = t.next()
        if v == '(': d += 1
        elif v == ')': d -= 1

VALKW = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none',
         'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext',
         'add', 'sub', 'icmp', 'select', 'blockaddress', 'dso_local_equivalent', 'asm', 'no_cfi'}

def skip_attrs(t):
    """skip parameter / return attributes up to a value"""
    while True:
        k = t.peekk(); v = t.peek()
        if k == 'word' and v not in VALKW:
            t.i += 1
            if t.peek() == '(':
                skip_parens(t)
            elif v == 'align':
                t.i += 1
            continue
        if k == 'str' and not v.startswith('c"'):
            t.i += 1
            if t.accept('='):
                t.i += 1
            continue
        if k == 'attr':
            t.i += 1; continue
        return

# operand representation:
# ('c', int)   constant integer (masked to width)
# ('l', name)  local
# ('g', name)  global symbol
# ('z',)       zeroinitializer ; ('u',) undef/poison ; ('n',) null
# ('d', float) ; ('agg', [ops with types]) ; ('s', bytes)
# ('gep', srcty, base_op, [(ty,op)..]) ; ('cast', op, fromty, operand, toty) ; ('cbin', op, ty, a, b)

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(c)); i += 1
    return bytes(out)

def parse_value(t, ty):
    k, v = t.t[t.i]
    t.i += 1
    if k == 'num':
        if ty[0] == 'f':
            return ('d', float(v))
        w = ty[1] if ty[0] == 'i' else 64
        return ('c', int(v) & ((1 << w) - 1))
    if k == 'loc':
        if v[0] == '%':
            return ('l', v)
        return ('g', v[1:].strip('"'))
    if k == 'hex':
        import struct
        h = v[2:]
        if h[0] in 'KLMHR':
            return ('d', None)
        return ('d', struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0])
    if k == 'str':
        return ('s', unescape(v[2:-1]))
    if k == 'word':
        if v == 'true': return ('c', 1)
        if v == 'false': return ('c', 0)
        if v == 'null': return ('n',)
        if v in ('undef', 'poison'): return ('u',)
        if v == 'zeroinitializer': return ('z',)
        if v == 'none': return ('n',)
        if v == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw') or t.peek() == 'inrange':
                t.i += 1
                if t.peek() == '(' and t.t[t.i-1][1] == 'inrange':
                    skip_parens(t)
            t.expect('(')
            sty = parse_type(t); t.expect(',')
            bty = parse_type(t); base = parse_value(t, bty)
            idx = []
            while t.accept(','):
                while t.peek() == 'inrange': t.i += 1
                ity = parse_type(t); idx.append((ity, parse_value(t, ity)))
            t.expect(')')
            return ('gep', sty, base, idx)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            t.expect('(')
            fty = parse_type(t); o = parse_value(t, fty)
            t.expect('to'); tty = parse_type(t); t.expect(')')
            return ('cast', v, fty, o, tty)
        if v in ('add', 'sub'):
            while t.peek() in ('nuw', 'nsw'): t.i += 1
            t.expect('(')
            aty = parse_type(t); a = parse_value(t, aty); t.expect(',')
            bty = parse_type(t); b = parse_value(t, bty); t.expect(')')
            return ('cbin', v, aty, a, b)
        if v == 'asm':
            while t.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): t.i += 1
            a = t.next(); t.expect(','); c = t.next()
            return ('asm', a[1:-1], c[1:-1])
        if v in ('dso_local_equivalent', 'no_cfi'):
            return parse_value(t, ty)
    if v in ('{', '[', '<', '<{'):
        # aggregate constant, or '<{'
        if v == '<' and t.peek() == '{':
            pass
        end = {'{': '}', '[': ']', '<': '>', '<{': '}>'}[v]
        els = []
        if not t.accept(end):
            while True:
                ety = parse_type(t)
                skip_attrs(t)
                els.append((ety, parse_value(t, ety)))
                if t.accept(end): break
                t.expect(',')
        return ('agg', els)
    raise IRError("value? %s in %s" % (v, t.src))

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'extra', 'fn', 'blk')
    def __init__(self, op, res, ty, a, dbg=None, extra=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg; self.extra = extra

BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'fpext', 'fptrunc', 'addrspacecast'}

def parse_call(t):
    """after 'call'/'invoke' keyword"""
    # cc / fast-math flags / ret attrs
    while True:
        k = t.peekk(); v = t.peek()
        if k == 'word' and not re.match(r'^(i\d+|ptr|void|double|float|label|x86_fp80)$', v):
            t.i += 1
            if t.peek() == '(': skip_parens(t)
            elif v == 'align': t.i += 1
            continue
        break
    rty = parse_type(t)
    if t.peek() == '(':       # function type
        skip_parens(t)
    callee = parse_value(t, PTR)
    t.expect('(')
    args = []
    if not t.accept(')'):
        while True:
            if t.peek() == '...':
                t.i += 1
            else:
                aty = parse_type(t)
                if aty == ('o', 'metadata'):
                    # skip to , or )
                    d = 0
                    while not (d == 0 and t.peek() in (',', ')')):
                        if t.peek() in ('(', '{', '['): d += 1
                        if t.peek() in (')', '}', ']'): d -= 1
                        t.i += 1
                    args.append((aty, ('u',), None))
                else:
                    j = t.i
                    attrs = None
                    skip_attrs(t)
                    for q in range(j, t.i):
                        if t.t[q][1] in ('sret', 'byval'):
                            attrs = t.t[q][1]
                            sub = Toks(''); sub.t = t.t; sub.i = q + 2; sub.src = t.src
                            attrs = (attrs, parse_type(sub))
                    args.append((aty, parse_value(t, aty), attrs))
            if t.accept(')'): break
            t.expect(',')
    return rty, callee, args

def parse_inst(line):
    t = Toks(line)
    res = None
    if t.peekk() == 'loc' and t.peek(1) == '=':
        res = t.next(); t.next()
    op = t.next()
    dbg = None
    m = re.search(r'!dbg !(\d+)', line)
    if m: dbg = int(m.group(1))
    if op in ('tail', 'musttail', 'notail'):
        op = t.next()
    if op in BINOPS:
        flags = []
        while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            flags.append(t.next())
        ty = parse_type(t); a = parse_value(t, ty); t.expect(','); b = parse_value(t, ty)
        return Inst('bin', res, ty, (a, b), dbg, (op, tuple(flags)))
    if op == 'fneg':
        ty = parse_type(t); a = parse_value(t, ty)
        return Inst('fneg', res, ty, (a,), dbg)
    if op in ('icmp', 'fcmp'):
        while t.peek() in ('fast', 'samesign'): t.next()
        pred = t.next(); ty = parse_type(t); a = parse_value(t, ty); t.expect(','); b = parse_value(t, ty)
        return Inst(op, res, ty, (a, b), dbg, pred)
    if op in CASTS:
        while t.peek() in ('nneg', 'nuw', 'nsw'): t.next()
        ty = parse_type(t); a = parse_value(t, ty); t.expect('to'); tt = parse_type(t)
        return Inst('cast', res, tt, (a,), dbg, (op, ty))
    if op == 'alloca':
        if t.peek() == 'inalloca': t.next()
        ty = parse_type(t); cnt = ('c', 1)
        while t.accept(','):
            if t.peek() == 'align': break
            cty = parse_type(t); cnt = parse_value(t, cty)
        return Inst('alloca', res, ty, (cnt,), dbg)
    if op == 'load':
        if t.peek() == 'atomic': t.next()
        if t.peek() == 'volatile': t.next()
        ty = parse_type(t); t.expect(','); pt = parse_type(t); p = parse_value(t, pt)
        return Inst('load', res, ty, (p,), dbg, 'atomic' in line.split('!')[0])
    if op == 'store':
        if t.peek() == 'atomic': t.next()
        if t.peek() == 'volatile': t.next()
        ty = parse_type(t); v = parse_value(t, ty); t.expect(','); pt = parse_type(t); p = parse_value(t, pt)
        return Inst('store', None, ty, (v, p), dbg)
    if op == 'getelementptr':
        while t.peek() in ('inbounds', 'nuw', 'nusw'): t.next()
        sty = parse_type(t); t.expect(',')
        bty = parse_type(t); base = parse_value(t, bty)
        idx = []
        while t.accept(','):
            if t.peekk() == 'meta': break
            ity = parse_type(t); idx.append((ity, parse_value(t, ity)))
        return Inst('gep', res, PTR, (base,), dbg, (sty, idx))
    if op == 'br':
        if t.peek() == 'label':
            t.next(); return Inst('jmp', None, VOID, (), dbg, t.next())
        ty = parse_type(t); c = parse_value(t, ty); t.expect(',')
        t.expect('label'); a = t.next(); t.expect(','); t.expect('label'); b = t.next()
        return Inst('br', None, VOID, (c,), dbg, (a, b))
    if op == 'switch':
        ty = parse_type(t); c = parse_value(t, ty); t.expect(','); t.expect('label'); d = t.next()
        t.expect('[')
        cases = []
        while not t.accept(']'):
            cty = parse_type(t); cv = parse_value(t, cty); t.expect(','); t.expect('label'); cases.append((cv[1], t.next()))
        return Inst('switch', None, ty, (c,), dbg, (d, cases))
    if op == 'ret':
        ty = parse_type(t)
        if ty == VOID: return Inst('ret', None, VOID, (), dbg)
        return Inst('ret', None, ty, (parse_value(t, ty),), dbg)
    if op == 'phi':
        while t.peek() in ('fast',): t.next()
        ty = parse_type(t); inc = []
        while True:
            t.expect('['); v = parse_value(t, ty); t.expect(','); b = t.next(); t.expect(']')
            inc.append((v, b))
            if not t.accept(','): break
            if t.peekk() == 'meta': break
        return Inst('phi', res, ty, (), dbg, inc)
    if op == 'select':
        while t.peek() in ('fast',): t.next()
        cty = parse_type(t); c = parse_value(t, cty); t.expect(',')
        aty = parse_type(t); a = parse_value(t, aty); t.expect(',')
        bty = parse_type(t); b = parse_value(t, bty)
        return Inst('select', res, aty, (c, a, b), dbg)
    if op == 'call':
        rty, callee, args = parse_call(t)
        return Inst('call', res, rty, args, dbg, (callee, None, None))
    if op == 'invoke':
        rty, callee, args = parse_call(t)
        while t.peek() != 'to': t.next()
        t.next(); t.expect('label'); n = t.next(); t.expect('unwind'); t.expect('label'); u = t.next()
        return Inst('call', res, rty, args, dbg, (callee, n, u))
    if op == 'extractvalue':
        ty = parse_type(t); a = parse_value(t, ty); ix = []
        while t.accept(','):
            if t.peekk() == 'meta': break
            ix.append(int(t.next()))
        return Inst('extractvalue', res, ty, (a,), dbg, ix)
    if op == 'insertvalue':
        ty = parse_type(t); a = parse_value(t, ty); t.expect(',')
        ety = parse_type(t); b = parse_value(t, ety); ix = []
        while t.accept(','):
            if t.peekk() == 'meta': break
            ix.append(int(t.next()))
        return Inst('insertvalue', res, ty, (a, b), dbg, ix)
    if op == 'freeze':
        ty = parse_type(t); a = parse_value(t, ty)
        return Inst('freeze', res, ty, (a,), dbg)
    if op in ('unreachable', 'resume', 'landingpad', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg', 'insertelement',
              'extractelement', 'shufflevector'):
        return Inst(op, res, VOID, (), dbg, line)
    raise IRError("inst? " + line)

class Function:
    def __init__(self, name, header, lines, module):
        self.name = name; self.header = header; self.lines = lines; self.module = module
        self._parsed = False
    def parse(self):
        if self._parsed: return
        self._parsed = True
        t = Toks(self.header)
        t.expect('define')
        # skip linkage/attrs until type followed by @name
        while True:
            k = t.peekk(); v = t.peek()
            if k == 'word' and not re.match(r'^(i\d+|ptr|void|double|float|x86_fp80)$', v):
                t.i += 1
                if t.peek() == '(': skip_parens(t)
                elif v == 'align': t.i += 1
                continue
            break
        self.rty = parse_type(t)
        t.next()  # name
        t.expect('(')
        self.params = []
        n = 0
        if not t.accept(')'):
            while True:
                if t.peek() == '...':
                    t.i += 1
                else:
                    ty = parse_type(t)
                    j = t.i
                    attrs = None
                    skip_attrs(t)
                    for q in range(j, t.i):
                        if t.t[q][1] in ('sret', 'byval'):
                            sub = Toks(''); sub.t = t.t; sub.i = q + 2; sub.src = t.src
                            attrs = (t.t[q][1], parse_type(sub))
                    if t.peekk() == 'loc':
                        nm = t.next()
                    else:
                        nm = '%%%d' % n
                    if re.match(r'^%\d+$', nm): n = int(nm[1:]) + 1
                    self.params.append((ty, nm, attrs))
                if t.accept(')'): break
                t.expect(',')
        m = re.search(r'!dbg !(\d+)', self.header)
        self.dbg = int(m.group(1)) if m else None
        self.blocks = {}
        self.order = []
        cur = None
        pending = None
        i = 0
        L = self.lines
        while i < len(L):
            s = L[i].strip(); i += 1
            if not s or s[0] == ';': continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', s)
            if m:
                cur = '%' + m.group(1)
                self.blocks[cur] = []; self.order.append(cur)
                continue
            if cur is None:
                cur = '%' + str(n)      # implicit entry label
                self.blocks[cur] = []; self.order.append(cur)
            if s.startswith('switch') and '[' in s and ']' not in s[s.rindex('['):]:
                while ']' not in L[i]:
                    s += ' ' + L[i].strip(); i += 1
                s += ' ' + L[i].strip(); i += 1
            if re.match(r'^(%\S+ = )?invoke', s) and 'unwind label' not in s:
                s += ' ' + L[i].strip(); i += 1
            if 'landingpad' in s:
                while i < len(L) and re.match(r'^\s+(catch|cleanup|filter)', L[i]):
                    s += ' ' + L[i].strip(); i += 1
            if ' = landingpad' in s:
                ins = Inst('landingpad', s.split(' ')[0], VOID, (), None, s)
            else:
                ins = parse_inst(s)
            if ins is not None:
                ins.fn = self; ins.blk = cur
                self.blocks[cur].append(ins)
        self.entry = self.order[0]
        self.index = {b: i for i, b in enumerate(self.order)}
        self._ipdom = None
    # successor lists / post-dominators (normal control flow only)
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'jmp': return [t.extra]
        if t.op == 'br': return list(t.extra)
        if t.op == 'switch': return [t.extra[0]] + [x for _, x in t.extra[1]]
        if t.op == 'call' and t.extra[1]: return [t.extra[1]]
        return []
    def ipdom(self):
        if self._ipdom is not None: return self._ipdom
        import collections
        EXIT = '<exit>'
        nodes = self.order + [EXIT]
        succ = {}
        for b in self.order:
            t = self.blocks[b][-1]
            s = self.succs(b)
            if t.op == 'ret': s = [EXIT]
            succ[b] = s
        # blocks that cannot reach exit (throw) are ignored
        pred = collections.defaultdict(list)
        for b in self.order:
            for s in succ[b]: pred[s].append(b)
        reach = {EXIT}; st = [EXIT]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in reach: reach.add(p); st.append(p)
        order = []; seen = set()
        st = [(EXIT, iter(pred[EXIT]))]; seen.add(EXIT)
        while st:
            x, it = st[-1]
            for p in it:
                if p not in seen:
                    seen.add(p); st.append((p, iter(pred[p]))); break
            else:
                order.append(x); st.pop()
        rpo = list(reversed(order)); num = {b: i for i, b in enumerate(rpo)}
        idom = {EXIT: EXIT}
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == EXIT: continue
                new = None
                for s in succ[b]:
                    if s in idom and s in reach:
                        new = s if new is None else inter(new, s)
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        self._ipdom = idom
        return idom

class Module:
    def __init__(self):
        self.functions = {}
        self.globals = {}     # name -> (type, init operand or None, constant?, line)
        self.types = {}
        self.declares = set()
        self.md = {}
        self.ctors = []
        self.demangled = {}
        self.aliases = {}
        self.ifuncs = {}
        self.attrs = {}
        self._szc = {}
    def load(self, path):
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0; n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', s)
                nm = m.group(1).strip('"')
                self.functions[nm] = Function(nm, s.rstrip('{ '), lines[i+1:j], self)
                i = j + 1; continue
            if s.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', s)
                self.declares.add(m.group(1).strip('"'))
            elif s.startswith('@'):
                self._global(s)
            elif s.startswith('attributes #'):
                k, v = s[len('attributes '):].split(' = ', 1); self.attrs[k] = v
            elif s.startswith('%') and ' = type ' in s:
                k, v = s.split(' = type ', 1)
                self.types[k] = v
            elif s.startswith('!') and ' = ' in s:
                k, v = s.split(' = ', 1)
                if k[1:].isdigit(): self.md[int(k[1:])] = v
            i += 1
        return self
    def _global(self, s):
        m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', s)
        nm = m.group(1).strip('"'); rest = m.group(2)
        t = Toks(rest.split(', !dbg')[0])
        tl = 'thread_local' in rest[:80]
        kind = None
        while True:
            v = t.peek()
            if v in ('global', 'constant', 'alias', 'ifunc'):
                kind = t.next(); break
            if v is None: return
            t.i += 1
            if t.peek() == '(': skip_parens(t)
        if kind == 'ifunc':
            m2 = re.search(r'ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
            self.ifuncs[nm] = m2.group(1).strip('"'); return
        if kind == 'alias':
            m2 = re.search(r'ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
            self.aliases[nm] = m2.group(1).strip('"'); return
        ty = parse_type(t)
        init = None
        if not t.done() and t.peek() != ',' and not (t.peekk() == 'word' and t.peek() in ('section', 'comdat', 'align', 'partition')):
            init = parse_value(t, ty)
        if nm == 'llvm.global_ctors':
            for ety, e in init[1]:
                self.ctors.append((e[1][0][1][1], e[1][1][1][1]))
            return
        ext = ' external ' in (' ' + rest[:60])
        self.globals[nm] = (ty, init, kind == 'constant', ext, tl)
    def named(self, name):
        t = self.types.get(name)
        if isinstance(t, str):
            t = parse_type(Toks(t)) if t != 'opaque' else ('o', 'opaque')
            self.types[name] = t
        return t
    def align(self, ty):
        k = ty[0]
        if k == 'i':
            n = ty[1]
            if n <= 8: return 1
            if n <= 16: return 2
            if n <= 32: return 4
            if n <= 64: return 8
            return 16
        if k == 'p': return 8
        if k == 'f': return {32: 4, 64: 8, 80: 16}[ty[1]]
        if k == 'a': return self.align(ty[2])
        if k == 's':
            if ty[2]: return 1
            return max([1] + [self.align(e) for e in ty[1]])
        if k == 'n': return self.align(self.named(ty[1]))
        if k == 'x': return self.size(ty)
        return 1
    def size(self, ty):
        r = self._szc.get(ty)
        if r is None:
            r = self._szc[ty] = self._size(ty)
        return r
    def _size(self, ty):
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            if ty[1] > 64: return (n + 15) // 16 * 16
            p = 1
            while p < n: p *= 2
            return p
        if k == 'p': return 8
        if k == 'f': return {32: 4, 64: 8, 80: 16}[ty[1]]
        if k == 'a': return ty[1] * self.size(ty[2])
        if k == 's': return self.layout(ty)[1]
        if k == 'n': return self.size(self.named(ty[1]))
        if k == 'x': return ty[1] * self.size(ty[2])
        if k == 'v': return 0
        raise IRError("size of %r" % (ty,))
    def layout(self, ty):
        while ty[0] == 'n': ty = self.named(ty[1])
        key = ('L', ty)
        r = self._szc.get(key)
        if r is None:
            offs = []; o = 0
            for e in ty[1]:
                if not ty[2]:
                    a = self.align(e); o = (o + a - 1) // a * a
                offs.append(o); o += self.size(e)
            if not ty[2]:
                a = self.align(ty); o = (o + a - 1) // a * a
            r = self._szc[key] = (offs, o)
        return r
    def resolve(self, ty):
        while ty[0] == 'n': ty = self.named(ty[1])
        return ty
    def demangle(self):
        names = list(self.functions) + list(self.declares) + list(self.globals) + list(self.ifuncs)
        p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True, check=True)
        for a, b in zip(names, p.stdout.split('\n')):
            self.demangled[a] = b
        self.bydem = {}
        for a, b in self.demangled.items():
            self.bydem.setdefault(b, a)
    def where(self, dbg):
        """file:line of a !dbg id"""
        if dbg is None or dbg not in self.md: return '?'
        s = self.md[dbg]
        m = re.search(r'line: (\d+)', s); line = m.group(1) if m else '?'
        seen = 0
        cur = s
        while seen < 20:
            seen += 1
            m = re.search(r'file: !(\d+)', cur)
            if m:
                f = self.md[int(m.group(1))]
                fn = re.search(r'filename: "([^"]*)"', f).group(1)
                return '%s:%s' % (fn.replace('/repo/', ''), line)
            m = re.search(r'scope: !(\d+)', cur)
            if not m: return '?:' + line
            cur = self.md[int(m.group(1))]
        return '?:' + line
