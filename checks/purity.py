"""H03: no mutable shared state. Rules over the typed syntax tree (constness of every static variable, casts that
remove const, initialisers of local statics) and over the IR (uses of writable globals, external calls, initialisation order)."""
from engine.util import *
from engine import build
from engine.interp import *
import json, re, glob, os, subprocess
from engine.wutil import load_portable
from checks.dispatch import refs

HANDLE = re.compile(r'\b(unique_ptr|shared_ptr|weak_ptr|reference_wrapper|atomic|mutex|once_flag|condition_variable)\b')
IMPURE = re.compile(r'^(rand|random|srand|srandom|rand_r|drand48|lrand48|arc4random\w*|getrandom|getentropy|time|clock|clock_gettime|gettimeofday|times|getenv|secure_getenv|getpid|gettid|pthread_self|sched_getcpu|read|open|fopen|fread|strtok|localtime|gmtime|strerror|setenv|putenv|__rdtsc|std::random_device.*|std::chrono::.*|std::this_thread::.*|std::locale::global.*)$')

class Ast:
    def __init__(self, flags=()):
        self.vars = {}       # mangled name -> node
        self.locals = []     # (function name, static local node)
        self.byid = {}       # (file, id) -> VarDecl/ParmVarDecl
        self.casts = []; self.mutable = []; self.nodes = 0; self.files = []
        srcs = sorted(glob.glob(build.REPO + '/src/*.cpp'))
        procs = [(s, subprocess.Popen([build.LLVM + 'clang++', '-std=c++20', '-I' + build.REPO + '/include', '-I' + build.REPO + '/src', '-w', '-fsyntax-only', *flags,
                                       '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=bls12_381', s], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)) for s in srcs]
        for s, p in procs:
            out, err = p.communicate()
            if p.returncode: raise build.BuildError('clang failed on %s:\n%s' % (s, err[-1500:]))
            self.read(os.path.basename(s), out)
    def read(self, tag, s):
        d = json.JSONDecoder(); i = 0; docs = []
        while i < len(s):
            while i < len(s) and s[i].isspace(): i += 1
            if i >= len(s): break
            if s[i] != '{': i = s.index('\n', i) + 1; continue
            o, i = d.raw_decode(s, i); docs.append(o)
        self.files.append(tag)
        loc = ['?', 0]
        def place(x):
            for k in (x.get('loc'), (x.get('range') or {}).get('begin')):
                if not k: continue
                k = k.get('expansionLoc', k)
                if 'file' in k: loc[0] = k['file'].replace(build.REPO + '/', '')
                if 'line' in k: loc[1] = k['line']
            return '%s:%d' % tuple(loc)
        def walk(x, fn_):
            if not isinstance(x, dict): return
            self.nodes += 1
            w = place(x); k = x.get('kind'); x['_w'] = w
            if k in ('VarDecl', 'ParmVarDecl'): self.byid[(tag, x['id'])] = x
            if k == 'VarDecl':
                if 'mangledName' in x: self.vars.setdefault(x['mangledName'], x)
                if fn_ and x.get('storageClass') == 'static' or x.get('tls'): self.locals.append((tag, fn_, x))
            if k == 'FieldDecl' and x.get('mutable'): self.mutable.append((w, x.get('name')))
            if k in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr') and removes_const(x): self.casts.append((w, fn_))
            if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'LambdaExpr'): fn_ = x.get('name') or fn_
            for y in x.get('inner', ()): walk(y, fn_)
        for o in docs: walk(o, None)
def typ(x):
    t = x.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''
def pointee(t, category=None):
    """type reached through one pointer or reference; None when there is none"""
    t = t.strip()
    t = re.sub(r'\s*(const|volatile|restrict|__restrict)$', '', t) if '*' in t else t
    if t.endswith('&&'): return t[:-2].strip()
    if t.endswith('&') or t.endswith('*'): return t[:-1].strip()
    return None
def is_const(t):
    """object of this type cannot change"""
    t = re.sub(r'\[[^\]]*\]', '', t).strip()
    p = pointee(t)
    if p is not None:
        if not t.endswith('&') and not t.endswith('const'): return False
        return is_const(p)
    return t.startswith('const ') or t.endswith(' const')
def strip_implicit(x):
    while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and x.get('inner'): x = x['inner'][-1]
    return x
def removes_const(x):
    if not x.get('inner'): return False
    src = strip_implicit(x['inner'][-1])
    to, frm = typ(x), typ(src)
    if x.get('valueCategory') == 'lvalue':
        return is_const(frm) and not is_const(to) and x.get('kind') != 'CXXFunctionalCastExpr' and '*' not in to
    p, q = pointee(to), pointee(frm)
    if q is None and frm.endswith(']'): q = re.sub(r'\s*\[[^\]]*\]$', '', frm)
    if p is None or q is None or '(' in to: return False
    return is_const(q) and not is_const(p)

def depends(ast, tag, x, bound, depth=0):
    """parameters and changing local variables an expression depends on"""
    out = []
    def decls(n):
        if not isinstance(n, dict): return
        if n.get('kind') in ('VarDecl', 'ParmVarDecl'): bound.add(n['id'])
        for y in n.get('inner', ()): decls(y)
    decls(x)
    def go(n):
        if not isinstance(n, dict): return
        k = n.get('kind')
        if k == 'CXXThisExpr' and not bound & {'this'}: out.append('*this')
        if k == 'DeclRefExpr':
            r = n.get('referencedDecl') or {}
            if r.get('id') not in bound:
                if r.get('kind') == 'ParmVarDecl': out.append(r.get('name'))
                elif r.get('kind') in ('VarDecl', 'BindingDecl'):
                    d = ast.byid.get((tag, r.get('id')))
                    if r.get('kind') == 'BindingDecl': out.append(r.get('name'))
                    elif d is not None and 'mangledName' not in d and not d.get('constexpr') and d.get('storageClass') != 'static':
                        if not is_const(typ(d)) or depth > 8 or depends(ast, tag, d, set(bound), depth + 1): out.append(r.get('name'))
        for y in n.get('inner', ()): go(y)
    for y in x.get('inner', ()): go(y)
    return out

def statics(rep, ast):
    """local statics are initialised independently of the call that first reaches them"""
    n = 0
    for tag, fn_, x in ast.locals:
        n += 1
        d = depends(ast, tag, x, set())
        if d: raise Violation('the static variable %s of %s is initialised from %s, so later calls see the first call\'s value' % (x.get('name'), fn_, ', '.join(sorted(set(map(str, d))))), x['_w'])
    rep.count('local_statics', n)
def thread_safe(flags=()):
    pass
def variables(rep, ast, m):
    """every variable with static storage is constant, or is never written or handed out after initialisation"""
    init = set()
    for _, f in m.ctors: reach(m, f, init)
    run = live(m)
    n = 0
    for g, (ty, iv, const, ext, tl) in m.globals.items():
        if const or g.startswith(('_ZGV', 'llvm.', '_ZTV', '_ZTI', '_ZTS', '_ZTT')) or g == '__dso_handle': continue
        n += 1
        x = ast.vars.get(re.sub(r'B5cxx11(?=E?$)', '', g)) or ast.vars.get(g)
        name = m.demangled.get(g, g)
        t = typ(x) if x else ''
        if x is not None and is_const(t) and not HANDLE.search(t) and not x.get('tls'): continue
        if ext and x is None and not name.startswith('bls12_381'):
            continue                  # variables of the platform are covered by the rule on external state
        kind = 'thread-local variable' if tl or (x and x.get('tls')) else 'variable'
        for f in run:
            if m.functions[f].name not in m.functions: continue
            F = m.functions[f]; F.parse()
            for r, i in refs(m, F):
                if r != g: continue
                if only_loaded(F, g): continue
                where = m.where(i.dbg) or (x['_w'] if x else '')
                raise Violation('the %s %s is not constant and is written, or its address is passed on, in %s' % (kind, name, m.demangled.get(f, f).split('(')[0]), '%s (%s)' % (where, name))
    rep.count('static_variables', n)
def only_loaded(F, g):
    """all mentions of g in F are loads (possibly through address arithmetic)"""
    from checks.arith import operands
    der = set(); chg = True
    while chg:
        chg = False
        for b in F.order:
            for i in F.blocks[b]:
                hit = any((v[0] == 'g' and v[1] == g) or (v[0] == 'l' and v[1] in der) for v in operands(i))
                if not hit: continue
                if i.op == 'load': continue
                if i.op == 'gep' and i.res:
                    if i.res not in der: der.add(i.res); chg = True
                    continue
                if i.op == 'icmp': continue
                return False
    return True
def reach(m, f, seen):
    if f in seen or f not in m.functions: return
    seen.add(f)
    for r, i in refs(m, m.functions[f]):
        if r in m.functions: reach(m, r, seen)
def live(m):
    """every function that is not part of static initialisation only"""
    init = {f for _, f in m.ctors}
    for _, f in m.ctors:
        for r, i in refs(m, m.functions[f]):
            if r.startswith('__cxx_global_var_init') or r.startswith('_GLOBAL__'): init.add(r)
    return [f for f in m.functions if f not in init]
def externals(rep, m):
    """no call to functions whose result depends on anything but their arguments"""
    sel = set(m.ifuncs.values())
    clo = set()
    for s in sel: reach(m, s, clo)
    n = 0
    for f in live(m):
        if f in clo: continue
        for r, i in refs(m, m.functions[f]):
            if r in m.functions or r.startswith('llvm.'):
                if r in ('llvm.readcyclecounter', 'llvm.x86.rdrand.64', 'llvm.x86.rdrand.32', 'llvm.x86.rdseed.64', 'llvm.x86.rdtsc', 'llvm.x86.rdtscp', 'llvm.get.rounding'): raise Violation('the result depends on %s' % r, '%s (%s)' % (m.where(i.dbg), m.demangled.get(f, f).split('(')[0]))
                continue
            n += 1
            d = m.demangled.get(r, r)
            if IMPURE.match(d.split('(')[0]) : raise Violation('calls %s, whose result does not depend on its arguments alone' % d.split('(')[0], '%s (%s)' % (m.where(i.dbg), m.demangled.get(f, f).split('(')[0]))
            if r in m.globals and m.globals[r][3] and not m.globals[r][2] and r not in ('__dso_handle', '__stack_chk_guard') and not r.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZTT', '_ZSt', '_ZNSt')):
                raise Violation('uses the external variable %s' % d, '%s (%s)' % (m.where(i.dbg), m.demangled.get(f, f).split('(')[0]))
    rep.count('external_references', n)
P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
RI = pow(1 << 384, -1, P)
def primitives(it):
    """base-field routines on the known values static initialisers have"""
    def num(it, st, p):
        ws = [it.load_bytes(st, Ptr(p.obj, p.off + 8 * i), 8) for i in range(6)]
        if any(w is UNDEF for w in ws): raise Violation('a static initialiser computes with a variable that is not initialised yet', it.where())
        if not all(isinstance(w, int) for w in ws): raise AnalysisError('static initialiser computes with an unknown value at %s' % it.where())
        return sum(w << (64 * i) for i, w in enumerate(ws))
    def mk(f, n):
        def h(it, st, a):
            v = f(*[num(it, st, q) for q in a[1:1 + n]])
            for i in range(6): it.store_bytes(st, Ptr(a[0].obj, a[0].off + 8 * i), 8, v >> (64 * i) & (1 << 64) - 1)
        return h
    F, C = 'bls12_381::fp*', 'bls12_381::fp const*'
    for n, f in (('_add', lambda x, y: (x + y) % P), ('_ladd', lambda x, y: x + y), ('_subtract', lambda x, y: (x - y) % P), ('_lsubtract', lambda x, y: x - y),
                 ('_multiply', lambda x, y: x * y * RI % P), ('__multiply', lambda x, y: x * y * RI % P), ('__mul_ex', lambda x, y: x * y * RI % P)):
        it.handlers['bls12_381::%s(%s, %s, %s)' % (n, F, C, C)] = mk(f, 2)
    for n, f in (('_double', lambda x: 2 * x % P), ('_ldouble', lambda x: 2 * x), ('_negate', lambda x: -x % P), ('__negate', lambda x: -x % P), ('_square', lambda x: x * x * RI % P)):
        it.handlers['bls12_381::%s(%s, %s)' % (n, F, C)] = mk(f, 1)
    return it
def order(rep, m):
    """the initialiser of one source file does not use variables initialised by another one"""
    it = primitives(Interp(m, Domain())); it.gstate.log = []
    own = {}
    st = it.gstate
    for _, f in m.ctors:
        it.global_writes = []
        rs = it.call(st, f, [])
        if len(rs) != 1: raise AnalysisError('static initialiser partitions')
        st = rs[0][0]; own[f] = {n for n, _ in it.global_writes}
    rep.absorb(it)
    def value(it, st, g):
        p = it.global_ptr(st, g); return {k: v for k, v in st.mem[p.obj].cells.items()}
    for _, f in m.ctors:
        jt = primitives(Interp(m, Domain())); s = jt.gstate
        # order of initialisation between source files is open: the other files' variables are not yet set
        for h in own:
            if h == f: continue
            for g in own[h] - own[f]:
                g = [x for x in m.globals if x == g or m.demangled.get(x, x) == g][0]
                p = jt.global_ptr(s, g); o = s.wobj(p.obj); o.cells = {}
        try: rs = jt.call(s, f, [])
        except AnalysisError as e: raise Violation('static initialisation of %s computes with a variable that another source file initialises (%s)' % (f.replace('_GLOBAL__sub_I_', ''), e), f)
        except Violation as e: raise Violation('static initialisation of %s uses a variable that another source file initialises (%s)' % (f.replace('_GLOBAL__sub_I_', ''), e.msg), e.where)
        for g in own[f]:
            g = [x for x in m.globals if x == g or m.demangled.get(x, x) == g][0]
            a, b = value(it, st, g), value(jt, rs[0][0], g)
            if any(v[1] is UNDEF for v in b.values()) and not any(v[1] is UNDEF for v in a.values()):
                raise Violation('%s is initialised from a variable that another source file initialises' % m.demangled.get(g, g), f)
        rep.absorb(jt)
def sections(rep):
    """assembly sources define no writable data"""
    n = 0
    for f in sorted(glob.glob(build.REPO + '/src/*.s') + glob.glob(build.REPO + '/src/*.S')):
        o = os.path.join(build.scratch(), os.path.basename(f) + '.sec.o')
        r = subprocess.run([build.LLVM + 'clang', '-c', f, '-o', o], capture_output=True, text=True)
        if r.returncode: raise build.BuildError(r.stderr[-500:])
        d = subprocess.run([build.LLVM + 'llvm-objdump', '-h', o], capture_output=True, text=True).stdout
        for l in d.splitlines():
            q = l.split()
            if len(q) >= 4 and q[0].isdigit() and re.match(r'\.(data|bss|tdata|tbss)(\.|$)', q[1]):
                n += 1
                if int(q[2], 16): raise Violation('assembly source defines writable data (section %s)' % q[1], os.path.basename(f))
    rep.count('assembly_sections', n)
def run_H03(rep):
    rep.explanation = 'every variable with static storage must be constant or never written outside static initialisation; no cast removes const and no member is mutable, so the type system keeps constant inputs unchanged; local statics are initialised independently of the call; no call to functions with hidden inputs; file initialisers do not depend on each other'
    rep.assumptions += ['reads of data that was never written are covered by H01; assembly routines write nothing but their result (H04)', 'constant objects hold no hidden mutable parts beyond the handle types listed', 'the process environment is read only by the load-time selection of the multiplication, whose alternatives compute the same function (A01)']
    ast = Ast(); m = build.load()
    if len(ast.vars) < 5: raise AnalysisError('anchor vanished: no static variables in the syntax tree')
    rep.count('syntax_nodes', ast.nodes); rep.count('functions_in_ir', len(m.functions))
    for f in m.functions:
        d = m.demangled.get(f, f)
        if d.startswith('bls12_381'): rep.functions.add(d)
    def casts():
        if ast.mutable: raise Violation('member %s is mutable' % ast.mutable[0][1], ast.mutable[0][0])
        if ast.casts: raise Violation('a cast removes const in %s' % ast.casts[0][1], ast.casts[0][0])
    rep.run('static variables are constant or never written', lambda: variables(rep, ast, m), 'include/bls12-381, src')
    rep.run('local statics do not depend on the call', lambda: statics(rep, ast), 'src')
    rep.run('constant inputs stay unchanged', casts, 'src')
    rep.run('no hidden inputs', lambda: externals(rep, m), 'src')
    rep.run('initialisation order', lambda: order(rep, m), 'src')
    rep.run('assembly holds no state', lambda: sections(rep), 'src')
    def portable():
        mp = load_portable(); variables(rep, ast, mp); externals(rep, mp)
    rep.run('portable build', portable, 'src/arithmetic.cpp')
