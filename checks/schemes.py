"""G01 / G02: signature schemes over the protocol-level domain."""
import itertools, sys
from engine import build
from engine.proto import *

TAG = b'BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_'
POPTAG = b'BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_'

def msg(n, i=0):
    return Bt(T(n, 'message%d' % i)) if n else B([])
def hpoint(c, tag): return {T(288, 'H', c, Bc(tag)): {(): 1}}
def gt(*pairs):
    form = {}
    for k, f1, f2 in pairs:
        for x, px in f1.items():
            for y, py in f2.items():
                q = p_mul(px, py)
                form[(x, y)] = p_add(form.get((x, y), {}), q, k)
    return f_norm(form)
G1F = {G1A: {(): 1}}; G2F = {G2A: {(): 1}}

def valid(pr, g, f):
    """conditions for a point to be a member of the group"""
    if all(atom_order_r(t) for t in f): return []
    return [('isOnCurve', g, f_key(f)), ('inCorrectSubgroup', g, f_key(f))]

def bool_atoms(key, acc):
    if key[0] == 'and':
        for k, _ in key[1:]: bool_atoms(k, acc)
    else: acc.add(key)
def bool_eval(key, asg):
    if key[0] == 'and': return all(bool_eval(k, asg) != neg for k, neg in key[1:])
    return asg[key]

def canon(pr, rs, key):
    """simplify zero / gt keys; -> (key or None, constant)"""
    if key[0] in ('zero', 'gt'):
        f = apply_rules(f_un(key[1]), rs)
        c = pr.zero(None, f) if key[0] == 'zero' else pr.gtcond(f)
        if type(c) is int: return None, bool(c)
        return c.key, None
    if key[0] == 'and':
        out = []
        for k, neg in key[1:]:
            k2, v = canon(pr, rs, k)
            if k2 is None:
                if v == neg: return None, False
            else: out.append((k2, neg))
        if not out: return None, True
        return ('and',) + tuple(out), None
    return key, None

def verdict(pr, st, ret, spec, gtform, extra=None):
    """None when 'ret' equals (all spec conditions and gtform == 0) on this path, else an explanation"""
    rs = rules(st.facts)
    facts = {}
    comp = []
    for k, v in st.facts.items():
        if k[0] in ('ord', 'cmp'): continue
        k2, c = canon(pr, rs, k) if k[0] == 'gt' or k[0] == 'and' else (k, None)
        if k2 is None: continue
        if k2[0] == 'and': comp.append((k2, v))
        else: facts[k2] = v
    conj = list(spec)
    g = pr.gtcond(apply_rules(gtform, rs)) if gtform is not None else 1
    if type(g) is int:
        if not g: conj.append(('false',))
    else: conj.append(g.key)
    if extra is False: conj.append(('false',))
    facts[('false',)] = False; facts[('true',)] = True
    if type(ret) is int: rk, rneg, rc = None, False, bool(ret & 1)
    elif isinstance(ret, Cond):
        rk, rc = canon(pr, rs, ret.key); rneg = ret.neg
        if rk is None: rc = rc != rneg
    else: raise AnalysisError('result %r' % (ret,))
    sval = None
    if any(facts.get(k) is False for k in conj): sval = False
    elif all(facts.get(k) is True for k in conj): sval = True
    atoms = set()
    if rk is not None: bool_atoms(rk, atoms)
    if sval is None:
        for k in conj: bool_atoms(k, atoms)
        for k, _ in comp: bool_atoms(k, atoms)
    free = [a for a in atoms if a not in facts]
    if len(free) > 14: raise AnalysisError('too many open conditions')
    for bits in itertools.product((False, True), repeat=len(free)):
        asg = dict(facts); asg.update(zip(free, bits))
        if any(all(a in asg for a in bool_set(k)) and bool_eval(k, asg) != v for k, v in comp): continue
        r = rc if rk is None else bool_eval(rk, asg) != rneg
        s = sval if sval is not None else all(bool_eval(k, asg) for k in conj)
        if r != s:
            miss = [show(k) for k in conj if not asg.get(k, True)]
            if r: return 'accepts although %s' % ('; '.join(miss) or 'the specification rejects') + ' [not established on this path]'
            return 'rejects (path facts: %s) although all validity checks and the pairing equation %s can hold' % ('; '.join(('' if v else '!') + show(k) for k, v in list(facts.items())[:6]), show(f_key(gtform or {})))
    return None
def bool_set(k):
    s = set(); bool_atoms(k, s); return s

class S:
    def __init__(self, rep):
        m = build.load()
        self.m = m
        self.rep = rep
    def pr(self):
        return Proto(self.m)

def dups(st, contents):
    """(some pair of contents certainly equal, all pairs certainly different) under the order facts"""
    eq = False; alld = True
    for i in range(len(contents)):
        for j in range(i):
            a, b = contents[i], contents[j]
            if a == b: eq = True; alld = False; continue
            if a.n != b.n: continue
            v = order_lookup(st.facts, a, b)
            rel = [v] if v is not None else [-1, 0, 1]
            for k, v in st.facts.items():
                if k[0] == 'eq' and set(k[1:]) == {strip_zero(a), strip_zero(b)}: rel = [0] if v else [1]
            if rel == [0]: eq = True; alld = False
            elif 0 in rel: alld = False
    return eq, alld

def span_args(p, n): return [p, n]

def run_agg(s, n, nm, flag, lens=None, same_msg=(), same_key=(), preassume=False, perm=None):
    pr = s.pr(); it = pr.it; st = pr.new()
    keys = [in_point('g1', 'key%d' % (i if i not in same_key else 0)) for i in range(n)]
    sig = in_point('g2', 'sig')
    msgs = [msg((lens or [8] * nm)[i], i if i not in same_msg else 0) for i in range(nm)]
    if preassume:
        pr.dom.assume_hook = lambda k: {'isOnCurve': True, 'inCorrectSubgroup': True, 'zero': False}.get(k[0])
    if n:
        kp = it.new_obj(st, 144 * n, 'arg', 'keys')
        for i, k in enumerate(keys): it.store_bytes(st, Ptr(kp.obj, 144 * i), 144, point('g1', k))
        st.mem[kp.obj].ro = True
    else: kp = NULL
    mp = pr.vec_bytes(st, msgs) if nm else NULL
    sp = pr.point_arg(st, 'g2', sig, 'signature')
    outs = pr.call(st, 'bls12_381::aggregate_verify(', [kp, n, mp, nm, sp, int(flag)])
    if not outs: return 'no path returns'
    s.rep.count('paths', len(outs))
    spec = valid(pr, 'g2', sig)
    for k in keys[:nm] if n == nm else []: spec += valid(pr, 'g1', k)
    form = gt((-1, G1F, sig), *[(1, k, hpoint(m, TAG)) for k, m in zip(keys, msgs)])
    for st2, ret in outs:
        extra = None
        if n != nm: extra = False
        elif flag:
            eq, alld = dups(st2, msgs)
            if eq: extra = False
            elif not alld and n:
                # undecided duplicates only matter on accepting paths
                if verdict(pr, st2, ret, spec + [('false',)], form) is None: continue
                return 'can accept without having compared all messages for duplicates'
        r = verdict(pr, st2, ret, spec, form, extra)
        if r:
            if extra is False and r.startswith('accepts'):
                return ('number of keys (%d) and messages (%d) differ' % (n, nm) if n != nm else 'a repeated message was submitted with duplicate detection requested') + ': ' + r
            return r
    s.rep.absorb(it)
    if pr.dom.throws: return 'can throw at %s' % pr.dom.throws[0][1]

def run_verify(s, fname, mk, spec_of):
    pr = s.pr(); st = pr.new()
    args, spec, form = mk(pr, st)
    outs = pr.call(st, fname, args)
    if not outs: return 'no path returns'
    s.rep.count('paths', len(outs))
    for st2, ret in outs:
        r = verdict(pr, st2, ret, spec, form)
        if r: return r
    s.rep.absorb(pr.it)
    if pr.dom.throws: return 'can throw at %s' % pr.dom.throws[0][1]

def run_G01(rep):
    s = S(rep)
    rep.explanation = 'every path of every verification function over symbolic keys, signatures and messages: the returned truth value is compared with the conjunction of the validity checks and the pairing equation'
    rep.assumptions += ['isOnCurve, inCorrectSubgroup, isZero, the pairing and hash-to-curve are taken as their specifications (C03, C01, E01, F02)',
                        'lists are analysed for the lengths named in the obligations (0-3 with all partitions, 300 with all checks assumed to pass)',
                        'fast aggregation checks the aggregate key; validity of the individual keys is established by their proofs of possession (caller)']
    import sys; sys.setrecursionlimit(20000)
    V = 'bls12_381::verify('; W = s.pr().where
    jobs = []
    def job(name, where, f): jobs.append(lambda r: (setattr(s, 'rep', r), r.run(name, f, where)))
    for ln in (0, 1, 40, 5000):
        def mk(pr, st, ln=ln):
            k = in_point('g1', 'key'); sg = in_point('g2', 'sig'); m = msg(ln)
            mp = pr.buf(st, m, 'message') if ln else NULL
            return [pr.point_arg(st, 'g1', k), mp, ln, pr.point_arg(st, 'g2', sg)], valid(pr, 'g1', k) + valid(pr, 'g2', sg), gt((-1, G1F, sg), (1, k, hpoint(m, TAG)))
        job('verify, %d byte message' % ln, W(V), lambda mk=mk: run_verify(s, V, mk, None))
    PV = 'bls12_381::pop_verify('
    def mkp(pr, st):
        k = in_point('g1', 'key'); sg = in_point('g2', 'proof')
        m = Bt(T(96, 'toAffineBytesLE', 'g1', f_key(k), 1))
        return [pr.point_arg(st, 'g1', k), pr.point_arg(st, 'g2', sg)], valid(pr, 'g1', k) + valid(pr, 'g2', sg), gt((-1, G1F, sg), (1, k, hpoint(m, POPTAG)))
    job('pop_verify', W(PV), lambda: run_verify(s, PV, mkp, None))
    FV = 'bls12_381::pop_fast_aggregate_verify('
    big = (300,) if rep.tier != 'thorough' else (300, 1000)
    for n in (0, 1, 2, 3, 4) + big:
        def mkf(pr, st, n=n):
            ks = [in_point('g1', 'key%d' % i) for i in range(n)]; sg = in_point('g2', 'sig'); m = msg(32)
            kp = NULL
            if n:
                kp = pr.it.new_obj(st, 144 * n, 'arg', 'keys')
                for i, k in enumerate(ks): pr.it.store_bytes(st, Ptr(kp.obj, 144 * i), 144, point('g1', k))
                st.mem[kp.obj].ro = True
            agg = {}
            for k in ks: agg = f_add(agg, k)
            spec = valid(pr, 'g1', agg) + valid(pr, 'g2', sg) if n else [('false',)]
            return [kp, n, pr.buf(st, m, 'message'), 32, pr.point_arg(st, 'g2', sg)], spec, gt((-1, G1F, sg), (1, agg, hpoint(m, TAG)))
        job('pop_fast_aggregate_verify, %d keys' % n, W(FV), lambda mkf=mkf: run_verify(s, FV, mkf, None))
    AV_ = 'bls12_381::aggregate_verify('
    N = 3
    for n in range(N + 1):
        for nm in range(N + 1):
            for flag in (False, True):
                job('aggregate_verify, %d keys, %d messages, duplicates %s' % (n, nm, 'refused' if flag else 'allowed'), W(AV_),
                    lambda n=n, nm=nm, flag=flag: run_agg(s, n, nm, flag))
    for flag in (False, True):
        job('aggregate_verify, repeated message, duplicates %s' % flag, W(AV_), lambda flag=flag: run_agg(s, 2, 2, flag, same_msg=(1,)))
        job('aggregate_verify, repeated message among three, duplicates %s' % flag, W(AV_), lambda flag=flag: run_agg(s, 3, 3, flag, same_msg=(2,)))
        job('aggregate_verify, repeated key, duplicates %s' % flag, W(AV_), lambda flag=flag: run_agg(s, 2, 2, flag, same_key=(1,)))
        job('aggregate_verify, messages of different lengths, duplicates %s' % flag, W(AV_), lambda flag=flag: run_agg(s, 3, 3, flag, lens=[0, 5, 9]))
        job('aggregate_verify, empty messages, duplicates %s' % flag, W(AV_), lambda flag=flag: run_agg(s, 2, 2, flag, lens=[0, 0]))
    for b in big:
        job('aggregate_verify, %d keys' % b, W(AV_), lambda b=b: run_agg(s, b, b, False, preassume=True))
    job('aggregate_verify, 257 keys, 1 message', W(AV_), lambda: run_agg(s, 257, 1, False, preassume=True))
    rep.parallel(jobs)

# ---------------------------------------------------------------- G02
def one(outs, what):
    if len(outs) != 1: raise AnalysisError('%s partitions into %d paths' % (what, len(outs)))
    return outs[0]
def calls(pr, sts, fname, args):
    """run one call on every state"""
    out = []
    for st in sts:
        for st2, ret in pr.call(st, fname, args): out.append(st2)
    if not out: raise Violation('no path of %s returns' % fname)
    return out
def run_fn(pr, st, name, args):
    return one(pr.call(st, name, args), name)[0]

def honest_sk(pr, st, i):
    c = var_scalar('sk%d' % i); return c, pr.buf(st, c, 'sk')
def out_point(pr, st, p, g): return pr.form(pr.it, st, p, g)

def run_G02(rep):
    s = S(rep)
    rep.explanation = 'signing and key functions are evaluated to linear forms in the generator and hash points; honest outputs are fed through every path of the verifiers'
    rep.assumptions += ['curve operations, pairing bilinearity and hash-to-curve are taken as their specifications (C01, C02, E01, F02)', 'secret keys are below the group order']
    W = s.pr().where; jobs = []
    def job(name, where, f): jobs.append(lambda r: (setattr(s, 'rep', r), r.run(name, f, where)))
    def pk():
        pr = s.pr(); st = pr.new(); c, p = honest_sk(pr, st, 0); o = pr.buf(st, 144, 'pk')
        sts = calls(pr, [st], 'bls12_381::public_key(', [o, p]); s.rep.absorb(pr.it)
        for st in sts:
          f = out_point(pr, st, o, 'g1')
          if not same_form(st.facts, f, {G1A: spoly(c)}): return 'public key is %s, not the secret-key multiple of the generator' % show(f_key(f))
    job('public_key', W('bls12_381::public_key('), pk)
    for ln in (0, 1, 40, 300, 70000):
        def sg(ln=ln):
            pr = s.pr(); st = pr.new(); c, p = honest_sk(pr, st, 0); o = pr.buf(st, 288, 'sig')
            m = msg(ln); mp = pr.buf(st, m, 'message') if ln else NULL
            sts = calls(pr, [st], 'bls12_381::sign(', [o, p, mp, ln]); s.rep.absorb(pr.it)
            want = f_scale(hpoint(m, TAG), spoly(c))
            for st in sts:
              f = out_point(pr, st, o, 'g2')
              if not same_form(st.facts, f, want): return 'signature is %s, expected %s' % (show(f_key(f)), show(f_key(want)))
        job('sign, %d byte message' % ln, W('bls12_381::sign('), sg)
    def pp():
        pr = s.pr(); st = pr.new(); c, p = honest_sk(pr, st, 0); o = pr.buf(st, 288, 'proof')
        sts = calls(pr, [st], 'bls12_381::pop_prove(', [o, p]); s.rep.absorb(pr.it)
        k = f_norm({G1A: spoly(c)})
        want = f_scale(hpoint(Bt(T(96, 'toAffineBytesLE', 'g1', f_key(k), 1)), POPTAG), spoly(c))
        for st in sts:
          f = out_point(pr, st, o, 'g2')
          if not same_form(st.facts, f, want): return 'proof is %s, expected %s' % (show(f_key(f)), show(f_key(want)))
    job('pop_prove', W('bls12_381::pop_prove('), pp)
    def tags():
        if TAG == POPTAG: return 'tags coincide'
        for nm, t in (('CIPHERSUITE_ID', TAG), ('POP_CIPHERSUITE_ID', POPTAG)):
            pr = s.pr(); st = pr.new()
            n = [d for d in pr.m.bydem if d.startswith('bls12_381::' + nm)]
            if len(n) != 1: raise AnalysisError('anchor vanished: ' + nm)
            q = pr.it.global_ptr(st, pr.m.bydem[n[0]])
            sp = pr.it.load_bytes(st, q, 8); sn = pr.it.load_bytes(st, Ptr(q.obj, q.off + 8), 8)
            c = pr.rd(pr.it, st, sp, sn).const()
            if c != t: return '%s is %r' % (nm, c)
    job('published tags', 'signatures.cpp', tags)
    def expect_true(pr, outs):
        for st2, ret in outs:
            if type(ret) is int and ret & 1: continue
            r = verdict(pr, st2, ret, [], {})
            if r: return 'honest output: ' + r
        if not outs: return 'no path returns'
        s.rep.count('paths', len(outs)); s.rep.absorb(pr.it)
    for ln in (0, 33):
        def hv(ln=ln):
            pr = s.pr(); st = pr.new(); c, p = honest_sk(pr, st, 0)
            o = pr.buf(st, 288, 'sig'); k = pr.buf(st, 144, 'pk'); m = msg(ln); mp = pr.buf(st, m, 'message') if ln else NULL
            sts = calls(pr, [st], 'bls12_381::public_key(', [k, p])
            sts = calls(pr, sts, 'bls12_381::sign(', [o, p, mp, ln])
            return expect_true(pr, [x for st in sts for x in pr.call(st, 'bls12_381::verify(', [k, mp, ln, o])])
        job('verify(public_key, sign), %d byte message' % ln, W('bls12_381::verify('), hv)
    def hp():
        pr = s.pr(); st = pr.new(); c, p = honest_sk(pr, st, 0)
        o = pr.buf(st, 288, 'proof'); k = pr.buf(st, 144, 'pk')
        sts = calls(pr, [st], 'bls12_381::public_key(', [k, p])
        sts = calls(pr, sts, 'bls12_381::pop_prove(', [o, p])
        return expect_true(pr, [x for st in sts for x in pr.call(st, 'bls12_381::pop_verify(', [k, o])])
    job('pop_verify(public_key, pop_prove)', W('bls12_381::pop_verify('), hp)
    for n in (1, 2, 3):
        for fast in (False, True):
            for flag in ((False, True) if not fast else (False,)):
                def ha(n=n, fast=fast, flag=flag):
                    pr = s.pr(); st = pr.new(); it = pr.it
                    ks = pr.buf(st, 144 * n, 'keys'); sg = pr.buf(st, 288 * n, 'sigs'); agg = pr.buf(st, 288, 'aggregate')
                    ms = [msg(20, 0 if fast else i) for i in range(n)]
                    if fast: ms = [ms[0]] * n
                    mp = pr.vec_bytes(st, ms)
                    sk = [honest_sk(pr, st, i)[1] for i in range(n)]
                    mps = [it.load_bytes(st, Ptr(mp.obj, 24 * i), 8) for i in range(n)]
                    sts = [st]
                    for i in range(n):
                        sts = calls(pr, sts, 'bls12_381::public_key(', [Ptr(ks.obj, 144 * i), sk[i]])
                        sts = calls(pr, sts, 'bls12_381::sign(', [Ptr(sg.obj, 288 * i), sk[i], mps[i], 20])
                    sts = calls(pr, sts, 'bls12_381::aggregate_signatures(', [agg, sg, n])
                    if fast:
                        return expect_true(pr, [x for st in sts for x in pr.call(st, 'bls12_381::pop_fast_aggregate_verify(', [ks, n, mps[0], 20, agg])])
                    outs = [x for st in sts for x in pr.call(st, 'bls12_381::aggregate_verify(', [ks, n, mp, n, agg, int(flag)])]
                    if flag: outs = [(a, b) for a, b in outs if not dups(a, ms)[0]]
                    return expect_true(pr, outs)
                job('honest %s of %d, duplicates %s' % ('fast aggregate' if fast else 'aggregate', n, 'refused' if flag else 'allowed'), W('bls12_381::aggregate_verify('), ha)
    rep.parallel(jobs)
