"""C02: scalar and multi-scalar multiplication; exponentiation loops (also used by A03 and B01)."""
from engine.util import *
from engine import build
from engine.group import *
import re, os

HERE = os.path.dirname(os.path.abspath(__file__))
def load(): return build.load(extra_sources=[os.path.join(HERE, 'inst.cpp')])

def words_ptr(it, st, ws, name='scalar'):
    p = it.new_obj(st, max(1, 8 * len(ws)), 'arg', name)
    for i, w in enumerate(ws): it.store_bytes(st, Ptr(p.obj, 8 * i), 8, w)
    st.mem[p.obj].ro = True
    return p
def elem(it, st, v, name='element', ro=True):
    p = it.new_obj(st, GSIZE[v.kind], 'arg', name); it.store_bytes(st, p, GSIZE[v.kind], v); st.mem[p.obj].ro = ro
    return p
def new(m, kind=None, mult=None):
    D = GroupDomain(); it = Interp(m, D, max_steps=2_000_000_000); it.max_forks = 10 ** 7
    if mult: D.install_mult(it, mult)
    else: D.install_curve(it)
    it.run_ctors()
    return D, it
def instances(m, cls, name):
    """{words: function} of a member template"""
    rx = re.compile(r'^(?:bls12_381::\w+ )?bls12_381::%s::%s<(\d+)ul>\(std::array<unsigned long, \1ul> const&\) const$' % (cls, name))
    out = {}
    for d, f in m.bydem.items():
        k = rx.match(d)
        if k and f in m.functions: out[int(k.group(1))] = f
    if not out: raise AnalysisError('anchor vanished: %s::%s' % (cls, name))
    return out
def differ(got, want, kind):
    """first generator/bit whose coefficient is wrong"""
    d = l_add(got, want, -1)
    (g, mon), c = min(d.terms().items(), key=lambda x: (len(x[0][1]), sorted(x[0][1])))
    what = ' and '.join('bit %d of the scalar of %s' % (_bitname[v][1], g) for v in sorted(mon)) or 'the constant part of %s' % g
    return 'the result is not the exact multiple: %s contributes %d, expected %d' % (what, got.terms().get((g, mon), 0), want.terms().get((g, mon), 0))

def multiple(m, f, kind, n, lengths, mult=None):
    """every scalar whose top bit is at the given position"""
    D, it = new(m, kind, mult)
    for l in lengths:
        ws = scalar_words('s', 64 * n, n, exact=l) if l else [0] * n
        st = it.gstate.clone()
        p = elem(it, st, gen(kind, 'P')); s = words_ptr(it, st, ws)
        out = it.new_obj(st, GSIZE[kind], 'arg', 'result')
        rs = it.call(st, f, [out, p, s])
        if not rs: raise Violation('no result for a scalar of %d bits' % l)
        want = scalar_form(kind, 'P', ws)
        for s2, _ in rs:
            got = D.rd(it, s2, out, kind); k = fact_subst(s2)
            if got != want and (not k or l_subst(got, k) != l_subst(want, k)): raise Violation('scalar of %d bits: %s' % (l, differ(got, want, kind)))
    return it

def loop_jobs(rep, m, cls, name, mult=None, label=None):
    jobs = []
    for n, f in sorted(instances(m, cls, name).items()):
        W = where_name(m, f)
        ls = list(range(0, 64 * n + 1))
        parts = max(1, n)
        for k in range(parts):
            sub = ls[k::parts]
            def j(r, f=f, n=n, sub=sub, W=W, k=k):
                box = []
                r.run('%s::%s, %d words, bit lengths %d mod %d' % (cls, name, n, k, parts), lambda: (box.append(multiple(m, f, cls, n, sub, mult)), None)[1], W)
                if box: r.absorb(box[0])
            jobs.append(j)
    return jobs
from engine.bits import _bitname

# ---- weighted sum
def msm(m, f, g, npts, nsc, symbolic=None, yielding=False):
    D, it = new(m)
    st = it.gstate.clone()
    sz = GSIZE[g]
    pp = it.new_obj(st, sz * npts, 'arg', 'points'); sp = it.new_obj(st, 32 * nsc, 'arg', 'scalars')
    for i in range(npts): it.store_bytes(st, Ptr(pp.obj, sz * i), sz, gen(g, 'P%d' % i))
    want = L(g, {})
    for i in range(nsc):
        ws = scalar_words('s%d_' % i, 256, 4) if symbolic is None or i in symbolic else [0] * 4
        for k, w in enumerate(ws): it.store_bytes(st, Ptr(sp.obj, 32 * i + 8 * k), 8, w)
        if i < npts: want = l_add(want, scalar_form(g, 'P%d' % i, ws))
    st.mem[pp.obj].ro = True; st.mem[sp.obj].ro = True
    fo = it.new_obj(st, 32, 'arg', 'yield function')
    calls = [0]
    if yielding:
        def inv(it, st, a): calls[0] += 1; return None
        it._hcache['verif.yield'] = inv; it._hcache['verif.manager'] = inv
        it.store_bytes(st, fo, 8, 0); it.store_bytes(st, Ptr(fo.obj, 8), 8, 0)
        it.store_bytes(st, Ptr(fo.obj, 16), 8, Fun('verif.manager')); it.store_bytes(st, Ptr(fo.obj, 24), 8, Fun('verif.yield'))
    else:
        for k in range(4): it.store_bytes(st, Ptr(fo.obj, 8 * k), 8, 0)
    st.mem[fo.obj].ro = True
    out = it.new_obj(st, sz, 'arg', 'result')
    # an empty span may carry any pointer
    rs = it.call(st, f, [out, pp if npts else NULL, npts, sp if nsc else NULL, nsc, fo])
    if not rs: raise Violation('no result')
    for s2, _ in rs:
        got = D.rd(it, s2, out, g)
        if got != want: raise Violation('%d points, %d scalars: %s' % (npts, nsc, differ(got, want, g)))
    if yielding and not calls[0]: raise Violation('the yield callback is never called')
    return it

def run_C02(rep):
    m = load()
    rep.explanation = 'linear forms with multilinear coefficients over the scalar bits: the result of every scalar bit pattern at once, compared with the exact multiple'
    rep.assumptions += ['point addition and doubling are exact (C01)', 'multi-scalar sums longer than the analysed lengths repeat the same per-point and per-window steps']
    thorough = rep.tier == 'thorough'
    jobs = []
    for g in ('g1', 'g2'):
        jobs += loop_jobs(rep, m, g, 'scale')
        f = fn_prefix(m, 'bls12_381::%s::weightedSum(' % g); W = where_name(m, f)
        cases = [(0, 0), (0, 2), (2, 0), (1, 1), (2, 2), (3, 2), (2, 3), (5, 5), (8, 8), (31, 31), (32, 32), (33, 33)]
        sparse = [(64, (0, 1, 31, 63)), (256, (0, 128, 255)), (257, (0, 255, 256))]
        if thorough:
            cases += [(n, n) for n in (4, 6, 7, 9, 15, 16, 17, 30, 34, 63, 64)]
            sparse += [(127, (0, 64, 126)), (128, (0, 64, 127)), (255, (0, 127, 254)), (511, (0, 510)), (512, (0, 511)), (2048, (0, 2047)), (4096, (1, 4095))]
        for a, b in cases:
            def j(r, f=f, a=a, b=b, g=g, W=W):
                box = []
                r.run('%s::weightedSum, %d points, %d scalars' % (g, a, b), lambda: (box.append(msm(m, f, g, a, b)), None)[1], W)
                if box: r.absorb(box[0])
            jobs.append(j)
        for n, sy in sparse:
            def j(r, f=f, n=n, sy=sy, g=g, W=W):
                box = []
                r.run('%s::weightedSum, %d points, unknown scalars at %s' % (g, n, sy), lambda: (box.append(msm(m, f, g, n, n, set(sy))), None)[1], W)
                if box: r.absorb(box[0])
            jobs.append(j)
        def j(r, f=f, g=g, W=W):
            r.run('%s::weightedSum with a yield callback' % g, lambda: (msm(m, f, g, 3, 3, None, True), None)[1], W)
        jobs.append(j)
    jobs.sort(key=lambda j: 0)
    rep.parallel(jobs)
