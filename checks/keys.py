"""F03 / F04 / G03 / H02: key derivation, aggregation, failure handling; plus the expander half of F02."""
import itertools
from engine import build
from engine.proto import *
from checks.schemes import S, calls, msg, out_point, one, run_fn, TAG, POPTAG

# ---------------------------------------------------------------- specifications
def sha(c): return Bt(T(32, 'sha256', c))
def xorc(c, k): return ProtoDomain().xor(c, Bc(bytes([k]) * c.n))
def hmac(key, m):
    if key.n > 64: key = sha(key)
    key = cat(key, Bc(bytes(64 - key.n)))
    return sha(cat(xorc(key, 0x5c), sha(cat(xorc(key, 0x36), m))))
def expand(prk, info, L):
    t = B([]); out = B([])
    i = 1
    parts = []
    while sum(p.n for p in parts) < L:
        t = hmac(prk, cat(t, info, Bc(bytes([i])))); parts.append(t); i += 1
    return cat(*parts).slice(0, L)
def hkdf_mod_r(ikm, attempt=0):
    salt = Bc(b'BLS-SIG-KEYGEN-SALT-')
    for _ in range(attempt): salt = sha(salt)
    prk = hmac(salt, cat(ikm, Bc(b'\0')))
    okm = expand(prk, Bc(b'\0\x30'), 48)
    return mod_content(okm.rev(), R, 32)
def lamport_sk(ikm, salt): return expand(hmac(salt, ikm), B([]), 8160)
def lamport_pk(sk, index_be):
    ikm = sk.rev(); salt = index_be
    l0 = lamport_sk(ikm, salt); l1 = lamport_sk(xorc(ikm, 0xff), salt)
    return sha(cat(*[sha(l.slice(32 * i, 32)) for l in (l0, l1) for i in range(255)]))
def xmd(m, dst, n):
    dp = cat(dst, Bc(bytes([dst.n])))
    b0 = sha(cat(Bc(bytes(64)), m, Bc(n.to_bytes(2, 'big') + b'\0'), dp))
    out = []; prev = None
    D = ProtoDomain()
    for i in range(1, (n + 31) // 32 + 1):
        x = b0 if prev is None else D.xor(b0, prev)
        prev = sha(cat(x, Bc(bytes([i])), dp)); out.append(prev)
    return cat(*out).slice(0, n) if out else B([])

def sym(n, name): return Bt(T(n, name)) if n else B([])
def arg(pr, st, c, name): return pr.buf(st, c, name) if c.n else NULL

def nomalloc(pr):
    """allocation always succeeds"""
def with_malloc(pr):
    """allocation may fail"""
    it = pr.it
    def h(it, st, a):
        s2 = st.clone(); s2.log.append(('malloc failed', it.where()))
        q = it.new_obj(st, a[0], 'heap', 'malloc at ' + it.where())
        return [(st, q), (s2, NULL)]
    it.handlers['malloc'] = h
    def c(it, st, a):
        s2 = st.clone(); s2.log.append(('calloc failed', it.where()))
        q = it.new_obj(st, a[0] * a[1], 'heap', 'malloc at ' + it.where())
        it.set_bytes(st, q, 0, a[0] * a[1])
        return [(st, q), (s2, NULL)]
    it.handlers['calloc'] = c

def differ(got, want):
    """short description of the first difference of two contents"""
    if got.n != want.n: return 'length %d, expected %d' % (got.n, want.n)
    i = 0
    for k, a, b in ProtoDomain().cells(got, want):
        if a != b: return 'byte %d is %s, expected %s' % (i, show(B([a]), 3), show(B([b]), 3))
        i += k
    return None

class K:
    def __init__(self, rep):
        self.s = S(rep); self.rep = rep; self.jobs = []
        self.W = self.s.pr().where
    def job(self, name, where, f):
        def j(r, f=f):
            self.s.rep = r; self.rep = r
            r.run(name, f, where)
        self.jobs.append(j)
    def status_call(self, fname, mk, outsz, want):
        """call a status-returning function; want None = must fail, else expected output"""
        pr = self.s.pr(); st = pr.new()
        out = pr.buf(st, outsz, 'output')
        outs = pr.call(st, fname, mk(pr, st, out))
        self.rep.absorb(pr.it)
        st2, ret = one(outs, fname)
        if type(ret) is not int: raise AnalysisError('symbolic status %r' % (ret,))
        if want is None:
            if ret == 0: return 'reports success for lengths the standard excludes'
            return
        if ret != 0: return 'fails with status %d' % (ret - (1 << 32) if ret >> 31 else ret)
        d = differ(pr.rd(pr.it, st2, out, want.n), want)
        if d: return 'output differs from the standard construction: ' + d
        l = pr.leaks(st2)
        if l: return 'memory left allocated: ' + l[0]

def run_F03(rep):
    k = K(rep); J = k.job; W = k.W
    rep.explanation = 'HMAC, HKDF and EIP-2333 derivations evaluated over symbolic byte strings with SHA-256 uninterpreted; every output byte is compared with the standard construction'
    rep.assumptions += ['SHA-256 itself is F01; division by the group order is A04', 'allocation succeeds (failures: H02)',
                        'lengths are analysed at the representatives named in the obligations (all block boundaries)',
                        'salt rehashing is followed for the first three attempts']
    H = 'bls12_381::hkdf256_hmac('
    thorough = rep.tier == 'thorough'
    kl = (0, 1, 20, 31, 32, 33, 63, 64, 65, 128, 200, 5000) + (tuple(range(2, 140, 7)) if thorough else ())
    ml = (0, 1, 32, 55, 56, 64, 1000, (1 << 32) + 5) + (tuple(range(2, 200, 11)) if thorough else ())
    def hm(kn, mn):
        key = sym(kn, 'key'); m = sym(mn, 'text')
        return k.status_call(H, lambda pr, st, o: [o, arg(pr, st, m, 'in'), mn, arg(pr, st, key, 'key'), kn], 32, hmac(key, m))
    for kn in kl: J('hkdf256_hmac, key %d bytes' % kn, W(H), lambda kn=kn: first(hm(kn, mn) for mn in ((0, 33) if kn not in (32, 65) else ml)))
    X = 'bls12_381::hkdf256_extract('
    def ex(sn, n):
        s = sym(sn, 'salt'); i = sym(n, 'ikm')
        return k.status_call(X, lambda pr, st, o: [o, arg(pr, st, s, 'salt'), sn, arg(pr, st, i, 'ikm'), n], 32, hmac(s, i))
    for sn in (0, 4, 20, 32, 64, 65, 100): J('hkdf256_extract, salt %d bytes' % sn, W(X), lambda sn=sn: first(ex(sn, n) for n in (0, 1, 33, 32, 100)))
    E = 'bls12_381::hkdf256_expand('
    def xp(L, n):
        prk = sym(32, 'prk'); i = sym(n, 'info')
        ok = 0 < L <= 8160
        return k.status_call(E, lambda pr, st, o: [o, L, pr.buf(st, prk, 'prk'), arg(pr, st, i, 'info'), n], L if ok else 8160, expand(prk, i, L) if ok else None)
    for L in (1, 31, 32, 33, 48, 63, 64, 65, 96, 1000, 8128, 8129, 8159, 8160, 8161, 8192, 1 << 32, (1 << 32) + 32, (1 << 64) - 1):
        J('hkdf256_expand, %d bytes' % L, W(E), lambda L=L: first(xp(L, n) for n in ((0, 1, 2, 31, 32, 100) if L < 1000 else (0,))))
    Y = 'bls12_381::hkdf256_extract_expand('
    def xe(L, kn, sn, n):
        key = sym(kn, 'key'); s = sym(sn, 'salt'); i = sym(n, 'info')
        return k.status_call(Y, lambda pr, st, o: [o, L, arg(pr, st, key, 'key'), kn, arg(pr, st, s, 'salt'), sn, arg(pr, st, i, 'info'), n],
                             L if L <= 8160 else 8160, expand(hmac(s, key), i, L) if L <= 8160 else None)
    for L, kn, sn, n in ((48, 33, 20, 2), (48, 33, 32, 2), (32, 0, 0, 0), (100, 80, 70, 40), (8161, 32, 4, 0)):
        J('hkdf256_extract_expand %d/%d/%d/%d' % (L, kn, sn, n), W(Y), lambda a=(L, kn, sn, n): xe(*a))
    # secret keys
    SK = 'bls12_381::secret_key('
    def secret(n):
        pr = k.s.pr(); st = pr.new(); seed = sym(n, 'seed')
        # the derived key is zero at most for the first two attempts considered
        zs = [hkdf_mod_r(seed, a) for a in range(3)] if n >= 32 else []
        eqs = [eq_cond(z, Bi(0, 32)) for z in zs]
        tried = []
        def hook(key):
            if key[0] != 'eq' or key[1].segs and key[2].segs: return None
            if key not in tried: tried.append(key)
            return False if tried.index(key) >= 2 else None
        pr.dom.assume_hook = hook
        out = pr.buf(st, 32, 'sk')
        outs = pr.call(st, SK, [out, arg(pr, st, seed, 'seed'), n])
        k.rep.absorb(pr.it); k.rep.count('paths', len(outs))
        if pr.dom.throws: return 'throws'
        if n < 32:
            st2, _ = one(outs, SK)
            return None if pr.rd(pr.it, st2, out, 32).value() == 0 else 'a seed of %d bytes is not refused' % n
        seen = set()
        for st2, _ in outs:
            r = pr.rd(pr.it, st2, out, 32)
            a = 0
            while a < 2 and st2.facts.get(eqs[a].key): a += 1
            if st2.facts.get(eqs[a].key) is not False: return 'returns without having established that the key is non-zero (attempt %d)' % (a + 1)
            seen.add(a)
            d = differ(r, zs[a])
            if d: return 'attempt %d: %s' % (a + 1, d)
            if bound(r) >= R: return 'key not reduced'
        if seen != {0, 1, 2}: return 'attempts reached: %s' % sorted(seen)
    for n in (0, 1, 16, 31, 32, 33, 48, 64, 65, 200, 5000): J('secret_key, %d byte seed' % n, W(SK), lambda n=n: secret(n))
    L1 = 'bls12_381::ikm_to_lamport_sk('
    def lam(n, sn):
        i = sym(n, 'ikm'); s = sym(sn, 'salt')
        return k.status_call(L1, lambda pr, st, o: [o, arg(pr, st, i, 'ikm'), n, arg(pr, st, s, 'salt'), sn], 8160, lamport_sk(i, s))
    J('ikm_to_lamport_sk', W(L1), lambda: first(lam(n, sn) for n, sn in ((32, 4), (0, 0), (70, 65))))
    L2 = 'bls12_381::parent_sk_to_lamport_pk('
    ib = sym(4, 'index')
    def lpk():
        sk = var_scalar('sk', (1 << 256) - 1)
        return k.status_call(L2, lambda pr, st, o: [o, pr.buf(st, sk, 'parent'), ib.value()], 32, lamport_pk(sk, ib.rev()))
    J('parent_sk_to_lamport_pk', W(L2), lpk)
    for conc in (0, 1, 0x01020304, 0xffffffff):
        def lpc(conc=conc):
            sk = var_scalar('sk', (1 << 256) - 1)
            return k.status_call(L2, lambda pr, st, o: [o, pr.buf(st, sk, 'parent'), conc], 32, lamport_pk(sk, Bc(conc.to_bytes(4, 'big'))))
        J('parent_sk_to_lamport_pk, index %d' % conc, W(L2), lpc)
    DC = 'bls12_381::derive_child_sk('
    def child():
        pr = k.s.pr(); st = pr.new(); sk = var_scalar('sk')
        c = lamport_pk(sk, ib.rev())
        want = hkdf_mod_r(c)
        eq = eq_cond(want, Bi(0, 32))
        pr.dom.assume_hook = lambda key: False if key == eq.key else None
        out = pr.buf(st, 32, 'child')
        st2, _ = one(pr.call(st, DC, [out, pr.buf(st, sk, 'parent'), ib.value()]), DC)
        k.rep.absorb(pr.it)
        return differ(pr.rd(pr.it, st2, out, 32), want)
    J('derive_child_sk', W(DC), child)
    rep.parallel(k.jobs)

def first(gen):
    for r in gen:
        if r: return r

# ---------------------------------------------------------------- F04
def tweak(comp, ib): return mod_content(sha(cat(comp, ib.rev())).rev(), R, 32)
def run_F04(rep):
    k = K(rep); J = k.job; W = k.W
    rep.explanation = 'both derivations are evaluated symbolically; the public key of the child secret key and the child of the public key are compared as linear forms over the generators'
    rep.assumptions += ['curve operations and compressed encodings are taken as their specifications (C01, C02, D02); SHA-256 is F01', 'parent keys are below the group order']
    DS = 'bls12_381::derive_child_sk_unhardened('; D1 = 'bls12_381::derive_child_g1_unhardened('; D2 = 'bls12_381::derive_child_g2_unhardened('
    PK = 'bls12_381::public_key('
    idx = [('any index', sym(4, 'index'))] + [('index %d' % i, Bi(i, 4)) for i in (0, 1, 0x01020304, 0x80000000, 0xffffffff)]
    for nm, ib in idx:
        def sks(ib=ib):
            pr = k.s.pr(); st = pr.new(); it = pr.it
            sk = var_scalar('sk'); p = pr.buf(st, sk, 'parent'); out = pr.buf(st, 32, 'child')
            sts = calls(pr, [st], DS, [out, p, ib.value()])
            comp = Bt(T(48, 'toCompressedBytesBE', 'g1', f_key(f_norm({G1A: spoly(sk)}))))
            want = p_mod(p_add(spoly(sk), spoly(tweak(comp, ib))))
            k.rep.absorb(it)
            for st in sts:
                c = pr.rd(it, st, out, 32)
                if not same_poly(st.facts, spoly(c), want): return 'child key is %s, expected sk + SHA-256(compressed public key || index) modulo the order' % show(c)
                if bound(c) >= R: return 'child key is not reduced below the group order'
        J('derive_child_sk_unhardened, ' + nm, W(DS), sks)
        def both(ib=ib):
            pr = k.s.pr(); st = pr.new(); it = pr.it
            sk = var_scalar('sk'); p = pr.buf(st, sk, 'parent'); ch = pr.buf(st, 32, 'child')
            a = pr.buf(st, 144, 'pk of child'); b = pr.buf(st, 144, 'child of pk'); pk = pr.buf(st, 144, 'pk')
            sts = calls(pr, [st], DS, [ch, p, ib.value()])
            sts = calls(pr, sts, PK, [a, ch])
            sts = calls(pr, sts, PK, [pk, p])
            sts = calls(pr, sts, D1, [b, pk, ib.value()])
            k.rep.absorb(it)
            for st in sts:
              fa, fb = pr.form(it, st, a, 'g1'), pr.form(it, st, b, 'g1')
              if not same_form(st.facts, fa, fb): return 'public key of the child secret key %s differs from the child public key %s' % (show(f_key(fa)), show(f_key(fb)))
        J('both derivations agree, ' + nm, W(D1), both)
        for g, fnm in (('g1', D1), ('g2', D2)):
            def der(g=g, fnm=fnm, ib=ib):
                pr = k.s.pr(); st = pr.new(); it = pr.it
                f = in_point(g, 'key'); p = pr.point_arg(st, g, f); o = pr.buf(st, GSZ[g], 'child')
                sts = calls(pr, [st], fnm, [o, p, ib.value()])
                comp = Bt(T(GSZ[g] // 3, 'toCompressedBytesBE', g, f_key(f)))
                want = f_add(f, {(G1A if g == 'g1' else G2A): spoly(tweak(comp, ib))})
                k.rep.absorb(it)
                for st in sts:
                  got = pr.form(it, st, o, g)
                  if not same_form(st.facts, got, want): return 'child is %s, expected %s' % (show(f_key(got)), show(f_key(want)))
            J('derive_child_%s_unhardened, %s' % (g, nm), W(fnm), der)
    rep.parallel(k.jobs)

# ---------------------------------------------------------------- G03
def run_G03(rep):
    k = K(rep); J = k.job; W = k.W
    rep.explanation = 'aggregation over symbolic lists evaluated to linear forms / sums modulo the order'
    rep.assumptions += ['point addition is C01, division A04', 'secret keys handed to aggregation are below the group order', 'lists are analysed for the lengths named in the obligations']
    big = (300,) if rep.tier != 'thorough' else (300, 2000)
    for g, fnm in (('g1', 'bls12_381::aggregate_public_keys('), ('g2', 'bls12_381::aggregate_signatures(')):
        for n in (0, 1, 2, 3, 5) + big:
            for variant in ('distinct', 'repeated') if n in (2, 3) else ('distinct',):
                def agg(g=g, fnm=fnm, n=n, variant=variant):
                    pr = k.s.pr(); st = pr.new(); it = pr.it; sz = GSZ[g]
                    if n > 10: pr.dom.assume_hook = lambda key: False if key[0] in ('zero', 'eq') else None
                    fs = [in_point(g, 'p%d' % (i if variant == 'distinct' else 0)) for i in range(n)]
                    p = NULL
                    if n:
                        p = it.new_obj(st, sz * n, 'arg', 'list')
                        for i, f in enumerate(fs): it.store_bytes(st, Ptr(p.obj, sz * i), sz, point(g, f))
                        st.mem[p.obj].ro = True
                    o = pr.buf(st, sz, 'sum')
                    sts = calls(pr, [st], fnm, [o, p, n])
                    want = {}
                    for f in fs: want = f_add(want, f)
                    k.rep.absorb(it)
                    for st in sts:
                      got = pr.form(it, st, o, g)
                      if not same_form(st.facts, got, want): return 'sum is %s, expected %s' % (show(f_key(got)), show(f_key(want)))
                J('%s of %d (%s)' % (fnm[11:-1], n, variant), W(fnm), agg)
    A = 'bls12_381::aggregate_secret_keys('
    for n in (0, 1, 2, 3, 5) + big:
        for variant in ('distinct', 'repeated') if n in (2, 3) else ('distinct',):
            def asec(n=n, variant=variant):
                pr = k.s.pr(); st = pr.new(); it = pr.it
                if n > 10: pr.dom.assume_hook = lambda key: False if key[0] in ('zero', 'eq') else None
                cs = [var_scalar('sk%d' % (i if variant == 'distinct' else 0)) for i in range(n)]
                p = pr.buf(st, cat(*cs), 'keys') if n else NULL; o = pr.buf(st, 32, 'sum')
                sts = calls(pr, [st], A, [o, p, n])
                want = {}
                for c in cs: want = p_add(want, spoly(c))
                k.rep.absorb(it)
                for st in sts:
                    got = pr.rd(it, st, o, 32)
                    if not same_poly(st.facts, spoly(got), want): return 'result is %s, expected the sum modulo the order' % show(got)
                    if bound(got) >= R: return 'result is not reduced'
            J('aggregate_secret_keys of %d (%s)' % (n, variant), W(A), asec)
    # secret aggregation against public aggregation
    def corr(n):
        pr = k.s.pr(); st = pr.new(); it = pr.it
        cs = [var_scalar('sk%d' % i) for i in range(n)]
        p = pr.buf(st, cat(*cs), 'keys'); o = pr.buf(st, 32, 'sum'); pk = pr.buf(st, 144 * n, 'pks'); a = pr.buf(st, 144, 'a'); b = pr.buf(st, 144, 'b')
        sts = [st]
        for i in range(n): sts = calls(pr, sts, 'bls12_381::public_key(', [Ptr(pk.obj, 144 * i), Ptr(p.obj, 32 * i)])
        sts = calls(pr, sts, A, [o, p, n])
        sts = calls(pr, sts, 'bls12_381::public_key(', [a, o])
        sts = calls(pr, sts, 'bls12_381::aggregate_public_keys(', [b, pk, n])
        for st in sts:
          if not same_form(st.facts, pr.form(it, st, a, 'g1'), pr.form(it, st, b, 'g1')): return 'aggregate of the public keys is not the public key of the aggregate'
    for n in (1, 2, 3): J('public key of aggregate = aggregate of public keys (%d)' % n, W(A), lambda n=n: corr(n))
    F = 'bls12_381::sk_from_bytes('; TB = 'bls12_381::sk_to_bytes('
    def frm(mode, c):
        pr = k.s.pr(); st = pr.new(); it = pr.it
        p = pr.buf(st, c, 'bytes'); o = pr.buf(st, 32, 'sk')
        outs = pr.call(st, F, [o, p, mode]); k.rep.absorb(it); k.rep.count('paths', len(outs))
        le = c.rev(); v = le.value()
        seen = set()
        for st2, _ in outs:
            got = pr.rd(it, st2, o, 32)
            if mode: want = mod_content(le, R, 32); seen.add('mod')
            else:
                if type(v) is int: below = v < R
                else:
                    below = None
                    for key, val in st2.facts.items():
                        if key[0] == 'cmp' and key[1] == le and key[2].value() == R: below = val < 0
                        if key[0] == 'cmp' and key[2] == le and key[1].value() == R: below = val > 0
                    if below is None: return 'the strict mode does not compare the key with the group order'
                want = le if below else Bi(0, 32); seen.add(below)
            d = differ(got, want)
            if d: return ('reducing mode: ' if mode else 'strict mode, key %s the order: ' % ('below' if below else 'not below')) + d
        if not mode and type(v) is not int and seen != {True, False}: return 'strict mode does not distinguish keys by the group order'
    for mode in (0, 1):
        J('sk_from_bytes, mode %d' % mode, W(F), lambda mode=mode: frm(mode, sym(32, 'bytes')))
        for nm, v in (('0', 0), ('r-1', R - 1), ('r', R), ('r+1', R + 1), ('2^256-1', (1 << 256) - 1)):
            J('sk_from_bytes(%s), mode %d' % (nm, mode), W(F), lambda mode=mode, v=v: frm(mode, Bc(v.to_bytes(32, 'big'))))
    def tb():
        pr = k.s.pr(); st = pr.new(); it = pr.it; c = var_scalar('sk', (1 << 256) - 1)
        o = pr.buf(st, 32, 'bytes'); st, _ = one(pr.call(st, TB, [o, pr.buf(st, c, 'sk')]), TB); k.rep.absorb(it)
        return differ(pr.rd(it, st, o, 32), c.rev())
    J('sk_to_bytes', W(TB), tb)
    def rt():
        pr = k.s.pr(); st = pr.new(); it = pr.it; c = var_scalar('sk')
        o = pr.buf(st, 32, 'bytes'); o2 = pr.buf(st, 32, 'back')
        st, _ = one(pr.call(st, TB, [o, pr.buf(st, c, 'sk')]), TB)
        for mode in (0, 1):
            for st2, _ in pr.call(st.clone(), F, [o2, o, mode]):
                if any(key[0] == 'cmp' and val >= 0 for key, val in st2.facts.items()): continue
                d = differ(pr.rd(it, st2, o2, 32), c)
                if d: return 'round trip, mode %d: %s' % (mode, d)
    J('sk_from_bytes(sk_to_bytes)', W(F), rt)
    rep.parallel(k.jobs)

# ---------------------------------------------------------------- H02
def run_H02(rep):
    k = K(rep); J = k.job; W = k.W
    rep.explanation = 'ownership analysis: every explicit allocation is followed on every path (including each allocation failing) to exactly one release; results on failing paths must report failure'
    rep.assumptions += ['operator new reports exhaustion by exception; unwinding out of the library is not followed']
    def run_status(fname, mk, outsz, lens):
        for ln in lens:
            pr = k.s.pr(); with_malloc(pr); st = pr.new()
            out = pr.buf(st, outsz, 'output')
            outs = pr.call(st, fname, mk(pr, st, out, ln))
            k.rep.absorb(pr.it); k.rep.count('paths', len(outs))
            ok = 0
            for st2, ret in outs:
                l = pr.leaks(st2)
                failed = [w for t, w in st2.log if t.endswith('failed')]
                if l: return 'a path leaves memory allocated (%s)%s' % (l[0], ' after the allocation failed at ' + failed[0] if failed else '')
                if type(ret) is not int: raise AnalysisError('symbolic status')
                if failed and ret == 0: return 'reports success although the allocation failed at ' + failed[0]
                if ret == 0:
                    ok += 1
                    if pr.rd(pr.it, st2, out, outsz).undef(): return 'reports success without having written its whole output'
            if not ok: return 'never succeeds'
    S = lambda pr, st, n, nm: arg(pr, st, sym(n, nm), nm)
    H = 'bls12_381::hkdf256_hmac('
    J('hkdf256_hmac', W(H), lambda: run_status(H, lambda pr, st, o, n: [o, S(pr, st, n, 'in'), n, S(pr, st, 2 * n, 'key'), 2 * n], 32, (0, 32, 40)))
    X = 'bls12_381::hkdf256_extract('
    J('hkdf256_extract', W(X), lambda: run_status(X, lambda pr, st, o, n: [o, S(pr, st, n, 'salt'), n, S(pr, st, 2 * n, 'ikm'), 2 * n], 32, (0, 32, 70)))
    E = 'bls12_381::hkdf256_expand('
    J('hkdf256_expand', W(E), lambda: run_status(E, lambda pr, st, o, n: [o, n, S(pr, st, 32, 'prk'), S(pr, st, 3, 'info'), 3], 96, (96,)) or
      run_status(E, lambda pr, st, o, n: [o, n, S(pr, st, 32, 'prk'), NULL, 0], 32, (32,)) or run_status(E, lambda pr, st, o, n: [o, n, S(pr, st, 32, 'prk'), NULL, 0], 8160, (8160,)))
    def exp_bad(L):
        pr = k.s.pr(); with_malloc(pr); st = pr.new(); o = pr.buf(st, 100, 'output')
        for st2, ret in pr.call(st, E, [o, L, S(pr, st, 32, 'prk'), S(pr, st, 3, 'info'), 3]):
            if pr.leaks(st2): return 'leaks on the error path for %d bytes: %s' % (L, pr.leaks(st2)[0])
            if ret == 0: return 'accepts an output length of %d' % L
    J('hkdf256_expand error paths', W(E), lambda: first(exp_bad(L) for L in (8161, 1 << 32, (1 << 64) - 1, (1 << 64) - 31)))
    def exp0():
        pr = k.s.pr(); with_malloc(pr); st = pr.new(); o = pr.buf(st, 100, 'output')
        for st2, ret in pr.call(st, E, [o, 0, S(pr, st, 32, 'prk'), S(pr, st, 3, 'info'), 3]):
            if pr.leaks(st2): return 'leaks for an empty output: %s' % pr.leaks(st2)[0]
    J('hkdf256_expand, empty output', W(E), exp0)
    Y = 'bls12_381::hkdf256_extract_expand('
    J('hkdf256_extract_expand', W(Y), lambda: run_status(Y, lambda pr, st, o, n: [o, n, S(pr, st, 33, 'key'), 33, S(pr, st, 4, 'salt'), 4, S(pr, st, 2, 'info'), 2], 48, (48,)))
    L1 = 'bls12_381::ikm_to_lamport_sk('
    J('ikm_to_lamport_sk', W(L1), lambda: run_status(L1, lambda pr, st, o, n: [o, S(pr, st, 32, 'ikm'), 32, S(pr, st, 4, 'salt'), 4], 8160, (0,)))
    L2 = 'bls12_381::parent_sk_to_lamport_pk('
    ib = sym(4, 'index')
    J('parent_sk_to_lamport_pk', W(L2), lambda: run_status(L2, lambda pr, st, o, n: [o, pr.buf(st, var_scalar('sk'), 'sk'), ib.value()], 32, (0,)))
    def zero_on_failure(fname, mk, okval):
        pr = k.s.pr(); with_malloc(pr); st = pr.new(); o = pr.buf(st, 32, 'key')
        hooked = {}
        def hook(key):
            # the derived key is non-zero (rehashing repeats the same body)
            return False if key[0] == 'eq' and any(isinstance(x, B) and x.value() == 0 or not x.segs for x in key[1:]) else None
        pr.dom.assume_hook = hook
        outs = pr.call(st, fname, mk(pr, st, o)); k.rep.absorb(pr.it); k.rep.count('paths', len(outs))
        ok = 0
        for st2, _ in outs:
            failed = [w for t, w in st2.log if t.endswith('failed')]
            l = pr.leaks(st2)
            if l: return 'a path leaves memory allocated (%s)%s' % (l[0], ' after the allocation failed at ' + failed[0] if failed else '')
            v = pr.rd(pr.it, st2, o, 32)
            if v.undef(): return 'returns bytes that were never written' + (' after the allocation failed at ' + failed[0] if failed else '')
            if failed and v.value() != 0: return 'returns a key although the allocation failed at %s' % failed[0]
            if not failed: ok += 1
        if not ok: return 'never succeeds'
    SK = 'bls12_381::secret_key('
    J('secret_key', W(SK), lambda: first(zero_on_failure(SK, lambda pr, st, o, n=n: [o, S(pr, st, n, 'seed'), n], None) for n in (0, 31, 32, 100)))
    DC = 'bls12_381::derive_child_sk('
    J('derive_child_sk', W(DC), lambda: zero_on_failure(DC, lambda pr, st, o: [o, pr.buf(st, var_scalar('sk'), 'sk'), ib.value()], None))
    # expander failures
    XM = 'bls12_381::fromMessage('
    def fm(mlen, dlen):
        pr = k.s.pr(); pr.msg_handler = False; pr.expand_only(k.s)
        st = pr.new(); o = pr.buf(st, 288, 'point')
        m = arg(pr, st, sym(mlen, 'message'), 'message'); d = pr.string(st, sym(dlen, 'tag'))
        outs = pr.call(st, XM, [o, m, mlen, d])
        k.rep.absorb(pr.it)
        if mlen > (1 << 31) - 1 or dlen > 255:
            if outs: return 'returns a point although the expander cannot handle %d message / %d tag bytes' % (mlen, dlen)
            if not pr.dom.throws: return 'neither returns nor refuses'
        elif not outs: return 'refuses %d message / %d tag bytes' % (mlen, dlen)
    J('fromMessage refuses what the expander cannot handle', W(XM), lambda: first(fm(a, b) for a, b in ((0, 0), (1, 255), (32, 43), (5, 256), (5, 1000), (1 << 31, 43), (1 << 32, 43), ((1 << 32) + 5, 43), ((1 << 31) - 1, 43))))
    def heap(fname, mk):
        pr = k.s.pr(); st = pr.new()
        for st2, _ in pr.call(st, fname, mk(pr, st)):
            if pr.leaks(st2): return 'a path leaves memory allocated: ' + pr.leaks(st2)[0]
        k.rep.absorb(pr.it)
    def agg_args(pr, st, n, flag):
        kp = pr.it.new_obj(st, 144 * n, 'arg', 'keys')
        for i in range(n): pr.it.store_bytes(st, Ptr(kp.obj, 144 * i), 144, point('g1', in_point('g1', 'k%d' % i)))
        return [kp, n, pr.vec_bytes(st, [msg(8, i) for i in range(n)]), n, pr.point_arg(st, 'g2', in_point('g2', 'sig')), flag]
    for flag in (0, 1): J('aggregate_verify releases its containers, duplicates %s' % ('refused' if flag else 'allowed'), W('bls12_381::aggregate_verify('), lambda flag=flag: heap('bls12_381::aggregate_verify(', lambda pr, st: agg_args(pr, st, 2, flag)))
    J('verify releases its containers', W('bls12_381::verify('), lambda: heap('bls12_381::verify(', lambda pr, st: [pr.point_arg(st, 'g1', in_point('g1', 'k')), pr.buf(st, msg(8), 'm'), 8, pr.point_arg(st, 'g2', in_point('g2', 's'))]))
    J('pop_verify releases its containers', W('bls12_381::pop_verify('), lambda: heap('bls12_381::pop_verify(', lambda pr, st: [pr.point_arg(st, 'g1', in_point('g1', 'k')), pr.point_arg(st, 'g2', in_point('g2', 's'))]))
    J('pop_prove releases its buffers', W('bls12_381::pop_prove('), lambda: heap('bls12_381::pop_prove(', lambda pr, st: [pr.buf(st, 288, 'o'), pr.buf(st, var_scalar('sk'), 'sk')]))
    J('fast aggregate verification releases its containers', W('bls12_381::pop_fast_aggregate_verify('), lambda: heap('bls12_381::pop_fast_aggregate_verify(', lambda pr, st: agg_args(pr, st, 2, 0)[:2] + [pr.buf(st, msg(8), 'm'), 8, pr.point_arg(st, 'g2', in_point('g2', 's'))]))
    rep.parallel(k.jobs)
