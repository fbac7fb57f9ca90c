"""Compile /repo's current sources to LLVM IR in a scratch directory and load them."""
import os, subprocess, tempfile, shutil, atexit, hashlib, glob
from . import llir

LLVM = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

class BuildError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='blsverif.')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

def compile_ir(extra_sources=(), flags=(), name='all', opt='sroa', only=None, odir=None):
    """-> path of linked textual IR for src/*.cpp plus extra_sources."""
    d = os.path.join(odir or scratch(), name); os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
    if only is not None:
        srcs = [s for s in srcs if os.path.basename(s) in only]
    if not srcs:
        raise BuildError('no sources under %s/src' % REPO)
    srcs += list(extra_sources)
    procs = []
    outs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + '.bc')
        cmd = [LLVM + 'clang++', '-std=c++20', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone',
               '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-discard-value-names', '-Wno-everything', '-ffp-contract=off',
               '-I' + REPO + '/include', '-I' + REPO + '/src', '-emit-llvm', '-c', s, '-o', o] + list(flags)
        procs.append((s, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
        outs.append(o)
    for s, p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise BuildError('clang failed on %s:\n%s' % (s, err[-2000:]))
    linked = os.path.join(d, 'linked.bc')
    r = subprocess.run([LLVM + 'llvm-link'] + outs + ['-o', linked], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    ll = os.path.join(d, 'all.ll')
    r = subprocess.run([LLVM + 'opt', '-passes=' + opt, '-S', linked, '-o', ll], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    return ll

def load(**kw):
    ll = compile_ir(**kw)
    m = llir.Module().load(ll)
    m.demangle()
    return m
