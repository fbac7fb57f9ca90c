"""Obligation bookkeeping, evidence, known findings and exit codes."""
import json, os, sys, time, traceback
from . import interp
from .interp import AnalysisError, Violation
from .build import BuildError
from .llir import IRError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.obl = []          # (name, where, verdict, detail)
        self.viol = []
        self.errors = []
        self.t0 = time.time()
        self.stats = {}
        self.assumptions = []
        self.explanation = ''
        self.functions = set()
    def ok(self, name, where='', detail=''):
        self.obl.append((name, where, 'holds', detail))
    def bad(self, name, where, detail):
        self.obl.append((name, where, 'VIOLATED', detail))
        self.viol.append({'obligation': name, 'where': where, 'detail': detail})
    def err(self, name, where, detail):
        self.obl.append((name, where, 'undecided', detail))
        self.errors.append((name, where, detail))
    def check(self, name, cond, where='', detail=''):
        if cond: self.ok(name, where)
        else: self.bad(name, where, detail)
        return cond
    limit = 200
    def run(self, name, fn, where='', it=None):
        """run one obligation; fn returns None/True when it holds, a string describing the breach otherwise"""
        interp.DEADLINE[0] = time.time() + self.limit
        try:
            r = fn()
            if r is None or r is True:
                self.ok(name, where)
                return True
            self.bad(name, where, str(r))
        except Violation as e:
            self.bad(name, e.where or where, e.msg)
        except AnalysisError as e:
            self.err(name, where, 'analysis: %s' % e)
        except (IRError, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as e:
            self.err(name, where, 'engine: %s: %s' % (type(e).__name__, e))
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return False
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n
    def parallel(self, jobs, procs=8):
        """run independent groups of obligations in forked workers; each job is called with its own Report"""
        import multiprocessing as mp
        if not jobs: return
        if len(jobs) == 1 or os.environ.get('VERIF_SERIAL'):
            for j in jobs: j(self)
            return
        ctx = mp.get_context('fork')
        global _JOBS
        _JOBS = (self, jobs)
        with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=4) as pool:
            for r in pool.imap(_job, range(len(jobs)), chunksize=1):
                self.obl += r['obl']; self.viol += r['viol']; self.errors += r['errors']
                for k, v in r['stats'].items(): self.count(k, v)
                self.functions |= r['functions']
                for a in r['assumptions']:
                    if a not in self.assumptions: self.assumptions.append(a)
    def absorb(self, it):
        """coverage counters of an interpreter"""
        self.count('ir_instructions_interpreted', it.steps)
        self.count('memory_accesses_checked', it.mem_checks)
        self.count('partitions', it.forks)
        self.functions.update(it.dem(n) for n in it.visited)

_JOBS = None
def _job(i):
    sys.setrecursionlimit(20000)
    parent, jobs = _JOBS
    r = Report(parent.prop, parent.tier); r.limit = parent.limit
    def go():
        jobs[i](r)
    n = len(r.obl)
    try: go()
    except Violation as e: r.bad('group %d' % i, e.where, e.msg)
    except AnalysisError as e: r.err('group %d' % i, '', 'analysis: %s' % e)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        r.err('group %d' % i, '', 'engine: %s: %s' % (type(e).__name__, e))
    return {'obl': r.obl, 'viol': r.viol, 'errors': r.errors, 'stats': r.stats, 'functions': r.functions, 'assumptions': r.assumptions}

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f:
        return [e for e in json.load(f).get('findings', []) if e.get('status') == 'open']

def finish(rep, level, technique):
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    kf = [e for e in known_findings() if e['property'] == rep.prop]
    real = []; known = []
    for v in rep.viol:
        for e in kf:
            if e['obligation'] == v['obligation'] and (not e.get('where') or e['where'] in v['where']) and (not e.get('detail') or e['detail'] in v['detail']):
                known.append((e, v)); break
        else:
            real.append(v)
    holds = sum(1 for o in rep.obl if o[2] == 'holds')
    cov = {
        'explanation': rep.explanation or technique,
        'obligations_total': len(rep.obl), 'obligations_holding': holds,
        'obligations_violated': len(rep.viol), 'obligations_undecided': len(rep.errors),
        'functions_analysed': len(rep.functions),
        'functions': sorted(f for f in rep.functions if 'bls12_381' in f or 'sha256' in f)[:400],
        'rule': technique,
        'obligations_list': [{'name': a, 'where': b, 'verdict': c, 'detail': d[:400]} for a, b, c, d in rep.obl][:3000],
    }
    cov.update(rep.stats)
    doc = {'property': rep.prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
           'coverage': cov, 'assumptions': rep.assumptions, 'wall_s': round(time.time() - rep.t0, 2),
           'violations': len(real)}
    if level == 'proof':
        cov.update({'obligations': len(rep.obl), 'discharged': holds, 'checker_cmd': 'python3-vt /verif/run.py ' + rep.prop,
                    'trusted_base': ['clang 18 front end', '/verif/engine']})
    with open(os.path.join(ev, rep.prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    for e, v in known:
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, e['what']))
    if real:
        rp = os.path.join(ev, rep.prop + '.replay.json')
        with open(rp, 'w') as f: json.dump({'property': rep.prop, 'violations': real}, f, indent=1)
        for v in real[:20]:
            print('  %s: %s: %s' % (v['where'], v['obligation'], v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    if rep.errors:
        for n, w, d in rep.errors[:20]:
            print('UNDECIDED %s %s: %s' % (n, w, d[:600]))
        print('ERROR property=%s: %d obligations could not be decided' % (rep.prop, len(rep.errors)))
        return 2
    if not rep.obl:
        print('ERROR property=%s: no obligation was generated' % rep.prop)
        return 2
    print('OK property=%s: %d obligations hold (%d functions, %.1fs)' % (rep.prop, holds, len(rep.functions), time.time() - rep.t0))
    return 0
