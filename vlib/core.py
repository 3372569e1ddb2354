"""Shared driver of the property checks.

A check module (checks/<ID>.py) defines PROP and registers *facets* with
@facet(...).  A facet is one executable statement about cssrlib: a Hypothesis
strategy that yields JSON-able cases and a function that judges one case
against an oracle.  The function raises Violation when cssrlib is wrong.

Outcome of a run: exit 0 (held), exit 1 + VIOLATION line, exit 2 = the harness
itself failed.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SRC = os.path.join(REPO, 'src')


class Violation(Exception):
    """cssrlib broke the property on this case"""


class CaseTimeout(BaseException):
    """one single case ran far beyond any plausible time"""


# a case normally takes milliseconds; beyond this it is not terminating
CASE_LIMIT_S = int(os.environ.get('VERIF_CASE_LIMIT', '100'))

_FACETS = []


class Facet:
    def __init__(self, name, strat, fn, n, nt, rule, probe):
        self.name, self.strat, self.fn = name, strat, fn
        self.n, self.nt, self.rule, self.probe = n, nt, rule, probe


def facet(name, strat=None, quick=200, thorough=2000, rule='', enum=None):
    """register a facet.

    strat: strategy (or a zero-argument callable returning one)
    enum : list of cases (or callable) for an exhaustive facet
    fn(case) returns None/True if the case was non-trivial, False otherwise,
    or a string label used for the coverage histogram.
    """
    def deco(fn):
        f = Facet(name, strat, fn, quick, thorough, rule, None)
        f.enum = enum
        _FACETS.append(f)
        return fn
    return deco


# ---------------------------------------------------------------- helpers

def viol(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, atol=0.0, rtol=0.0):
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    d = np.abs(a-b)
    ok = (d <= atol+rtol*np.abs(b)) | na | (a == b)
    return bool(ok.all())


def eq(what, got, exp, atol=0.0, rtol=0.0):
    """numeric comparison, raises Violation"""
    try:
        ok = close(got, exp, atol, rtol)
    except (TypeError, ValueError):
        ok = False
    if not ok:
        raise Violation('%s: got %r, expected %r (atol=%g rtol=%g)' %
                        (what, got, exp, atol, rtol))


def same(what, got, exp):
    if not (got == exp):
        raise Violation('%s: got %r, expected %r' % (what, got, exp))


class Quiet:
    """swallow stdout/stderr chatter of cssrlib"""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.dn = open(os.devnull, 'w')
        sys.stdout = self.dn
        sys.stderr = self.dn

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        self.dn.close()
        return False


def _spread():
    """Bounded integers are drawn uniformly three times out of four (the rest
    keeps Hypothesis' preference for small numbers) and most cases are
    drawn afresh instead of mutating the previous one, so that a few hundred
    cases cover wide numeric domains."""
    import hypothesis.internal.conjecture.engine as eng
    import hypothesis.internal.conjecture.providers as pv
    P, R = pv.HypothesisProvider, eng.ConjectureRunner
    if getattr(P, '_spread', False):
        return
    di, gm = P._draw_integer_from_distribution, R.generate_mutations_from

    def draw(self, lo, hi):
        if lo is not None and hi is not None and self._random.random() < 0.75:
            return self._random.randint(lo, hi)
        return di(self, lo, hi)

    def mutate(self, data):
        if self.random.random() < 0.25:
            gm(self, data)

    P._draw_integer_from_distribution = draw
    R.generate_mutations_from = mutate
    P._spread = True


def _in_repo(tb):
    """does the traceback end in (or pass through) cssrlib code?"""
    for fr, _ in traceback.walk_tb(tb):
        fn = fr.f_code.co_filename
        if os.path.abspath(fn).startswith(SRC):
            return True
    return False


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(f, case):
    """judge one case: returns label; raises Violation"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with Quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f.fn(case)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation('case did not finish within %d s' % CASE_LIMIT_S) \
            from None
    except (KeyboardInterrupt, MemoryError):
        raise
    except SystemExit as e:
        raise Violation('cssrlib called sys.exit(%r)' % (e.code,)) from e
    except Exception as e:
        if _in_repo(e.__traceback__):
            tbl = traceback.extract_tb(e.__traceback__)
            loc = [x for x in tbl if x.filename.startswith(SRC)][-1]
            raise Violation('cssrlib raised %s: %s at %s:%s on a valid input'
                            % (type(e).__name__, e,
                               os.path.basename(loc.filename), loc.name)) \
                from e
        if isinstance(e, (TypeError, ValueError, LookupError,
                          ArithmeticError, AttributeError)):
            # a result the reference could not even be compared with
            loc = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('result of unexpected form: %s: %s at %s:%d' % (
                type(e).__name__, e, os.path.basename(loc.filename),
                loc.lineno)) from e
        raise
    finally:
        signal.alarm(0)
    return r


def _h(case):
    return hashlib.sha1(repr(case).encode()).digest()[:10]


def _short(case, n=700):
    s = json.dumps(case, default=_js)
    if len(s) <= n:
        return case
    return s[:n]+'...'


def _js(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (bytes, bytearray)):
        return {'__hex__': bytes(o).hex()}
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))


def _unjs(d):
    if set(d) == {'__hex__'}:
        return bytes.fromhex(d['__hex__'])
    return d


def count(f, tier):
    """number of cases of a facet"""
    mod = sys.modules[f.fn.__module__]
    n = f.n*getattr(mod, 'SCALE', 4) if tier == 'quick' else max(
        f.nt, 4*f.n*getattr(mod, 'SCALE', 4))
    return int(n*float(os.environ.get('VERIF_SCALE', '1')))


def run_facet(prop, idx, tier, seed, shard=0, shards=1):
    """run a share of one facet in this process; returns a result dict"""
    f = _FACETS[idx]
    res = {'facet': f.name, 'idx': idx, 'n': 0, 'nontrivial': 0, 'labels': {},
           'samples': [], 'violation': None, 'error': None, 'wall': 0.0,
           'rule': f.rule}
    t0 = time.time()
    seen = set()

    def one(case):
        res['n'] += 1
        r = run_case(f, case)
        if r is None or r is True:
            r = 'case'
        if r is not False:
            h = _h(case)
            if h not in seen:
                seen.add(h)
                if len(res['samples']) < 2 and (len(seen) in (3, 11) or
                                                f.enum is not None):
                    res['samples'].append(_short(case))
        lab = str(r) if r is not False else 'trivial'
        res['labels'][lab] = res['labels'].get(lab, 0)+1

    try:
        if f.enum is not None:
            cases = f.enum() if callable(f.enum) else f.enum
            for c in cases:
                try:
                    one(c)
                except Violation as v:
                    res['violation'] = {'case': c, 'msg': str(v)}
                    break
        else:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 25
            _spread()
            n = max(1, -(-count(f, tier)//shards))
            strat = f.strat() if callable(f.strat) else f.strat
            sd = int.from_bytes(hashlib.sha256(
                f'{seed}/{prop}/{f.name}/{shard}'.encode()).digest()[:8], 'big')
            last = {}

            def body(case):
                try:
                    one(case)
                except Violation as v:
                    last['case'], last['msg'] = case, str(v)
                    last.setdefault('t', time.time())
                    raise

            test = hypothesis.seed(sd)(
                settings(max_examples=n, database=None, deadline=None,
                         phases=(Phase.generate, Phase.shrink),
                         print_blob=False, report_multiple_bugs=False,
                         suppress_health_check=[
                             HealthCheck.too_slow, HealthCheck.data_too_large,
                             HealthCheck.large_base_example])(
                    given(strat)(body)))
            try:
                test()
            except Violation as v:
                res['violation'] = {'case': last['case'], 'msg': str(v)}
            except (hypothesis.errors.Flaky, BaseExceptionGroup) as e:
                if 'case' not in last:
                    raise
                # the failure was seen; a failing case that does not fail
                # again means state leaks between calls inside cssrlib
                res['violation'] = {'case': last['case'],
                                    'msg': last['msg'] + ' [state-dependent]'}
    except BaseException as e:  # harness error
        e.__notes__ = []
        res['error'] = ''.join(traceback.format_exception(e))[-3500:]
    res['nontrivial'] = len(seen)
    res['wall'] = time.time()-t0
    return res


def _worker(args):
    return run_facet(*args)


def _merge(parts):
    """results of the shares of each facet"""
    out = {}
    for r in parts:
        q = out.setdefault(r['idx'], r)
        if q is r:
            continue
        for k in ('n', 'nontrivial', 'wall'):
            q[k] += r[k]
        for k, v in r['labels'].items():
            q['labels'][k] = q['labels'].get(k, 0)+v
        q['samples'] = (q['samples']+r['samples'])[:3]
        for k in ('violation', 'error'):
            q[k] = q[k] or r[k]
    return list(out.values())


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh).get('findings', [])


def run_probe(mod, k):
    """does the recorded finding still show?"""
    fn = getattr(mod, k['probe'])

    class F:
        pass
    F.fn = staticmethod(lambda c: fn())
    try:
        run_case(F, None)
    except Violation:
        return True
    return False


def main(prop=None):
    ap = argparse.ArgumentParser()
    if prop is None:
        ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    prop = prop or a.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    try:
        mod = importlib.import_module('checks.'+prop)
    except Exception as e:
        traceback.print_exc()
        if _in_repo(e.__traceback__):
            # the library cannot even be imported
            return _report(prop, [{'facet': 'import', 'violation': {
                'case': None, 'msg': 'import failed: %r' % e}}])
        return 2

    if a.replay:
        with open(a.replay) as fh:
            rp = json.load(fh, object_hook=_unjs)
        f = [x for x in _FACETS if x.name == rp['facet']
             and x.fn.__module__ == mod.__name__][0]
        try:
            run_case(f, rp['case'])
        except Violation as v:
            print('replay: still violated: %s' % v)
            return 1
        print('replay: holds')
        return 0

    # a check module may use another one's helpers, but not its facets
    idx = [i for i, f in enumerate(_FACETS)
           if f.fn.__module__ == mod.__name__ and
           (a.facet is None or f.name == a.facet)]
    # the split is the same on every machine, so runs can be repeated
    ns = max(1, 16//max(1, len(idx)))
    jobs = [(prop, i, tier, seed, k, m) for i in idx for m in
            [1 if _FACETS[i].enum is not None else
             max(1, min(ns, _FACETS[i].n//10))] for k in range(m)]
    if a.jobs > 1 and len(jobs) > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            parts = pool.map(_worker, jobs, chunksize=1)
    else:
        parts = [_worker(j) for j in jobs]
    results = _merge(parts)

    known = [k for k in load_known() if k['property'] == prop]
    for k in known:
        try:
            if run_probe(mod, k):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        except Exception:
            traceback.print_exc()
            return 2

    errs = [r for r in results if r['error']]
    bad = [r for r in results if r['violation']]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['n'] for r in results),
            'distinct_nontrivial': sum(r['nontrivial'] for r in results),
            'rule': getattr(mod, 'RULE', '')+' | ' + ' ; '.join(
                '%s: %s' % (r['facet'], r['rule']) for r in results
                if r['rule']),
            'samples': [{'facet': r['facet'], 'cases': r['samples']}
                        for r in results],
            'facets': {r['facet']: {'evaluations': r['n'],
                                    'distinct_nontrivial': r['nontrivial'],
                                    'labels': r['labels'],
                                    'wall_s': round(r['wall'], 2)}
                       for r in results},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time()-t0, 2),
        'violations': len(bad),
    }
    if not a.no_evidence and a.facet is None:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop+'.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=_js)
    for r in results:
        print('%-32s n=%-6d nontrivial=%-6d %6.1fs %s' % (
            r['facet'], r['n'], r['nontrivial'], r['wall'],
            'ERROR' if r['error'] else 'VIOLATED' if r['violation'] else 'ok'))
    if bad:
        return _report(prop, bad)
    if errs:
        for r in errs:
            print('HARNESS ERROR in %s:\n%s' % (r['facet'], r['error']))
        return 2
    return 0


def _report(prop, bad):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    for r in bad:
        p = os.path.join(d, '%s-%s.json' % (prop, r['facet']))
        with open(p, 'w') as fh:
            json.dump({'property': prop, 'facet': r['facet'],
                       'msg': r['violation']['msg'],
                       'case': r['violation']['case']}, fh, default=_js)
        print('  %s: %s' % (r['facet'], r['violation']['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    return 1
