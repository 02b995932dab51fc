"""Runner for the property checks: Hypothesis drives generated cases through a check function, a shrunk failure
becomes a replay file. A case is plain JSON data, so that a replay needs neither Hypothesis nor a random choice.

    python -m pbt.core <property id>             run the check (VERIF_SEED, VERIF_TIER)
    python -m pbt.core --replay <replay file>    re-run one recorded case
"""
import hashlib
import importlib
import io
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from contextlib import redirect_stdout

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HYPOTHESIS_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.path.insert(0, REPO)
if HYPOTHESIS_PATH not in sys.path:
    sys.path.append(HYPOTHESIS_PATH)  # last: numpy, shapely etc. come from the interpreter's own environment

SHARDS = 6               # processes per check
CASE_LIMIT_S = 40        # a single case takes milliseconds; longer than this is a hang
SHRINK_LIMIT_S = 60      # time for shrinking a failure
SOFT_LIMIT_S = {'quick': 500, 'thorough': 5400}   # stop generating (inconclusive remainder), never a violation

real_time = time.monotonic


class Violation(Exception):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The harness (generator or oracle) is broken. Never reported as a violation."""


class Skip(Exception):
    """The case is outside the domain of the property (decided by the generator side, before calling the code)."""


class Hang(BaseException):
    pass


class Stop(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Rec:
    """What one case recorded about itself: labels (counted classes) and whether it was non-trivial."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


class Test:
    def __init__(self, name, strategy, fn, quick, thorough=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else 20 * quick


def canonical(case):
    return json.dumps(case, sort_keys=True)


def _alarm(signum, frame):
    raise Hang()


def run_case(test, case, limit=CASE_LIMIT_S):
    """Run the check function on one case. Returns (Rec, error message or None)."""
    import numpy as np
    rec = Rec()
    np.random.seed(int(hashlib.sha256(canonical(case).encode()).hexdigest()[:8], 16))
    case = json.loads(canonical(case))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings(), redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            test.fn(case, rec)
        return rec, None
    except Skip:
        rec.label('skipped')
        rec.nontrivial = False
        return rec, None
    except (HarnessError, ImportError, MemoryError):
        raise
    except Violation as e:
        return rec, str(e)
    except Hang:
        return rec, 'HANG: no result within %d s' % limit
    except Exception as e:
        # The inputs are in the domain, so the code has no reason to raise (or to return something unusable)
        frames = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in frames[::-1][:5])
        return rec, 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:200], where)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def load(prop):
    mod = importlib.import_module('pbt.checks.' + prop.lower())
    return mod


def explore(test, seed, n, tier, stats, deadline):
    """Drive one test with Hypothesis. Returns None or (case, message)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    failing = []
    first_fail = [None]

    def body(case):
        if not failing and real_time() > deadline:
            stats['soft_limit'] = True
            raise Stop()
        if first_fail[0] is not None and real_time() - first_fail[0] > SHRINK_LIMIT_S:
            raise Stop()
        key = canonical(case)
        rec, err = run_case(test, case)
        if not failing:
            stats['evaluations'] += 1
            for l in rec.labels:
                k = test.name + ':' + l
                stats['labels'][k] = stats['labels'].get(k, 0) + 1
            if rec.nontrivial:
                h = hashlib.sha256((test.name + key).encode()).hexdigest()[:16]
                if h not in stats['nontrivial']:
                    stats['nontrivial'].add(h)
                    stats['per_test'][test.name] = stats['per_test'].get(test.name, 0) + 1
                    if stats['per_test'][test.name] in (1, 25) and len(key) < 3000:
                        stats['samples'].append({'test': test.name, 'case': json.loads(key)})
        if err is not None:
            if first_fail[0] is None:
                first_fail[0] = real_time()
            failing.append((key, err))
            if err.startswith('HANG'):
                raise Stop()
            raise AssertionError(err)

    run = given(test.strategy)(body)
    run = hypothesis.seed(seed)(run)
    run = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                   phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), print_blob=False)(run)
    try:
        with redirect_stdout(io.StringIO()):
            run()
    except Stop:
        pass
    except BaseException:
        if not failing:
            raise
    if not failing:
        return None
    key, err = min(failing, key=lambda f: (len(f[0]), f[0]))
    case = json.loads(key)
    # Confirm outside of Hypothesis
    rec, err2 = run_case(test, case, limit=2 * CASE_LIMIT_S)
    if err2 is None:
        # Depends on something else than the case: try the others before giving up
        for key, err in sorted(failing, key=lambda f: (len(f[0]), f[0]))[:20]:
            if run_case(test, json.loads(key), limit=2 * CASE_LIMIT_S)[1] is not None:
                return json.loads(key), err
        raise HarnessError('failure does not reproduce: %s %s' % (err, key[:2000]))
    return case, err2


def regressions(prop):
    path = os.path.join(VERIF, 'pbt', 'regress', prop + '.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def shard_main(prop, shard, seed, tier, out):
    t0 = real_time()
    mod = load(prop)
    stats = {'evaluations': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'per_test': {}, 'soft_limit': False}
    failure = None
    tests = {t.name: t for t in mod.TESTS}
    if shard == 0:
        for r in regressions(prop):
            if r['test'] not in tests:
                raise HarnessError('regression for unknown test ' + r['test'])
            rec, err = run_case(tests[r['test']], r['case'])
            stats['evaluations'] += 1
            stats['labels']['regression'] = stats['labels'].get('regression', 0) + 1
            if rec.nontrivial:
                stats['nontrivial'].add(hashlib.sha256((r['test'] + canonical(r['case'])).encode()).hexdigest()[:16])
            if err is not None:
                failure = (r['test'], r['case'], err)
                break
    if failure is None:
        for i, t in enumerate(mod.TESTS):
            n = max(1, (t.quick if tier == 'quick' else t.thorough) // SHARDS)
            s = int(hashlib.sha256(('%s %s %d %d %s' % (prop, t.name, seed, shard, tier)).encode()).hexdigest()[:12], 16)
            f = explore(t, s, n, tier, stats, t0 + SOFT_LIMIT_S[tier] * (i + 1) / len(mod.TESTS))
            if f is not None:
                failure = (t.name,) + f
                break
    stats['nontrivial'] = sorted(stats['nontrivial'])
    stats['failure'] = failure
    with open(out, 'w') as f:
        json.dump(stats, f)


def known_findings(prop):
    """Lines 'known: property=<id> test=<test> case=<sha256 of the case> <what fails>' of known_findings.txt."""
    found = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) test=(\S+) case=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    found.append(m.groups())
    return found


def main(prop):
    t0 = real_time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        raise HarnessError('bad VERIF_TIER ' + tier)
    mod = load(prop)
    tmp = tempfile.mkdtemp(prefix='pbt_')
    procs = []
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    try:
        for i in range(SHARDS):
            out = os.path.join(tmp, '%d.json' % i)
            err = open(os.path.join(tmp, '%d.err' % i), 'w')
            p = subprocess.Popen([sys.executable, '-m', 'pbt.core', '--shard', prop, str(i), str(seed), tier, out],
                                 cwd=VERIF, env=env, stdout=err, stderr=err)
            procs.append((p, out, err))
        results, errors = [], []
        for p, out, err in procs:
            p.wait()
            err.close()
            if p.returncode == 0 and os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(err.name) as f:
                    errors.append((p.returncode, f.read()[-4000:]))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    nontrivial, labels, per_test, samples = set(), {}, {}, []
    failures = []
    for r in results:
        nontrivial.update(r['nontrivial'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for s in r['samples']:
            if sum(x['test'] == s['test'] for x in samples) < 2:
                samples.append(s)
        if r['failure']:
            failures.append(tuple(r['failure']))
    while len(json.dumps(samples)) > 24000:
        samples.pop()

    known = known_findings(prop)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    known_keys = {(k[1], k[2]) for k in known}
    failures = [f for f in failures if (f[0], hashlib.sha256(canonical(f[1]).encode()).hexdigest()) not in known_keys]
    failures.sort(key=lambda f: (len(canonical(f[1])), canonical(f[1])))

    replay = None
    if failures:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
        test, case, err = failures[0]
        replay = os.path.join(VERIF, 'evidence', 'replays', '%s-seed%d-%s.json' % (prop, seed, tier))
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'test': test, 'message': err, 'case': case}, f, indent=1)

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'classes': dict(sorted(labels.items())),
            'tests': {t.name: sum(r['per_test'].get(t.name, 0) for r in results) for t in mod.TESTS},
            'soft_limit_reached': any(r['soft_limit'] for r in results),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(real_time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if failures:
        print('%s: test %s: %s' % (prop, failures[0][0], failures[0][2]))
        print('case: ' + canonical(failures[0][1])[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if errors:
        print('HARNESS ERROR in %d of %d processes' % (len(errors), SHARDS))
        print(errors[0][0], errors[0][1])
        return 3
    c = evidence['coverage']
    print('%s ok: %d cases, %d distinct non-trivial, %.1f s' % (prop, c['evaluations'], c['distinct_nontrivial'],
                                                              evidence['wall_s']))
    return 0


def replay_main(path):
    with open(path) as f:
        r = json.load(f)
    mod = load(r['property'])
    test = {t.name: t for t in mod.TESTS}[r['test']]
    rec, err = run_case(test, r['case'], limit=2 * CASE_LIMIT_S)
    if err is None:
        print('%s: the recorded case passes' % r['property'])
        return 0
    print('%s: test %s: %s' % (r['property'], r['test'], err))
    print('VIOLATION property=%s replay=%s' % (r['property'], os.path.abspath(path)))
    return 1


def selftest():
    """The checks load, and the tools are there."""
    import hypothesis
    names = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'pbt', 'checks')) if re.fullmatch(r'c\d+\.py', f))
    for name in names:
        mod = load(name)
        assert mod.TESTS and mod.RULE
        regressions(name)
        known_findings(name)
    print('%d checks, hypothesis %s, code from %s' % (len(names), hypothesis.__version__, REPO))


if __name__ == '__main__':
    # Names must resolve to the same module whether run as a script or imported by the checks
    sys.path.insert(0, VERIF)
    from pbt import core
    try:
        if sys.argv[1] == '--shard':
            core.shard_main(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6])
            code = 0
        elif sys.argv[1] == '--selftest':
            core.selftest()
            code = 0
        elif sys.argv[1] == '--replay':
            code = core.replay_main(sys.argv[2])
        else:
            code = core.main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
