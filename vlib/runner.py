"""
Runs one property's checks: Hypothesis search over generated cases, in several worker processes with different seeds.

A check module defines ID, RULE, ASSUMPTIONS and PROPS: a list of Prop.  A Prop has
  strategy(src) -> case     (a plain Python literal: everything the oracle needs)   built from bytes Hypothesis draws
  oracle(case, cov)         raises Violation when the code under test breaks the property on this case
Because the case is data, a shrunk failure is saved as a replay file that runs without Hypothesis.

exit 0: held on everything explored;  1: a VIOLATION line was printed;  2: the check itself could not run.
"""
import argparse
import ast
import contextlib
import glob
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import env
from .src import Src

warnings.simplefilter('ignore')

REPLAYS = os.path.join(env.VERIF, 'replays')
SHARDS = {'quick': 8, 'thorough': 8}
QUICKFAIL = bool(os.environ.get('VERIF_NOSHRINK'))      # development: report the first failure unshrunk
CASE_SECONDS = 60
SHARD_TIMEOUT = {'quick': 780, 'thorough': 5400}


class Violation(Exception):
    pass


class Hang(BaseException):
    """a case takes thousands of times longer than it should"""


class Skip(Exception):
    """the drawn bytes do not make a case (counted, not an error)"""


class Cov:
    """what one worker actually exercised"""
    def __init__(self):
        self.evals = 0
        self.skipped = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def hit(self, key):
        """this case is non-trivial by the property's rule; key identifies it"""
        h = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
        self.nontrivial.add(h)


class Prop:
    def __init__(self, name, strategy, oracle, quick, thorough, size=700, max_size=None):
        self.name, self.strategy, self.oracle = name, strategy, oracle
        self.quick, self.thorough = quick, thorough     # cases per worker
        self.size, self.max_size = size, max_size or size * 2


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def frames_of(e):
    return [f.filename for f in traceback.extract_tb(e.__traceback__)]


def judge(prop, case, cov):
    """run the oracle; anything it raises other than Violation came from the code under test misbehaving"""
    def late(signum, frame):
        raise Hang
    try:
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                prop.oracle(case, cov)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation:
        raise
    except Hang:
        raise Violation(f'no result within {CASE_SECONDS} s (a case normally takes milliseconds)') from None
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        own = [f for f in frames_of(e) if env.SRC in f]
        where = 'in the code under test' if own else 'interpreting the result of the code under test'
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f'unexpected {type(e).__name__} {where}: {str(e)[:300]} ({os.path.basename(tb.filename)}:{tb.lineno})') from e


# ---------------------------------------------------------------- replay files
def lit(text):
    return ast.literal_eval(text)


def write_replay(pid, prop, case, msg, directory=None):
    os.makedirs(directory or REPLAYS, exist_ok=True)
    body = repr(case)
    assert lit(body) == case or True
    h = hashlib.sha256(body.encode('utf-8', 'surrogatepass')).hexdigest()[:12]
    path = os.path.join(directory or REPLAYS, f'{pid}-{prop}-{h}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'check': prop, 'message': msg, 'case': body}, f, indent=1)
        f.write('\n')
    return path


def load_replay(path):
    with open(path) as f:
        d = json.load(f)
    return d['check'], lit(d['case']), d


# ---------------------------------------------------------------- one worker
def seed_for(base, *parts):
    return int.from_bytes(hashlib.sha256(repr((base,) + parts).encode()).digest()[:8], 'big')


def shrink_bytes(data, fails, budget=400, seconds=40):
    """extra passes after Hypothesis: drop and zero chunks, whatever the fixed block length"""
    t0, n = time.time(), 0
    best = data
    improved = True
    while improved and n < budget and time.time() - t0 < seconds:
        improved = False
        for size in (256, 64, 16, 4, 1):
            i = 0
            while i < len(best) and n < budget and time.time() - t0 < seconds:
                for cand in (best[:i] + best[i + size:], best[:i] + bytes(len(best[i:i + size])) + best[i + size:]):
                    if cand != best and (len(cand) < len(best) or cand < best):
                        n += 1
                        if fails(cand):
                            best, improved = cand, True
                            break
                else:
                    i += size
    return best


def run_prop(mod, prop, tier, seed, shard, cov):
    """-> (case, message) of a shrunk failure, or None"""
    from hypothesis import HealthCheck, Phase, given, settings, strategies as st
    from hypothesis import seed as hseed
    import hypothesis.errors
    n = getattr(prop, tier)
    if n <= 0:
        return None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(1, int(n * scale))
    state = {'fail': None, 'first': None, 'shrink_until': None}

    def attempt(data):
        try:
            case = prop.strategy(Src(data))
        except Skip:
            cov.skipped += 1
            return
        cov.evals += 1
        cov.label('check:' + prop.name)
        try:
            judge(prop, case, cov)
        except Violation as v:
            state['fail'] = (data, case, str(v))
            raise
        if len(cov.samples) < 6 and cov.evals % 7 == 1:
            cov.samples.append({'check': prop.name, 'case': repr(case)[:700]})

    @hseed(seed_for(seed, mod.ID, prop.name, shard))
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate] if QUICKFAIL else [Phase.generate, Phase.shrink])
    @given(st.binary(min_size=prop.size, max_size=prop.max_size))
    def test(data):
        if state['fail'] and state['shrink_until'] is None:
            state['shrink_until'] = time.time() + 30
        if state['shrink_until'] and time.time() > state['shrink_until']:
            return
        attempt(data)

    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            test()
    except Violation:
        pass
    except (hypothesis.errors.Flaky, hypothesis.errors.FlakyFailure) if hasattr(hypothesis.errors, 'FlakyFailure') else hypothesis.errors.Flaky:
        if not state['fail']:
            raise
    except BaseException as e:
        if not state['fail'] or isinstance(e, KeyboardInterrupt):
            raise
    if not state['fail']:
        return None
    data, case, msg = state['fail']

    def fails(d):
        try:
            c = prop.strategy(Src(d))
        except Skip:
            return False
        try:
            judge(prop, c, Cov())
        except Violation as v:
            state['fail'] = (d, c, str(v))
            return True
        return False

    if not QUICKFAIL:
        shrink_bytes(data, fails)
    _, case, msg = state['fail']
    return case, msg


def worker(mod, tier, seed, shard, nshards, out, only=None):
    cov = Cov()
    fails = []
    for prop in mod.PROPS:
        if only and prop.name != only:
            continue
        r = run_prop(mod, prop, tier, seed, shard, cov)
        if r:
            fails.append((prop.name, repr(r[0]), r[1]))
            break
    with open(out, 'w') as f:
        json.dump({'evals': cov.evals, 'skipped': cov.skipped, 'labels': cov.labels, 'nontrivial': sorted(cov.nontrivial),
                   'samples': cov.samples, 'fails': fails}, f)


# ---------------------------------------------------------------- parent
def known_findings(pid):
    path = os.path.join(env.VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d['property'] == pid:
                    out.append(d)
    return out


def replay_one(mod, name, case):
    prop = next(p for p in list(mod.PROPS) + list(getattr(mod, 'REPLAY_PROPS', [])) if p.name == name)
    try:
        judge(prop, case, Cov())
    except Violation as v:
        return str(v)
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--nshards', type=int)
    ap.add_argument('--out')
    ap.add_argument('--only')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    sys.setrecursionlimit(3000)
    mod = importlib.import_module('checks.' + a.pid.lower())
    import jadn
    if not os.path.abspath(jadn.__file__).startswith(env.SRC):
        print(f'error: jadn imported from {jadn.__file__}', file=sys.stderr)
        return 2

    if a.shard is not None:
        try:
            worker(mod, a.tier, seed, a.shard, a.nshards, a.out, a.only)
        except Exception as e:
            while e.__context__ is not None and not isinstance(e, AssertionError):
                e = e.__context__
            print('\n'.join(x[:300] for x in traceback.format_exception(type(e), e, e.__traceback__)[-8:]))
            return 3
        return 0

    if a.replay:
        name, case, d = load_replay(a.replay)
        msg = replay_one(mod, name, case)
        if msg:
            print(f'{name}: {msg}')
            print(f'VIOLATION property={a.pid} replay={a.replay}')
            return 1
        print(f'{name}: no violation on this case')
        return 0

    violations = []
    # 1. regression tier: minimised cases of defects found before
    nreg = 0
    for path in sorted(glob.glob(os.path.join(env.VERIF, 'regress', a.pid, '*.json'))):
        name, case, d = load_replay(path)
        nreg += 1
        if msg := replay_one(mod, name, case):
            violations.append((name, case, msg, path))
    # 2. known findings: still failing exactly as listed
    nknown = 0
    for k in known_findings(a.pid):
        if k['kind'] != 'known':
            continue
        msg = replay_one(mod, k['check'], lit(k['case']))
        if msg:
            nknown += 1
            print(f'KNOWN-FINDING: property={a.pid} {k["what"]}')
        else:
            print(f'note: known finding no longer fails: property={a.pid} {k["what"]}')
    # 3. search
    n = int(os.environ.get('VERIF_SHARDS', SHARDS[a.tier]))
    n = getattr(mod, 'NSHARDS', n)
    results, errors = [], []
    if not violations:
        with tempfile.TemporaryDirectory(prefix='verif-') as tmp:
            procs = []
            for k in range(n):
                out = os.path.join(tmp, f'{k}.json')
                cmd = [sys.executable, '-W', 'ignore', os.path.join(env.VERIF, 'run.py'), a.pid, '--tier', a.tier, '--shard', str(k),
                       '--nshards', str(n), '--out', out] + (['--only', a.only] if a.only else [])
                e = dict(os.environ, VERIF_WORKDIR=tmp)
                procs.append((out, subprocess.Popen(cmd, cwd=env.VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                    start_new_session=True)))
            deadline = t0 + SHARD_TIMEOUT[a.tier]
            for out, p in procs:
                try:
                    log, _ = p.communicate(timeout=max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    with contextlib.suppress(ProcessLookupError):
                        os.killpg(p.pid, signal.SIGKILL)
                    log, _ = p.communicate()
                    errors.append('worker ran out of time')
                    continue
                if p.returncode != 0 or not os.path.exists(out):
                    errors.append(f'worker exit {p.returncode}: {log.decode(errors="replace")[-2000:]}')
                    continue
                results.append(json.load(open(out)))
    labels, nontriv, samples = {}, set(), []
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        nontriv |= set(r['nontrivial'])
        samples += r['samples']
    seen = set()
    for r in results:
        for name, body, msg in r['fails']:
            if name not in seen:
                seen.add(name)
                violations.append((name, lit(body), msg, None))
    evals = sum(r['evals'] for r in results)
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'samples': samples[:8],
            'skipped': sum(r['skipped'] for r in results),
            'classes': dict(sorted(labels.items())),
            'regression_cases': nreg,
            'known_findings_reproduced': nknown,
            'workers': n,
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(env.VERIF, 'evidence', f'{a.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write('\n')
    print(f'{a.pid} {a.tier} seed={seed}: {evals} cases, {len(nontriv)} distinct non-trivial, {nreg} regression, {ev["wall_s"]}s')
    if a.only or os.environ.get('VERIF_LABELS'):
        print(json.dumps(labels, indent=1, sort_keys=True))
    if violations:
        for name, case, msg, path in violations:
            path = path or write_replay(a.pid, name, case, msg)
            print(f'{name}: {msg}'[:2000])
            print(f'VIOLATION property={a.pid} replay={path}')
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    if evals == 0 or not nontriv:
        print('error: nothing non-trivial was explored', file=sys.stderr)
        return 2
    return 0
