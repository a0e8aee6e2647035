"""C23: outputs are reproducible from process to process (differential between worker processes with different hash seeds, time zones, locales and working directories)"""
import atexit
import copy
import json
import os
import subprocess
import sys

from vlib import env, gen, model, repro
from vlib.cases import gen_valid, wide
from vlib.runner import Prop, Skip, Violation, require
from checks import c09, c21
from checks.c09 import accepted

ID = 'C23'
RULE = ('a case is a generated schema using every notation, perhaps split into packages, and messages of it. Every output function, transformation, analysis and the codec runs twice in this process and in three other processes with '
        'different hash seeds, time zones, locales and working directories; all outputs (with the order of dictionaries) must be identical. Non-trivial: the schema has two or more types; distinct by schema.')
ASSUMPTIONS = ['files with a source header show the time of writing and are left out', 'the text of error messages is not compared']
ENVS = [('1', {'TZ': 'UTC', 'LC_ALL': 'C'}), ('20261119', {'TZ': 'Asia/Kathmandu', 'LC_ALL': 'C.UTF-8'}), ('4294967295', {'TZ': 'America/St_Johns', 'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'})]
_workers = []


def workers():
    if not _workers or any(w.poll() is not None for w in _workers):
        stop()
        for k, (seed, extra) in enumerate(ENVS):
            e = {k: v for k, v in os.environ.items() if k not in ('LANG', 'LC_ALL', 'TZ')}
            e.update(extra, PYTHONHASHSEED=seed)
            _workers.append(subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(env.VERIF, 'vlib', 'repro.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                             encoding='utf8', env=e, cwd=['/', '/tmp', env.VERIF][k], stderr=subprocess.DEVNULL))
    return _workers


def stop():
    while _workers:
        w = _workers.pop()
        w.kill()
        w.wait()


atexit.register(stop)


def strategy(s):
    if s.p(25):
        c = c21.strategy(s)
        sc, pk = c['schema'], c21.split(c)
        if not all(p['types'] for p in pk):
            pk = None
    else:
        sc, pk = wide(s, n_types=(1, 8)), None
        if s.p(30):
            sc = c09.spice(s, sc)
        info = sc.get('info')
        if info and s.p(50):
            info['roots'] = s.some([t[0] for t in sc['types']], 60) or [sc['types'][0][0]]
    vals = []
    m = model.Model(sc)
    for _ in range(s.int(0, 2)):
        t = s.pick([t[0] for t in sc['types']])
        try:
            v = gen_valid(s, m, t)
            json.dumps(v)
            if json.loads(json.dumps(v)) == v:
                vals.append([t, v])
        except (Skip, TypeError, ValueError, KeyError, Violation):
            continue
        except Exception:
            continue
    return {'schema': sc, 'packages': pk, 'values': vals}


def compare(a, b, what):
    require(list(a) == list(b), 'outputs missing')
    for k in a:
        if a[k] != b[k]:
            i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
            require(False, f'{what}: {k}: ...{a[k][max(0, i - 60):i + 120]!r} and ...{b[k][max(0, i - 60):i + 120]!r}')


def oracle(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    case = json.loads(json.dumps(case))
    line = json.dumps(case) + '\n'
    ws = workers()
    for w in ws:
        w.stdin.write(line)
        w.stdin.flush()
    mine = repro.outputs(case)
    again = repro.outputs(case)
    rest = []
    for w in ws:
        x = w.stdout.readline()
        if not x:
            stop()
            raise RuntimeError('a worker process ended')
        rest.append(json.loads(x))
    compare(mine, again, 'twice in one process')
    for r, (seed, extra) in zip(rest, ENVS):
        compare(mine, r, f'processes with hash seeds {os.environ.get("PYTHONHASHSEED")} and {seed}, {extra}')
    cov.label(*(['resolve'] if case['packages'] else []), *(k for k in mine if k.startswith('message') and not mine[k].startswith('!')))
    for k, v in mine.items():
        if v.startswith('!'):
            cov.label(f'{k} raises {v[1:]}')
    if len(sc['types']) > 1:
        cov.hit((sc, case['packages']))


PROPS = [Prop('reproducible', strategy, oracle, 60, 1200, size=900)]
