"""C28: schemas used in one process do not influence each other (histories over several schemas; differential against a fresh process per operation)"""
import contextlib
import copy
import io
import os
import pickle
import re
import signal

from vlib import gen, model, near, notation as nt
from vlib.cases import MODES, REJECT, gen_valid, mkcodec, pick_type, wide
from vlib.runner import Prop, Skip, require
from checks import c07, c08, c09, c17, c19, c24

import jadn

ID = 'C28'
RULE = ('a case is two or three unrelated generated schemas - other configured characters, limits and name patterns, same type names with other definitions, perhaps one with a fault - and a history of 4-9 operations '
        'over them: check, load and write JADN, JIDL and HTML text, build a codec, encode, decode, unfold, strip, order, draw, JSON Schema, each on private copies. Each result, exceptions included, must be the one that '
        'operation gives as the first and only one of a new process. Non-trivial: an operation succeeds after one on another schema; distinct by schemas and history.')
ASSUMPTIONS = ['single-threaded use', 'a forked child which has imported the package and used nothing of it stands for a new process']


LIMITS = {'$MaxString': (0, 1, 2, 3, 9, 40, 300), '$MaxElements': (0, 1, 2, 3, 5, 20, 150), '$MaxBinary': (0, 1, 2, 3, 9, 40, 300)}


def sibling(s, sc):
    """the same package with another configuration"""
    sc = copy.deepcopy(sc)
    cfg = sc.setdefault('info', {'package': 'http://x/y'})
    if not isinstance(cfg, dict) or not isinstance(cfg.setdefault('config', {}), dict):
        return sc               # faulty already
    cfg = cfg['config']
    for k in LIMITS:
        if s.p(60):
            cfg[k] = s.pick(LIMITS[k][1:])
        else:
            cfg.pop(k, None)
    for k, rules in (('$TypeName', ['^[A-Z][-$A-Za-z0-9]{0,63}$', '^[$A-Z][-$A-Za-z0-9]{0,4}$', '^[A-Za-z]*$']), ('$FieldName', ['^[a-z]*$', '^[a-z][_A-Za-z0-9]{0,63}$']), ('$NSID', ['^x$', '^[a-z0-9]*$'])):
        if s.p(20):
            cfg[k] = s.pick(rules)
    if not cfg:
        del sc['info']['config']
    return sc


def strategy(s):
    scs = []
    for i in range(s.int(2, 3)):
        k = s.n(10)
        if k < 4:
            sc = gen.schema(s, n_types=(1, 4), config=True, info='some')
        elif k < 8:
            sc = wide(s, n_types=(1, 5))
        else:
            sc = c19.spice(s, wide(s, n_types=(1, 4)))
        if s.p(50):
            c = sc.setdefault('info', {'package': 'http://x/y'}).setdefault('config', {})
            c.update(s.pick([{'$FS': '/'}, {'$FS': '~'}, {'$Sys': '.'}, {'$Sys': '@'}, {'$MaxString': s.int(1, 300)}, {'$MaxElements': s.int(1, 150)}, {'$MaxBinary': s.int(1, 300)},
                             {'$TypeName': '^[A-Z][-$A-Za-z0-9]{0,63}$'}, {'$FieldName': '^[a-z][_A-Za-z0-9]{0,63}$'}, {'$NSID': '^[A-Za-z][A-Za-z0-9]{0,7}$'}, {'$NSID': '^[A-Za-z][A-Za-z0-9]{0,15}$'}]))
        if s.p(20):
            fk = s.pick(sorted(c07.FAULTS))
            f = copy.deepcopy(sc)
            f['types'] = [c07.full(t) for t in f['types']]
            if c07.FAULTS[fk](s, f):
                sc = f
        scs.append(sc)
    if s.p(60):                 # the same names mean something else
        with contextlib.suppress(Exception):
            scs[1] = c09.rename(scs[1], dict(zip([t[0] for t in scs[1]['types']], s.shuffle([t[0] for t in scs[0]['types']]))))
    if twin := s.p(45):         # only the configuration differs
        scs[1] = sibling(s, scs[0])
    ops = []
    for _ in range(s.int(4, 9)):
        w = s.n(len(scs))
        if twin and s.p(50):    # the same operation on both
            w = s.n(2)
            if s.p(30):
                op = [s.pick(['check', 'loads', 'jidl text', 'codec', 'unfold']), w, [s.n(256) for _ in range(4)]]
            else:
                try:
                    m = model.Model(scs[s.n(2)])
                    tn = pick_type(s, scs[w], m)
                    v = gen_valid(s, m, tn)
                    if s.p(40):
                        v, _l = near.near(s, m, m.te(tn), v)
                    op = ['encode', w, [tn, list(s.pick(MODES)), v]]
                except Skip:
                    continue
                except Exception:
                    continue
            ops += [op, [op[0], 1 - w, op[2]]]
            continue
        if s.p(40):
            try:
                m = model.Model(scs[w])
                tn = pick_type(s, scs[w], m)
                v = gen_valid(s, m, tn)
                if s.p(35):
                    v, _l = near.near(s, m, m.te(tn), v)
                mode = s.pick(MODES)
                ops.append(['encode', w, [tn, list(mode), v]] if s.p(50) else ['decode', w, [tn, list(mode), near.loose(m, m.te(tn), v, *mode)]])
                continue
            except Skip:
                pass
            except Exception:   # a faulty schema has no model
                pass
        ops.append([s.pick(TOOLS), w, [s.n(256) for _ in range(4)]])
    return {'schemas': scs, 'ops': ops}


TOOLS = [t for t in c24.TOOLS if t != 'files'] + ['check', 'check', 'loads', 'jidl text', 'html text', 'bare check']


def run(op, sc):
    tool, _, r = op
    sc = copy.deepcopy(sc)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if tool in ('encode', 'decode'):
                res = getattr(mkcodec(sc, tuple(r[1])), tool)(r[0], copy.deepcopy(r[2]))
            elif tool == 'check':
                res = jadn.check(sc)
            elif tool == 'bare check':
                sc.get('info', {}).pop('config', None)
                res = jadn.check(sc)
            elif tool == 'loads':
                import json
                res = jadn.loads(json.dumps(sc))
            elif tool == 'jidl text':
                res = jadn.convert.jidl_loads(jadn.convert.jidl_dumps(sc))
            elif tool == 'html text':
                res = jadn.convert.html_loads(jadn.convert.html_dumps(sc))
            else:
                res = c24.use(tool, r, sc)
        return 'value', re.sub(' at 0x[0-9a-f]+', '', repr(res))
    except Exception as e:      # compared, whatever it is
        return 'exception', f'{type(e).__name__}: {e}'


def forked(ops, scs):
    """outcomes of the operations in a new process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(rd)
            out = pickle.dumps([run(op, scs[op[1]]) for op in ops])
            with os.fdopen(wr, 'wb') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else [('process died', '')] * len(ops)


def oracle(case, cov):
    scs, ops = case['schemas'], case['ops']
    got = forked(ops, scs)
    seen, good = set(), False
    for n, op in enumerate(ops):
        want = forked([op], scs)[0]
        require(got[n] == want, lambda: f'step {n}: {op[0]} with schema {op[1]} {op[2]} after {[(o[0], o[1]) for o in ops[:n]]} gives {got[n]}, in a new process {want}')
        cov.label(f'{op[0]} {want[0]}')
        if want[0] == 'value' and seen - {op[1]}:
            good = True
        seen.add(op[1])
    if good:
        cov.hit((scs, ops))


PROPS = [Prop('world', strategy, oracle, 40, 1500, size=1500)]
