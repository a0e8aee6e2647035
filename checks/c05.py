"""C05: no call, failure or mode change leaves a trace in a codec, its schema or its arguments"""
import copy

from vlib import gen, model, near
from vlib.cases import MODES, REJECT, gen_valid, mkcodec, pick_type
from vlib.model import same
from vlib.runner import Prop, Skip, require

ID = 'C05'
RULE = ('a case is a generated schema and a history of 3-12 operations (encode, decode, set_mode, call with a bad value, scribbling over '
        'a returned result), now and then many times over, on two codecs made from the same schema object; every result is compared with that of a fresh codec in the '
        'same mode made from a private copy of the schema. Non-trivial: the history contains a successful call after a mode change or a '
        'failure; distinct by (schema, history).')
ASSUMPTIONS = ['a fresh codec made from a deep copy of the schema is the reference', 'single-threaded use']


def strategy(s):
    sc = gen.schema(s, n_types=(2, 5), config=True, info='some')
    m = model.Model(sc)
    modes = [s.pick(MODES), s.pick(MODES)]
    ops = [['mode', 0, list(modes[0])], ['mode', 1, list(modes[1])]]
    cur = list(modes)
    for _ in range(s.int(3, 12)):
        k, who = s.n(8), s.n(2)
        if k == 0:
            cur[who] = s.pick(MODES)
            ops.append(['mode', who, list(cur[who])])
            continue
        tn = pick_type(s, sc, m)
        try:
            v = gen_valid(s, m, tn)
            if k in (2, 3):
                v, _l = near.near(s, m, m.te(tn), v)
            if k >= 4 or k == 3:
                w = near.loose(m, m.te(tn), v, *(cur[who] if s.p(80) else s.pick(MODES)))
                ops.append(['decode', who, tn, w])
            else:
                ops.append(['encode', who, tn, v])
        except Skip:
            continue
        except (TypeError, KeyError, AttributeError, IndexError, ValueError):
            continue
    return {'schema': sc, 'ops': ops, 'rounds': s.pick([3, 12, 40]) if s.p(8) else 1}


def scribble(v, depth=0):
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x, depth + 1)
        v['@scribble'] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x, depth + 1)
        v.append('@scribble')


def outcome(f, *a):
    try:
        return ('value', f(*a))
    except REJECT as e:
        return ('rejected', type(e).__name__ + ': ' + str(e))


def oracle(case, cov):
    import jadn
    pristine = copy.deepcopy(case['schema'])
    shared = copy.deepcopy(case['schema'])
    cs = [jadn.codec.Codec(shared) for _ in range(2)]
    mode = [(False, False)] * 2
    changed, good = False, False
    fresh = {}
    for n, op in enumerate(case['ops'] * case.get('rounds', 1)):
        who = op[1]
        if op[0] == 'mode':
            mode[who] = tuple(op[2])
            cs[who].set_mode(*mode[who])
            if n > 1:
                changed = True
                cov.label('mode change')
            continue
        arg = copy.deepcopy(op[3])
        got = outcome(getattr(cs[who], op[0]), op[2], arg)
        require(same(arg, op[3]) and repr(arg) == repr(op[3]), lambda: f'step {n}: {op[0]} {op[2]} changed its argument from {op[3]!r} to {arg!r}')
        k = (n % len(case['ops']), mode[who])
        want = fresh[k] if k in fresh else outcome(getattr(mkcodec(pristine, mode[who]), op[0]), op[2], copy.deepcopy(op[3]))
        fresh[k] = copy.deepcopy(want)
        require(got[0] == want[0] and same(got[1], want[1]),
                lambda: f'step {n}: {op[0]} {op[2]} {op[3]!r} in mode {mode[who]} gives {got!r}, a fresh codec {want!r}')
        require(repr(shared) == repr(pristine), lambda: f'step {n}: {op[0]} {op[2]} {op[3]!r} changed the schema')
        cov.label(f'{op[0]} {got[0]}')
        if got[0] == 'rejected':
            changed = True
        else:
            good = good or changed
            scribble(got[1])
    if good:
        cov.hit((pristine['types'], case['ops']))


PROPS = [Prop('history', strategy, oracle, quick=220, thorough=9000, size=900)]
