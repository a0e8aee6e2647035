"""C13: removing extensions does not change which messages are valid (reference model of the original schema against the model and the codec of the result)"""
import copy

from vlib import gen, model, near, notation as nt
from vlib.cases import MODES, REJECT, gen_valid, kinds, mkcodec, pick_type, to_json
from vlib.model import BAD, OK, UNSPEC, same
from vlib.runner import Prop, Skip, require
from checks.c12 import EXT, has
from checks.c15 import refs_of

import jadn
from jadn.transform import unfold_extensions

ID = 'C13'
RULE = ('a case is a generated schema, all or some extensions, an author-defined type and a value: valid, or moved onto or across one declared constraint, or mutated. In all four modes the reference model of the '
        'resulting schema must encode, accept and reject the value, and decode its message and a mutated message, exactly like the reference model of the schema as written; a codec for the result must too. '
        'Non-trivial: the type or one it contains uses a removed extension and a verdict is definite; distinct by (schema, extensions, type, value).')
ASSUMPTIONS = ['vlib/model.py is the meaning of extensions; outcomes it leaves open (UNSPEC) under either schema are not compared', "author type names do not contain '$'"]


def strategy(s):
    sc = gen.schema(s, config=s.p(20), info='some' if s.p(20) else 'none')
    m = model.Model(sc)
    tn = pick_type(s, sc, m)
    te = m.te(tn)
    v = gen_valid(s, m, tn)
    how = s.n(10)
    lab = 'valid'
    if 2 <= how < 8:
        v, lab = near.near(s, m, te, v)
    elif how == 8:
        v, lab = model.mutate(s, v), 'mutated'
    case = {'schema': sc, 'ext': sorted(EXT) if s.p(50) else s.some(list(EXT), 50) or [s.pick(EXT)], 'type': tn, 'value': v, 'how': lab, 'mode': list(s.pick(MODES))}
    try:
        w = to_json(near.loose(m, te, v, *case['mode']))
        case['message'] = model.mutate(s, w, api=False) if s.p(35) else w
    except (TypeError, KeyError, AttributeError, IndexError, ValueError):
        pass
    return case


def agree(a, b):
    if a is UNSPEC or b is UNSPEC:
        return True
    return type(a) is type(b) and (isinstance(a, BAD) or same(a.v, b.v))


def run(f, *a):
    try:
        return OK(f(*a))
    except REJECT as e:
        return BAD(f'{type(e).__name__}: {e}')


def oracle(case, cov):
    sc, tn, v = case['schema'], case['type'], case['value']
    types = {t[0]: t for t in sc['types']}
    before = copy.deepcopy(sc)
    out = unfold_extensions(sc, set(case['ext']))
    require(sc == before, 'the schema was modified')
    m, n = model.Model(sc), model.Model(out)
    te = m.te(tn)
    try:
        ne = n.te(tn)
    except (KeyError, IndexError) as e:
        require(False, f'{tn}: the result without {case["ext"]} is broken: {type(e).__name__} {e}: {out["types"]}')
    definite = False
    what = f'without {case["ext"]}, {tn}'
    for mode in MODES:
        a, b = m.encode(te, v, *mode), n.encode(ne, v, *mode)
        definite |= a is not UNSPEC
        require(agree(a, b), lambda: f'{what}, mode {mode}: value {v!r} encodes to {a}, but to {b} with the result {out["types"]}')
    mode = tuple(case['mode'])
    c = mkcodec(out, mode)
    a = m.encode(te, v, *mode)
    r = run(c.encode, tn, v) if a is not UNSPEC else UNSPEC
    require(agree(a, r), lambda: f'{what}, mode {mode}: value {v!r} should encode to {a}, the codec of the result gives {r}')
    cov.label(f'encode:{type(a).__name__}')
    if 'message' in case:
        w = case['message']
        a, b = m.decode(te, w, *mode), n.decode(ne, w, *mode)
        definite |= a is not UNSPEC
        require(agree(a, b), lambda: f'{what}, mode {mode}: message {w!r} decodes to {a}, but to {b} with the result {out["types"]}')
        r = run(c.decode, tn, w) if a is not UNSPEC else UNSPEC
        require(agree(a, r), lambda: f'{what}, mode {mode}: message {w!r} should decode to {a}, the codec of the result gives {r}')
        cov.label(f'decode:{type(a).__name__}')
    used, todo, seen = set(), [tn], set()
    while todo:
        t = todo.pop()
        if t in types and t not in seen:
            seen.add(t)
            used |= has(types[t], types)
            todo += refs_of(nt.full(types[t]))
    used &= set(case['ext'])
    cov.label(*used)
    if definite and used:
        cov.hit((sc['types'], case['ext'], tn, v, case.get('message')))


PROPS = [Prop('messages', strategy, oracle, 1200, 30000, size=900)]
