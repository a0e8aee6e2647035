"""C16: canonical form identifies schemas that mean the same (metamorphic: permuted options, explicit defaults; codec differential)"""
import copy

from vlib import gen, model, near, notation as nt
from vlib.cases import MODES, REJECT, gen_valid, mkcodec, pick_type, wide
from vlib.model import same
from vlib.runner import Prop, Skip, require
from checks.c09 import accepted

import jadn

ID = 'C16'
RULE = ('a case is a generated schema and a variant of it with options in another order, defaults spelled out ({0 on sizes, [1 and ]1 on fields) or left out, and number limits '
        'spelled differently. Both must have the same canonical form, which must be a fixed point, list options in canonical order, differ from the original only in these ways, '
        'and be accepted; the original must be unchanged. codec: values near validity are encoded by the original and the canonical schema with the same result. Non-trivial: the variant differs '
        'from the schema; distinct by schema and variant, or schema and value.')
ASSUMPTIONS = ['canonical order is that of the option table of the JADN specification',
               'codec: a field of a plain built-in type is not given {0 as its only option (that makes it a defined type, to which the default maximum size applies)']


def variant(s, sc, lone=True):
    v = copy.deepcopy(sc)
    for t in v['types']:
        t[:] = nt.full(t)
        t[2] = remix(s, t[2], t[1], False, True)
        for f in t[4] if t[1] != 'Enumerated' else []:
            f[3] = remix(s, f[3], f[2], True, lone)
    return v


SIZED = ('Binary', 'String', 'ArrayOf', 'MapOf', 'Map', 'Record', 'Array')


def remix(s, opts, base, field, lone):
    o = list(opts)
    if not lone and not [x for x in o if x[0] not in nt.FIELD_IDS and x != '{0' and not (x == 'q' and base != 'ArrayOf')]:
        o = [x for x in o if x != '{0']         # see ASSUMPTIONS
    elif base in SIZED and not any(x[0] in '{%' for x in o) and s.p(40):
        o.append('{0')
    elif base != 'Integer' and '{0' in o and s.p(40):
        o.remove('{0')
    if field:
        for d in ('[1', ']1'):
            if d in o:
                if s.p(50):
                    o.remove(d)
            elif not any(x[0] == d[0] for x in o) and s.p(35) and not (d == ']1' and any(x[0] == '[' and int(x[1:]) > 1 for x in o)):
                o.append(d)
    o = [respell(s, x) if x[0] in 'yz' else x for x in o]
    return s.shuffle(o)


def respell(s, x):
    f = float(x[1:])
    forms = [repr(f), f'{f:e}', f'{f:.6f}' if float(f'{f:.6f}') == f else repr(f), str(int(f)) if f == int(f) else repr(f), '+' + repr(f) if f >= 0 else repr(f)]
    return x[0] + s.pick([y for y in forms if float(y) == f])


def strategy(s):
    sc = wide(s)
    return {'schema': sc, 'variant': variant(s, sc)}


def oracle(case, cov):
    sc, va = case['schema'], case['variant']
    if not accepted(sc) or not accepted(va):
        cov.label('not accepted')
        return
    b1, b2 = copy.deepcopy(sc), copy.deepcopy(va)
    c1, c2 = jadn.canonicalize(sc), jadn.canonicalize(va)
    require(sc == b1 and va == b2, 'canonicalize changed its argument')
    t1, t2 = [nt.full(t) for t in c1['types']], [nt.full(t) for t in c2['types']]
    for x, y in zip(t1, t2):
        require(x == y, lambda: f'canonical forms differ: {x} and {y}')
    require(t1 == t2 and c1.get('info') == c2.get('info') == sc.get('info'), lambda: f'canonical forms differ: {c1} and {c2}')
    require(jadn.canonicalize(c1) == c1, 'canonicalizing again changes the schema')
    require([nt.norm_type(t) for t in c1['types']] == [nt.norm_type(t) for t in sc['types']], lambda: nt.diff([nt.norm_type(t) for t in sc['types']], [nt.norm_type(t) for t in c1['types']]))
    for t, o in zip(t1, sc['types']):
        o = nt.full(o)
        require(t[3] == o[3] and len(t[4]) == len(o[4]), lambda: f'description or fields of {o} changed: {t}')
        for row, k, base in [(t, 2, t[1])] + [(f, 3, f[2]) for f in (t[4] if t[1] != 'Enumerated' else [])]:
            ranks = [nt.RANK[x[0]] for x in row[k]]
            require(ranks == sorted(ranks), lambda: f'options are not in canonical order: {row[k]}')
            require(not any(x in ('[1', ']1') or (x == '{0' and base != 'Integer') for x in row[k]), lambda: f'default options are left in {row}')
    jadn.check(copy.deepcopy(c1))
    cov.label('info' if 'info' in sc else 'no info')
    if [nt.full(t) for t in sc['types']] != va['types']:
        cov.hit((sc, va))


def strategy_codec(s):
    sc = variant(s, gen.schema(s, config=True, info='some'), False)
    m = model.Model(sc)
    tn = pick_type(s, sc, m)
    vals = []
    for _ in range(3):
        v = gen_valid(s, m, tn)
        if s.p(50):
            v, _l = near.near(s, m, m.te(tn), v)
        vals.append(v)
    return {'schema': sc, 'type': tn, 'values': vals, 'mode': s.pick(MODES)}


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except REJECT as e:
        return 'rejected', type(e).__name__


def oracle_codec(case, cov):
    sc, tn, mode = case['schema'], case['type'], case['mode']
    if not accepted(sc):
        cov.label('not accepted')
        return
    a, b = mkcodec(sc, mode), mkcodec(jadn.canonicalize(copy.deepcopy(sc)), mode)
    for v in case['values']:
        x, y = attempt(a.encode, tn, copy.deepcopy(v)), attempt(b.encode, tn, copy.deepcopy(v))
        require(x[0] == y[0] and (x[0] != 'ok' or same(x[1], y[1])), lambda: f'value {v!r} of {tn}: {x} with the original schema, {y} with its canonical form')
        cov.label(x[0])
        cov.hit((sc, tn, v))
        if x[0] == 'ok':
            x, y = attempt(a.decode, tn, copy.deepcopy(x[1])), attempt(b.decode, tn, copy.deepcopy(x[1]))
            require(x[0] == y[0] and (x[0] != 'ok' or same(x[1], y[1])), lambda: f'message of {v!r} of {tn}: {x} with the original schema, {y} with its canonical form')


PROPS = [Prop('canonical', strategy, oracle, 200, 3500, size=1100), Prop('codec', strategy_codec, oracle_codec, 250, 4000, size=1100)]
