"""C02: encode accepts exactly the valid values and writes the message the mode defines"""
from vlib import gen, model, near
from vlib.cases import MODES, REJECT, gen_valid, kinds, mkcodec, pick_type
from vlib.model import BAD, OK, UNSPEC, same
from vlib.runner import Prop, Violation, require

ID = 'C02'
RULE = ('a case is a generated schema, a type and an API value: valid, moved onto or across one declared constraint '
        '(schema-directed), or blindly mutated; judged in all four modes against the reference model. Non-trivial: the model '
        'has a definite verdict in some mode and the value is structured or lies at a constraint; distinct by (schema, type, value).')
ASSUMPTIONS = ['vlib/model.py is the meaning of the schema; where the JADN text leaves the outcome open it answers UNSPEC and the case is not judged',
               'rejection means ValueError or TypeError']


def strategy(s):
    sc = gen.schema(s)
    m = model.Model(sc)
    tn = pick_type(s, sc, m)
    v = gen_valid(s, m, tn)
    how = s.n(10)
    lab = 'valid'
    if 2 <= how < 8:
        v, lab = near.near(s, m, m.te(tn), v)
    elif how == 8:
        v, lab = model.mutate(s, v), 'mutated'
    elif how == 9:
        for _ in range(2):
            v, lab = near.near(s, m, m.te(tn), v)
        lab = 'two edges'
    return {'schema': sc, 'type': tn, 'value': v, 'how': lab}


def oracle(case, cov):
    sc, tn, v = case['schema'], case['type'], case['value']
    m = model.Model(sc)
    te = m.te(tn)
    verdicts = set()
    for mode in MODES:
        exp = m.encode(te, v, *mode)
        verdicts.add(type(exp).__name__)
        c = mkcodec(sc, mode)
        try:
            got = c.encode(tn, v)
        except REJECT as e:
            require(not isinstance(exp, OK), lambda: f'mode {mode}: encode {tn} rejects the valid value {v!r}: {type(e).__name__}: {e}')
            continue
        except Exception as e:
            if exp is UNSPEC:
                continue
            raise
        if exp is UNSPEC:
            continue
        require(not isinstance(exp, BAD), lambda: f'mode {mode}: encode {tn} accepts {v!r} ({exp.why}) as {got!r}')
        require(same(got, exp.v), lambda: f'mode {mode}: encode {tn} {v!r} gives {got!r}, not {exp.v!r}')
    cov.label(*('verdict:' + x for x in verdicts))
    for x in verdicts:
        cov.label(f'{case["how"]} -> {x}')
    if verdicts & {'OK', 'BAD'} and (case['how'] != 'valid' or isinstance(v, (dict, list))):
        cov.hit((sc['types'], tn, v))


PROPS = [Prop('encode', strategy, oracle, quick=500, thorough=20000)]
