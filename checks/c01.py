"""C01: encode -> JSON text -> decode restores every valid message, in all four modes"""
import json

from vlib import gen, model
from vlib.cases import MODES, gen_valid, kinds, mkcodec, pick_type, to_json, structured
from vlib.model import OK, same
from vlib.runner import Prop, require

ID = 'C01'
RULE = ('a case is a generated schema (1-6 types over all base types, formats and extensions), a type of it and a value the '
        'reference model built to be valid; each case runs in all four modes. Non-trivial: the value is a non-empty container '
        'or passes through a format/enumeration; distinct by (schema, type, value).')
ASSUMPTIONS = ['the generated value is valid by the reference model in vlib/model.py (checked again by model.encode)',
               'messages pass through Python json', 'union values that fit several alternatives differently are left to C22']


def strategy(s):
    sc = gen.schema(s)
    m = model.Model(sc)
    tn = pick_type(s, sc, m)
    return {'schema': sc, 'type': tn, 'value': gen_valid(s, m, tn)}


def has_union(m, te, v):
    ks = set()
    kinds(m, te, v, ks)
    return any(k.startswith('Union') for k in ks)


def oracle(case, cov):
    sc, tn, v = case['schema'], case['type'], case['value']
    m = model.Model(sc)
    te = m.te(tn)
    ks = set()
    kinds(m, te, v, ks)
    cov.label(*ks)
    if structured(v) or te.base in ('Binary', 'Enumerated') or 'format' in te.o:
        cov.hit((sc['types'], tn, v))
    union = any(k.startswith('Union') for k in ks)
    for mode in MODES:
        exp = m.encode(te, v, *mode)
        if not isinstance(exp, OK):
            cov.label('unspecified-value')
            continue
        c = mkcodec(sc, mode)
        wire = c.encode(tn, v)
        text = json.dumps(wire)
        if union:       # an untagged message may be read as another alternative
            r = m.decode(te, json.loads(text), *mode)
            if not isinstance(r, OK) or not same(r.v, v):
                cov.label('union-ambiguous')
                continue
        back = c.decode(tn, json.loads(text))
        require(same(back, v), lambda: f'mode {mode}: {tn} value {v!r} encoded as {text} decodes to {back!r}')
        back2 = c.decode(tn, wire)
        require(same(back2, v), lambda: f'mode {mode}: {tn} value {v!r} encoded as {wire!r} (no JSON text) decodes to {back2!r}')
        if len(text) > 2:
            cov.label('mode%d%d' % mode)


PROPS = [Prop('roundtrip', strategy, oracle, quick=300, thorough=12000)]
