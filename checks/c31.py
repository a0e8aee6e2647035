"""C31: a schema is itself a message of the bundled meta-schema (round trip; differential: reference model, schema checker, generated and bundled JSON Schema)"""
import copy
import json
import os

import jsonschema

from checks import c07, c18
from vlib import gen, model, near
from vlib.cases import MODES, REJECT, to_json, wide
from vlib.model import BAD, OK, same
from vlib.runner import Prop, Skip, require

import jadn

ID = 'C31'
RULE = ('a case is a generated well-formed schema using every notation and possibly its own configuration (limits and name rules), all columns written. message: the codec of the bundled meta-schema, given the schema as '
        'configuration, must write it as a message in each of the four modes exactly as the reference model does, through JSON and back, and with names the message is the schema itself. verdict: the schema is mutated - one '
        'of the faults of C07, or an arbitrary or boundary mutation of the document - and the codec of the meta-schema must accept it, in both directions, exactly when the model of the meta-schema does, the JSON Schema '
        'generated from the meta-schema must agree where it can, and no document the meta-schema rejects may be accepted by the checker. fault: the structural faults of C07 must each be rejected by the codec of the bundled '
        'meta-schema and by the JSON Schema generated from it. Non-trivial: the schema has fields (message), or is not the well-formed one (verdict, fault); distinct by document.')
ASSUMPTIONS = ['faults in the meaning of options, references and duplicates are outside the meta-schema', 'the bundled JSON Schema is compared on documents the checker accepts only (it has no configured limits)']
REJ = REJECT + (jsonschema.ValidationError, AssertionError)
# faults of C07 that change the structure the meta-schema describes
STRUCTURAL = ('base', 'type_name', 'field_name', 'opt_type', 'no_fields', 'field_id', 'info', 'desc', 'columns', 'shape', 'document')
NOT_JSON = ('no_fields', 'columns', 'info')     # depends on the base type, or on formats
with open(os.path.join(jadn.data_dir(), 'jadn_v1.1_schema.jadn'), encoding='utf-8') as _f:
    META = json.load(_f)
with open(os.path.join(jadn.data_dir(), 'jadn_v1.1_schema.json'), encoding='utf-8') as _f:
    BUNDLED = jsonschema.Draft7Validator(json.load(_f))


def meta_for(sc):
    """the meta-schema with the configuration of a schema"""
    m = copy.deepcopy(META)
    m['info'].pop('config', None)
    info = sc.get('info') if isinstance(sc, dict) else None
    cfg = info.get('config') if isinstance(info, dict) else None
    if cfg:
        m['info']['config'] = copy.deepcopy(cfg)
    r = {**gen.VAR_RULES, **(cfg or {})}
    tr = next(t for t in m['types'] if t[0] == 'TypeRef')
    tr[2].append('%^(?:(?:{}):)?(?:{})$'.format(*(r[k].removeprefix('^').removesuffix('$') for k in ('$NSID', '$TypeName'))))
    return m


def configured(sc, mode):
    return jadn.codec.Codec(copy.deepcopy(META), *mode, config=copy.deepcopy(sc))


def written(s):
    sc = wide(s)
    sc['types'] = [c07.full(t) for t in sc['types']]
    return prefixed(s, sc) if 'ns1:' in str(sc['types']) and s.p(60) else sc


PREFIXES = {'^[A-Za-z][A-Za-z0-9]{0,15}$': ['longprefix', 'LongPrefix123456', 'a'], '^[a-z]{2}[-_.0-9]*$': ['ab-1', 'xy', 'ns_1.1-2-3-4-5'], '^(?:x|zz9zz9zz9zz9)$': ['x', 'zz9zz9zz9zz9'], None: ['n', 'Abcdefgh']}


def prefixed(s, sc):
    """the same references with another prefix, under another rule of prefixes"""
    rule = s.pick(list(PREFIXES))
    new = s.pick(PREFIXES[rule])

    def ren(x):
        if isinstance(x, str):
            return x.replace('ns1:', new + ':')
        return [ren(v) for v in x] if isinstance(x, list) else x
    sc = {**sc, 'types': ren(sc['types']), 'info': {**sc.get('info', {'package': 'http://a.b/c'}), 'namespaces': {new: 'http://example.com/ns1'} if s.p(50) else [[new, 'http://example.com/ns1']]}}
    cfg = {**sc['info'].get('config', {}), '$NSID': rule}
    cfg = {k: v for k, v in cfg.items() if v}
    sc['info'].pop('config', None)
    if cfg:
        sc['info']['config'] = cfg
    return sc


def configures(sc):
    if 'info' not in sc:
        return True
    cfg = sc['info'].get('config') if isinstance(sc['info'], dict) else 0
    return cfg is None or isinstance(cfg, dict) and all(v in gen.VAR_OTHER[k] + list(filter(None, PREFIXES)) if k in gen.VAR_OTHER else v and isinstance(v, str if k == '$Sys' else int) and v is not True for k, v in cfg.items())


def strategy_message(s):
    return {'schema': written(s)}


def oracle_message(case, cov):
    sc = case['schema']
    m = model.Model(meta_for(sc))
    te = m.te('Schema')
    require(BUNDLED.is_valid(sc), lambda: 'the bundled JSON Schema rejects a well-formed schema')
    for mode in MODES:
        exp = m.encode(te, sc, *mode)
        c = configured(sc, mode)
        before = copy.deepcopy(sc)
        try:
            w = c.encode('Schema', sc)
        except REJ as e:
            require(False, lambda: f'mode {mode}: the meta-schema rejects a well-formed schema: {str(e)[:300]}')
        require(sc == before, 'encoding a schema changes it')
        require(not isinstance(exp, OK) or same(w, exp.v), lambda: f'mode {mode}: the schema is written as {w!r}, not {exp.v!r}')
        require(mode != (True, True) or same(w, sc), lambda: f'with names the schema is written as {w!r}')
        back = c.decode('Schema', json.loads(json.dumps(w)))
        require(same(back, sc), lambda: f'mode {mode}: the schema is read back as {back!r}')
        cov.label('model ' + type(exp).__name__)
    if any(t[4] for t in sc['types']):
        cov.hit(sc)


def strategy_verdict(s):
    sc = written(s)
    fields = [copy.deepcopy([t[1], t[4]]) for t in sc['types']]
    k = s.n(6)
    if k == 0:
        names = sorted(c07.FAULTS)
        f = s.pick(names)
        if not c07.FAULTS[f](s, sc):
            raise Skip
        lab = 'fault'
    elif k < 3:
        m = model.Model(meta_for(sc))
        sc, l = near.near(s, m, m.te('Schema'), sc)
        lab = 'near'
    elif k < 5:
        sc, lab = model.mutate(s, sc, api=False), 'mutated'
    else:
        lab = 'well-formed'
    try:
        sc = to_json(sc)
    except (TypeError, ValueError):
        raise Skip
    if not isinstance(sc, dict):
        raise Skip
    if not configures(sc):
        raise Skip
    # fields are a tagged union, namespaces an untagged one
    same_fields = isinstance(sc.get('types'), list) and len(sc['types']) == len(fields) and all(
        isinstance(t, list) and len(t) == 5 and t[4] == f and (t[1] == b or t[1] not in gen.CORE) for t, (b, f) in zip(sc['types'], fields))
    return {'schema': sc, 'how': lab, 'json': same_fields and 'namespaces' not in (sc.get('info') or {})}


def oracle_verdict(case, cov):
    sc = case['schema']
    ms = meta_for(sc)
    m = model.Model(ms)
    te = m.te('Schema')
    mode = (True, True)
    c = configured(sc, mode)
    for word in ('encode', 'decode'):
        exp = getattr(m, word)(te, sc, *mode)
        try:
            got = getattr(c, word)('Schema', copy.deepcopy(sc))
        except REJ as e:
            require(not isinstance(exp, OK), lambda: f'{word}: the meta-schema rejects the well-structured document {sc!r}: {str(e)[:300]}')
            got = None
        else:
            require(not isinstance(exp, BAD), lambda: f'{word}: the meta-schema accepts {sc!r} ({exp.why})')
            require(not isinstance(exp, OK) or same(got, exp.v), lambda: f'{word}: {sc!r} gives {got!r}')
    cov.label(f'{case["how"]} {type(exp).__name__}')
    try:
        jadn.check(copy.deepcopy(sc))
        ok = True
    except REJ:
        ok = False
    except Exception:       # C07
        ok = None
    if ok and all(len(t) == 5 for t in sc['types']):
        require(not isinstance(exp, BAD), lambda: f'the checker accepts {sc!r}, which is no message of the meta-schema ({exp.why})')
        require(BUNDLED.is_valid(sc), lambda: f'the checker accepts {sc!r}, which the bundled JSON Schema rejects')
    if case['how'] != 'well-formed':
        cov.hit(sc)
    if case['json']:
        c18.oracle_reject({'schema': ms, 'type': 'Schema', 'message': sc, 'verbose': True, 'enum_style': 'enum'}, cov)


def strategy_fault(s):
    sc = written(s)
    f = s.pick(STRUCTURAL)
    if not c07.FAULTS[f](s, sc) or not configures(sc) or None in sc.get('info', {}).values():     # null is a missing member
        raise Skip
    return {'schema': sc, 'fault': f}


def oracle_fault(case, cov):
    sc = case['schema']
    cov.label('fault ' + case['fault'])
    cov.hit((case['fault'], sc))
    c = configured(sc, (True, True))
    for word in ('encode', 'decode'):
        try:
            getattr(c, word)('Schema', copy.deepcopy(sc))
        except REJ:
            continue
        require(False, lambda: f'{word}: the meta-schema accepts a schema with fault "{case["fault"]}"')
    if case['fault'] in NOT_JSON:
        cov.label('not judged by JSON Schema')
        return
    v = c18.validator({'verbose': True, 'enum_style': 'enum', 'type': 'Schema'}, meta_for(sc))
    require(not v.is_valid(sc), lambda: f'the JSON Schema generated from the meta-schema accepts a schema with fault "{case["fault"]}"')


PROPS = [Prop('message', strategy_message, oracle_message, 120, 4000, size=700), Prop('verdict', strategy_verdict, oracle_verdict, 300, 9000, size=700),
         Prop('fault', strategy_fault, oracle_fault, 150, 5000, size=600)]
