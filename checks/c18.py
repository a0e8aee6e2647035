"""C18: generated JSON Schema agrees with the codec about messages (differential: jsonschema package on the output against the codec and the reference model)"""
import copy
import json

import jsonschema

from checks import c06
from vlib import fmt, gen, model, near
from vlib.cases import gen_valid, kinds, mkcodec, pick_type, to_json
from vlib.model import BAD, OK, same
from vlib.runner import Prop, Skip, require

from jadn.translate import json_schema_dumps

ID = 'C18'
RULE = ('a case is a generated schema, a type, generation options and a value: valid, or moved onto or across one declared constraint, written as a message without checking, perhaps mutated. Names are used as identifiers; '
        'records are objects (verbose) or lists (concise). accept: over every feature except one-of unions, the message the codec writes for a valid value must be valid under the generated schema of the type. reject: '
        'without unions, external tags and links, a message the reference model rejects for a reason JSON Schema can express must be invalid. Non-trivial: structured, or at a constraint; distinct by (schema, type, options, message).')
ASSUMPTIONS = ['formats and sizes of binary data and the text of string formats are not expressed in JSON Schema', 'counts of arrays with omitted elements are not expressed',
               'the range of integer map keys is not expressed', 'a pattern may be followed by a line end', 'an integral number such as 1.0 is an integer in JSON Schema', 'built-in types without options have no length limit in the codec; longer text is not judged']
STYLES = ('enum', 'const', 'regex')
EXPRESSED = ('not a boolean', 'not an integer', 'integer out of range', 'integer does not fit', 'not a number', 'number out of range', 'not a string', 'pattern', 'not an item', 'wrong type for enumerated',
             'choice is not a dict', 'choice has not one member', 'unknown choice', 'not a list', 'duplicate element', 'unknown field', 'missing', 'not a dict', 'integer key', 'key is not', 'characters', 'elements', 'too many elements')


def validator(case, sc):
    js = json.loads(json_schema_dumps(sc, verbose=case['verbose'], enum_style=case['enum_style']))
    tn = case['type']
    info = sc.get('info', {})
    if info.get('exports') == [tn] and case.get('top'):
        return jsonschema.Draft7Validator(js)
    return jsonschema.Draft7Validator({'$ref': '#/definitions/' + tn, 'definitions': js['definitions'], 'imports': js.get('imports', {})})


def base(s, sc):
    m = model.Model(sc)
    tn = pick_type(s, sc, m)
    v = gen_valid(s, m, tn)
    top = s.p(30)
    if top:
        sc['info'] = dict(sc.get('info', {'package': 'http://a.b/c'}), exports=[tn])
        sc['info'].pop('roots', None)
    return m, {'schema': sc, 'type': tn, 'value': v, 'verbose': s.p(50), 'enum_style': s.pick(STYLES), 'top': top}


def strategy_accept(s):
    m, case = base(s, gen.schema(s, info='some' if s.p(30) else 'none', config=s.p(30)))
    if s.p(50):
        case['value'], _ = near.near(s, m, m.te(case['type']), case['value'])
    return case


def one_of(sc):
    return any('CX' in t[2] for t in sc['types'])


def oracle_accept(case, cov):
    sc, tn, v = case['schema'], case['type'], case['value']
    if one_of(sc):
        cov.label('one-of')
        return
    m = model.Model(sc)
    mode = (case['verbose'], True)
    exp = m.encode(m.te(tn), v, *mode)
    cov.label(type(exp).__name__)
    if not isinstance(exp, OK):
        return
    w = to_json(mkcodec(sc, mode).encode(tn, v))
    before = copy.deepcopy(sc)
    val = validator(case, sc)
    require(sc == before, 'the schema was modified')
    errs = [f'{list(e.absolute_path)}: {e.message[:200]} (schema {json.dumps(e.schema)[:300]})' for e in val.iter_errors(w)]
    require(not errs, lambda: f'{tn}: the codec writes {w!r}, which the JSON Schema rejects: {errs[0]}')
    ks = set()
    kinds(m, m.te(tn), v, ks)
    cov.label(*ks)
    if isinstance(w, (dict, list)) or len(ks) > 1:
        cov.hit((sc, tn, case['verbose'], case['enum_style'], w))


def dicts(w):
    for x in w.values() if isinstance(w, dict) else w if isinstance(w, list) else ():
        yield from dicts(x)
    if isinstance(w, dict):
        yield w


def strategy_reject(s):
    m, case = base(s, gen.schema(s, combine=False, tagid=False, mapof_keys=('String', 'Binary') if s.p(70) else ('String', 'Integer', 'Binary'), link=False, net=False, info='none'))
    te = m.te(case['type'])
    v, how = case['value'], 'valid'
    if s.p(75):
        v, how = near.near(s, m, te, v)
    try:
        w = to_json(near.loose(m, te, v, case['verbose'], True))
    except (TypeError, KeyError, AttributeError, IndexError, ValueError):
        raise Skip
    k = s.n(8)
    if k < 2:
        w, how = model.mutate(s, w, api=False), 'mutated'
    elif k == 2 and (ds := [x for x in dicts(w) if x]):     # another member name
        x = s.pick(ds)
        x[s.pick(['x', '', '-', 'e', 'a b', 'A', '-x', 'true', 'longer-name'])] = x.pop(s.pick(list(x)))
        how = 'name'
    try:
        case['message'] = to_json(w)
    except (TypeError, ValueError):
        raise Skip
    case['how'] = how
    del case['value']
    return case


def leaves(w):
    if isinstance(w, dict):
        for x in w.values():
            yield from leaves(x)
    elif isinstance(w, list):
        yield w
        for x in w:
            yield from leaves(x)
    else:
        yield w


def oracle_reject(case, cov):
    sc, tn, w = case['schema'], case['type'], case['message']
    m = model.Model(sc)
    mode = (case['verbose'], True)
    exp = m.decode(m.te(tn), w, *mode)
    if isinstance(exp, OK):
        back = m.encode(m.te(tn), exp.v, *mode)
        cov.label('valid message')
        if isinstance(back, OK) and same(to_json(back.v), w):       # exactly what the codec writes
            errs = [f'{list(e.absolute_path)}: {e.message[:200]}' for e in validator(case, sc).iter_errors(w)]
            require(not errs, lambda: f'{tn}: {w!r} is a valid message, which the JSON Schema rejects: {errs[0]}')
        return
    if not isinstance(exp, BAD) or not exp.why.startswith(EXPRESSED):
        cov.label('not judged')
        return
    lv = list(leaves(w))
    if any(isinstance(x, float) and x.is_integer() for x in lv):
        cov.label('integral number')
        return
    if any(isinstance(x, str) and x.endswith('\n') for x in lv):
        cov.label('line end after pattern')
        return
    if exp.why.startswith('elements') and not case['verbose'] and any(t[1] == 'Record' and any(o[0] in '{}' for o in t[2]) and any('[0' in f[3] for f in t[4]) for t in sc['types']):
        cov.label('count with omitted elements')
        return
    if exp.why.startswith('integer') and exp.why != 'integer key' and any(o[0] == '+' and o[1:] in m.types and m.types[o[1:]][1] == 'Integer'
                                                                           for t in sc['types'] for os_ in [t[2]] + [f[3] for f in t[4] if len(f) > 3] for o in os_):
        cov.label('range of a map key')
        return
    if exp.why == 'duplicate element' and not any(same(a, b) for x in lv if isinstance(x, list) for i, a in enumerate(x) for b in x[:i]):
        cov.label('duplicates written differently')
        return
    cov.label('reject: ' + next(x for x in EXPRESSED if exp.why.startswith(x)))
    cov.hit((sc, tn, case['verbose'], case['enum_style'], w))
    require(not validator(case, sc).is_valid(w), lambda: f'{tn}: message {w!r} is invalid ({exp.why}), but the JSON Schema accepts it')


PROPS = [Prop('accept', strategy_accept, oracle_accept, 400, 10000, size=900), Prop('reject', strategy_reject, oracle_reject, 500, 12000, size=900)]


# ---------------------------------------------------------------- formats
KEYWORD = {**{f: ('format', f) for f in ('ipv4', 'ipv6', 'date', 'uri', 'uri-reference', 'email', 'hostname', 'iri', 'iri-reference', 'uuid')},
           'datetime-ms': ('format', 'date-time'), 'b': ('contentEncoding', 'base64url'), 'x': ('contentEncoding', 'base16'), 'X': ('contentEncoding', 'base16')}
HEX = set('0123456789abcdefABCDEF')


def clearly_not(f, t):
    """text that is far from the format"""
    if f == 'eui':
        return bool(set(t) - HEX - set(':-')) or sum(c in HEX for c in t) not in (12, 16)
    if f in ('ipv4-addr', 'ipv4-net'):
        a, *p = t.split('/') if f == 'ipv4-net' else [t]
        if len(p) > 1 or p and (not p[0].isascii() or set(p[0]) - set('0123456789') or int(p[0] or 0) > 32):
            return True
        o = a.split('.')
        return len(o) != 4 or any(not x or set(x) - set('0123456789') or int(x) > 255 for x in o)
    if f in ('ipv6-addr', 'ipv6-net'):
        a, *p = t.split('/') if f == 'ipv6-net' else [t]
        if '%' in t:
            return False
        if len(p) > 1 or p and (not p[0] or set(p[0]) - set('0123456789') or int(p[0]) > 128):
            return True
        return a.count(':') < 2 or a.count(':') > 8 or bool(set(a) - HEX - set(':.')) or any(len(x) > 4 and '.' not in x for x in a.split(':'))
    return False


def strategy_formats(s):
    f = s.pick(c06.ALL)
    case = {'format': f, 'tag': s.pick(['[a-z]+', None]), 'wrap': s.pick(c06.WRAP), 'verbose': s.p(50), 'enum_style': s.pick(STYLES)}
    if f in fmt.INT:
        b = fmt.INT[f]
        case['text'] = s.pick([b, b - 1, -b, -b - 1, 0, b // 2, 2 * b])
    elif s.p(40):
        case['text'] = c06.text_of(f, case['tag'], c06.g_value(s, f, case['tag']))
        if not isinstance(case['text'], str):
            raise Skip
    else:
        case['text'] = c06.g_text(s, f, case['tag'])
    return case


def oracle_formats(case, cov):
    f, tag, t = case['format'], case['tag'], case['text']
    sc, tn, wrap = c06.build(f, case['wrap'], tag)
    if f in fmt.INT:
        ok = -fmt.INT[f] <= t < fmt.INT[f]
        bad = not ok
    else:
        v = c06.value_of(f, tag, t)
        ok = v and c06.text_of(f, tag, v[0]) == t and len(t) <= 255
        bad = (v is False or v is None) and not t.endswith('\n') and clearly_not(f, t)
    val = validator({**case, 'type': tn}, sc)
    val = val.evolve(format_checker=jsonschema.Draft7Validator.FORMAT_CHECKER)
    w = c06.wrapped(wrap, t, (case['verbose'], True), False)
    if ok:
        errs = [e.message[:200] for e in val.iter_errors(w)]
        require(not errs, lambda: f'{f} at {wrap}: the valid message {w!r} is rejected: {errs[0]}')
    elif bad:
        require(not val.is_valid(w), lambda: f'{f} at {wrap}: {w!r} is accepted')
    if kw := KEYWORD.get(f):
        d = json.loads(json_schema_dumps(sc, verbose=case['verbose'], enum_style=case['enum_style']))['definitions']['T']
        require(d.get(kw[0]) == kw[1], lambda: f'type of format {f} is {d}')
    cov.label(f'{f} {"valid" if ok else "invalid" if bad else "open"}', 'at ' + wrap)
    if ok or bad:
        cov.hit((f, wrap, case['verbose'], t))


PROPS.append(Prop('formats', strategy_formats, oracle_formats, 250, 8000, size=120))


# ---------------------------------------------------------------- names of map members
KTYPES = [('Integer', []), ('Integer', []), ('Integer', ['{-3', '}5']), ('Integer', ['/i8']), ('Integer', ['/datetime-ms']), ('String', []), ('String', ['{2', '}3']), ('String', ['%^[a-c]+$']), ('Enumerated', []), ('Enumerated', ['=']), ('Binary', [])]
KEYS = ['1', '-2', '0', '7', '12', 'x', '', 'ab', 'abc', 'abcd', 'a', 'red', 'green', '1x', '-', 'x1', '--1', 'AA', 'ABC-', '-0', '300', '2020-02-29T12:00:00+00:00', '1970-01-01T00:00:00.250000+00:00', '2020-02-30T12:00:00Z', '2020-02-29']


def strategy_keys(s):
    b, o = s.pick(KTYPES)
    types = [['K', b, o, '', [[1, 'red', ''], [2, 'green', ''], [7, 'x', '']] if b == 'Enumerated' else []],
             ['T', 'MapOf', ['+' + (b if b in ('Integer', 'String', 'Binary') and not o and s.p(50) else 'K'), '*Boolean'] + s.pick([[], [], ['{1'], ['}2']]), '', []]]
    w = {k: True for k in s.some(KEYS, 12)}
    if s.p(60):
        w = {k: True for k in s.shuffle(KEYS)[:1]}
    elif b == 'Integer' and s.p(70):       # a number with something about it
        w = {s.pick(['{}x', '{} ', ' {}', '{}.0', '{}e1', '{}-', 'x{}', '+{}', '-{}', '{},1', '{}']).format(s.pick(['1', '-2', '0', '12'])): True}
    tn, wrap = 'T', s.n(4)
    if wrap == 1:
        types.append(['W', 'Record', [], '', [[1, 'f', 'T', [], '']]])
    elif wrap == 2:
        types.append(['W', 'ArrayOf', ['*T'], '', []])
    elif wrap == 3:
        types.append(['W', 'Choice', [], '', [[1, 'f', 'T', [], ''], [2, 'g', 'String', [], '']]])
    verbose = s.p(50)
    if wrap:
        tn, w = 'W', [w] if wrap == 2 or wrap == 1 and not verbose else {'f': w}
    return {'schema': {'types': s.shuffle(types)}, 'type': tn, 'message': w, 'verbose': verbose, 'enum_style': s.pick(STYLES)}


PROPS.append(Prop('keys', strategy_keys, oracle_reject, 220, 5000, size=80))
