"""C07: schema checking accepts well-formed schemas and rejects each kind of fault"""
import copy
import json

import jadn
import jsonschema

from vlib import gen
from vlib.cases import REJECT, wide
from vlib.runner import Prop, Skip, require

ID = 'C07'
RULE = ('accept: a generated well-formed schema using every notation (descriptions of any text, information header, configuration, qualified '
        'names, short definitions); it must be accepted, come back equal with trailing columns filled in, and check a second time unchanged. '
        'reject: the same schema with exactly one fault of a listed kind injected at a random site of all sites it fits. Non-trivial: every case; distinct by '
        'schema (and fault).')
ASSUMPTIONS = ['the limits a schema configures for strings and elements also limit the schema itself, so configured limits are large',
               'rejection is a ValueError, TypeError, jsonschema ValidationError or AssertionError']
REJ = REJECT + (jsonschema.ValidationError, AssertionError)

ALLOWED = {     # JADN v1.1 table of type options
    'Binary': '/{}', 'Boolean': '', 'Integer': '/{}', 'Number': '/yz', 'String': '/%{}', 'Enumerated': '=#>X', 'Choice': '=XC', 'Array': 'X/{}',
    'ArrayOf': '*{}qsb', 'Map': '=X{}o', 'MapOf': '*+{}o', 'Record': 'X{}o'}
EXAMPLE = {'=': '=', '*': '*String', '+': '+String', '#': None, '>': None, '/': None, '%': '%^a$', 'y': 'y1.0', 'z': 'z2.0', '{': '{1', '}': '}5', 'q': 'q', 's': 's',
           'b': 'b', 'o': 'o', 'C': 'CO', 'X': 'X'}
FORMATS = {'String': ['date', 'uri', 'email', 'hostname', 'ipv4', 'ipv6', 'regex', 'date-time', 'iri', 'json-pointer'], 'Binary': ['x', 'X', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b'],
           'Integer': ['i8', 'i16', 'i32', 'i64', 'datetime-ms'], 'Number': ['f16', 'f32', 'f64'], 'Array': ['ipv4-net', 'ipv6-net', 'tag-uuid']}


def full(t):
    return list(t) + [[], '', []][len(t) - 2:]


def sites(sc):
    """(where, base type, option list) of every type option list"""
    for t in sc['types']:
        yield 'type', t[1], t[2], t
    for t in sc['types']:
        if t[1] in gen.COMPOUND:
            for f in t[4]:
                yield 'field', f[2], f[3], t


FIELDCHARS = '[]&<KL'


def f_base(s, sc):
    t = s.pick(sc['types'])
    t[1] = s.pick(['Foo', 'string', '', 'Strings', sc['types'][0][0], 'Arrayof', 'Null'])
    return True


def f_reserved(s, sc):
    t = s.pick(sc['types'])
    t[0] = s.pick(list(gen.CORE))
    return True


def f_dup_type(s, sc):
    if len(sc['types']) < 2:
        sc['types'].append(copy.deepcopy(sc['types'][0]))
    else:
        a, b = s.shuffle(sc['types'])[:2]
        a[0] = b[0]
    return True


def default_rules(sc):
    """names follow the rules of the specification, not the ones of the schema"""
    for k in gen.VAR_RULES:
        sc.get('info', {}).get('config', {}).pop(k, None)


def f_type_name(s, sc):
    default_rules(sc)
    t = s.pick(sc['types'])
    t[0] = s.pick(['lower', '1abc', 'A b', 'A' * 65, '', 'Ab_c', 'A.b', 'Aé', '-A', 'A:B', ' A', 'A '])
    return True


def f_field_name(s, sc):
    default_rules(sc)
    c = [f for t in sc['types'] if t[1] in gen.COMPOUND for f in t[4]]
    if not c:
        return False
    s.pick(c)[1] = s.pick(['Upper', '1a', 'a b', 'a' * 65, '', 'a-b', 'a.b', 'aé', '_a', ' a', 'a/b', 'a '])
    return True


def f_missing_opt(s, sc):
    c = [(o, x) for _, b, o, _ in sites(sc) for x in o if (b == 'ArrayOf' and x[0] == '*') or (b == 'MapOf' and x[0] in '*+')]
    if not c:
        return False
    o, x = s.pick(c)
    o.remove(x)
    return True


def f_unknown_opt(s, sc):
    w, b, o, _ = s.pick(list(sites(sc)))
    o.insert(s.n(len(o) + 1), s.pick(['?', '@x', 'A1', '(3', 'zz9' if b != 'Number' else '~', '\u00e9', ' ', '$x', 'id', '-', 'minv']))
    return True


def f_disallowed(s, sc):
    where, b, o, t = s.pick(list(sites(sc)))
    if b not in gen.CORE:       # type options on a reference to a defined type
        if any(x[0] == ']' for x in o):
            return False
        o.append(s.pick(['{1', '}3', '%^a$', '/date', 'q', 's', '*String', '=', 'o', 'y1.0']))
        return True
    bad = [k for k in EXAMPLE if k not in ALLOWED[b]]
    if where == 'field' and any(x[0] == ']' for x in o):
        bad = [k for k in bad if k != 'q']
    k = s.pick(bad)
    x = EXAMPLE[k] or (k + t[0] if k in '#>' else '/' + s.pick(['date', 'x', 'i8', 'f32']))
    o.insert(s.n(len(o) + 1), x)
    return True


def f_unique_single(s, sc):
    c = [f for t in sc['types'] if t[1] in gen.COMPOUND for f in t[4] if f[2] not in gen.CORE and not any(x[0] == ']' for x in f[3])]
    if not c:
        return False
    s.pick(c)[3].append('q')
    return True


def f_field_opt_on_type(s, sc):
    t = s.pick(sc['types'])
    t[2].append(s.pick(['[0', ']0', ']5', '&1', '<', 'K', 'L']))
    return True


def f_format(s, sc):
    c = [(b, o) for _, b, o, _ in sites(sc) if b in FORMATS and not any(x[0] == '/' for x in o)]
    if not c:
        return False
    b, o = s.pick(c)
    others = [f for x in FORMATS for f in FORMATS[x] if x != b]
    o.append('/' + (s.pick(others) if s.p(70) else s.pick(['nosuch', '', 'DATE', 'u8', 'i8 ', 'X' if b != 'Binary' else 'y'])))
    return True


def f_range(s, sc):
    c = [(b, o) for _, b, o, _ in sites(sc) if b in gen.CORE and ('{' in ALLOWED[b] or 'y' in ALLOWED[b]) and not any(x[0] in '{}yz%' for x in o)]
    if not c:
        return False
    b, o = s.pick(c)
    if b == 'Number':
        lo = s.int(-40, 40) / 4
        o += s.pick([[f'y{lo + 0.25}', f'z{lo}'], [f'z{lo}', f'y{lo + 10}']])
    else:
        lo = s.int(1, 20) if b != 'Integer' else s.int(-20, 20)
        o += s.pick([[f'{{{lo + 1}', f'}}{lo}'], [f'}}{lo}', f'{{{lo + 100}']])
    return True


def f_negative_size(s, sc):
    c = [o for _, b, o, _ in sites(sc) if b in gen.CORE and b != 'Integer' and '{' in ALLOWED[b] and not any(x[0] in '{}%' for x in o)]
    if not c:
        return False
    n = s.pick([1, 1, 2, 5, 255])
    s.pick(c).extend(s.pick([[f'{{-{n}'], [f'}}-{n}'], [f'{{-{n}', '}5'], [f'}}-{n}', f'{{-{n + 1}'], [f'{{-{n}', '}0']]))
    return True


def f_pattern_size(s, sc):
    c = [o for _, b, o, _ in sites(sc) if b == 'String' and not any(x[0] in '{}%' for x in o)]
    if not c:
        return False
    s.pick(c).extend(s.pick([['%^a$', '{1'], ['}5', '%^a$'], ['{1', '}2', '%a']]))
    return True


def f_opt_value(s, sc):
    c = [(b, o) for _, b, o, _ in sites(sc) if b in gen.CORE and ('{' in ALLOWED[b] or 'y' in ALLOWED[b]) and not any(x[0] in '{}yz%' for x in o)]
    if not c:
        return False
    b, o = s.pick(c)
    o.append(s.pick(['y', 'zabc', 'y1,5', 'z--1']) if b == 'Number' else s.pick(['{', '}abc', '{1.5', '}0x10', '{a', '}--1']))
    return True


def f_opt_type(s, sc):
    _, b, o, _ = s.pick(list(sites(sc)))
    o.append(s.pick([1, None, ['{1'], {'minv': 1}, True, 1.5, '']))
    return True


def f_dup_id(s, sc):
    c = [t for t in sc['types'] if len(t[4]) > 1]
    if not c:
        return False
    t = s.pick(c)
    a, b = s.shuffle(t[4])[:2]
    a[0] = b[0]
    return True


def f_dup_name(s, sc):
    c = [t for t in sc['types'] if len(t[4]) > 1]
    if not c:
        return False
    t = s.pick(c)
    a, b = s.shuffle(t[4])[:2]
    a[1] = b[1]
    return True


def f_columns(s, sc):
    c = [(t, f) for t in sc['types'] for f in t[4]]
    if not c or s.p(15):
        t = s.pick(sc['types'])
        k = s.n(3)
        t[:] = t + [''] if k == 0 else t[:1] if k == 1 else []
        return True
    t, f = s.pick(c)
    k = s.n(5)
    f[:] = f[:-1] if k == 0 else f + s.pick([[''], [[]]]) if k == 1 else f[:2] if k == 2 else f[:1] if k == 3 else \
        (f[:2] + [''] if len(f) == 5 else f[:2] + ['String', [], ''])
    return True


def f_ordinal(s, sc):
    c = [t for t in sc['types'] if t[1] in ('Array', 'Record') and t[4]]
    if not c:
        return False
    t = s.pick(c)
    if len(t[4]) > 1 and s.p(40):
        i = s.n(len(t[4]) - 1)
        t[4][i][0], t[4][i + 1][0] = t[4][i + 1][0], t[4][i][0]
    elif s.p(30):
        for f in t[4]:
            f[0] -= 1
    else:
        t[4][-1][0] += s.pick([1, 5, 100])
    return True


def f_field_id(s, sc):
    c = [f for t in sc['types'] for f in t[4] if t[1] in ('Choice', 'Map', 'Enumerated')]
    if not c:
        return False
    s.pick(c)[0] = s.pick([-1, '1', None, 1.5, True, [1], -100])
    return True


def f_mult(s, sc):
    c = [f for t in sc['types'] if t[1] in gen.COMPOUND for f in t[4] if not any(x[0] in '[]' for x in f[3])]
    if not c:
        return False
    f = s.pick(c)
    k = s.n(5)
    f[3] += [['[2'], ['[3', ']2'], [']-1'], ['[-1'], ['[5', ']4']][k]
    return True


def f_tagid(s, sc):
    c = [(t, f) for t in sc['types'] if t[1] in gen.COMPOUND for f in t[4] if not any(x[0] == '&' for x in f[3])]
    if not c:
        return False
    t, f = s.pick(c)
    used = {x[0] for x in t[4]}
    k = s.pick([x for x in (len(used) + 1, 99, 7, 200, 1000) if x not in used])
    f[3].append(f'&{k}')
    return True


def f_inline(s, sc):
    c = [f for t in sc['types'] if t[1] in gen.COMPOUND for f in t[4]]
    if not c:
        return False
    f = s.pick(c)
    f[2] = s.pick(['Record', 'Map', 'Array', 'Choice'])
    if s.p(70):
        f[3] = [o for o in f[3] if o[0] in '[]']
    return True


def f_enum_fields(s, sc):
    c = [t for t in sc['types'] if t[1] == 'Enumerated']
    tgt = [t[0] for t in sc['types'] if t[1] in gen.COMPOUND and t[4]]
    if not c:
        return False
    t = s.pick(c)
    if not any(o[0] in '#>' for o in t[2]):
        if not tgt:
            return False
        t[2].append(s.pick('#>') + s.pick(tgt))
        return True         # it has items already
    t[4].append([1, 'x', ''])
    return True


def f_no_fields(s, sc):
    c = [t for t in sc['types'] if t[1] in gen.PRIM + ('ArrayOf', 'MapOf')]
    if not c:
        return False
    s.pick(c)[4].append(s.pick([[1, 'a', ''], [1, 'a', 'String', [], ''], 'a', []]))
    return True


def f_enum_pointer(s, sc):
    c = [(o, t) for _, b, o, t in sites(sc) if b == 'Enumerated' and any(x[0] in '#>' for x in o)]
    if not c:
        return False
    o, t = s.pick(c)
    d = next(x for x in o if x[0] in '#>')
    o.append(('>' if d[0] == '#' else '#') + d[1:])
    return True


def f_dir(s, sc):
    c = [f for t in sc['types'] if t[1] in gen.COMPOUND for f in t[4] if f[2] in gen.PRIM + ('Enumerated', 'ArrayOf', 'MapOf')]
    if not c:
        return False
    s.pick(c)[3].append('<')
    return True


def f_info(s, sc):
    sc.setdefault('info', {'package': 'http://a.b/c'})
    i = sc['info']
    k = s.n(9)
    if k == 0:
        del i['package']
    elif k == 1:
        i['package'] = s.pick(['not a uri', '', 7, None, 'a b'])
    elif k == 2:
        i[s.pick(['Package', 'module', 'x', 'title '])] = 'x'
    elif k == 3:
        i[s.pick(['title', 'version', 'description', 'comment', 'license', 'copyright'])] = s.pick(['', 1, None, ['x'], {}])
    elif k == 4:
        i['namespaces'] = s.pick([{}, [], [['ns1']], {'ns1': 'not a uri'}, 'x', [['toolongnsid', 'http://a.b']], {'1x': 'http://a.b'}, [['a', 'http://a.b', 'x']]])
    elif k == 5:
        i[s.pick(['exports', 'roots'])] = s.pick([[], 'Abc', ['lower'], [1], {'A': 1}])
    elif k == 6:
        i['config'] = s.pick([{}, {'$Foo': 1}, {'$MaxString': '10'}, {'$MaxString': 0}, {'MaxString': 300}, {'$Sys': '$$'}, {'$MaxElements': -1}, {'$FieldName': ''}])
    elif k == 7:
        sc['extra'] = 1
    else:
        sc['info'] = s.pick([[], 'x', 1, None])
    return True


def f_document(s, sc):
    """something else in the place of a list"""
    i = s.n(len(sc['types']))
    t = sc['types'][i]
    if s.p(40):
        sc['types'] = s.pick([{}, '', None, 0, {t[0]: t}, t[0], {t[0]: t[1], t[1]: t[0]}])
    elif len(t) == 5 and t[2] == [] and t[4] == [] and t[1] != t[0]:
        sc['types'][i] = s.pick([{t[0]: 1, t[1]: 2}, t[0], None, {'name': t[0], 'type': t[1]}])
    else:
        sc['types'][i] = s.pick([None, t[0], 3, True, {t[0]: t[1]}])
    return True


def f_shape(s, sc):
    t = s.pick(sc['types'])
    k = s.int(1, 4)
    t[k] = s.pick({1: [1, None, ['String']], 2: ['', '{1', {}, 1, None], 3: [1, None, ['d'], {}], 4: ['', {}, 1, None]}[k])
    return True


def f_desc(s, sc):
    c = [f for t in sc['types'] for f in t[4]]
    if not c:
        return False
    s.pick(c)[-1] = s.pick([1, None, ['d'], {}, True])
    return True


def f_repeated(s, sc):
    c = [(b, o) for _, b, o, _ in sites(sc) if o]
    if not c:
        return False
    b, o = s.pick(c)
    x = s.pick(o)
    o.insert(s.n(len(o) + 1), x if s.p(40) else {'{': '{0', '}': '}300', '[': '[0', ']': ']3', '*': '*Integer', '+': '+String', 'y': 'y-1000.0', 'z': 'z1000.0', '%': '%a',
                                                 '/': x}.get(x[0], x))
    return True


def f_flag_value(s, sc):
    c = [(o, i) for _, b, o, _ in sites(sc) for i, x in enumerate(o) if x in list('=qsboX<KL')]
    if not c:
        return False
    o, i = s.pick(c)
    o[i] += s.pick(['x', '0', '1', ' ', 'true', o[i], 'String'])
    return True


def f_combine(s, sc):
    c = [o for _, b, o, _ in sites(sc) if b == 'Choice' and not any(x[0] in 'C=' for x in o)]
    if not c:
        return False
    s.pick(c).append('C' + s.pick(['Z', '', 'a', 'o', 'x', 'AO', 'N', 'allOf', ' ', 'O ', '0']))
    return True


def f_not_finite(s, sc):
    c = [o for _, b, o, _ in sites(sc) if b == 'Number' and not any(x[0] in 'yz' for x in o)]
    if not c:
        return False
    s.pick(c).extend(s.pick([['ynan'], ['zNaN'], ['yinf'], ['z-inf'], ['z1e999'], ['y-Infinity'], ['ynan', 'z1.0'], ['y0.0', 'znan'], ['z+inf']]))
    return True


def f_empty_ref(s, sc):
    c = [(o, i) for _, b, o, _ in sites(sc) for i, x in enumerate(o) if x[0] in '*+#>' and b in ('ArrayOf', 'MapOf', 'Enumerated')]
    if not c:
        return False
    o, i = s.pick(c)
    o[i] = o[i][0] + (s.pick(['', 'String', 'Binary', 'Record']) if o[i][0] in '#>' else s.pick(['', '', '#', '>', '#Integer', '>Map']))
    return True


def f_no_types(s, sc):
    del sc['types']
    if s.p(50):
        sc.setdefault('info', {'package': 'http://a.b/c'})
    elif s.p(30):
        sc['Types'] = []
    return True


def f_rule(s, sc):
    """a rule for names that is not a regular expression"""
    sc.setdefault('info', {'package': 'http://a.b/c'}).setdefault('config', {})[s.pick(['$TypeName', '$FieldName', '$TypeName'])] = \
        s.pick(['(', '[', '^[$A-Z', '*', 'a{2,1}', '^(?z)', '\\', '(?P<a', '^[z-a]', 'a{99999999999999}', '(((' * 50])
    return any(t[1] in gen.COMPOUND and t[4] for t in sc['types'])


FAULTS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('f_') and callable(v)}


STRING_FORMATS = ['date-time', 'date', 'time', 'duration', 'email', 'idn-email', 'hostname', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri',
                  'iri-reference', 'uri-template', 'json-pointer', 'relative-json-pointer', 'regex']


def strategy(s):
    sc = wide(s)
    for t in sc['types']:       # every keyword of JSON Schema is a format of text
        if t[1] == 'String' and len(t) > 2 and not any(x[0] in '/%' for x in t[2]) and s.p(60):
            t[2].append('/' + s.pick(STRING_FORMATS))
    return {'schema': sc}


def oracle(case, cov):
    sc = case['schema']
    want = {**sc, 'types': [full(t) for t in sc['types']]}
    try:
        got = jadn.check(copy.deepcopy(sc))
    except REJ as e:
        require(False, lambda: f'well-formed schema rejected: {type(e).__name__} {str(e)[:300]}')
    require(got == want, lambda: f'check returns {got!r} for {sc!r}')
    require(jadn.check(copy.deepcopy(got)) == want, 'checking the checked schema changes it')
    t = json.dumps(sc, ensure_ascii=False)
    require(jadn.loads(t) == want, 'loads differs from check')
    cov.label(*('base ' + t[1] for t in sc['types']), 'info' if 'info' in sc else 'no info')
    cov.hit(sc)


def strategy_fault(s):
    names = sorted(FAULTS)
    sc = wide(s)
    sc['types'] = [full(t) for t in sc['types']]
    for _ in range(12):
        k = s.pick(names)
        c = copy.deepcopy(sc)
        if FAULTS[k](s, c):
            return {'schema': c, 'fault': k}
    raise Skip


def oracle_fault(case, cov):
    sc = copy.deepcopy(case['schema'])
    cov.label('fault ' + case['fault'])
    try:
        jadn.check(sc)
    except REJ:
        cov.hit((case['fault'], case['schema']))
        return
    except RecursionError:
        raise
    except Exception as e:
        require(False, lambda: f'fault {case["fault"]} ends in {type(e).__name__}: {str(e)[:200]}')
    require(False, lambda: f'schema with fault "{case["fault"]}" is accepted')


PROPS = [Prop('accept', strategy, oracle, quick=180, thorough=4000, size=700),
         Prop('reject', strategy_fault, oracle_fault, quick=350, thorough=9000, size=600)]
