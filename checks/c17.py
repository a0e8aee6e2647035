"""C17: generated JSON Schema is well-formed and complete (invariants of the output over generated schemas and options; validated with an independent JSON Schema implementation)"""
import copy
import json
import os
import re
import tempfile

import jsonschema

from vlib import gen, model, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks.c08 import spice
from checks.c09 import accepted

import jadn
from jadn.translate import json_schema_dump, json_schema_dumps

ID = 'C17'
RULE = ('a case is a generated schema using every notation (other packages included), the three generation options, and perhaps an output file with a source header. The text must be JSON without NaN or Infinity, a valid '
        'draft-07 schema by the jsonschema package, define every type under its name, resolve every $ref inside the document (other documents only where requested), carry the package and information items, and its '
        'top level must refer to exactly the exported types. Non-trivial: some type has fields, elements or items; distinct by schema and options.')
ASSUMPTIONS = ['exported types are roots or, in their absence, exports; a single one is the document itself, several are properties',
               'patterns are regular expressions']
STYLES = ('enum', 'const', 'regex')


def strategy(s):
    sc = wide(s, n_types=(1, 7))
    if s.p(35):
        sc = spice(s, sc)
    names = [t[0] for t in sc['types']]
    if s.p(60):
        i = sc.setdefault('info', {'package': s.pick(gen.URIS)})
        i[s.pick(['roots', 'exports'])] = s.some(names, 40) or [s.pick(names)]
    return {'schema': sc, 'verbose': s.p(50), 'enum_style': s.pick(STYLES), 'import_style': s.pick(['any', 'ref']), 'file': s.p(25), 'source': s.p(50)}


def walk(x, key=None):
    """every subschema-like dict with the keyword it stands under"""
    if isinstance(x, dict):
        yield x, key
        for k, v in x.items():
            if key not in ('properties', 'definitions') and k in ('enum', 'const', 'description', 'title', '$comment'):
                continue
            yield from walk(v, k if key not in ('properties', 'definitions', 'imports') else None)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v, None)


def described(x, text):
    """an optional element of an array may be wrapped"""
    return x.get('description') == text or any(described(y, text) for y in x.get('anyOf', []))


def bad_const(x):
    raise ValueError(f'{x} is not JSON')


def produce(case, sc):
    opts = dict(verbose=case['verbose'], enum_style=case['enum_style'], import_style=case['import_style'])
    if not case['file']:
        return json_schema_dumps(sc, **opts)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'x.json')
        json_schema_dump(sc, fn, **({'source': 'a "file" /* x */'} if case['source'] else {}), **opts)
        with open(fn, encoding='utf8') as f:
            return f.read()


def oracle(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    try:
        for t in sc['types']:
            for o in nt.full(t)[2] + [o for f in nt.full(t)[4] if len(f) > 3 for o in f[3]]:
                o[0] == '%' and re.compile(o[1:])
    except re.error:
        cov.label('pattern is not a regular expression')
        return
    before = copy.deepcopy(sc)
    text = produce(case, sc)
    require(sc == before, 'the schema was modified')
    try:
        js = json.loads(text, parse_constant=bad_const)
    except ValueError as e:
        require(False, f'the output is not JSON: {e}: {text[:200]}')
    try:
        jsonschema.Draft7Validator.check_schema(js)
    except jsonschema.SchemaError as e:
        require(False, f'not a JSON Schema: {list(e.absolute_path)}: {e.message[:300]}')
    require(js.get('$schema') == 'http://json-schema.org/draft-07/schema#', 'no $schema')
    names = [t[0] for t in sc['types']]
    defs = js.get('definitions', {})
    require(set(names) <= set(defs), lambda: f'types without a definition: {sorted(set(names) - set(defs))}')
    undefined = {'#/definitions/' + t for t in set(jadn.analyze(sc)['undefined'])}
    for d, key in walk(js):
        require('#ref' not in d, lambda: f'"#ref" is not a keyword: {d}')
        if '$ref' not in d or key == 'properties':
            continue
        r = d['$ref']
        if not r.startswith('#'):
            ns = dict(sc['info'].get('namespaces', {}))
            require(case['import_style'] == 'ref' and any(r.startswith(u + '#/definitions/') for u in ns.values()), lambda: f'unexpected reference {r}')
            cov.label('other document')
            continue
        if r in undefined:
            continue
        x = js
        for p in r[2:].split('/'):
            p = p.replace('~1', '/').replace('~0', '~')
            require(isinstance(x, dict) and p in x, lambda: f'{r} refers to a missing definition')
            x = x[p]
        require(isinstance(x, dict), lambda: f'{r} is not a schema')
        if ':' in r or r.startswith('#/imports'):
            cov.label('import')
    info = sc.get('info', {})
    require(js.get('$id') == info.get('package'), lambda: f"$id is {js.get('$id')}, package is {info.get('package')}")
    for k, i in (('title', 'title'), ('version', 'version'), ('description', 'description'), ('copyright', 'copyright'), ('license', 'license'), ('$comment', 'comment')):
        require(js.get(k) == info.get(i) or k == '$comment' and i not in info and str(js[k]).startswith('Generated from'), lambda: f'{k} is {js.get(k)!r}, not {info.get(i)!r}')
    exports = [e for e in info.get('roots', info.get('exports', [])) if e in names]
    if len(exports) == 1:
        require(js.get('$ref') == f'#/definitions/{exports[0]}', lambda: f'exported type {exports} is not at the top: {js.get("$ref")}')
    else:
        require('$ref' not in js and js.get('type') == 'object' and js.get('additionalProperties') is False, 'the top level is not a closed object')
        refs = [p.get('$ref') for p in js.get('properties', {}).values()]
        require(sorted(refs) == sorted(f'#/definitions/{e}' for e in exports), lambda: f'top level admits {refs}, exported types are {exports}')
    for t in sc['types']:       # every field and item is there
        t = nt.full(t)
        o = nt.od(t[2])
        d = defs[t[0]]
        require(not t[3] or d.get('description') == t[3], lambda: f'{t[0]}: description {d.get("description")!r}, not {t[3]!r}')
        sub = list(d.get('properties', {}).values()) if t[1] in ('Map', 'Choice') or t[1] == 'Record' and case['verbose'] else \
            d.get('items', []) if t[1] in ('Array', 'Record') and '/' not in o else []
        if t[1] == 'Choice' and 'C' in o:
            sub = d.get({'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[o['C']], [])
        if t[1] == 'Enumerated' and case['enum_style'] == 'const' and 'oneOf' in d:
            require([x['description'] for x in d['oneOf']] == [f'{f[1]} - {f[2]}' if '=' in o else f[2] for f in t[4]] or not t[4], lambda: f'{t[0]}: descriptions of items in {d}')
        if t[1] != 'Enumerated':
            for x, f in zip(sub, t[4]):
                require(not f[4] or described(x, f[4]), lambda: f'{t[0]}/{f[1]}: description {f[4]!r} is not in {x!r}')
                cov.label(*(['field description'] if f[4] else []))
        if t[1] in ('Map', 'Choice') and 'C' not in o or t[1] == 'Record' and case['verbose']:
            keys = [str(f[0]) if '=' in o else f[1] for f in t[4]]
            require(list(d.get('properties', {})) == keys, lambda: f"{t[0]}: properties {list(d.get('properties', {}))}, fields {keys}")
        elif t[1] == 'Choice':
            n = d.get({'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[o['C']], [])
            require(len(n) == len(t[4]), lambda: f'{t[0]}: {len(n)} alternatives, {len(t[4])} fields')
        elif t[1] in ('Array', 'Record') and '/' not in o:
            require(len(d.get('items', [])) == len(t[4]), lambda: f'{t[0]}: {len(d.get("items", []))} items, {len(t[4])} fields')
        elif t[1] == 'Enumerated' and '#' not in o and '>' not in o and t[4]:
            if 'enum' in d:
                got = d['enum']
            elif 'oneOf' in d:
                got = [x.get('const') for x in d['oneOf']]
            else:
                got = None
                for it in t[4]:
                    require('pattern' in d and jsonschema.Draft7Validator(d).is_valid(it[1]), lambda: f'{t[0]}: {it[1]!r} does not match {d}')
            if got is not None:
                require(got == [it[0] if '=' in o else it[1] for it in t[4]], lambda: f'{t[0]}: items {got}')
    cov.label(case['enum_style'], 'verbose' if case['verbose'] else 'concise', f'exports:{min(len(exports), 2)}', *(['file'] if case['file'] else []))
    if any(nt.full(t)[4] or t[1] in ('ArrayOf', 'MapOf') for t in sc['types']):
        cov.hit((sc, case['verbose'], case['enum_style'], case['import_style']))


PROPS = [Prop('output', strategy, oracle, 300, 8000, size=900)]
