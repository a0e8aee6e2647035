"""C12: removing extensions yields a valid core schema with the author's types intact (invariants of the result over generated schemas and selections of extensions)"""
import copy
import re

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks.c09 import accepted
from checks.c15 import refs_of

import jadn
from jadn.transform import unfold_extensions

ID = 'C12'
EXT = ('AnonymousType', 'Multiplicity', 'DerivedEnum', 'MapOfEnum', 'Link')
FIELD = set('[]&<KL')
RULE = ('all: a generated schema using every notation; with all extensions removed it must be accepted by the checker, contain no instance of any extension, start with the author\'s types in order, each '
        'with its name, base (except maps with listed keys), description, fields (number, name, description, optionality, tag), and without constraints it did not have; every type must be defined once and '
        'every reference resolve; removing again must change nothing; the original must not change. some: the same with a non-empty selection: no instance of the selected extensions may remain, types that '
        'contain none of them must be unchanged, and removing the rest afterwards must give an extension-free accepted schema. Non-trivial: the schema contains an extension (one of the selected); distinct by schema and selection.')
ASSUMPTIONS = ['a derived enumeration or listed map key inside a field is part of an anonymous type, and is removed with it; repeated links are removed with Multiplicity; derived keys and links to maps with MapOfEnum', 'listed keys of maps are valid field names',
               "author type names do not contain '$', which is reserved for tool-generated names", 'generated names fit in 64 characters', 'a pointer enumeration never revisits a type it is inside of']


def has(td, types, ext=EXT):
    """extensions a type definition uses"""
    out = set()
    td = nt.full(td)
    if td[1] in gen.COMPOUND:
        for f in td[4]:
            fo = nt.od(f[3])
            rep = ']' in fo and fo[']'] != '1'
            if rep:
                out.add('Multiplicity')
            if any(k not in FIELD and not (rep and k == 'q') for k in fo):
                out.add('AnonymousType')
            if 'K' in fo or 'L' in fo:
                out.add('Link')
    o = nt.od(td[2])
    if '#' in o or '>' in o or any(o.get(k, '')[:1] in ('#', '>') for k in '*+' if o.get(k)):
        out.add('DerivedEnum')
    if td[1] == 'MapOf' and enum_key(o['+'], types):
        out.add('MapOfEnum')
    return out & set(ext)


def enum_key(k, types):
    return k[:1] in ('#', '>') or (k in types and types[k][1] == 'Enumerated')


def items(ref, types):
    t = types.get(ref.lstrip('#>'))
    if t is None:
        return []
    if ref[0] == '>':           # a path is not a field name
        return [f[1] + '/' * ('<' in f[3]) for f in nt.full(t)[4]]
    o = nt.od(nt.full(t)[2])
    for k in '#>':
        if k in o:
            return items(k + o[k], types)
    return [i[1] for i in nt.full(t)[4]] if ref[0] == '#' or t[1] == 'Enumerated' else []


def byname(sc):
    return {t[0]: t for t in sc['types']}


def strategy_all(s):
    return {'schema': wide(s, config=False, net=s.p(50))}


def strategy_some(s):
    c = strategy_all(s)
    c['ext'] = s.some(list(EXT), 45) or [s.pick(EXT)]
    return c


def common(sc, out, what):
    names = [t[0] for t in out['types']]
    require(len(names) == len(set(names)), lambda: f'{what}: defined twice: {sorted({n for n in names if names.count(n) > 1})}')
    require(names[:len(sc['types'])] == [t[0] for t in sc['types']], lambda: f"{what}: types {names} do not start with the author's types {[t[0] for t in sc['types']]}")
    dangling = {r for t in sc['types'] for r in refs_of(nt.full(t))} - set(byname(sc))
    for t in out['types']:
        bad = refs_of(nt.full(t)) - set(names) - dangling
        require(not bad, lambda: f'{what}: {t[0]} refers to {sorted(bad)}, which is not defined: {t}')
    require({k: v for k, v in out.items() if k != 'types'} == {k: v for k, v in sc.items() if k != 'types'}, lambda: f'{what}: package information changed')
    try:
        jadn.check(copy.deepcopy(out))
    except Exception as e:
        require(False, f'{what}: the result is not accepted: {type(e).__name__}: {str(e)[:300]}')


def kept(a, b, types, links):
    """what must survive in an author's type whichever extensions are removed"""
    require(b[3] == a[3], lambda: f'{a[0]}: description {a[3]!r} became {b[3]!r}')
    mapped = a[1] == 'MapOf' and b[1] == 'Map' and enum_key(nt.od(a[2])['+'], types)
    require(b[1] == a[1] or mapped, lambda: f'{a[0]}: {a[1]} became {b[1]}')
    drop = '+*' if mapped else '#>' if a[1] == 'Enumerated' else ''
    ao, bo = nt.od(a[2]), nt.od(b[2])
    ref = '*+' if a[1] in ('ArrayOf', 'MapOf') else ''
    exp = {k: v for k, v in ao.items() if k not in drop + ref}
    got = {k: v for k, v in bo.items() if k not in drop + ref}
    require(exp == got, lambda: f'{a[0]}: options {a[2]} became {b[2]}')
    for k in ref if not mapped else '':
        if k in ao and ao[k][:1] not in '#>':
            require(bo[k] == ao[k], lambda: f'{a[0]}: options {a[2]} became {b[2]}')
    if a[1] == 'Enumerated' and not any(k in ao for k in '#>') or a[1] not in ('Enumerated', 'MapOf'):
        require(len(a[4]) == len(b[4]), lambda: f'{a[0]}: {len(a[4])} fields became {len(b[4])}')
    if a[1] in gen.COMPOUND:
        for f, g in zip(a[4], b[4]):
            require((f[0], f[1], f[4]) == (g[0], g[1], g[4]), lambda: f'{a[0]}: field {f} became {g}')
            fo, go = nt.od(f[3]), nt.od(g[3])
            for k in '&<':
                require(fo.get(k) == go.get(k), lambda: f'{a[0]}: field {f} became {g}')
            require((fo.get('[', '1') == '0') == (go.get('[', '1') == '0'), lambda: f'{a[0]}: field {f} became {g}')
            if f[2] != g[2]:
                require(any(k not in '&<[' for k in fo) and (g[2] in byname_out[0] or 'L' in fo), lambda: f'{a[0]}: field {f} became {g}')
    elif a[1] == 'Enumerated' and not any(k in ao for k in '#>'):
        require(a[4] == b[4], lambda: f'{a[0]}: items {a[4]} became {b[4]}')


byname_out = [{}]


def oracle(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    keys = [x for t in sc['types'] for o in [nt.full(t)[2]] + [f[3] for f in nt.full(t)[4] if len(f) > 3] for x in o if x[0] == '+']
    if not all(re.fullmatch('[$a-z][_$A-Za-z0-9]{0,63}', i) for k in keys for i in items(k[1:], byname(sc))):
        cov.label('items that cannot be field names')
        return
    ext = set(case['ext']) if 'ext' in case else set(EXT)
    before = copy.deepcopy(sc)
    out = unfold_extensions(sc, ext) if 'ext' in case else unfold_extensions(sc)
    require(sc == before, 'the original schema was modified')
    what = f'without {sorted(ext)}' if 'ext' in case else 'without extensions'
    types, otypes = byname(sc), byname(out)
    byname_out[0] = otypes
    common(sc, out, what)
    for t in out['types']:
        left = has(t, otypes, ext)
        require(not left, lambda: f'{what}: {t} still uses {sorted(left)}')
    used = set()
    for t in sc['types']:
        a, b = nt.full(t), nt.full(otypes[t[0]])
        used |= has(t, types)
        kept(a, b, types, 'Link' in ext)
        touched = ext | ({'Multiplicity'} if 'AnonymousType' in ext else set()) | ({'DerivedEnum'} if 'MapOfEnum' in ext else set())
        if any('L' in f[3] and ('Multiplicity' in touched and nt.od(f[3]).get(']', '1') != '1' or 'MapOfEnum' in ext and types.get(f[2], ['', ''])[1] == 'MapOf')
               for x in sc['types'] for f in nt.full(x)[4] if len(f) > 3):
            touched.add('Link')
        if not has(t, types, touched):
            require([x if not isinstance(x, list) else sorted(map(repr, x)) for x in a] == [x if not isinstance(x, list) else sorted(map(repr, x)) for x in b], lambda: f'{what}: {a} uses none of them but became {b}')
    again = unfold_extensions(out, ext)
    require(again == out, lambda: f'{what}: removing again changed {[(x, y) for x, y in zip(out["types"], again["types"]) if x != y] or again["types"][len(out["types"]):]}')
    if 'ext' in case:
        rest = unfold_extensions(out)
        common(out, rest, f'{what}, then the others')
        for t in rest['types']:
            left = has(t, byname(rest))
            require(not left, lambda: f'{what}, then the others: {t} still uses {sorted(left)}')
    cov.label(*used & ext)
    if used & ext:
        cov.hit((sc, sorted(ext)))


PROPS = [Prop('all', strategy_all, oracle, 250, 8000, size=900), Prop('some', strategy_some, oracle, 250, 8000, size=900)]
