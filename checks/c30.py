"""C30: derived enumerations have exactly the items they are derived from (reference: fields and paths counted directly, against simplified schemas, the codec and JSON Schema)"""
import copy
import json

from vlib import notation as nt
from vlib.cases import MODES, REJECT, mkcodec, to_json
from vlib.runner import Prop, Skip, require

import jadn
from jadn.transform import unfold_extensions
from jadn.translate import json_schema_dumps

ID = 'C30'
RULE = ('a case is a graph of two to seven structures (records, maps, choices, arrays, also named by number) in which fields are leaves or other structures, some of them directories (nested up to the whole depth, recursive too), '
        'an explicit enumeration, and up to six derived ones - of fields or of paths, of other derived enumerations, as type, field, repeated field, element, map key or map value, with and without numbers - in any order of '
        'definition. The items are counted directly. With extensions removed each derived enumeration must list exactly these items, and in every mode the codec must accept exactly them (names and numbers near them are '
        'tried, such as incomplete paths, directories and items of other types), writing each in the form of the mode and reading it back; the JSON Schema must admit exactly them. Non-trivial: an item of a path in a directory, '
        'or of an enumeration of an enumeration, is used; distinct by schema and use.')
ASSUMPTIONS = ['a path does not enter a structure it is inside of', 'directories that are repeated or refer to something without fields list nothing and are not generated', 'enumerations without items are not used']
TYPES = ['Alpha', 'Bravo', 'Charlie', 'Delta-4', 'Echo', 'Foxtrot', 'G7']
FIELDS = ['a', 'b', 'c', 'dd', 'e_1', 'type', 'f']
ITEMS = ['red', 'a', 'b-1', 'a/b', '/', 'dd', 'x.y']
USES = ['type', 'type', 'field', 'repeated', 'elem', 'key', 'val', 'choice']


def strategy(s):
    n = s.int(2, 7)
    names = s.shuffle(TYPES)[:n]
    base = [s.pick(['Record', 'Map', 'Choice', 'Array', 'Record', 'Map']) for _ in names]
    types = []
    deep = s.p(60)
    for i, (t, b) in enumerate(zip(names, base)):
        fs = []
        k = s.int(0 if i and s.p(20) else 1, 4)
        ids = list(range(1, k + 1)) if b in ('Record', 'Array') else s.shuffle([0, 1, 2, 3, 5, 9, 77])[:k]
        for j, (x, fn) in enumerate(zip(ids, s.shuffle(FIELDS)[:k])):
            o, r = [], 'String'
            if j == 0 and deep and i + 1 < n or s.p(40):
                r = names[i + 1] if j == 0 and deep and i + 1 < n else s.pick(names)
                o = ['<'] if s.p(80) else []
            elif s.p(20):
                r, o = s.pick([('Integer', []), ('Integer', ['{1', '}5']), ('Boolean', []), ('String', ['}9'])])
            if b != 'Choice' and (r != 'String' or s.p(30)):
                o = ['[0'] + o
            fs.append([x, fn, r, s.shuffle(o), s.pick(['', 'word', 'a b'])])
        types.append([t, b, ['='] if b in ('Map', 'Choice') and s.p(20) else [], '', fs])
    colours = [[i, v, s.pick(['', 'item'])] for i, v in zip(s.shuffle([0, 1, 4, 8, 20])[:3], s.shuffle(ITEMS)[:3])]
    types.append(['Colour', 'Enumerated', ['='] if s.p(20) else [], '', colours])
    derivable = [(k, t) for t in names for k in '#>'] + [('#', 'Colour')]
    uses = []
    for i in range(s.int(1, 6)):
        k, t = s.pick(derivable)
        if deep and s.p(50):
            k, t = '>', names[s.n(2)]
        u = s.pick(USES)
        num = ['='] if u in ('type', 'field', 'repeated', 'choice') and s.p(30) else []
        ref = k + t
        nm = f'Use{i}'
        if u == 'type':
            d = [nm, 'Enumerated', [ref] + num, s.pick(['', 'derived']), []]
            derivable += [('#', nm)] * 3
        elif u in ('field', 'repeated'):
            d = [nm, 'Record', [], '', [[1, 'f', 'Enumerated', s.shuffle([ref] + num + (['[0', ']0'] if u == 'repeated' else [])), '']]]
        elif u == 'choice':
            d = [nm, 'Choice', [], '', [[1, 'f', 'Enumerated', s.shuffle([ref] + num), ''], [2, 'g', 'String', [], '']]]
        elif u == 'elem':
            d = [nm, 'ArrayOf', ['*' + ref], '', []]
        elif u == 'key':
            d = [nm, 'MapOf', ['+' + ref, '*Integer'], '', []]
        else:
            d = [nm, 'MapOf', ['+String', '*' + ref], '', []]
        uses.append([nm, u, ref, bool(num)])
        types.append(d)
    types = s.shuffle(types) if s.p(70) else types
    index = {t[0]: t for t in types}
    empty = {u[0] for u in uses if not items(index, u[2])}      # nothing to use
    uses = [u for u in uses if u[0] not in empty]
    if not uses:
        raise Skip
    types = [t for t in types if t[0] not in empty]
    return {'types': types, 'uses': uses, 'ext': s.pick([None, None, ['DerivedEnum'], ['AnonymousType', 'DerivedEnum'], ['MapOfEnum'], ['DerivedEnum', 'Multiplicity']]), 'style': s.pick(['enum', 'const', 'regex']), 'verbose': s.p(50)}


def items(types, ref, inside=()):
    """(number, text, description) of every item"""
    t = types[ref[1:]]
    if ref[0] == '>':
        return [(i, p, d) for i, (p, d) in enumerate(paths(types, t, '', (t[0],)), 1)]
    if t[1] == 'Enumerated':
        for o in t[2]:
            if o[0] in '#>':
                return items(types, o)
        return [tuple(f) for f in t[4]]
    return [(f[0], f[1], f[4]) for f in t[4]]


def paths(types, t, base, inside):
    for f in t[4]:
        if '<' not in f[3]:
            yield base + f[1], f[4]
        elif f[2] not in inside:
            yield from paths(types, types[f[2]], f'{base}{f[1]}/', inside + (f[2],))


def near_names(types, mine):
    out = set()
    for _, v, _ in mine:
        ps = v.split('/')
        out |= {v + '/', '/' + v, v.upper(), v + 'x', ps[-1], ps[0], '/'.join(ps[1:]), '/'.join(ps[:-1]), '/'.join(ps[:1] + ps[2:]), '/'.join(ps[:-2] + ps[-1:]), '^'.join(ps)}
    for t in types.values():
        out |= {f[1] for f in t[4]}
    return sorted(out - {v for _, v, _ in mine})


def oracle(case, cov):
    sc = {'types': case['types']}
    types = {t[0]: t for t in case['types']}
    uses = [(nm, u, ref, num, items(types, ref)) for nm, u, ref, num in case['uses']]
    jadn.check(copy.deepcopy(sc))
    before = copy.deepcopy(sc)
    ext = case['ext']
    un = unfold_extensions(sc, set(ext) if ext else None)
    require(sc == before, 'the schema was modified')
    got = {t[0]: nt.full(t) for t in un['types']}
    require(len(got) == len(un['types']), 'a type is defined twice')

    def listed(tn, what, mine):
        x = [tuple(f) for f in got[tn][4]]
        require(x == mine, lambda: f'{what}: simplified to {tn} with items {x}, expected {mine}')
    for nm, u, ref, num, mine in uses:
        d = got[nm]
        if u == 'type':
            listed(nm, f'{nm} {ref}', mine)
            require(not [o for o in d[2] if o[0] in '#>'], f'{nm} keeps {d[2]}')
        elif u in ('elem', 'val'):
            v = next(o for o in d[2] if o[0] == '*')[1:]
            require(v in got, lambda: f'{nm}: element {v} is not defined')
            listed(v, f'{nm} {u} {ref}', mine)
        elif u == 'key':
            if d[1] == 'Map':
                require([tuple(f[:2]) + (f[4],) for f in d[4]] == mine, lambda: f'{nm}: map with {d[4]}, expected {mine}')
            else:
                listed(next(o for o in d[2] if o[0] == '+')[1:], f'{nm} key {ref}', mine)
        elif not ext or 'AnonymousType' in ext:
            v = d[4][0][2]
            if u == 'repeated':
                v = next(o for o in got[v][2] if o[0] == '*')[1:]
            listed(v, f'{nm} {u} {ref}', mine)
            require(('=' in got[v][2]) == num, lambda: f'{nm}: numbers of {v} {got[v][2]}')
    js = json.loads(json_schema_dumps(copy.deepcopy(sc), verbose=case['verbose'], enum_style=case['style']))
    for vr, vs in MODES:
        c = mkcodec(sc, (vr, vs))
        for nm, u, ref, num, mine in uses:
            ids = {i for i, _, _ in mine}
            bad = [(x, x) for x in near_names(types, mine)] if not num else [(max(ids) + 1, max(ids) + 1), (mine[0][1], mine[0][1])] + [(i, i) for i in (-1, 0, 6) if i not in ids]
            for api, wire in [(i if num else v, v if vs and not num else i) for i, v, _ in mine] + bad:
                ok = not any(api is b[0] for b in bad)
                if not vs and not ok and not num:       # near numbers
                    wire = max(ids) + 1 + len(str(api))
                f = 'f' if vs else 1
                allw, alla = {v if vs else i: 3 for i, v, _ in mine}, {v: 3 for _, v, _ in mine}      # every key of such a map is required
                rec = (lambda x: {f: x}) if vr else (lambda x: [x])
                w, a = {'type': (wire, api), 'field': (rec(wire), {'f': api}), 'repeated': (rec([wire]), {'f': [api]}), 'choice': ({f: wire}, {'f': api}),
                        'elem': ([wire], [api]), 'key': ({**allw, wire: 3}, {**alla, api: 3}), 'val': ({'k': wire}, {'k': api})}[u]
                for word, x, want in (('encode', a, w), ('decode', w, a)):
                    try:
                        y = getattr(c, word)(nm, copy.deepcopy(x))
                    except REJECT as e:
                        require(not ok, lambda: f'{nm} ({u} {ref}, verbose_rec={vr}, verbose_str={vs}): {word} rejects {x!r}: {e}; items {mine}')
                        continue
                    require(ok, lambda: f'{nm} ({u} {ref}, verbose_rec={vr}, verbose_str={vs}): {word} accepts {x!r}; items {mine}')
                    require(y == want and type(y) is type(want), lambda: f'{nm} ({u} {ref}): {word} {x!r} gives {y!r}, expected {want!r}')
        cov.label(f'verbose {vr}/{vs}')
    import jsonschema
    for nm, u, ref, num, mine in uses:
        val = jsonschema.Draft7Validator({'$ref': '#/definitions/' + nm, 'definitions': js['definitions']})
        c = mkcodec(sc, (case['verbose'], True))
        for ok, vs_ in ((True, [i if num else v for i, v, _ in mine]), (False, near_names(types, mine) if not num else [max(i for i, _, _ in mine) + 1, mine[0][1]])):
            for x in vs_:
                w = {'type': x, 'field': {'f': x} if case['verbose'] else [x], 'repeated': {'f': [x]} if case['verbose'] else [[x]], 'choice': {'f': x}, 'elem': [x], 'key': {**{v: 3 for _, v, _ in mine}, x: 3}, 'val': {'k': x}}[u]
                require(val.is_valid(to_json(w)) == ok, lambda: f'{nm} ({u} {ref}): JSON Schema {"rejects" if ok else "accepts"} {w!r}; items {mine}; {js["definitions"].get(nm)}')
    for nm, u, ref, num, mine in uses:
        nested = any('/' in v for _, v, _ in mine) and ref[0] == '>'
        chain = types[ref[1:]][1] == 'Enumerated' and any(o[0] in '#>' for o in types[ref[1:]][2])
        depth = max(v.count('/') for _, v, _ in mine) if ref[0] == '>' else 0
        cov.label(u, f'depth {min(depth, 4)}', *(['derived from derived'] if chain else []))
        if nested or chain:
            cov.hit((case['types'], nm))


PROPS = [Prop('items', strategy, oracle, 120, 4000, size=300)]
