"""C26: a type means the same wherever it is defined and whatever it is called (metamorphic: reordering, adding unrelated types, renaming)"""
import collections
import copy
import json

from vlib import gen, model, near, notation as nt
from vlib.cases import MODES, REJECT, gen_valid, mkcodec, pick_type
from vlib.model import same
from vlib.runner import Prop, Skip, require
from checks.c09 import accepted, rename

import jadn

ID = 'C26'
RULE = ('a case is a generated schema, a type of it, one to three values (valid, moved across a constraint, or mutated), and a variant of the schema: its types in another order, perhaps with the types of '
        'an unrelated schema mixed in, perhaps with every type renamed (names may be a prefix of another, or equal another but for case). Both must be accepted or not, and in all four modes both must encode, decode and reject the same values with the same results; '
        'dependencies must be the same up to names; without renaming, canonical definition, JSON Schema definition and the lines of the JIDL and HTML documents must be the same too. '
        'Non-trivial: the variant differs in more than names and the type refers to another type; distinct by schema, variant and values.')
ASSUMPTIONS = ['generated names of extensions may differ', 'Markdown and diagrams are left to C19 and C20']
NEW = ['Zulu', 'Zul', 'ZULU', 'Z', 'Zulu-1', 'Zulu1', 'Zulu11', 'A', 'Aa', 'AA', 'Enum', 'Pointer', 'Key', 'Link', 'TagId', 'Stringy', 'ArrayOfX', 'MapO', 'Boolean-', 'Record1', 'Nul', 'B', 'Ba', 'Bb', 'C', 'Cc']


def strategy(s):
    sc = gen.schema(s, n_types=(2, 6), info='some', desc='plain')
    m = model.Model(sc)
    tn = pick_type(s, sc, m)
    vals = []
    for _ in range(s.int(1, 3)):
        v = gen_valid(s, m, tn)
        k = s.n(4)
        if k == 1:
            v, _l = near.near(s, m, m.te(tn), v)
        elif k == 2:
            v = model.mutate(s, v)
        vals.append(v)
    names = [t[0] for t in sc['types']]
    extra = []
    if s.p(50):
        ex = gen.schema(s, n_types=(1, 3), info='none', desc='plain')
        used = set(names) | set(gen.ODD_NAMES)
        ren = {t[0]: f'X-{t[0]}'[:60] for t in ex['types']}
        if not used & set(ren.values()) and len(set(ren.values())) == len(ren):
            extra = rename(ex, ren)['types']
    ren = {}
    if s.p(40):
        pool = [n for n in s.shuffle(NEW) if n not in names and n not in {t[0] for t in extra}]
        ren = dict(zip(names, pool))
    order = s.shuffle(list(range(len(names) + len(extra))))
    return {'schema': sc, 'type': tn, 'values': vals, 'extra': extra, 'rename': ren, 'order': order}


def outcome(f, *a):
    try:
        return 'ok', f(*a)
    except REJECT:
        return 'rejected', None


def lines(text):
    return collections.Counter(x for x in text.split('\n') if x.strip())


def canon_ref(js, rep):
    if isinstance(js, dict):
        return {k: rep.get(v, v) if k == '$ref' else canon_ref(v, rep) for k, v in js.items()}
    return [canon_ref(v, rep) for v in js] if isinstance(js, list) else js


def oracle(case, cov):
    sc, tn, ren = case['schema'], case['type'], case['rename']
    other = rename(sc, ren)
    other['types'] += copy.deepcopy(case['extra'])
    other['types'] = [other['types'][i] for i in case['order']]
    a, b = accepted(sc), accepted(other)
    require(a == b, lambda: f'one of the schemas is accepted, the other is not: {other}')
    if not a:
        cov.label('not accepted')
        return
    to = ren.get(tn, tn)
    m = model.Model(sc)
    for mode in MODES:
        c, d = mkcodec(sc, mode), mkcodec(other, mode)
        for v in case['values']:
            x, y = outcome(c.encode, tn, copy.deepcopy(v)), outcome(d.encode, to, copy.deepcopy(v))
            require(x[0] == y[0] and same(x[1], y[1]), lambda: f'mode {mode}: encode {tn} {v!r} gives {x}, in the other schema {y}: {other}')
            cov.label('encode ' + x[0])
            try:
                w = x[1] if x[0] == 'ok' else near.loose(m, m.te(tn), v, *mode)
            except (TypeError, KeyError, AttributeError, IndexError, ValueError):
                continue
            x, y = outcome(c.decode, tn, copy.deepcopy(w)), outcome(d.decode, to, copy.deepcopy(w))
            require(x[0] == y[0] and same(x[1], y[1]), lambda: f'mode {mode}: decode {tn} {w!r} gives {x}, in the other schema {y}: {other}')
            cov.label('decode ' + x[0])
    n = lambda t: ren.get(t, t)
    da, db = jadn.build_deps(sc), jadn.build_deps(other)
    for t in da:
        require(db[n(t)] == [n(r) for r in da[t]], lambda: f'dependencies of {t}: {da[t]}, in the other schema {db[n(t)]}')
    if ren:
        cov.label('renamed')
    else:
        ca, cb = ({t[0]: t for t in jadn.canonicalize(x)['types']} for x in (sc, other))
        ja, jb = (json.loads(jadn.translate.json_schema_dumps(x))['definitions'] for x in (sc, other))
        rep = {}                # of several types derived in the same way from one type any may stand for the derivation
        for t in sorted(da):
            if (d := nt.full(next(x for x in sc['types'] if x[0] == t)))[1] == 'Enumerated' and any(o[0] in '#>' for o in d[2]):
                k = repr(sorted(d[2]))
                rep['#/definitions/' + t] = rep.setdefault(k, '#/definitions/' + t)
        for t in da:
            require(ca[t] == cb[t], lambda: f'canonical form of {t}: {ca[t]}, in the other schema {cb[t]}')
            require(canon_ref(ja[t], rep) == canon_ref(jb[t], rep), lambda: f'JSON Schema of {t}: {ja[t]}, in the other schema {jb[t]}')
        one = [['One-more', 'Boolean', [], '', []]]
        ex = {'types': one + copy.deepcopy(case['extra'])}
        none = {'types': one}
        for name, f in (('JIDL', jadn.convert.jidl_dumps), ('HTML', jadn.convert.html_dumps)):
            want = lines(f(sc))
            if case['extra']:
                want += lines(f(ex))
                want.subtract(lines(f(none)))
            got = lines(f(other))
            want = +want
            require(got == want, lambda: f'{name}: lines {list((want - got).elements())[:4]} became {list((got - want).elements())[:4]}')
    if case['extra']:
        cov.label('unrelated types')
    if da[tn] and (case['extra'] or case['order'] != sorted(case['order'])):
        cov.hit((sc['types'], case['order'], case['extra'], ren, case['values']))


PROPS = [Prop('variant', strategy, oracle, 160, 5000, size=1400)]
