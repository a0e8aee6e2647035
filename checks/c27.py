"""C27: nested data survives flattening and restoring (round trip, reference implementation)"""
import copy
import json

from vlib.runner import Prop, require

from jadn import utils

ID = 'C27'
RULE = ('a case is nested JSON data (objects, lists, scalars; keys of any text without the separator and ":"; no empty containers, no object whose keys are exactly "0".."n-1") and a separator. Flattening must give exactly one '
        'entry per leaf under its path, restoring it must give the data with lists as numbered objects, converting lists must give the data, and the arguments must be unchanged; flattening must drop a namespace prefix from keys, '
        'and merging must let later objects win. Non-trivial: depth at least two; distinct by data.')
ASSUMPTIONS = ['keys contain neither the separator nor ":" (except for one namespace prefix)', 'containers are not empty', 'converting numbered objects to lists may happen in place']
KEYS = ['a', 'b', 'c', 'x_1', '0', '1', '2', '10', '01', '-1', 'A', 'é', ' ', 'name', 'a-b', '漢', '$', '00', '3']
SEPS = ['.', '.', '/', '__', ' ', '|', '->', '\n', '*', '\\']


def value(s, depth, keys):
    k = s.n(6)
    if depth >= 4 or k < 2:
        return s.pick([0, 1, -3, 'x', '', 'a.b', True, False, None, 1.5, 'é', 10 ** 20])
    if k < 4:
        d = {s.pick(keys): value(s, depth + 1, keys) for _ in range(s.int(1, 4))}
        if set(d) == {str(i) for i in range(len(d))}:
            d['zz'] = 1
        return d
    return [value(s, depth + 1, keys) for _ in range(s.int(1, 12) if s.p(15) else s.int(1, 3))]


def strategy(s):
    sep = s.pick(SEPS)
    keys = [k for k in KEYS if sep not in k and not any(c in k for c in sep)]
    top = s.pick(['dict', 'dict', 'list'])
    v = value(s, 0, keys)
    if not isinstance(v, (dict, list)):
        v = {'a': v} if top == 'dict' else [v]
    return {'data': v, 'sep': sep, 'ns': s.p(20), 'merge': [{s.pick(KEYS): s.n(9) for _ in range(s.n(4))} for _ in range(s.n(4))]}


def ref_flat(v, path, out):
    if isinstance(v, dict):
        for k, x in v.items():
            ref_flat(x, path + [k], out)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            ref_flat(x, path + [str(i)], out)
    else:
        out.append((path, v))
    return out


def numbered(v):
    if isinstance(v, dict):
        return {k: numbered(x) for k, x in v.items()}
    if isinstance(v, list):
        return {str(i): numbered(x) for i, x in enumerate(v)}
    return v


def eq(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def prefixed(v):
    if isinstance(v, dict):
        return {'ns:' + k: prefixed(x) for k, x in v.items()}
    return [prefixed(x) for x in v] if isinstance(v, list) else v


def depth(v):
    c = list(v.values()) if isinstance(v, dict) else v if isinstance(v, list) else []
    return 1 + max(map(depth, c)) if c else 0


def oracle(case, cov):
    v, sep = case['data'], case['sep']
    before = copy.deepcopy(v)
    kw = {} if sep == '.' else {'sep': sep}
    want = {sep.join(p): x for p, x in ref_flat(v, [], [])}
    flat = utils.flatten(copy.deepcopy(prefixed(v)) if case['ns'] else v, **kw)
    require(eq(v, before), 'flatten changed its argument')
    require(eq(flat, want), lambda: f'flattened: {flat!r}, expected {want!r}')
    require(list(flat) == list(want), lambda: f'order of the entries: {list(flat)}, expected {list(want)}')
    f2 = copy.deepcopy(flat)
    nested = utils.fluff(flat, **kw)
    require(eq(flat, f2), 'fluff changed its argument')
    require(eq(nested, numbered(v)), lambda: f'restored: {nested!r}, expected {numbered(v)!r}')
    back = utils.dlist(copy.deepcopy(nested))
    require(eq(back, v), lambda: f'restored with lists: {back!r}, expected {v!r}')
    for p, x in ref_flat(v, [], []):
        h = utils.hdict(sep.join(p), x, sep)
        for k in p:
            require(isinstance(h, dict) and list(h) == [k], lambda: f'hierarchical key {p}: {h!r}')
            h = h[k]
        require(h is x or h == x, lambda: f'value of {p}: {h!r}')
    ms = case['merge']
    exp = {}
    for d in ms:
        exp.update(d)
    keep = copy.deepcopy(ms)
    require(utils.dmerge(*ms) == exp and ms == keep, lambda: f'merged {ms}: {utils.dmerge(*ms)}')
    cov.label('separator ' + ('.' if sep == '.' else 'other'), 'depth %d' % min(depth(v), 5))
    if depth(v) >= 2:
        cov.hit((v, sep))


PROPS = [Prop('roundtrip', strategy, oracle, 900, 20000, size=220)]
