"""C14: stripping or truncating comments touches nothing but descriptions (reference implementation, codec differential)"""
import copy

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks.c08 import spice
from checks.c09 import accepted

import jadn
from jadn.transform import strip_comments

ID = 'C14'
RULE = ('a case is a generated schema using every notation (short definitions included) with descriptions of any length and characters, and a width. The result must equal the schema with '
        'each type, field and item description replaced as prescribed: removed, kept, or cut to a prefix plus "..", the original must be unchanged and share nothing mutable with the result, '
        'stripping again must change nothing, and the result must be accepted. Non-trivial: some description is longer than the width; distinct by schema and width.')
ASSUMPTIONS = ['at width 1 only the length is prescribed']


def strategy(s):
    sc = spice(s, wide(s))
    for t in sc['types']:
        if len(t) > 3 and s.p(40):
            t[3] = 'lorem ipsum "dolor" é漢 sit amet'[:s.int(0, 30)]
    lens = sorted({len(d) for t in sc['types'] for d in descs(t)})
    w = s.pick([0, 0, 2, 3, 1, 5, 10, s.int(0, 40), 1000])
    if lens and s.p(50):
        w = max(0, s.pick(lens) + s.pick([0, -1, 1, -2, 2]))
    return {'schema': sc, 'width': w, 'default': s.p(20)}


def descs(t):
    if len(t) > 3:
        yield t[3]
    for f in t[4] if len(t) > 4 else []:
        yield f[2 if t[1] == 'Enumerated' else 4]


def cut(d, w):
    if w == 0:
        return ''
    return d if len(d) <= w else d[:w - 2] + '..' if w >= 2 else None


def oracle(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    w = 0 if case['default'] else case['width']
    before = copy.deepcopy(sc)
    out = strip_comments(sc) if case['default'] else strip_comments(sc, w)
    require(sc == before, 'the original schema was modified')
    exp = copy.deepcopy(sc)
    for t, o in zip(exp['types'], out['types']):
        it = t[1] == 'Enumerated'
        for row, orow, k in [(t, o, 3)] * (len(t) > 3) + [(f, g, 2 if it else 4) for f, g in zip(t[4] if len(t) > 4 else [], o[4] if len(o) > 4 else [])]:
            d = cut(row[k], w)
            if d is None:
                require(isinstance(orow[k], str) and len(orow[k]) <= 1, lambda: f'width 1: {row[k]!r} became {orow[k]!r}')
                d = orow[k]
            row[k] = d
    require(out == exp and list(out) == list(exp), lambda: f'width {w}: {out!r}, expected {exp!r}')
    require(strip_comments(out, w) == out, 'stripping again changes the result')
    got = jadn.check(copy.deepcopy(out))
    require([t[:3] for t in got['types']] == [nt.full(t)[:3] for t in sc['types']], 'types or options changed')
    # nothing mutable is shared: changing the result does not reach the original
    for t in out['types']:
        if len(t) > 2:
            t[2].append('x')
        for f in t[4] if len(t) > 4 else []:
            f[-1] = 'changed'
            if len(f) == 5:
                f[3].append('x')
    out.get('info', {}).clear()
    require(sc == before, 'the result shares structure with the original schema')
    cov.label('width 0' if w == 0 else 'width 1' if w == 1 else 'width 2+')
    if any(len(d) > w for t in sc['types'] for d in descs(t)):
        cov.hit((sc, w))


PROPS = [Prop('strip', strategy, oracle, 450, 7000, size=900)]
