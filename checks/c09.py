"""C09: converting a schema to JIDL and back preserves it (round trip up to option order, default sizes and white space of descriptions)"""
import copy
import os
import tempfile

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require

import jadn

ID = 'C09'
RULE = ('a case is a generated schema using every notation, with descriptions, items, patterns and titles made of the notation\'s own tokens (quotes, slashes, '
        'brackets, keywords, "::", line breaks), column widths, and optionally a file with a source header. The JIDL text must load to the same schema and be '
        'reproduced from it. Non-trivial: the schema has at least one field or item; distinct by schema.')
ASSUMPTIONS = ['column widths are not negative and no page width truncates the text', 'items are not empty, have no outer white space, line breaks or " //", and do not begin with "//"',
               'labels do not contain "::" followed by white space', 'patterns have no line breaks and no text that ends a pattern and starts a comment ("} //)',
               'descriptions are compared up to white space']

BITS = gen.DESC_WILD_BITS + ['\n', '  ', '= ', '{pattern="', '"}', '[1..*]', ' optional', 'Record', 'title: "x"', '1 a String', '/* x */', '\u2028', '"a" // "b"', '{ ', '\r\n']
ITEMS = ['=x', '= x', 'a = b', '3', 'a:b', 'é', 'a//', 'optional', 'x/', '[0..1]', 'a::b', 'Key(x)', ':', '1 a', '#', '"q"', 'x //y"'.replace(' ', ''), '"} ', '{pattern="x"}',
         'title: 1', 'A = Record', '=', '::x', 'a  b', "it's", '<b>', '&amp;', '&', '\\', '*']
PATS = ['^a" //b$', '^\\{ // \\}$', '// "x" //', '" // "', 'x"} ?y', '^[0-9]{1,3} optional$', ' [0..1]', '^//$', ' //', '{pattern="', '^<b>&amp;$', '"']


def desc(s):
    t = ''.join(s.pick(BITS) for _ in range(s.int(1, 8)))
    return t if t.strip() else ''


def spice(s, sc, clean=lambda x: x):
    for t in sc['types']:
        if len(t) > 3 and s.p(30):
            t[3] = clean(desc(s))
        lab = nt.label_type(nt.full(t))
        for f in t[4] if len(t) > 4 else []:
            if s.p(25):
                f[2 if t[1] == 'Enumerated' else 4] = clean(desc(s))
            if t[1] == 'Enumerated' and s.p(20):
                it = s.pick(ITEMS)
                f[1] = it + str(f[0]) if it.strip() == it or not it else it.strip() + str(f[0])
                if lab and ':: ' in f[1]:
                    f[1] = 'w' + str(f[0])
        for i, fd in enumerate(t[4] if len(t) > 4 and t[1] != 'Enumerated' else []):
            fd[3] = ['%' + s.pick(PATS) if o[0] == '%' and s.p(40) else o for o in fd[3]]
        if t[1] == 'String' and len(t) > 2:
            t[2] = ['%' + s.pick(PATS) if o[0] == '%' and s.p(40) else o for o in t[2]]
    if 'info' in sc:
        for k in ('title', 'description', 'comment', 'copyright', 'license', 'version'):
            if s.p(20):
                sc['info'][k] = clean(desc(s)) or 'x'
    # names that look like keywords of the notation
    if s.p(20):
        ren = {sc['types'][s.n(len(sc['types']))][0]: s.pick(['Nooptional', 'Key', 'Link', 'Enum', 'Pointer', 'TagId', 'Set', 'Unique', 'A1', 'ID', 'Optional', 'X-optional', 'A$b'])}
        sc = rename(sc, ren)
    return sc


def rename(x, ren):
    def opt(o):
        k, v = o[:1], o[1:]
        if k in '*+#>' and k:
            p = v[:1] if v[:1] in '#>' else ''
            if v[len(p):] in ren:
                return k + p + ren[v[len(p):]]
        return o
    x = copy.deepcopy(x)
    for t in x['types']:
        t[0] = ren.get(t[0], t[0])
        if len(t) > 2:
            t[2] = [opt(o) for o in t[2]]
        for f in t[4] if len(t) > 4 and t[1] != 'Enumerated' else []:
            f[2] = ren.get(f[2], f[2])
            f[3] = [opt(o) for o in f[3]]
    for k in ('exports', 'roots'):
        if k in x.get('info', {}):
            x['info'][k] = [ren.get(n, n) for n in x['info'][k]]
    return x


def style(s):
    st = {k: s.pick([0, 1, 4, 12, 35, s.int(0, 60)]) for k in ('info', 'id', 'name', 'type') if s.p(40)}
    if s.p(30):
        st['desc'] = s.pick([0, 1, 20, 60, None])
    return st


def accepted(sc):
    import jsonschema
    try:
        jadn.check(copy.deepcopy(sc))
        return True
    except (ValueError, TypeError, AssertionError, jsonschema.ValidationError):
        return False


def strategy(s):
    return {'schema': spice(s, wide(s)), 'style': style(s) if s.p(50) else None, 'file': s.pick([None, None, None, '', 'a b.jadn', 'http://x/y=z: "1"'])}


def same_schema(got, sc, cov):
    require(got.get('info') == sc.get('info') and set(got) == set(sc), lambda: f'information {sc.get("info")} became {got.get("info")}')
    a, b = [nt.norm_type(t) for t in sc['types']], [nt.norm_type(t) for t in got['types']]
    require(a == b, lambda: f'{nt.diff(a, b)}')


def oracle(case, cov):
    sc, st = case['schema'], case['style']
    if not accepted(sc):
        cov.label('not accepted')
        return
    before, st0 = copy.deepcopy(sc), copy.deepcopy(st)
    txt = jadn.convert.jidl_dumps(sc, st)
    require(sc == before and st == st0, 'jidl_dumps changed its arguments')
    got = jadn.convert.jidl_loads(txt)
    same_schema(got, sc, cov)
    t2 = jadn.convert.jidl_dumps(got, st)
    require(' '.join(t2.split()) == ' '.join(txt.split()), lambda: f'converted again: {t2!r} instead of {txt!r}')
    g3 = jadn.convert.jidl_loads(t2)
    require(g3 == got and jadn.convert.jidl_dumps(g3, st) == t2, lambda: f'not stable: {t2!r}')
    if case['file'] is not None:
        with tempfile.TemporaryDirectory(prefix='verif-c09-') as tmp:
            fn = os.path.join(tmp, 'x.jidl')
            jadn.convert.jidl_dump(sc, fn, case['file'], st)
            with open(fn, encoding='utf8') as f:
                g = jadn.convert.jidl_load(f)
            with open(fn, encoding='utf8') as f:
                g2 = jadn.load_any(f)
            require(g == g2 == got, lambda: f'schema loaded from file differs: {g!r}, from text: {got!r}')
        cov.label('file', *(['header'] if case['file'] else []))
    for t in sc['types']:
        cov.label(t[1] + ('.label' if nt.label_type(nt.full(t)) else ''))
    if any(len(t) > 4 and t[4] for t in sc['types']):
        cov.hit(sc)


PROPS = [Prop('jidl', strategy, oracle, 150, 2600, size=900)]
