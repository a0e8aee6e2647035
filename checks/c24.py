"""C24: every accepted schema can be used by every tool without side effects (robustness over generated schemas and options; comparison of the argument before and after)"""
import contextlib
import copy
import io
import os
import tempfile

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks import c08, c09, c19
from checks.c09 import accepted, rename
from checks.c12 import EXT
from checks.c15 import refs_of

import jadn

ID = 'C24'
RULE = ('a case is a schema the checker accepts - every notation, unusual text, missing or other-package definitions, recursive types, names with "$", text outside of ASCII, perhaps no information, perhaps '
        'taken from JADN or JIDL text - and a sequence of tools with random options (codec in any mode, unfold with any extensions, strip, canonicalize, dependency analysis and ordering, JADN, JIDL, HTML, Markdown, '
        'diagrams, JSON Schema, files). No tool may raise an exception or change the schema, and a tool used again later must give the same result. Non-trivial: some type has fields, elements or a reference; distinct by schema.')
ASSUMPTIONS = ['a link refers to a defined type with a primary key, or to another package', 'a pointer or derived enumeration refers to a type with fields, or to another package', 'text has no control characters or lone surrogates (HTML)', 'only the documented functions of the top-level, convert, transform, translate and codec packages']


def links_ok(sc):
    """links, pointers and derived enumerations have a usable target"""
    defs = {t[0]: nt.full(t) for t in sc['types']}
    for t in map(nt.full, sc['types']):
        for f in t[4] if t[1] in gen.COMPOUND else []:
            fo = nt.od(f[3])
            if 'L' in fo and ':' not in f[2] and not (f[2] in defs and defs[f[2]][1] in gen.COMPOUND and any('K' in nt.od(g[3]) for g in defs[f[2]][4])):
                return False
        ops = list(t[2]) + [o for f in (t[4] if t[1] in gen.COMPOUND else []) for o in f[3]]
        for o in ops:
            for n in ([o[1:]] if o[0] in '#>' else [o[2:]] if o[0] in '*+' and o[1:2] in ('#', '>') else []):
                if ':' not in n and n not in defs:
                    return False
    return True


def strategy(s):
    sc = wide(s, n_types=(1, 8))
    for how, p in ((c09.spice, 25), (c19.spice, 15), (c08.spice, 15)):
        if s.p(p):
            sc = how(s, sc)
            break
    if s.p(20) and len(sc['types']) > 1:
        del sc['types'][s.n(len(sc['types']))]
    if s.p(20):
        t = s.pick(sc['types'])[0]
        sc = rename(sc, {t: s.pick(['Foo$x', 'A$', 'Foo$Bar$a', t + '$Enum'])})
    if s.p(15):
        sc.pop('info', None)
    elif s.p(30):
        sc.setdefault('info', {'package': 'http://x/y'})[s.pick(['roots', 'exports'])] = s.some([t[0] for t in sc['types']], 50) or [sc['types'][0][0]]
    ops = [[s.pick(TOOLS), [s.n(256) for _ in range(4)]] for _ in range(s.int(2, 6))]
    return {'schema': sc, 'ops': ops}


TOOLS = ['codec', 'unfold', 'strip', 'canonicalize', 'deps', 'dumps', 'jidl', 'html', 'markdown', 'diagram', 'jsonschema', 'files']


def use(tool, r, sc):
    """run a tool; returns something comparable"""
    if tool == 'codec':
        c = jadn.codec.Codec(sc, bool(r[0] & 1), bool(r[0] & 2))
        return sorted(c.symtab)
    if tool == 'unfold':
        return jadn.transform.unfold_extensions(sc, {e for i, e in enumerate(sorted(EXT)) if r[0] >> i & 1}) if r[1] & 1 else jadn.transform.unfold_extensions(sc)
    if tool == 'strip':
        return jadn.transform.strip_comments(sc, r[0] % 40) if r[1] & 1 else jadn.transform.strip_comments(sc)
    if tool == 'canonicalize':
        return jadn.canonicalize(sc)
    if tool == 'deps':
        d = jadn.build_deps(sc)
        a = jadn.analyze(sc)
        return d, a, jadn.topo_sort(d, a['unreferenced'])
    if tool == 'dumps':
        return jadn.dumps(sc, bool(r[0] & 1))
    if tool == 'jidl':
        return jadn.convert.jidl_dumps(sc, {'desc': 40} if r[0] & 1 else None)
    if tool == 'html':
        return jadn.convert.html_dumps(sc)
    if tool == 'markdown':
        return jadn.convert.markdown_dumps(sc)
    if tool == 'diagram':
        return jadn.convert.diagram_dumps(sc, {'format': ['plantuml', 'graphviz'][r[0] & 1], 'detail': ['conceptual', 'logical', 'information'][r[1] % 3], 'attributes': bool(r[2] & 1),
                                               'edge_label': bool(r[2] & 2), 'edge_mult': bool(r[2] & 4), 'links': bool(r[2] & 8)})
    if tool == 'jsonschema':
        return jadn.translate.json_schema_dumps(sc, bool(r[0] & 1), ['enum', 'const', 'regex'][r[1] % 3], ['any', 'ref'][r[2] & 1])
    with tempfile.TemporaryDirectory(prefix='verif-c24-') as d:
        fn = os.path.join(d, 'x')
        src = '' if r[1] & 1 else 'x.jadn'
        [jadn.dump, jadn.convert.jidl_dump, jadn.convert.html_dump, jadn.convert.markdown_dump, jadn.convert.diagram_dump, jadn.translate.json_schema_dump][r[0] % 6](sc, fn, src)
        with open(fn, encoding='utf8') as f:
            return len(f.read()) > 0


def oracle(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    if not links_ok(sc):
        cov.label('link or derived enumeration without target')
        return
    defs = {t[0] for t in sc['types']}
    dangling = any(refs_of(nt.full(t)) - defs for t in sc['types'])
    if any(ord(c) < 32 and c not in '\n\r\t' or c in '\ufffe\uffff\x7f' for c in ''.join(strings(sc))):
        cov.label('control characters')
        return
    before = copy.deepcopy(sc)
    done = {}
    for tool, r in case['ops'] + case['ops'][:1]:
        with contextlib.redirect_stdout(io.StringIO()):
            res = use(tool, r, sc)
        require(sc == before, lambda: f'{tool} changed the schema: {sc}')
        k = (tool, tuple(r))
        if k in done:
            require(done[k] == res, lambda: f'{tool} gives another result after other tools were used')
        done[k] = copy.deepcopy(res)
        cov.label(tool)
    if dangling:
        cov.label('undefined or imported type')
    if any(nt.full(t)[4] or refs_of(nt.full(t)) for t in sc['types']):
        cov.hit((sc, case['ops']))


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from strings(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings(v)


PROPS = [Prop('tools', strategy, oracle, 300, 5000, size=900)]
