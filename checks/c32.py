"""C32: all formats of a schema are interchangeable (histories of writing and reading in any format; the artifacts of a directory)"""
import contextlib
import copy
import importlib.util
import io
import json
import os
import sys
import tempfile
import types

from vlib import env, gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, Skip, require
from checks.c09 import accepted, same_schema, spice, style
from checks.c10 import clean
from checks.c12 import EXT
from checks.c16 import variant
from checks.c24 import links_ok, strings, use

import jadn

ID = 'C32'
RULE = ('chain: a case is a generated schema with unusual text and a sequence of 2-7 steps, each writing it in JADN, JIDL or HTML - as text or file, any layout, with or without a header that names the source - and reading '
        'it by the reader of the format or by load_any, or making it canonical. The final schema must be the first one up to the order and spelling of options and white space of descriptions. tools: a generated schema and a '
        'variant with options in another order and default sizes and multiplicity added or omitted, one of them read from another format: JIDL, HTML, Markdown, diagrams, dependencies, unfolding and JSON Schema must give the '
        'same result for both. artifacts: a directory of 1-3 generated schema files in different formats is translated by make-artifacts.py: for each file there must be exactly the documented '
        'artifacts, each stating the schema of that file. Non-trivial: at least two formats are used and the schema has a field or item (chain, tools), or a schema has a field or item (artifacts); distinct by schema and steps.')
ASSUMPTIONS = ['text as in C09 and C10', 'tools and artifacts: a field of a plain built-in type is not given {0 as its only option (that makes it a defined type)', 'tools: descriptions without line breaks', 'make-artifacts.py is called by its function, not by its command line']

READ = {'.jadn': lambda f: jadn.load(f), '.jidl': lambda f: jadn.convert.jidl_load(f), '.html': lambda f: jadn.load_any(f)}
SOURCES = ['', 'a b.jadn', 'http://x/y?a=1&b', 'x.jidl', 'dir/Ü 1.html', 'C:\\x\\n.jadn', 'x > y.jadn']


def usable(sc):
    return accepted(sc) and links_ok(sc) and not any(ord(c) < 32 and c not in '\n\t' or c in '\ufffe\uffff\x7f' or 0xd800 <= ord(c) < 0xe000 for c in ''.join(strings(sc)))


def steps(s, lo, hi):
    out = []
    for _ in range(s.int(lo, hi)):
        k = s.pick(['jadn', 'jidl', 'html', 'jadn', 'jidl', 'html', 'canonical', 'file', 'file', 'file'])
        a = [bool(s.n(2))] if k == 'jadn' else [style(s) if s.p(50) else None] if k == 'jidl' else []
        if k == 'file':
            ext = s.pick(sorted(READ))
            a = [ext, s.pick(SOURCES), s.n(2), bool(s.n(2)) if ext == '.jadn' else (style(s) if s.p(30) else None) if ext == '.jidl' else None]
        out.append([k, *a])
    return out


def write(sc, fn, ext, source, opt):
    if ext == '.jadn':
        jadn.dump(sc, fn, source, opt)
    elif ext == '.jidl':
        jadn.convert.jidl_dump(sc, fn, source, opt)
    else:
        jadn.convert.html_dump(sc, fn, source)


def step(sc, st):
    k = st[0]
    if k == 'jadn':
        return jadn.loads(jadn.dumps(sc, st[1]))
    if k == 'jidl':
        return jadn.convert.jidl_loads(jadn.convert.jidl_dumps(sc, st[1]))
    if k == 'html':
        return jadn.convert.html_loads(jadn.convert.html_dumps(sc))
    if k == 'canonical':
        return jadn.canonicalize(sc)
    _, ext, source, via, opt = st
    with tempfile.TemporaryDirectory(prefix='verif-c32-') as d:
        fn = os.path.join(d, 'x' + ext)
        write(sc, fn, ext, source, opt)
        with open(fn, encoding='utf8') as f:
            return jadn.load_any(f) if via else READ[ext](f)


def has_fields(sc):
    return any(nt.full(t)[4] for t in sc['types'])


def format_of(st):
    return st[1][1:] if st[0] == 'file' else st[0]


def strategy_chain(s):
    return {'schema': spice(s, wide(s), clean), 'steps': steps(s, 2, 7)}


def oracle_chain(case, cov):
    sc = case['schema']
    if not usable(sc):
        cov.label('not accepted')
        return
    cur = sc
    for st in case['steps']:
        before = copy.deepcopy(cur)
        nxt = step(cur, st)
        require(cur == before, lambda: f'{st} changed the schema')
        cur = nxt
        cov.label(' '.join(map(str, st[:2] if st[0] == 'file' else st[:1])))
    same_schema(cur, sc, cov)
    c1, c2 = jadn.canonicalize(cur), jadn.canonicalize(sc)
    for t in c1['types'] + c2['types']:
        t[3] = nt.norm_desc(t[3])
        for f in t[4]:
            i = 2 if t[1] == 'Enumerated' else 4
            f[i] = nt.norm_desc(f[i])
    require(c1 == c2, lambda: nt.diff(c1['types'], c2['types']))
    if len({format_of(st) for st in case['steps']}) > 1 and has_fields(sc):
        cov.hit((sc, case['steps']))


def strategy_tools(s):
    sc = variant(s, wide(s, desc=True) if s.p(70) else gen.schema(s, config=True, info='some'), False)
    return {'schema': sc, 'variant': variant(s, sc, False), 'via': steps(s, 1, 2), 'tools': [[t, [s.n(256) for _ in range(4)]] for t in s.some(TOOLS, 50) or [s.pick(TOOLS)]]}


TOOLS = ['unfold', 'strip', 'deps', 'jidl', 'html', 'markdown', 'diagram', 'jsonschema']


def oracle_tools(case, cov):
    sc, va = case['schema'], case['variant']
    if not usable(sc) or not usable(va):
        cov.label('not accepted')
        return
    if any(len(' '.join(x.split())) != len(x) for x in descs(sc)):
        cov.label('white space in descriptions')
        return
    a = {**sc, 'types': [nt.full(t) for t in sc['types']]}
    b = va
    for st in case['via']:
        b = step(b, st)
    for tool, r in case['tools']:
        with contextlib.redirect_stdout(io.StringIO()):
            x, y = (norm(tool, use(tool, r, copy.deepcopy(z))) for z in (a, b))
        require(x == y, lambda: f'{tool} {r}: {first(x, y)}')
        cov.label(tool)
    if has_fields(sc) and {format_of(st) for st in case['via']} - {'jadn'}:
        cov.hit((sc, case))


def first(x, y):
    if isinstance(x, str) and isinstance(y, str):
        for p, q in zip(x.splitlines() + [''], y.splitlines() + ['']):
            if p != q:
                return f'{p!r} and {q!r}'
    if isinstance(x, list) and x and isinstance(x[0], tuple):
        return nt.diff(x, y)
    return f'{x!r} and {y!r}'


def norm(tool, res):
    if tool in ('unfold', 'strip'):
        return [nt.norm_type(t) for t in res['types']]
    if tool == 'jsonschema':
        return order_free(json.loads(res))
    if tool == 'deps':
        d, an, _ = res
        return {k: sorted(v) for k, v in d.items()}, an
    if tool == 'diagram':       # information comes first, in the order it is written
        lines = res.splitlines()
        n = next((i for i, x in enumerate(lines) if not x.startswith(('#', "'"))), len(lines))
        return '\n'.join(sorted(lines[:n]) + lines[n:])
    return res


def order_free(x):
    """JSON Schema up to the order of members, and to limits that mean nothing"""
    if isinstance(x, dict):
        return {k: order_free(v) for k, v in x.items() if not (k in ('minLength', 'minItems', 'minProperties') and v == 0)}
    return [order_free(v) for v in x] if isinstance(x, list) else x


def descs(sc):
    for t in map(nt.full, sc['types']):
        yield t[3]
        for f in t[4]:
            yield f[2 if t[1] == 'Enumerated' else 4]


def strategy_artifacts(s):
    files = []
    for i in range(s.int(1, 3)):
        sc = wide(s, n_types=(1, 6)) if s.p(60) else spice(s, wide(s, n_types=(1, 5)), clean)
        sc = variant(s, sc, False)
        sc.setdefault('info', {'package': f'http://x.y/{i}'})
        files.append([s.pick(['a', 'B', 'x-y', 'a.b', 'v1.0-c', 'ü', 'a b']) + str(i), s.pick(sorted(READ)), s.pick(SOURCES) if s.p(30) else '', sc])
    return {'files': files, 'extra': s.p(30)}


def script():
    """the functions of make-artifacts.py"""
    spec = importlib.util.spec_from_file_location('make_artifacts', os.path.join(env.REPO, 'distribution', 'make-artifacts.py'))
    m = importlib.util.module_from_spec(spec)
    with contextlib.suppress(ImportError):
        import fire     # noqa: F401
    had = sys.modules.get('fire')
    if had is None:
        sys.modules['fire'] = types.ModuleType('fire')      # only used by its command line
    try:
        spec.loader.exec_module(m)
    finally:
        if had is None:
            del sys.modules['fire']
    return m


ARTIFACTS = ['.jadn', '-core.jadn', '_ia.dot', '_i.puml', '.jidl', '.html', '.md', '.json']


def oracle_artifacts(case, cov):
    files = [f for f in case['files'] if usable(f[3])]
    if not files:
        cov.label('not accepted')
        return
    with tempfile.TemporaryDirectory(prefix='verif-c32-') as d, contextlib.redirect_stdout(io.StringIO()):
        src, out = os.path.join(d, 'in'), os.path.join(d, 'out', 'sub')
        os.mkdir(src)
        if case['extra']:
            os.mkdir(os.path.join(src, 'folder.jadn'))
        for stem, ext, source, sc in files:
            write(sc, os.path.join(src, stem + ext), ext, source, None)
        script().main(src, out)
        got = set(os.listdir(out))
        exp = {stem + a for stem, _, _, _ in files for a in ARTIFACTS} | {'css'}
        require(got == exp, lambda: f'artifacts: missing {sorted(exp - got)}, unexpected {sorted(got - exp)}')
        require(os.listdir(os.path.join(out, 'css')) == ['dtheme.css'], 'the style sheet is missing')
        for stem, ext, source, sc in files:
            def read(a):
                with open(os.path.join(out, stem + a), encoding='utf8') as f:
                    return f.read()
            for a in ('.jadn', '.jidl', '.html'):
                with open(os.path.join(out, stem + a), encoding='utf8') as f:
                    back = jadn.load_any(f)
                same_schema(back, sc, cov)
            core = json.loads(read('-core.jadn'))     # items used as names of generated fields may not be valid names
            require(core['info'] == sc['info'], 'information of the core schema')
            require(not any(descs(core)), 'the core schema has descriptions')
            names = [t[0] for t in sc['types']]
            require([t[0] for t in core['types']][:len(names)] == names, lambda: f'types of the core schema: {core["types"]}')
            require([nt.norm_type(t) for t in jadn.transform.unfold_extensions(core)['types']] == [nt.norm_type(t) for t in core['types']], lambda: f'the core schema has extensions: {core["types"]}')
            require([nt.norm_type(t, False) for t in jadn.transform.unfold_extensions(sc)['types']] == [nt.norm_type(t, False) for t in core['types']], lambda: f'core schema {core["types"]}')
            js = json.loads(read('.json'))
            require(set(names) <= set(js.get('definitions', {})), lambda: f'definitions of the JSON Schema: {sorted(js.get("definitions", {}))}')
            for a in ('.md', '_ia.dot', '_i.puml'):
                txt = read(a)
                for n in names if a == '.md' else [t[0] for t in sc['types'] if t[1] in ('Array', 'Map', 'Record', 'Choice')]:
                    require(n in txt, lambda: f'{a} does not show {n}')
            require(read('_ia.dot').count('digraph') >= 1 and '@startuml' in read('_i.puml'), 'diagram format')
            cov.label(f'from {ext}')
            if has_fields(sc):
                cov.hit((sc, ext))


PROPS = [Prop('chain', strategy_chain, oracle_chain, 90, 1500, size=1000), Prop('tools', strategy_tools, oracle_tools, 120, 2200, size=1100),
         Prop('artifacts', strategy_artifacts, oracle_artifacts, 40, 700, size=1600)]
