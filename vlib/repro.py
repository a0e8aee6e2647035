"""
All outputs for a schema, as text that also shows the order of dictionaries.  Run as a program it is a worker: one JSON
case per line in, one JSON object of outputs per line out.
"""
import contextlib
import copy
import io
import json
import os
import sys
import tempfile

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import env  # noqa: E402,F401
import jadn  # noqa: E402

EXT = ('AnonymousType', 'Multiplicity', 'DerivedEnum', 'MapOfEnum', 'Link')


def _resolve(pkgs):
    with tempfile.TemporaryDirectory(prefix='verif-c23-') as d, contextlib.redirect_stdout(io.StringIO()):
        for k, p in enumerate(pkgs[1:]):
            with open(os.path.join(d, f'p{k}.jadn'), 'w') as f:
                json.dump(p, f)
        return jadn.transform.resolve_imports(copy.deepcopy(pkgs[0]), d)


def _file(fn, sc, *args):
    with tempfile.TemporaryDirectory(prefix='verif-c23-') as d:
        fn(sc, os.path.join(d, 'x'), *args)
        with open(os.path.join(d, 'x'), 'rb') as f:
            return f.read().decode('utf8')


def _message(sc, tn, v, mode):
    c = jadn.codec.Codec(copy.deepcopy(sc), *mode)
    w = c.encode(tn, v)
    return [w, repr(c.decode(tn, w))]


def functions(case):
    sc = case['schema']
    cv, tr = jadn.convert, jadn.transform
    yield 'dumps', lambda: jadn.dumps(sc)
    yield 'dump', lambda: _file(jadn.dump, sc)
    yield 'jidl', lambda: cv.jidl_dumps(sc)
    yield 'jidl file', lambda: _file(cv.jidl_dump, sc)
    yield 'html', lambda: cv.html_dumps(sc)
    yield 'markdown', lambda: cv.markdown_dumps(sc)
    yield 'markdown file', lambda: _file(cv.markdown_dump, sc)
    for f in ('plantuml', 'graphviz'):
        yield f, lambda: cv.diagram_dumps(sc, {'format': f, 'detail': 'information', 'attributes': True})
    for st in ('enum', 'const', 'regex'):
        yield f'json schema {st}', lambda: jadn.translate.json_schema_dumps(sc, verbose=st != 'const', enum_style=st, import_style='any' if st == 'enum' else 'ref')
    yield 'canonicalize', lambda: jadn.canonicalize(sc)
    yield 'unfold', lambda: tr.unfold_extensions(sc)
    for x in sorted(EXT):
        yield f'unfold {x}', lambda: tr.unfold_extensions(sc, {x})
    yield 'strip', lambda: tr.strip_comments(sc, 12)
    yield 'deps', lambda: jadn.build_deps(sc)
    yield 'sort', lambda: jadn.topo_sort(jadn.build_deps(sc), sorted(jadn.analyze(sc)['unreferenced']))
    yield 'analyze', lambda: jadn.analyze(sc)
    yield 'reload', lambda: jadn.convert.jidl_loads(cv.jidl_dumps(sc))
    if case.get('packages'):
        yield 'resolve', lambda: _resolve(case['packages'])
    for k, (tn, v) in enumerate(case.get('values', ())):
        for mode in ((False, False), (True, True)):
            yield f'message {k} {mode}', lambda: _message(sc, tn, v, mode)


def outputs(case):
    out = {}
    for name, fn in functions(copy.deepcopy(case)):
        try:
            r = fn()
            out[name] = r if isinstance(r, str) else json.dumps(r, default=repr)
        except Exception as e:      # the kind of failure is part of the output
            out[name] = f'!{type(e).__name__}'
    return out


def main():
    for line in sys.stdin:
        print(json.dumps(outputs(json.loads(line))), flush=True)


if __name__ == '__main__':
    main()
