"""C08: writing a schema as JADN text or file and loading it is the identity (round trip, independent JSON reader)"""
import copy
import json
import os
import tempfile
import types

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require

import jadn

ID = 'C08'
RULE = ('a case is a generated schema using every notation, with descriptions, titles, items and patterns containing quotes, backslashes, line breaks, control '
        'characters and non-ASCII text, a layout and optionally a file name and a source header. The text must be JSON for an independent reader, equal the schema, load '
        'to the schema with omitted columns filled in, and be reproduced from the loaded schema. Non-trivial: the schema has a field, item or information '
        'entry; distinct by schema and layout.')
ASSUMPTIONS = ['text is Unicode without lone surrogates']

BITS = ['a', ' ', '"', '\\', '\\"', '\n', '\r\n', '\t', '\x00', '\x1f', '\x7f', '\u2028', '\u0085', 'é', '漢', '😀', '/', '//', "'", '\\n', '\\u0041', '{', '}', '[', ']',
        ',', ':', '"Generated from x"', '???', '<', '&', '\ufeff', 'null', '1']


def text(s):
    return ''.join(s.pick(BITS) for _ in range(s.int(0, 7)))


def spice(s, sc):
    """put unusual text wherever free text is allowed"""
    for t in sc['types']:
        if len(t) > 3 and s.p(35):
            t[3] = text(s)
        for f in t[4] if len(t) > 4 else []:
            if s.p(25):
                f[2 if t[1] == 'Enumerated' else 4] = text(s)
            if t[1] == 'Enumerated' and s.p(15):
                f[1] = text(s) + str(f[0])
        if t[1] == 'String' and len(t) > 2:
            t[2] = ['%' + o[1:] + '|' + text(s) if o[0] == '%' and s.p(25) else o for o in t[2]]
    if 'info' in sc:
        for k in ('title', 'description', 'comment', 'copyright', 'license', 'version'):
            if s.p(15):
                sc['info'][k] = text(s) or 'x'
        if s.p(25) and 'ns1:' not in str(sc['types']):      # a schema may allow any text as prefix
            sc['info'].setdefault('config', {})['$NSID'] = r'^[\s\S]{0,40}$'
            ns = {(text(s) or 'x')[:40]: s.pick(['urn:x', 'http://a.b/c']) for _ in range(s.int(1, 2))}
            sc['info']['namespaces'] = ns if s.p(50) else [list(x) for x in ns.items()]
    return sc


class Reader:
    def __init__(self, text, name=None, url=None):
        self.text = text
        if name:
            self.name = name
        if url:
            self.buffer = types.SimpleNamespace(url=url)

    def read(self):
        return self.text


def strategy(s):
    sc = spice(s, wide(s))
    if s.p(20):
        sc = {k: sc[k] for k in reversed(list(sc))}
    return {'schema': sc, 'strip': bool(s.n(2)), 'file': s.pick([None, None, 'plain', 'header']),
            'source': s.pick(['', 'x.jidl', 'C:\\dir\\f "1".jidl', 'a/b c.jadn', 'é']), 'via': s.n(3)}


def oracle(case, cov):
    sc, strip = case['schema'], case['strip']
    full = {k: ([nt.full(t) for t in v] if k == 'types' else v) for k, v in copy.deepcopy(sc).items()}
    try:
        import jsonschema
        acc = jadn.check(copy.deepcopy(sc))
    except (ValueError, TypeError, AssertionError, jsonschema.ValidationError):
        cov.label('not accepted (pattern or text)')
        return
    before = copy.deepcopy(sc)
    txt = jadn.dumps(sc, strip)
    require(sc == before, 'dumps changed the schema')
    try:
        got = json.loads(txt)
    except ValueError as e:
        require(False, f'the text is not JSON: {e}: {txt[:300]!r}')
    require(got == sc and list(got) == list(sc), lambda: f'the text denotes another schema: {got!r}')
    back = jadn.loads(txt)
    require(back == full == acc, lambda: f'loaded schema differs: {back!r}, expected {full!r}')
    if full == sc:
        again = jadn.dumps(back, strip)
        require(again == txt, lambda: f'written again: {again[:600]!r} instead of {txt[:600]!r}')
    if case['file']:
        with tempfile.TemporaryDirectory(prefix='verif-c08-') as tmp:
            fn = os.path.join(tmp, 'x.jadn')
            src = case['source'] if case['file'] == 'header' else ''
            jadn.dump(sc, fn, src, strip) if case['via'] else jadn.dump(sc, fn, source=src, strip=strip)
            require(sc == before, 'dump changed the schema')
            with open(fn, encoding='utf8') as f:
                back = jadn.load_any(f) if case['via'] == 1 else jadn.load(f)
            with open(fn, encoding='utf8') as f:        # any object that is read like a file
                text = f.read()
            for fp in (Reader(text, name=fn), Reader(text, url=fn), Reader(text, name=fn, url='x.html')):
                require(jadn.load_any(fp) == back, 'load_any gives another schema for another kind of file')
            require(back == full, lambda: f'schema loaded from file differs: {back!r}, expected {full!r}')
            if not src:
                with open(fn, encoding='utf8', newline='') as f:
                    require(f.read() == txt + '\n', 'the file has other text than dumps returns')
            cov.label('file', *(['header'] if src else []))
    cov.label('compact' if strip else 'normal', *(['info'] if 'info' in sc else []))
    if 'info' in sc or any(len(t) > 4 and t[4] for t in sc['types']):
        cov.hit((sc, strip))


PROPS = [Prop('jadn', strategy, oracle, 220, 4000, size=900)]
