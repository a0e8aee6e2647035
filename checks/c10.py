"""C10: converting a schema to HTML and back preserves it; text never becomes markup (round trip, independent HTML reader)"""
import copy
import html.parser
import os
import tempfile

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks.c09 import accepted, rename, same_schema, spice

import jadn

ID = 'C10'
RULE = ('a case is a generated schema using every notation, with descriptions, items, titles and patterns containing markup, character references, comments, script '
        'and the notation\'s own tokens, and optionally a file with a header. The page must load to the same schema; an independent HTML parser must find exactly '
        'the element structure prescribed by the numbers of information items, types and fields, and the texts of names, types and descriptions. Non-trivial: the schema '
        'has a field or item, or text with markup characters; distinct by schema.')
ASSUMPTIONS = ['text contains only characters allowed in HTML (no control characters, no lone surrogates, no carriage returns)', 'labels do not contain "::" followed by white space',
               'patterns have no line breaks', 'items are not empty', 'descriptions are compared up to white space']

BITS = ['</div>', '<div class="jFid">7</div>', '<script>alert(1)</script>', '&lt;', '&amp;amp;', '&#65;', '&', '<!--', '-->', '<', '>', '"', "'", '<b>', 'class="jTname"', ']]>', '<![CDATA[',
        '<br>', '</body>', '<p>', '&nbsp;', '\xa0', '<?php', '<!DOCTYPE html>', '\ufeff', '<title>', '</title>', '<style>', '<textarea>', '<plaintext>', '<a href="x">']


def clean(x):
    return x.replace('\r', '')


def strategy(s):
    sc = spice(s, wide(s), clean)
    for t in sc['types']:
        if len(t) > 3 and s.p(20):
            t[3] = ' '.join(s.pick(BITS) for _ in range(s.int(1, 4)))
        for f in t[4] if len(t) > 4 else []:
            if s.p(20):
                f[2 if t[1] == 'Enumerated' else 4] = ''.join(s.pick(BITS + [' ', 'x']) for _ in range(s.int(1, 4)))
            if t[1] == 'Enumerated' and s.p(10):
                f[1] = s.pick(BITS).strip() + str(f[0])
    for k in ('title', 'description'):
        if 'info' in sc and s.p(20):
            sc['info'][k] = ''.join(s.pick(BITS) for _ in range(s.int(1, 3)))
    return {'schema': sc, 'file': s.pick([None, None, None, '', 'a b.jadn', 'http://x/y?a=1&b'])}


class Reader(html.parser.HTMLParser):
    """elements and the text of each element that has a class the page defines"""
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.tags, self.texts = [], {}, []

    def handle_starttag(self, tag, attrs):
        self.tags[tag] = self.tags.get(tag, 0) + 1
        if tag not in ('meta', 'link'):
            self.stack.append((tag, dict(attrs).get('class', '')))
            self.texts.append([dict(attrs).get('class', ''), ''])
            self.cur = self.texts[-1]

    def handle_endtag(self, tag):
        require(self.stack and self.stack[-1][0] == tag, f'the page closes <{tag}> out of order')
        self.stack.pop()
        self.cur = ['', '']

    def handle_data(self, data):
        if self.stack:
            self.cur[1] += data


def oracle(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    before = copy.deepcopy(sc)
    page = jadn.convert.html_dumps(sc)
    require(sc == before, 'html_dumps changed the schema')
    got = jadn.convert.html_loads(page)
    same_schema(got, sc, cov)
    require(jadn.convert.html_dumps(got) == jadn.convert.html_dumps(jadn.convert.html_loads(jadn.convert.html_dumps(got))), 'not stable')

    # structure and text, with the standard library's parser
    r = Reader()
    r.feed(page)
    r.close()
    require(not r.stack, lambda: f'elements left open: {r.stack}')
    require(set(r.tags) <= {'html', 'head', 'meta', 'title', 'link', 'body', 'h2', 'div'}, lambda: f'text of the schema became markup: {sorted(r.tags)}')
    require(all(r.tags[t] == 1 for t in ('html', 'head', 'body', 'title')), lambda: f'elements: {r.tags}')
    by = {}
    for cls, txt in r.texts:
        for c in cls.split():
            by.setdefault(c, []).append(txt)
    types = [nt.full(t) for t in sc['types']]
    exp = {'jTname': [t[0] for t in types], 'jTstr': [' = ' + nt.typestr(t[1], t[2]) for t in types], 'jTdesc': [nt.norm_desc(t[3]) for t in types],
           'jFid': [str(f[0]) for t in types for f in t[4]]}
    cols = [(nt.fielddef(f, t), t) for t in types for f in t[4]]
    exp['jFname'] = [c[0] for c, t in cols]
    exp['jFdesc'] = [nt.norm_desc(c[3]) for c, t in cols]
    exp['jFstr'] = [c[1] for c, t in cols if t[1] != 'Enumerated']
    exp['jFmult'] = [c[2] for c, t in cols if t[1] != 'Enumerated']
    for k, v in exp.items():
        g = [nt.norm_desc(x) for x in by.get(k, [])] if k.endswith('desc') else by.get(k, [])
        require(g == v, lambda: f'{k}: the page shows {g}, expected {v}')
    if 'info' in sc:
        require(sorted(by.get('jKey', [])) == sorted(k + ':' for k in sc['info']), lambda: f'information shown: {by.get("jKey")}')
    if case['file'] is not None:
        with tempfile.TemporaryDirectory(prefix='verif-c10-') as tmp:
            fn = os.path.join(tmp, 'x.html')
            jadn.convert.html_dump(sc, fn, case['file'])
            g = jadn.convert.html_load(fn)
            with open(fn, encoding='utf8') as f:
                g2 = jadn.load_any(f)
            require(g == g2 == got, lambda: f'schema loaded from file differs: {g!r}, from text: {got!r}')
        cov.label('file', *(['header'] if case['file'] else []))
    for t in types:
        cov.label(t[1] + ('.label' if nt.label_type(t) else ''))
    if any(t[4] for t in types) or '&lt;' in page or '&amp;' in page:
        cov.hit(sc)


PROPS = [Prop('html', strategy, oracle, 120, 2200, size=900)]
