"""C19: the Markdown document shows every definition (the output read back by an independent Markdown parser against a reference rendering of the schema)"""
import copy
import json
import os
import re
import tempfile

import markdown_it

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks import c08, c09
from checks.c09 import accepted

import jadn
from jadn.convert import markdown_dump, markdown_dumps

ID = 'C19'
RULE = ('a case is a generated schema using every notation, whose descriptions, items and patterns contain Markdown punctuation (pipes, asterisks, backslashes, links, '
        'entities, HTML, line breaks, "::"), a style and perhaps a file. The document is split by its information lines, headings and tables; every table is read by an independent '
        'CommonMark/GFM parser and by a count of unescaped delimiters; rendered names, types, multiplicities and descriptions must equal a reference computed from the schema, in order. '
        'Non-trivial: some type has fields or items; distinct by schema.')
ASSUMPTIONS = ['descriptions are Markdown text: they appear as written, up to white space and escaping of "|"', 'items are not empty and have no outer white space']

MD = markdown_it.MarkdownIt('commonmark').enable('table')
BITS = ['|', '\\|', '\\\\|', '*', '**', '*a*', '_', '_a_', '`', '`|`', '<b>', '<', '&amp;', '&#42;', '[a](b)', '](', '::', ':: ', '#', '~~', '~', '\n', '\r\n', ' ', '  ', 'a', 'word', 'é', '漢',
        '\\', '\\*', '|---|', '**Type: X**', '-', '$', '"', '1', '{1..*}', '<!--', '-->', '|a|b|', '\t', '!', ';', 'x::y', 'optional']


def text(s):
    return ''.join(s.pick(BITS) for _ in range(s.int(0, 6)))


def spice(s, sc):
    for t in sc['types']:
        if len(t) > 3 and s.p(35):
            t[3] = text(s)
        for f in t[4] if len(t) > 4 else []:
            if s.p(30):
                f[2 if t[1] == 'Enumerated' else 4] = text(s)
            if t[1] == 'Enumerated' and s.p(25):
                x = (text(s) + str(f[0])).strip()
                f[1] = x
            elif t[1] != 'Enumerated' and s.p(40):
                f[3] = ['%' + (text(s) or 'x') if o[0] == '%' else o for o in f[3]]
        if t[1] == 'String' and len(t) > 2 and s.p(60):
            t[2] = ['%' + (text(s) or 'x') if o[0] == '%' else o for o in t[2]]
    return sc


def strategy(s):
    sc = wide(s)
    for how, p in ((spice, 60), (c08.spice, 15), (c09.spice, 15)):
        if s.p(p):
            sc = how(s, sc)
    return {'schema': sc, 'style': s.pick([None, None, {}, {'pad': False}, {'links': False}, {'pad': True, 'links': True}]), 'file': s.pick([None, None, '', 'x y.jadn'])}


def one(x):
    return re.sub(r'\s*[\r\n]\s*', ' ', x).strip().replace('\0', '\ufffd')


def words(x):
    return ' '.join(x.split())


def shown(md):
    """text a reader sees for inline Markdown"""
    return ''.join(c.content if c.type in ('text', 'code_inline', 'html_inline', 'text_special') else ' ' if c.type in ('softbreak', 'hardbreak') else '' for c in MD.parseInline(md)[0].children)


def desc_shown(d):
    return words(re.sub(r'(?<!\\)((?:\\\\)*)\\\|', r'\1|', one(d)))


def ncols(line):
    """number of cells of a table line by its unescaped delimiters"""
    line = line.strip()
    require(line.startswith('|') and re.search(r'(?<!\\)(\\\\)*\|$', line), lambda: f'table row {line!r} is not delimited')
    return sum(1 for m in re.finditer(r'\\.|(\|)', line) if m.group(1)) - 1


def table(lines, what):
    n = {ncols(x) for x in lines}
    require(len(n) == 1, lambda: f'{what}: rows with {sorted(n)} columns: {lines}')
    toks = MD.parse('\n'.join(lines) + '\n')
    kinds = [t.type for t in toks if t.level == 0]
    require(kinds == ['table_open', 'table_close'], lambda: f'{what}: not a table: {lines}')
    rows, row = [], None
    for t in toks:
        if t.type == 'tr_open':
            row = []
            rows.append(row)
        elif t.type == 'inline':
            row.append(t.content)
    require(len(rows) == len(lines) - 1 and all(len(r) == next(iter(n)) for r in rows), lambda: f'{what}: {len(lines)} lines are read as {rows}')
    return [shown(h) for h in rows[0]], rows[1:]


def row_of(f, t):
    """columns shown for a field or item"""
    name, typ, mult, d = nt.fielddef(f, t)
    item = t[1] == 'Enumerated'
    cols = {'ID': str(f[0])}
    if nt.label_type(t):
        cols['label'] = d[:d.index(':: ')] if not item else f[1]
    else:
        cols['Item' if item else 'Name'] = name
    if not item:
        cols['Type'] = typ
        cols['#'] = mult
    cols['Description'] = f[2] if item else f[4]
    return cols


def cell(got, want, what):
    require(shown(got).strip() == one(want), lambda: f'{what}: {got!r} shows {shown(got)!r}, expected {want!r}')


def dcell(got, want, what):
    require(words(got).replace('\0', '\ufffd') == desc_shown(want), lambda: f'{what}: description {got!r}, expected {want!r}')


def oracle(case, cov):
    sc = case['schema']
    for t in sc['types']:
        if t[1] == 'Enumerated' and any(not f[1].strip() or f[1] != f[1].strip() for f in nt.full(t)[4]):
            cov.label('item with outer white space')
            return
    if not accepted(sc):
        cov.label('not accepted')
        return
    before, style = copy.deepcopy(sc), copy.deepcopy(case['style'])
    doc = markdown_dumps(sc, style) if style is not None else markdown_dumps(sc)
    require(sc == before and style == case['style'], 'markdown_dumps changed its arguments')
    lines = re.split(r'\r\n|\n|\r', doc)
    at = 0
    info = sc.get('info', {})
    got = {}
    while at < len(lines) and len(got) < len(info):
        m = re.match(r'^\s*([-\w]+): (.*)$', lines[at])
        require(m, lambda: f'information line {lines[at]!r}')
        require(m.group(1) not in got, lambda: f'information item {m.group(1)} twice')
        try:
            got[m.group(1)] = json.loads(m.group(2))
        except ValueError:
            require(False, f'information line {lines[at]!r}')
        at += 1
    require(got == info, lambda: f'information {got}, expected {info}')

    def skip():
        nonlocal at
        while at < len(lines) and not lines[at].strip():
            at += 1

    for t in map(nt.full, sc['types']):
        skip()
        ts = nt.typestr(t[1], t[2])
        if t[4]:
            if words(one(t[3])):
                require(at < len(lines) and desc_shown(lines[at].strip()) == desc_shown(t[3]), lambda: f'{t[0]}: description {lines[at]!r}, expected {t[3]!r}')
                at += 1
                require(not lines[at].strip(), 'the description of a type is a paragraph')
                skip()
            head = lines[at]
            cell(head, f'Type: {t[0]} ({ts})', 'heading')
            at += 1
            require(not lines[at].strip(), 'a heading is a paragraph')
            skip()
        start = at
        while at < len(lines) and lines[at].strip():
            at += 1
        require(at > start, lambda: f'no table for {t[0]}')
        cols, rows = table(lines[start:at], t[0])
        if not t[4]:
            require(len(rows) == 1 and len(cols) == 3, lambda: f'{t[0]}: {rows}')
            cell(rows[0][0], t[0], 'name')
            cell(rows[0][1], ts, f'{t[0]}: type')
            dcell(rows[0][2], t[3], t[0])
        else:
            require(len(rows) == len(t[4]), lambda: f'{t[0]}: {len(rows)} rows, {len(t[4])} fields')
            for r, f in zip(rows, t[4]):
                want = row_of(f, t)
                label = want.pop('label', None)
                require(cols == list(want), lambda: f'{t[0]}: columns {cols}, expected {list(want)}')
                for c, g in zip(cols, r):
                    what = f'{t[0]}.{f[1]}: {c}'
                    if c != 'Description':
                        cell(g, want[c], what)
                    elif label is None:
                        dcell(g, want[c], what)
                    else:
                        d = desc_shown(want[c])
                        g = words(g).replace('\0', '\ufffd')
                        require(g.endswith(d), lambda: f'{what}: {g!r} does not end with the description {d!r}')
                        p = words(shown(g[:len(g) - len(d)].rstrip()))
                        lb = words(one(label))
                        require(p.startswith(lb) and not p[len(lb):].strip(' -:'), lambda: f'{what}: {g!r} shows label {p!r}, expected {lb!r}')
                        cov.label('label')
        skip()
        if at < len(lines) and re.match(r'^\*{3,}$', lines[at]):
            at += 1
    skip()
    require(at == len(lines), lambda: f'more than the definitions: {lines[at:at + 5]}')
    if all(re.match(r'^[A-Za-z0-9 ,.]*$', nt.full(t)[3]) for t in sc['types']):
        n = sum(x.type == 'table_open' for x in MD.parse(doc))
        require(n == len(sc['types']), lambda: f'a Markdown reader sees {n} tables, the schema has {len(sc["types"])} types')
        cov.label('whole document')
    if case['file'] is not None:
        with tempfile.TemporaryDirectory(prefix='verif-c19-') as tmp:
            fn = os.path.join(tmp, 'x.md')
            markdown_dump(sc, fn, case['file'], style)
            with open(fn, encoding='utf8', newline='') as f:
                x = f.read()
            require(x.endswith(doc), 'the file has other text than the document')
            h = x[:len(x) - len(doc)]
            require(bool(h) == bool(case['file']) and (not h or case['file'] in h and h.startswith('<!--') and h.rstrip().endswith('-->')), lambda: f'file header {h!r}')
        cov.label('file')
    for t in sc['types']:
        cov.label(t[1] + ('.label' if nt.label_type(nt.full(t)) else ''))
    if any(len(t) > 4 and t[4] for t in sc['types']):
        cov.hit(sc)


PROPS = [Prop('markdown', strategy, oracle, 160, 2800, size=900)]
