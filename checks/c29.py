"""C29: text that is read is read completely: a JIDL document or type string is rejected unless it says what its reader understood (edited documents, read-back comparison)"""
import copy
import html
import html.parser
import json
import re

import jadn
import jsonschema

from vlib import gen
from vlib.cases import REJECT, wide
from vlib.runner import Prop, require
from checks.c09 import accepted, style
from checks.c11 import any_opts

ID = 'C29'
RULE = ('layout: the JIDL document of a generated schema with blank and comment lines, other indentation and spacing, line ends and optional braces put in; it must '
        'load to the schema of the plain document. document: the same document with one to three edits (tokens, characters, lines: deleted, repeated, exchanged, replaced, inserted, '
        'joined, split); it must be rejected, or the JIDL of the loaded schema must have the same information, and line by line the same definitions, fields and items with the same tokens. '
        'typestring: the same for edited type strings. html: the same for HTML documents, compared cell by cell; style: HTML documents with comments, wrapped cells, other elements and markup '
        'inside cells must load to the same schema. Non-trivial: the edit changed more than white space; distinct by text.')
ASSUMPTIONS = ['rejection is a ValueError, TypeError, jsonschema ValidationError or AssertionError',
               'the order of ranges, formats and keywords after a type, repeated keywords, spelling of numbers and default limits mean the same',
               'descriptions have no line breaks and patterns no " //", so that descriptions are the text after the first " //"']
REJ = REJECT + (jsonschema.ValidationError, AssertionError)
KW = ('unique', 'set', 'unordered', 'sequence', 'extend')
VOCAB = ['=', '{', '}', '(', ')', '[', ']', '//', ' // ', '::', ':', ',', '.', '..', '*', '/', '"', '0', '1', '2', '-1', '7', '1.5', '{1..2}', '{0..*}', '{*..3}', '{3..1}', '{x}', '[0..1]', '[1..*]',
         '[2]', '[1]', '[0]', '[0..0]', '[*]', '[N]', ' optional', ' unique', ' set', ' unordered', ' sequence', ' extend', ' uniq', ' sets', ' /date', ' /foo-bar', '/x', '.ID', '.id', '.IDs',
         'Record', 'String', 'Integer', 'Enumerated', 'ArrayOf', '(String)', '(String, Integer)', '(anyOf)', '(Foo)', '(Enum[Foo])', '(TagId[1])', 'Key(', 'Link(', 'Enum[', 'x', 'é', '#', '{pattern="a"}',
         ' ', '  ', '/* x */', '\t', '$', ';', '|', '\\']
LINES = ['', '   ', '// note', '  // title: "x"', '}', '{', 'foo', 'foo bar', '1', '1 a', '1 a String', '99 zz String [0..1]', 'T = Record', 'T = ', '= Record', 'Foo=String', 'title: "x"', 'title:', 'title: x', 'package: 3',
         '---', '/* x */', 'x String', '-1 a String', '1.5 a String', 'one a String', '1: a String', '1, a, String', '  97 q']


# ---------------------------------------------------------------- what a line says
def limits(r):
    out = []
    for x in r[1:-1].split('..', 1):
        try:
            out.append(repr(float(x) + 0.0))
        except ValueError:
            out.append(x.strip())
    return '{%s}' % '..'.join(out)


def says(t, base=None):
    """normal form of a definition: tokens of the text, with the order of trailing options and default limits removed"""
    pat = []
    m = re.search(r'\{pattern="(.+)"\}([^"]*)$', t, re.DOTALL)
    if m:
        pat = [m.group(1)]
        t = f'{t[:m.start()]} {m.group(2)}'
    t = re.sub(r'\s*\{\s*$', '', t)
    if base is None:
        t = re.sub(r'^\s*0*(\d+)', r'\1 ', t)
    t = t.replace('=', ' ', 1) if t.count('=') > 1 or re.match(r'^\d+ ', t) else t     # may stand before any type
    t = re.sub(r'\soptional\s*$', ' [0..1]', t)
    t = re.sub(r'(\[|[\d*]\.\.)0+(?=\d)', r'\1', t)
    t = re.sub(r'\[(\d+)\]\s*$', r'[\1..\1]', t)
    t = re.sub(r'\[1\.\.1\]\s*$', '', t)
    t = re.sub(r'(?<!^)\bLink\s*\((?=Key\()', 'Key(', t).replace('Key(Key(', 'Key(Link(')
    rng = [limits(x) for x in re.findall(r'\{[^{}]*\}', t)]
    if base not in ('Integer', 'Number') if base else not re.search(r'(?<![-$:\w])(Integer|Number)(?![-$:\w])(?!\s*[]),])', t):
        rng = [x.replace('{*..', '{0.0..') for x in rng]
        rng = [x for x in rng if x != '{0.0..*}']
    rng = [x for x in rng if x != '{*..*}']
    t = re.sub(r'\{[^{}]*\}', ' ', t)
    kw = sorted({x for x in re.findall(r'(?<=\s)(?:%s)(?!\S)' % '|'.join(KW), t)})
    t = re.sub(r'(?<=\s)(?:%s)(?!\S)' % '|'.join(KW), ' ', t)
    fm = re.findall(r'(?<=\s)/\w[-\w]*', t)
    t = re.sub(r'(?<=\s)/\w[-\w]*', ' ', t)
    return re.findall(r'[-$:\w]+|[^\s\w]', t), rng, kw, fm, pat


def same(a, b, base=None):
    return ' '.join(a.split()) == ' '.join(b.split()) or says(a.strip(), base) == says(b.strip(), base)


def read(doc):
    """information, and (definition, description) of the content lines of a document"""
    m = re.match(r'\s*/\*.*?\*/', doc, re.DOTALL)
    doc = doc[m.end():] if m else doc
    info, rows = [], []
    for line in doc.splitlines():
        if not line.split('//', 1)[0].strip() or line.strip() == '}':
            continue
        m = re.match(r'^\s*([-\w]+):\s*(.+?)\s*$', line)
        if m:
            info.append((m.group(1), m.group(2)))
            continue
        d = line.split(' //', 1)
        rows.append((d[0], re.sub(r'^\s*(\S.*?)\s*::\s*', r'\1:: ', ' '.join(d[1].split())).strip() if len(d) > 1 else ''))
    return info, rows


def compare(doc, got):
    again = jadn.convert.jidl_dumps(got)
    info, rows = read(doc)
    if any(re.match(r'^\s*\d+\s*//', a) for a, _ in rows):
        return      # an item that begins with //
    require(len({k for k, _ in info}) == len(info), lambda: f'information is repeated: {info}')
    try:
        info = {k: json.loads(v) for k, v in info}
    except ValueError:
        require(False, lambda: f'information is not JSON: {info}')
    require(info == got.get('info', {}), lambda: f'information {info} was read as {got.get("info")}')
    _, back = read(again)
    for (a, da), (b, db) in zip(rows, back):
        if m := re.match(r'^(\s*\d+)\s*(\D.*)$', a.rstrip()) if re.match(r'^\s*\d+$', b.rstrip()) else None:
            a, da = m.group(1), m.group(2) + ':: ' + da      # the label before the description
        require(same(a, b), lambda: f'{a!r} was read as {b!r}')
        db = re.sub(r'^::\s*', '', db)     # no label
        require(da == db or re.sub(r'[\s:]', '', da) == re.sub(r'[\s:]', '', db), lambda: f'description {da!r} of {a!r} was read as {db!r}')
    require(len(rows) == len(back), lambda: f'{len(rows)} definitions, items and fields were read as {len(back)}: {[r[0] for r in rows if r not in back][:3]}')


# ---------------------------------------------------------------- edits
TOK = re.compile(r'\s+|[-$:\w]+|[^\s\w]')


def edit_text(s, t, vocab):
    k = s.n(8)
    if k < 6:
        toks = TOK.findall(t)
        if not toks:
            return s.pick(vocab)
        i = s.n(len(toks))
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
        elif k == 2:
            toks.insert(i, s.pick(vocab))
        elif k == 3:
            toks[i] = s.pick(vocab)
        elif k == 4:
            j = s.n(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        else:
            toks[i] = s.pick(toks)
        return ''.join(toks)
    if not t:
        return t
    i = s.n(len(t))
    return t[:i] + t[i + 1:] if k == 6 else t[:i] + s.pick(list(' x=/"{}()[]:.,1')) + t[i:]


NUMBERS = ['1.5', '2.0', '-0.5', '.5', '1.', '1e3', '1E-2', '-2e0', '007', '-0', '--1', '1-2', 'inf', 'nan', '0x1', '1,5', 'N', '99999999999999999999', '', '0', '00', '1', '*']


def edit_num(s, t):
    """replace a limit of a range or a multiplicity with another spelling of a number, or with something that is none"""
    if s.p(25) and (at := list(re.finditer(r'\[\d+(\.\.(\d+|\*))?\]|(?<=[\w)}]) *(?=//|$)', t))):     # also where there is none
        m = s.pick(at)
        return t[:m.start()] + s.pick([' [0]', ' [0..0]', ' [00]', ' [00..00]', ' [0..00]', ' [2..1]', ' [1..0]', ' [1]', ' [1..1]', ' [01]', ' [3]', ' [0..*]', ' [*]', ' []', ' [1..', ' [0..1]', ' optional', ' [0..1] optional', ' [1,2]', ' [-1]', ' [1.0]']) + ' ' + t[m.end():]
    at = list(re.finditer(r'(?<=[{\[.])(-?[\d]+(\.\d+)?|\*)(?=[}\].])', t))
    if not at:
        return edit_text(s, t, VOCAB)
    m = s.pick(at)
    return t[:m.start()] + s.pick(NUMBERS) + t[m.end():]


def edit_doc(s, doc):
    lines = doc.split('\n')
    full = [i for i, x in enumerate(lines) if x.strip()]
    i = s.pick(full) if full else 0
    k = s.n(12)
    if k < 6:
        lines[i] = edit_num(s, lines[i]) if s.p(15) else edit_text(s, lines[i], VOCAB)
    elif k == 6:
        del lines[i]
    elif k == 7:
        lines.insert(s.n(len(lines) + 1), lines[i])
    elif k == 8:
        j = s.pick(full) if full else 0
        lines[i], lines[j] = lines[j], lines[i]
    elif k == 9 and i + 1 < len(lines):
        lines[i:i + 2] = [lines[i] + s.pick(['', ' ', ', ']) + lines[i + 1]]
    elif k == 10:
        c = s.n(len(lines[i]) + 1)
        lines[i:i + 1] = [lines[i][:c], lines[i][c:]]
    else:
        lines.insert(s.n(len(lines) + 1), s.pick(LINES))
    return '\n'.join(lines)


def plain(s, **kw):
    """a schema whose descriptions are plain text"""
    sc = wide(s, desc='some', tricky=False, config=False, **kw)

    def clean(d):
        return re.sub(r'\s+', ' ', re.sub(r'//|::', '', d)).strip()
    for t in sc['types']:
        if len(t) > 3:
            t[3] = clean(t[3])
        for f in t[4] if len(t) > 4 else []:
            k = 2 if t[1] == 'Enumerated' else 4
            f[k] = clean(f[k])
    return sc


# ---------------------------------------------------------------- layout
def strategy_layout(s):
    sc = plain(s, info='some')
    return {'schema': sc, 'style': style(s) if s.p(30) else None,
            'edits': [(s.n(200), s.n(7), s.pick(['// note', '  // 1 a String', '//', '   ', '\t', ' // x = Record', '// title: "x"'])) for _ in range(s.int(1, 8))],
            'header': s.pick(['', '', '/* note */\n', '/* T = Record\n 1 a String */\n']), 'crlf': s.p(20)}


def oracle_layout(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    txt = jadn.convert.jidl_dumps(sc, case['style'])
    want = jadn.convert.jidl_loads(txt)
    lines = txt.split('\n')
    for i, k, c in case['edits']:
        i %= len(lines)
        x = lines[i]
        isinfo = re.match(r'^\s*([-\w]+):', x)
        d = x.split(' //', 1)
        istype = x[:1].strip() and not isinfo and ' = ' in d[0] and not x[0].isdigit()
        if k == 0:
            lines.insert(i, c)
        elif k == 1:
            lines.insert(i, '')
        elif k == 2 and x.strip():
            lines[i] = x + '   '
        elif k == 3 and x.strip():
            lines[i] = '  ' + x
        elif k == 4 and istype:
            lines[i] = ' //'.join([d[0].replace(' = ', c.strip()[:0] + '  =   ', 1)] + d[1:])
        elif k == 5 and istype and not d[0].rstrip().endswith('{'):
            lines[i] = ' //'.join([d[0].rstrip() + ' {'] + d[1:])
            j = next((j for j in range(i + 1, len(lines)) if lines[j][:1].strip() and not lines[j].lstrip()[0].isdigit()), len(lines))
            lines.insert(j, '}')
        elif k == 6 and len(d) > 1 and not isinfo:
            lines[i] = d[0] + '     //  ' + d[1].strip() + ' '
        cov.label(f'layout {k}')
    text = case['header'] + ('\r\n' if case['crlf'] else '\n').join(lines)
    try:
        got = jadn.convert.jidl_loads(text)
    except Exception as e:
        require(False, lambda: f'{text!r} is rejected: {e!r}')
    require(got == want, lambda: f'{text!r} was read as {got!r}, without the changed layout {want!r}')
    if text != txt:
        cov.hit(text)


def strategy_style(s):
    return {'schema': plain(s, info='some'), 'edits': [(s.n(500), s.n(6)) for _ in range(s.int(1, 8))]}


def oracle_style(case, cov):
    """an HTML document made into a nicer page"""
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    txt = jadn.convert.html_dumps(sc)
    want = jadn.convert.html_loads(txt)
    lines = txt.split('\n')
    top = next(i for i, x in enumerate(lines) if x.startswith('<h2'))
    for i, k in case['edits']:
        i = top + i % (len(lines) - top)
        m = CELL.match(lines[i])
        cell = m and set(m.group(1).split()) & set(CELLS)
        if k == 0 and not lines[i].startswith('</html'):
            lines.insert(i, '<!-- <div class="jFid">1</div> -->')
        elif k == 1 and cell and m.group(2).strip():
            lines[i] = f'<div class="{m.group(1)}"><b>{m.group(2)}</b></div>'
        elif k == 2 and m:
            lines[i] = f'<div class="nice {m.group(1)}" id="x{i}">{m.group(2)}</div>'
        elif k == 3 and cell:
            lines[i] = f'<div class="box">{lines[i]}</div>'
        elif k == 4 and cell and not lines[i].startswith('<div class="box'):
            lines[i] = lines[i].replace('<div', '<span', 1)[:-6] + '</span>'
        elif k == 5 and cell and m.group(2)[:1].isalpha():
            lines[i] = f'<div class="{m.group(1)}"><i>{m.group(2)[0]}</i>{m.group(2)[1:]}</div>'
        cov.label(f'style {k}')
    text = '\n'.join(lines)
    try:
        got = jadn.convert.html_loads(text)
    except Exception as e:
        require(False, lambda: f'{text!r} is rejected: {e!r}')
    require(got == want, lambda: f'{text!r} was read as {got!r}, without the changed style {want!r}')
    if text != txt:
        cov.hit(text)


# ---------------------------------------------------------------- document
def strategy_doc(s):
    sc = plain(s, info=s.pick(['none', 'some']), n_types=(1, 4))
    try:
        if not accepted(sc):
            return {'text': None}
        txt = jadn.convert.jidl_dumps(sc, {'info': 8, 'name': 8, 'type': 20})
    except Exception:
        return {'text': None}
    orig = txt
    for _ in range(s.pick([1, 1, 1, 2, 3])):
        txt = edit_doc(s, txt)
    return {'text': txt, 'changed': txt.split() != orig.split()}


def oracle_doc(case, cov):
    doc = case['text']
    if doc is None:
        cov.label('no document')
        return
    try:
        got = jadn.convert.jidl_loads(doc)
    except REJ as e:
        cov.label('rejected')
        got = None
    if got is not None:
        compare(doc, got)
        cov.label('read')
    if case['changed']:
        cov.hit(doc)


# ---------------------------------------------------------------- type strings
def strategy_ts(s):
    base = s.pick(gen.CORE)
    opts = [o for o in any_opts(s, base) if o[0] != '%']
    if base == 'String' and s.p(30):
        opts = ['%' + s.pick(['^a$', 'x{2}', 'a b', 'a"b'])] + [o for o in opts if o[0] not in '{}']
    try:
        t = jadn.jadn2typestr(base, opts)
    except Exception:
        return {'text': None}
    o = t
    for _ in range(s.pick([1, 1, 2, 3])):
        t = edit_num(s, t) if s.p(30) else edit_text(s, t, VOCAB)
    return {'text': t, 'changed': t.split() != o.split()}


def oracle_ts(case, cov):
    t = case['text']
    if t is None:
        return
    try:
        base, opts, fo = jadn.typestr2jadn(t)
    except REJ:
        cov.label('rejected')
        if case['changed']:
            cov.hit(t)
        return
    require(isinstance(base, str) and all(isinstance(o, str) for o in opts + fo), lambda: f'{t!r} was read as {base!r} {opts} {fo}')
    tag = f'(TagId[{fo[0][1:]}])' if fo else ''
    if any(c not in {o[0] for o in opts} for c in {'ArrayOf': '*', 'MapOf': '*+'}.get(base, '')):
        cov.label('element type missing')
        return
    if fo and base in gen.CORE:
        cov.label('tagged built-in type')
        return
    if base != 'Integer' and any(o[0] == '}' and int(o[1:]) < 0 for o in opts):
        cov.label('negative size')
        return
    back = jadn.jadn2typestr(base + tag, opts)
    require(same(re.sub(r'^\s*=', '', t), back, base), lambda: f'{t!r} was read as {base} {opts} {fo}, that is {back!r}')
    cov.label('read')
    if case['changed']:
        cov.hit(t)


# ---------------------------------------------------------------- HTML documents
CELLS = ('jKey', 'jVal', 'jTname', 'jTstr', 'jTdesc', 'jFid', 'jFname', 'jFstr', 'jFmult', 'jFdesc')
CELL = re.compile(r'^<div class="([^"]*)">(.*)</div>$')


class Cells(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.cells, self.open = [], []

    def handle_starttag(self, tag, attrs):
        if tag == 'div':
            c = [x for x in (dict(attrs).get('class') or '').split() if x in CELLS]
            self.open.append(c)
            if c:
                self.cells.append([c[0], ''])

    def handle_endtag(self, tag):
        if tag == 'div' and self.open:
            self.open.pop()

    def handle_data(self, data):
        if self.open and self.open[-1]:
            self.cells[-1][1] += data


def cells(doc):
    p = Cells()
    p.feed(doc)
    p.close()
    return p.cells


def edit_html(s, doc):
    lines = doc.split('\n')
    at = [i for i, x in enumerate(lines) if (m := CELL.match(x)) and set(m.group(1).split()) & set(CELLS)]
    if not at:
        return doc
    i = s.pick(at)
    cl, t = CELL.match(lines[i]).groups()
    k = s.n(9)
    if k == 0:
        del lines[i]
    elif k == 1:
        lines.insert(s.pick([i, s.pick(at)]), lines[i])
    elif k == 2:
        j = s.pick(at)
        lines[i], lines[j] = lines[j], lines[i]
    elif k == 3:
        lines[i] = f'<div class="{s.pick(["", "tCell "])}{s.pick(list(CELLS))}">{t}</div>'
    elif k == 4:
        c = s.n(len(t) + 1)
        c = c if '&' not in t else 0
        lines[i] = f'<div class="{cl}">{t[:c]}{s.pick(["<b>", "<span class=x>", "<i>"])}{t[c:]}</div>'
        lines[i] = re.sub(r'<(b|span|i)( class=x)?>(.*)</div>', r'<\1\2>\3</\1></div>', lines[i])
    else:
        t = html.escape(edit_text(s, html.unescape(t), VOCAB), quote=False)
        lines[i] = f'<div class="{cl}">{t}</div>'
    return '\n'.join(lines)


def strategy_html(s):
    sc = plain(s, info=s.pick(['none', 'some']), n_types=(1, 3))
    try:
        if not accepted(sc):
            return {'text': None}
        doc = jadn.convert.html_dumps(sc)
    except Exception:
        return {'text': None}
    orig = doc
    for _ in range(s.pick([1, 1, 1, 2, 3])):
        doc = edit_html(s, doc)
    return {'text': doc, 'changed': doc != orig}


def groups(doc):
    """information, and (cells of) types, items and fields in order"""
    info, rows = [], []
    for c, t in cells(doc):
        if c == 'jKey':
            info.append({c: t})
            cur = info[-1]
        elif c in ('jTname', 'jFid'):
            rows.append({c: t})
            cur = rows[-1]
        else:
            require(c not in cur, lambda: f'cell {c} {t!r} is repeated in {cur}')
            cur[c] = t
    return info, rows


def oracle_html(case, cov):
    doc = case['text']
    if doc is None:
        cov.label('no document')
        return
    if case['changed']:
        cov.hit(doc)
    try:
        got = jadn.convert.html_loads(doc)
    except REJ:
        cov.label('rejected')
        return
    cov.label('read')
    cl = cells(doc)
    require(not cl or cl[0][0] in ('jKey', 'jTname'), lambda: f'cells {cl[:2]} belong to no definition')
    info, rows = groups(doc)
    _, back = groups(jadn.convert.html_dumps(got))
    try:
        want = [(r['jKey'].rstrip(':'), json.loads(r['jVal'])) for r in info]
    except (KeyError, ValueError):
        require(False, lambda: f'information is not complete: {info}')
    require(len({k for k, _ in want}) == len(want) and dict(want) == got.get('info', {}), lambda: f'information {want} was read as {got.get("info")}')
    for a, b in zip(rows, back):
        for c in CELLS[2:]:
            x, y = a.get(c, ''), b.get(c, '')
            if c in ('jTdesc', 'jFdesc', 'jFname'):
                x, y = a.get('jFname', '') + x if c == 'jFdesc' else x, b.get('jFname', '') + y if c == 'jFdesc' else y
                ok = c == 'jFname' or re.sub(r'[\s:]', '', x) == re.sub(r'[\s:]', '', y)
            elif c == 'jFmult':
                ok = mult(x) == mult(y)
            elif c == 'jFid':
                ok = not x and not y or int(x) == int(y)
            else:
                ok = same(re.sub(r'^\s*=', '', x), re.sub(r'^\s*=', '', y))
            require(ok, lambda: f'cell {c} {x!r} of {a} was read as {y!r}')
    require(len(rows) == len(back), lambda: f'{len(rows)} definitions, items and fields were read as {len(back)}')


def mult(x):
    lo, _, hi = (x.strip() or '1').partition('..')
    return lo.lstrip('0') or '0', (hi or lo).lstrip('0') or '0'


PROPS = [Prop('style', strategy_style, oracle_style, 40, 1000, size=700), Prop('layout', strategy_layout, oracle_layout, 60, 1500, size=700), Prop('document', strategy_doc, oracle_doc, 250, 6000, size=500),
         Prop('html', strategy_html, oracle_html, 150, 4000, size=400), Prop('typestring', strategy_ts, oracle_ts, 400, 9000, size=100)]
