"""C20: diagrams show exactly the types and references of the schema (the diagram source parsed into a graph, against a reference graph of the schema; GraphViz itself reads a sample)"""
import copy
import os
import re
import shutil
import subprocess
import tempfile
import xml.etree.ElementTree as ET

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks import c08, c19
from checks.c09 import accepted

from jadn.convert import diagram_dump, diagram_dumps, diagram_style

ID = 'C20'
RULE = ('a case is a generated schema using every notation (items and patterns with markup, quotes and line breaks; fields named like keywords) and a random combination of format, detail and display '
        'options, perhaps a file. The source is parsed with a DOT grammar (HTML labels with an XML parser) or as PlantUML class diagram lines; nodes, their lines, and edges with label, multiplicity and link '
        'style must equal the reference graph. Non-trivial: the diagram has an edge; distinct by schema and options.')
ASSUMPTIONS = ['text has no control characters (XML cannot hold them)', 'an enumeration derived from a type is not a reference to that type', 'names consist of letters, digits, and _$-',
               'PlantUML shows <U+0022> as a quotation mark; its own markup in items and patterns is not considered']
CONTROL = re.compile(r'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]')
FIELD_NAMES = ['node', 'edge', 'graph', 'digraph', 'subgraph', 'strict', 'label', 'class', 'end', 'note', 'n0', 'n1', 'style']


def strategy(s):
    sc = wide(s, n_types=(1, 9))
    for how, p in ((c19.spice, 40), (c08.spice, 10)):
        if s.p(p):
            sc = how(s, sc)
    for t in sc['types']:
        if len(t) > 4 and t[4] and t[1] != 'Enumerated' and s.p(20):
            f = s.pick(t[4])
            n = s.pick(FIELD_NAMES)
            if all(g[1] != n for g in t[4]):
                f[1] = n
    st = {'format': s.pick(['plantuml', 'graphviz'])}
    if st['format'] == 'plantuml' and s.p(30):
        del st['format']
    if s.p(85):
        st['detail'] = s.pick(['conceptual', 'logical', 'information', 'information'])
    for k in ('links', 'link_horizontal', 'edge_label', 'edge_mult', 'attributes'):
        if s.p(50):
            st[k] = s.p(50)
    if s.p(10):
        st['attr_color'] = 'red'
    return {'schema': sc, 'style': st, 'file': s.pick([None, None, None, '', 'x y.jadn']), 'dot': s.p(6)}


def one(x):
    return re.sub(r'\s*[\r\n]\s*', ' ', x)


def words(x):
    return ' '.join(x.split())


def expected(sc, st):
    hidden = () if st['attributes'] else (*nt.PRIM, 'Enumerated')
    types = [nt.full(t) for t in sc['types']]
    shown = [t for t in types if t[1] not in hidden]
    names = {t[0] for t in shown}
    nodes, edges = [], []
    for t in shown:
        o = nt.od(t[2])
        lines = []
        for f in t[4]:
            if st['detail'] == 'logical':
                lines.append(words(one(f[1])))
            elif st['detail'] == 'information':
                name, typ, mult, _ = nt.fielddef(f, t)
                lines.append(words(one(f'{f[0]} {name}') + ('' if t[1] == 'Enumerated' else ' : ' + one(typ) + ('' if mult == '1' else f' [{mult}]'))))
        title = t[0] + (f' : {nt.typestr(t[1], t[2])}' if st['detail'] == 'information' else '')
        nodes.append((t[0], words(one(title)), lines))
        if t[1] == 'Enumerated':
            continue
        for k, lab in (('+', 'key'), ('*', 'value')):
            if o.get(k) in names:
                edges.append((t[0], o[k], lab, '1', False))
        for f in t[4]:
            fo = nt.od(f[3])
            link = 'L' in fo
            if link and not st['links']:
                continue
            for x in ([fo.get('+'), fo.get('*')] if f[2] in ('ArrayOf', 'MapOf') else [f[2]]):
                if x in names:
                    edges.append((t[0], x, f[1], nt.mult(f[3]), link))
    edges = [(a, b, lab if st['edge_label'] else None, m if st['edge_mult'] else None, d) for a, b, lab, m, d in edges]
    return nodes, edges


# ---------------------------------------------------------------- GraphViz
def dot_tokens(text):
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c == '#' and (i == 0 or text[i - 1] == '\n') or text.startswith('//', i):
            while i < n and text[i] != '\n':
                i += 1
        elif c.isspace():
            i += 1
        elif text.startswith('/*', i):
            i = text.index('*/', i) + 2
        elif c == '"':
            m = re.compile(r'"((?:\\.|[^"\\])*)"', re.S).match(text, i)
            require(m, lambda: f'unterminated string at {text[i:i + 40]!r}')
            yield 'id', m.group(1).replace('\\"', '"')
            i = m.end()
        elif c == '<':
            d, j = 0, i
            while True:
                require(j < n, lambda: f'unterminated HTML label at {text[i:i + 60]!r}')
                d += (text[j] == '<') - (text[j] == '>')
                j += 1
                if d == 0:
                    break
            yield 'html', text[i + 1:j - 1]
            i = j
        elif text.startswith('->', i) or text.startswith('--', i):
            yield 'op', text[i:i + 2]
            i += 2
        elif c in '{}[];,=:':
            yield c, c
            i += 1
        else:
            m = re.compile(r'[A-Za-z_\x80-\uffff\U00010000-\U0010ffff][A-Za-z0-9_\x80-\uffff\U00010000-\U0010ffff]*|-?(?:\.\d+|\d+(?:\.\d*)?)').match(text, i)
            require(m, lambda: f'not DOT: {text[i:i + 60]!r}')
            w = m.group()
            yield ('kw' if w.lower() in ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict') else 'id'), w
            i = m.end()


def parse_dot(text):
    tk = list(dot_tokens(text)) + [('eof', '')]
    p = 0

    def take(*kinds):
        nonlocal p
        require(tk[p][0] in kinds, lambda: f'DOT syntax: {tk[max(0, p - 3):p + 3]}, expected {kinds}')
        p += 1
        return tk[p - 1]

    def attrs():
        a = {}
        while tk[p][0] == '[':
            take('[')
            while tk[p][0] != ']':
                k = take('id')[1]
                take('=')
                a[k] = take('id', 'html')
                if tk[p][0] in ',;':
                    take(',', ';')
            take(']')
        return a
    require(take('kw')[1].lower() == 'digraph', 'not a digraph')
    if tk[p][0] == 'id':
        take('id')
    take('{')
    nodes, edges = [], []
    while tk[p][0] != '}':
        if tk[p][0] == ';':
            take(';')
        elif tk[p][0] == 'kw':
            take('kw')
            attrs()
        else:
            a = take('id')[1]
            if tk[p][0] == '=':
                take('=')
                take('id', 'html')
            elif tk[p][0] == 'op':
                require(take('op')[1] == '->', 'undirected edge in a digraph')
                b = take('id')[1]
                edges.append((a, b, attrs()))
            else:
                nodes.append((a, attrs()))
    take('}')
    take('eof')
    return nodes, edges


def read_dot(text, st):
    ns, es = parse_dot(text)
    nodes = []
    for i, a in ns:
        kind, lab = a.get('label', ('id', i))
        if kind == 'html':
            try:
                x = ET.fromstring('<l>' + lab.replace('&nbsp;', ' ') + '</l>')
            except ET.ParseError as e:
                require(False, f'label is not well-formed: {e}: {lab[:400]!r}')
            rows = [''.join(r.itertext()) for r in x.iter('tr')] or [''.join(x.itertext())]
        else:
            rows = [lab]
        nodes.append((i, words(rows[0]), [words(r) for r in rows[1:]]))
    edges = []
    for a, b, at in es:
        g = {k: v[1] for k, v in at.items()}
        require(set(g) <= {'label', 'style', 'headlabel', 'taillabel'}, lambda: f'edge attributes {g}')
        require('taillabel' not in g or g['taillabel'] == '1', lambda: f'edge attributes {g}')
        edges.append((a, b, g.get('label'), g.get('headlabel'), g.get('style') in ('dashed', 'dotted')))
    return nodes, edges


# ---------------------------------------------------------------- PlantUML
def read_puml(text, st):
    lines = text.split('\n')
    require(lines.count('@startuml') == 1 and lines.count('@enduml') == 1, 'not a PlantUML document')
    a, b = lines.index('@startuml'), lines.index('@enduml')
    require(all(not x.strip() or x.startswith("'") for x in lines[:a]) and not any(x.strip() for x in lines[b + 1:]), lambda: f'text outside of the diagram: {lines[:a]} {lines[b + 1:]}')
    nodes, edges = [], []
    for ln in lines[a + 1:b]:
        x = ln.strip()
        if not x or x.startswith("'") or x in ('hide empty members', 'hide circle'):
            continue
        if m := re.match(r'^class "([^"]*)" as (\w+)$', x):
            require(m.group(2) not in [n[0] for n in nodes], lambda: f'two nodes {m.group(2)}')
            nodes.append((m.group(2), words(m.group(1).replace('<U+0022>', '"')), []))
        elif m := re.match(r'^(\w+) (?:"([^"]*)" )?(\.+|-+)>(?: "([^"]*)")? (\w+)(?: : (.*))?$', x):
            require(m.group(2) in (None, '1'), lambda: f'edge {x!r}')
            link = m.group(3)[0] == '.'
            require(m.group(3) == (('.' if st['link_horizontal'] else '..') if link else '--'), lambda: f'edge {x!r} with {st}')
            edges.append((m.group(1), m.group(5), m.group(6), m.group(4), link))
        elif m := re.match(r'^(\w+) :( .*)?$', x):
            n = [n for n in nodes if n[0] == m.group(1)]
            require(n, lambda: f'member of an unknown node: {x!r}')
            n[0][2].append(words((m.group(2) or '').replace('{field} ', '', 1 if ' : {field} ' in (m.group(2) or '') else 0).replace('<U+0022>', '"')))
        else:
            require(False, f'unexpected line {x!r}')
    return nodes, edges


def oracle(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    if any(CONTROL.search(x) for x in strings(sc)):
        cov.label('control characters')
        return
    before, style = copy.deepcopy(sc), copy.deepcopy(case['style'])
    st = diagram_style()
    st.update(style)
    text = diagram_dumps(sc, style)
    require(sc == before and style == case['style'], 'diagram_dumps changed its arguments')
    require(diagram_dumps(sc, style) == text, 'the same schema gives another diagram the second time')
    nodes, edges = (read_dot if st['format'] == 'graphviz' else read_puml)(text, st)
    en, ee = expected(sc, st)
    require(len({n[0] for n in nodes}) == len(nodes), lambda: f'a node is defined twice: {[n[0] for n in nodes]}')
    require([n[1] for n in nodes] == [n[1] for n in en], lambda: f'nodes {[n[1] for n in nodes]}, expected {[n[1] for n in en]}')
    for n, e in zip(nodes, en):
        require(n[2] == e[2], lambda: f'{e[0]}: lines {n[2]}, expected {e[2]}')
    ids = {n[0]: e[0] for n, e in zip(nodes, en)}
    got = sorted([(ids.get(a), ids.get(b), *x) for a, b, *x in edges], key=repr)
    want = sorted(ee, key=repr)
    require(got == want, lambda: f'edges: missing {[x for x in want if x not in got]}, unexpected {[x for x in got if x not in want]} of {len(got)}, {len(want)}')
    if st['format'] == 'graphviz' and case['dot'] and shutil.which('dot'):
        r = subprocess.run(['dot', '-Tcanon'], input=text.encode(), capture_output=True, timeout=120)
        err = [x for x in r.stderr.decode(errors='replace').splitlines() if 'rror' in x or 'not well-formed' in x]
        require(r.returncode == 0 and not err, lambda: f'GraphViz: {err or r.stderr[:300]}')
        cov.label('read by GraphViz')
    if case['file'] is not None:
        with tempfile.TemporaryDirectory(prefix='verif-c20-') as tmp:
            fn = os.path.join(tmp, 'x')
            diagram_dump(sc, fn, case['file'], style)
            with open(fn, encoding='utf8', newline='') as f:
                x = f.read()
            require(x == text + '\n' if not case['file'] else x.endswith(text + '\n'), 'the file has other text than the diagram')
            (read_dot if st['format'] == 'graphviz' else read_puml)(x, st)
        cov.label('file')
    cov.label(st['format'], st['detail'], *(k for k in ('links', 'link_horizontal', 'edge_label', 'edge_mult', 'attributes') if not st[k]))
    if any(e[4] for e in ee):
        cov.label('link')
    if ee:
        cov.hit((sc, sorted(style.items())))


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from strings(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings(v)


PROPS = [Prop('diagram', strategy, oracle, 160, 2800, size=900)]
