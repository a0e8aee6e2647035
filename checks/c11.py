"""C11: type strings, field definitions and option lists are inverse notations (reference writer, and parse of what was written)"""
import copy

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require

import jadn

ID = 'C11'
RULE = ('typestr: a base type with any legal combination of options (every flag, references, enumerations, pointers, qualified names, patterns with '
        'braces, quotes, slashes and keywords, limits, formats) in random order; the type string must equal that of an independent writer and parse back '
        'to the same options. field: every field of every type of a generated schema, against an independent writer of its columns, and parsed back. '
        'options: option lists to dictionaries and back, and canonical order. multiplicity: all bounds. Non-trivial: at least two options, or a field that has '
        'an option; distinct by (base, options) or field.')
ASSUMPTIONS = ['labels in descriptions end at the first "::" followed by white space, so names do not contain that',
               'descriptions are compared without outer white space', 'tag options are only used on references to defined types']

REFS = ['Foo', 'A', 'Bar-Baz', 'ns1:Ext', 'Foo$x', 'T2', 'a1b2c3d4:Q', 'Optional', 'Set', 'Unique', 'Key', 'Link', 'Enum', 'String', 'Integer', 'Number', 'Binary',
        'Boolean']
PATS = list(gen.PATTERNS) + list(gen.PATTERNS_TRICKY) + ['^a"} b$', '^{"x"}$', '^x{3}$', ' /uri unique', '^(a|b){1..2}$', '}', '{', '"', 'a} unique', '%&*', '\\',
        '^/date set$', '=', '..', '{pattern="x"', 'é漢', ') extend', '(anyOf)', '{0..3}', '.ID', '\\"', "'", '//', '::', '[0..1] optional']
FMT = {'Binary': ['x', 'X', 'b', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr'], 'Integer': ['i8', 'i16', 'i32', 'i64', 'datetime-ms'],
       'Number': ['f16', 'f32', 'f64'], 'Array': ['ipv4-net', 'ipv6-net', 'tag-uuid'],
       'String': ['date-time', 'date', 'time', 'duration', 'email', 'hostname', 'idn-email', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'uri-template',
                  'json-pointer', 'relative-json-pointer', 'regex']}


def pat(s):
    if s.p(50):
        return s.pick(PATS)
    return ''.join(s.pick(['a', ' ', '"', '{', '}', '/', 'x', '\\', '(', ')', '[', ']', '.', '..', ' /x', ' set', '^', '$', '"}', '=', '*', ':']) for _ in range(s.int(1, 9)))


def any_opts(s, base):
    o = []

    def vt():
        k = s.n(10)
        return ('#' if k == 8 else '>' if k == 9 else '') + (s.pick(REFS[:13]) if k >= 8 else s.pick(REFS))

    def size(lo_neg=False):
        a = s.pick([0, 1, 2, 7, 255, 10 ** 6, 10 ** 20]) if not lo_neg else s.pick([-1, 0, 1, -128, 255, -10 ** 20, 2 ** 63])
        b = s.pick([1, 2, 7, 255, 10 ** 6, 10 ** 20]) if not lo_neg else s.pick([-1, 0, 1, -128, 255, -10 ** 20, 2 ** 63])
        a, b = min(a, b), max(a, b)
        return ([f'{{{a}'] if s.p(60) else []) + ([f'}}{b}'] if s.p(60) else [])

    if base == 'ArrayOf':
        o += ['*' + vt()]
        o += s.pick([[], ['q'], ['s'], ['b'], ['q', 's'], ['q', 'b']])
    elif base == 'MapOf':
        o += ['+' + vt(), '*' + vt()]
    elif base == 'Enumerated':
        o += s.pick([[], ['#' + s.pick(REFS[:13])], ['>' + s.pick(REFS[:13])]])
    elif base == 'Choice':
        o += s.pick([[], ['CO'], ['CA'], ['CX']])
    elif base == 'Number':
        a, b = sorted((s.pick([0.0, 1.5, -1.5, 1e22, 3.14159, -0.25, 1e-7, 100.0, 1e300]), s.pick([0.0, 2.5, -2.5, 1e22, 12345678.9, 1e16])))
        sp = s.n(3)
        form = (lambda x: str(x)) if sp == 0 else (lambda x: str(int(x)) if x == int(x) and abs(x) < 1e6 else str(x)) if sp == 1 else (lambda x: f'{x:.3f}' if abs(x) < 1e6 and round(x, 3) == x else repr(x))
        o += ([f'y{form(a)}'] if s.p(60) else []) + ([f'z{form(b)}'] if s.p(60) else [])
    if base == 'String' and s.p(50):
        o += ['%' + pat(s)]
    elif base in ('Binary', 'String', 'ArrayOf', 'MapOf', 'Map', 'Record', 'Array'):
        o += size()
    elif base == 'Integer':
        o += size(True)
    if base in FMT and s.p(40):
        o += ['/' + s.pick(FMT[base])]
    for c, ok in (('=', ('Enumerated', 'Choice', 'Map')), ('X', ('Enumerated', 'Choice', 'Array', 'Map', 'Record')), ('o', ('Map', 'MapOf', 'Record'))):
        if base in ok and s.p(30):
            o.append(c)
    return s.shuffle(o)


def strategy_typestr(s):
    base = s.pick(gen.CORE)
    return {'base': base, 'opts': any_opts(s, base)}


def oracle_typestr(case, cov):
    base, opts = case['base'], case['opts']
    o0 = list(opts)
    ts = jadn.jadn2typestr(base, opts)
    require(opts == o0, 'jadn2typestr changed its argument')
    exp = nt.typestr(base, opts)
    require(ts == exp, lambda: f'type string of {base} {opts} is {ts!r}, expected {exp!r}')
    for text in (ts, '= ' + ts, ' ' + ts + ' '):
        b, o, fo = jadn.typestr2jadn(text)
        require(b == base and fo == [] and nt.norm_opts(o, base) == nt.norm_opts(opts, base) and len({x[0] for x in o}) == len(o),
                lambda: f'type string {text!r} of {base} {opts} was parsed as {b} {o} {fo}')
        require(jadn.jadn2typestr(b, o) == ts, lambda: f'type string {text!r} parsed and written again is {jadn.jadn2typestr(b, o)!r}')
    cov.label('base:' + base)
    for x in opts:
        cov.label('opt:' + x[0])
    if len(opts) >= 2:
        cov.hit((base, sorted(opts)))


# ------------------------------------------------------------------------- fields
def strategy_field(s):
    sc = wide(s, n_types=(2, 5), info='none', config=False)
    for t in sc['types']:
        for f in t[4] if len(t) > 4 else []:
            if t[1] == 'Enumerated' and s.p(15):
                f[1] = s.pick(['=x', 'a b', '3', 'a:b', 'é', '//', 'optional', 'x/', '[0..1]', 'a::b', 'Key(x)', ':', '1 a', '#', '"q"']) + str(f[0])
    if s.p(30):     # a tag field, key, link or directory where the generator would not put one
        comp = [t for t in sc['types'] if t[1] in gen.COMPOUND and len(t) > 4 and t[4]]
        if comp:
            t = s.pick(comp)
            f = s.pick(t[4])
            k = s.n(4)
            if k == 0 and not any(o[0] in '#*+/%{}yz=q><' for o in f[3]) and f[2] not in gen.CORE and not any(o[0] == '&' for o in f[3]):
                f[3].append(f'&{s.pick(t[4])[0]}')
            elif k == 1 and 'K' not in f[3]:
                f[3].append('K')
            elif k == 2 and 'L' not in f[3]:
                f[3].append('L')
            elif k == 3 and '<' not in f[3]:
                f[3].append('<')
    return {'types': sc['types']}


def oracle_field(case, cov):
    for td in case['types']:
        td = nt.full(td)
        if not td[4]:
            continue
        item = td[1] == 'Enumerated'
        before = copy.deepcopy(td)
        parsed = []
        for fd in td[4]:
            cols = jadn.jadn2fielddef(fd, td)
            exp = nt.fielddef(fd, td)
            require(tuple(cols[:3]) == exp[:3] and cols[3].strip() == exp[3].strip(), lambda: f'columns of {fd} in {td[:3]} are {cols}, expected {exp}')
            f2 = jadn.fielddef2jadn(fd[0], *cols)
            parsed.append(f2)
        require(td == before, 'jadn2fielddef changed its arguments')
        jadn.cleanup_tagid(parsed)
        if item:
            a = [(f[0], f[1], nt.norm_desc(f[2])) for f in td[4]]
            b = [(f[0], f[1], nt.norm_desc(f[2])) if len(f) == 3 else f for f in parsed]
        else:
            a = [(f[0], f[1], f[2], nt.norm_opts(f[3], f[2]), nt.norm_desc(f[4])) for f in td[4]]
            b = [(f[0], f[1], f[2], nt.norm_opts(f[3], f[2]), nt.norm_desc(f[4])) if len(f) == 5 else f for f in parsed]
        for x, y in zip(a, b):
            require(x == y, lambda: f'field {x} of {td[:3]} became {y}')
        for fd in td[4]:
            if item or fd[3]:
                cov.label('item' if item else 'field', *(['label'] if nt.label_type(td) else []), *(['fopt:' + o[0] for o in (fd[3] if not item else [])]))
                cov.hit((td[1], nt.label_type(td), fd))


# ------------------------------------------------------------------------- option lists
def strategy_options(s):
    base = s.pick(gen.CORE)
    o = any_opts(s, base)
    fo = s.some(['[' + str(s.pick([0, 2, 5])), ']' + str(s.pick([0, 3, 9])), '&' + str(s.int(0, 99)), '<', 'K', 'L'], 35)
    return {'base': base, 'topts': o, 'fopts': fo, 'mixed': s.shuffle(o + fo), 'perm': s.shuffle(o + fo)}


NAMES = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'y': 'minf', 'z': 'maxf', '{': 'minv', '}': 'maxv',
         'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence', 'C': 'combine', 'X': 'extend', '[': 'minc', ']': 'maxc', '&': 'tagid', '<': 'dir',
         'K': 'key', 'L': 'link'}


def value(o):
    k, v = o[0], o[1:]
    return float(v) if k in 'yz' else int(v) if k in '{}[]&' else v if k in '*+#>/%C' else True


def oracle_options(case, cov):
    topts, fopts, mixed, perm = (case[k] for k in ('topts', 'fopts', 'mixed', 'perm'))
    b0 = copy.deepcopy(case)
    d = jadn.topts_s2d(topts)
    require(list(d.items()) == [(NAMES[o[0]], value(o)) for o in topts], lambda: f'options {topts} as dictionary: {d}')
    fo, to = jadn.ftopts_s2d(mixed)
    require(fo == {NAMES[o[0]]: value(o) for o in fopts} and to == {NAMES[o[0]]: value(o) for o in topts}, lambda: f'field options {mixed} as dictionaries: {fo} {to}')
    back = jadn.opts_d2s(d)
    require([(o[0], value(o)) for o in back] == [(o[0], value(o)) for o in topts], lambda: f'options {topts} became {d} became {back}')
    back = jadn.opts_d2s({**fo, **to})
    require(sorted((o[0], str(value(o))) for o in back) == sorted((o[0], str(value(o))) for o in mixed), lambda: f'field options {mixed} became {back}')
    a, b = list(mixed), list(perm)
    jadn.opts_sort(a)
    jadn.opts_sort(b)
    require(sorted(a) == sorted(mixed), lambda: f'sorting {mixed} gave {a}')
    require(a == b, lambda: f'sorted options depend on their order: {a} {b}')
    require(a == sorted(a, key=lambda o: nt.RANK[o[0]]), lambda: f'options are not in canonical order: {a}')
    require(case == b0, 'options were modified by a conversion')
    for k in 'yz{}/*+#[]&<KL':      # single options: lookup and removal
        n = NAMES[k]
        lst = list(mixed)
        x = jadn.get_optx(lst, n)
        has = [i for i, o in enumerate(lst) if o[0] == k]
        require(x == (has[0] if has else None), lambda: f'get_optx({lst}, {n!r}) = {x}')
        jadn.del_opt(lst, n)
        require(lst == [o for i, o in enumerate(mixed) if i not in has[:1]], lambda: f'del_opt({mixed}, {n!r}) left {lst}')
    if len(mixed) >= 2:
        cov.hit(mixed)


# ------------------------------------------------------------------------- multiplicity
def strategy_mult(s):
    lo = s.pick([None, 0, 1, 2, s.int(0, 300)])
    hi = s.pick([None, 0, 1, 2, s.int(0, 300)])
    return {'lo': lo, 'hi': hi, 'type': s.pick(['Foo', 'String', 'ns1:Ext'])}


def oracle_mult(case, cov):
    lo, hi = case['lo'], case['hi']
    o = ([f'[{lo}'] if lo is not None else []) + ([f']{hi}'] if hi is not None else [])
    d = jadn.ftopts_s2d(o)[0]
    m = jadn.multiplicity_str(d)
    require(m == nt.mult(o), lambda: f'multiplicity of {o} is {m!r}, expected {nt.mult(o)!r}')
    f = jadn.fielddef2jadn(1, 'a', case['type'], m, '')
    require(f[:3] == [1, 'a', case['type']] and nt.norm_opts(f[3], '') == nt.norm_opts(o, ''), lambda: f'multiplicity {m!r} of {o} was parsed as {f}')
    if lo == hi and lo is not None and lo > 0:
        f = jadn.fielddef2jadn(1, 'a', case['type'], str(lo), '')
        require(nt.norm_opts(f[3], '') == nt.norm_opts(o, ''), lambda: f'multiplicity {lo!r} was parsed as {f}')
    cov.hit((lo, hi))


PROPS = [
    Prop('typestr', strategy_typestr, oracle_typestr, 4000, 60000, size=80),
    Prop('field', strategy_field, oracle_field, 700, 9000, size=500),
    Prop('options', strategy_options, oracle_options, 2000, 20000, size=120),
    Prop('mult', strategy_mult, oracle_mult, 500, 5000, size=12),
]
