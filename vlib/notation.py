"""
Independent reference for the textual notation of types, fields and options (JADN type strings), and normal forms for
comparing definitions.  Nothing here uses the code under test.
"""
PRIM = ('Binary', 'Boolean', 'Integer', 'Number', 'String')
FLAGS = {'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence', 'X': 'extend'}
COMBINE = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}
FIELD_IDS = '[]&<KL'
RANK = {c: i for i, c in enumerate('=*+#>/%yz{}qsboCX![]&<KL')}     # canonical order of option identifiers


def od(opts):
    """options as a dictionary: identifier -> text"""
    return {o[0]: o[1:] for o in opts}


def num(x):
    return repr(float(x))


def ref(t):
    """element or key type as shown in a type string"""
    return f'Enum[{t[1:]}]' if t[0] == '#' else f'Pointer[{t[1:]}]' if t[0] == '>' else t


def typestr(base, opts, tag=None):
    """the type string of a base type (or reference) with type options"""
    o = od(opts)
    s = base
    if tag is not None:
        s += f'(TagId[{tag}])'
    if '=' in o:
        s += '.ID'
    if base == 'ArrayOf':
        s += f'({ref(o["*"])})'
    if base == 'MapOf':
        s += f'({ref(o["+"])}, {ref(o["*"])})'
    if 'C' in o:
        s += f'({COMBINE[o["C"]]})'
    if '#' in o:
        s += f'(Enum[{o["#"]}])'
    if '>' in o:
        s += f'(Pointer[{o[">"]}])'
    if '%' in o:
        s += '{pattern="' + o['%'] + '"}'
    if base == 'Number':
        lo, hi = (num(o[k]) if k in o else '*' for k in 'yz')
        r = (lo, hi) if ('y' in o or 'z' in o) else None
    elif base == 'Integer':
        lo, hi = (str(int(o[k])) if k in o else '*' for k in '{}')
        r = (lo, hi) if ('{' in o or '}' in o) else None
    else:
        lo, hi = str(int(o.get('{', 0))), str(int(o['}'])) if '}' in o else '*'
        r = (lo, hi) if (lo, hi) != ('0', '*') else None
    if r:
        s += '{%s..%s}' % r
    if '/' in o:
        s += ' /' + o['/']
    for c in 'qsboX':
        if c in o:
            s += ' ' + FLAGS[c]
    return s


def norm_opts(opts, base):
    """set of options up to order, default sizes, default multiplicity and spelling of numbers"""
    out = set()
    for o in opts:
        k, v = o[0], o[1:]
        if k in 'yz':
            v = num(v)
        elif k in '{}[]':
            v = int(v)
            if (k == '{' and v == 0 and base != 'Integer') or (k in '[]' and v == 1):
                continue
        out.add((k, v))
    return out


def mult(opts):
    o = od(opts)
    lo, hi = int(o.get('[', 1)), int(o.get(']', 1))
    return f'{lo}..{"*" if hi < 1 else hi}' if (lo, hi) != (1, 1) else '1'


def label_type(td):
    """fields are known by number: their name is a label at the start of the description"""
    return td[1] == 'Array' or any(o[0] in '=C' for o in td[2])


def fieldref(fd, td):
    """type column of a field"""
    to = [o for o in fd[3] if o[0] not in FIELD_IDS]
    o = od(fd[3])
    tag = next(f[1] for f in td[4] if f[0] == int(o['&'])) if '&' in o else None
    s = typestr(fd[2], to, tag)
    if 'L' in o:
        s = f'Link({s})'
    if 'K' in o:
        s = f'Key({s})'
    return s


def fielddef(fd, td):
    """(name, type, multiplicity, description) columns of a field or item"""
    item = td[1] == 'Enumerated'
    name = fd[1] + ('/' if not item and any(o[0] == '<' for o in fd[3]) else '')
    d = fd[2] if item else fd[4]
    if label_type(td):
        name, d = '', f'{name}:: {d}'
    return (name, '', '', d) if item else (name, fieldref(fd, td), mult(fd[3]), d)


def full(td):
    """a definition with omitted trailing columns filled in"""
    return [td[0], td[1]] + [td[i] if len(td) > i else d for i, d in ((2, []), (3, ''), (4, []))]


def norm_desc(d):
    return ' '.join(d.split())


def norm_type(td, desc=True):
    """comparable form of a type definition"""
    td = full(td)
    nd = norm_desc if desc else (lambda d: None)
    if td[1] == 'Enumerated':
        fields = [(f[0], f[1], nd(f[2])) for f in td[4]]
    else:
        fields = [(f[0], f[1], f[2], frozenset(norm_opts(f[3], f[2])), nd(f[4])) for f in td[4]]
    return (td[0], td[1], frozenset(norm_opts(td[2], td[1])), nd(td[3]), tuple(fields))


def diff(a, b):
    """first difference between two lists of normal forms"""
    if len(a) != len(b):
        return f'{len(a)} and {len(b)} types: {[t[0] for t in a]} {[t[0] for t in b]}'
    for x, y in zip(a, b):
        if x != y:
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    if i == 4:
                        for f, g in zip(p, q):
                            if f != g:
                                return f'{x[0]}: field {f!r} became {g!r}'
                    return f'{x[0]}: {p!r} became {q!r}'
    return None
