"""
Generator of well-formed JADN schemas (nothing here imports or uses the code under test).

schema(src, **features) returns a schema in the plain list format.  Types are numbered so that a required reference only
goes from a lower to a higher number; references back (recursion) are only made where an instance can stop: an optional
field or a possibly-empty ArrayOf/MapOf.  The written order of the types is then shuffled.
"""
from .src import Src

PRIM = ('Binary', 'Boolean', 'Integer', 'Number', 'String')
COMPOUND = ('Choice', 'Array', 'Map', 'Record')
CORE = PRIM + ('Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')

TYPE_NAMES = ['Alpha', 'Bravo', 'Charlie', 'Delta-4', 'Echo', 'Foxtrot-Two', 'Golf', 'H', 'India9', 'Juliet-a-b',
              'Kilo', 'Lima', 'M8', 'Nov-X', 'Oscar', 'PapaPapa', 'Q-1', 'Romeo', 'SierraT', 'T2']
# accepted names that could be taken for something else: base types, option names, other spellings of one name, long names
ODD_NAMES = ['Link', 'Key', 'Enum', 'Pointer', 'TagId', 'ALPHA', 'ALpha', 'Null', 'Array2', 'ID', 'Id', 'Optional', 'Unique', 'A-', 'A--B', 'A-B', 'AB', 'Ab',
             'Choic', 'StringX', 'Record-', 'MapOF', 'Array-Of', 'Type', 'BRAVO', 'Format', 'None', 'True', 'Info', 'End', 'Node', 'Graph', 'Class', 'Types',
             'Definitions', 'TypeRef', 'Schema', 'Any', 'Object', 'X' + 'y' * 35, 'Long' * 16, 'Long' * 15 + 'LonG', 'Long' * 15 + 'L']
FIELD_NAMES = ['a', 'b', 'c', 'x_1', 'name', 'camelCase', 'd2', 'type_of', 'value', 'optional', 'z', 'unique', 'f_o_o',
               'id', 'k9', 'set', 'ww', 'desc', 'q', 'n0']
ITEM_NAMES = ['red', 'green', 'blue', 'b-1', 'Yes', 'no_w', 'X', 'on', 'off', 'dark-red', 'i7', 'ALPHA', 'zz', 'm.n',
              '3d', 'a+b']

# (pattern, alphabet-free generator): anchored at both ends, no '$' at the start (that means a config variable)
PATTERNS = {
    r'^[a-z]{2,4}$': lambda s: ''.join(s.pick('abcxyz') for _ in range(s.int(2, 4))),
    r'^[A-Z][0-9]{3}$': lambda s: s.pick('AQZ') + ''.join(s.pick('0579') for _ in range(3)),
    r'^(foo|bar baz)$': lambda s: s.pick(['foo', 'bar baz']),
    r'^x*$': lambda s: 'x' * s.n(6),
    r'^[^@ ]+@[a-z]+$': lambda s: s.pick(['a', 'J.D', 'é']) + '@' + s.pick(['b', 'host']),
    r'^(-?[0-9]+|n/a)$': lambda s: s.pick(['n/a', '0', '-12', '977']),
}
# patterns whose text is a trap for text formats (braces, quotes, slashes, keywords)
PATTERNS_TRICKY = {
    r'^a /b$': lambda s: 'a /b',
    r'^say "hi"$': lambda s: 'say "hi"',
    r'^\{[0-9]..[0-9]\}$': lambda s: '{1zz2}',
    r'^very unique set$': lambda s: 'very unique set',
    r'^https?://[a-z]+$': lambda s: s.pick(['http://a', 'https://bc']),
    r'^\(a,b\)$': lambda s: '(a,b)',
    r'^\w+ // \w+$': lambda s: 'a // b',
    r'^[a-z]\.\.[a-z]$': lambda s: 'a..b',
}

# patterns that name a variable of the configuration stand for its expression
VAR_RULES = {'$TypeName': '^[$A-Z][-$A-Za-z0-9]{0,63}$', '$FieldName': '^[$a-z][_$A-Za-z0-9]{0,63}$', '$NSID': '^([A-Za-z][A-Za-z0-9]{0,7})?$'}
VAR_OTHER = {'$TypeName': ['^[A-Z][-$A-Za-z0-9]{0,69}$', r'^(?:[$A-Z][-$A-Za-z0-9]*)$'], '$FieldName': ['^[$a-z][_$A-Za-z0-9]{0,29}$', r'^(?:[$a-z][$\w]*)$'], '$NSID': ['^[a-z][a-z0-9]{1,3}$', '^(ns[0-9]?|b2)$']}
VAR_TEXTS = ['Abc', 'A-1', 'abc', 'a_b', 'x', 'ns1', 'b2', '', '$Sys', 'A' * 64, 'camelCase', 'NS', 'ns2', 'with space', 'Z!']

DEF = dict(
    varpat=True,       # patterns that name a variable of the configuration
    n_types=(1, 6),
    anon=True,          # type options in fields
    mult=True,          # maxc != 1
    enum=True,          # derived enumerations
    pointer=True,
    mapofenum=True,
    link=True,
    tagid=True,
    combine=True,
    ids=True,           # '=' on Enumerated / Choice
    ids_map=True,       # '=' on Map
    formats=True,
    strfmt=('ipv4', 'ipv6', 'date', 'uri', 'email', 'hostname'),
    tricky=False,       # tricky patterns
    extend=True,        # X, o flags
    recursion=True,
    desc='none',        # none | plain | wild
    info='none',        # none | some
    dir=True,
    sizes=True,         # minv/maxv on compound types
    net=True,           # ipv4-net, ipv6-net, tag-uuid
    config=False,
    bases=None,         # restrict base types
    short=False,        # allow 4/3-column type definitions
    qualified=False,    # references to other packages
    mapof_keys=('String', 'Integer', 'Binary'),
    fieldid0=True,
    inflate=True,       # now and then far more fields, items or types than usual
)

DESC_PLAIN = ['', 'A short description', 'Second one; with punctuation.', 'x', 'the "quoted" word', "it's",
              'see RFC 2119', 'a, b and c', 'Record']
DESC_WILD_BITS = ['word', ' ', '"', '\\', '/', '//', ' // ', '::', ': ', '=', '{', '}', '[', ']', '[0..1]', '(', ')', '<b>',
                  '&amp;', '&', '>', '*', '|', '#', "'", 'é', '漢字', '😀', '...', ',', '1', 'optional', '-', '--', '<!--',
                  '%', '$', '\t', 'unique', '/uri', '~', '`', '_']


def desc(s: Src, f) -> str:
    if f['desc'] == 'none' or s.p(40):
        return ''
    if f['desc'] == 'plain' or s.p(40):
        return s.pick(DESC_PLAIN)
    t = ''.join(s.pick(DESC_WILD_BITS) for _ in range(s.int(1, 8)))
    return ' '.join(t.split()) if f.get('desc_trim', True) else t


def size_opts(s: Src, hi=6) -> list:
    """minv / maxv options for a size constraint (0 <= lo <= hi; a maximum of 0 is the default limit)"""
    if s.p(4):
        return s.pick([['}0'], ['{0', '}0'], ['{0']])
    lo = s.int(0, hi // 2) if s.p(60) else None
    mx = s.int(max(lo or 0, 1), hi) if s.p(60) else None
    if mx is not None and s.p(8):
        mx = s.pick([10, 12, 40, 300, 1000])
    return ([f'{{{lo}'] if lo is not None else []) + ([f'}}{mx}'] if mx is not None else [])


def prim_opts(s: Src, base: str, f) -> list:
    """Type options for a primitive type, possibly none"""
    k = s.n(10)
    if base == 'Boolean' or k < 3:
        return []
    if base == 'Binary':
        if f['formats'] and k >= 6:
            fm = s.pick(['x', 'X', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b'])
            o = [f'/{fm}']
            if fm == 'eui' and s.p(30):
                o += [s.pick(['{7', '}7', '{6', '}8'])]
            return o + (size_opts(s) if fm in ('x', 'X', 'b') and s.p(40) else [])
        return size_opts(s)
    if base == 'Integer':
        if f['formats'] and k >= 7:
            o = ['/' + s.pick(['i8', 'i16', 'i32', 'i64', 'datetime-ms'])]
            if not s.p(25):
                return o
            b = 10 ** 12 if o == ['/datetime-ms'] else s.pick([0, 10, 127, 1000, 2 ** 31])
        else:
            o, b = [], s.pick([0, 1, 10, 255, 1000, 2 ** 31, 2 ** 53, 10 ** 18])
        lo, hi = s.int(-b, b), s.int(-b, b)
        lo, hi = min(lo, hi), max(lo, hi)
        if o and not -128 <= lo <= hi <= 127 and s.p(70):       # keep room for values of the format
            lo, hi = min(lo, -1), max(hi, 1)
        if s.p(15):
            lo, hi = (0, max(hi, 0)) if s.p(60) else (min(lo, 0), 0)
        return o + ([f'{{{lo}'] if s.p(65) else []) + ([f'}}{hi}'] if s.p(65) else [])
    if base == 'Number':
        lo, hi = sorted((s.int(-800, 800) / 8, s.int(-800, 800) / 8))
        if s.p(25):
            lo, hi = s.pick([(0.0, abs(hi)), (-abs(lo) or 0.0, 0.0), (-1e-3, 2.5e10), (0.0, 0.0)])
        o = ([f'y{lo}'] if s.p(65) else []) + ([f'z{hi}'] if s.p(65) else [])
        if f['formats'] and k >= 8:
            o += ['/' + s.pick(['f16', 'f32', 'f64'])]
        return o
    if base == 'String':
        if k >= 8 and f['formats'] and f['strfmt']:
            o = ['/' + s.pick(f['strfmt'])]
            return o + (s.pick([['{1'], ['}40'], ['{2', '}25'], ['{9'], ['}9']]) if s.p(25) else [])
        if k >= 6:
            if f.get('varpat') and s.p(40):
                return ['%' + s.pick(list(VAR_RULES))]
            pats = list(PATTERNS) + (list(PATTERNS_TRICKY) if f['tricky'] else [])
            return ['%' + s.pick(pats)]
        return size_opts(s)
    raise AssertionError(base)


class _B:
    """One schema under construction"""
    def __init__(self, s: Src, f: dict):
        self.s, self.f = s, f
        n = s.int(*f['n_types'])
        off = s.n(3)
        self.names = [TYPE_NAMES[(i + off) % len(TYPE_NAMES)] for i in range(n)]
        if f.get('odd_names', True) and s.p(25):
            for i in range(n):
                x = s.pick(ODD_NAMES)
                if s.p(50) and x not in self.names:
                    self.names[i] = x
        bases = f['bases'] or ('Record', 'String', 'Integer', 'Map', 'Enumerated', 'Choice', 'ArrayOf', 'Array', 'MapOf',
                               'Number', 'Binary', 'Boolean', 'Record', 'Map', 'Choice', 'Record', 'ArrayOf')
        # leaves at the end so that references forward can always be satisfied
        self.base = []
        for i in range(n):
            b = s.pick(bases)
            if i == n - 1 and b in ('ArrayOf', 'MapOf') and f['bases'] is None and s.p(50):
                b = 'String'
            self.base.append(b)
        self.names = ['Type-Ref' if x == 'TypeRef' and b == 'String' else x for x, b in zip(self.names, self.base)]     # a plain String of that name is a placeholder
        self.keyed = set()      # indexes of types that have a key field
        self.defs = [None] * n
        for i in reversed(range(n)):
            self.defs[i] = self.typedef(i)

    # -- references
    def later(self, i):
        return list(range(i + 1, len(self.names)))

    def typeref(self, i, optional=False) -> str:
        """Name of a defined type usable from type i; '' if there is none"""
        c = self.later(i)
        if self.f['recursion'] and optional and self.s.p(25):
            c = list(range(0, i + 1)) + c
        if self.f['qualified'] and self.s.p(12):
            return 'ns1:' + self.s.pick(['Ext', 'Other-T'])
        return self.names[self.s.pick(c)] if c else ''

    def has_items(self, i):     # later types that can be enumerated, with at least one field
        return [j for j in self.later(i) if self.base[j] in COMPOUND + ('Enumerated',) and self.defs[j][4]
                and not any(o[0] == 'C' for o in self.defs[j][2])]

    def enumerable(self, i):
        return [j for j in self.has_items(i) if self.base[j] in COMPOUND or self.defs[j][4]]

    def pointable(self, i):
        return [j for j in self.has_items(i) if self.base[j] in COMPOUND and not self.bad_dir(j)]

    def bad_dir(self, j):
        """no pointer leaf would be listed, or a name would be listed twice"""
        leaves = self.leaves(j, '')
        return not leaves or len(set(leaves)) != len(leaves)

    def leaves(self, j, base):
        out = []
        for fd in self.defs[j][4]:
            if '<' in fd[3]:
                if fd[2] in self.names:
                    k = self.names.index(fd[2])
                    if self.base[k] in COMPOUND:
                        out += self.leaves(k, base + fd[1] + '/')
            else:
                out.append(base + fd[1])
        return out

    # -- definitions
    def typedef(self, i) -> list:
        s, f, b = self.s, self.f, self.base[i]
        opts, fields = [], []
        if b in PRIM:
            opts = prim_opts(s, b, f)
        elif b == 'Enumerated':
            opts, fields = self.enumerated(i)
        elif b == 'ArrayOf':
            opts = self.array_of(i)
        elif b == 'MapOf':
            opts = self.map_of(i)
        else:
            opts, fields = self.compound(i, b)
        if len(opts) > 1:
            opts = s.shuffle(opts)
        return [self.names[i], b, opts, desc(s, f), fields]

    def enumerated(self, i):
        s, f = self.s, self.f
        opts = []
        if f['ids'] and s.p(25):
            opts.append('=')
        if f['extend'] and s.p(10):
            opts.append('X')
        if s.p(30):
            if f['enum'] and (c := self.enumerable(i)) and s.p(60):
                return opts + ['#' + self.names[s.pick(c)]], []
            if f['pointer'] and (c := self.pointable(i)):
                return opts + ['>' + self.names[s.pick(c)]], []
        n = s.int(1, 5)
        names = s.shuffle(ITEM_NAMES)[:n]
        ids = self.idlist(n)
        return opts, [[ids[k], names[k], desc(s, f)] for k in range(n)]

    def idlist(self, n):
        s = self.s
        if s.p(50):
            return list(range(1, n + 1))
        ids, used = [], set()
        for _ in range(n):
            x = s.pick([1, 2, 3, 5, 8, 13, 40, 100, 1000, 7, 0 if self.f['fieldid0'] else 9, 12345, 1000000, 3000000000])
            while x in used:
                x += 1
            used.add(x)
            ids.append(x)
        return ids

    def vtype(self, i, optional=False):
        s, f = self.s, self.f
        if f['enum'] and s.p(10) and (c := self.enumerable(i)):
            return '#' + self.names[s.pick(c)]
        if f['pointer'] and s.p(6) and (c := self.pointable(i)):
            return '>' + self.names[s.pick(c)]
        if s.p(60) and (t := self.typeref(i, optional)):
            return t
        return s.pick(('String', 'Integer', 'Number', 'Boolean', 'Binary'))

    def array_of(self, i):
        s, f = self.s, self.f
        sz = size_opts(s)
        opt = not any(o[0] == '{' and o != '{0' for o in sz)
        opts = ['*' + self.vtype(i, opt)] + sz
        k = s.n(8)
        if k >= 4:
            opts.append({4: 'q', 5: 's', 6: 'b', 7: 'q'}[k])
        return opts

    def map_of(self, i):
        s, f = self.s, self.f
        kt = None
        if f['mapofenum'] and s.p(35):
            enums = [j for j in self.later(i) if self.base[j] == 'Enumerated' and not self.id_opt(j)]
            if enums and s.p(60):
                kt = self.names[s.pick(enums)]
            elif f['enum'] and (c := [j for j in self.enumerable(i)]):
                kt = '#' + self.names[s.pick(c)]
        if kt:
            return ['+' + kt, '*' + self.vtype(i)] + (['o'] if f['extend'] and s.p(15) else [])
        sz = size_opts(s)
        opt = not any(o[0] == '{' and o != '{0' for o in sz)
        keys = [j for j in self.later(i) if self.base[j] in f['mapof_keys']
                and not any(o == '/datetime-ms' for o in self.defs[j][2])]
        if keys and s.p(50):
            kt = self.names[s.pick(keys)]
        else:
            kt = s.pick([k for k in f['mapof_keys']])
        return ['+' + kt, '*' + self.vtype(i, opt)] + sz + (['o'] if f['extend'] and s.p(15) else [])

    def id_opt(self, j):
        return '=' in self.defs[j][2]

    def compound(self, i, b):
        s, f = self.s, self.f
        opts = []
        if b == 'Array' and f['net'] and f['formats'] and s.p(15):
            return self.net_array(i)
        n = s.int(1, 5) if s.p(95) else 0
        if b == 'Choice':
            n = max(n, 1)
            if f['combine'] and s.p(35):
                return self.union(i, max(n, 2))
            if f['ids'] and s.p(20):
                opts.append('=')
        if b == 'Map' and f['ids_map'] and s.p(20):
            opts.append('=')
        if f['extend'] and s.p(10):
            opts.append('X')
        if f['extend'] and b in ('Map', 'Record') and s.p(10):
            opts.append('o')
        names = s.shuffle(FIELD_NAMES)[:n]
        ids = list(range(1, n + 1)) if b in ('Array', 'Record') else self.idlist(n)
        fields = [self.field(i, b, ids[k], names[k]) for k in range(n)]
        if f['tagid'] and b in ('Array', 'Map', 'Record') and n >= 2 and s.p(30):
            self.add_tag(i, b, fields)
        if f['link'] and b in ('Map', 'Record') and n >= 1 and s.p(15) and not any('[' in o[0] or ']' in o[0] for o in fields[0][3]):
            k0 = fields[0]
            if not any(o[0] in '&<KL#>' for o in k0[3]) and k0[2] not in ('ArrayOf', 'MapOf', 'Enumerated', 'Boolean', 'Number') \
                    and (k0[2] in PRIM or (k0[2] in self.names and self.base[self.names.index(k0[2])] in ('String', 'Integer'))) \
                    and not any(t[0] == '&' and t[1:] == str(k0[0]) for x in fields for t in x[3]):
                k0[3].append('K')
                if s.p(20) and (c := self.linkable(i)) and not any(o[0] in '/%{}=XsqbC' for o in k0[3]):
                    k0[2] = self.names[s.pick(c)]       # the key is a link to another type
                    k0[3].append('L')
                self.keyed.add(i)
        if b != 'Choice' and f['sizes'] and n and s.p(20):
            req = sum(1 for x in fields if '[0' not in x[3])
            lo = s.int(0, n) if s.p(60) else None
            hi = s.int(max(req, lo or 0, 1), n + 1) if s.p(60) else None
            if not lo and s.p(6):
                hi = 0
            opts += ([f'{{{lo}'] if lo is not None else []) + ([f'}}{hi}'] if hi is not None else [])
        return opts, fields

    def union(self, i, n):
        """untagged union: alternatives are references or plain primitives"""
        s, f = self.s, self.f
        opts = ['C' + s.pick('OXA')]
        fields = []
        names = s.shuffle(FIELD_NAMES)[:n]
        for k in range(n):
            t = self.typeref(i) if s.p(60) else ''
            if t:
                fields.append([k + 1, names[k], t, [], desc(s, f)])
            else:
                b = s.pick(('String', 'Integer', 'Boolean', 'Number', 'String', 'Integer', 'Binary'))
                fields.append([k + 1, names[k], b, prim_opts(s, b, f) if f['anon'] else [], desc(s, f)])
        return opts, fields

    def net_array(self, i):
        s = self.s
        k = s.n(3)
        if k == 2 and self.f['anon']:
            return ['/tag-uuid'], [[1, 'tag', 'String', ['%^[a-z]+$'], ''], [2, 'uuid', 'Binary', ['/uuid'], '']]
        v = '6' if k == 1 else '4'
        z = s.pick([['{1'], ['{2'], ['{0', '}2'], ['}2'], ['}3'], ['{1', '}7']]) if self.f['sizes'] and s.p(15) else []
        a = ['/ipv' + v + '-addr'] if self.f['anon'] and s.p(30) else []
        return [f'/ipv{v}-net'] + z, [[1, 'addr', 'Binary', a, ''], [2, 'prefix', 'Integer', [], '']]

    def field(self, i, b, fid, name):
        s, f = self.s, self.f
        opts = []
        optional = b != 'Choice' and s.p(40)
        if optional:
            opts.append('[0')
        t = self.typeref(i, optional) if s.p(50) else ''
        defined = bool(t)
        if not t:
            k = s.n(12)
            if f['anon'] and k == 9:
                t, opts = 'ArrayOf', opts + self.array_of(i)
            elif f['anon'] and k == 10 and (m := self.map_of(i)):
                t, opts = 'MapOf', opts + m
            elif f['anon'] and k == 11 and f['enum'] and (c := self.enumerable(i)):
                t = 'Enumerated'
                opts += ['#' + self.names[s.pick(c)]] + (['='] if f['ids'] and s.p(25) else [])
            elif f['anon'] and k == 8 and f['pointer'] and (c := self.pointable(i)):
                t = 'Enumerated'
                opts += ['>' + self.names[s.pick(c)]] + (['='] if f['ids'] and s.p(20) else [])
            else:
                t = s.pick(('String', 'Integer', 'Binary', 'Boolean', 'Number', 'String', 'Integer'))
                opts += prim_opts(s, t, f) if f['anon'] and s.p(50) else []
        if defined and f['link'] and s.p(30) and (c := self.linkable(i)):
            t = self.names[s.pick(c)]
            opts.append('L')
        elif defined and f['link'] and t.startswith('ns1:') and s.p(30):
            opts.append('L')        # the key is not known here
        elif defined and f['dir'] and t in self.names[i + 1:] and self.base[self.names.index(t)] in COMPOUND \
                and b in ('Map', 'Record') and s.p(15):
            opts.append('<')
        if f['mult'] and '<' not in opts and s.p(20) and self.can_mult(t, opts):
            if '[0' in opts:
                mn = 0
            else:
                mn = s.int(1, 3)
                if mn != 1:
                    opts.append(f'[{mn}')
            mx = s.pick([0, max(mn, 1) + s.n(3), max(mn, 2), 0, max(mn, 1) + s.n(3), s.pick([10, 12, 25, 100])])
            if mx == 1:
                mx = 2
            opts.append(f']{mx}')
            if s.p(25):
                opts.append('q')
        elif s.p(4):                # one value, said explicitly
            opts += s.pick([['[1'], [']1'], ['[1', ']1']]) if '[0' not in opts else [']1']
        if len(opts) > 1:
            opts = s.shuffle(opts)
        return [fid, name, t, opts, desc(s, f)]

    def can_mult(self, t, opts):
        # a second layer of 'unique' or of sizes would be ambiguous on an anonymous container
        return t not in ('ArrayOf', 'MapOf') and (self.f.get('mult_anon', True) or not any(o[0] not in '[]<KL' for o in opts))

    def linkable(self, i):
        """types with a primary key: a key field, or MapOf (its ktype)"""
        return [j for j in self.later(i) if j in self.keyed or self.base[j] == 'MapOf']

    def add_tag(self, i, b, fields):
        """make fields[j] a Choice selected by fields[k] = Enumerated(Enum[that choice])"""
        s = self.s
        ch = [j for j in self.later(i) if self.base[j] == 'Choice' and not any(o[0] in 'C=' for o in self.defs[j][2])]
        if not ch:
            return
        c = self.names[s.pick(ch)]
        if not self.f['anon'] or not self.f['enum']:
            return
        k, j = (0, 1) if s.p(70) else (1, 0)
        fields[k][2:4] = ['Enumerated', ['#' + c]]
        fields[j][2:4] = [c, [f'&{fields[k][0]}']]
        if s.p(40):
            fields[k][3].append('[0')
            fields[j][3].append('[0')


URIS = ['http://example.com/a/v1', 'https://oasis-open.org/x', 'urn:x-test:1', 'http://a.b/']


def info_of(s: Src, f, names) -> dict:
    inf = {'package': s.pick(URIS)}
    for k in ('version', 'title', 'description', 'comment', 'copyright', 'license'):
        if s.p(35):
            inf[k] = s.pick(['1.0', 'Some text', 'with "quotes" // and slashes', 'uni é漢', 'x: y', "it's a [list]"])
    if s.p(30) or f['qualified']:
        inf['namespaces'] = s.pick([{'ns1': 'http://example.com/ns1'}, {'ns1': 'urn:a', 'b2': 'urn:b'}]) if s.p(50) else \
            [['ns1', 'http://example.com/ns1']]
    if s.p(35):
        inf['exports'] = s.some(names, 50) or names[:1]
    if s.p(35):
        inf['roots'] = s.some(names, 50) or names[:1]
    if f['config'] and s.p(40):
        cfg = {}
        if s.p(50):
            cfg['$MaxString'] = s.pick([1000, 2048, 300])
        if s.p(40):
            cfg['$MaxElements'] = s.pick([100, 200, 500])
        if s.p(30):
            cfg['$MaxBinary'] = s.pick([1, 16, 512])
        if f['varpat']:
            cfg.update({k: s.pick(v) for k, v in VAR_OTHER.items() if s.p(40)})
        if cfg:
            inf['config'] = cfg
    return inf


def links(s, f, types):
    """types with keys, keys that are links themselves, and links to them"""
    def compound(name, fields, of=('Record', 'Map')):
        b = s.pick(of)
        ids = [1, 2, 3, 4] if b in ('Record', 'Array') else s.pick([[1, 2, 3, 4], [7, 3, 40, 12], [4, 3, 2, 1]])
        return [name, b, ['='] if b == 'Map' and f['ids_map'] and s.p(20) else [], desc(s, f), [[ids[i], n, t, s.shuffle(o), desc(s, f)] for i, (n, t, o) in enumerate(fields)]]
    k = s.pick(['String', 'Integer', 'Binary', 'String'])
    o = prim_opts(s, k, f) if s.p(40) else []
    new = []
    if s.p(40):
        new.append(['Key-T', k, o, desc(s, f), []])
        k, o = 'Key-T', []
    elif not f['anon']:
        o = []
    extra = [('n', 'String', ['[0'])]
    key = [('k', k, ['K'] + o)]
    new.append(compound('Person', extra + key if s.p(30) else key + extra))
    chain = ['Person']
    for x in ('Org-1', 'Seat', 'Ticket')[:s.pick([1, 1, 1, 2, 3, 0])]:
        key = [('who', chain[-1], ['K', 'L'])]
        new.append(compound(x, extra + key if s.p(30) else key + extra if s.p(60) else key))
        chain.append(x)
    if s.p(40):
        new.append(['Reg', 'MapOf', ['+' + s.pick(['String', 'Integer'] + ['Key-T'] * (new[0][0] == 'Key-T' and new[0][1] in f['mapof_keys'] and '/datetime-ms' not in new[0][2])), '*Integer'], desc(s, f), []])
        chain.append('Reg')
    fields = []
    for i in range(s.int(1, 3)):
        m = s.pick([[], [], ['[0'], [']0'], ['[0', ']3'], [']2', 'q'], ['[2', ']0']]) if f['mult'] else s.pick([[], ['[0']])
        t = chain[-1 - i] if i < len(chain) else s.pick(chain)
        fields.append((f'l{i}', t, ['L'] + m))
    if s.p(40):
        fields.append(('p', s.pick([c for c in chain if c != 'Reg']), s.pick([[], ['[0']])))     # contained, not linked
    new.append(compound('Visit', fields, ('Record', 'Map', 'Record', 'Array') if any('[0' in x[2] for x in fields) or s.p(60) else ('Choice', 'Array')))
    if new[-1][1] == 'Choice':
        for x in new[-1][4]:
            x[3] = [y for y in x[3] if y != '[0']
            if ']3' in x[3]:
                x[3] = ['L', ']3']
    types[:] = s.shuffle(types + new) if s.p(50) else new + types


def enums(s, f, types):
    """a type and enumerations, pointers, keys and tags derived from it"""
    b = s.pick(['Record', 'Choice', 'Map', 'Enumerated', 'Array', 'Choice'])
    opts = ['='] if b in ('Choice', 'Enumerated') and f['ids'] and s.p(40) or b == 'Map' and f['ids_map'] and s.p(40) else []
    n = s.int(1, 4)
    ids = list(range(1, n + 1)) if b in ('Record', 'Array') else s.pick([[1, 2, 3, 4], [7, 3, 40, 12], [4, 3, 2, 1], [10, 2, 30, 1]])
    names = s.shuffle(FIELD_NAMES[:10])
    new, fields = [], []
    if b == 'Enumerated':
        fields = [[ids[i], s.pick([names[i], ITEM_NAMES[i]]), desc(s, f)] for i in range(n)]
    else:
        for i in range(n):
            t, o = s.pick([('String', []), ('Integer', []), ('Boolean', [])])
            if f['dir'] and f['pointer'] and b in ('Map', 'Record') and s.p(30):
                t, o = 'Inner', ['<']
            if b != 'Choice' and s.p(40):
                o = o + ['[0']
            fields.append([ids[i], names[i], t, o, desc(s, f)])
    src = ['Source', b, opts, desc(s, f), fields]
    inner = any(x[2] == 'Inner' for x in fields if b != 'Enumerated')
    if inner:
        k = s.pick(['Record', 'Map', 'Array', 'Choice', 'Record'])
        o = ['='] if k == 'Choice' and f['ids'] and s.p(20) or k == 'Map' and f['ids_map'] and s.p(20) else []
        inn = [[1, 'a', 'Integer', [] if k == 'Choice' or s.p(60) else ['[0'], ''], [2, 'in', 'String', [] if k == 'Choice' or s.p(60) else ['[0'], '']]
        if k in ('Record', 'Map') and s.p(30):
            inn[1][2:4] = ['Inmost', ['<'] + inn[1][3]]
            new.append(['Inmost', s.pick(['Record', 'Map']), [], '', [[1, 'z', 'Boolean', ['[0'], '']]])
        new.append(['Inner', k, o, desc(s, f), inn])
    how = ['#Source'] + (['>Source'] if f['pointer'] and b != 'Enumerated' else [])
    ident = lambda pct: ['='] if f['ids'] and s.p(pct) else []
    plain = []                  # enumerations that may be keys
    for nm, d in (('Enum-D', how[0]), ('Ptr-D', how[-1])):
        if s.p(60):
            i = ident(35)
            new.append([nm, 'Enumerated', s.shuffle([d] + i), desc(s, f), []])
            if not i:
                plain.append(nm)
    anyway = how + plain if f['anon'] else plain or how
    if f['mapofenum'] and s.p(60):
        new.append(['ByEnum', 'MapOf', s.shuffle(['+' + s.pick(how[:1] + plain), '*' + s.pick(['Integer', 'String'] + anyway)]), desc(s, f), []])
    if s.p(60):
        z = size_opts(s)
        new.append(['List-D', 'ArrayOf', s.shuffle(['*' + s.pick(how + plain)] + z + s.pick([[], [], ['q'], ['s'], ['b']])), desc(s, f), []])
    top = []
    for i in range(s.int(1, 3)):
        k = s.n(4)
        o = ['[0'] if s.p(40) else []
        if k == 0 and f['anon']:
            top.append(['Enumerated', [s.pick(how)] + ident(30) + o])
        elif k == 1 and f['anon']:
            top.append(['ArrayOf', ['*' + s.pick(how)] + o])
        elif k == 2 and f['anon'] and f['mapofenum']:
            top.append(['MapOf', ['+' + how[0], '*' + s.pick(['Integer'] + how)] + o])
        else:
            top.append([s.pick(plain + ['Source']), o + ([']' + s.pick('023')] if f['mult'] and s.p(25) else [])])
    fl = [[i + 1, f'h{i}', t, s.shuffle(o), desc(s, f)] for i, (t, o) in enumerate(top)]
    if f['tagid'] and f['anon'] and b == 'Choice' and '=' not in opts and s.p(60):
        m, o = len(fl) + 1, ['[0'] if s.p(40) else []
        two = [[m, 'tag', 'Enumerated', ['#Source'] + o, ''], [m + 1, 'val', 'Source', [f'&{m}'] + o, '']]
        if s.p(30):
            two = [[m, 'val', 'Source', [f'&{m + 1}'] + o, ''], [m + 1, 'tag', 'Enumerated', ['#Source'] + o, '']]
        fl += two
    new.append(['Holder', s.pick(['Record', 'Map', 'Array']), [], desc(s, f), fl])
    new.append(src)
    types[:] = s.shuffle(types + new) if s.p(50) else new + types


def inflate(s, f, types):
    """many fields, items, types or words: sizes with more digits, and long chains of references"""
    k = s.n(8)
    n = s.int(8, 24)
    if k < 3:
        c = [t for t in types if t[1] in COMPOUND and t[4] and not any(o[0] in 'C/' for o in t[2])]
        if c:
            t = s.pick(c)
            old = [x for x in t[4] if not any(o[0] in 'K&' for o in x[3])]
            fid = max(x[0] for x in t[4])
            for i in range(n):
                fid += 1 if t[1] in ('Array', 'Record') or s.p(80) else s.pick([2, 10, 91])
                base = s.pick(old)[2:4] if old and s.p(40) else [s.pick(['String', 'Integer', 'Boolean']), []]
                o = list(base[1])
                if t[1] != 'Choice' and '[0' not in o and not any(x[0] in '[]' for x in o) and (s.p(60) or any(x[0] in '{}' for x in t[2])):
                    o.append('[0')
                if any(x[0] == '}' and x != '}0' for x in t[2]) and '[0' not in o and t[1] != 'Choice':
                    base, o = ['String', []], ['[0']
                t[4].append([fid, f'w{10 + i}', base[0], o, desc(s, f)])
            return
    if k < 4:
        c = [t for t in types if t[1] == 'Enumerated' and t[4]]
        if c:
            t = s.pick(c)
            fid = max(x[0] for x in t[4])
            for i in range(n):
                fid += 1 if s.p(80) else s.pick([2, 10, 91])
                t[4].append([fid, f'e{10 + i}', desc(s, f)])
            return
    if k < 7 and f['bases'] is None:
        chain = s.p(50)
        new = []
        for i in range(n + s.pick([0, 0, 10, 90])):
            nxt = f'Zz{i + 1}'
            if not chain:
                new.append([f'Zz{i}', s.pick(['String', 'Integer', 'Boolean']), [], desc(s, f), []])
            elif s.p(70):
                new.append([f'Zz{i}', 'Record', [], desc(s, f), [[1, 'a', nxt, ['[0'], '']]])
            else:
                new.append([f'Zz{i}', 'ArrayOf', ['*' + nxt], desc(s, f), []])
        if chain:
            new.append([f'Zz{len(new)}', 'String', [], '', []])
        types[:] = types + new if s.p(40) else new + types if s.p(40) else s.shuffle(types + new)
        return
    if f['desc'] != 'none':
        t = s.pick(types)
        x = s.pick([t] + t[4])
        x[3 if x is t else -1] = ' '.join(s.pick(['word', 'a', 'longer-word', 'of', 'x' * 40, '(see)', 'RFC', '[1]']) for _ in range(60))[:s.pick([79, 80, 81, 100, 120, 128, 200, 250])].strip()


def schema(s: Src, **features) -> dict:
    f = {**DEF, **features}
    b = _B(s, f)
    types = s.shuffle(b.defs) if s.p(50) else list(b.defs)
    if f['inflate'] and s.p(8):
        inflate(s, f, types)
    if f['link'] and f['bases'] is None and s.p(7):
        links(s, f, types)
    if f['enum'] and f['bases'] is None and s.p(8):
        enums(s, f, types)
    sc = {}
    if f['info'] == 'always' or (f['info'] == 'some' and s.p(70)):
        sc['info'] = info_of(s, f, b.names)
    sc['types'] = types
    if f['short']:
        for t in types:
            if not t[4] and s.p(40):
                t.pop()
                if not t[3] and s.p(40):
                    t.pop()
                    if not t[2] and s.p(40):
                        t.pop()
    return sc
