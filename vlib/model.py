"""
Reference semantics of a JADN schema (independent of the code under test).

Interprets a schema as written, extensions included: multiplicity, anonymous types, derived enumerations and pointers,
MapOf with enumerated keys, key/link.  encode()/decode() are total: they return OK(value), BAD(reason) or UNSPEC (the
specification leaves it open, so a check must not judge the outcome).
"""
import ipaddress
import re

from . import fmt
from . import fmt as nets      # (methods below have a parameter named fmt)
from . import gen

PRIM, COMPOUND = gen.PRIM, gen.COMPOUND
OPT_NAMES = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'y': 'minf',
             'z': 'maxf', '{': 'minv', '}': 'maxv', 'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence',
             'C': 'combine', 'X': 'extend', '!': 'default', '[': 'minc', ']': 'maxc', '&': 'tagid', '<': 'dir', 'K': 'key',
             'L': 'link'}
FLAG = {'id', 'unique', 'set', 'unordered', 'sequence', 'extend', 'dir', 'key', 'link'}
INTV = {'minv', 'maxv', 'minc', 'maxc', 'tagid'}
FIELD_OPTS = {'minc', 'maxc', 'tagid', 'dir', 'key', 'link'}


def opts(olist) -> dict:
    d = {}
    for o in olist:
        k = OPT_NAMES[o[0]]
        d[k] = True if k in FLAG else int(o[1:]) if k in INTV else float(o[1:]) if k in ('minf', 'maxf') else o[1:]
    return d


class OK:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'OK({self.v!r})'


class BAD:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f'BAD({self.why})'


class _Unspec:
    def __repr__(self):
        return 'UNSPEC'


UNSPEC = _Unspec()


class NoValue(Exception):
    pass


class TE:
    """A type expression: base type, options, fields/items"""
    __slots__ = ('base', 'o', 'fields', 'name', 'plain', 'inner')

    def __init__(self, base, o, fields=(), name='', plain=False, inner=None):
        self.base, self.o, self.fields, self.name, self.plain = base, o, fields, name, plain
        self.inner = inner          # element TE of a multiplicity array


def same(a, b) -> bool:
    """equal in type and value, all the way down"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items()) \
            and sorted(map(lambda k: type(k).__name__, a)) == sorted(map(lambda k: type(k).__name__, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def loosely(v):
    """equal for values that differ only in the order of lists"""
    if isinstance(v, list):
        return ('l',) + tuple(sorted(map(repr, map(loosely, v))))
    if isinstance(v, dict):
        return ('d',) + tuple(sorted(repr((k, loosely(x))) for k, x in v.items()))
    return v


def combine_parts(parts):
    """parts of a container: BAD if any part is bad, else UNSPEC if any is, else the values"""
    un = False
    out = []
    for p in parts:
        if isinstance(p, BAD):
            return p
        if p is UNSPEC:
            un = True
        else:
            out.append(p.v)
    return UNSPEC if un else OK(out)


# ---------------------------------------------------------------- formats
INT_FORMATS = {'i8': 2 ** 7, 'i16': 2 ** 15, 'i32': 2 ** 31, 'i64': 2 ** 63}
STR_SAMPLES = {
    'ipv4': (['127.0.0.1', '0.0.0.0', '255.255.255.255', '10.1.2.3'], ['', '1.2.3', '256.1.1.1', '1.2.3.4.5', 'a.b.c.d', '1.2.3.4/8']),
    'ipv6': (['::', '::1', '2001:db8::1', 'fe80::1:2:3', '1:2:3:4:5:6:7:8'], ['', ':', '1::2::3', '12345::', 'g::', '1:2:3:4:5:6:7:8:9']),
    'date': (['2020-02-29', '1999-12-31', '2024-01-01'], ['', '2021-02-29', '2020-13-01', '2020-1-1', 'today', '2020-02-30']),
    'uri': (['http://example.com/', 'urn:a:b', 'https://a.b/c?d=e#f', 'mailto:a@b.c'], ['', 'no scheme', '/relative', '://x', 'http://a b']),
    'email': (['a@b.c', 'john.doe@example.com', 'x+y@sub.host.org', 'a1@b2.net'], ['', 'a', '@b.c', 'a@', 'a@b', 'a b@c.d', 'a@b.c junk',
              'a@@b.c', 'a@b.c\n']),
    'hostname': (['example.com', 'a', 'host-1.example.org', 'EXAMPLE.com', 'a.b.c.d.e', 'x.com.'],
                 ['', '-a.com', 'a-.com', 'a..b', 'a_b.com', 'a b', 'x' * 64 + '.com', ('abcdefgh.' * 30) + 'com', '.', 'a.com\n']),
}


def fmt_string(f, v):
    """True / False / None (unknown)"""
    return fmt.STRING[f](v)


def b2wire(f, b: bytes):
    t = fmt.BINARY[f or 'b'][1](b)
    return BAD(f'{f} length') if t is False else UNSPEC if t is None else OK(t)


def wire2b(f, w):
    if not isinstance(w, str):
        return BAD('not a string')
    b = fmt.BINARY[f or 'b'][0](w)
    return BAD(f'{f} text') if b is False else UNSPEC if b is None else OK(b)


def ms2text(n):
    t = fmt.ms_dt(n)
    return OK(t) if t else BAD('year out of range')


def text2ms(w):
    if not isinstance(w, str):
        return BAD('not a string')
    n = fmt.dt_ms(w)
    return BAD('not a date-time') if n is False else UNSPEC if n is None else OK(n)


# ---------------------------------------------------------------- model
def is_int(k):
    try:
        int(k)
    except ValueError:
        return False
    return True


class Model:
    def __init__(self, schema: dict, limits_from: dict = None):
        self.schema = schema
        self.types = {t[0]: list(t) + [[], '', []][len(t) - 2:] for t in schema['types']}
        cfg = (schema.get('info') or {}).get('config', {})
        self.rules = {**gen.VAR_RULES, **{k: v for k, v in cfg.items() if k in gen.VAR_RULES}}
        self.max_bin = cfg.get('$MaxBinary', 255)
        self.max_str = cfg.get('$MaxString', 255)
        self.max_el = cfg.get('$MaxElements', 100)
        self._te, self._f = {}, {}
        self.any_set = any(o in ('s', 'b') for t in self.types.values() for x in [t[2]] + [f[3] for f in t[4] if len(f) > 3] for o in x)

    # -- type expressions
    def te(self, name) -> TE:
        if name not in self._te:
            if name in PRIM:
                t = TE(name, {}, name=name, plain=True)
            elif name[0] in '#>':
                t = TE('Enumerated', {}, self.derived(name), name)
            else:
                td = self.types[name]
                t = self.build(td[1], opts(td[2]), td[4], name)
            self._te[name] = t
        return self._te[name]

    def build(self, base, o, fields, name) -> TE:
        if base == 'Enumerated':
            d = '#' + o['enum'] if 'enum' in o else '>' + o['pointer'] if 'pointer' in o else None
            return TE(base, o, self.derived(d) if d else [(f[0], f[1]) for f in fields], name)
        if base == 'MapOf' and self.is_enum(o['ktype']):    # every listed key is a required field
            items = self.te(o['ktype']).fields
            return TE('Map', {k: v for k, v in o.items() if k in ('minv', 'maxv')},
                      [[i, n, o['vtype'], [], ''] for i, n in items], name)
        return TE(base, o, fields, name)

    def is_enum(self, t):
        return t[0] in '#>' or (t in self.types and self.types[t][1] == 'Enumerated')

    def derived(self, ref):
        tn = ref[1:]
        td = self.types[tn]
        if ref[0] == '#':
            if td[1] == 'Enumerated':
                return self.te(tn).fields
            if td[1] == 'MapOf' and self.is_enum(opts(td[2])['ktype']):
                return [(f[0], f[1]) for f in self.te(tn).fields]
            return [(f[0], f[1]) for f in td[4]]
        return [(k, n) for k, n in enumerate(self.paths(td, ''), 1)]

    def paths(self, td, base):
        for f in td[4]:
            if '<' in f[3]:
                if f[2] in self.types and self.types[f[2]][1] in COMPOUND:
                    yield from self.paths(self.types[f[2]], f'{base}{f[1]}/')
            else:
                yield base + f[1]

    def link_target(self, tn):
        td = self.types[tn]
        if td[1] == 'MapOf':
            return self.te(opts(td[2])['ktype'])
        for f in td[4]:
            if 'K' in f[3]:
                return self.element_te(td, f)
        raise KeyError(tn)

    def element_te(self, td, f) -> TE:
        """type of one value of a field, multiplicity aside"""
        key = (td[0], f[0], 'e')
        if key not in self._f:
            o = opts(f[3])
            to = {k: v for k, v in o.items() if k not in FIELD_OPTS}
            if 'maxc' in o and o['maxc'] != 1:
                to.pop('unique', None)
            if 'link' in o:
                t = self.link_target(f[2])
            elif f[2] in gen.CORE and (to or f[2] not in PRIM):
                t = self.build(f[2], to, [], f'{td[0]}.{f[1]}')
            else:
                t = self.te(f[2])
            self._f[key] = t
        return self._f[key]

    def field_te(self, td, f) -> TE:
        key = (td[0], f[0])
        if key not in self._f:
            o = opts(f[3])
            t = self.element_te(td, f)
            if o.get('maxc', 1) != 1:
                ao = {'minv': max(o.get('minc', 1), 1)}
                if o['maxc'] > 0:
                    ao['maxv'] = o['maxc']
                if 'unique' in o:
                    ao['unique'] = True
                t = TE('ArrayOf', ao, (), f'{td[0]}.{f[1]}[]', inner=t)
            self._f[key] = t
        return self._f[key]

    def elem(self, te):
        return te.inner or self.te(te.o['vtype'])

    def td_of(self, te):
        return self.types.get(te.name) or [te.name, te.base, [], '', te.fields]

    def fields(self, te):
        """[(id, name, te, required, tagid, field)]"""
        td = self.td_of(te)
        if td[1] == 'MapOf':        # expanded MapOf
            return [(f[0], f[1], self.te(f[2]), True, None, f) for f in te.fields]
        out = []
        for f in te.fields:
            o = opts(f[3])
            out.append((f[0], f[1], self.field_te(td, f), o.get('minc', 1) > 0, o.get('tagid'), f))
        return out

    # -- sizes
    def size(self, te, n, what):
        o = te.o
        lo = o.get('minv', 0)
        hi = o.get('maxv', 0) or {'Binary': self.max_bin, 'String': self.max_str}.get(te.base, self.max_el)
        if te.plain:
            return None if n <= hi else UNSPEC
        if n < lo or n > hi:
            return BAD(f'{what} {n} not in {lo}..{hi}')
        return None

    def key_repr(self, te, vs):
        """identifiers on the wire: names, or ids"""
        return 'name' if vs and 'id' not in te.o and te.base != 'Array' else 'id'

    # -- encode: API value -> message
    def encode(self, te: TE, v, vr: bool, vs: bool, depth=0):
        if depth > 60:
            return UNSPEC
        e = lambda t, x: self.encode(t, x, vr, vs, depth + 1)
        b, o = te.base, te.o
        if b == 'Binary':
            if not isinstance(v, bytes):
                return BAD('not bytes')
            w = b2wire(o.get('format'), v)
            sz = self.size(te, len(v), 'octets')
            return sz if sz and not isinstance(w, BAD) else w
        if b == 'Boolean':
            return OK(v) if isinstance(v, bool) else BAD('not a boolean')
        if b == 'Integer':
            r = self.integer(te, v)
            if r is None and o.get('format') == 'datetime-ms':
                return ms2text(v)
            return r or OK(v)
        if b == 'Number':
            return self.number(te, v) or OK(v)
        if b == 'String':
            return self.string(te, v) or OK(v)
        if b == 'Enumerated':
            api = 0 if 'id' in o else 1
            k = 0 if self.key_repr(te, vs) == 'id' else 1
            if type(v) is not (int if api == 0 else str):
                return BAD('wrong type for enumerated')
            for it in te.fields:
                if it[api] == v:
                    return OK(it[k])
            return BAD('not an item')
        if b == 'Choice':
            if 'combine' in o:
                return self.union(te, v, e)
            if not isinstance(v, dict):
                return BAD('choice is not a dict')
            if len(v) != 1:
                return BAD('choice has not one member')
            (k, x), = v.items()
            if type(k) not in (int, str):
                return UNSPEC
            for fid, fn, ft, req, tag, f in self.fields(te):
                if (fid if 'id' in o else fn) == k:
                    r = e(ft, x)
                    return OK({(fid if self.key_repr(te, vs) == 'id' else fn): r.v}) if isinstance(r, OK) else r
            return BAD('unknown choice')
        if b == 'ArrayOf':
            return self.array_of(te, v, e, True)
        if b == 'MapOf':
            if not isinstance(v, dict):
                return BAD('not a dict')
            if s := self.size(te, len(v), 'elements'):
                return s
            r = combine_parts([e(self.te(o['ktype']), k) for k in v] + [e(self.te(o['vtype']), x) for x in v.values()])
            if not isinstance(r, OK):
                return r
            n = len(v)
            return OK(dict(zip(r.v[:n], r.v[n:])))
        if b in ('Map', 'Record'):
            if not isinstance(v, dict):
                return BAD('not a dict')
            fl = self.fields(te)
            if set(v) - {f[1] for f in fl}:
                return BAD('unknown field')
            if any(x is None for x in v.values()):
                return UNSPEC
            if s := self.size(te, len(v), 'elements'):
                return s
            parts = []
            for fid, fn, ft, req, tag, f in fl:
                if fn not in v:
                    if req:
                        return BAD(f'missing {fn}')
                    continue
                if tag is not None:
                    tn = next(x[1] for x in fl if x[0] == tag)
                    if tn not in v:
                        return BAD('tag missing')
                    if type(v[tn]) is not str:
                        return BAD('tag type')
                    r = e(ft, {v[tn]: v[fn]})
                    parts.append(OK(next(iter(r.v.values()))) if isinstance(r, OK) else r)
                else:
                    parts.append(e(ft, v[fn]))
            r = combine_parts(parts)
            if not isinstance(r, OK):
                return r
            vals = dict(zip([f[1] for f in fl if f[1] in v], r.v))
            if b == 'Record' and not vr:
                out = [vals.get(f[1]) for f in fl]
                while out and out[-1] is None:
                    out.pop()
                return OK(out)
            k = 0 if self.key_repr(te, vs) == 'id' else 1
            return OK({f[k]: vals[f[1]] for f in fl if f[1] in vals})
        if b == 'Array':
            return self.array(te, v, e, encode=True)
        raise AssertionError(b)

    def integer(self, te, v):
        o = te.o
        if not isinstance(v, int) or isinstance(v, bool):
            return BAD('not an integer')
        if 'minv' in o and v < o['minv'] or 'maxv' in o and v > o['maxv']:
            return BAD('date-time out of range' if o.get('format') == 'datetime-ms' else 'integer out of range')
        if (f := o.get('format')) in INT_FORMATS and not -INT_FORMATS[f] <= v < INT_FORMATS[f]:
            return BAD('integer does not fit ' + f)
        return None

    def number(self, te, v):
        o = te.o
        if not isinstance(v, (int, float)) or isinstance(v, bool):
            return BAD('not a number')
        if v != v or v in (float('inf'), float('-inf')):
            return UNSPEC
        if 'minf' in o and v < o['minf'] or 'maxf' in o and v > o['maxf']:
            return BAD('number out of range')
        return None

    def string(self, te, v):
        o = te.o
        if not isinstance(v, str):
            return BAD('not a string')
        if s := self.size(te, len(v), 'characters'):
            return s
        if p := o.get('pattern'):
            m = bool(re.match(self.rules.get(p, p), v))
            if not m:
                return BAD('pattern')
            if '\n' in v:
                return UNSPEC
        if f := o.get('format'):
            r = fmt_string(f, v)
            return None if r else UNSPEC if r is None else BAD(f)
        return None

    def union(self, te, v, e):
        rs = [e(ft, v) for _, _, ft, _, _, _ in self.fields(te)]
        return self.union_result(te.o['combine'], rs)

    @staticmethod
    def union_result(c, rs):
        good = [r for r in rs if isinstance(r, OK)]
        bad = [r for r in rs if isinstance(r, BAD)]
        un = [r for r in rs if r is UNSPEC]
        if c == 'A':
            if bad:
                return BAD('allOf')
            if un or not all(same(g.v, good[0].v) for g in good):
                return UNSPEC
            return good[0]
        if c == 'O':        # the first alternative that fits
            for r in rs:
                if not isinstance(r, BAD):
                    return r
            return BAD('anyOf')
        if len(good) > 1:
            return BAD('oneOf: several')
        if un:
            return UNSPEC
        return good[0] if good else BAD('oneOf: none')

    def array_of(self, te, v, e, encode):
        if not isinstance(v, list):
            return BAD('not a list')
        if s := self.size(te, len(v), 'elements'):
            return s
        r = combine_parts([e(self.elem(te), x) for x in v])
        if isinstance(r, BAD) or not (te.o.get('unique') or te.o.get('set')):
            return r
        vals = v if encode else r.v if isinstance(r, OK) else []
        un = False
        for i in range(len(vals)):
            for j in range(i):
                if same(vals[i], vals[j]):
                    return BAD('duplicate element')
                if vals[i] == vals[j] or self.any_set and loosely(vals[i]) == loosely(vals[j]):
                    un = True
        return UNSPEC if un else r

    def array(self, te, v, e, encode):
        o = te.o
        fmt = o.get('format')
        if fmt:
            return self.net_encode(fmt, v) if encode else self.net_decode(fmt, v)
        if not isinstance(v, list):
            return BAD('not a list')
        fl = self.fields(te)
        n = sum(x is not None for x in v)
        lo, hi = o.get('minv', 0), o.get('maxv', 0) or self.max_el
        if not lo <= n <= hi:
            return BAD('array element count')
        if len(v) > len(fl):
            return BAD('too many elements')
        parts, idx = [], []
        for k, (fid, fn, ft, req, tag, f) in enumerate(fl):
            x = v[k] if k < len(v) else None
            if x is None:
                if req:
                    return BAD(f'missing {fn}')
                continue
            if tag is not None:
                t = v[tag - 1] if tag - 1 < len(v) else None
                if t is None:
                    return BAD('tag missing')
                if type(t) not in (str, int):
                    return BAD('tag type')
                r = e(ft, {t: x})
                parts.append(OK(next(iter(r.v.values()))) if isinstance(r, OK) else r)
            else:
                parts.append(e(ft, x))
            idx.append(k)
        r = combine_parts(parts)
        if not isinstance(r, OK):
            return r
        out = [None] * len(fl)
        for k, x in zip(idx, r.v):
            out[k] = x
        while out and out[-1] is None:
            out.pop()
        return OK(out)

    def net_encode(self, fmt, v):
        if not isinstance(v, list) or len(v) != 2:
            return BAD('not a 2-list')
        if fmt == 'tag-uuid':
            if not (isinstance(v[0], str) and isinstance(v[1], bytes) and len(v[1]) == 16):
                return BAD('tag-uuid parts')
            u = b2wire('uuid', v[1])
            if not re.fullmatch('[a-z]+', v[0]):
                return BAD('tag') if not re.match('^[a-z]+$', v[0]) else UNSPEC
            if len(v[0]) > min(self.max_str, 255):       # limit of the tag's own type
                return UNSPEC
            return OK(v[0] + '-' + u.v) if isinstance(u, OK) else u
        n = 4 if fmt == 'ipv4-net' else 16
        if not isinstance(v[0], bytes) or len(v[0]) != n or type(v[1]) is not int or not 0 <= v[1] <= n * 8:
            return BAD('net parts') if not isinstance(v[1], bool) else UNSPEC
        a = nets.v4text(v[0]) if n == 4 else nets.v6text(v[0])
        return OK(a if v[1] == n * 8 else f'{a}/{v[1]}')

    def net_decode(self, fmt, w):
        if not isinstance(w, str):
            return BAD('not a string')
        if fmt == 'tag-uuid':
            m = re.fullmatch(r'([a-z]+)-(.*)', w, re.S)
            if not m:
                return UNSPEC if '\n' in w else BAD('tag-uuid')
            u = wire2b('uuid', m.group(2))
            if len(m.group(1)) > min(self.max_str, 255):
                return UNSPEC
            return OK([m.group(1), u.v]) if isinstance(u, OK) else u
        r = nets.net(int(fmt[3]), w)
        return BAD('network text') if r is False else UNSPEC if r is None else OK(r)

    # -- decode: message -> API value
    def decode(self, te: TE, w, vr: bool, vs: bool, depth=0):
        if depth > 60:
            return UNSPEC
        d = lambda t, x: self.decode(t, x, vr, vs, depth + 1)
        b, o = te.base, te.o
        if b == 'Binary':
            r = wire2b(o.get('format'), w)
            if not isinstance(r, OK):
                return r
            if (f := o.get('format')) and isinstance(b2wire(f, r.v), BAD):
                return BAD(f)
            return self.size(te, len(r.v), 'octets') or r
        if b == 'Boolean':
            return OK(w) if isinstance(w, bool) else BAD('not a boolean')
        if b == 'Integer':
            if o.get('format') == 'datetime-ms':
                r = text2ms(w)
                return (self.integer(te, r.v) or r) if isinstance(r, OK) else r
            return self.integer(te, w) or OK(w)
        if b == 'Number':
            return self.number(te, w) or OK(w)
        if b == 'String':
            return self.string(te, w) or OK(w)
        if b == 'Enumerated':
            api = 0 if 'id' in o else 1
            k = 0 if self.key_repr(te, vs) == 'id' else 1
            if type(w) is not (int if k == 0 else str):
                return BAD('wrong type for enumerated')
            for it in te.fields:
                if it[k] == w:
                    return OK(it[api])
            return BAD('not an item')
        if b == 'Choice':
            if 'combine' in o:
                return self.union(te, w, d)
            if not isinstance(w, dict):
                return BAD('choice is not a dict')
            if len(w) != 1:
                return BAD('choice has not one member')
            (k, x), = w.items()
            k = self.wire_key(te, k, vs)
            if k is UNSPEC or isinstance(k, BAD):
                return k
            for fid, fn, ft, req, tag, f in self.fields(te):
                if (fid if self.key_repr(te, vs) == 'id' else fn) == k:
                    r = d(ft, x)
                    return OK({(fid if 'id' in o else fn): r.v}) if isinstance(r, OK) else r
            return BAD('unknown choice')
        if b == 'ArrayOf':
            return self.array_of(te, w, d, False)
        if b == 'MapOf':
            if not isinstance(w, dict):
                return BAD('not a dict')
            if s := self.size(te, len(w), 'elements'):
                return s
            kt = self.te(o['ktype'])
            keys = []
            for k in w:
                if kt.base == 'Integer' and kt.o.get('format') != 'datetime-ms' and isinstance(k, str):      # a JSON member name
                    if not re.fullmatch('-?(0|[1-9][0-9]*)', k) or k == '-0':
                        keys.append(UNSPEC if is_int(k) else BAD('integer key'))     # other spellings are left open
                        continue
                    k = int(k)
                keys.append(d(kt, k))
            r = combine_parts(keys + [d(self.te(o['vtype']), x) for x in w.values()])
            if not isinstance(r, OK):
                return r
            n = len(w)
            return OK(dict(zip(r.v[:n], r.v[n:]))) if len(set(r.v[:n])) == n else BAD('two spellings of one key')
        if b in ('Map', 'Record'):
            fl = self.fields(te)
            if b == 'Record' and not vr:
                if not isinstance(w, list):
                    return BAD('not a list')
                if len(w) > len(fl):
                    return BAD('too many elements')
                got = {fl[k][0]: x for k, x in enumerate(w) if x is not None}
            else:
                if not isinstance(w, dict):
                    return BAD('not a dict')
                got = {}
                kr = 0 if self.key_repr(te, vs) == 'id' else 1
                un = False
                for k, x in w.items():
                    k = self.wire_key(te, k, vs)
                    if isinstance(k, BAD):
                        return k
                    if k is UNSPEC or x is None:
                        un = True
                        continue
                    fid = next((f[0] for f in fl if f[kr] == k), None)
                    if fid is None:
                        return BAD('unknown field')
                    if fid in got:
                        un = True
                    got[fid] = x
                if un:
                    return UNSPEC
            if s := self.size(te, len(got), 'elements'):
                return s
            parts = []
            for fid, fn, ft, req, tag, f in fl:
                if fid not in got:
                    if req:
                        return BAD(f'missing {fn}')
                    continue
                if tag is not None:
                    if tag not in got:
                        return BAD('tag missing')
                    if type(got[tag]) not in (str, int):
                        return BAD('tag type')
                    r = d(ft, {got[tag]: got[fid]})
                    parts.append(OK(next(iter(r.v.values()))) if isinstance(r, OK) else r)
                else:
                    parts.append(d(ft, got[fid]))
            r = combine_parts(parts)
            if not isinstance(r, OK):
                return r
            return OK(dict(zip([f[1] for f in fl if f[0] in got], r.v)))
        if b == 'Array':
            return self.array(te, w, d, encode=False)
        raise AssertionError(b)

    def wire_key(self, te, k, vs):
        if self.key_repr(te, vs) == 'name':
            return k if isinstance(k, str) else BAD('key is not a name')
        if type(k) is int:
            return k
        if isinstance(k, str):
            if re.fullmatch('0|[1-9][0-9]*', k, re.A):
                return int(k)
            return UNSPEC if re.search(r'\d', k) else BAD('key is not an id')
        return UNSPEC

    # -- values
    def value(self, s, te: TE, depth=0):
        """a valid API value (raises NoValue if it cannot find one)"""
        if depth > 12:
            raise NoValue
        b, o = te.base, te.o
        if b == 'Binary':
            f = o.get('format')
            if f == 'eui':
                return rbytes(s, s.pick([n for n in (6, 8) if o.get('minv', 0) <= n <= (o.get('maxv', 0) or 8)]))
            if f == 'ipv4-addr':
                return rbytes(s, 4)
            if f == 'ipv6-addr':
                return ip6bytes(s)
            if f == 'uuid':
                return ruuid(s)
            lo, hi = o.get('minv', 0), o.get('maxv', 0) or max(o.get('minv', 0), self.max_bin)
            return rbytes(s, length(s, lo, hi))
        if b == 'Boolean':
            return s.p(50)
        if b == 'Integer':
            return self.value_int(s, o)
        if b == 'Number':
            lo, hi = o.get('minf'), o.get('maxf')
            return rnum(s, lo, hi)
        if b == 'String':
            if p := o.get('pattern'):
                if p in self.rules:
                    return s.pick([x for x in gen.VAR_TEXTS if re.match(self.rules[p], x)])
                return {**gen.PATTERNS, **gen.PATTERNS_TRICKY, '^[a-z]+$': lambda z: z.pick(['a', 'action', 'xyz'])}[p](s)
            if f := o.get('format'):
                c = [x for x in STR_SAMPLES[f][0] if o.get('minv', 0) <= len(x) <= (o.get('maxv', 0) or self.max_str)]
                if not c:
                    raise NoValue
                return s.pick(c)
            lo, hi = o.get('minv', 0), o.get('maxv', 0) or max(o.get('minv', 0), self.max_str)
            return rstr(s, length(s, lo, hi))
        if b == 'Enumerated':
            if not te.fields:
                raise NoValue
            return s.pick(te.fields)[0 if 'id' in o else 1]
        if b == 'Choice':
            fl = self.fields(te)
            if not fl:
                raise NoValue
            if 'combine' in o:
                for _ in range(6):
                    f = s.pick(fl)
                    try:
                        v = self.value(s, f[2], depth + 1)
                    except NoValue:
                        continue
                    if isinstance(self.encode(te, v, True, True), OK):
                        return v
                raise NoValue
            order = s.shuffle(fl)
            for f in order:
                try:
                    return {(f[0] if 'id' in o else f[1]): self.value(s, f[2], depth + 1)}
                except NoValue:
                    pass
            raise NoValue
        if b == 'ArrayOf':
            lo, hi = o.get('minv', 0), o.get('maxv', 0) or 100
            n = lo if depth > 5 else length(s, lo, min(hi, lo + 5))
            out = []
            uniq = o.get('unique') or o.get('set')
            for _ in range(n * 3 + 3):
                if len(out) == n:
                    break
                try:
                    x = self.value(s, self.elem(te), depth + 1)
                except NoValue:
                    if lo == 0:
                        break
                    raise
                if not uniq or all(x != y for y in out):
                    out.append(x)
            if len(out) < lo:
                raise NoValue
            return out
        if b == 'MapOf':
            lo, hi = o.get('minv', 0), o.get('maxv', 0) or 100
            n = lo if depth > 5 else length(s, lo, min(hi, lo + 4))
            out = {}
            for _ in range(n * 3 + 3):
                if len(out) == n:
                    break
                try:
                    k = self.value(s, self.te(o['ktype']), depth + 1)
                    out[k] = self.value(s, self.te(o['vtype']), depth + 1)
                except NoValue:
                    if lo == 0:
                        break
                    raise
            if len(out) < lo:
                raise NoValue
            return out
        if b == 'Array' and o.get('format'):
            f = o['format']
            if f == 'tag-uuid':
                return [s.pick(['a', 'action', 'xyz']), ruuid(s)]
            n = 4 if f == 'ipv4-net' else 16
            return [rbytes(s, n) if n == 4 else ip6bytes(s), s.pick([n * 8, 0, 8, 24, 1, n * 8 - 1])]
        if b in ('Map', 'Record', 'Array'):
            fl = self.fields(te)
            lo, hi = o.get('minv', 0), o.get('maxv', 0) or self.max_el
            req = [f for f in fl if f[3]]
            opt = [f for f in fl if not f[3]]
            want = set(f[0] for f in req)
            pct = s.pick([50, 0, 100, 30]) if depth < 6 else 0
            room = hi - len(req)
            for f in s.shuffle(opt):
                if room > 0 and (s.p(pct) or len(want) < lo):
                    want.add(f[0])
                    room -= 1
            tags = {f[0]: f[4] for f in fl if f[4] is not None}
            for fid, tag in tags.items():       # a tagged value needs its tag; a tag may stand alone
                if fid in want and tag not in want:
                    want.add(tag)
                    room -= 1
            if room < 0 or len(want) < lo:
                raise NoValue
            vals = {}
            for f in fl:
                if f[0] in want and f[0] not in tags:
                    try:
                        vals[f[0]] = self.value(s, f[2], depth + 1)
                    except NoValue:
                        if f[3] or f[0] in tags.values():
                            raise
            for f in fl:
                if f[0] in want and f[0] in tags:
                    c = f[2]
                    cf = next((x for x in self.fields(c) if x[1] == vals[tags[f[0]]]), None)
                    if cf is None:
                        raise NoValue
                    vals[f[0]] = self.value(s, cf[2], depth + 1)
            if not lo <= len(vals) <= hi:
                raise NoValue
            if b == 'Array':
                out = [vals.get(f[0]) for f in fl]
                while out and out[-1] is None:
                    out.pop()
                return out
            return {f[1]: vals[f[0]] for f in (s.shuffle(fl) if s.p(30) else fl) if f[0] in vals}
        raise AssertionError(b)

    @staticmethod
    def value_int(s, o):
        f = o.get('format')
        lo, hi = o.get('minv'), o.get('maxv')
        if f == 'datetime-ms':
            c = [0, 1, 999, 1000, -1, 1234567890123, 946684799999, 253402300799000, s.int(-10 ** 12, 4 * 10 ** 12), s.int(0, 2 * 10 ** 12)]
            c = [x for x in c + [y for y in (lo, hi) if y is not None] if (lo is None or x >= lo) and (hi is None or x <= hi)]
            return s.pick(c)
        if f in INT_FORMATS:
            lo = -INT_FORMATS[f] if lo is None else max(lo, -INT_FORMATS[f])
            hi = INT_FORMATS[f] - 1 if hi is None else min(hi, INT_FORMATS[f] - 1)
            if lo > hi:
                raise NoValue
        if lo is None and hi is None:
            return s.pick([0, 1, -1, 255, -2 ** 31, 2 ** 63, s.int(-1000, 1000), s.int(-10 ** 15, 10 ** 15)])
        lo = hi - 1000 if lo is None else lo
        hi = lo + 1000 if hi is None else hi
        return s.pick([lo, hi, s.int(lo, hi)])


# ---------------------------------------------------------------- random scalars
CHARS = 'abcxyzABC019 _-é漢😀"\\/\n\x00<>&\'$:,{}[]'


def length(s, lo, hi):
    k = s.n(8)
    if k == 0:
        return lo
    if k == 1 and hi - lo < 300:
        return hi
    return s.int(lo, min(hi, lo + 6))


def rbytes(s, n):
    return bytes(s.byte() for _ in range(n)) if n < 40 else bytes((s.byte(),)) * n


def rstr(s, n):
    return ''.join(s.pick(CHARS) for _ in range(n)) if n < 40 else s.pick(CHARS) * n


def ip6bytes(s):
    b = bytearray(16)
    for i in range(16):
        b[i] = s.pick([0, 0, 0, 255, 1]) if s.p(70) else s.byte()
    if s.p(15):
        b[:12] = bytes(10) + b'\xff\xff'
    return bytes(b)


def ruuid(s):
    b = bytearray(s.byte() for _ in range(16))
    b[6] = (b[6] & 15) | (s.int(1, 5) << 4)
    b[8] = (b[8] & 63) | 128
    return bytes(b)


def rnum(s, lo, hi):
    if lo is None and hi is None:
        return s.pick([0, 1.5, -2, 0.1, 1e300, -1e-300, s.int(-100, 100), s.int(-1000, 1000) / 7])
    lo = hi - 100 if lo is None else lo
    hi = lo + 100 if hi is None else hi
    x = s.pick([lo, hi, lo + (hi - lo) * s.n(1000) / 1000])
    if s.p(30) and int(x) == x:
        x = int(x)
    return x if lo <= x <= hi else lo


# ---------------------------------------------------------------- mutation
JUNK = [None, True, False, 0, 1, -1, 2, 7, 2 ** 31, 2 ** 63, -2 ** 63 - 1, 1.5, 0.0, 1e308, '', 'a', 'red', '1', '-1', 'abcd', 'x' * 256, 'é' * 255,
        'x' * 7, [], [None], [1], ['a'], ['a', 'b', 'c', 'd'], {}, {'a': 1}, {'1': 'a'}, {'zz': None}, 'AAAA', 'A', '=',
        '1.2.3.4', '::1', '0A0B0C0D0E0F', '0a0b', '2020-01-01T00:00:00Z', '2020-13-01T00:00:00Z', '1.2.3.4/33', '1.2.3.4/8',
        'a@b.c', 'a..b', 'n/a', 'abc\n', 'aa-e81415a7-4c8d-45cd-a658-6b51b7a8f45d', 'e81415a7-4c8d-45cd-a658-6b51b7a8f45d',
        'e81415a7-4c8d-45cd-a658-6b51b7a8f45', 10 ** 20, [[]], [{}], 300, -129, 128, 32768, 'a' * 64]
JUNK_BYTES = [b'', b'a', b'\x00' * 4, b'\xff' * 16, b'123456', b'x' * 255, b'x' * 256, b'12345678', b'\x01\x02\x03']


def fresh(x):
    return list(map(fresh, x)) if isinstance(x, list) else {k: fresh(v) for k, v in x.items()} if isinstance(x, dict) else x


def paths_in(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            yield from paths_in(v[k], p + (('k', k),))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from paths_in(v[i], p + (('i', i),))


def junk(s, api):
    pool = JUNK + (JUNK_BYTES if api else [])
    return fresh(s.pick(pool))


def mutate(s, v, api=True):
    """change one place in a value"""
    ps = list(paths_in(v))
    p = s.pick(ps)
    return _at(v, p, lambda x: _mut1(s, x, api))


def respell(s, v):
    """repeat one member of a message under another spelling of its name, or one element in another spelling (None if there is none)"""
    ps = [p for p in paths_in(v) if isinstance(_get(v, p), (dict, list)) and _get(v, p)]
    if not ps:
        return None
    p = s.pick(ps)
    if isinstance(_get(v, p), list):
        def again(x):
            i = s.n(len(x))
            y = other_spelling(s, x[i])
            if s.p(30) and len(x) > 1:      # in the place of another one
                j = s.n(len(x))
                return x[:j] + [y] + x[j + 1:]
            return x + [y] if s.p(50) else x[:i] + [y] + x[i:]
        return _at(v, p, again)

    def dup(x):
        k = s.pick(list(x))
        if not isinstance(k, str):
            return {**x, str(k): x[k]}
        n = s.pick([k.swapcase(), k.upper(), k.lower(), k.title(), '0' + k, '+' + k, ' ' + k, k + '=', k.strip('=')])
        return {**x, n: x[k] if s.p(70) else s.pick(list(x.values()))}
    return _at(v, p, dup)


def other_spelling(s, x):
    """a text that may denote the same value"""
    if isinstance(x, bool) or not isinstance(x, (str, int, float)):
        return s.pick([x, x, 1 if x is True else 0 if x is False else x])
    if not isinstance(x, str):
        return s.pick([x, float(x) if abs(x) < 2 ** 53 else x, int(x) if x == x and abs(x) < 2 ** 53 and x == int(x) else x])
    out = [x, x.upper(), x.lower(), x.swapcase(), x.replace('Z', '+00:00'), x.replace('Z', '.000Z'), x.replace('T', 't').replace('Z', 'z'), x + '=', x.replace('-', ':'), x.replace(':', '')]
    try:
        out += [ipaddress.ip_address(x).exploded] * 4
    except ValueError:
        pass
    return s.pick(out)


def _get(v, p):
    for _, k in p:
        v = v[k]
    return v


def _at(v, p, fn):
    if not p:
        return fn(v)
    (kind, k), rest = p[0], p[1:]
    out = dict(v) if kind == 'k' else list(v)
    out[k] = _at(v[k], rest, fn)
    return out


def _mut1(s, x, api):
    k = s.n(8)
    if k < 2:
        return junk(s, api)
    if isinstance(x, bool):
        return s.pick([1, 0, 'true', None, 1.0]) if k < 6 else not x
    if isinstance(x, int):
        return s.pick([x + 1, x - 1, -x, float(x) if abs(x) < 2 ** 53 else 0.5, str(x), x * 2, x + 256, x + 1000])
    if isinstance(x, float):
        return s.pick([x + 0.5, x - 0.5, -x, x * 2 if abs(x) < 1e300 else 0.0, str(x), x + 100])
    if isinstance(x, str):
        return s.pick([x + 'a', x[:-1], x[1:], x + 'a' * 250, x.upper(), x + '\n', ' ' + x, x * 2, x + '=', x.lower(), x.swapcase(), x + '/', '', '-' + x])
    if isinstance(x, bytes):
        return s.pick([x + b'\0', x[:-1], x.hex(), b'', x * 2, x + bytes(250), x.decode('latin1')])
    if isinstance(x, list):
        o = s.n(8)
        if o == 0 or not x:
            return x + [junk(s, api)]
        if o == 1:
            return x + [fresh(s.pick(x))]
        i = s.n(len(x))
        if o == 2:
            return x[:i] + x[i + 1:]
        if o == 3:
            return x + [None]
        if o == 4:
            return x[::-1]
        if o == 5:
            return x[:i] + [None] + x[i + 1:]
        if o == 6:
            return {str(n): y for n, y in enumerate(x)}
        return x * 2
    if isinstance(x, dict):
        o = s.n(7)
        if o == 0 or not x:
            return {**x, s.pick(['zz9', 'a', 'b', '1', '9', 'name']): junk(s, api)}
        kk = s.pick(list(x))
        if o in (1, 2):
            return {a: b for a, b in x.items() if a != kk}
        if o == 3:
            return list(x.values())
        if o == 4:
            return {(s.pick(['a', 'b', 'name', '2', 'x_1', 'zz9', str(kk), str(kk) + 'x']) if a == kk else a): b for a, b in x.items()}
        if o == 5:
            return {**x, kk: junk(s, api)}
        return {(7 if isinstance(kk, int) else kk + 'y' if isinstance(kk, str) else kk + b'0' if isinstance(kk, bytes) else 'other') if a == kk else a: b for a, b in x.items()}
    return junk(s, api)
