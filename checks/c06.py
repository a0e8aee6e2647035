"""C06: format keywords follow their standards in both directions"""
from vlib import fmt
from vlib.cases import MODES, REJECT, mkcodec, to_json
from vlib.model import same
from vlib.runner import Prop, require

ID = 'C06'
RULE = ('a case is a format, a position (whole type, field option, element, map key, choice), a mode and either a value to encode or a '
        'text to decode, built from the grammar of the format and then damaged zero to three times; the verdict and the result come from '
        'independent implementations of the standards (vlib/fmt.py). Non-trivial: the standard decides the case; distinct by '
        '(format, value or text).')
ASSUMPTIONS = ['formats whose validators are optional packages not installed here (time, date-time, duration, idn-hostname, json-pointer, '
               'uri-template) are not judged; iri, regex and idn-email only as far as their ASCII/URI subset',
               'left open: IPv4 octets with leading zeros, padded base64url, non-zero unused bits, lower-case EUI, UUIDs of unknown version, leap seconds, '
               'e-mail addresses with quoting or one-label domains, IP literals in URIs']

BIN = list(fmt.BINARY)
STR = list(fmt.STRING) + ['iri', 'iri-reference']
ARR = ['ipv4-net', 'ipv6-net', 'tag-uuid']
ALL = BIN + STR + ARR + list(fmt.INT) + ['datetime-ms']
BASE = {**{f: 'Binary' for f in BIN}, **{f: 'String' for f in STR}, **{f: 'Array' for f in ARR}, **{f: 'Integer' for f in list(fmt.INT) + ['datetime-ms']}}
WRAP = ['type', 'option', 'ref', 'elem', 'mult', 'key', 'choice', 'array', 'tuple']
TAGS = {'[a-z]+': 'abcxyz', None: 'abXY-_. '}


# ---------------------------------------------------------------- generators
def octets(s, n):
    return bytes(s.pick([0, 1, 255, 127, 128, s.byte()]) for _ in range(n))


def g_v4(s):
    return '.'.join(str(s.pick([0, 1, 255, 10, 99, 100, 199, 249, 256, 260, 300, 1000, s.byte()]) if s.p(15) else s.byte()) for _ in range(4 if s.p(92) else s.int(2, 6)))


def g_v6(s):
    k = s.n(6)
    if k == 0:
        return fmt.v6text(octets(s, 16))
    grp = lambda: s.pick(['0', '1', 'ff', 'FFFF', 'abcd', '0db8', '2001', '0000', '00001', 'g'] if s.p(10) else ['0', '1', 'ff', 'FFFF', 'abcd', '0db8', '2001'])
    if k < 3:
        gs = [grp() for _ in range(8 if s.p(85) else s.int(6, 10))]
        return ':'.join(gs)
    a, b = [grp() for _ in range(s.n(5))], [grp() for _ in range(s.n(5))]
    if k == 5:
        b = b[:3] + [g_v4(s)]
    return ':'.join(a) + '::' + ':'.join(b)


def g_uuid(s, damage=True):
    b = bytearray(octets(s, 16))
    b[6] = b[6] & 0x0f | s.int(1, 5) << 4
    b[8] = b[8] & 0x3f | 0x80
    return bytes(b)


def g_dt(s):
    y = s.pick([1970, 2024, 2000, 1900, 2021, 1600, 9998, 2, 1969, 10000, 0])
    y = y if s.p(20) else s.pick([1970, 2024, 2000, 1900, 2021, 1969, 2262, 1815])
    mo, d = s.int(1, 12), s.int(1, 28)
    if s.p(30):
        mo, d = s.pick([(2, 28), (2, 29), (2, 30), (4, 31), (12, 31), (13, 1), (0, 1), (1, 0), (6, 30), (1, 32)])
    h, mi, se = s.n(24), s.n(60), s.n(60)
    if s.p(10):
        h, mi, se = s.pick([(24, 0, 0), (23, 59, 59), (23, 59, 60), (0, 60, 0), (0, 0, 61), (0, 0, 0)])
    fr = s.pick(['', '.0', '.5', '.000', '.001', '.999', f'.{s.n(1000):03d}', '.123000', '.1234', '.', '.9999'])
    z = s.pick(['Z', 'Z', '+00:00', '-00:00', 'z', '+05:30', '-11:45', '+23:59', '+24:00', '-01:60', '', '+0100', '+01'])
    return f'{y:04d}-{mo:02d}-{d:02d}{s.pick("TTTTt _")}{h:02d}:{mi:02d}:{se:02d}{fr}{z}'


def g_date(s):
    return g_dt(s)[:10]


LAB = ['a', 'b1', 'host', 'example', 'x-y', 'A', 'com', '1', 'xn--p1ai', 'x' * 63, 'x' * 64, '-a', 'a-', '', 'a_b', 'é', 'ſ', '٣', 'a b', '1-1']


def g_host(s):
    if s.p(6):      # around 253 characters
        n = s.int(250, 256)
        return '.'.join(['x' * 49] * 5 + ['y' * (n - 250)])
    n = s.int(1, 5)
    return '.'.join(s.pick(LAB) if s.p(25) else s.pick(LAB[:10]) for _ in range(n)) + ('.' if s.p(10) else '')


def g_email(s):
    loc = '.'.join(s.pick(['a', 'john', "o'x", 'A+b', '1', '!#$%', '', 'é', ' ', 'a b', '"q"', ',']) if s.p(20) else s.pick(['a', 'john', "o'x", 'A+b', '1'])
                   for _ in range(s.int(1, 3)))
    dom = '.'.join(s.pick(LAB) if s.p(20) else s.pick(LAB[:9]) for _ in range(s.int(2, 4)))
    return s.pick([loc + '@' + dom] * 12 + [loc + '@@' + dom, loc + dom, '@' + dom, loc + '@'])


def g_uri(s):
    b = lambda pool: ''.join(s.pick(pool) for _ in range(s.n(5)))
    sch = s.pick(['http', 'urn', 'x+y-1.2', 'A', 'https', 'mailto', '1x', 'é', '']) if s.p(30) else s.pick(['http', 'urn', 'A'])
    seg = ['a', 'b', '-', '~', '%20', '@', ':', '(', '+', '=']
    badseg = seg + [' ', '%', '%g0', '"', '<', '\\', '^', '{', '|', 'é', '#', '[', '`']
    pool = badseg if s.p(25) else seg
    auth = ''
    if s.p(60):
        auth = '//' + s.pick(['', 'u@', 'u:p@']) + s.pick(['example.com', 'a', '1.2.3.4', '', 'A-b']) + s.pick(['', '', ':80', ':', ':x'])
    path = ''.join(s.pick(['/', '//', '/']) + b(pool) for _ in range(s.n(4))) if auth or s.p(50) else b(pool)
    q = '?' + b(pool + ['/', '?']) if s.p(30) else ''
    fr = '#' + b(pool + ['/', '?']) if s.p(30) else ''
    return (sch + ':' if s.p(75) else '') + auth + path + q + fr


def damage(s, t):
    k = s.n(9)
    i = s.n(len(t) + 1)
    c = s.pick(['0', 'a', ':', '.', '/', '-', ' ', '\n', '=', '%', 'g', 'A', '+', '\u0663', '\u212a', '_', '\x00', '@', '1', 'Z'])
    if k < 3 or not t:
        return t[:i] + c + t[i:]
    if k < 5:
        return t[:i] + t[i + 1:]
    if k == 5:
        return t[:i] + c + t[i + 1:]
    if k == 6:
        return t.swapcase()
    if k == 7:
        return t + s.pick(['\n', ' ', '=', '/', '%eth0', '/24', '0', '.', '\r\n', '\x00'])
    return s.pick([' ', '+', '-', '0', '\t', '']) + t


def g_text(s, f, tag):
    def base():
        if f in ('ipv4', 'ipv4-addr'):
            return g_v4(s)
        if f in ('ipv6', 'ipv6-addr'):
            return g_v6(s)
        if f in ('ipv4-net', 'ipv6-net'):
            a = g_v4(s) if f[3] == '4' else g_v6(s)
            top = 32 if f[3] == '4' else 128
            p = s.pick([0, 1, top, top - 1, top + 1, 24, 64, s.n(top)]) if s.p(85) else s.pick(['', '-1', '+1', ' 1', '1_0', '\u0663', '08', '9' * 20, '1/2', 'x', '255.255.255.0', '1.0'])
            return f'{a}/{p}' if s.p(85) else a
        if f == 'uuid':
            return fmt.BINARY['uuid'][1](g_uuid(s))
        if f == 'tag-uuid':
            t = ''.join(s.pick(TAGS[tag]) for _ in range(s.n(5)))
            return t + '-' + fmt.uuid_enc(g_uuid(s))
        if f == 'b':
            return fmt.b64u_enc(octets(s, s.n(12))) + (s.pick(['=', '==', '===']) if s.p(10) else '')
        if f in ('x', 'X', 'eui'):
            n = s.pick([6, 8, 6, 8, 7, 5]) if f == 'eui' else s.n(9)
            h = octets(s, n).hex()
            return h if f == 'x' and s.p(70) else h.upper() if s.p(80) else h
        if f == 'datetime-ms':
            return g_dt(s)
        if f == 'date':
            return g_date(s)
        if f == 'hostname':
            return g_host(s)
        if f == 'email':
            return g_email(s)
        return g_uri(s)
    t = base()
    for _ in range(s.pick([0, 0, 0, 1, 1, 2, 3])):
        t = damage(s, t)
    return t


def g_value(s, f, tag):
    """an API value, usually one of the format"""
    if BASE[f] == 'Binary':
        n = {'ipv4-addr': 4, 'ipv6-addr': 16}.get(f)
        if f == 'uuid' and s.p(75):
            return g_uuid(s)
        if f == 'eui':
            n = s.pick([6, 8, 6, 8, 7, 5, 0])
        if f == 'uuid':
            n = s.pick([16, 15, 17])
        if n is None:
            n = s.n(10)
        elif s.p(12):
            n += s.pick([-1, 1, -n, n])
        return octets(s, n)
    if f in ('ipv4-net', 'ipv6-net'):
        n = 4 if f[3] == '4' else 16
        p = s.pick([0, 1, n * 8, n * 8 - 1, n * 8 + 1, -1, s.n(n * 8 + 1), s.n(n * 8 + 1)])
        return [octets(s, n if s.p(93) else s.pick([n - 1, n + 1, 0])), p]
    if f == 'tag-uuid':
        return [''.join(s.pick(TAGS[tag]) for _ in range(s.n(5))), g_uuid(s) if s.p(90) else octets(s, s.pick([15, 16, 17]))]
    if f in fmt.INT:
        b = fmt.INT[f]
        return s.pick([0, 1, -1, b, b - 1, -b, -b - 1, 2 * b, -2 * b, 127, 128, -128, -129, 255, 256, 32767, 32768, 2 ** 31, 2 ** 31 - 1, 2 ** 63 - 1, 2 ** 63])
    if f == 'datetime-ms':
        k = s.n(4)
        if k == 0:
            return s.pick([0, 1, -1, 999, 1000, -999, -1000, -1001, 951782400000, 951868799999, -62135596800000, -62135596800001, 253402300799999,
                           253402300800000, 10 ** 18, -10 ** 18, 8589934591999, 1709164799999, 1709251200000])
        return s.int(-2 * 10 ** 12, 5 * 10 ** 12) if k < 3 else s.int(-6 * 10 ** 13, 25 * 10 ** 13)
    return g_text(s, f, tag)


# ---------------------------------------------------------------- oracle tables
def text_of(f, tag, v):
    """the message form of an API value; False: not a value of the format; None: unspecified"""
    b = BASE[f]
    if b == 'Binary':
        return fmt.BINARY[f][1](v)
    if b == 'String':
        return str_verdict(f, v) and v
    if f in ('ipv4-net', 'ipv6-net'):
        n = 4 if f[3] == '4' else 16
        return fmt.nettext(int(f[3]), v) if len(v[0]) == n and 0 <= v[1] <= 8 * n else False
    if f == 'tag-uuid':
        if len(v[1]) != 16 or not tag_ok(tag, v[0]):
            return False
        u = fmt.uuid_enc(v[1])
        return u and v[0] + '-' + u
    if f == 'datetime-ms':
        return fmt.ms_dt(v)
    return v if -fmt.INT[f] <= v < fmt.INT[f] else False


def tag_ok(tag, t):
    return tag is None or (t != '' and all('a' <= c <= 'z' for c in t))


def value_of(f, tag, t):
    """the API value a text denotes; False / None as above (wrapped in a list because values may be false)"""
    b = BASE[f]
    if b == 'String':
        r = str_verdict(f, t)
        return r and [t]
    if b == 'Binary':
        r = fmt.BINARY[f][0](t)
        return r if r is None or r is False else [r]
    if f in ('ipv4-net', 'ipv6-net'):
        r = fmt.net(int(f[3]), t)
        return r if r is None or r is False else [r]
    if f == 'tag-uuid':
        if len(t) < 37 or t[-37] != '-':
            return False
        u = fmt.uuid_dec(t[-36:])
        if u is False or not tag_ok(tag, t[:-37]):
            return False
        return u and [[t[:-37], u]]
    r = fmt.dt_ms(t)
    return r if r is None or r is False else [r]


def str_verdict(f, t):
    if f in ('iri', 'iri-reference'):       # every URI is an IRI
        r = fmt.STRING['uri' if f == 'iri' else 'uri-reference'](t)
        return r if r or t.isascii() else None
    return fmt.STRING[f](t)


# ---------------------------------------------------------------- cases
def build(f, wrap, tag):
    """schema, type to use, value -> wrapped API value, text -> wrapped message, unwrap"""
    fields = []
    if f in ('ipv4-net', 'ipv6-net'):
        fields = [[1, 'addr', 'Binary', ['/' + f[:4] + '-addr'] if tag else [], ''], [2, 'prefix', 'Integer', [], '']]
    elif f == 'tag-uuid':
        fields = [[1, 'tag', 'String', ['%^[a-z]+$'] if tag else [], ''], [2, 'uuid', 'Binary', ['/uuid'], '']]
    t = ['T', BASE[f], ['/' + f], '', fields]
    if BASE[f] == 'Array' and wrap in ('option', 'key'):
        wrap = 'ref'
    if wrap == 'key' and BASE[f] == 'Integer':
        wrap = 'elem'
    use = {'type': None,
           'option': ['W', 'Record', [], '', [[1, 'f', BASE[f], ['/' + f], '']]],
           'ref': ['W', 'Map', [], '', [[3, 'f', 'T', [], ''], [4, 'g', 'T', ['[0'], '']]],
           'elem': ['W', 'ArrayOf', ['*T'], '', []],
           'mult': ['W', 'Record', [], '', [[1, 'f', BASE[f] if BASE[f] != 'Array' else 'T', (['/' + f] if BASE[f] != 'Array' else []) + [']3'], '']]],
           'key': ['W', 'MapOf', ['+T', '*Boolean'], '', []],
           'choice': ['W', 'Choice', [], '', [[1, 'e', 'Boolean', [], ''], [2, 'f', 'T', [], '']]],
           'array': ['W', 'Array', [], '', [[1, 'f', 'T', [], '']]],
           'tuple': ['W', 'MapOf', ['+String', '*T'], '', []]}[wrap]
    return {'types': [t] + ([use] if use else [])}, ('W' if use else 'T'), wrap


def wrapped(wrap, x, mode, api):
    vr, vs = (True, True) if api else mode
    if wrap == 'type':
        return x
    if wrap == 'option':
        return {('f' if vs else 1): x} if vr else [x]
    if wrap == 'ref':
        return {('f' if vs else 3): x}
    if wrap in ('elem', 'array'):
        return [x]
    if wrap == 'mult':
        return {('f' if vs else 1): [x, x]} if vr else [[x, x]]
    if wrap == 'key':
        return {x: True}
    if wrap == 'choice':
        return {('f' if vs else 2): x}
    return {'k': x}


def strategy(s):
    f = s.pick(ALL)
    tag = s.pick(['[a-z]+', None])
    case = {'format': f, 'tag': tag, 'wrap': s.pick(WRAP), 'mode': list(s.pick(MODES))}
    if BASE[f] == 'Integer' and f != 'datetime-ms' or s.p(45):
        case['value'] = g_value(s, f, tag)
    else:
        case['text'] = g_text(s, f, tag)
    return case


def oracle(case, cov):
    f, tag, mode = case['format'], case['tag'], tuple(case['mode'])
    sc, tn, wrap = build(f, case['wrap'], tag)
    c = mkcodec(sc, mode)
    mx = {'String': 255, 'Binary': 255}.get(BASE[f])
    if 'value' in case:
        v = case['value']
        want = text_of(f, tag, v)
        if mx and len(v) > mx and want is not False:
            want = False
        try:
            w = c.encode(tn, wrapped(wrap, v, mode, True))
            got = True
        except REJECT as e:
            got, w = False, type(e).__name__
        cov.label(f'encode {f} {"open" if want is None else "bad" if want is False else "good"}', 'at ' + wrap)
        if want is False:
            require(not got, lambda: f'{f} at {wrap}: encoding accepts {v!r} and writes {w!r}')
        elif want is not None:
            require(got, lambda: f'{f} at {wrap}: encoding rejects {v!r} ({w})')
            exp = wrapped(wrap, want, mode, False)
            require(same(to_json(w), to_json(exp)), lambda: f'{f} at {wrap}: {v!r} is written as {w!r}, not {exp!r}')
        if want is not None:
            cov.hit((f, 'e', v))
        if f in fmt.INT:
            try:
                d = c.decode(tn, to_json(wrapped(wrap, v, mode, False)))
                ok = True
            except REJECT:
                ok = False
            require(ok == (want is not False), lambda: f'{f} at {wrap}: decoding {"accepts" if ok else "rejects"} {v!r}')
        if got:         # whatever is written is read back, open or not
            back = c.decode(tn, to_json(w))
            require(same(back, wrapped(wrap, v, mode, True)), lambda: f'{f} at {wrap}: {v!r} written as {w!r} is read back as {back!r}')
    else:
        t = case['text']
        want = value_of(f, tag, t)
        if mx and want and len(want[0]) > mx:
            want = False
        try:
            v = c.decode(tn, to_json(wrapped(wrap, t, mode, False)))
            got = True
        except REJECT as e:
            got, v = False, type(e).__name__
        cov.label(f'decode {f} {"open" if want is None else "bad" if want is False else "good"}', 'at ' + wrap)
        if want is False:
            require(not got, lambda: f'{f} at {wrap}: decoding accepts {t!r} and returns {v!r}')
        elif want is not None:
            require(got, lambda: f'{f} at {wrap}: decoding rejects {t!r} ({v})')
            exp = wrapped(wrap, want[0], mode, True)
            require(same(v, exp), lambda: f'{f} at {wrap}: {t!r} is read as {v!r}, not {exp!r}')
        if want is not None:
            cov.hit((f, 'd', t))
        if got:         # and what was read can be written and read again
            w2 = c.encode(tn, v)
            v2 = c.decode(tn, to_json(w2))
            require(same(v2, v), lambda: f'{f} at {wrap}: {t!r} is read as {v!r}, written as {w2!r} and read again as {v2!r}')


PROPS = [Prop('formats', strategy, oracle, quick=2200, thorough=120000, size=160)]
