"""
Exact predicates and canonical texts for the semantic formats, written from the standards (RFC 791/4291/4632/5952 addresses,
RFC 4122 UUIDs, RFC 4648 base64url and hex, RFC 3339 times, RFC 3986 URIs, RFC 1123 host names, RFC 5322 dot-atom addresses).
No address, time or URI library is used, so the code under test is compared with something that cannot share its mistakes.

Each predicate returns True, False or None (the standard leaves it open).
"""
import re

A = re.A


# ---------------------------------------------------------------- addresses
def v4(t):
    """bytes, None (unspecified) or False"""
    if not re.fullmatch(r'[0-9]{1,3}(\.[0-9]{1,3}){3}', t, A):
        return False
    p = t.split('.')
    if any(int(x) > 255 for x in p):
        return False
    if any(len(x) > 1 and x[0] == '0' for x in p):
        return None
    return bytes(int(x) for x in p)


def v6(t):
    if t.count('::') > 1 or not re.fullmatch('[0-9A-Fa-f:.]+', t, A):
        return False
    head, dbl, tail = t.partition('::')

    def groups(part, last):
        """16-bit groups of one side; the last may be dotted quad"""
        if part == '':
            return []
        out = []
        ps = part.split(':')
        for k, g in enumerate(ps):
            if '.' in g:
                if not last or k != len(ps) - 1:
                    return False
                b = v4(g)
                if not b:
                    return b
                out += [b[0] * 256 + b[1], b[2] * 256 + b[3]]
            elif re.fullmatch('[0-9A-Fa-f]{1,4}', g, A):
                out.append(int(g, 16))
            else:
                return False
        return out
    h = groups(head, not dbl)
    tl = groups(tail, True)
    if h is False or tl is False:
        return False
    if h is None or tl is None:
        return None
    if dbl:
        if len(h) + len(tl) > 7:
            return False
        gs = h + [0] * (8 - len(h) - len(tl)) + tl
    else:
        gs = h
        if len(gs) != 8:
            return False
    return b''.join(g.to_bytes(2, 'big') for g in gs)


def v4text(b):
    return '.'.join(str(x) for x in b)


def v6text(b):
    """RFC 5952"""
    gs = [b[i] * 256 + b[i + 1] for i in range(0, 16, 2)]
    best, cur = (0, 0), None
    i = 0
    while i < 8:
        j = i
        while j < 8 and gs[j] == 0:
            j += 1
        if j - i > best[1] and j - i > 1:
            best = (i, j - i)
        i = max(j, i + 1)
    f = lambda x: ':'.join(f'{g:x}' for g in x)
    if best[1]:
        return f(gs[:best[0]]) + '::' + f(gs[best[0] + best[1]:])
    return f(gs)


def net(v, t):
    """[address, prefix] / False / None"""
    n = 32 if v == 4 else 128
    a, slash, p = t.partition('/')
    b = (v4 if v == 4 else v6)(a)
    if b is False:
        return False
    if slash:
        if not re.fullmatch('[0-9]+', p, A) or int(p[:20]) > n:
            return False
        if len(p) > 1 and p[0] == '0':
            return None
    if b is None:
        return None
    return [b, int(p) if slash else n]


def nettext(v, x):
    n = 32 if v == 4 else 128
    a = (v4text if v == 4 else v6text)(x[0])
    return a if x[1] == n else f'{a}/{x[1]}'


# ---------------------------------------------------------------- binary text
def b64u_dec(t):
    if not re.fullmatch('[-_A-Za-z0-9]*={0,2}', t, A):
        return False
    s = t.rstrip('=')
    if len(s) % 4 == 1 or ('=' in t and len(t) % 4):
        return False
    al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
    n = 0
    for c in s:
        n = n * 64 + al.index(c)
    bits = len(s) * 6
    extra = bits % 8
    if '=' in t or n & ((1 << extra) - 1):
        return None
    return (n >> extra).to_bytes(bits // 8, 'big')


def b64u_enc(b):
    al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
    bits = ''.join(f'{x:08b}' for x in b)
    bits += '0' * (-len(bits) % 6)
    return ''.join(al[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))


def hex_dec(t, upper):
    """upper: only upper case digits are allowed"""
    if not re.fullmatch('([0-9A-F]{2})*' if upper else '([0-9A-Fa-f]{2})*', t, A):
        return False
    return bytes(int(t[i:i + 2], 16) for i in range(0, len(t), 2))


def eui_dec(t):
    if re.fullmatch('[0-9A-Fa-f]{2}([:-][0-9A-Fa-f]{2})+', t, A):
        return None
    b = hex_dec(t, True)
    if b is False:
        return None if hex_dec(t, False) is not False and len(t) in (12, 16) else False
    return b if len(b) in (6, 8) else False


UUID = '[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}'


def uuid_dec(t):
    if re.fullmatch(UUID, t, re.A | re.I):
        return bytes(int(x, 16) for x in re.findall('..', t.replace('-', '')))
    return None if re.fullmatch('[0-9a-f]{8}-([0-9a-f]{4}-){3}[0-9a-f]{12}', t, re.A | re.I) else False


def uuid_enc(b):
    h = ''.join(f'{x:02x}' for x in b)
    t = '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
    return t if re.fullmatch(UUID, t) else None


# ---------------------------------------------------------------- times
def days(y, m, d):
    """days from 1970-01-01 in the proleptic Gregorian calendar"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


def month_len(y, m):
    return 28 + (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) if m == 2 else 30 if m in (4, 6, 9, 11) else 31


def date_ok(t):
    m = re.fullmatch('([0-9]{4})-([0-9]{2})-([0-9]{2})', t, A)
    if not m:
        return False
    y, mo, d = map(int, m.groups())
    if y == 0:
        return None
    return 1 <= mo <= 12 and 1 <= d <= month_len(y, mo)


DT = re.compile(r'([0-9]{4})-([0-9]{2})-([0-9]{2})([Tt ])([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]+))?([Zz]|[+-][0-9]{2}:[0-9]{2})', A)


def dt_ms(t):
    """milliseconds, False, or None"""
    m = DT.fullmatch(t)
    if not m:
        return False
    y, mo, d, h, mi, s = (int(m.group(k)) for k in (1, 2, 3, 5, 6, 7))
    z = m.group(9)
    off = 0
    if z not in 'Zz':
        oh, om = int(z[1:3]), int(z[4:6])
        if oh > 23 or om > 59:
            return False
        off = (1 if z[0] == '+' else -1) * (oh * 60 + om)
    if y == 0:
        return None
    if not (1 <= mo <= 12 and 1 <= d <= month_len(y, mo) and h <= 23 and mi <= 59 and s <= 60):
        return None if h == 24 else False
    if s == 60 or m.group(4) == ' ' or not 2 <= y <= 9998:
        return None
    fr = m.group(8) or ''
    if len(fr) > 3 and fr[3:].strip('0'):
        return None
    ms = int((fr + '000')[:3])
    return ((days(y, mo, d) * 24 + h) * 60 + mi - off) * 60000 + s * 1000 + ms


def ms_dt(n):
    """text of a millisecond date-time, or False when its year does not have four digits"""
    day, r = divmod(n, 86400000)
    y, mo, d = civil(day)
    if not 1 <= y <= 9999:
        return False
    ms = r % 1000
    r //= 1000
    return f'{y:04d}-{mo:02d}-{d:02d}T{r // 3600:02d}:{r // 60 % 60:02d}:{r % 60:02d}' + (f'.{ms:03d}' if ms else '') + '+00:00'


# ---------------------------------------------------------------- names
def hostname_ok(t):
    h = t[:-1] if t.endswith('.') else t
    if not h:
        return False
    if not all(re.fullmatch('[A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?', x, A) for x in h.split('.')):
        return False
    return True if len(t) <= 253 else False if len(h) > 253 else None


ATOM = r"[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]+"


def email_ok(t):
    if any(c in t for c in '"[]\\()'):
        return None
    local, at, dom = t.rpartition('@')
    if not at or not re.fullmatch(rf'{ATOM}(\.{ATOM})*', local, A):
        return False
    ls = dom.split('.')
    if not all(re.fullmatch('[A-Za-z0-9]([A-Za-z0-9-]*[A-Za-z0-9])?', x, A) for x in ls):
        return False
    if len(ls) == 1 or len(local) > 64 or len(dom) > 253 or any(len(x) > 63 for x in ls):
        return None
    return True


_pct = '%[0-9A-Fa-f]{2}'
_unres = r'A-Za-z0-9\-._~'
_sub = r"!$&'()*+,;="
_pchar = rf'(?:[{_unres}{_sub}:@]|{_pct})'
_segs = rf'(?:/{_pchar}*)*'
_path = rf'(?:/(?:{_pchar}+{_segs})?|{_pchar}+{_segs}|)'
_user = rf'(?:[{_unres}{_sub}:]|{_pct})*'
_regname = rf'(?:[{_unres}{_sub}]|{_pct})*'
_q = rf'(?:{_pchar}|[/?])*'
URI = re.compile(rf'[A-Za-z][A-Za-z0-9+.\-]*:(?://(?:{_user}@)?(?P<h>\[[^\]]*\]|{_regname})(?::[0-9]*)?{_segs}|{_path})(?:\?{_q})?(?:#{_q})?', A)
_noscheme = rf'(?:/(?:{_pchar}+{_segs})?|(?:[{_unres}{_sub}@]|{_pct})+{_segs}|)'
REF = re.compile(rf'(?://(?:{_user}@)?(?P<h>\[[^\]]*\]|{_regname})(?::[0-9]*)?{_segs}|{_noscheme})(?:\?{_q})?(?:#{_q})?', A)


def uri_ok(t):
    m = URI.fullmatch(t)
    if not m:
        return False
    h = m.group('h')
    return None if h and h[0] == '[' else True


def uriref_ok(t):
    if uri_ok(t):
        return True
    if uri_ok(t) is None:
        return None
    m = REF.fullmatch(t)
    if not m:
        return False
    h = m.group('h')
    return None if h and h[0] == '[' else True


def lift(f):
    def g(t):
        r = f(t)
        return None if r is None else r is not False
    return g


STRING = {'ipv4': lift(v4), 'ipv6': lift(v6), 'date': date_ok, 'uri': uri_ok, 'uri-reference': uriref_ok, 'email': email_ok,
          'hostname': hostname_ok}

BINARY = {        # format: (text -> bytes/False/None, bytes -> text/False/None)
    'b': (b64u_dec, b64u_enc),
    'x': (lambda t: hex_dec(t, False), lambda b: ''.join(f'{x:02x}' for x in b)),
    'X': (lambda t: hex_dec(t, True), lambda b: ''.join(f'{x:02X}' for x in b)),
    'eui': (eui_dec, lambda b: ''.join(f'{x:02X}' for x in b) if len(b) in (6, 8) else False),
    'ipv4-addr': (v4, lambda b: v4text(b) if len(b) == 4 else False),
    'ipv6-addr': (v6, lambda b: v6text(b) if len(b) == 16 else False),
    'uuid': (uuid_dec, lambda b: uuid_enc(b) if len(b) == 16 else False),
}
INT = {'i8': 2 ** 7, 'i16': 2 ** 15, 'i32': 2 ** 31, 'i64': 2 ** 63}
