"""
Schema-directed mutation: takes a valid value of a type expression and moves one place of it across (or onto) the edge of
one constraint the type declares.  loose() writes an API value as a message without checking anything, so that the same
near misses can be tried on decode.
"""
import base64

from . import gen, model
from .model import NoValue, STR_SAMPLES, junk, length, rbytes, rstr


def nodes(m, te, v, path=(), depth=0):
    """(te, value, path) of every place in v that has a type; path steps: ('i', n) | ('k', key) | ('K', key) for a map key"""
    yield te, v, path
    if depth > 7:
        return
    b = te.base
    if b == 'ArrayOf' and isinstance(v, list):
        for i, x in enumerate(v):
            yield from nodes(m, m.elem(te), x, path + (('i', i),), depth + 1)
    elif b == 'MapOf' and isinstance(v, dict):
        for k, x in v.items():
            yield m.te(te.o['ktype']), k, path + (('K', k),)
            yield from nodes(m, m.te(te.o['vtype']), x, path + (('k', k),), depth + 1)
    elif b in ('Map', 'Record') and isinstance(v, dict):
        for f in m.fields(te):
            if f[1] in v and f[4] is None:
                yield from nodes(m, f[2], v[f[1]], path + (('k', f[1]),), depth + 1)
    elif b == 'Array' and 'format' not in te.o and isinstance(v, list):
        for k, f in enumerate(m.fields(te)):
            if k < len(v) and v[k] is not None and f[4] is None:
                yield from nodes(m, f[2], v[k], path + (('i', k),), depth + 1)
    elif b == 'Choice' and isinstance(v, dict) and 'combine' not in te.o:
        for f in m.fields(te):
            k = f[0] if 'id' in te.o else f[1]
            if k in v:
                yield from nodes(m, f[2], v[k], path + (('k', k),), depth + 1)
    elif b == 'Choice' and 'combine' in te.o:
        for f in m.fields(te)[:4]:
            if isinstance(m.encode(f[2], v, True, True), model.OK):
                for t, x, p in nodes(m, f[2], v, path, depth + 1):
                    if p != path or depth < 3:
                        yield t, x, p


def put(v, path, new):
    if not path:
        return new
    (kind, k), rest = path[0], path[1:]
    if kind == 'K':
        return {(new if a == k else a): b for a, b in v.items()}
    if isinstance(v, dict):
        return {a: (put(b, rest, new) if a == k else b) for a, b in v.items()}
    return [put(b, rest, new) if i == k else b for i, b in enumerate(v)]


def near(s, m, te, v):
    """-> value changed at one place, and a label for what was attacked"""
    ns = list(nodes(m, te, v))
    if len(ns) > 1 and s.p(75):
        ns = ns[1:]
    t, x, path = s.pick(ns)
    try:
        new, lab = edge(s, m, t, x)
    except (NoValue, RecursionError, IndexError, KeyError, TypeError, AttributeError, ValueError, StopIteration):     # the value is already broken here
        new, lab = junk(s, True), 'junk'
    if path and path[-1][0] == 'K':
        try:
            hash(new)
        except TypeError:
            new, lab = 'zz', 'junk'
    return put(v, path, new), lab


def edge(s, m, t, x):
    b, o = t.base, t.o
    k = s.n(10)
    if k == 9:
        return junk(s, True), b + ':junk'
    if b in ('Binary', 'String') and not o.get('format') and not o.get('pattern') and isinstance(x, (bytes, str)):
        lo = o.get('minv', 0)
        hi = o.get('maxv', 0) or (m.max_bin if b == 'Binary' else m.max_str)
        n = s.pick([lo - 1, hi + 1, lo, hi, 0, 1, lo - 1, hi + 1])
        n = max(n, 0)
        return (rbytes if b == 'Binary' else rstr)(s, n), b + ':size'
    if b == 'Binary':
        if isinstance(x, bytes):
            return s.pick([x + b'\0', x[:-1], b'', x + x, x[1:], bytes(len(x)), b'\xff' * len(x), x[::-1], bytes(300)]), 'Binary/' + o['format']
    if b == 'String':
        if o.get('format') and isinstance(x, str) and s.p(30):
            return s.pick([x[:-1], x[1:], 'a' + x]), 'String/' + o['format'] + ' size'
        if o.get('format'):
            return s.pick(STR_SAMPLES[o['format']][1] + STR_SAMPLES[o['format']][0]), 'String/' + o['format']
        if isinstance(x, str):
            return s.pick([x + 'a', 'a' + x, x[:-1], x[1:], x.upper(), x.swapcase(), '', ' ' + x, x + '0', x + ' ', x * 2]), 'String:pattern'
    if b == 'Boolean':
        return s.pick([1, 0, 'true', 'false', None, 1.0, '', []]), 'Boolean'
    if b == 'Integer':
        f = o.get('format')
        if ('minv' in o or 'maxv' in o) and s.p(50):
            f = None
        if f in model.INT_FORMATS:
            z = model.INT_FORMATS[f]
            return s.pick([z, -z - 1, z - 1, -z, z * 2, 1.5, True]), 'Integer/' + f
        if f == 'datetime-ms':
            return s.pick([-1, 1.5, True, 10 ** 18, -10 ** 18, 253402300800000, 253402300799999, '0', 1001, 999]), 'Integer/datetime-ms'
        c = [float(x) if isinstance(x, int) and abs(x) < 2 ** 53 else 0.5, str(x), True, 0.5]
        for q in ('minv', 'maxv'):
            if q in o:
                c += [o[q] - 1, o[q] + 1, o[q], o[q] - 1 if q == 'minv' else o[q] + 1]
        return s.pick(c[::-1]), 'Integer:range'
    if b == 'Number':
        c = ['1.5', True, None]
        for q in ('minf', 'maxf'):
            if q in o:
                e = s.pick([0.001, 1, 0.5, 1e-9])
                c += [o[q] - e, o[q] + e, o[q], int(o[q]) - 1, int(o[q]) + 1]
        return s.pick(c[::-1]), 'Number:range'
    if b == 'Enumerated':
        c = ['nosuch', 99999, True, None]
        for i, n in t.fields:
            c += [i, n, n + 'x', n.upper(), i + 1, str(i)]
        return s.pick(c), 'Enumerated'
    if b == 'Choice':
        if 'combine' in o:
            f = s.pick(m.fields(t))
            return m.value(s, f[2]) if s.p(70) else junk(s, True), 'Union'
        c = [{}, []]
        fl = m.fields(t)
        kk = lambda f: f[0] if 'id' in o else f[1]
        if isinstance(x, dict) and x:
            (ck, cv), = list(x.items())[:1]
            c += [{'nosuch': cv}, {77777: cv}, {**x, 'nosuch': 1}, {str(ck): cv}, cv]
            for f in fl:
                c += [{kk(f): cv}, {f[0]: cv}, {f[1]: cv}, {**x, kk(f): cv}]
        if s.p(30):
            f = s.pick(fl)
            return {**x, kk(f): m.value(s, f[2])}, 'Choice'
        return s.pick(c), 'Choice'
    if b == 'ArrayOf' and isinstance(x, list):
        lo, hi = o.get('minv', 0), o.get('maxv', 0) or m.max_el
        if (o.get('unique') or o.get('set')) and x and s.p(50):
            d = s.pick(x)
            i = s.n(len(x) + 1)
            if len(x) >= hi and len(x) > 1 and s.p(70):
                return [x[0]] + [x[0]] + x[2:], 'ArrayOf:duplicate'
            return x[:i] + [d] + x[i:], 'ArrayOf:duplicate'
        n = max(s.pick([lo - 1, hi + 1, lo, hi, 0]), 0)
        out = list(x)
        if n < len(out):
            return out[:n], 'ArrayOf:size'
        e = m.elem(t)
        if n - len(out) > 8:
            if not out:
                out = [m.value(s, e)]
            base = out[0]
            out = out + [base] * (n - len(out))
            return out, 'ArrayOf:size'
        while len(out) < n:
            out.append(m.value(s, e))
        return out, 'ArrayOf:size'
    if b == 'MapOf' and isinstance(x, dict):
        lo, hi = o.get('minv', 0), o.get('maxv', 0) or m.max_el
        n = max(s.pick([lo - 1, hi + 1, lo, hi, 0]), 0)
        out = dict(x)
        while len(out) > n:
            out.pop(next(iter(out)))
        for _ in range(3 * min(n, 8)):
            if len(out) >= n:
                break
            out[m.value(s, m.te(o['ktype']))] = m.value(s, m.te(o['vtype']))
        if len(out) < n and n > 50:
            kt = m.te(o['ktype'])
            if kt.plain and kt.base in ('String', 'Integer', 'Binary'):
                vv = m.value(s, m.te(o['vtype']))
                for i in range(n - len(out)):
                    out[{'String': f's{i}', 'Integer': 5000 + i, 'Binary': b'%d' % i}[kt.base]] = vv
        return out, 'MapOf:size'
    if b in ('Map', 'Record') and isinstance(x, dict):
        fl = m.fields(t)
        j = s.n(6)
        if j == 0 and x:            # drop a field
            d = s.pick(list(x))
            return {a: c for a, c in x.items() if a != d}, b + ':missing'
        if j == 1:
            return {**x, s.pick(['nosuch', 'zz9'] + [f[1] + '_' for f in fl]): s.pick([1, 'a', [], {}])}, b + ':unknown'
        if j == 2:                  # only the required ones / all of them
            if s.p(50):
                return {f[1]: x[f[1]] for f in fl if f[3] and f[1] in x}, b + ':size'
            return {f[1]: (x[f[1]] if f[1] in x else m.value(s, f[2])) for f in fl if f[4] is None or f[1] in x}, b + ':size'
        if j == 3 and len(x) > 1:     # swap two values
            a, c = s.pick(list(x)), s.pick(list(x))
            return {**x, a: x[c], c: x[a]}, b + ':swap'
        if j == 4:
            tags = [f for f in fl if f[4] is not None]
            if tags:
                f = s.pick(tags)
                tn = next(y[1] for y in fl if y[0] == f[4])
                z = s.n(4)
                if z == 0:
                    return {a: c for a, c in x.items() if a != tn}, 'TagId:no tag'
                if z == 1:
                    return {a: c for a, c in x.items() if a != f[1]}, 'TagId:no value'
                g = s.pick(m.fields(f[2]))
                return ({**x, tn: g[1]} if z == 2 else {**x, f[1]: m.value(s, g[2])}), 'TagId:mismatch'
        opt = [f for f in fl if not f[3]]
        if opt:
            f = s.pick(opt)
            return {a: c for a, c in x.items() if a != f[1]} if f[1] in x else {**x, f[1]: m.value(s, f[2])}, b + ':optional'
        return {f[0]: x.get(f[1], 1) for f in fl}, b + ':ids'
    if b == 'Array' and isinstance(x, list):
        if 'format' in o:
            j = s.n(8)
            return [[x[0]], x + [1], [x[0], -1], [x[0], 129], [x[0], 33], [x[1], x[0]], [x[0][:-1], x[1]], [x[0], None]][j], 'Array/' + o['format']
        j = s.n(6)
        if j == 0:
            return x + [None] * s.int(1, 3), 'Array:trailing None'
        if j == 1:
            return x + [s.pick([1, 'a', [], {}])], 'Array:extra'
        if j == 2 and x:
            i = s.n(len(x))
            return x[:i] + [None] + x[i + 1:], 'Array:hole'
        if j == 3 and x:
            return x[:-1], 'Array:short'
        if j == 4 and x:
            i = s.n(len(x))
            return x[:i] + x[i + 1:], 'Array:shift'
        fl = m.fields(t)
        return [x[i] if i < len(x) and x[i] is not None else m.value(s, f[2]) if f[4] is None else None for i, f in enumerate(fl)], 'Array:full'
    return junk(s, True), b + ':junk'


def loose(m, te, v, vr, vs, depth=0):
    """the message an unchecking encoder would write"""
    lo = lambda t, x: loose(m, t, x, vr, vs, depth + 1)
    b, o = te.base, te.o
    if depth > 40:
        return None
    if isinstance(v, bytes):
        r = model.b2wire(o.get('format'), v) if b == 'Binary' else None
        if isinstance(r, model.OK):
            return r.v
        f = o.get('format')
        if f == 'ipv4-addr':
            return '.'.join(map(str, v))
        if f == 'ipv6-addr':
            return ':'.join('%x' % c for c in v)
        if f in ('eui', 'X'):
            return v.hex().upper()
        if f == 'uuid':
            h = v.hex()
            return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
        return base64.urlsafe_b64encode(v).decode().rstrip('=')
    if b == 'Integer' and o.get('format') == 'datetime-ms' and type(v) is int:
        r = model.ms2text(v)
        return r.v if isinstance(r, model.OK) else str(v)
    if b == 'Enumerated':
        api = 0 if 'id' in o else 1
        k = 0 if m.key_repr(te, vs) == 'id' else 1
        return next((it[k] for it in te.fields if it[api] == v and type(it[api]) is type(v)), v)
    if b == 'Choice':
        if 'combine' in o:
            r = m.encode(te, v, vr, vs)
            if isinstance(r, model.OK):
                return r.v
            return lo(m.fields(te)[0][2], v)
        if isinstance(v, dict):
            out = {}
            for k, x in v.items():
                f = next((f for f in m.fields(te) if (f[0] if 'id' in o else f[1]) == k), None)
                out[(f[0] if m.key_repr(te, vs) == 'id' else f[1]) if f else k] = lo(f[2], x) if f else plain(x)
            return out
    if b == 'ArrayOf' and isinstance(v, list):
        return [lo(m.elem(te), x) for x in v]
    if b == 'MapOf' and isinstance(v, dict):
        out = {}
        for k, x in v.items():
            w = lo(m.te(o['ktype']), k)
            out[w if isinstance(w, (str, int)) else str(w)] = lo(m.te(o['vtype']), x)
        return out
    if b in ('Map', 'Record') and isinstance(v, dict):
        fl = m.fields(te)
        vals, extra = {}, {}
        for k, x in v.items():
            f = next((f for f in fl if f[1] == k), None)
            if f is None:
                extra[k] = plain(x)
            elif f[4] is not None:
                tn = next(y[1] for y in fl if y[0] == f[4])
                g = next((g for g in m.fields(f[2]) if g[1] == v.get(tn)), None)
                vals[f[0]] = lo(g[2], x) if g else plain(x)
            else:
                vals[f[0]] = lo(f[2], x)
        if b == 'Record' and not vr:
            out = [vals.get(f[0]) for f in fl] + list(extra.values())
            while out and out[-1] is None:
                out.pop()
            return out
        kr = 0 if m.key_repr(te, vs) == 'id' else 1
        return {**{f[kr]: vals[f[0]] for f in fl if f[0] in vals}, **extra}
    if b == 'Array' and isinstance(v, list):
        if 'format' in o:
            r = m.net_encode(o['format'], v)
            if isinstance(r, model.OK):
                return r.v
            return '/'.join(('.'.join(map(str, x)) if isinstance(x, bytes) else str(x)) for x in v)
        fl = m.fields(te)
        return [None if x is None else lo(fl[i][2], x) if i < len(fl) and fl[i][4] is None else plain(x) for i, x in enumerate(v)]
    return plain(v)


def plain(v):
    """something json can carry"""
    if isinstance(v, bytes):
        return base64.urlsafe_b64encode(v).decode().rstrip('=')
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {(k if isinstance(k, (str, int)) else repr(k)): plain(x) for k, x in v.items()}
    return v
