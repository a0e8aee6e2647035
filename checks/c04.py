"""C04: hostile input never escapes as another exception, and leaves the codec working"""
import copy
import json

from vlib import gen, model, near
from vlib.cases import MODES, REJECT, gen_valid, mkcodec, pick_type, to_json
from vlib.model import same
from vlib.runner import Prop, Skip, require

ID = 'C04'
RULE = ('a case is a generated schema and a sequence of 1-6 calls with hostile values: random JSON of any shape (deep nesting, huge '
        'numbers, NaN, odd keys), valid messages with 1-4 random mutations, near misses, arbitrary Python objects on encode; one codec '
        'serves the whole sequence and after every call a valid message must give what a fresh codec gives. Non-trivial: some call was '
        'rejected; distinct by (schema, calls). text: long and malformed texts (repeated pieces of addresses, dates, URIs, regular expressions) for '
        'every semantic format, and for patterns that are not regular expressions, alone and inside other types.')
ASSUMPTIONS = ['rejection means ValueError or TypeError (with their subclasses)', 'nesting is at most 80 levels (Python recursion limit is out of scope)',
               'values contain no user-defined objects']

NAN = '@@nan'
INF = '@@inf'


def mat(v):
    if v == NAN and isinstance(v, str):
        return float('nan')
    if v == INF and isinstance(v, str):
        return float('-inf')
    if isinstance(v, list):
        return [mat(x) for x in v]
    if isinstance(v, dict):
        return {k: mat(x) for k, x in v.items()}
    return v


NASTY = [NAN, INF, 10 ** 400, -10 ** 400, 1e308, 5e-324, '\ud800', '\x00', 'x' * 5000, '٣', '0x10', '1e5', ' 1', '1_0', '+1', '-', '.', '@', '/', ':',
         '::ffff:1.2.3.4', '1.2.3.4/-1', '1.2.3.4/٣', '::/129', '::/', '/', '2020-01-01', '2020-01-01T00:00:00', 'T', '9999-12-31T23:59:59.999-23:59',
         '0001-01-01T00:00:00+23:59', 'a-' * 20, 'a' * 37, '-' * 40, '====', 'A===', 'A\n', '\u00e9' * 4, '%', '$', '{}', '[]', 'null', 'true', True, False, None]
KEYS = ['a', 'b', 'c', 'x_1', 'name', '0', '1', '2', '3', '-1', '1.0', '', 'é', '٣', '999999999999999999999', ' 1', 'None', 'id', 'k9', '\x00']
PYTHON = [(), (1, 2), {1, 2}, frozenset(), b'', b'\xff' * 300, 1j, {1: 2}, {None: 1}, {True: 1}, {(1, 2): 3}, {b'a': 1}, {1.5: 1}, [b''], ('a', b'b')]


def anyjson(s, depth=0):
    k = s.n(10)
    if depth > 4 or k < 5:
        return gen_scalar(s)
    if k == 5:
        v = gen_scalar(s)
        for _ in range(s.int(1, 75)):
            v = [v] if s.p(60) else {s.pick(KEYS): v}
        return v
    if k < 8:
        return [anyjson(s, depth + 1) for _ in range(s.n(5))]
    return {s.pick(KEYS): anyjson(s, depth + 1) for _ in range(s.n(5))}


def gen_scalar(s):
    return s.pick(NASTY) if s.p(50) else model.junk(s, False) if s.p(70) else model.rstr(s, s.n(20))


def strategy(s):
    sc = gen.schema(s)
    m = model.Model(sc)
    mode = s.pick(MODES)
    names = [t[0] for t in sc['types']]
    calls = []
    for _ in range(s.int(1, 6)):
        tn = s.pick(names)
        enc = s.p(40)
        how = s.n(8)
        v = None
        if how < 5:
            try:
                v = gen_valid(s, m, tn)
                if how < 2:
                    v, _l = near.near(s, m, m.te(tn), v)
                if not enc:
                    v = to_json(near.loose(m, m.te(tn), v, *mode))
            except (Skip, TypeError, KeyError, AttributeError, IndexError, ValueError):
                v = anyjson(s)
            for _j in range(s.n(4)):
                if s.p(50):
                    v = graft(s, v, anyjson(s) if not enc or s.p(60) else s.pick(PYTHON))
                else:
                    v = model.mutate(s, v, enc)
        else:
            v = anyjson(s) if not enc or s.p(50) else s.pick(PYTHON)
        calls.append([s.pick(names + ['Nosuch', 'String', '']) if s.p(10) else tn, 'encode' if enc else 'decode', v])
    try:
        probe_type = pick_type(s, sc, m)
        probe = [probe_type, gen_valid(s, m, probe_type)]
    except Skip:
        probe = None
    return {'schema': sc, 'mode': list(mode), 'calls': calls, 'probe': probe}


def graft(s, v, new):
    ps = list(model.paths_in(v))
    return model._at(v, s.pick(ps), lambda x: new)


def outcome(f, *a):
    try:
        return ('value', f(*a))
    except REJECT as e:
        return ('rejected', type(e).__name__)


def oracle(case, cov):
    sc, mode = case['schema'], tuple(case['mode'])
    names = {t[0] for t in sc['types']} | set(gen.PRIM)
    c = mkcodec(sc, mode)
    pr = case['probe']
    if pr:
        fresh = mkcodec(sc, mode)
        want = outcome(fresh.encode, *copy.deepcopy(pr))
        wantd = outcome(mkcodec(sc, mode).decode, pr[0], want[1]) if want[0] == 'value' else None
    bad = 0
    for tn, d, v in case['calls']:
        r = outcome(getattr(c, d), tn, mat(v))
        cov.label(f'{d} {r[0]}')
        bad += r[0] == 'rejected'
        if tn not in names:
            require(r == ('rejected', 'ValueError'), lambda: f'{d} of undefined type {tn!r}: {r!r}')
        if pr:
            got = outcome(c.encode, *copy.deepcopy(pr))
            require(got == want, lambda: f'after {d} {tn} {v!r}: encode {pr!r} gives {got!r}, a fresh codec {want!r}')
            if wantd:
                gotd = outcome(c.decode, pr[0], want[1])
                require(gotd == wantd, lambda: f'after {d} {tn} {v!r}: decode {pr[0]} {want[1]!r} gives {gotd!r}, a fresh codec {wantd!r}')
    if bad:
        cov.hit((sc['types'], case['calls']))


# ---------------------------------------------------------------- text for the formats and patterns
STRING = ['date-time', 'date', 'time', 'duration', 'email', 'idn-email', 'hostname', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'iri-reference',
          'uri-template', 'json-pointer', 'relative-json-pointer', 'regex']
OTHER = [('Binary', f) for f in ('eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b', 'x', 'X')] + [('Integer', f) for f in ('i8', 'i16', 'i32', 'i64', 'datetime-ms')] + \
        [('Number', f) for f in ('f16', 'f32', 'f64')] + [('Array', f) for f in ('ipv4-net', 'ipv6-net', 'tag-uuid')]
UNITS = ['a', 'a.', 'a-', '1', '0:', ':', 'a@', '%', '%41', '{', '{a,', '(', '(?:', '[', '\\', '\\1', '*', '{9}', '(a|', '(?=', '~', '~0', '/', ' ', '\u00e9', 'xn--', '1Y', 'T', '=', '"', '?', '#',
         '-', '+', '\u0000', '\ud800', '\u0663', '\U0001f600']
HEADS = ['', '', 'a@', 'http://', 'http://a/', 'http://[', 'P', '2020-01-01T00:00:00.', '2020-01-01T', '12:00:00', 'x{', '-', '(?', '[', '"', '/', '0', '::', '1.2.3.4/', 'a-', '(?i', '(?P<', 'a{', '\\u']
TAILS = ['', '', '!', '}', ')', ']', 'Z', '@a.b', '"@a.b', '/129', '\\', '.', '-', '%', '>a)', ',1}', '\n']
BAD_RE = ['a{99999999999999}', 'a{1,99999999999999999999}', '(', ')', '[', '[z-a]', '*', '+a', 'a**', '(?<=a*)', '\\', '(?z)x', '(?i', 'a{2,1}', '\\8', '(?P<a', '(?P<n>a)(?P<n>b)', '(?P<1>a)', '(?P=n)',
          '(?(1)a', '\\x1', '\\u12', '[a', '(?#', '(?L)a', '\\N{x}', '(((' * 2000]


def strategy_text(s):
    texts = []
    pat = ''
    for _ in range(s.int(1, 4)):
        n = s.pick([1, 2, 3, 7, 15, 40, 300, 5000, 20000]) if s.p(60) else s.int(0, 70)
        texts.append([s.pick(HEADS), s.pick(UNITS), n, s.pick(TAILS)])
    if s.p(40):
        texts[-1] = ['', s.pick(BAD_RE), 1, '']
    k = s.n(4)
    if k == 0:
        base, f, pat = 'String', '', s.pick(BAD_RE)
    elif k < 3:
        base, f = 'String', s.pick(STRING)
        if s.p(50) and texts[-1][1] in BAD_RE:
            f = 'regex'
    else:
        base, f = s.pick(OTHER)
    return {'base': base, 'format': f, 'pattern': pat, 'texts': texts, 'where': s.n(5), 'mode': list(s.pick(MODES))}


def oracle_text(case, cov):
    base, f, pat = case['base'], case['format'], case['pattern']
    parts = {'tag-uuid': [[1, 'a', 'String', [], ''], [2, 'b', 'Binary', [], '']]}.get(f, [[1, 'a', 'Binary', [], ''], [2, 'b', 'Integer', [], '']])
    opts = ['/' + f] * bool(f) + ['%' + pat] * bool(pat)
    top = ['T', base, opts + ([] if base in ('Number', 'Array') or pat else ['}100000']), '', parts if base == 'Array' else []]
    sc = {'types': [top, ['R', 'Record', [], '', [[1, 'f', 'T', [], '']]], ['L', 'ArrayOf', ['*T'], '', []], ['M', 'MapOf', ['+T', '*Integer'], '', []],
                    ['C', 'Choice', [], '', [[1, 'f', 'T', [], '']]], ['Ok', 'String', [], '', []]]}
    c = mkcodec(sc, tuple(case['mode']))
    v, m = tuple(case['mode'])
    tn = 'TRLMC'[case['where']]
    bad = 0
    for head, unit, n, tail in case['texts']:
        t = head + unit * n + tail
        for x in (t, True):
            w = x if tn == 'T' else [x] if tn == 'L' or tn == 'R' and not v else {x: 1} if tn == 'M' else {'f' if v or m else '1': x} if tn == 'C' else {'f' if v or m else '1': x}
            for d in ('decode', 'encode'):
                try:
                    r = outcome(getattr(c, d), tn, copy.deepcopy(w))
                except Exception as e:
                    require(False, lambda: f'{d} of {tn} (format {f!r}, pattern {pat[:60]!r}) with {head!r} + {n} * {unit!r} + {tail!r} ends in {type(e).__name__}: {str(e)[:200]}')
                if pat and tn == 'T':
                    require(r == ('rejected', 'ValueError') or x is True and r[0] == 'rejected', lambda: f'{d} accepts {w!r} though {pat[:60]!r} is not a regular expression: {r!r}')
                cov.label(f'{base} {f or "pattern"} {r[0]}')
                bad += r[0] == 'rejected' and x is not True
    require(c.encode('Ok', 'a') == 'a' == c.decode('Ok', 'a'), 'the codec no longer serves other types')
    if bad:
        cov.hit((base, f, pat, case['texts']))


PROPS = [Prop('hostile', strategy, oracle, quick=500, thorough=20000, size=900),
         Prop('text', strategy_text, oracle_text, quick=400, thorough=8000, size=120)]
