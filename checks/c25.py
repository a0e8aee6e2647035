"""C25: configured limits and name rules are honoured"""
import copy
import re

from vlib.cases import MODES, REJECT, mkcodec, to_json
from vlib.model import same
from vlib.runner import Prop, require

import jadn
import jsonschema

ID = 'C25'
RULE = ('limits: a configuration of the three default limits (each absent or 1-40), one type of each sized kind with no, a lower, an upper or both '
        'bounds, and values whose size is within two of every bound in force, encoded and decoded, alone, by reference, as list element and as inline field '
        'type; the verdict is counted directly. names: a configuration of name rules, and type, field, reference, namespace and export names near the '
        'rules; checking must accept exactly when every name matches its rule. patterns: patterns that name a variable of the configuration (or only look like it), the type-reference placeholder, and types named like a variable, with text on either side of the rule in force. In limits and patterns the configuration may be given to the codec instead of the schema. Non-trivial: the size is within one of the bound, or the name is '
        'within one character of the rule; distinct by (bounds, kind, size) or (rules, names).')
ASSUMPTIONS = ['"}0" means no maximum, as the codec documents for zero', 'plain built-in types used without a definition have no limit of their own',
               'names do not contain line feeds ("$" in Python patterns matches before one)', 'a name rule is one anchored expression (no alternatives outside a group)', 'the reserved character $Sys is not configurable in this library']

KINDS = ['String', 'Binary', 'Binary/x', 'ArrayOf', 'MapOf', 'Map', 'Record', 'Array', 'Mult', 'Binary/b', 'String%']
WHERE = ['self', 'field', 'elem', 'inline', 'choice', 'value']


def strategy_limits(s):
    cfg = {}
    arg = s.p(25)
    for k in ('$MaxBinary', '$MaxString', '$MaxElements'):
        if s.p(50):
            cfg[k] = s.int(1, 40)
    kind = s.pick(KINDS)
    lim = limit(kind, cfg)
    lo = s.pick([None, None, 0, 1, s.int(1, 40)])
    hi = s.pick([None, None, 0, s.int(1, 45), lim + 1, lim * 2, lim])
    if hi and lo and lo > hi:
        lo = hi
    if kind in ('Map', 'Record', 'Array'):
        n_fields = s.pick([lim + 2, lim + 1, lim, s.int(1, 45)])
        n_fields = min(n_fields, 260)
    else:
        n_fields = 0
    eff = hi or lim
    n = max(0, s.pick([eff, eff + 1, eff - 1, eff + 2, (lo or 0), (lo or 0) - 1, lim, lim + 1, s.int(0, 45), 0]))
    if kind in ('Map', 'Record', 'Array'):
        n = min(n, n_fields)
    return {'config': cfg, 'kind': kind, 'lo': lo, 'hi': hi, 'n': n, 'fields': n_fields, 'where': s.pick(WHERE), 'mode': list(s.pick(MODES)),
            'order': s.n(2), 'gap': s.n(4) if kind in ('Array', 'Record', 'Map') else 0, 'other': s.n(3), 'arg': arg}


def limit(kind, cfg):
    if kind.startswith('String'):
        return cfg.get('$MaxString', 255)
    if kind.startswith('Binary'):
        return cfg.get('$MaxBinary', 255)
    return cfg.get('$MaxElements', 100)


def oracle_limits(case, cov):
    kind, cfg, lo, hi, n, where, mode = (case[k] for k in ('kind', 'config', 'lo', 'hi', 'n', 'where', 'mode'))
    vr, vs = mode
    sz = ([f'{{{lo}'] if lo is not None else []) + ([f'}}{hi}'] if hi is not None else [])
    if case['order']:
        sz.reverse()
    base, _, fm = kind.partition('/')
    nf = case['fields']
    pos = (nf - n) // 2 if case['gap'] == 1 and n < nf else 0      # which fields are present
    opts, fields = sz, []
    if base == 'ArrayOf':
        opts = ['*Integer'] + sz
        v = w = list(range(n))
    elif base == 'MapOf':
        opts = ['+String', '*Integer'] + sz
        v = w = {f'k{i}': i for i in range(n)}
    elif base in ('Map', 'Record', 'Array'):
        fields = [[i + 1, f'f{i}', 'Integer', ['[0'], ''] for i in range(nf)]
        v = {f'f{i}': i for i in range(pos, pos + n)}
        if base == 'Array' or (base == 'Record' and not vr):
            w = [None] * pos + list(range(pos, pos + n))
            w = w if n else []
        else:
            w = {(f'f{i}' if vs else i + 1): i for i in range(pos, pos + n)}
        v = w if base == 'Array' else v
    elif base == 'String' or base == 'String%':
        base = 'String'
        if kind == 'String%':
            if sz:
                lo = hi = None      # a string has a pattern or a size, not both
            opts = ['%^a*$']
        v = w = 'a' * n
    elif base == 'Binary':
        opts = sz + (['/' + fm] if fm else [])
        v = b'\x00' * n
        import base64
        w = '00' * n if fm == 'x' else base64.urlsafe_b64encode(v).decode().rstrip('=')
    else:       # Mult
        base, opts = 'Record', []
        v = w = list(range(n))
    info = {'package': 'http://a.b/c'}
    if cfg:
        info['config'] = cfg
    lim = hi or limit(kind, cfg)
    least = lo or 0
    if kind == 'Mult':
        mn, mx = (lo if lo is not None else 1), hi or 0
        if mn > mx > 0:
            mn = mx
        mx_ = mx if mx != 1 else 2
        types = [['W', 'Record', [], '', [[1, 'f', 'Integer', [f'[{mn}', f']{mx_}'], '']]]]
        least, lim = max(mn, 1), mx_ or limit('ArrayOf', cfg)
        tn, wrap = 'W', (lambda x, api: {'f' if vs or api else 1: x} if vr or api else [x])
        if n == 0 and mn == 0:
            least = 1           # an empty list is not an absent field
    else:
        types = [['T', base, opts, '', fields]]
        ref = base if where == 'inline' and base not in ('Map', 'Record', 'Array') and opts else 'T'
        fo = list(opts) if ref == base else []
        if where == 'inline' and ref == 'T':
            where = 'field'
        use = {'self': None, 'field': ['W', 'Record', [], '', [[1, 'f', ref, fo, '']]],
               'inline': ['W', 'Record', [], '', [[1, 'f', ref, fo, '']]],
               'elem': ['W', 'ArrayOf', ['*T'], '', []], 'value': ['W', 'MapOf', ['+String', '*T'], '', []],
               'choice': ['W', 'Choice', [], '', [[1, 'f', 'T', [], '']]]}[where]
        if use:
            types.append(use)
        tn = 'W' if use else 'T'

        def wrap(x, api):
            k = 'f' if vs or api else 1
            return {'self': x, 'field': {k: x} if vr or api else [x], 'inline': {k: x} if vr or api else [x], 'elem': [x], 'value': {'k': x},
                    'choice': {k: x}}[where]
    ok = least <= n <= lim
    # the enclosing containers hold one element, within every limit
    if case.get('arg'):         # a configuration given to the codec counts instead of the schema's
        c = jadn.codec.Codec({'info': {'package': 'http://a.b/c', 'config': {'$MaxString': 7, '$MaxBinary': 3, '$MaxElements': 5}}, 'types': types}, *mode, config={'info': info})
    else:
        c = mkcodec({'info': info, 'types': types}, mode)
    for word, x in (('encode', wrap(v, True)), ('decode', to_json(wrap(w, False)))):
        try:
            getattr(c, word)(tn, x)
            got = True
        except REJECT:
            got = False
        cov.label(f'{word} {kind} {"in" if ok else "out"}', 'at ' + where, 'config' if cfg else 'default', f'bounds {lo is not None}/{bool(hi)}')
        require(got == ok, lambda: f'{kind} at {where} with bounds {sz} and config {cfg}: {word} {"accepts" if got else "rejects"} size {n} (limits {least}..{lim})')
    if abs(n - lim) <= 1 or abs(n - least) <= 1:
        cov.hit((kind, least, lim, n, where, bool(cfg)))


# ---------------------------------------------------------------- names
TYPE_RULES = [None, '^[$A-Z][-$A-Za-z0-9]{0,63}$', '^[A-Z][a-z]{0,7}$', '^[A-Za-z][A-Za-z0-9_.]{0,5}$', '^(T[0-9]{1,3}|[A-Z]{2,4})$', '^[a-z-]{1,20}$',
              r'^\w{3,9}$']
FIELD_RULES = [None, '^[$a-z][_$A-Za-z0-9]{0,63}$', '^[A-Z]{1,3}$', '^[a-z]+(-[a-z]+)*$', r'^\w{1,5}$', '^(x|y|zz)$']
NSID_RULES = [None, '^([A-Za-z][A-Za-z0-9]{0,7})?$', '^[a-z]{2,3}$', '^n[0-9]$']
CHARS = list('AbTxz09-_$.é:') + ['n1', 'ns', 'ZZ', ' ']


def near_name(s, seeds):
    n = s.pick(seeds)
    for _ in range(s.pick([0, 0, 0, 1, 1, 2])):
        i = s.n(len(n) + 1)
        k = s.n(4)
        n = n[:i] + s.pick(CHARS) + n[i:] if k == 0 else n[:i] + n[i + 1:] if k == 1 else n[:i] + s.pick(CHARS) + n[i + 1:] if k == 2 else n.swapcase()
    return n


T_SEEDS = ['Abc', 'T1', 'ZZ', 'Name-x', 'A' * 64, 'A' * 65, '$Sys', 'abc', 'Ab_c.d', 'X', 'T123', 'ABCD', 'Abcdefgh', 'aaa-bb']
F_SEEDS = ['abc', 'x', 'zz', 'a' * 64, 'a' * 65, '$f', 'ABC', 'a-b', 'a_b', 'Y', 'type', 'x1']
N_SEEDS = ['ns', 'n1', 'abc', 'abcdefgh', 'abcdefghi', 'A', '', 'x-y']


def strategy_names(s):
    rules = {'$TypeName': s.pick(TYPE_RULES), '$FieldName': s.pick(FIELD_RULES), '$NSID': s.pick(NSID_RULES)}
    rules = {k: v for k, v in rules.items() if v}
    tr, fr, nr = (re.compile(rules.get(k) or d) for k, d in (('$TypeName', TYPE_RULES[1]), ('$FieldName', FIELD_RULES[1]), ('$NSID', NSID_RULES[1])))
    mostly = lambda seeds, rx: s.pick([x for x in seeds if rx.match(x)] or seeds) if s.p(75) else near_name(s, seeds)
    tn = [mostly(T_SEEDS, tr), mostly(T_SEEDS, tr)]
    if tn[0] == tn[1]:
        tn = tn[:1]
    fn = [mostly(F_SEEDS, fr)]
    base = s.pick(['Record', 'Map', 'Choice', 'Array'])
    ref = s.pick(tn + ['String' if tr.match('String') else tn[0]])
    ns = mostly(N_SEEDS, nr)
    if s.p(30):
        ref = ns + ':' + mostly(T_SEEDS, tr)
    return {'rules': rules, 'types': tn, 'field': fn[0], 'base': base, 'ref': ref, 'ns': ns if s.p(40) else None, 'nsform': s.n(2),
            'exports': mostly(T_SEEDS, tr) if s.p(25) else None, 'roots': mostly(T_SEEDS, tr) if s.p(25) else None, 'item': s.pick(['a b', '', '$', 'X']) if s.p(20) else None}


BUILTIN = {'Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record'}


def oracle_names(case, cov):
    r = case['rules']
    tr, fr, nr = (r.get(k, d) for k, d in (('$TypeName', TYPE_RULES[1]), ('$FieldName', FIELD_RULES[1]), ('$NSID', NSID_RULES[1])))
    m = lambda rx, x: re.match(rx, x) is not None
    types = [[case['types'][0], case['base'], [], '', [[1, case['field'], case['ref'], [], '']]]]
    if len(case['types']) > 1:
        types.append([case['types'][1], 'String', [], '', []])
    elif case['item'] is not None:      # items of an enumeration are not subject to a name rule
        types[0] = [case['types'][0], 'Enumerated', [], '', [[1, case['item'], '']]]
    info = {'package': 'http://a.b/c'}
    if r:
        info['config'] = dict(r)
    if case['ns'] is not None:
        info['namespaces'] = {case['ns']: 'http://x.y/z'} if case['nsform'] else [[case['ns'], 'http://x.y/z']]
    for k in ('exports', 'roots'):
        if case[k] is not None:
            info[k] = [case[k]]
    sc = {'info': info, 'types': types}
    bad = []
    for t in types:
        if not m(tr, t[0]):
            bad.append(f'type name {t[0]!r}')
        if t[0] in BUILTIN:
            bad.append('reserved')
        for f in t[4]:
            if t[1] != 'Enumerated' and not m(fr, f[1]):
                bad.append(f'field name {f[1]!r}')
            if t[1] != 'Enumerated':
                p, c, x = f[2].partition(':')
                q, c2, y = f[2].rpartition(':')
                if not (m(tr, f[2]) or (c and m(nr, p) and m(tr, x)) or (c2 and m(nr, q) and m(tr, y))):
                    bad.append(f'reference {f[2]!r}')
    if case['ns'] is not None and not m(nr, case['ns']):
        bad.append('nsid')
    for k in ('exports', 'roots'):
        if case[k] is not None and not m(tr, case[k]):
            bad.append(k)
    try:
        jadn.check(copy.deepcopy(sc))
        got = True
    except REJECT + (jsonschema.ValidationError, AssertionError) as e:
        got, err = False, f'{type(e).__name__} {e}'[:200]
    cov.label('names ' + ('good' if not bad else 'bad ' + bad[0].split(' ')[0]), 'rules' if r else 'default rules')
    require(got == (not bad), lambda: f'check {"accepts" if got else "rejects"} {sc!r}: ' + (f'wrong names {bad}' if got else f'all names match their rules ({err})'))
    cov.hit(case)


# ---------------------------------------------------------------- patterns that name a variable of the configuration
NAMED = {'$TypeName': TYPE_RULES, '$FieldName': FIELD_RULES, '$NSID': NSID_RULES}
TEXTS = T_SEEDS + F_SEEDS + N_SEEDS + ['$TypeName', '$Other', 'ns:Abc', 'n1:T1', ':Abc', 'ns:', 'ns:Abc:Def', 'A:b', 'n1:ZZ']


def strategy_patterns(s):
    rules = {k: s.pick(v) for k, v in NAMED.items()}
    rules = {k: v for k, v in rules.items() if v}
    kind = s.pick(['var', 'var', 'other', 'typeref', 'dollar'])
    name = s.pick(list(NAMED)) if kind in ('var', 'dollar') else s.pick(['$Other', '$', '$typename', '$NSIDx', '$MaxStrings', '$Type'])
    rule = rules.get(name) or NAMED.get(name, [0, ''])[1]
    text = s.pick(TEXTS)
    if s.p(60):
        text = s.pick([x for x in TEXTS if re.match(rule, x)] or TEXTS)
    if s.p(40):
        text = near_name(s, [text or 'a'])
    if kind == 'typeref' and s.p(60):
        tr, nr = rules.get('$TypeName') or TYPE_RULES[1], rules.get('$NSID') or NSID_RULES[1]
        ok = lambda seeds, rx: s.pick([x for x in seeds if re.match(rx, x)] or seeds)
        text = s.pick(['', ok(N_SEEDS, nr) + ':', s.pick(N_SEEDS) + ':']) + s.pick([ok(T_SEEDS, tr), ok(T_SEEDS, tr), s.pick(T_SEEDS)])
    return {'rules': rules, 'kind': kind, 'name': name, 'text': text, 'where': s.pick(WHERE), 'arg': s.n(3), 'mode': list(s.pick(MODES)), 'more': s.p(30)}


def oracle_patterns(case, cov):
    kind, name, text, where = (case[k] for k in ('kind', 'name', 'text', 'where'))
    r = case['rules']
    rule = {k: r.get(k) or v[1] for k, v in NAMED.items()}
    m = lambda rx, x: re.match(rx, x) is not None
    vr, vs = case['mode']
    if kind == 'var':           # the expression the configuration gives
        opts, want = ['%' + name], m(rule[name], text)
    elif kind == 'other':       # not a variable: the pattern is the expression itself
        opts, want = ['%' + name], m(name, text)
    elif kind == 'typeref':     # text of this type is a type reference, local or qualified
        opts = []
        want = m(rule['$TypeName'], text)
        for i, ch in enumerate(text):
            want = want or ch == ':' and m(rule['$NSID'], text[:i]) and m(rule['$TypeName'], text[i + 1:])
    else:                       # a type, not a pattern, of the name of a variable
        opts, want = [], 1 <= len(text) <= 3
    if case['more'] and kind in ('var', 'other'):
        opts = ['{2'] + opts if len(text) % 2 else opts + ['}30']
        want = want and (len(text) >= 2 if len(text) % 2 else len(text) <= 30)
    tn = 'TypeRef' if kind == 'typeref' else name if kind == 'dollar' else 'T'
    t = [tn, 'String', ['{1', '}3'] if kind == 'dollar' else opts, '', []]
    ref, fo = ('String', opts) if where == 'inline' and opts else (tn, [])
    use = {'self': None, 'field': ['W', 'Record', [], '', [[1, 'f', ref, fo, '']]],
           'inline': ['W', 'Record', [], '', [[1, 'f', ref, fo, '']]],
           'elem': ['W', 'ArrayOf', ['*' + tn], '', []], 'value': ['W', 'MapOf', ['+' + tn, '*' + tn], '', []],
           'choice': ['W', 'Choice', [], '', [[1, 'f', tn, [], '']]]}[where]
    types = [t] + ([use] if use else [])

    def wrap(api):
        k = 'f' if vs or api else 1
        return {'self': text, 'field': {k: text} if vr or api else [text], 'inline': {k: text} if vr or api else [text], 'elem': [text], 'value': {text: text},
                'choice': {k: text}}[where]
    conf = {'package': 'http://a.b/c', **({'config': dict(r)} if r else {})}
    if case['arg'] == 1:        # a configuration given to the codec counts instead of the schema's
        other = {'package': 'http://a.b/c', 'config': {'$TypeName': '^x$', '$FieldName': '^y$', '$NSID': '^z$', '$MaxString': 1}}
        c = jadn.codec.Codec({'info': other, 'types': types}, *case['mode'], config={'info': conf})
    else:
        c = mkcodec({'info': conf, 'types': types}, case['mode'])
    want = want and len(text) <= 255
    for word in ('encode', 'decode'):
        x = wrap(word == 'encode')
        try:
            got = same(getattr(c, word)('W' if use else tn, x), wrap(word == 'decode'))
            require(got, f'{word} {x!r} changes it')
        except REJECT:
            got = False
        require(got == want, lambda: f'{kind} {name} {opts} at {where} with rules {r}: {word} {"accepts" if got else "rejects"} {text!r}')
    cov.label(f'{kind} {"in" if want else "out"}', 'at ' + where, 'config' if r else 'default', 'argument' if case['arg'] == 1 else 'schema')
    cov.hit((kind, name, rule.get(name), text, where))


PROPS = [Prop('limits', strategy_limits, oracle_limits, quick=700, thorough=40000, size=60),
         Prop('names', strategy_names, oracle_names, quick=220, thorough=8000, size=120),
         Prop('patterns', strategy_patterns, oracle_patterns, quick=700, thorough=30000, size=60)]
