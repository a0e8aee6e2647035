"""C21: resolving imports yields one self-contained schema (a schema is split into packages; the resolved schema must be the original up to names)"""
import contextlib
import copy
import hashlib
import io
import itertools
import json
import os
import tempfile
from unittest import mock

from vlib import gen, model, notation as nt
from vlib.cases import REJECT, gen_valid, mkcodec
from vlib.runner import Prop, Skip, require
from checks.c09 import accepted
from checks.c15 import refs_of

import jsonschema

import jadn
from jadn.transform import resolve_imports

ID = 'C21'
RULE = ('a case is a generated schema whose types are split over two to five packages, with local names that coincide between packages, prefixes that differ between packages or coincide for different packages, map or list '
        'notation, exports or roots, packages in JADN or JIDL files with arbitrary names, files listed in two orders, unrelated files, a copy of the root, some prefixes not to be shown, perhaps a package without a file. The '
        'resolved schema must be accepted and be, under a one-to-one renaming of types by prefixes, the part of the original schema reachable from the exported types; exported types accept and encode the same '
        'values as in the original schema. faults: when a package that is reached uses an undeclared prefix or a type another package does not define, or the schema names no package or exports an undefined type, resolving is rejected. Non-trivial: a type of another package is reached; distinct by packages.')
ASSUMPTIONS = ['references in files and exports name defined types', 'prefixes not to be shown do not make names of types coincide', 'type names do not contain "$"', 'packages use one configuration',
               'of several files with the same package any one is used, but always the same']
PREFIX = ['a', 'b', 'x', 'ns', 'p1', 'type', 'x2', 'Enum']
URI = 'http://example.com/%s/v1'
SHARED = ['Shared', 'Item', 'A']


def strategy(s):
    sc = gen.schema(s, n_types=(3, 9), desc=s.pick(['none', 'plain']), short=s.pick([0, 25]))
    names = [t[0] for t in sc['types']]
    n = s.int(2, 5)
    pk = {t: s.n(n) for t in names}
    graph = {t[0]: refs_of(nt.full(t)) for t in sc['types']}
    top = sorted(names, key=lambda t: -len(closure(graph, [t])))[:1 + s.n(2)]       # exported types that reach many others
    for t in top:
        pk[t] = 0
    pool = s.shuffle(PREFIX)[:s.pick([2, 2, 4]) + n - 1]
    local, taken = {}, set()
    for t in names:
        x = s.pick(SHARED) if s.p(35) else t
        if (pk[t], x) in taken or x != t and x in names:
            x = t
        if (pk[t], x) in taken:
            x = t + '0'
        taken.add((pk[t], x))
        local[t] = x
    prefixes = []
    for p in range(n):
        ps = s.shuffle(pool)
        prefixes.append({q: [ps.pop() for _ in range(1 + (len(ps) > n + 1 and s.p(20)))] for q in range(n) if q != p})
    roots = [t for t in names if pk[t] == 0]
    used = sorted({x for d in prefixes for v in d.values() for x in v})
    exports = [t for t in roots if t in top or s.p(25)]
    m = model.Model(sc)
    vals = []
    for _ in range(s.int(0, 2)):
        t = s.pick(exports)
        try:
            v = gen_valid(s, m, t)
        except Skip:
            continue
        vals += [(t, v), (t, model.mutate(s, copy.deepcopy(v)))]
    missing = s.pick([p for p in range(1, n)]) if s.p(20) else None
    hide = s.some(used, 30) if s.p(25) else []
    if missing and s.p(35):
        hide = sorted({*hide, *(x for d in prefixes for x in d.get(missing, []))})
    return {'schema': sc, 'n': n, 'pk': pk, 'local': local, 'prefixes': prefixes, 'list': [s.p(50) for _ in range(n)], 'exports': exports, 'key': s.pick(['exports', 'roots']),
            'files': s.shuffle([f'{c}{s.pick(["", ".x", " 1"])}.{s.pick(["jadn", "jidl"])}' for c in 'abcdefgh'])[:n], 'rootfile': s.p(50), 'missing': missing,
            'hide': hide, 'other': s.p(40), 'extra': s.p(30), 'dup': s.p(10), 'vals': vals}


def rename_refs(td, name, ref):
    """copy of a definition with its name and references replaced"""
    def opt(o):
        if o[0] in '*+':
            p = o[1] if o[1] in '#>' else ''
            t = o[1 + len(p):]
            return o[0] + p + (t if t in gen.CORE else ref(t))
        return o[0] + ref(o[1:]) if o[0] in '#>' else o
    td = copy.deepcopy(td)
    td[0] = name(td[0])
    if len(td) > 2:
        td[2] = [opt(o) for o in td[2]]
    for f in td[4] if len(td) > 4 and td[1] in gen.COMPOUND else []:
        f[2] = f[2] if f[2] in gen.CORE else ref(f[2])
        f[3] = [opt(o) for o in f[3]]
    return td


def split(case):
    sc, pk, local = case['schema'], case['pk'], case['local']
    out = []
    for p in range(case['n']):
        k, refs = [0], set()

        def ref(t, p=p):
            if pk[t] == p:
                return local[t]
            k[0] += 1
            ps = case['prefixes'][p][pk[t]]
            refs.add(ps[k[0] % len(ps)])
            return f'{ps[k[0] % len(ps)]}:{local[t]}'
        types = [rename_refs(t, lambda n: local[n], ref) for t in sc['types'] if pk[t[0]] == p]
        ns = [(x, URI % q) for q, v in case['prefixes'][p].items() for x in v if x in refs or case['extra']]
        info = {'package': URI % p, **({'namespaces': [list(x) for x in ns] if case['list'][p] else dict(ns)} if ns else {})}
        if p == 0:
            info[case['key']] = [local[t] for t in case['exports']]
        out.append({'info': info, 'types': types})
    return out


def closure(graph, start):
    seen, todo = set(), list(start)
    while todo:
        t = todo.pop()
        if t not in seen:
            seen.add(t)
            todo += graph[t]
    return seen


def reach(case):
    graph = {t[0]: refs_of(nt.full(t)) if case['pk'][t[0]] != case['missing'] else () for t in case['schema']['types']}
    return closure(graph, case['exports'])


def write(pkg, fn):
    if fn.endswith('.jidl'):
        jadn.convert.jidl_dump(pkg, fn)
    else:
        with open(fn, 'w', encoding='utf8') as f:
            json.dump(pkg, f)


def run(root, d, hide, order):
    """resolve with the directory listed in a given order"""
    real = os.listdir

    def listdir(path='.'):
        return sorted(real(path), key=lambda n: hashlib.md5(f'{order}{n}'.encode()).digest())
    with mock.patch('os.listdir', listdir), contextlib.redirect_stdout(io.StringIO()):
        return resolve_imports(root, d, tuple(hide))


def called(m, x, names):
    """Names a type m of a package with prefix x may have: m$x, or if that is too long another that starts with m's first characters"""
    want = f'{m}${x}' if x else m
    if len(want) <= 64:
        return [n for n in names if n == want]
    return [n for n in names if n.endswith(f'${x}') and n[:40] == m[:40]]


def oracle(case, cov):
    sc, pk, local = case['schema'], case['pk'], case['local']
    pkgs = split(case)
    if not accepted(sc) or not all(accepted(p) for p in pkgs if p['types']):
        cov.label('not accepted')
        return
    missing = case['missing']
    with tempfile.TemporaryDirectory(prefix='verif-c21-') as d:
        for p, (pkg, fn) in enumerate(zip(pkgs, case['files'])):
            if p != missing and pkg['types'] and (p or case['rootfile']):
                write(pkg, os.path.join(d, fn))
        if case['other']:
            write({'info': {'package': 'http://other', 'namespaces': {'a': URI % 1, 'x': URI % 0, 'zz': 'http://nowhere'}, 'exports': ['A']},
                   'types': [['A', 'Record', [], '', [[1, 'a', 'a:' + (pkgs[1]['types'] or [['A']])[0][0], [], '']]]]}, os.path.join(d, '0.jadn'))
            with open(os.path.join(d, 'readme.txt'), 'w') as f:
                f.write('no schema')
        dup = case['dup'] and pkgs[1]['types'] and missing != 1
        if dup:
            x = copy.deepcopy(pkgs[1])
            for t in x['types']:
                if len(t) > 3:
                    t[3] = 'other'
            write(x, os.path.join(d, 'bb.jadn'))
            case = dict(case, hide=[])
        content = {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))}
        root = copy.deepcopy(pkgs[0])
        got = run(root, d, case['hide'], 0)
        require(root == pkgs[0], 'the schema was modified')
        for order in (1, 2) if len(content) > 1 else ():
            require(run(root, d, case['hide'], order) == got, 'the result depends on the order of files')
        require(content == {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))}, 'files were modified')
    used = reach(case)
    gone = {t for t in used if pk[t] == missing}
    used -= gone
    names = [t[0] for t in got['types']]
    # with hidden prefixes names may coincide
    flat = [local[t] for t in used]
    if case['hide'] and len(set(flat)) < len(flat):
        cov.label('hidden prefixes make names coincide')
        return
    require(len(set(names)) == len(names), lambda: f'types defined twice: {sorted(names)}')
    try:
        acc = jadn.check(copy.deepcopy(got))
    except Exception as e:
        require(False, f'the resolved schema is not accepted: {e!r}')
    require({k: v for k, v in got['info'].items() if k != 'namespaces'} == {k: v for k, v in pkgs[0]['info'].items() if k != 'namespaces'}, lambda: f'information {got["info"]}')
    ns = got['info'].get('namespaces', {})
    require(missing is not None or not ns, lambda: f'remaining namespaces {ns}')
    require(set(dict(ns).values()) <= {URI % missing}, lambda: f'remaining namespaces {ns}')
    declared = {x for d in case['prefixes'] for x in d.get(missing, [])}
    require(all(x in declared or any(x[:len(y)] == y and x[len(y):].isdigit() for y in declared) for x in dict(ns)), lambda: f'remaining namespaces {ns}, declared {sorted(declared)}')
    # one renaming per package
    cand = {0: ['']}
    for p in range(1, case['n']):
        mine = [local[t] for t in used if pk[t] == p]
        if mine:
            sufs = {n.split('$', 1)[1] if '$' in n else '' for n in names}
            pref = {x for q in range(case['n']) if q != p for x in case['prefixes'][q][p]}
            ok = [x for x in sorted(sufs) if all(called(m, x, names) for m in mine) and
                  (x == '' and pref & set(case['hide']) or x in pref or any(x.startswith(y) and x[len(y):].isdigit() for y in pref))]
            require(ok, lambda: f'package {p}: types {sorted(mine)} with prefix {sorted(pref)} not found in {sorted(names)}')
            cand[p] = ok
    full = {t[0]: nt.full(t) for t in got['types']}
    err = None
    def renamings():
        for pick in itertools.product(*cand.values()):
            suf = dict(zip(cand, pick))
            order = sorted(used)
            for ns in itertools.product(*(called(local[t], suf[pk[t]], names) or [None] for t in order)):
                yield pick, dict(zip(order, ns))

    for pick, nm in itertools.islice(renamings(), 64):
        if len(set(nm.values())) < len(nm):
            err = err or f'types {sorted(names)}'
            continue
        for t in gone:
            nm[t] = None
        want = set(nm[t] for t in used)
        if want != set(names):
            err = err or f'types {sorted(names)}, expected {sorted(want)}'
            continue
        inv = {nm[t]: t for t in used}

        def back(r):
            if ':' in r:
                x, t = r.split(':', 1)
                m = [g for g in gone if local[g] == t and dict(ns).get(x) == URI % pk[g]]
                return m[0] if m else '?' + r
            return inv.get(r, '?' + r)
        bad = [(a, b) for a, b in ((nt.norm_type(rename_refs(full[nm[t[0]]], back, back), not dup), nt.norm_type(t, not dup)) for t in sc['types'] if t[0] in used) if a != b]
        if not bad:
            break
        err = nt.diff([bad[0][0]], [bad[0][1]])
    else:
        require(False, f'resolved schema differs: {err}')
    if dup:
        cov.label('two files of one package')
        return
    cov.label(f'packages:{len({pk[t] for t in used})}', case['key'], *(['missing'] if gone else []), *(['hidden'] if case['hide'] else []), *(['numbered prefix'] if any(x[-1:].isdigit() and x not in PREFIX for x in pick) else []))
    # messages
    if not gone:
        for t, v in case['vals']:
            r = []
            for schema, tn in ((sc, t), (acc, nm[t])):
                try:
                    r.append(('accepted', mkcodec(schema, (False, False)).encode(tn, copy.deepcopy(v))))
                except REJECT as e:
                    r.append(('rejected', type(e)))
            require(r[0] == r[1], lambda: f'{t} {v!r}: {r[0]} in separate packages, {r[1]} after resolving')
            cov.label('value ' + r[0][0])
    if any(pk[t] for t in used):
        cov.hit((pkgs, case['exports'], missing))


def strategy_faults(s):
    case = strategy(s)
    if any(set(gen.CORE) & {case['local'][t]} for t in case['local']):
        raise Skip
    case.update(missing=None, hide=[], dup=False, vals=[], rootfile=s.p(30), fault=s.pick(['prefix', 'prefix', 'type', 'type', 'package', 'export']), which=s.n(50))
    return case


def quiet_resolve(root, d):
    with contextlib.redirect_stdout(io.StringIO()):
        return resolve_imports(root, d)


def oracle_faults(case, cov):
    sc, pk, local, fault = case['schema'], case['pk'], case['local'], case['fault']
    pkgs = split(case)
    if not accepted(sc) or not all(accepted(p) for p in pkgs if p['types']):
        cov.label('not accepted')
        return
    used = reach(case)
    graph = {t[0]: refs_of(nt.full(t)) for t in sc['types']}
    wrong = copy.deepcopy(pkgs)
    pick = lambda c: c[case['which'] % len(c)]
    if fault == 'prefix':       # a package refers to a prefix it does not declare
        c = sorted({(pk[t], u.split(':')[0]) for t in used for u in refs_of(nt.full(next(x for x in pkgs[pk[t]]['types'] if x[0] == local[t]))) if ':' in u})
        if not c:
            cov.label('no reference to another package')
            return
        p, x = pick(c)
        i = wrong[p]['info']
        i['namespaces'] = [n for n in i['namespaces'] if n[0] != x] if case['list'][p] else {k: v for k, v in i['namespaces'].items() if k != x}
        if not i['namespaces']:
            i.pop('namespaces')
        what = f'package {p} does not declare the prefix {x}'
    elif fault == 'type':       # a package refers to a type that the other does not define
        c = sorted({u for t in used for u in graph[t] if pk[u] != pk[t]})
        if not c:
            cov.label('no reference to another package')
            return
        u = pick(c)
        w = wrong[pk[u]]
        w['types'] = [t for t in w['types'] if t[0] != local[u]] or [['Unrelated-1', 'String', [], '', []]]
        for k in ('exports', 'roots'):
            if local[u] in w['info'].get(k, ()):
                w['info'][k] = [e for e in w['info'][k] if e != local[u]]
        what = f'package {pk[u]} does not define {local[u]}'
        if not reach_without(graph, case['exports'], u):
            return
    elif fault == 'package':
        wrong[0]['info'] = {k: v for k, v in wrong[0]['info'].items() if k != 'package'}
        what = 'the schema has no package name'
    else:
        wrong[0]['info'][case['key']] = wrong[0]['info'][case['key']] + ['Nowhere-1']
        what = 'a type named as exported is not defined'
    for ps, bad in ((pkgs, False), (wrong, True)):
        with tempfile.TemporaryDirectory(prefix='verif-c21-') as d:
            for p, (pkg, fn) in enumerate(zip(ps, case['files'])):
                if pkg['types'] and (p or case['rootfile'] and not (bad and fault == 'package')):
                    try:
                        write(pkg, os.path.join(d, fn))
                    except REJECT:
                        cov.label('not written')
                        return
            try:
                got = quiet_resolve(copy.deepcopy(ps[0]), d)
            except REJECT + (AssertionError, jsonschema.ValidationError) as e:
                require(bad, lambda: f'not resolved: {type(e).__name__} {e}')
                cov.label(f'{fault} {type(e).__name__}')
                cov.hit((ps, fault))
                return
            require(not bad, lambda: f'{what}, but resolving gives {[t[0] for t in got["types"]]}')


def reach_without(graph, start, gone):
    """the type is still referred to by a type that is reached"""
    g = {t: [] if t == gone else r for t, r in graph.items()}
    return any(gone in g[t] for t in closure(g, [x for x in start if x != gone]))


PROPS = [Prop('resolve', strategy, oracle, 100, 2400, size=1200), Prop('faults', strategy_faults, oracle_faults, 40, 1200, size=1200)]
