"""C15: dependency analysis and ordering reflect the real references (reference traversal, order relation over generated graphs)"""
import copy

from vlib import gen, notation as nt
from vlib.cases import wide
from vlib.runner import Prop, require
from checks.c09 import accepted, rename

import jadn

ID = 'C15'
RULE = ('deps: a generated schema using every kind of reference (fields, element, key and enumerated types, in definitions and inline, other packages), some definitions removed so that '
        'references dangle, with any exports and roots, and the same schema with its types in another order; dependencies, undefined and unreferenced types must be exactly those an independent '
        'traversal finds. sort: arbitrary directed graphs of up to 12 nodes, with cycles, dangling nodes and duplicate edges, and any roots; the result must contain exactly the reachable names once '
        'and, without a cycle among them, every name before its dependencies (directly before, in order, if everything is needed once), and not depend on the order of the dictionary. Non-trivial: a reference or edge exists; distinct by schema or graph and roots.')
ASSUMPTIONS = ['"roots" of a schema are its roots or, in their absence, its exports', 'without roots the order of definition is kept', 'a reference to another package counts as undefined']


def refs_of(td):
    out = set()

    def opts(os_):
        for o in os_:
            if o[0] in '*+':
                n = o[1:].lstrip('#>')
                if n not in gen.CORE:
                    out.add(n)
            elif o[0] in '#>':
                out.add(o[1:])
    opts(td[2])
    if td[1] in gen.COMPOUND:
        for f in td[4]:
            if f[2] not in gen.CORE:
                out.add(f[2])
            opts(f[3])
    return out


def strategy_deps(s):
    sc = wide(s, n_types=(1, 8), config=False)
    if s.p(40) and len(sc['types']) > 1:
        del sc['types'][s.n(len(sc['types']))]
    if 'info' in sc and s.p(30):
        sc['info'][s.pick(['exports', 'roots'])] = s.some([t[0] for t in sc['types']] + ['Missing'], 40) or ['Missing']
    return {'schema': sc, 'order': s.shuffle(list(range(len(sc['types']))))}


def oracle_deps(case, cov):
    sc = case['schema']
    if not accepted(sc):
        cov.label('not accepted')
        return
    before = copy.deepcopy(sc)
    deps = jadn.build_deps(sc)
    exp = {t[0]: refs_of(nt.full(t)) for t in sc['types']}
    require(list(deps) == list(exp), lambda: f'types with dependencies: {list(deps)}, defined types: {list(exp)}')
    for t in exp:
        require(set(deps[t]) == exp[t], lambda: f'dependencies of {t}: {deps[t]}, references: {sorted(exp[t])}')
    an = jadn.analyze(sc)
    info = sc.get('info', {})
    roots = set(info.get('roots', info.get('exports', [])))
    refs = set().union(*exp.values()) | roots if exp else roots
    for k, e in (('undefined', refs - set(exp)), ('unreferenced', set(exp) - refs)):
        require(len(an[k]) == len(set(an[k])) and set(an[k]) == e, lambda: f'{k}: {an[k]}, expected {sorted(e)}')
    require(sc == before, 'the schema was modified')
    other = dict(sc, types=[sc['types'][i] for i in case['order']])
    require(jadn.build_deps(other) == deps and {k: set(v) for k, v in jadn.analyze(other).items()} == {k: set(v) for k, v in an.items()},
            'the analysis depends on the order of the types')
    rt = [r for r in sorted(roots)] or sorted(exp)[:1]
    check_sort(deps, rt, jadn.topo_sort(deps, rt))
    require(jadn.topo_sort(jadn.build_deps(other), rt) == jadn.topo_sort(deps, rt), 'sorting depends on the order of the types')
    cov.label(*(['undefined'] if refs - set(exp) else []), *(['unreferenced'] if set(exp) - refs else []))
    if any(exp.values()):
        cov.hit((sc, case['order']))


def reach(deps, roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += deps.get(x, [])
    return seen


def cyclic(deps, names):
    left = {n: set(deps.get(n, [])) & names for n in names}
    while True:
        done = [n for n, d in left.items() if not d]
        if not done:
            return bool(left)
        for n in done:
            del left[n]
        for d in left.values():
            d.difference_update(done)


def check_sort(deps, roots, out):
    names = reach(deps, roots)
    require(len(out) == len(set(out)) and set(out) == names, lambda: f'sorting {deps} from {roots} gave {out}, reachable: {sorted(names)}')
    edges = [d for n in names for d in deps.get(n, [])]
    if len(roots) == len(set(roots)) and len(edges) == len(set(edges)) and not set(edges) & set(roots):     # everything is needed once
        exp, todo = [], list(reversed(roots))
        while todo:
            exp.append(n := todo.pop())
            todo += reversed(deps.get(n, []))
        require(out == exp, lambda: f'sorting {deps} from {roots} gave {out}; each name directly followed by what it needs is {exp}')
    if not cyclic(deps, names):
        pos = {n: i for i, n in enumerate(out)}
        for n in names:
            for d in deps.get(n, []):
                require(pos[n] < pos[d], lambda: f'sorting {deps} from {roots} gave {out}: {d} comes before {n}, which depends on it')
        return False
    return True


def strategy_sort(s):
    n = s.pick([30, 70]) if s.p(4) else s.int(1, 12)
    names = [f'T{i}' for i in range(n)]
    if s.p(15):                 # a forest
        deps = {x: [] for x in names}
        roots = []
        for i, x in enumerate(names):
            (deps[names[s.n(i)]] if i and s.p(85) else roots).insert(0, x)
        keys = s.shuffle(names)
        return {'deps': {k: s.shuffle(deps[k]) for k in keys}, 'roots': s.shuffle(roots), 'perm': s.shuffle(names)}
    acyclic = s.p(60)
    dens = s.pick([1, 2, 3, 5])
    deps = {}
    for i in range(n):
        c = names[i + 1:] if acyclic else names
        d = [s.pick(c) for _ in range(s.n(dens + 1))] if c else []
        if s.p(8):
            d.append('Undefined')
        deps[names[i]] = d
    keys = s.shuffle(names)
    roots = s.pick([[names[0]], s.some(names, 30) or [names[0]], s.shuffle(names)[:s.int(1, 3)], [names[-1], names[0]], names])
    if s.p(10):
        roots = roots + ['Nowhere']
    return {'deps': {k: deps[k] for k in keys}, 'roots': roots, 'perm': s.shuffle(names)}


def oracle_sort(case, cov):
    deps, roots = case['deps'], case['roots']
    before = copy.deepcopy(case)
    out = jadn.topo_sort(deps, roots)
    cyc = check_sort(deps, roots, out)
    require(jadn.topo_sort({k: deps[k] for k in case['perm']}, roots) == out, 'the order depends on the order of the dictionary')
    require(case == before, 'the arguments were modified')
    require(jadn.topo_sort(deps, []) == list(deps), 'without roots the order of definition is not kept')
    cov.label('cyclic' if cyc else 'acyclic', *(['reconverging'] if sum(len(set(d)) for d in deps.values()) > len(deps) else []))
    if any(deps.values()):
        cov.hit((deps, roots))


PROPS = [Prop('deps', strategy_deps, oracle_deps, 350, 5000, size=900), Prop('sort', strategy_sort, oracle_sort, 1500, 20000, size=110)]
