"""C22: untagged unions follow any-of, all-of and one-of exactly"""
import copy

from vlib import gen, model, near
from vlib.cases import MODES, REJECT, mkcodec, to_json
from vlib.model import same
from vlib.runner import Prop, Skip, require

ID = 'C22'
RULE = ('a case is a generated schema with an untagged union of 1-5 alternatives of any kind (every base type, nested unions, inline '
        'primitives with options), and up to 6 values: valid for one alternative, near misses, mutations and junk. Each alternative is also '
        'put in a schema of its own and asked separately; the union must accept exactly by the count of accepting alternatives, on encode and '
        'decode, in any mode, alone, as a record field and as a list element. Non-trivial: at least one alternative accepts or the '
        'count differs from the trivial one; distinct by (alternatives, combination, value).')
ASSUMPTIONS = ['the alternatives themselves are judged by C02 and C03', 'identical results of several accepting alternatives are not told apart']


def strategy(s):
    sc = gen.schema(s, n_types=(1, 5), info='none')
    names = [t[0] for t in sc['types']]
    how = s.pick('OXA')
    fields = []
    for k in range(s.int(1, 5)):
        if s.p(65):
            fields.append([k + 1, f'f{k}', s.pick(names), [], ''])
        else:
            b = s.pick(('String', 'Integer', 'Number', 'Boolean', 'Binary', 'String', 'Integer'))
            fields.append([k + 1, f'f{k}', b, gen.prim_opts(s, b, gen.DEF), ''])
    if s.p(30) and len(fields) > 1:     # the same alternative twice
        fields[-1][2:4] = copy.deepcopy(fields[0][2:4])
    vals = []
    m = model.Model({'types': [['U-nion', 'Choice', ['C' + how], '', fields]] + sc['types']})
    td = m.types['U-nion']
    for _ in range(s.int(1, 6)):
        f = s.pick(fields)
        te = m.element_te(td, f)
        try:
            v = m.value(s, te)
            if s.p(35):
                v, _l = near.near(s, m, te, v)
            if s.p(25):
                v = model.mutate(s, v)
        except (model.NoValue, RecursionError, TypeError, KeyError, IndexError, AttributeError, ValueError):
            v = model.junk(s, True)
        vals.append(v if s.p(88) else model.junk(s, True))
    return {'types': sc['types'], 'alts': fields, 'how': how, 'vals': vals, 'mode': list(s.pick(MODES)), 'pos': s.n(4)}


def ask(f, *a):
    try:
        return True, f(*a)
    except REJECT as e:
        return False, type(e).__name__


def expected(how, rs):
    """(accepted, allowed results)"""
    good = [r for ok, r in rs if ok]
    if how == 'O':
        return bool(good), good[:1]
    if how == 'A':
        return len(good) == len(rs), good
    return len(good) == 1, good


def oracle(case, cov):
    mode, how = tuple(case['mode']), case['how']
    union = ['U-nion', 'Choice', ['C' + how], '', case['alts']]
    sc = {'types': [['Hold', 'Record', [], '', [[1, 'u', 'U-nion', [], '']]], ['Many', 'ArrayOf', ['*U-nion'], '', []],
                    ['Pick', 'Choice', [], '', [[1, 'p', 'U-nion', [], '']]], union] + case['types']}
    c = mkcodec(sc, mode)
    vr, vs = mode
    wrap = [lambda x, api: x, lambda x, api: ({'u': x} if api else {('u' if vs else 1): x} if vr else [x]), lambda x, api: [x],
            lambda x, api: {('p' if vs or api else 1): x}][case['pos']]
    tn = ['U-nion', 'Hold', 'Many', 'Pick'][case['pos']]
    alone = []
    for f in case['alts']:
        if f[2] in gen.PRIM and f[3]:
            alone.append((mkcodec({'types': [['Alone', f[2], f[3], '', []]]}, mode), 'Alone'))
        else:
            alone.append((mkcodec({'types': [['Z', 'Record', [], '', [[1, 'z', 'Boolean', [], '']]]] + case['types']}, mode), f[2]))

    def check(word, v, uni):
        rs = [ask(getattr(a, word), n, copy.deepcopy(v)) for a, n in alone]
        ok, allowed = expected(how, rs)
        n = sum(r[0] for r in rs)
        got, r = ask(getattr(c, word), tn, wrap(copy.deepcopy(v), word == 'encode'))
        if v is None and case['pos'] == 1:
            return []           # a null member is an absent one
        cov.label(f'{word} {how} {"none" if n == 0 else "all" if n == len(rs) else "one" if n == 1 else "some"} of {len(rs)}', f'at {tn}')
        require(got == ok, lambda: f'{how} union at {tn}: {word} {"accepts" if got else "rejects"} {v!r} although alternatives say {[x[0] for x in rs]}')
        if ok:
            require(any(same(r, wrap(x, word == 'decode')) for x in allowed),
                    lambda: f'{how} union at {tn}: {word} of {v!r} gives {r!r}, the accepting alternatives give {[x[1] for x in rs if x[0]]!r}')
        if n:
            cov.hit((case['alts'], how, word, v, case['types'] if any(f[2] not in gen.PRIM for f in case['alts']) else 0))
        return [x[1] for x in rs if x[0]]

    for v in case['vals']:
        out = check('encode', v, True)
        for w in out[:2]:
            check('decode', to_json(w), True)
        try:
            j = to_json(v)
        except (TypeError, ValueError):
            continue
        if same(j, v):
            check('decode', j, True)


PROPS = [Prop('union', strategy, oracle, quick=450, thorough=15000, size=600)]
