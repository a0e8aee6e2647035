"""C03: decode accepts exactly the valid messages and returns their value"""
from vlib import gen, model, near
from vlib.cases import MODES, REJECT, gen_valid, kinds, mkcodec, pick_type, to_json
from vlib.model import BAD, OK, UNSPEC, same
from vlib.runner import Prop, Skip, require

ID = 'C03'
RULE = ('a case is a generated schema, a type, a mode and a JSON message: the message of a valid value, of a value moved across one '
        'declared constraint (written by an unchecking encoder), or a mutated message, also read in another mode, or one with an element or key repeated in another spelling; judged against the '
        'reference model. Non-trivial: the model has a definite verdict and the message is structured or at a constraint; distinct by '
        '(schema, type, mode, message).')
ASSUMPTIONS = ['vlib/model.py is the meaning of the schema; UNSPEC outcomes are not judged', 'rejection means ValueError or TypeError',
               'messages are what Python json yields (object member names are strings) or the codec\'s own output']


def strategy(s):
    sc = gen.schema(s)
    m = model.Model(sc)
    tn = pick_type(s, sc, m)
    te = m.te(tn)
    v = gen_valid(s, m, tn)
    how = s.n(10)
    lab = 'valid'
    if 2 <= how < 7:
        v, lab = near.near(s, m, te, v)
    mode = s.pick(MODES)
    try:
        w = near.loose(m, te, v, *mode)
    except (TypeError, KeyError, AttributeError, IndexError, ValueError):
        raise Skip
    if s.p(80):
        try:
            w = to_json(w)
        except (TypeError, ValueError):
            raise Skip
    if how == 8 and s.p(30) and (x := model.respell(s, w)) is not None:
        w, lab = x, 'name respelled'
    elif how in (7, 8):
        w, lab = model.mutate(s, w, api=False), 'mutated'
    elif how == 9:
        mode, lab = s.pick(MODES), 'other mode'
    return {'schema': sc, 'type': tn, 'mode': list(mode), 'message': w, 'how': lab}


def oracle(case, cov):
    sc, tn, w = case['schema'], case['type'], case['message']
    mode = tuple(case['mode'])
    m = model.Model(sc)
    te = m.te(tn)
    exp = m.decode(te, w, *mode)
    vd = type(exp).__name__
    cov.label('verdict:' + vd, f'{case["how"]} -> {vd}', 'mode%d%d' % mode)
    if exp is not UNSPEC and (case['how'] != 'valid' or isinstance(w, (dict, list))):
        cov.hit((sc['types'], tn, mode, w))
    c = mkcodec(sc, mode)
    try:
        got = c.decode(tn, w)
    except REJECT as e:
        require(not isinstance(exp, OK), lambda: f'mode {mode}: decode {tn} rejects the valid message {w!r}: {type(e).__name__}: {e}')
        return
    except Exception:
        if exp is UNSPEC:
            return
        raise
    if exp is not UNSPEC:
        require(not isinstance(exp, BAD), lambda: f'mode {mode}: decode {tn} accepts {w!r} ({exp.why}) as {got!r}')
        require(same(got, exp.v), lambda: f'mode {mode}: decode {tn} {w!r} gives {got!r}, not {exp.v!r}')
    back = m.encode(te, got, *mode)
    if isinstance(back, BAD):       # a oneOf union counts alternatives by message here, by value there
        ks = set()
        kinds(m, te, got, ks)
        if any(k.startswith('Union') for k in ks):
            cov.label('union value')
            return
    require(not isinstance(back, BAD), lambda: f'mode {mode}: decode {tn} {w!r} returns {got!r}, which is not a valid value: {back.why}')


# ---------------------------------------------------------------- values with several spellings
SPELLED = [('Binary', ['/x']), ('Binary', ['/X']), ('Binary', ['/eui']), ('Binary', ['/uuid']), ('Binary', ['/ipv4-addr']), ('Binary', ['/ipv6-addr']), ('Binary', []), ('Binary', ['/b']),
           ('Integer', ['/datetime-ms']), ('Integer', []), ('Number', []), ('Boolean', []), ('String', [])]


def strategy_spelled(s):
    """an element or key is there twice, in two spellings"""
    b, o = s.pick(SPELLED)
    types = [['E', b, o, '', []]]
    elem = 'E'
    k = s.n(4)
    if k == 1:
        types.append(['R', s.pick(['Record', 'Map', 'Array']), [], '', [[1, 'x', 'E', [], ''], [2, 'y', 'String', ['[0'], '']]])
        elem = 'R'
    elif k == 2:
        types.append(['M', 'MapOf', ['+String', '*E'], '', []])
        elem = 'M'
    elif k == 3:
        types.append(['C', 'Choice', s.pick([[], ['=']]), '', [[1, 'x', 'E', [], ''], [2, 'y', 'String', [], '']]])
        elem = 'C'
    top = ['ArrayOf', ['*' + elem] + s.pick([['s'], ['q'], ['q'], ['b'], []])] if k or b in ('Number', 'Boolean') or s.p(70) else ['MapOf', ['+' + elem, '*String']]
    types.insert(s.n(len(types) + 1), ['T'] + top + ['', []])
    sc = {'types': types}
    m = model.Model(sc)
    mode = s.pick(MODES)
    v = gen_valid(s, m, 'T')
    te = m.te('T')
    try:
        w = to_json(near.loose(m, te, v, *mode))
    except (TypeError, KeyError, AttributeError, IndexError, ValueError):
        raise Skip
    lab = 'valid'
    if s.p(85) and w:
        lab = 'respelled'
        if isinstance(w, list):
            i = s.n(len(w))
            w = w + [respell_leaf(s, w[i])]
        else:
            x = s.pick(list(w))
            w = {**w, model.other_spelling(s, x): w[x]}
    return {'schema': sc, 'type': 'T', 'mode': list(mode), 'message': w, 'how': lab}


def respell_leaf(s, x):
    if isinstance(x, dict):
        return {k: respell_leaf(s, v) for k, v in x.items()}
    if isinstance(x, list):
        return [respell_leaf(s, v) for v in x]
    return model.other_spelling(s, x)


PROPS = [Prop('spelled', strategy_spelled, oracle, quick=150, thorough=5000), Prop('decode', strategy, oracle, quick=900, thorough=40000)]
