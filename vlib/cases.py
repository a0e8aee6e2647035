"""Case builders shared by the codec checks"""
import copy
import json

from . import gen, model
from .runner import Skip, Violation, require

MODES = [(False, False), (False, True), (True, False), (True, True)]
REJECT = (ValueError, TypeError)        # the exceptions the codec documents (quickstart and the tests) for bad data


def wide(s, **kw):
    """a schema using every notation the checker accepts"""
    f = dict(desc='wild', info='some', tricky=True, qualified=s.p(25), short=s.p(25), config=True)
    f.update(kw)
    return gen.schema(s, **f)


def pick_type(s, sc, m):
    """a type of the schema to exercise: prefer structured ones"""
    names = [t[0] for t in sc['types']]
    comp = [t[0] for t in sc['types'] if t[1] not in gen.PRIM]
    return s.pick(comp) if comp and s.p(80) else s.pick(names)


def gen_valid(s, m, tn):
    try:
        return m.value(s, m.te(tn))
    except model.NoValue:
        raise Skip
    except RecursionError:
        raise Skip


def to_json(w):
    return json.loads(json.dumps(w))


def mkcodec(sc, mode):
    import jadn
    return jadn.codec.Codec(copy.deepcopy(sc), *mode)


def tagged(m, f, tag):
    """type of the value of a field: of the selected alternative, if another field holds the tag"""
    if f[4] is None:
        return f[2]
    return next((c[2] for c in m.fields(f[2]) if c[0 if 'id' in f[2].o else 1] == tag), f[2])


def kinds(m, te, v, out, depth=0):
    """which constructs a value passes through (for coverage classes)"""
    if depth > 8:
        return
    b, o = te.base, te.o
    lab = b
    if 'combine' in o:
        lab = 'Union-' + o['combine']
    if 'id' in o:
        lab += '.ID'
    if 'format' in o:
        lab += '/' + o['format']
    if te.inner:
        lab = 'Multiplicity'
    out.add(lab)
    for k in ('pattern', 'unique', 'set', 'minv', 'maxv', 'minf', 'maxf', 'enum', 'pointer', 'link'):
        if k in o:
            out.add(b + ':' + k)
    try:
        if b == 'ArrayOf':
            for x in v:
                kinds(m, m.elem(te), x, out, depth + 1)
        elif b == 'MapOf':
            for k, x in v.items():
                kinds(m, m.te(o['ktype']), k, out, depth + 1)
                kinds(m, m.te(o['vtype']), x, out, depth + 1)
        elif b in ('Map', 'Record'):
            if m.td_of(te)[1] == 'MapOf':
                out.add('MapOfEnum')
            for f in m.fields(te):
                if f[4] is not None:
                    out.add('TagId')
                if f[1] in v:
                    tag = next((v.get(g[1]) for g in m.fields(te) if g[0] == f[4]), None)
                    kinds(m, tagged(m, f, tag), v[f[1]], out, depth + 1)
        elif b == 'Array' and 'format' not in o:
            for k, f in enumerate(m.fields(te)):
                if k < len(v) and v[k] is not None:
                    kinds(m, tagged(m, f, v[f[4] - 1] if f[4] is not None else None), v[k], out, depth + 1)
        elif b == 'Choice' and 'combine' not in o:
            for f in m.fields(te):
                if (f[0] if 'id' in o else f[1]) in v:
                    kinds(m, f[2], v[f[0] if 'id' in o else f[1]], out, depth + 1)
    except Exception:
        pass


def structured(v):
    return isinstance(v, (dict, list)) and len(v) > 0
