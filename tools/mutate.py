"""
Mutation sweep (used while developing, by no check).

mutate.py OUT.jsonl [--files a.py,b.py] [--jobs N] [--limit N] [--seed N]
For each small syntactic change of /repo's package that the stable tests do not notice, run the quick checks relevant to the file
(single worker, reduced size) until one notices; survivors are listed in OUT.jsonl with "caught": null.
"""
import argparse, ast, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_REPO', '/repo')
J = 'distribution/src/jadn/'
PY = '/opt/venv/bin/python'
ORDER = {
    'codec/codec.py': '02 03 22 01 04 05 06 13 25 26 18',
    'codec/__init__.py': '02 03 25 05 01 13 22 06 26 24 04',
    'codec/format_serialize_json.py': '06 02 03 04 01 22',
    'codec/format_validate.py': '06 02 03 04 22 25',
    'convert/diagram_w.py': '20 24 23',
    'convert/html.py': '10 29 24 23 26 11',
    'convert/jidl.py': '09 29 24 11 23 21 26',
    'convert/markdown.py': '19 24 23',
    'convert/utils.py': '10 09 19 20 24 17 08',
    'core.py': '07 08 15 25 24 21 31',
    'definitions.py': '07 02 03 11 09 10 12 16 25 06 17 18 19 20 29 28',
    'transform/resolve.py': '21 24',
    'transform/transform.py': '13 12 30 14 02 03 26 24 17 19',
    'translate/jsonschema_w.py': '17 18 30 24 26 23',
    'utils.py': '11 09 15 16 10 12 29 13 02 03 14 27 17 19 20 25 26 24',
}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
ALT = {'<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '==': ['!='], '!=': ['=='], 'in': ['not in'], 'not in': ['in'], 'is': ['is not'], 'is not': ['is']}


def mutants(text):
    tree = ast.parse(text)
    lines = text.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = text.encode()
    pos = lambda ln, col: off[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: raw[slice(*span(n))].decode()
    out = []

    def add(a, b, new, what, line):
        if raw[a:b].decode() != new:
            out.append((a, b, new, what, line))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
        if isinstance(n, (ast.FunctionDef, ast.arguments, ast.AnnAssign)):
            for a in ast.walk(getattr(n, 'returns', None) or getattr(n, 'annotation', None) or ast.Constant(0)):
                doc.add(a)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.arg) and n.annotation:
            for a in ast.walk(n.annotation):
                doc.add(a)
    infstr = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            for a in ast.walk(n):
                infstr.add(a)      # positions inside f-strings are not reliable before 3.12; they are in 3.12 but quotes are not
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('raise_error', '_bad_value', 'print'):
            for x in n.args:
                for a in ast.walk(x):
                    doc.add(a)
    for n in ast.walk(tree):
        if n in doc or not hasattr(n, 'lineno') or n in infstr:
            continue
        a, b = span(n)
        ln = n.lineno
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            for alt in ALT[op]:
                add(a, b, f'{seg(n.left)} {alt} {seg(n.comparators[0])}', f'{op} -> {alt}', ln)
        elif isinstance(n, ast.BoolOp):
            o, alt = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            add(a, b, '(' + f' {alt} '.join(f'({seg(v)})' for v in n.values) + ')', f'{o} -> {alt}', ln)
            for i in range(len(n.values)):
                rest = [f'({seg(v)})' for j, v in enumerate(n.values) if j != i]
                add(a, b, '(' + f' {o} '.join(rest) + ')', f'drop operand {i} of {o}', ln)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(a, b, f'({seg(n.operand)})', 'drop not', ln)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            o, alt = ('+', '-') if isinstance(n.op, ast.Add) else ('-', '+')
            add(a, b, f'{seg(n.left)} {alt} {seg(n.right)}', f'{o} -> {alt}', ln)
            add(a, b, seg(n.left), 'drop right operand', ln)
            add(a, b, seg(n.right), 'drop left operand', ln)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd)):
            add(a, b, seg(n.left), 'drop right operand', ln)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(a, b, str(not n.value), f'{n.value} flipped', ln)
            elif isinstance(n.value, int):
                add(a, b, str(n.value + 1), f'{n.value} + 1', ln)
                if n.value > 0:
                    add(a, b, str(n.value - 1), f'{n.value} - 1', ln)
            elif isinstance(n.value, str) and a + 2 < b:
                add(a, b, repr(n.value + 'X') if n.value else "'X'", f'string {n.value[:20]!r} + X', ln)
                if len(n.value) > 1:
                    add(a, b, repr(n.value[:-1]), f'string {n.value[:20]!r} shortened', ln)
        elif isinstance(n, ast.IfExp):
            add(a, b, f'({seg(n.body)})', 'always if', ln)
            add(a, b, f'({seg(n.orelse)})', 'always else', ln)
        elif isinstance(n, (ast.If, ast.While)):
            ta, tb = span(n.test)
            if isinstance(n, ast.If):
                if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
                    add(ta, tb, 'True', 'if True', ln)
                add(ta, tb, f'({seg(n.test)}) and False', 'if False', ln)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            add(a, b, 'pass', 'drop: ' + seg(n).split('\n')[0][:60], ln)
        elif isinstance(n, ast.Continue):
            add(a, b, 'break', 'continue -> break', ln)
        elif isinstance(n, ast.Break):
            add(a, b, 'continue', 'break -> continue', ln)
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(a, b, 'return None', 'return None', ln)
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and len(n.elts) > 1:
            op, cl = ('[', ']') if isinstance(n, ast.List) else ('(', ')') if isinstance(n, ast.Tuple) else ('{', '}')
            if isinstance(n, ast.Tuple) and raw[a:a + 1] != b'(':
                continue
            for i in range(len(n.elts)):
                rest = [seg(e) for j, e in enumerate(n.elts) if j != i]
                add(a, b, op + ', '.join(rest) + (',' if isinstance(n, ast.Tuple) else '') + cl, f'drop element {i}: {seg(n.elts[i])[:30]}', ln)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('sorted', 'reversed', 'list', 'set', 'str', 'int', 'bool', 'dict', 'tuple') and len(n.args) == 1 and not n.keywords:
                add(a, b, f'({seg(n.args[0])})', f'drop {f.id}()', ln)
            if isinstance(f, ast.Attribute) and f.attr in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'copy', 'deepcopy', 'title', 'items'):
                if f.attr == 'deepcopy':
                    add(a, b, f'({seg(n.args[0])})', 'drop deepcopy', ln)
                elif f.attr != 'items':
                    add(a, b, f'({seg(f.value)})', f'drop .{f.attr}()', ln)
            for i, kw in enumerate(n.keywords):
                ka, kb = pos(kw.lineno, kw.col_offset), pos(kw.end_lineno, kw.end_col_offset)
                rest = [seg(x) for x in n.args] + [raw[pos(k.lineno, k.col_offset):pos(k.end_lineno, k.end_col_offset)].decode() for j, k in enumerate(n.keywords) if j != i]
                add(a, b, f"{seg(f)}({', '.join(rest)})", f'drop argument {kw.arg}', ln)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for i in g.ifs:
                    ia, ib = span(i)
                    add(ia, ib, 'True', 'drop filter', i.lineno)
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    xa, xb = span(x)
                    add(xa, xb, f'({seg(x)}) + 1', 'slice + 1', ln)
    res = []
    for a, b, new, what, ln in out:
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((t, what, ln))
    return res


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def job(a):
    path, text, what, ln, scale, shards = a
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    try:
        r = d + '/repo'
        shutil.copytree(SRC, r, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build', 'images'))
        with open(f'{r}/{J}{path}', 'w') as f:
            f.write(text)
        env = dict(os.environ, PYTHONPATH=r + '/distribution/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        rc, o = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], r + '/distribution', env, 120)
        if rc != 0:
            return dict(file=path, line=ln, what=what, tests='fail')
        env = dict(os.environ, VERIF_REPO=r, VERIF_NOSHRINK='1', VERIF_SHARDS=str(shards), VERIF_SCALE=str(scale))
        seen = {}
        for c in ORDER[path].split():
            rc, o = run(['./check.sh', 'C' + c], V, env, 400)
            if rc == 1:
                return dict(file=path, line=ln, what=what, tests='pass', caught='C' + c)
            if rc != 0:
                seen['C' + c] = str(rc) + ' ' + o[-300:]
        return dict(file=path, line=ln, what=what, tests='pass', caught=None, errors=seen, text=text.split('\n')[ln - 1].strip())
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default=','.join(ORDER))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--limit', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale', type=float, default=2)
    ap.add_argument('--shards', type=int, default=1)
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    os.makedirs('/tmp/mut', exist_ok=True)
    work = []
    for f in a.files.split(','):
        ms = mutants(open(f'{SRC}/{J}{f}').read())
        print(f, len(ms))
        work += [(f, t, w, ln, a.scale, a.shards) for t, w, ln in ms]
    if a.count:
        return
    random.Random(a.seed).shuffle(work)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            x = json.loads(l)
            done.add((x['file'], x['line'], x['what']))
    work = [w for w in work if (w[0], w[3], w[2]) not in done][:a.limit]
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as out:
        for r in ex.map(job, work):
            out.write(json.dumps(r) + '\n')
            out.flush()


main()
