"""
Helper for planted bugs (used while developing, by no check).

plant(name, prop, needs, breaks, demo, *edits) makes /verif/seeded/<name>/ from edits (path below src/jadn, old, new), after
confirming in a scratch copy that: every removed line comes from the original repository, the stable tests pass, demo.py
exits 0 without and nonzero with the change, and no other planted bug is the same.  Then it reports whether the quick check
of the property notices it.

plant.py [NAME ...]: re-confirm existing ones and print the catch table;  --all-checks: run every check against each.
"""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '7822653'
J = 'distribution/src/jadn/'
PY = '/opt/venv/bin/python'
STABLE = None
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/distribution/src" PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(*a, cwd=None, env=None, timeout=900):
    return subprocess.run(a, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='sw', dir='/tmp')
        self.r = self.d + '/repo'
        shutil.copytree('/repo', self.r, symlinks=True)
        sh('git', 'checkout', '-q', '--', '.', cwd=self.r)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def demo(self, folder):
        return sh('bash', folder + '/demo.sh', cwd=self.r, timeout=300)

    def tests(self):
        x = self.d + '/junit.xml'
        sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests',
           cwd=self.r + '/distribution', env=dict(PYTHONPATH=self.r + '/distribution/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        m = re.search(r'errors="(\d+)" failures="(\d+)" skipped="(\d+)" tests="(\d+)"', open(x).read())
        e, f, s, t = map(int, m.groups())
        return e == f == s == 0 and t == 106

    def check(self, pid, seed='1', tier='quick'):
        r = sh('./check.sh', pid, '--tier', tier, cwd=V, env=dict(VERIF_REPO=self.r, VERIF_SEED=seed))
        v = re.findall(r'VIOLATION property=(\S+)', r.stdout)
        return r.returncode, v, r.stdout + r.stderr


def blame_ok(r, diff):
    """Every line the patch removes comes from the original commit (or is blank)"""
    bad, path, n, removed = [], None, 0, 0
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path, bl = line[6:], {}
            for k, b in enumerate(sh('git', 'blame', '-s', 'HEAD', '--', line[6:], cwd=r).stdout.splitlines(), 1):
                bl[k] = b
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif path and line.startswith('-'):
            removed += 1
            if not re.match(r'\^?' + BASE, bl[n]):
                bad.append(bl[n])
            n += 1
        elif path and line.startswith(' '):
            n += 1
    return bad, removed


def plant(name, prop, needs, breaks, demo, *edits, check=True):
    folder = f'{V}/seeded/{name}'
    tmp = tempfile.mkdtemp(prefix='pl', dir='/tmp')
    try:
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.py', 'w').write(textwrap.dedent(demo).lstrip('\n'))
        with Scratch() as s:
            a = s.demo(tmp)
            if a.returncode:
                print(name, 'DEMO FAILS UNPATCHED', a.stdout[-1500:], a.stderr[-1500:]); return
            for p, old, new in edits:
                f = f'{s.r}/{J}{p}'
                t = open(f).read()
                if t.count(old) != 1:
                    print(name, 'EDIT', t.count(old), old); return
                open(f, 'w').write(t.replace(old, new))
            diff = sh('git', 'diff', cwd=s.r).stdout
            bad, removed = blame_ok(s.r, diff)
            if bad or not removed:
                print(name, 'BLAME', bad, removed); return
            b = s.demo(tmp)
            if b.returncode == 0:
                print(name, 'DEMO PASSES PATCHED'); return
            if not s.tests():
                print(name, 'TESTS FAIL'); return
            os.makedirs(folder, exist_ok=True)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(f'{tmp}/{f}', folder)
            open(folder + '/patch.diff', 'w').write(diff)
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(folder + '/meta.json', 'w'), indent=1)
            msg = (b.stdout + b.stderr).strip().splitlines()[-1:]
            if check:
                rc, v, out = s.check(prop)
                print(name, prop, 'CAUGHT' if rc == 1 and set(v) == {prop} else f'MISSED rc={rc} {v} {out[-600:] if rc == 2 else ""}', '| demo:', msg, flush=True)
            else:
                print(name, 'ok', msg)
    finally:
        shutil.rmtree(tmp)


def recheck(names, seeds=('1',), every=False, tests=False):
    for n in names:
        folder = f'{V}/seeded/{n}'
        meta = json.load(open(folder + '/meta.json'))
        with Scratch() as s:
            a = s.demo(folder).returncode
            ap = sh('git', 'apply', folder + '/patch.diff', cwd=s.r)
            if ap.returncode:
                print(n, 'DOES NOT APPLY', ap.stderr); continue
            bad, removed = blame_ok(s.r, open(folder + '/patch.diff').read())
            b = s.demo(folder).returncode
            t = s.tests() if tests else '-'
            pids = [meta['property']]
            if every:
                pids = sorted(f[:-3].upper() for f in os.listdir(V + '/checks') if re.match(r'c\d\d\.py', f))
            res = {}
            for p in pids:
                for sd in seeds:
                    rc, v, _ = s.check(p, sd)
                    res.setdefault(p, []).append(rc)
            print(n, meta['property'], f'demo {a}/{b} tests {t} blame {bad}', {p: r for p, r in res.items() if any(r) or not every}, flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    every, tests = '--all-checks' in a, '--tests' in a
    seeds = next((x[8:].split(',') for x in a if x.startswith('--seeds=')), ('1',))
    names = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    recheck(names, seeds, every, tests)
