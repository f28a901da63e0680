#!/usr/bin/env python3
"""Make and validate planted bugs.

    seedtool.py SPEC.py [ID ...] [--no-check] [--no-tests]

SPEC.py holds SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)],
demo=source, checks=[ids], files=[beside the demo])}.  For each one a scratch copy of /repo is changed, built and
tested, the demonstration is run with and without the change, and the checks are run against
the changed copy.  /verif/seeded/<id> is written only when the bug is valid."""
import difflib, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('SEED_BASE', '/repo')
PY = '/opt/venv/bin/python'
STABLE = None

SH = '#!/bin/sh\n# run with cwd /repo after the build; 0 = behaves, nonzero = broken\n' \
     'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    spec = {}
    exec(compile(open(args[0]).read(), args[0], 'exec'), spec)
    ids = args[1:] or list(spec['SEEDS'])
    for sid in ids:
        s = spec['SEEDS'][sid]
        scratch = '/tmp/seed_%s_%d' % (sid, os.getpid())
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree(BASE, scratch, symlinks=True)
        try:
            one(sid, s, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


def one(sid, s, scratch):
    say = lambda *a: print(sid, *a, flush=True)
    edits = s['edits']
    if s.get('diff'):
        rc, out = run(['git', 'apply', s['diff']], scratch)
        if rc: return say('DIFF', out)
        edits = [(f, None, None) for f in
                 subprocess.run(['git','diff','--name-only'],cwd=scratch,capture_output=True,text=True).stdout.split()]
    for f, old, new in edits:
        if old is None: continue
        p = os.path.join(scratch, f)
        t = open(p).read()
        if t.count(old) != 1:
            return say('INVALID: pattern occurs', t.count(old), 'times:', repr(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=scratch, capture_output=True, text=True).stdout
    kernel = any(f.endswith('.pyx') for f, _, _ in edits)
    if kernel:
        rc, out = run([PY, '-m', 'pvtrace.engine.build'], scratch, PYTHONPATH=scratch)
        if rc:
            return say('INVALID: build', out[-800:])
    d = os.path.join(V, 'seeded', sid)
    tmp = scratch + '_demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(tmp + '/demo.sh', 'w').write(SH)
    os.chmod(tmp + '/demo.sh', 0o755)
    for f in s.get('files', []):
        shutil.copy(f, tmp)
    ok = True
    rc0, o0 = run(['sh', tmp + '/demo.sh'], BASE, 300)
    rc1, o1 = run(['sh', tmp + '/demo.sh'], scratch, 300)
    if rc0 != 0 or rc1 == 0:
        ok = False
        say('INVALID: demo unchanged rc', rc0, o0[-600:], '| patched rc', rc1, o1[-600:])
    if '--no-tests' not in sys.argv and ok:
        rc, out = run([PY, '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider'], scratch,
                      PYTHONPATH=scratch)
        last = [l for l in out.splitlines() if l.strip()][-1:]
        if rc:
            ok = False
            say('INVALID: tests', out[-1500:])
        else:
            say('tests', last)
    if ok:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        say('valid; demo said:', o1.strip().splitlines()[-1:] )
    shutil.rmtree(tmp, ignore_errors=True)
    if '--no-check' in sys.argv or not ok:
        return
    for c in s.get('checks', [s['property']]):
        rc, out = run([sys.executable, 'check.py', c], V, DST_REPO=scratch)
        lines = [l for l in out.splitlines() if l.strip()]
        say('CHECK', c, 'rc', rc, '|', ' || '.join(l[:200] for l in lines[-2:]))


main()
