#!/usr/bin/env python3
"""mk.py SPEC.py...: a planted bug becomes /verif/seeded/<id>.  A spec defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)...] and DEMO (text of demo.py).  Everything is confirmed in /repo and undone."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
R = os.environ.get('MK_REPO', '/tmp/mkrepo')  # a copy of /repo, made when it is not there
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def undo():
    sh('git', '-C', R, 'checkout', '--', '.')
def script(name, *args):
    # the scripts of /opt/vp, for the copy
    os.makedirs('/tmp/mkscripts', exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('cd /repo', 'cd ' + R).replace('/opt/vp/build.sh', '/tmp/mkscripts/build.sh')
        open('/tmp/mkscripts/' + f, 'w').write(t)
    return sh('bash', '/tmp/mkscripts/' + name, *args)
def tests():
    script('test.sh', '/tmp/mk.json')
    got = set(json.load(open('/tmp/mk.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'])
    return want - got
def main(spec, check=True):
    s = runpy.run_path(spec)
    i = s['ID']
    d = os.path.join(V, 'seeded', i)
    assert not sh('git', '-C', R, 'status', '--porcelain').stdout.strip(), 'repo not clean'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip())
    for f in ('lib.py', 'demo.sh'):
        shutil.copy(os.path.join(HERE, f), d)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), ensure_ascii=False, indent=1)
    ok = True
    try:
        c = sh('bash', d + '/demo.sh', cwd=R)
        if c.returncode:
            print(i, 'DEMO FAILS ON THE CLEAN TREE', c.stdout.decode()[-1500:]); ok = False
        base = sh('git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD').stdout.decode().split()[0]
        for f, old, new in s['EDITS']:
            p = os.path.join(R, f)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                print(i, 'EDIT does not match once:', f, t.count(old), old[:80]); return False
            orig = sh('git', '-C', R, 'show', base + ':' + f).stdout.decode()
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        bl = set(sh('git', '-C', R, 'show', base + ':' + s['EDITS'][0][0]).stdout.decode().split('\n'))
        removed = [l[1:] for l in diff.decode().split('\n') if l.startswith('-') and not l.startswith('---')]
        if removed and not all(any(r == o for o in bl) for r in removed if r.strip()) and len(s['EDITS']) == 1:
            print(i, 'touches lines added by fix commits:', [r for r in removed if r not in bl])
        bad = tests()
        if bad:
            print(i, 'TESTS FAIL', sorted(bad)[:5]); ok = False
        c = sh('bash', d + '/demo.sh', cwd=R)
        print(i, 'demo with patch: exit', c.returncode, c.stdout.decode()[-250:].strip())
        if not c.returncode:
            ok = False
            print(i, 'DEMO PASSES WITH THE PATCH')
        if ok and check:
            r = sh('bash', '-c', 'cd %s && VERIF_REPO=%s VERIF_TIER=quick timeout 900 /opt/venv/bin/python -B check.py %s --tier quick' % (V, R, s['PROPERTY']))
            out = r.stdout.decode()
            caught = r.returncode == 1 and 'VIOLATION property=' + s['PROPERTY'] in out
            print(i, 'CAUGHT' if caught else 'MISSED (exit %d)' % r.returncode, [l[:400] for l in out.split('\n') if l.startswith('section')][:1])
    finally:
        undo()
        script('build.sh')
    if not ok:
        shutil.rmtree(d, ignore_errors=True)
    return ok
if __name__ == '__main__':
    nocheck = '-n' in sys.argv
    if not os.path.exists(R):
        subprocess.check_call(['cp', '-a', '/repo', R])
    script('build.sh')
    for a in sys.argv[1:]:
        if a != '-n':
            main(a, not nocheck)
            sys.stdout.flush()
    script('build.sh')
