#!/usr/bin/env python3
"""sweep.py [ID...]: runs the check of its property against every planted bug, in scratch copies of /repo (VERIF_REPO), and
records the section that reports it in tools/caught.json.  -j N: copies at a time (each check uses 8 processes)."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_REPO', '/repo')
lock = threading.Lock()


def run(b):
    meta = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    d = tempfile.mkdtemp(prefix='sweep-')
    r = os.path.join(d, 'repo')
    v = os.path.join(d, 'verif')
    try:
        subprocess.check_call(['cp', '-a', SRC, r])
        os.mkdir(v)
        for x in ('check.py', 'mc', 'KNOWN_FINDINGS.txt'):
            subprocess.check_call(['cp', '-a', os.path.join(V, x), v])
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
        subprocess.check_call(['git', '-C', r, 'apply', os.path.join(V, 'seeded', b, 'patch.diff')])
        p = subprocess.run(['/opt/venv/bin/python', '-B', 'check.py', meta['property'], '--tier', 'quick'], cwd=v, timeout=1500,
                           env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf-8', 'replace')
        m = re.search(r'^section (\S+): ', out, re.M)
        res = m.group(1) if p.returncode == 1 and 'VIOLATION property=' + meta['property'] in out and m else 'MISSED (exit %d)' % p.returncode
    except Exception as e:
        res = 'ERROR %r' % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with lock:
        print(b, res)
        sys.stdout.flush()
    return b, res


def main():
    args = sys.argv[1:]
    j = 2
    if args[:1] == ['-j']:
        j = int(args[1])
        args = args[2:]
    ids = args or sorted(os.listdir(os.path.join(V, 'seeded')))
    f = os.path.join(V, 'tools/caught.json')
    done = json.load(open(f)) if os.path.exists(f) else {}
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for b, r in ex.map(run, ids):
            done[b] = r
    done = {k: done[k] for k in sorted(done) if os.path.isdir(os.path.join(V, 'seeded', k))}
    json.dump(done, open(f, 'w'), indent=1)


main()
