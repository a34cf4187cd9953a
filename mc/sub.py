"""`python -m mc.sub module function JSON`: calls a function in a fresh process that
has the rebuilt sudachipy installed; prints its JSON result."""
import importlib
import json
import os
import subprocess
import sys


def run(module, function, arg, env=None, timeout=120):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    e = dict(os.environ, PYTHONPATH=here)
    e.update(env or {})
    p = subprocess.run([sys.executable, '-B', '-m', 'mc.sub', module, function, json.dumps(arg)], env=e, cwd=here,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError('%s.%s: status %d: %s' % (module, function, p.returncode, p.stderr.decode('utf-8', 'replace')[-2000:]))
    return json.loads(p.stdout.decode('utf-8').splitlines()[-1])


if __name__ == '__main__':
    from mc import build
    build.install(build.build())
    mod = importlib.import_module(sys.argv[1])
    print(json.dumps(getattr(mod, sys.argv[2])(json.loads(sys.argv[3]))))
