"""Builds the Cython extensions of /repo's *current* working tree out of tree and
makes `import sudachipy` use them together with the .py files of /repo.

Extensions are cached under /verif/.build by the content hash of everything that
goes into them; stale .so files lying in /repo are never used.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFLAGS = ['-O1', '-fPIC', '-fwrapv', '-w', '-DNDEBUG']


class BuildError(Exception):
    pass


def _sources():
    out = []
    base = os.path.join(REPO, 'sudachipy')
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            if f.endswith(('.pyx', '.pxd', '.pxi', '.h')):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def _key(srcs):
    import Cython
    h = hashlib.sha256()
    h.update(('%s|%s|%s' % (Cython.__version__, sys.version, CFLAGS)).encode())
    for s in srcs:
        with open(os.path.join(REPO, s), 'rb') as f:
            data = f.read()
        h.update(('%s:%d:' % (s, len(data))).encode())
        h.update(data)
    return h.hexdigest()[:24]


def _cache_root():
    for root in (os.path.join(VERIF, '.build'), os.path.join(tempfile.gettempdir(), 'verif-build')):
        try:
            os.makedirs(root, exist_ok=True)
            probe = os.path.join(root, '.w%d' % os.getpid())
            open(probe, 'w').close()
            os.remove(probe)
            return root
        except OSError:
            continue
    raise BuildError('no writable cache directory')


def build(verbose=False):
    """Returns {module name: path of the shared object}."""
    srcs = _sources()
    key = _key(srcs)
    root = _cache_root()
    dest = os.path.join(root, 'ext-' + key)
    mods = {}
    for s in srcs:
        if s.endswith('.pyx'):
            mods[s[:-4].replace(os.sep, '.')] = s
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    result = {m: os.path.join(dest, m + suffix) for m in mods}
    if os.path.exists(os.path.join(dest, 'ok')) and all(os.path.exists(p) for p in result.values()):
        return result
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='wb-', dir=root)
    try:
        for s in srcs:
            p = os.path.join(work, 'src', s)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, s), p)
        # package markers so that cython resolves relative cimports
        for d, _, files in os.walk(os.path.join(REPO, 'sudachipy')):
            if '__init__.py' in files:
                p = os.path.join(work, 'src', os.path.relpath(d, REPO), '__init__.py')
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').close()
        outdir = os.path.join(work, 'out')
        os.makedirs(outdir)
        inc = sysconfig.get_paths()['include']
        procs = []
        for m, s in mods.items():
            so = os.path.join(outdir, m + suffix)
            script = ('set -e; cd %s/src; %s -m cython %s -o %s/%s.c; gcc -shared %s -I%s %s/%s.c -o %s' % (
                work, sys.executable, s, work, m, ' '.join(CFLAGS), inc, work, m, so))
            procs.append((m, subprocess.Popen(['bash', '-c', script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = []
        for m, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                bad.append('%s:\n%s' % (m, out.decode('utf-8', 'replace')[-3000:]))
        if bad:
            raise BuildError('extensions do not build\n' + '\n'.join(bad))
        open(os.path.join(outdir, 'ok'), 'w').close()
        try:
            os.rename(outdir, dest)
        except OSError:
            if not os.path.exists(os.path.join(dest, 'ok')):
                shutil.rmtree(dest, ignore_errors=True)
                os.rename(outdir, dest)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if verbose:
        print('built %d extensions in %.1f s' % (len(mods), time.time() - t0))
    # keep the cache small
    try:
        old = sorted((os.path.getmtime(os.path.join(root, d)), d) for d in os.listdir(root)
                     if d.startswith('ext-') and d != 'ext-' + key)
        for _, d in old[:-20]:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    except OSError:
        pass
    return result


class _Finder:
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        so = self.mods.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install(mods=None):
    """Builds if necessary and makes sudachipy importable from /repo."""
    mods = mods or build()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(mods))
    sys.path.insert(0, REPO)
    # no bytecode of /repo is read either: mtime-keyed caches may be stale
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pycache')
    import warnings
    warnings.simplefilter('ignore')
    import sudachipy
    assert os.path.realpath(sudachipy.__file__).startswith(os.path.realpath(REPO) + os.sep), sudachipy.__file__
    return sudachipy


if __name__ == '__main__':
    build(verbose=True)
