"""C26: a failed dictionary build leaves no usable wrong output."""
import builtins
import errno
import itertools
import os
import resource
import signal
import stat
import sys

from ..cli import fork_main
from ..core import Scratch, Section, Violation
from ..fmt import decode
from ..src import build_system, csv_text, matrix_text, open_system, open_user, row, write_file
from .c07 import MARK, P1, P2, check_image, exp

PROPERTY = 'C26'
RULE = ('a case is one run of the build command with one fault: the file-size limit at one byte, one file operation failing, the process '
        'killed or interrupted at one executed line, or one invalid row; afterwards: exit status 0 only with the complete dictionary at '
        'the output path, otherwise the output path is as before or holds nothing the loader accepts; sources are unchanged')
ASSUMPTIONS = ['crashes are those of the process (what it handed to the operating system stays)',
               'lines executed inside the C extensions and the standard library are one step each']

MATRIX = '2 3\n0 0 0\n1 2 -5\n0 1 7\n'


class Scenario:
    def __init__(self, kind, files, want, matrix, cells):
        self.kind, self.files, self.want, self.matrix, self.cells = kind, files, want, matrix, cells


def scenarios():
    sys_rows = [[row('京'), row('都', 1, 1, 5, pos=P2)], [row('京都', 0, 2, -7, a='0/1', b='京,名詞,普通名詞,一般,*,*,*,京/1', syn='5/6'), row('行っ', -1, dform='0')]]
    sys_want = [exp('京'), exp('都', 1, 1, 5, pos=P2), exp('京都', 0, 2, -7, a=[0, 1], b=[0, 1], syn=[5, 6]), exp('行っ', -1, dform=0)]
    user_rows = [[row('京', 1, 1, -32768, pos=('自',) + P1[1:])], [row('新', a='0/U1', ws='U0/2'), row('鹿', dform='1')]]
    user_want = [exp('京', 1, 1, -32768, pos=('自',) + P1[1:]), exp('新', a=[0, MARK | 1], ws=[MARK, 2]), exp('鹿', dform=1)]
    big = {(l, r): (l * 70 + r) % 32768 for l in range(70) for r in range(70)}
    flat = [0] * 4900
    for (l, r), c in big.items():
        flat[l + 70 * r] = c
    return [Scenario('build', sys_rows, sys_want, MATRIX, (2, 3, [0, 0, 7, 0, 0, -5])),
            Scenario('ubuild', user_rows, user_want, None, (0, 0, [])),
            Scenario('build', sys_rows, sys_want, matrix_text(70, 70, big), (70, 70, flat)),
            Scenario('ubuild', [[row('語%d' % i, pos=('品%d' % (i % 9),) + P1[1:], a='%d/U%d' % (i % 3, i)) for i in range(250)]],
                     [exp('語%d' % i, pos=('品%d' % (i % 9),) + P1[1:], a=[i % 3, MARK | i]) for i in range(250)], None, (0, 0, []))]


INITIAL = ['absent', 'old', 'junk', 'link', 'empty']


class Env:
    pass


def setup(tier):
    sys.unraisablehook = lambda x: None
    e = Env()
    e.dir = Scratch.dir('c26')
    e.scen = scenarios()
    base = build_system(_write(e.dir, 'base', [[row('系'), row('統', pos=P2), row('共')]]), MATRIX)
    e.base = write_file(e.dir, 'base.dic', base)
    e.pos = [tuple(p) for p in open_system(e.base).grammar.pos_list]
    e.old_sys = build_system(_write(e.dir, 'old', [[row('旧')]]), MATRIX)
    from ..src import build_user
    from sudachipy.dictionarylib.lexiconset import LexiconSet
    bd = open_system(e.base)
    e.old_user = build_user(_write(e.dir, 'old', [[row('旧')]]), bd.grammar, LexiconSet(bd.lexicon))
    e.full = [None] * len(e.scen)
    e.stats = {}
    return e


def _write(d, name, sources):
    out = []
    for i, s in enumerate(sources):
        p = os.path.join(d, '%s%d.csv' % (name, i))
        with open(p, 'wb') as f:
            f.write(s if isinstance(s, bytes) else csv_text(s).encode())
        out.append(p)
    return out


class Run:
    pass


def prepare(env, si, init, files=None, matrix=None):
    """a fresh directory with the sources and the initial output"""
    s = env.scen[si]
    r = Run()
    r.dir = Scratch.dir('run')
    r.src = _write(r.dir, 'lex', files if files is not None else s.files)
    r.out = os.path.join(r.dir, 'out.dic')
    old = env.old_sys if s.kind == 'build' else env.old_user
    if init == 'old':
        write_file(r.dir, 'out.dic', old)
    elif init == 'junk':
        write_file(r.dir, 'out.dic', b'this is not a dictionary\n' * 40)
    elif init == 'empty':
        write_file(r.dir, 'out.dic', b'')
    elif init == 'link':
        write_file(r.dir, 'real.dic', old)
        os.symlink('real.dic', r.out)
    if s.kind == 'build':
        m = os.path.join(r.dir, 'matrix.def')
        with open(m, 'wb') as f:
            f.write((matrix if matrix is not None else s.matrix).encode())
        r.src.append(m)
        r.argv = ['build', '-m', m, '-o', r.out] + r.src[:-1]
    else:
        sysd = write_file(r.dir, 'sys.dic', open(env.base, 'rb').read())
        r.src.append(sysd)
        r.argv = ['ubuild', '-s', sysd, '-o', r.out] + r.src[:-1]
    r.before = {p: open(p, 'rb').read() for p in r.src}
    r.out_before = content(r.out)
    r.user = s.kind == 'ubuild'
    return r


def content(path):
    """None, or the bytes the path leads to"""
    try:
        st = os.stat(path)
        if not stat.S_ISREG(st.st_mode):
            return ('special', st.st_mode)
        return open(path, 'rb').read()
    except OSError:
        return None


def cleanup(r):
    for name in os.listdir(r.dir):
        os.unlink(os.path.join(r.dir, name))
    os.rmdir(r.dir)


def strip(data):
    """without the creation time"""
    return data[:8] + data[16:]


def complete(env, si):
    """the dictionary of a run without faults, checked against the source once"""
    if env.full[si] is None:
        s = env.scen[si]
        r = prepare(env, si, 'absent')
        code, so, se = fork_main(r.argv, cwd=r.dir)
        if code != 0:
            raise Violation('%s fails without any fault: status %d, %s' % (s.kind, code, se[-500:]))
        data = content(r.out)
        if data is None:
            raise Violation('%s succeeds without an output' % s.kind)
        check_image(data, s.want, s.kind, sys_pos=env.pos if r.user else None, matrix=s.cells)
        for p, b in r.before.items():
            if content(p) != b:
                raise Violation('%s changes its source %s' % (s.kind, os.path.basename(p)))
        cleanup(r)
        env.full[si] = strip(data)
        env.stats[si] = len(data)
    return env.full[si]


def loads(path, user):
    try:
        bd = (open_user if user else open_system)(path)
        n = bd.lexicon.size()
        del bd
        return n
    except Exception:
        return None


def judge(env, si, r, code, what, must_fail=False):
    """the verdict on the state after a run"""
    for p, b in r.before.items():
        if content(p) != b:
            raise Violation('%s: the source %s has changed' % (what, os.path.basename(p)))
    after = content(r.out)
    done = isinstance(after, bytes) and not must_fail and strip(after) == complete(env, si)
    if code == 0:
        if must_fail:
            raise Violation('%s: exit status 0' % what)
        if not done:
            raise Violation('%s: exit status 0, but the output is not the complete dictionary' % what)
        res = 'complete'
    elif done:
        res = 'failed-complete'
    elif after == r.out_before:
        res = 'failed-unchanged'
    else:
        n = loads(r.out, r.user) if isinstance(after, bytes) else None
        if n is not None:
            raise Violation('%s: exit status %d, and the output path holds an incomplete dictionary (%d bytes, %d words) that can be loaded' % (
                what, code, len(after), n))
        res = 'failed-unusable'
    cleanup(r)
    return res


def silence():
    fd = os.open('/dev/null', os.O_RDWR)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


# --- write errors: the file-size limit at every byte
def limit_cases(tier):
    # the number of bytes is only known when the dictionary is built: fractions of blocks, all bytes of the small ones
    for si in (0, 1):
        top = 6000
        for k in range(0, top):
            if tier == 'quick' and k > 400 and k % 7:
                continue
            yield (si, INITIAL[k % len(INITIAL)] if tier == 'quick' else 'old', k)
    for si in (2, 3):
        for k in range(0, 90000, 509 if tier == 'quick' else 31):
            yield (si, INITIAL[k % len(INITIAL)], k)
    for si in range(4):
        for init in INITIAL:
            for k in range(-40, 8):
                yield (si, init, ('end', k))


def limit_check(env, case, ctx):
    si, init, k = case
    complete(env, si)
    size = env.stats[si]
    if isinstance(k, tuple):
        k = size + k[1]
    elif k >= size:
        return
    r = prepare(env, si, init)

    def before():
        silence()
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
    code, so, se = fork_main(r.argv, cwd=r.dir, before=before)
    what = '%s with room for %d of %d bytes (output path before: %s)' % (env.scen[si].kind, k, size, init)
    o = judge(env, si, r, code, what)
    if k >= size and code != 0:
        raise Violation('%s: fails' % what)
    ctx.count('transitions')
    ctx.count('states')
    ctx.count(o)
    ctx.outcome((si, init, k, o))


# --- file operations failing one by one
class Faults:
    """counts file operations; the n-th fails"""

    def __init__(self, n, mode, sticky):
        self.n, self.mode, self.sticky = n, mode, sticky
        self.count = 0
        self.writing = False

    def hit(self, writing=True):
        self.count += 1
        if self.n is None:
            return False
        if self.count == self.n:
            self.writing = writing
            return True
        # afterwards, if it was a write, all writes fail (a full disk)
        return self.sticky and self.count > self.n and writing and self.writing

    def fail(self):
        raise OSError(errno.ENOSPC if self.writing else errno.EIO, 'injected')


class Proxy:
    def __init__(self, f, faults, writing):
        self.__dict__.update(_f=f, _faults=faults, _w=writing)

    def __getattr__(self, name):
        v = getattr(self._f, name)
        if not callable(v) or name in ('fileno', 'isatty', 'readable', 'writable', 'seekable'):
            return v

        def call(*a, **k):
            fa = self._faults
            if fa.hit(self._w and name in ('write', 'writelines', 'flush', 'close', 'truncate')):
                if name == 'write' and fa.mode == 'half' and a:
                    self._f.write(bytes(a[0])[:max(1, len(a[0]) // 2)] if not isinstance(a[0], str) else a[0][:len(a[0]) // 2])
                if fa.mode == 'after':
                    v(*a, **k)
                if name == 'close' and fa.mode != 'after':
                    try:
                        self._f.close()
                    except OSError:
                        pass
                fa.fail()
            return v(*a, **k)
        return call

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        if self._faults.hit(False):
            self._faults.fail()
        return next(self._f)


OSFUNCS = ['replace', 'rename', 'remove', 'unlink', 'link', 'fsync', 'open', 'stat', 'makedirs', 'mkdir', 'chmod', 'write', 'ftruncate']


def install_faults(faults, d):
    real_open = builtins.open

    def fake_open(file, mode='r', *a, **k):
        if not isinstance(file, str) or not os.path.abspath(file).startswith(d):
            return real_open(file, mode, *a, **k)
        w = any(c in mode for c in 'wax+')
        if faults.hit(w):
            faults.fail()
        f = real_open(file, mode, *a, **k)
        if mode == 'rb' and not w:
            return f        # mapped, needs a real descriptor
        return Proxy(f, faults, w)
    import io
    builtins.open = io.open = fake_open
    for name in OSFUNCS:
        if name in ('stat', 'open', 'write'):
            continue
        real = getattr(os, name)

        def fake(*a, _real=real, **k):
            if faults.hit(True):
                faults.fail()
            return _real(*a, **k)
        setattr(os, name, fake)


def count_ops(env, si):
    """number of file operations of a run without faults"""
    key = ('ops', si)
    if key not in env.stats:
        r = prepare(env, si, 'old')
        report = os.path.join(env.dir, 'ops%d' % os.getpid())
        real_open = builtins.open

        def before():
            import atexit
            silence()
            fa = Faults(None, '', False)
            install_faults(fa, r.dir)
            real_exit = os._exit

            def leave(code):
                with real_open(report, 'w') as f:
                    f.write(str(fa.count))
                real_exit(code)
            os._exit = leave
        code, so, se = fork_main(r.argv, cwd=r.dir, before=before)
        judge(env, si, r, code, 'instrumented run')
        if code != 0:
            raise Violation('the instrumented run fails: status %d' % code)
        env.stats[key] = int(open(report).read())
        os.unlink(report)
    return env.stats[key]


def op_cases(tier):
    for si in (0, 1) if tier == 'quick' else (0, 1, 2):
        for n in range(1, 400):
            for mode in ('before', 'half', 'after'):
                for sticky in (0, 1):
                    if tier == 'quick':
                        yield (si, INITIAL[n % 2], n, mode, sticky)
                    else:
                        for init in INITIAL:
                            yield (si, init, n, mode, sticky)


def op_check(env, case, ctx):
    si, init, n, mode, sticky = case
    complete(env, si)
    if n > count_ops(env, si) + 3:
        return
    r = prepare(env, si, init)

    def before():
        silence()
        install_faults(Faults(n, mode, sticky), r.dir)
    code, so, se = fork_main(r.argv, cwd=r.dir, before=before)
    what = '%s, file operation %d fails (%s%s; output path before: %s)' % (
        env.scen[si].kind, n, mode, ', and all later writes' if sticky else '', init)
    o = judge(env, si, r, code, what)
    ctx.count('transitions')
    ctx.count('states')
    ctx.count(o)
    ctx.outcome((case, o))


# --- the process is killed or interrupted at every executed line
def line_tracer(n, action, counter):
    from ..build import REPO
    base = os.path.realpath(REPO) + os.sep + 'sudachipy' + os.sep

    def local(frame, event, arg):
        if event == 'line':
            counter[0] += 1
            if counter[0] == n:
                if action == 'kill':
                    os.kill(os.getpid(), signal.SIGKILL)
                sys.settrace(None)
                raise {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'oserror': OSError}[action]()
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        if event == 'call' and f.startswith(base):
            return local
        return None
    return tracer


def count_lines(env, si):
    key = ('lines', si)
    if key not in env.stats:
        r = prepare(env, si, 'old')
        report = os.path.join(env.dir, 'lines%d' % os.getpid())

        def before():
            silence()
            counter = [0]
            real_exit = os._exit

            def leave(code):
                sys.settrace(None)
                with open(report, 'w') as f:
                    f.write(str(counter[0]))
                real_exit(code)
            os._exit = leave
            sys.settrace(line_tracer(-1, '', counter))
        code, so, se = fork_main(r.argv, cwd=r.dir, before=before)
        judge(env, si, r, code, 'traced run')
        env.stats[key] = int(open(report).read())
        os.unlink(report)
    return env.stats[key]


def crash_cases(tier):
    for n in range(1, 12000):
        for si in (0, 1):
            if tier == 'quick':
                yield (si, INITIAL[n % 2], n, 'kill')
                yield (si, INITIAL[n % 2], n, 'interrupt')
            else:
                for init in ('absent', 'old', 'link'):
                    for action in ('kill', 'interrupt', 'memory', 'oserror'):
                        yield (si, init, n, action)
    if tier == 'thorough':
        for n in range(1, 60000, 3):
            for si in (2, 3):
                yield (si, 'old', n, 'kill')


def crash_check(env, case, ctx):
    si, init, n, action = case
    complete(env, si)
    total = count_lines(env, si)
    if n > total + 2:
        return
    r = prepare(env, si, init)

    def before():
        silence()
        sys.settrace(line_tracer(n, action, [0]))
    code, so, se = fork_main(r.argv, cwd=r.dir, before=before)
    what = '%s, %s at executed line %d of %d (output path before: %s)' % (env.scen[si].kind, action, n, total, init)
    o = judge(env, si, r, code, what)
    if n <= total and code == 0 and action == 'kill':
        raise Violation('%s: exit status 0' % what)
    ctx.count('transitions')
    ctx.count('states')
    ctx.count(o)
    ctx.outcome((case, o))


# --- invalid sources
BAD = [row('悪', cost=99999), row('悪', 'x'), row(''), row('悪')[:17], [], row('悪', a='99'), row('悪', b='ない,' + ','.join(P1) + ',ナイ'),
       row('悪', a='0/1', type_='A'), row('悪', syn='x'), row('悪', dform=50), row('悪', pos=('a,b',) + P1[1:]), row('あ' * 11000), row('悪', reading='い' * 32768),
       row('悪', ws='-1'), row('悪', a='/'.join(['0'] * 200)), b'\xff\xfe\n', b'\xe3\x81\n', row('悪\\u0000'), row('悪', right=-40000),
       row('う' * 140000), row('悪', reading='い' * 140000), b'"\xe6\x82\xaa\n', b'\xe6\x82\xaa\xff,1,1\n']
BAD_MATRIX = ['', 'x\n', '2\n', '2 3\n0 0 0 0\n', '2 3\n5 0 0\n', '2 3\n0 0 99999\n', '2 3\n0 9 0\n', '2 3\nx y z\n', '-1 3\n', '40000 1\n']


def bad_cases(tier):
    for init in INITIAL:
        for si in (0, 1):
            for f in range(2):
                for at in range(3):
                    for b in range(len(BAD)):
                        yield (si, init, 'row', f, at, b)
        for b in range(len(BAD_MATRIX)):
            yield (0, init, 'matrix', 0, 0, b)
    for si in (0, 1):
        for b in range(len(BAD)):
            yield (si, 'system', 'row', 1, 0, b)


def bad_check(env, case, ctx):
    si, init, kind, f, at, b = case
    s = env.scen[si]
    files = [csv_text(x).encode() for x in s.files]
    matrix = None
    if kind == 'row':
        lines = files[f].splitlines(True)
        if at > len(lines):
            return
        x = BAD[b]
        lines.insert(at, x if isinstance(x, bytes) else csv_text([x]).encode() if x else b'\n')
        files[f] = b''.join(lines)
    else:
        matrix = BAD_MATRIX[b]
    r = prepare(env, si, 'old' if init == 'system' else init, files, matrix)
    if init == 'system' and s.kind == 'ubuild':
        # the output path is the system dictionary itself
        r.argv[r.argv.index('-o') + 1] = r.out = r.src[-1]
        r.out_before = content(r.out)
    code, so, se = fork_main(r.argv, cwd=r.dir)
    what = '%s, %s (file %d, line %d; output path before: %s)' % (s.kind, repr(BAD[b] if kind == 'row' else matrix)[:100], f, at, init)
    if code != 0 and not se.strip():
        raise Violation('%s: nothing is reported' % what)
    o = judge(env, si, r, code, what, must_fail=True)
    ctx.count('transitions')
    ctx.count('states')
    ctx.count(o)
    ctx.outcome((case, o))


# --- outputs that are not files
def special_cases(tier):
    for si in (0, 1, 2, 3):
        for what in ('full', 'directory', 'missing-directory', 'file-as-directory', 'dangling-link', 'same-link', 'null'):
            yield (si, what)


def special_check(env, case, ctx):
    si, kind = case
    complete(env, si)
    r = prepare(env, si, 'absent')
    i = r.argv.index('-o') + 1
    extra = None
    ok = False
    if kind == 'full':
        r.argv[i] = '/dev/full'
    elif kind == 'null':
        r.argv[i] = '/dev/null'
        ok = None
    elif kind == 'directory':
        extra = r.argv[i] = os.path.join(r.dir, 'sub')
        os.mkdir(extra)
    elif kind == 'missing-directory':
        r.argv[i] = os.path.join(r.dir, 'no', 'out.dic')
    elif kind == 'file-as-directory':
        r.argv[i] = os.path.join(r.src[0], 'out.dic')
    elif kind == 'dangling-link':
        os.symlink('target.dic', r.out)
        ok = True
    elif kind == 'same-link':
        os.symlink('out.dic', r.out)
        ok = None       # either way, with a complete dictionary
    code, so, se = fork_main(r.argv, cwd=r.dir)
    what = '%s, output is %s' % (env.scen[si].kind, kind)
    if ok is not None and (code == 0) != ok:
        raise Violation('%s: exit status %d' % (what, code))
    if extra:
        if os.listdir(extra):
            raise Violation('%s: files in the directory: %r' % (what, os.listdir(extra)))
        os.rmdir(extra)
    if ok or kind == 'same-link':
        judge(env, si, r, code, what)
    else:
        for p, b in r.before.items():
            if content(p) != b:
                raise Violation('%s: the source %s has changed' % (what, os.path.basename(p)))
        cleanup(r)
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome((case, code == 0))


SECTIONS = [
    Section('write-limit', limit_cases, limit_check, setup, 'the output can grow to k bytes only, for every k (quick: all k up to 400, then every 7th; larger dictionaries every 509th), around the end for every initial state'),
    Section('operations', op_cases, op_check, setup, 'every single file operation fails, before, half way or after, once or for good'),
    Section('crashes', crash_cases, crash_check, setup, 'the process is killed or interrupted at every executed line of sudachipy', block=4),
    Section('invalid', bad_cases, bad_check, setup, 'every class of invalid row at every position, 5 initial states; invalid matrices'),
    Section('special', special_cases, special_check, setup, 'outputs that are devices, directories, links'),
]
