"""The command line, run as its users run it: `fork_main` runs command_line.main() in
a forked child with real file descriptors and the interpreter's exit rules;
`subprocess_main` starts a new interpreter (used to show that the two agree)."""
import io
import os
import subprocess
import sys
import tempfile
import traceback


def _status(f):
    try:
        f()
        code = 0
    except SystemExit as e:
        c = e.code
        code = 0 if c is None else c if isinstance(c, int) else 1
        if not (c is None or isinstance(c, int)):
            sys.stderr.write('%s\n' % (c,))
    except BaseException:  # noqa
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
    except Exception:
        code = 120
    return code & 255


def fork_main(argv, stdin=b'', cwd=None, stdout=None, before=None, timeout=60):
    """(exit status, stdout bytes, stderr text).  stdin: bytes, or a path.
    stdout: a path to write to instead of being captured.  before(): called in the child."""
    from sudachipy import command_line
    fin = tempfile.TemporaryFile()
    if isinstance(stdin, bytes):
        fin.write(stdin)
        fin.seek(0)
    fout = open(stdout, 'wb') if stdout else tempfile.TemporaryFile()
    ferr = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            import signal
            signal.alarm(timeout)
            os.dup2(fin.fileno(), 0)
            os.dup2(fout.fileno(), 1)
            os.dup2(ferr.fileno(), 2)
            sys.stdin = io.TextIOWrapper(io.FileIO(0, 'r', closefd=False), encoding='utf-8', newline='\n')
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, 'w', closefd=False)), encoding='utf-8')
            sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8', errors='backslashreplace', write_through=True)
            if cwd:
                os.chdir(cwd)
            sys.argv = ['sudachipy'] + list(argv)
            if before:
                before()
            code = _status(command_line.main)
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    out = b''
    if not stdout:
        fout.seek(0)
        out = fout.read()
    ferr.seek(0)
    err = ferr.read().decode('utf-8', 'replace')
    for f in (fin, fout, ferr):
        f.close()
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    return code, out, err


CHILD = '''import sys
sys.path.insert(0, %r)
from mc import build
build.install(build.build())
from sudachipy import command_line
sys.exit(command_line.main())
'''


def subprocess_main(argv, stdin=b'', cwd=None, env=None, timeout=120):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, '-B', '-c', CHILD % here] + list(argv), input=stdin, cwd=cwd, env=dict(os.environ, **(env or {})),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout, p.stderr.decode('utf-8', 'replace')
