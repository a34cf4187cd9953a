"""C20: the command line prints what the API returns."""
import itertools
import os

from .. import cli, fmt, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS

PROPERTY = 'C20'
RULE = ('a case is one command with its input files; the command runs in a process of its own and its standard output, output file and exit status are '
        'compared with what the API returns for the lines of the input')
ASSUMPTIONS = ['lines end as in text files (\\n, \\r\\n or \\r), on standard input with \\n; standard input and output use UTF-8', 'the forked process behaves like a new interpreter (section "processes" compares the two)']

WORDS = [entry('漢', 1, 1, 100, reading='カン', syn=[20, 1, 300]), entry('漢字', 1, 1, 50, a=[0, 2], b=[0, 2], norm='かんじ', reading='カンジ', syn=[7]), entry('字', 1, 1, 90),
         entry('漢字体', 1, 1, 20, a=[0, 2, 4], b=[1, 4]), entry('体', 1, 1, 60, dform=0), entry('1', 2, 2, 10, pos=1), entry('0', 2, 2, 10, pos=1),
         entry('あ', 1, 1, 0, pos=3, dform=1), entry('a', 1, 1, 30)]
USER = [entry('あ漢', 1, 1, -500, pos=6, norm='user', syn=[3, 2, 3]), entry('字字', 1, 1, -100, a=[2, 2], b=[2, 2])]
OWNPOS = [('名詞', '固有名詞', '人名', '一般', '*', '*')]


class Env:
    pass


def setup(tier):
    env = Env()
    env.w = World(WORDS, users=[(USER, OWNPOS)], lsize=3, rsize=3, matrix={(1, 2): 5}, input_plugins=[W.DEFAULT_PLUGIN],
                  path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN], simple=(0, 0, 800, POS_SYS[2]))
    env.dic = env.w.open()
    env.tok = env.dic.create()
    env.modes = W.modes()
    # dictionary packages for -s and for the default setting
    env.site = os.path.join(env.w.dir, 'site')
    for p in ('core', 'small'):
        d = os.path.join(env.site, 'sudachidict_' + p, 'resources')
        os.makedirs(d)
        open(os.path.join(env.site, 'sudachidict_' + p, '__init__.py'), 'w').close()
        with open(os.path.join(d, 'system.dic'), 'wb') as f:
            f.write(fmt.encode(env.w.version, [dict(e, reading=p) for e in WORDS], env.w.pos_list, 3, 3, env.w.matrix))
    env.settings = os.path.join(env.w.dir, 'sudachi.json')
    env.cwd = Scratch.dir('c20')
    env.cache = {}
    import sys
    sys.path.insert(0, env.site)
    # the API of the same setting with each package
    from sudachipy.dictionary import Dictionary
    env.typed = {p: Dictionary(config_path=env.settings, dict_type=p).create() for p in ('core', 'small')}
    env.typed[None] = env.tok
    return env


def lines_of(data, stdin=False):
    """the lines of a text file; Python leaves carriage returns in standard input"""
    t = data if stdin else data.replace('\r\n', '\n').replace('\r', '\n')
    ls = t.split('\n')
    if ls[-1] == '':
        ls.pop()
    return ls


def printed(env, line, mode='C', full=False, type_=None):
    key = (line, mode, full, type_)
    if key not in env.cache:
        if len(env.cache) > 100000:
            env.cache.clear()
        out = []
        for m in env.typed[type_].tokenize(line, env.modes[mode]):
            f = [m.surface(), ','.join(m.part_of_speech()), m.normalized_form()]
            if full:
                f += [m.dictionary_form(), m.reading_form(), str(m.dictionary_id()), '[' + ','.join(map(str, m.synonym_group_ids())) + ']']
                if m.is_oov():
                    f.append('(OOV)')
            out.append('\t'.join(f) + '\n')
        env.cache[key] = ''.join(out) + 'EOS\n'
    return env.cache[key]


def want_output(env, texts, stdin=False, **k):
    return ''.join(printed(env, l, **k) for t in texts for l in lines_of(t, stdin)).encode('utf-8')


def put(env, name, data):
    path = os.path.join(env.cwd, name)
    with open(path, 'wb') as f:
        f.write(data.encode('utf-8') if isinstance(data, str) else data)
    return path


def compare(code, out, err, want, what):
    if code != 0:
        raise Violation('%s: exit status %d: %s' % (what, code, err[-400:]))
    if out != want:
        raise Violation('%s: prints %r, the API gives %r' % (what, out.decode('utf-8', 'replace')[:500], want.decode('utf-8')[:500]))
    if 'Traceback' in err or 'Logging error' in err:
        raise Violation('%s: reports %s' % (what, err[-400:]))


# --- all texts
SPECIAL = ['あ', '\n', '\r', '\x0b', '\x0c', '\x85', '\u2028', '\t', '\0', '%s', ' ', '\x1c', '\ufeff', '\u3000', '漢字', '\\n', '1']


def text_cases(tier):
    yield ''
    yield from strings(['あ', '漢', '\n', ' ', '0'], 5 if tier == 'quick' else 6)
    yield from strings(['漢', '字', '\n', '体', 'ア'], 4 if tier == 'quick' else 5)
    yield from (s for s in strings(SPECIAL, 2 if tier == 'quick' else 3))
    for s in SPECIAL:
        yield from ('あ' + s + '字', 'あ\n' + s + '\n字', s + '\n' + s, s + '\r\n' + s + '\r\n', 'あ' + s * 3 + '\n')


def text_check(env, case, ctx):
    k = hash_of(case)
    full = k % 2 == 0
    mode = 'CABC'[k // 2 % 4]
    opts = ['-r', env.settings] + (['-a'] if full else []) + ([] if mode == 'C' else ['-m', mode])
    want = want_output(env, [case], True, mode=mode, full=full)
    compare(*cli.fork_main(opts, case.encode('utf-8'), env.cwd), want, 'standard input %r' % case)
    want = want_output(env, [case], mode=mode, full=full)
    path = put(env, 'in.txt', case)
    compare(*cli.fork_main(['tokenize'] + opts + [path], b'other', env.cwd), want, 'file %r' % case)
    ctx.count('commands', 2)
    ctx.count('transitions', 2)
    ctx.outcome((case, full, mode))


def hash_of(s):
    return sum((i + 1) * b for i, b in enumerate(s.encode('utf-8')))


# --- several files
CONTENTS = ['', 'あ', '漢字体\n', '\n', 'あ漢\n\n1', '\n\n', 'ア\r\n0', '漢字\n ']


def files_cases(tier):
    for n in (1, 2, 3):
        for t in itertools.product(range(len(CONTENTS)), repeat=n):
            yield t
    if tier != 'quick':
        yield from itertools.product(range(len(CONTENTS)), repeat=4)


def files_check(env, case, ctx):
    names = []
    for i, k in enumerate(case):
        j = case.index(k)       # the same content: the same file given twice
        names.append(put(env, 'f%d.txt' % j, CONTENTS[k]))
    full = sum(case) % 2 == 0
    want = want_output(env, [CONTENTS[k] for k in case], full=full)
    outf = os.path.join(env.cwd, 'out.txt')
    args = ['-r', env.settings] + (['-a'] if full else []) + names
    compare(*cli.fork_main(args, b'x\n', env.cwd), want, 'files %r' % ([CONTENTS[k] for k in case],))
    if len(case) < 3:
        put(env, 'out.txt', 'old contents\n' * 50)
        code, out, err = cli.fork_main(['-o', outf] + args, b'x\n', env.cwd)
        with open(outf, 'rb') as f:
            compare(code, f.read(), err, want, 'files %r with -o' % ([CONTENTS[k] for k in case],))
        if out:
            raise Violation('-o: %r is printed as well' % out)
        ctx.count('transitions')
    ctx.count('transitions')
    ctx.outcome(case)


# --- every combination of options
def opt_cases(tier):
    for sub in (0, 1):
        for mode in (None, 'A', 'B', 'C'):
            for full in (0, 1):
                for out in (0, 1):
                    for src in (0, 1, 2):
                        for type_ in (None, 'core', 'small'):
                            for order in (0, 1):
                                for dump in (0, 1):
                                    yield (sub, mode, full, out, src, type_, order, dump)


TEXT = ['漢字体あ漢\nアイ1,000字字\n', '\n漢字\na']


def opt_check(env, case, ctx):
    sub, mode, full, out, src, type_, order, dump = case
    outf = os.path.join(env.cwd, 'o.txt')
    opts = [['-r', env.settings]]
    if mode:
        opts.append(['-m', mode])
    if full:
        opts.append(['-a'])
    if out:
        opts.append(['-o', outf])
    if type_:
        opts.append(['-s', type_])
    if dump:
        opts.append(['-d'])
    if order:
        opts = opts[::-1]
    files = [put(env, 't%d.txt' % i, TEXT[i]) for i in range(src)]
    args = (['tokenize'] if sub else []) + [x for o in opts for x in o]
    if order and not full and src:
        args = (['tokenize'] if sub else []) + files + args[sub:]
    else:
        args += files
    if os.path.exists(outf):
        os.unlink(outf)
    code, got, err = cli.fork_main(args, ''.join(TEXT).encode('utf-8'), env.cwd)
    if out:
        if got:
            raise Violation('%r: %r on standard output' % (args, got))
        with open(outf, 'rb') as f:
            got = f.read()
    k = dict(mode=mode or 'C', full=bool(full), type_=type_)
    want = want_output(env, TEXT[:src] or [''.join(TEXT)], **k)
    if dump:
        if code:
            raise Violation('%r: exit status %d: %s' % (args, code, err[-400:]))
        got = b''.join(printed_after_dump(got))
    compare(code, got, err, want, repr(args))
    ctx.count('transitions')
    ctx.outcome((case, got))


def printed_after_dump(data):
    """the result lines in the output of -d: what follows the closing === up to EOS"""
    on = True
    for line in data.split(b'\n'):
        if line.startswith(b'=== Inupt') or line.startswith(b'=== Input'):
            on = False
        elif line == b'===':
            on = True
        elif on and line:
            yield line + b'\n'


# --- errors give a non-zero exit status
def err_cases(tier):
    return range(len(errors(None)))


def errors(env):
    """(arguments, standard input, stdout path)"""
    if env is None:
        env = Env()
        env.settings, env.cwd, env.w = 's', '/nonexistent', Env()
        env.w.dir = '/nonexistent'
        put_ = lambda n, d: n  # noqa: E731
    else:
        put_ = lambda n, d: put(env, n, d)  # noqa: E731
    ok = put_('ok.txt', 'あ\n漢字\n')
    r = ['-r', env.settings]
    bad = [b'\xff', b'\xe3\x81', b'\xe3\x81\x82\n\xed\xa0\x80', b'a\xc0\x80', b'\xf4\x90\x80\x80', b'\xe3\x81\x82\n' * 5000 + b'\xff\n']
    out = [(r + ['nosuch.txt'], b'', None), (r + [ok, 'nosuch.txt'], b'', None), (r + ['nosuch.txt', ok], b'', None), (['tokenize'] + r + ['nosuch'], b'', None),
           (['-r', 'nosuch.json', ok], b'', None), (r + ['-m', 'D', ok], b'', None), (r + ['-s', 'tiny', ok], b'', None), (r + ['-s', 'full', ok], b'', None),
           (r + ['-x', ok], b'', None), (r + ['-o', os.path.join(env.cwd, 'no', 'dir', 'x'), ok], b'', None), (r + [env.cwd], b'', None), (r + [ok, env.cwd], b'', None),
           (['-r', put_('bad.json', '{'), ok], b'', None), (['-r', put_('empty.json', '{}'), ok], b'', None),
           (['-r', put_('nodic.json', '{"systemDict": "nosuch.dic", "characterDefinitionFile": "char.def"}'), ok], b'', None),
           (['-r', env.w.dir, ok], b'', None), (r + ['-o', '/dev/full', ok], b'', None), (r + [ok], b'', '/dev/full'), (r, 'あ\n'.encode(), '/dev/full'),
           (['-r', put_('wrongdic.json', '{"systemDict": "%s", "characterDefinitionFile": "char.def"}' % os.path.join(env.w.dir, 'user0.dic')), ok], b'', None)]
    for i, b in enumerate(bad):
        out.append((r + [put_('bad%d.txt' % i, b)], b'', None))
        out.append((r + [ok, 'bad%d.txt' % i], b'', None))
        out.append((r, b, None))
        out.append((r + ['-a', '-o', os.path.join(env.cwd, 'e.out')], b, None))
    return out


def err_check(env, case, ctx):
    args, stdin, stdout = errors(env)[case]
    code, out, err = cli.fork_main(args, stdin, env.cwd, stdout)
    if code == 0:
        raise Violation('%r: exit status 0: %r %r' % (args, out[:300], err[-300:]))
    if code < 0:
        raise Violation('%r: killed by signal %d' % (args, -code))
    ctx.count('transitions')
    ctx.outcome((case, code))


# --- long inputs
def long_cases(tier):
    for n in (100, 1000, 5000):
        for shape in range(5):
            yield (n, shape)


def long_check(env, case, ctx):
    n, shape = case
    text = ['あ\n' * n, '漢字' * n, ''.join('%s\n' % ('漢字' * (i % 7)) for i in range(n)), '\n' * n, '1,000' * (n // 20) + '\n' + 'ア' * (n // 5)][shape]
    want = want_output(env, [text], full=True)
    compare(*cli.fork_main(['-a', '-r', env.settings], text.encode('utf-8'), env.cwd), want, 'long %r' % (case,))
    compare(*cli.fork_main(['-a', '-r', env.settings, put(env, 'long.txt', text)], b'', env.cwd), want, 'long %r' % (case,))
    ctx.count('transitions', 2)
    ctx.outcome(case)


# --- unusual attributes
VALUES = ['', ' ', '  x ', '*', '%s', '%d%', '{}', '{0}', '\t', 'x\ty', '\n', '\r', '\u2028', '\\', '\\t', ',', '[1,2]', 'EOS', '(OOV)', '𠮷', '\ufeffa', 'x' * 300, '\0', 'None', '"', '-1']


def attr_setup(tier):
    env = Env()
    pos = list(POS_SYS)
    words = []

    def add(**k):
        words.append(entry(chr(0x4E00 + len(words)), 0, 0, -100, **k))
    for v in VALUES:
        for col in ('surface', 'norm', 'reading'):
            if v:
                add(**{col: v})
                add(surface='表', norm='正', reading='読', **{}) if col == 'surface' else add(surface=v, **{col: 'z'})
        add(dform=len(words) - 1)
        if v != ',':
            for k in range(6):
                p = ['名', '詞', '*', '*', 'x', '*']
                p[k] = v
                pos.append(tuple(p))
                add(pos=len(pos) - 1)
            pos.append((v,) * 6)
            add(pos=len(pos) - 1)
            pos.append((v, 'a') * 3)
            add(pos=len(pos) - 1)
    for n in list(range(0, 5)) + [9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100, 126, 127]:
        add(syn=[(i * 7 + n) % 3 for i in range(n)])
    for g in (-1, -2147483648, 2147483647, 0):
        add(syn=[g])
    env.count = len(words)
    users = []
    for d in range(1, 16):
        users.append(([entry('自' + chr(0x3041 + d), 0, 0, -900, pos=d % len(POS_SYS))], []))
    words.append(entry('自', 0, 0, 5))
    env.w = World(words, users=users, pos_list=pos, lsize=1, rsize=1, simple=(0, 0, 800, pos[-3]))
    env.dic = env.w.open()
    env.modes = W.modes()
    env.typed = {None: env.dic.create()}
    env.settings = os.path.join(env.w.dir, 'sudachi.json')
    env.cwd = Scratch.dir('c20')
    env.cache = {}
    return env


def attr_cases(tier):
    for i in range(0, 900):
        yield (i, 1)
    for d in range(1, 16):
        yield (d, 'user')
    for v in VALUES:
        yield (v, 'text')
    yield (0, 1000)


def attr_check(env, case, ctx):
    i, kind = case
    if kind == 'user':
        line = '自' + chr(0x3041 + i)
    elif kind == 'text':
        line = (i * 3).replace('\n', '')
    else:
        if i >= env.count:
            return
        line = ''.join(chr(0x4E00 + k) for k in range(i, min(i + kind, env.count)))
    for full in (False, True):
        want = want_output(env, [line + '\n'], True, full=full)
        compare(*cli.fork_main(['-r', env.settings] + (['-a'] if full else []), (line + '\n').encode('utf-8'), env.cwd), want, 'unusual attributes %r' % line)
        ctx.count('transitions')
    ctx.outcome(case)


# --- the same in new interpreters
def proc_cases(tier):
    return range(16)


def proc_check(env, case, ctx):
    a = put(env, 'p.txt', TEXT[0])
    r = ['-r', env.settings]
    runs = [(r + [a], b''), (r, TEXT[0].encode('utf-8')), (r + ['-a'], 'ア漢字\r\n\n'.encode('utf-8')), (r + ['-m', 'A', a, a], b''), (['tokenize', '-m', 'B', '-a'] + r, TEXT[1].encode('utf-8')),
            (r + ['nosuch'], b''), (r, b'\xff'), (r + ['-m', 'X'], b''), (['-r', 'nosuch'], b''), (['-v'], b''), (['tokenize', '--version'], b''), (r + ['-d', a], b''),
            (['-h'], b''), (r + ['-s', 'small', a], b''), (r + ['-s', 'full', a], b''), (['build'], b'')]
    args, stdin = runs[case]
    x = cli.subprocess_main(args, stdin, env.cwd, {'PYTHONPATH': env.site})
    y = cli.fork_main(args, stdin, env.cwd)
    if x[0] != y[0] or (x[0] == 0 and '-h' not in args and x[1] != y[1]):     # usage texts name the program
        raise Violation('%r: a new interpreter gives %r, the forked process %r' % (args, x, y))
    ctx.count('traces')
    ctx.count('transitions')
    ctx.outcome((case, x[0]))


SECTIONS = [
    Section('texts', text_cases, text_check, setup, 'all texts up to 5 (thorough 6) over 5 characters and newline, 17 special characters, from standard input and from a file'),
    Section('files', files_cases, files_check, setup, 'all sequences of up to 3 (4) of 8 files, to standard output and to a file'),
    Section('options', opt_cases, opt_check, setup, 'every combination of subcommand, mode, -a, -o, -s, -d, source and order'),
    Section('errors', err_cases, err_check, setup, 'arguments, files and texts that cannot be processed', block=2),
    Section('long', long_cases, long_check, setup, 'inputs of up to 5000 lines', block=1),
    Section('attributes', attr_cases, attr_check, attr_setup, 'words whose surface, forms, reading or parts of speech are empty, blank, control characters, format strings or separators; 15 user dictionaries', block=8),
    Section('processes', proc_cases, proc_check, setup, 'representative commands in new interpreters', block=1),
]
