"""C30: a dictionary is a function of its sources."""
import hashlib
import itertools
import os
import signal
import time

from .. import sub
from ..cli import fork_main, subprocess_main
from ..core import Scratch, Section, Violation
from ..fmt import decode
from ..src import build_system, build_user, csv_text, matrix_text, open_system, row, write_file

PROPERTY = 'C30'
RULE = ('a case is one way to build a fixed set of sources: a history of builds (also failing ones) and analyses in one process, a hash seed, or a '
        'working directory, output path, naming of the sources, description, locale and time zone of the command; the result must equal, except for '
        'the creation time and the description, the dictionary built first thing in a new process')
ASSUMPTIONS = ['the system dictionary a user dictionary is built with is the same file']

POS = [('名詞', '普通名詞', '一般', '*', '*', '*'), ('動詞', '一般', '*', '*', '五段-カ行', '終止形-一般'), ('助詞', '格助詞', '*', '*', '*', '*')]


def own(k):
    return ('名詞', '自作', '甲乙丙丁'[k % 4], str(k), '*', '*')


def many():
    out = []
    for i in range(240):
        h = '語族系統学校'[i % 6] + '一二三四五'[i % 5] + ('' if i % 3 else str(i % 7))
        out.append(row(h, i % 4, i % 3, i * 37 % 500 - 200, pos=own(i * 7 % 40) if i % 2 else POS[i % 3], reading='ヨミ%d' % (i % 11),
                       norm='形%d' % (i % 13), dform=str(i - 1) if i % 5 == 1 else '*', syn='/'.join(str(x) for x in range(i % 4)) or '*',
                       a='%d/%d' % (i // 2, i // 3) if i > 2 and i % 4 == 0 else '*', b='%d/%d' % (i // 3, i // 2) if i > 2 and i % 8 == 0 else '*'))
    return out


def sources():
    """name -> (lists of rows, matrix or None, system dictionary or None)"""
    small = [[row('京'), row('都', 1, 1, 5, pos=POS[1])], [row('京都', 0, 2, -7, a='0/1', b='京,%s,京/1' % ','.join(POS[0]), syn='5/6'), row('行っ', -1, dform='0'),
                                                          row('京', 2, 0, 3, reading='ケイ')]]
    big = many()
    m1 = matrix_text(4, 5, {(l, r): l * 31 - r * 17 for l in range(4) for r in range(5)})
    return {
        's0': (small, '3 3\n0 0 0\n1 2 -5\n0 1 7\n', None),
        's1': ([big[:100], big[100:101], big[101:]], m1, None),
        's2': ([[row('都', pos=POS[2]), row('京', pos=POS[0]), row('鹿', pos=POS[1]),
                 row('京都', a='京,%s,京/都,%s,都' % (','.join(POS[0]), ','.join(POS[2])), ws='京,%s,京' % ','.join(POS[0]))]], '1 1\n0 0 12\n', None),
        'u0': ([[row('京', 1, 1, -32768, pos=own(1)), row('新', pos=own(0), a='0/U0', ws='U0/2'),
                 row('京都', pos=POS[1], b='京,%s,京/京,%s,京' % (','.join(POS[0]), ','.join(own(1))))], [row('鹿', pos=own(1), dform='1')]], None, 's0'),
        'u1': ([[row('私%d' % i, i % 2, 0, i, pos=own(30 - i) if i % 3 else POS[i % 2], a='%d/U%d' % (i, i // 2), ws='U%d' % (i // 2)) for i in range(40)]],
               None, 's1'),
    }


def bad(kind):
    return {'row': [[row('良い'), row('悪い')[:7]]], 'pos': [[row('良い', pos=own(3)), row('悪い', a='99/98')]]}[kind]


NAMES = ['s0', 's1', 's2', 'u0', 'u1']


def write_csv(d, stem, lists):
    out = []
    for i, rows in enumerate(lists):
        p = os.path.join(d, '%s%d.csv' % (stem, i))
        with open(p, 'wb') as f:
            f.write(csv_text(rows).encode('utf-8'))
        out.append(p)
    return out


def body(data):
    """everything but the creation time and the description"""
    return data[:8] + data[272:]


def build(d, name, systems):
    """the bytes, built by the library; systems: name -> path of the built system dictionary"""
    lists, matrix, base = sources()[name]
    paths = write_csv(d, name + '-', lists)
    if base is None:
        return build_system(paths, matrix)
    from sudachipy.dictionarylib.lexiconset import LexiconSet
    bd = open_system(systems[base])
    return build_user(paths, bd.grammar, LexiconSet(bd.lexicon))


def digest(data):
    return hashlib.sha256(body(data)).hexdigest()


def fresh(arg):
    """run in a new process: builds one dictionary and keeps it"""
    d, name = arg
    data = build(d, name, {b: os.path.join(d, b + '.dic') for b in ('s0', 's1', 's2')})
    write_file(d, name + '.dic', data)
    return digest(data)


def corpus(d):
    """run in a new process with another hash seed"""
    work = Scratch.dir('seed')
    try:
        systems = {b: os.path.join(d, b + '.dic') for b in ('s0', 's1', 's2')}
        return {n: digest(build(work, n, systems)) for n in NAMES}
    finally:
        Scratch.cleanup()


class Env:
    pass


def setup(tier):
    e = Env()
    e.dir = Scratch.dir('c30')
    write_file(e.dir, 'char.def', b'DEFAULT 0 1 0\n')
    e.ref = {n: sub.run('mc.props.c30', 'fresh', [e.dir, n]) for n in NAMES}
    e.system = {b: os.path.join(e.dir, b + '.dic') for b in ('s0', 's1', 's2')}
    e.data = {n: open(os.path.join(e.dir, n + '.dic'), 'rb').read() for n in NAMES}
    e.decoded = {n: decode(e.data[n]) for n in NAMES}
    for k, name in enumerate(NAMES):
        lists = sources()[name][0]
        if len(e.decoded[name].entries) != sum(len(x) for x in lists):
            raise Violation('%s has %d entries' % (name, len(e.decoded[name].entries)))
    return e


# --- histories of one process
OPS = NAMES + ['bad-row', 'bad-unit', 'bad-matrix', 'bad-user', 'analyse']


def history_cases(tier):
    depth = 3 if tier == 'quick' else 5
    for n in range(0, depth + 1):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            yield seq


def perform(env, d, op):
    """(digest or None)"""
    if op in NAMES:
        return digest(build(d, op, env.system))
    if op == 'analyse':
        import json
        conf = {'systemDict': env.system['s1'], 'userDict': [os.path.join(env.dir, 'u1.dic')], 'characterDefinitionFile': os.path.join(env.dir, 'char.def'),
                'oovProviderPlugin': [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(POS[0]), 'leftId': 0, 'rightId': 0, 'cost': 3000}]}
        from sudachipy.dictionary import Dictionary
        path = write_file(d, 'sudachi.json', json.dumps(conf).encode())
        dic = Dictionary(config_path=path)
        ml = dic.create().tokenize('私3語一と私')
        [(m.surface(), m.part_of_speech()) for m in ml]
        return None
    try:
        if op == 'bad-row':
            build_system(write_csv(d, 'bad', bad('row')), '1 1\n0 0 0\n')
        elif op == 'bad-unit':
            build_system(write_csv(d, 'bad', bad('pos')), '1 1\n0 0 0\n')
        elif op == 'bad-matrix':
            build_system(write_csv(d, 'bad', [[row('良い', pos=own(5))]]), '2 2\n0 0 0\n1 x 0\n')
        elif op == 'bad-user':
            from sudachipy.dictionarylib.lexiconset import LexiconSet
            bd = open_system(env.system['s0'])
            build_user(write_csv(d, 'bad', bad('pos')), bd.grammar, LexiconSet(bd.lexicon))
    except Exception:
        return None
    raise Violation('%s succeeds' % op)


def in_child(f):
    """f() in a forked child; None, or the text of what went wrong"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(120)
            try:
                f()
                msg = ''
            except Violation as e:
                msg = str(e)
            except BaseException as e:  # noqa
                msg = '%s: %s' % (type(e).__name__, e)
            os.write(w, msg.encode('utf-8')[:4000])
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as p:
        msg = p.read().decode('utf-8', 'replace')
    _, status = os.waitpid(pid, 0)
    if status:
        return 'ended by %d' % status
    return msg


def history_check(env, case, ctx):
    seq = [OPS[i] for i in case]
    d = env.__dict__.setdefault('work', {}).setdefault(os.getpid(), None)
    if d is None:
        d = env.work[os.getpid()] = Scratch.dir('work')

    def go():
        for op in seq:
            got = perform(env, d, op)
            if got is not None and got != env.ref[op]:
                raise Violation('%s differs' % op)
        for op in ('u0', 's0') if len(seq) > 2 else NAMES:
            if digest(build(d, op, env.system)) != env.ref[op]:
                raise Violation('%s, built last, differs' % op)
    msg = in_child(go)
    if msg:
        raise Violation('after %s: %s' % (', '.join(seq), msg))
    ctx.count('transitions', len(seq))
    ctx.count('states')
    ctx.outcome(case)


# --- hash seeds
def seed_cases(tier):
    return range(0, 24) if tier == 'quick' else range(0, 256)


def seed_check(env, case, ctx):
    got = sub.run('mc.props.c30', 'corpus', env.dir, {'PYTHONHASHSEED': str(case)})
    ctx.count('transitions', len(got))
    if got != env.ref:
        raise Violation('with PYTHONHASHSEED=%d these differ: %r' % (case, [n for n in NAMES if got[n] != env.ref[n]]))
    ctx.count('states')
    ctx.outcome(case)


# --- the command
OUT = ['relative', 'absolute', 'existing', 'link', 'long-existing', 'default']
CWD = ['.', 'sub', '/']
STEM = ['lex', '辞書 1-', './lex', 'UPPER.txt-']
DESC = [None, '', 'x', '説明', 'あ' * 85, 'x' * 256]


def command_cases(tier):
    for name in NAMES:
        for out in OUT:
            for cwd in CWD:
                for stem in STEM:
                    for desc in DESC:
                        if out == 'default' and cwd == '/':
                            continue
                        yield (name, out, cwd, stem, desc)


def prepare(env, name, stem):
    d = Scratch.dir('cmd')
    os.mkdir(os.path.join(d, 'sub'))
    lists, matrix, base = sources()[name]
    paths = write_csv(d, os.path.basename(stem), lists)
    if base is None:
        m = write_file(d, 'matrix.def', matrix.encode())
        return d, ['build', '-m', m], paths
    s = write_file(d, 'sys.dic', env.data[base])
    return d, ['ubuild', '-s', s], paths


def judge(env, name, data, desc, t0, t1, what):
    if data is None:
        raise Violation('%s: nothing is written' % what)
    if body(data) != body(env.data[name]):
        k = [i for i, (x, y) in enumerate(zip(body(data), body(env.data[name]))) if x != y]
        raise Violation('%s: the dictionary differs (%d and %d bytes, first at %r)' % (what, len(data), len(env.data[name]), k[:1]))
    d = decode(data)
    if d.desc != (desc or ''):
        raise Violation('%s: the description is %r' % (what, d.desc))
    if not int(t0) <= d.time <= int(t1) + 1:
        raise Violation('%s: the creation time is %d, built between %d and %d' % (what, d.time, t0, t1))


def remove(d):
    for base, dirs, files in os.walk(d, topdown=False):
        for f in files:
            os.unlink(os.path.join(base, f))
        os.rmdir(base)


def command_check(env, case, ctx):
    name, out, cwd, stem, desc = case
    d, argv, paths = prepare(env, name, stem)
    where = os.path.join(d, 'sub') if cwd == 'sub' else d if cwd == '.' else '/'
    if stem.startswith('./'):
        paths = [os.path.relpath(p, where) for p in paths]
    target = os.path.join(d, 'out.dic')
    if out == 'default':
        target = os.path.join(where, 'system.dic' if argv[0] == 'build' else 'user.dic')
    elif out == 'relative':
        argv += ['-o', os.path.relpath(target, where)]
    else:
        argv += ['-o', target]
    if out == 'existing':
        write_file(d, 'out.dic', env.data['s0' if name != 's0' else 's1'])
    elif out == 'long-existing':
        write_file(d, 'out.dic', b'\xff' * 300000)
    elif out == 'link':
        write_file(d, 'real.dic', b'x' * 100)
        os.symlink('real.dic', target)
    if desc is not None:
        argv += ['-d', desc]
    t0 = time.time()
    code, so, se = fork_main(argv + paths, cwd=where)
    t1 = time.time()
    what = '%s to %s path in %s from %r with description %r' % (name, out, cwd, stem, desc)
    if code != 0:
        raise Violation('%s: exit status %d: %s' % (what, code, se[-300:]))
    judge(env, name, open(target, 'rb').read() if os.path.exists(target) else None, desc, t0, t1, what)
    remove(d)
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- the environment of the command
VARS = [{}, {'LC_ALL': 'C', 'PYTHONUTF8': '1'}, {'TZ': 'Asia/Tokyo'}, {'TZ': 'XXX+12'}, {'PYTHONOPTIMIZE': '2'}, {'COLUMNS': '20'},
        {'PYTHONHASHSEED': '77'}, {'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '0'},
        {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'latin-1'}]


def env_cases(tier):
    for k in range(len(VARS)):
        for name in NAMES:
            yield (k, name)


def env_check(env, case, ctx):
    k, name = case
    d, argv, paths = prepare(env, name, 'lex')
    target = os.path.join(d, 'out.dic')
    t0 = time.time()
    code, so, se = subprocess_main(argv + ['-o', target, '-d', 'desc'] + paths, cwd=d, env=VARS[k])
    t1 = time.time()
    what = '%s with %r' % (name, VARS[k])
    if code != 0:
        raise Violation('%s: exit status %d: %s' % (what, code, se[-300:]))
    judge(env, name, open(target, 'rb').read() if os.path.exists(target) else None, 'desc', t0, t1, what)
    remove(d)
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- user dictionaries and the system dictionary they are built with
def base_cases(tier):
    for name in ('u0', 'u1'):
        for kind in ('library', 'command'):
            for t in (0, 1, 2 ** 31, 2 ** 40):
                for desc in ('', '別の説明'):
                    for users in (0, 1):
                        yield (name, kind, t, desc, users)


def base_check(env, case, ctx):
    """the system dictionary is built again at another time, with another description, and is in use with user dictionaries"""
    import struct
    name, kind, t, desc, users = case
    base = sources()[name][2]
    d = Scratch.dir('base')
    lists, matrix, _ = sources()[base]
    sysd = write_file(d, 'system.dic', build_system(write_csv(d, 'sys', lists), matrix, t, desc))
    dic = None
    if users:
        import json
        from sudachipy.dictionary import Dictionary
        conf = {'systemDict': sysd, 'userDict': [os.path.join(env.dir, name + '.dic')] * 2, 'characterDefinitionFile': os.path.join(env.dir, 'char.def'),
                'oovProviderPlugin': [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(POS[0]), 'leftId': 0, 'rightId': 0, 'cost': 3000}]}
        dic = Dictionary(config_path=write_file(d, 'sudachi.json', json.dumps(conf).encode()))
        [m.part_of_speech() for m in dic.create().tokenize('私3京都私')]
    lists = sources()[name][0]
    paths = write_csv(d, 'lex', lists)
    if kind == 'library':
        from sudachipy.dictionarylib.lexiconset import LexiconSet
        bd = open_system(sysd)
        data = build_user(paths, bd.grammar, LexiconSet(bd.lexicon), t, desc)
    else:
        code, so, se = fork_main(['ubuild', '-s', sysd, '-o', os.path.join(d, 'out.dic')] + paths, cwd=d)
        if code:
            raise Violation('%r: exit status %d: %s' % (case, code, se[-300:]))
        data = open(os.path.join(d, 'out.dic'), 'rb').read()
    if body(data) != body(env.data[name]):
        raise Violation('%r: the user dictionary differs' % (case,))
    if kind == 'library' and (decode(data).time, decode(data).desc) != (t, desc):
        raise Violation('%r: the header holds %r' % (case, (decode(data).time, decode(data).desc)))
    del dic
    remove(d)
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- the names and the number of the source files
def name_cases(tier):
    for user in (False, True):
        for n in range(1, 6 if tier == 'quick' else 7):
            for perm in itertools.permutations(range(n)):
                for where in ('same', 'folders'):
                    yield (user, perm, where)


NAME_ROWS = [row(h, k, 0, k, reading=r) for k, (h, r) in enumerate([('い', 'イ'), ('あ', 'ア'), ('あ', 'イ'), ('かき', 'カ'), ('い', 'ア'), ('ん', 'ン'), ('あい', 'x')])]


def name_check(env, case, ctx):
    user, perm, where = case
    n = len(perm)
    lists = [NAME_ROWS[k::n] for k in range(n)]
    d = Scratch.dir('names')

    def made(names):
        paths = []
        for rows, name in zip(lists, names):
            f = os.path.join(d, name)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as out:
                out.write(csv_text(rows).encode('utf-8'))
            paths.append(f)
        if not user:
            return build_system(paths, matrix_text(7, 1, {(6, 0): 5}))
        s = open_system(env.system['s0'])
        return build_user(paths, s.grammar, s.lexicon)
    data = made(['lex%s.csv' % 'abcdef'[k] if where == 'same' else 'f%s/lex.csv' % 'abcdef'[k] for k in perm])
    one = lists
    lists = [[r for rows in one for r in rows]]
    whole = made(['all.csv'])
    if body(data) != body(whole):
        raise Violation('%r: the dictionary differs from that of one file with the same rows' % (case,))
    got = [(e['surface'], e['reading']) for e in decode(data).entries]
    want = [(r[4], r[11]) for rows in one for r in rows]
    if got != want:
        raise Violation('%r: entries %r, expected %r' % (case, got, want))
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)
    remove(d)


SECTIONS = [
    Section('histories', history_cases, history_check, setup,
            'all sequences of up to 3 (thorough 5) of 10 builds, failing builds and analyses in one process', block=16),
    Section('hash-seeds', seed_cases, seed_check, setup, '24 (256) hash seeds in new processes', block=1),
    Section('command', command_cases, command_check, setup, '5 sources x 6 output paths x 3 working directories x 4 namings x 6 descriptions', block=8),
    Section('names', name_cases, name_check, setup, 'every order of the names of 1..5 (thorough 6) source files, in one folder and in several, system and user dictionary', block=16),
    Section('environment', env_cases, env_check, setup, '10 environments x 5 sources in new processes', block=1),
    Section('rebuilt-base', base_cases, base_check, setup, 'user dictionaries built with a system dictionary built again, unused and in use', block=2),
]
