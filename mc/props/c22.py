"""C22: loading and analysing never modifies files; files of the wrong kind are refused."""
import gc
import itertools
import json
import os
import shutil
import struct
import sys

from .. import fmt
from ..cli import fork_main
from ..core import Scratch, Section, Violation
from ..fmt import entry
from ..src import open_system, open_user, row, write_file, write_sources
from ..world import POS_SYS, World, modes, observe_all

PROPERTY = 'C22'
RULE = ('histories: a case is one sequence of operations, every file of the configuration is compared (bytes, size, modification time, '
        'inode, directory listing) after each operation; files: a case is one file in one role, accepted exactly when its version '
        'number is one of that role')
ASSUMPTIONS = ['a file with the version number of a dictionary is taken to be that dictionary (the format has no other identification); '
               'truncations are demanded to be refused up to the end of the header']

SYSTEM = [entry('東', 1, 1, 100, reading='ヒガシ'), entry('京', 1, 2, 120, reading='キョウ'), entry('都', 2, 1, 90, reading='ト'),
          entry('東京', 1, 1, 130, reading='トウキョウ', a=[0, 1], b=[0, 1], syn=[5, 9]), entry('行っ', 2, 2, 80, dform=5, pos=3),
          entry('行く', 2, 2, 80, pos=3)]
U = 1 << 28
USER1 = ([entry('東京都', 1, 1, -32768, a=[0, 1, 2], b=[3, 2]), entry('京都', 1, 2, 77, pos=6, a=[1, 2]), entry('都東', 0, 0, -32768, a=[2, U | 3]),
          entry('東', 0, 1, 10, pos=6)], [('名詞', 'ユーザ', '*', '*', '*', '*')])
USER2 = ([entry('行っ東', 1, 1, -32768, pos=6, dform=1), entry('京', 1, 1, 5)], [('名詞', 'ユーザ2', '*', '*', '*', '*')])
TEXT = '東京都に行っ東京都京 abc東'
CATS = [('KANJI', 1, 1, 4000, POS_SYS[0]), ('DEFAULT', 0, 0, 5000, POS_SYS[2]), ('ALPHA', 1, 0, 3000, POS_SYS[0])]
MATRIX = {(1, 2): -30, (2, 1): 40, (1, 1): 5, (0, 1): 7, (2, 2): -9}


def world(version='S2', user='U3'):
    return World(SYSTEM, [USER1, USER2], matrix=MATRIX, unk=CATS, input_plugins=[], path_plugins=[], version=version, user_version=user)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            st = os.stat(p)
            with open(p, 'rb') as g:
                out[os.path.relpath(p, d)] = (g.read(), st.st_size, st.st_mtime_ns, st.st_ino, st.st_mode)
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), d)] = 'dir'
    return out


def compare(d, before, what):
    after = snapshot(d)
    for k in before:
        if k not in after:
            raise Violation('%s: the file %s is gone' % (what, k))
    for k in after:
        if k not in before:
            raise Violation('%s: a file %s has appeared' % (what, k))
        if after[k] != before[k]:
            names = ('bytes', 'size', 'modification time', 'inode', 'mode')
            diff = [n for n, x, y in zip(names, before[k], after[k]) if x != y]
            raise Violation('%s: %s of %s changed' % (what, ', '.join(diff), k))


OPS = ['open', 'tokenize-C', 'tokenize-A', 'user-cost', 'connect-cost', 'inhibit', 'lookup', 'close', 'bad-open', 'cli-tokenize', 'cli-ubuild']


class State:
    def __init__(self):
        self.dics = []
        self.toks = []
        self.lists = []

    def drop(self):
        self.toks = []
        self.lists = []
        gc.collect()


class Env:
    pass


def quiet():
    sys.unraisablehook = lambda x: None     # finalizers of half-opened dictionaries


def setup(tier):
    quiet()
    e = Env()
    e.worlds = []
    e.out = Scratch.dir('c22out')
    for v, u in (('S2', 'U3'), ('S1', 'U1'), ('S2', 'U2')):
        w = world(v, u)
        if u == 'U1':       # the oldest format has no parts of speech of its own
            w.users = [([dict(x, pos=0) for x in us[0]], []) for us in w.users]
        d = w.write(Scratch.dir('c22'))
        with open(os.path.join(d, 'input.txt'), 'wb') as f:
            f.write((TEXT + '\n\n京都\n').encode())
        with open(os.path.join(d, 'src.csv'), 'wb') as f:
            from ..src import csv_text
            f.write(csv_text([row('新', 1, 1, 5, a='*'), row('新東', 1, 1, 5, pos=('新',) + ('*',) * 5, a='U0/0')]).encode())
        bad = dict(w.config(), systemDict='user0.dic')
        with open(os.path.join(d, 'bad.json'), 'wb') as f:
            f.write(json.dumps(bad).encode())
        with open(os.path.join(d, 'bad2.json'), 'wb') as f:
            f.write(json.dumps(dict(w.config(), userDict=['user0.dic', 'system.dic'])).encode())
        # the command line has no resource option: the setting file names absolute paths
        e.worlds.append((w, d))
    return e


def apply(w, d, st, op, out):
    from sudachipy.dictionary import Dictionary
    name = OPS[op]
    if name == 'open':
        st.dics.append(Dictionary(config_path=os.path.join(d, 'sudachi.json'), resource_dir=d))
        return 'opened'
    if name == 'bad-open':
        for f in ('bad.json', 'bad2.json'):
            try:
                Dictionary(config_path=os.path.join(d, f), resource_dir=d)
            except Exception:
                continue
            raise Violation('a dictionary of the wrong kind is accepted (%s)' % f)
        gc.collect()
        return 'refused'
    if name == 'cli-tokenize':
        code, so, se = fork_main(['-r', os.path.join(d, 'sudachi.json'), '-a', '-o', os.path.join(out, 'o.txt'), os.path.join(d, 'input.txt')], cwd=out)
        if code:
            raise Violation('tokenize fails: %s' % se[-300:])
        return 'cli'
    if name == 'cli-ubuild':
        code, so, se = fork_main(['ubuild', '-s', os.path.join(d, 'system.dic'), '-o', os.path.join(out, 'new.dic'), os.path.join(d, 'src.csv')], cwd=out)
        if code:
            raise Violation('ubuild fails: %s' % se[-300:])
        return 'built'
    if not st.dics:
        return 'none'
    dic = st.dics[-1]
    if name.startswith('tokenize'):
        t = dic.create(modes()[name[-1]])
        ml = t.tokenize(TEXT)
        r = observe_all(ml)
        if name[-1] == 'A':
            for m in t.tokenize(TEXT, modes()['C']):
                for x in m.split(modes()['A']):
                    x.surface(), x.normalized_form()
        st.toks.append(t)
        st.lists.append(ml)
        return r
    if name == 'user-cost':
        for i in (1, 2):
            params = getattr(dic.dictionaries[i].lexicon, 'word_params', None)
            if params is not None:
                for wid in range(2):
                    params.set_cost(wid, 7 + wid)
                if [params.get_cost(0), params.get_cost(1)] != [7, 8]:
                    raise Violation('costs set in memory are not read back')
        return 'cost'
    if name in ('connect-cost', 'inhibit'):
        from sudachipy.plugin.connect_cost import EditConnectionCostPlugin
        try:
            if name == 'inhibit':
                EditConnectionCostPlugin.inhibit_connection(dic.grammar, 1, 1)
            else:
                dic.grammar.set_connect_cost(1, 2, 1234)
            return 'edited'
        except TypeError:       # the system dictionary is mapped for reading only
            return 'read-only'
    if name == 'lookup':
        raw = TEXT.encode()
        n = sum(1 for i in range(0, 12, 3) for _ in dic.lexicon.lookup(raw, i))
        dic.lexicon.get_word_id('東京', 0, 'トウキョウ')
        return n
    if name == 'close':
        st.drop()
        st.dics.pop().close()
        gc.collect()
        return 'closed'


def hist_cases(tier):
    depth = 4 if tier == 'quick' else 5
    for w in range(3):
        for n in range(1, depth + 1):
            if tier == 'quick' and w and n == depth:
                continue
            for seq in itertools.product(range(len(OPS)), repeat=n):
                # operations that need an open dictionary come after the first opening
                opened = False
                ok = True
                for o in seq:
                    if OPS[o] == 'open':
                        opened = True
                    elif not opened and o not in (8, 9, 10):
                        ok = False
                if ok:
                    yield (w, seq)


def hist_check(env, case, ctx):
    wi, seq = case
    w, d = env.worlds[wi]
    before = snapshot(d)
    st = State()
    obs = []
    try:
        for k, op in enumerate(seq):
            what = 'after %s' % '; '.join(OPS[o] for o in seq[:k + 1])
            obs.append(apply(w, d, st, op, env.out))
            ctx.count('transitions')
            compare(d, before, what)
        # a fresh opening sees the files, not edits made in memory
        from sudachipy.dictionary import Dictionary
        fresh = Dictionary(config_path=os.path.join(d, 'sudachi.json'), resource_dir=d)
        r = observe_all(fresh.create(modes()['C']).tokenize(TEXT))
        costs = [[int(fresh.lexicon.get_cost((k << 28) | i)) for i in range(2)] for k in range(3)]
        cells = {c: int(fresh.grammar.get_connect_cost(*c)) for c in MATRIX}
        if cells != MATRIX:
            raise Violation('after %s a new opening reads the connection costs %r' % ([OPS[o] for o in seq], cells))
        if not hasattr(env, 'first'):
            env.first = {}
        if env.first.setdefault(wi, (r, costs)) != (r, costs):
            raise Violation('after %s a new opening behaves differently: %r, %r' % ([OPS[o] for o in seq], r, costs))
        del fresh
    finally:
        st.drop()
        st.dics = []
        gc.collect()
    compare(d, before, 'after %s and release' % '; '.join(OPS[o] for o in seq))
    ctx.count('states')
    ctx.outcome((wi, tuple(repr(o) for o in obs)))


# --- files in roles
ROLES = ['system', 'user', 'config-system', 'config-user-first', 'config-user-second', 'ubuild-system', 'cli-tokenize']


def image(v):
    if v.startswith('S'):
        return fmt.encode(fmt.ALL[v], SYSTEM, POS_SYS, 4, 4, MATRIX)
    return fmt.encode(fmt.ALL[v], [dict(x, pos=0) for x in USER1[0]], POS_SYS[:1] if v != 'U1' else ())


def mutate(v, how, x):
    data = image(v)
    if how == 'plain':
        return data
    if how == 'flip':
        ver = struct.unpack_from('<Q', data)[0]
        for b in x:
            ver ^= 1 << b
        return struct.pack('<Q', ver) + data[8:]
    if how == 'version':
        return struct.pack('<Q', x) + data[8:]
    if how == 'be':
        return data[:8][::-1] + data[8:]
    if how == 'swap':
        return data[4:8] + data[:4] + data[8:]
    if how == 'cut':
        return data[:x]
    if how == 'shift':
        return b'\0' * x + data
    if how == 'drop':
        return data[x:]
    if how == 'bytes':
        return bytes.fromhex(x)
    raise ValueError(how)


VERSIONS = ['S1', 'S2', 'U1', 'U2', 'U3']


def file_cases(tier):
    for v in VERSIONS:
        for role in range(len(ROLES)):
            yield (v, 'plain', 0, role)
            for how in ('be', 'swap'):
                yield (v, how, 0, role)
            for b in range(64):
                if role < 2 or b % 8 == 0 or tier == 'thorough':
                    yield (v, 'flip', (b,), role)
            for n in (0, 1, 7, 8, 15, 16, 17, 100, 271):
                yield (v, 'cut', n, role)
            for n in (1, 8, 272):
                yield (v, 'shift', n, role)
                yield (v, 'drop', n, role)
        for role in (0, 1):
            for b in itertools.combinations(range(64), 2):
                yield (v, 'flip', b, role)
            for n in range(272):
                yield (v, 'cut', n, role)
        if tier == 'thorough':
            for role in (0, 1):
                for b in itertools.combinations(range(64), 3):
                    yield (v, 'flip', b, role)
    for role in range(len(ROLES)):
        for x in (0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2, 0x7fffffffffffffff):
            yield ('S2', 'version', x, role)
        for h in ('', '00', '0a', '00' * 272, 'ff' * 272, '00' * 600, '7b7d0a', '20' * 4096):
            yield ('S2', 'bytes', h, role)
        yield ('S2', 'missing', 0, role)
        yield ('S2', 'directory', 0, role)


class FEnv:
    pass


def fsetup(tier):
    quiet()
    e = FEnv()
    w = World(SYSTEM, [([dict(x, pos=0) for x in USER1[0]], [])] * 2, matrix=MATRIX, unk=CATS)
    e.w = w
    e.d = w.write(Scratch.dir('c22f'))
    import json
    base = w.config()
    for name, change in (('config-system', dict(systemDict='x.dic')), ('config-user-first', dict(userDict=['x.dic', 'user1.dic'])),
                         ('config-user-second', dict(userDict=['user0.dic', 'x.dic']))):
        with open(os.path.join(e.d, name + '.json'), 'wb') as f:
            f.write(json.dumps(dict(base, **change)).encode())
    with open(os.path.join(e.d, 'src.csv'), 'wb') as f:
        from ..src import csv_text
        f.write(csv_text([row('新', 1, 1, 5)]).encode())
    return e


def file_check(env, case, ctx):
    v, how, x, role = case
    name = ROLES[role]
    path = os.path.join(env.d, 'x.dic')
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.unlink(path)
    data = None
    if how == 'directory':
        os.mkdir(path)
    elif how != 'missing':
        data = mutate(v, how, x)
        write_file(env.d, 'x.dic', data)
    ver = struct.unpack_from('<Q', data)[0] if data is not None and len(data) >= 272 else None
    kind = {fmt.SYSTEM_V1: 'S', fmt.SYSTEM_V2: 'S', fmt.USER_V1: 'U', fmt.USER_V2: 'U', fmt.USER_V3: 'U'}.get(ver)
    want = kind == ('U' if 'user' in name and name != 'ubuild-system' else 'S')
    if want and how not in ('plain',):
        return      # another dictionary by its version, with a body that does not belong to it
    before = snapshot(env.d)
    from sudachipy.dictionary import Dictionary
    err = None
    if name == 'ubuild-system':
        code, so, se = fork_main(['ubuild', '-s', path, '-o', os.path.join(env.d, '..', 'o.dic'), os.path.join(env.d, 'src.csv')], cwd=env.d)
        err = se if code else None
    elif name == 'cli-tokenize':
        code, so, se = fork_main(['-r', os.path.join(env.d, 'config-system.json')], stdin='東京\n'.encode(), cwd=env.d)
        err = se if code else None
        if code and so:
            raise Violation('%s %s %r as %s: output although the dictionary is refused: %r' % (v, how, x, name, so[:100]))
    else:
        try:
            if name == 'system':
                obj = open_system(path)
            elif name == 'user':
                obj = open_user(path)
            else:
                obj = Dictionary(config_path=os.path.join(env.d, name + '.json'), resource_dir=env.d)
            if want:
                if obj.lexicon.size() < 4:
                    raise Violation('only %d words' % obj.lexicon.size())
            del obj
        except Violation:
            raise
        except Exception as e:  # noqa
            err = repr(e)
    what = '%s %s %r as %s' % (v, how, x if how != 'bytes' else x[:20], name)
    if want and err is not None:
        raise Violation('%s: refused: %s' % (what, err[-300:]))
    if not want and err is None:
        raise Violation('%s: accepted' % what)
    compare(env.d, before, what)
    ctx.count('transitions')
    ctx.count('states')
    ctx.count('accepted' if want else 'refused')
    ctx.outcome((case, want))


SECTIONS = [
    Section('histories', hist_cases, hist_check, setup,
            'all sequences of up to 4 (thorough 5) of 11 operations on 3 configurations (format versions)', block=4),
    Section('kinds', file_cases, file_check, fsetup,
            '5 versions x every 1- and 2-bit change of the version, every truncation of the header, other contents x 7 roles'),
]
