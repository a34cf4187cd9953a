"""C19: settings resolve to the documented resources."""
import importlib
import itertools
import json
import os
import pathlib
import shutil
import sys
import warnings

from .. import fmt, world as W
from ..core import Section, Violation, Scratch
from ..enum import vectors
from ..fmt import entry
from ..world import POS_SYS

PROPERTY = 'C19'
RULE = ('a case is one combination of constructor arguments, setting file contents and installed dictionary packages (or a sequence of them in one process); '
        'every resource is marked, so that the dictionary shows which files it was made from')
ASSUMPTIONS = ['resource directories are given as strings or paths of existing files; the shipped setting file is not edited']

CONFIG = ['file', 'relative', 'pathlib', 'default', 'missing', 'badjson']
RESOURCE = [None, 'R', 'Rrel', 'Rpath', 'missing']
TYPE = [None, 'core', 'small', 'full', 'tiny', '']
SYSTEM = ['rel', 'abs', 'sub', 'absent', 'empty', 'null', 'missing', 'userdic', 'abscore']
CHARDEF = ['rel', 'abs', 'absent', 'missing']
USERS = ['absent', 'none', 'rel', 'abs', 'two', 'missing', 'sysdic', 'twice']
OOV = ['rel', 'abs', 'sub', 'missing', 'absent', 'unknown']
INSTALLED = ['none', 'core', 'all', 'broken']
AXES = [CONFIG, RESOURCE, TYPE, SYSTEM, CHARDEF, USERS, OOV, INSTALLED]

MARK_CAT = {'D': 'GREEK', 'R': 'CYRILLIC', 'X': 'USER1', 'Dsub': 'USER2', 'Rsub': 'USER3'}
MARK_POS = {k: ('印', k, '*', '*', '*', '*') for k in MARK_CAT}
PLACES = list(MARK_CAT)


class Env:
    pass


def shipped_pos():
    from . import c15
    return c15.shipped()[3]


def build_tree(tier=None):
    env = Env()
    env.root = Scratch.dir('c19')
    pos = shipped_pos() + [MARK_POS[k] for k in PLACES]
    env.pos = pos
    j = os.path.join

    def sysdic(name):
        return fmt.encode(fmt.ALL['S2'], [entry('あ', 0, 0, 10, reading=name), entry('う', 0, 0, 10, reading=name)], pos, 1, 1, {})

    def userdic(name):
        return fmt.encode(fmt.ALL['U3'], [entry('い', 0, 0, 10, reading=name)], [])

    def put(path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data.encode('utf-8') if isinstance(data, str) else data)
    env.dir = {'D': j(env.root, 'D'), 'R': j(env.root, 'R'), 'X': j(env.root, 'X'), 'Dsub': j(env.root, 'D', 'sub'), 'Rsub': j(env.root, 'R', 'sub')}
    for k, d in env.dir.items():
        put(j(d, 'sys.dic'), sysdic(k))
        put(j(d, 'u1.dic'), userdic(k + '1'))
        put(j(d, 'u2.dic'), userdic(k + '2'))
        put(j(d, 'char.def'), 'DEFAULT 0 1 0\nALPHA 1 1 0\n%s 1 1 0\n0x005A ALPHA %s\n0x0051 ALPHA\n' % (MARK_CAT[k], MARK_CAT[k]))
        put(j(d, 'unk.def'), 'ALPHA,0,0,100,%s\nDEFAULT,0,0,100,%s\n' % (','.join(MARK_POS[k]), ','.join(MARK_POS[k])))
    put(j(env.root, 'X', 'sudachidict_core', 'sys.dic'), sysdic('Xcore'))
    for name, pkgs in (('core', ['core']), ('all', ['core', 'small', 'full']), ('broken', ['core', 'small', 'full'])):
        for p in pkgs:
            put(j(env.root, 'site-' + name, 'sudachidict_' + p, '__init__.py'), '')
            if name != 'broken':
                put(j(env.root, 'site-' + name, 'sudachidict_' + p, 'resources', 'system.dic'), sysdic('pkg-%s-%s' % (name, p)))
    put(j(env.root, 'D', 'bad.json'), '{"systemDict": ')
    return env


def setting(env, case):
    config, resource, type_, system, chardef, users, oov, installed = case
    X = env.dir['X']
    s = {}
    v = {'rel': 'sys.dic', 'sub': 'sub/sys.dic', 'abs': os.path.join(X, 'sys.dic'), 'empty': '', 'null': None, 'missing': 'nosuch.dic', 'userdic': 'u1.dic',
         'abscore': os.path.join(X, 'sudachidict_core', 'sys.dic')}
    if system != 'absent':
        s['systemDict'] = v[system]
    if chardef != 'absent':
        s['characterDefinitionFile'] = {'rel': 'char.def', 'abs': os.path.join(X, 'char.def'), 'missing': 'nosuch.def'}[chardef]
    if users != 'absent':
        s['userDict'] = {'none': [], 'rel': ['u1.dic'], 'abs': [os.path.join(X, 'u2.dic')], 'two': ['sub/u2.dic', os.path.join(X, 'u1.dic'), 'u1.dic'],
                         'twice': ['u1.dic', 'u1.dic', os.path.join(X, 'u1.dic'), 'sub/u2.dic', 'u1.dic', os.path.join(X, 'u1.dic')],
                         'missing': ['u1.dic', 'nosuch.dic'], 'sysdic': ['sys.dic']}[users]
    if oov != 'absent':
        c, u = {'rel': ('char.def', 'unk.def'), 'abs': (os.path.join(X, 'char.def'), os.path.join(X, 'unk.def')), 'sub': ('char.def', 'sub/unk.def'),
                'missing': ('char.def', 'nosuch.def'), 'unknown': ('char.def', 'unk.def')}[oov]
        s['oovProviderPlugin'] = [{'class': 'sudachipy.plugin.oov.%s' % ('NoSuchPlugin' if oov == 'unknown' else 'MeCabOovProviderPlugin'), 'charDef': c, 'unkDef': u}]
    return s


def expected(env, case):
    """what the dictionary shows, or None when the construction must fail"""
    config, resource, type_, system, chardef, users, oov, installed = case
    if config in ('missing', 'badjson'):
        return None
    default = config == 'default'
    if default:
        system, chardef, users, oov = 'empty', 'rel', 'absent', 'rel'
    base = {None: 'shipped' if default else 'D', 'missing': 'missing'}.get(resource, 'R')
    # system dictionary
    if type_ is not None:
        if type_ not in ('small', 'core', 'full'):
            return None
        pkg = type_
    else:
        pkg = 'core' if system in ('absent', 'empty', 'null') else None
    if pkg:
        if installed in ('none', 'broken') or (installed == 'core' and pkg != 'core'):
            return None
        sysname = 'pkg-%s-%s' % (installed, pkg)
    elif system == 'abs':
        sysname = 'X'
    elif system == 'abscore':
        sysname = 'Xcore'
    elif system in ('missing', 'userdic') or base == 'missing':
        return None
    else:
        sysname = base + ('sub' if system == 'sub' else '')
    # character definition
    if chardef in ('absent', 'missing') or (chardef == 'rel' and base == 'missing'):
        return None
    char = 'X' if chardef == 'abs' else base
    if oov in ('missing', 'absent', 'unknown') or (oov != 'abs' and base == 'missing'):
        return None
    unk = {'abs': 'X', 'sub': base + 'sub', 'rel': base}[oov]
    if users in ('missing', 'sysdic') or (users in ('rel', 'two', 'twice') and base == 'missing'):
        return None
    u = {'absent': [], 'none': [], 'rel': [base + '1'], 'abs': ['X2'], 'two': [base + 'sub2', 'X1', base + '1'],
         'twice': [base + '1', base + '1', 'X1', base + 'sub2', base + '1', 'X1']}[users]
    return (sysname, char, unk, tuple(u))


def shown(dic):
    """the marks of the resources a dictionary was made from"""
    from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
    lex = dic.lexicon

    def words(head):
        return [(wid >> 28, lex.get_word_info(wid).reading_form) for wid, end in lex.lookup(head.encode('utf-8'), 0)]
    s = words('あ')
    if len(s) != 1 or s[0][0] != 0:
        raise Violation('the system dictionary shows %r' % (s,))
    u = sorted(words('い'))
    if [k for k, _ in u] != list(range(1, len(u) + 1)):
        raise Violation('the user dictionaries show %r' % (u,))
    t = UTF8InputTextBuilder('Z', dic.grammar).build()
    cats = {c.name for c in t.get_char_category_types(0)}
    char = [k for k, v in MARK_CAT.items() if v in cats] or ['shipped']
    q = UTF8InputTextBuilder('Q', dic.grammar).build()
    nodes = list(dic.oov_provider_plugins[0].get_oov(q, 0, False))
    pos = {tuple(dic.grammar.get_part_of_speech_string(n.get_word_info().pos_id)) for n in nodes}
    unk = [k for k, v in MARK_POS.items() if v in pos] or ['shipped']
    if len(char) != 1 or len(unk) != 1:
        raise Violation('several definitions show: %r %r' % (char, unk))
    return (s[0][1], char[0], unk[0], tuple(n for _, n in u))


def arguments(env, case):
    config, resource = case[0], case[1]
    d = env.dir['D']
    path = os.path.join(d, 'sudachi-%d.json' % os.getpid())
    if os.path.exists(path):
        os.unlink(path)
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(setting(env, case), f, ensure_ascii=False)
    kw = {}
    c = {'file': path, 'relative': os.path.basename(path), 'pathlib': pathlib.Path(path), 'default': None, 'missing': path + '.no', 'badjson': os.path.join(d, 'bad.json')}[config]
    if c is not None:
        kw['config_path'] = c
    r = {None: None, 'R': env.dir['R'], 'Rrel': os.path.join('..', 'R'), 'Rpath': pathlib.Path(env.dir['R']), 'missing': os.path.join(env.root, 'nosuch')}[resource]
    if r is not None:
        kw['resource_dir'] = r
    if case[2] is not None:
        kw['dict_type'] = case[2]
    return kw


class Site:
    """the installed packages of a case; working directory D"""

    def __init__(self, env, installed):
        self.path = os.path.join(env.root, 'site-' + installed)
        self.env = env

    def __enter__(self):
        for m in [m for m in sys.modules if m.startswith('sudachidict')]:
            del sys.modules[m]
        importlib.invalidate_caches()
        sys.path.insert(0, self.path)
        self.cwd = os.getcwd()
        os.chdir(self.env.dir['D'])

    def __exit__(self, *a):
        sys.path.remove(self.path)
        os.chdir(self.cwd)


def construct(env, case):
    from sudachipy.dictionary import Dictionary
    kw = arguments(env, case)
    with Site(env, case[7]), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return Dictionary(**kw)
        except Exception:
            return None


def comb_cases(tier):
    # every pair (thorough: every four) of deviations from the first choice of each axis
    seen = set()
    k = 4 if tier == 'quick' else 5
    n = len(AXES)
    for size in range(k + 1):
        for where in itertools.combinations(range(n), size):
            for vals in itertools.product(*[range(1, len(AXES[w])) for w in where]):
                v = [0] * n
                for w, x in zip(where, vals):
                    v[w] = x
                yield tuple(AXES[i][x] for i, x in enumerate(v))
    # the axes that decide the system dictionary and the base directory, completely
    for c, r, t, s, i in itertools.product(CONFIG[:4], RESOURCE, TYPE, SYSTEM, INSTALLED):
        yield (c, r, t, s, 'rel', 'two', 'rel', i)


def comb_check(env, case, ctx):
    want = expected(env, case)
    dic = construct(env, case)
    if dic is None:
        if want is not None:
            raise Violation('%r: the construction fails, expected %r' % (case, want))
    else:
        got = shown(dic)
        if want is None:
            raise Violation('%r: a dictionary was made from %r, an error was expected' % (case, got))
        if got != want:
            raise Violation('%r: made from %r, expected %r (system dictionary, char.def, unk.def, user dictionaries)' % (case, got, want))
        if case[0] != 'default' and [m.reading_form() for m in dic.create().tokenize('あう')] != [want[0]] * 2:
            raise Violation('%r: analysis does not use the system dictionary' % (case,))
        dic.close()
    ctx.count('accepted' if want else 'refused')
    ctx.count('transitions')
    ctx.outcome((want, case[:3]) if want else case)


# --- histories
FIRST = ('file', None, None, 'rel', 'rel', 'absent', 'rel', 'none')


def dev(**k):
    names = ['config', 'resource', 'type_', 'system', 'chardef', 'users', 'oov', 'installed']
    v = list(FIRST)
    for n, x in k.items():
        v[names.index(n)] = x
    return tuple(v)


STEPS = [FIRST, dev(resource='R', users='two'), dev(type_='small', installed='all', users='rel'), dev(system='absent', installed='core', resource='R'),
         dev(system='abs', chardef='abs', oov='abs', users='abs'), dev(config='default', installed='all'), dev(config='default', installed='none'),
         dev(type_='tiny', installed='all', users='two'), dev(type_='full', installed='core'), dev(system='null', installed='none', users='abs'), dev(config='missing', resource='R'),
         dev(users='missing', chardef='abs'), dev(oov='absent', users='two'), dev(chardef='missing', resource='R', system='sub'), dev(type_='core', system='absent', installed='all'),
         dev(config='badjson', type_='small', installed='all'), dev(config='relative', system='sub', oov='sub', users='two')]


def hist_cases(tier):
    n = len(STEPS)
    yield from itertools.product(range(n), repeat=2)
    few = range(n) if tier != 'quick' else [0, 1, 2, 3, 5, 6, 7, 10, 11, 14]
    yield from itertools.product(few, repeat=3)
    if tier != 'quick':
        yield from itertools.product([0, 1, 2, 3, 7, 10, 12, 14], repeat=4)


def hist_check(env, case, ctx):
    opened = []
    for k in case:
        want = expected(env, STEPS[k])
        dic = construct(env, STEPS[k])
        if (dic is None) != (want is None):
            raise Violation('after %r: %r %s' % ([STEPS[x] for x in case], STEPS[k], 'fails' if dic is None else 'is accepted'))
        if dic is not None:
            opened.append((STEPS[k], dic, want))
        for s, d, w in opened:
            if shown(d) != w:
                raise Violation('history %r: %r shows %r, expected %r' % (case, s, shown(d), w))
        ctx.count('transitions')
    for s, d, w in opened:
        if s[0] != 'default' and [m.reading_form() for m in d.create().tokenize('うあ')] != [w[0]] * 2:
            raise Violation('history %r: %r does not analyse with its dictionary' % (case, s))
    for s, d, w in opened[::-1]:
        d.close()
    ctx.outcome(case)


# --- the two functions and the settings object on their own
def func_cases(tier):
    for name in ('rel', 'abs', 'sub', 'dot', 'plain'):
        for res in ('D', 'R', 'slash', 'empty', 'nonascii'):
            yield ('path', name, res)
    for c in STEPS:
        yield ('settings', c)
    for c in itertools.product(('file', 'default'), (None, 'R'), TYPE, SYSTEM, INSTALLED):
        yield ('warn', (c[0], c[1], c[2], c[3], 'rel', 'absent', 'rel', c[4]))


def func_check(env, case, ctx):
    from sudachipy import config
    if case[0] == 'path':
        name = {'rel': 'a.dic', 'abs': os.path.join(env.root, 'a.dic'), 'sub': 'x/y/a.dic', 'dot': './a.dic', 'plain': 'あ b.dic'}[case[1]]
        res = {'D': env.dir['D'], 'R': env.dir['R'], 'slash': env.dir['D'] + '/', 'empty': '', 'nonascii': '/tmp/日本 語'}[case[2]]
        got = config.to_absolute_resource_path(res, name)
        want = name if name.startswith('/') else (res.rstrip('/') + '/' + name if res else name)
        if os.path.normpath(got) != os.path.normpath(want):
            raise Violation('%r with the resource directory %r gives %r' % (name, res, got))
    elif case[0] == 'settings':
        c = case[1]
        kw = arguments(env, c)
        s = type(config.settings)()
        with Site(env, c[7]), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                s.set_up(**kw)
            except Exception:
                ctx.outcome(case)
                return
            want = setting(env, c) if c[0] != 'default' else None
            for k, v in (want or {}).items():
                if k != 'systemDict' and s[k] != v:
                    raise Violation('%r: settings[%r] is %r' % (c, k, s[k]))
                if k not in s or k not in s.keys():
                    raise Violation('%r: %r is not in the settings' % (c, k))
            n = len((want or {}).get('userDict', []))
            if len(s.user_dict_paths()) != n:
                raise Violation('%r: user dictionaries %r' % (c, s.user_dict_paths()))
    else:
        c = case[1]
        kw = arguments(env, c)
        s = type(config.settings)()
        with Site(env, c[7]), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                s.set_up(**kw)
            except Exception:
                ctx.outcome(case)
                return
            got = any('Two system dictionaries' in str(w.message) for w in ws)
            system = 'empty' if c[0] == 'default' else c[3]
            want = c[2] is not None and system not in ('absent', 'empty', 'null') and not (system == 'abscore' and c[2] == 'core')
            if got != want:
                raise Violation('%r: a warning about two system dictionaries is %s' % (c, 'missing' if want else 'given'))
    ctx.count('transitions')
    ctx.outcome(case)


# --- the plugins are those of the setting file, in its order
PLUG = {'inputTextPlugin': (['input_text.DefaultInputTextPlugin', 'input_text.ProlongedSoundMarkInputTextPlugin'], ['DefaultInputTextPlugin', 'ProlongedSoundMarkInputTextPlugin'], {
            'prolongedSoundMarks': ['ー', '-'], 'replacementSymbol': 'ー'}, 'input_text_plugins'),
        'oovProviderPlugin': (['oov.MeCabOovProviderPlugin', 'oov.SimpleOovProviderPlugin'], ['MeCabOovPlugin', 'SimpleOovPlugin'], {
            'charDef': 'char.def', 'unkDef': 'unk.def', 'oovPOS': list(MARK_POS['D']), 'leftId': 0, 'rightId': 0, 'cost': 5}, 'oov_provider_plugins'),
        'pathRewritePlugin': (['path_rewrite.JoinNumericPlugin', 'path_rewrite.JoinKatakanaOovPlugin'], ['JoinNumericPlugin', 'JoinKatakanaOovPlugin'], {
            'oovPOS': list(MARK_POS['D']), 'minLength': 2, 'enableNormalize': True}, 'path_rewrite_plugins')}


def plug_cases(tier):
    for key in PLUG:
        for n in range(4):
            yield from ((key,) + t for t in itertools.product((0, 1, 2, 3, 4), repeat=n))
        yield (key, 'absent')


def plug_check(env, case, ctx):
    from sudachipy.dictionary import Dictionary
    s = setting(env, FIRST)
    key = case[0]
    classes, names, args, attr = PLUG[key]
    ok, want = True, []
    if case[1:] == ('absent',):
        s.pop(key, None)
        ok = key != 'oovProviderPlugin'
    else:
        objs = []
        for k in case[1:]:
            o = dict(args)
            if k < 2:
                o['class'] = 'sudachipy.plugin.' + classes[k]
                want.append(names[k])
            elif k == 2:
                o['class'] = 'sudachipy.plugin.' + classes[0] + 'X'
            elif k == 3:        # a plugin of another kind
                o['class'] = 'sudachipy.plugin.' + PLUG[[x for x in PLUG if x != key][0]][0][1]
            objs.append(o)      # 4: no class at all
            ok = ok and k < 2
        s[key] = objs
        if key == 'oovProviderPlugin' and not objs:
            ok = False
    path = os.path.join(env.dir['D'], 'plugins-%d.json' % os.getpid())
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(s, f, ensure_ascii=False)
    try:
        dic = Dictionary(config_path=path)
    except Exception:
        if ok:
            raise
        ctx.outcome(case)
        ctx.count('transitions')
        return
    if not ok:
        raise Violation('%r: accepted' % (case,))
    got = [type(p).__name__ for p in getattr(dic, attr)]
    if got != want:
        raise Violation('%r: the plugins are %r' % (case, got))
    dic.create().tokenize('あいうQZ1,ア')
    ctx.outcome(case)
    ctx.count('transitions')


# --- names are taken literally
NAMES = ['plain', '$C19V', '${C19V}', '$C19NONE', '~', '~root', '~/x', '~root/x', '%C19V%', '%41', ' lead', 'trail ', 'two  words', 'a+b', 'x#y', 'x?y', 'x*', '[ab]', '{0}', '%s', 'a;b', 'a,b', 'a:b',
         'a\\b', 'UPPER', 'が', 'か\u3099', 'ﾊﾞ', '日本語', 'x.dic', '.hidden', '-', 'http:x', 'file:x', 'sub/x', 'sub/$C19V', './x', 'sub/../x', 'a' * 200]
DECOYS = ['', 'alt', 'A', 'lead', 'trail', 'two words', 'a b', 'x', 'xy', 'a', 'b', '0', 's', 'upper', 'が', 'か\u3099', 'バ', 'sub/alt', 'sub/x', 'hidden', 'ab']
ROLES = ['system', 'user', 'char', 'unk', 'config', 'base', 'cli']


def name_cases(tier):
    for role in ROLES:
        for name in NAMES:
            for how in ('rel', 'abs', 'default'):
                if role != 'cli' or name != '-' or how == 'abs':    # (a relative one looks like an option)
                    yield (role, name, how)


def name_check(env, case, ctx):
    """the file that has exactly the given name is used, whatever characters the name has and whatever similar names exist"""
    from sudachipy.dictionary import Dictionary
    role, name, how = case
    root = os.path.join(env.root, 'names-%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    N = os.path.join(root, 'N')
    src = env.dir['D']
    file = {'system': 'sys.dic', 'user': 'u1.dic', 'char': 'char.def', 'unk': 'unk.def'}
    os.makedirs(os.path.join(N, 'sub'))
    for f in file.values():
        shutil.copy(os.path.join(src, f), os.path.join(N, f))
        shutil.copy(os.path.join(src, f), os.path.join(N, 'sub', f))
    ext = {'system': '.dic', 'user': '.dic', 'char': '.def', 'unk': '.def', 'config': '.json', 'cli': '.json', 'base': ''}[role]
    ext = '' if name.startswith('~') else ext
    s = {'systemDict': 'sys.dic', 'characterDefinitionFile': 'char.def', 'userDict': ['u1.dic'],
         'oovProviderPlugin': [{'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}]}
    want = ['D', 'D', 'D', ('D1',)]
    base, conf = N, os.path.join(N, 'sudachi-n.json')
    given = name + ext

    def put(x, good):
        p = os.path.join(N, x)
        if x.startswith('~'):
            if not good:
                return
            if '/' in x:
                shutil.copytree(os.path.join(N, 'sub'), os.path.dirname(p))
        if role in file:
            shutil.copy(os.path.join(env.dir['R' if good else 'X'], file[role]), p)
        elif role in ('config', 'cli'):
            t = dict(s, systemDict=os.path.join(env.dir['R' if good else 'X'], 'sys.dic'))
            with open(p, 'w', encoding='utf-8') as f:
                json.dump(t, f, ensure_ascii=False)
        else:
            if os.path.isfile(p) or x in ('', '.'):
                return
            os.makedirs(p, exist_ok=True)
            for f in file.values():
                shutil.copy(os.path.join(env.dir['R' if good else 'X'], f), os.path.join(p, f))
    for d in DECOYS + NAMES:
        if os.path.normpath(d + ext) != os.path.normpath(given):
            if d + ext not in ('.', '') and not (role == 'base' and os.path.normpath(given).startswith(os.path.normpath(d) + '/')):
                put(d + ext, False)
    put(given, True)
    path = os.path.join(N, given) if how == 'abs' else given
    if role == 'system':
        s['systemDict'], want[0] = path, 'R'
    elif role == 'char':
        s['characterDefinitionFile'], want[1] = path, 'R'
    elif role == 'unk':
        s['oovProviderPlugin'][0]['unkDef'], want[2] = path, 'R'
    elif role == 'user':
        s['userDict'], want[3] = [path], ('R1',)
    elif role == 'base':
        base, want = path, ['R', 'R', 'R', ('R1',)]
    else:
        conf, want[0] = path, 'R'
    if role not in ('config', 'cli'):
        with open(conf, 'w', encoding='utf-8') as f:
            json.dump(s, f, ensure_ascii=False)
    kw = {'config_path': conf}
    if how != 'default' or role == 'base':
        kw['resource_dir'] = base
    os.environ.update(C19V='alt', HOME=os.path.join(N, 'sub'))
    cwd = os.getcwd()
    os.chdir(N)
    try:
        if role == 'cli':
            out = cli_words(kw['config_path'])
            if out != 'R':
                raise Violation('%r: the command analyses with %r' % (case, out))
        else:
            d = Dictionary(**kw)
            got = shown(d)
            if got != tuple(want):
                raise Violation('%r: made from %r, expected %r' % (case, got, tuple(want)))
            d.close()
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        raise Violation('%r: the file of that name is not found or not read: %r' % (case, e))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    ctx.count('transitions')
    ctx.outcome(case)


def cli_words(conf):
    """the mark of the system dictionary that `sudachipy -r CONF -a` uses"""
    from .. import cli
    code, out, err = cli.fork_main(['-a', '-r', conf], 'あ\n'.encode('utf-8'), os.getcwd())
    lines = (out.decode('utf-8') if isinstance(out, bytes) else out).splitlines()
    return lines[0].split('\t')[4] if code == 0 and lines else (code, out, err)


# --- files and directories that are reached through links and detours
LINKS = ['config', 'system', 'user', 'char', 'unk']
DETOURS = ['abs', 'rel', 'dot', 'up', 'dirlink', 'uplink']


def link_cases(tier):
    for mask in range(1 << len(LINKS)):
        for conf in DETOURS:
            for res in ['none'] + DETOURS:
                for cwd in ('N', 'other'):
                    if cwd == 'N' or conf != res:
                        yield (mask, conf, res, cwd)


def link_tree(env):
    """N has complete resources D and T complete resources X; files of N that are links lead to files R of T2, N/lnk leads to T/deep, M to N"""
    if hasattr(env, 'links'):
        return env.links
    env.links = root = os.path.join(env.root, 'links-%d' % os.getpid())
    files = ('sys.dic', 'u1.dic', 'u2.dic', 'char.def', 'unk.def')
    for d, k in (('N', 'D'), ('T/deep', 'R'), ('T', 'X'), ('T2', 'R'), ('T2/sub', 'X'), ('other', 'X'), ('N/sub', 'X')):
        os.makedirs(os.path.join(root, d), exist_ok=True)
        for f in files:
            shutil.copy(os.path.join(env.dir[k], f), os.path.join(root, d, f))
    s = {'systemDict': 'sys.dic', 'characterDefinitionFile': 'char.def', 'userDict': ['u1.dic'],
         'oovProviderPlugin': [{'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}]}
    for f, users in (('T/sudachi.json', ['u2.dic']), ('T2/sub/conf.json', ['u1.dic']), ('N/sudachi.json', ['u1.dic'])):
        with open(os.path.join(root, f), 'w') as g:
            json.dump(dict(s, userDict=users), g)
    os.symlink(os.path.join(root, 'T', 'deep'), os.path.join(root, 'N', 'lnk'))
    os.symlink('N', os.path.join(root, 'M'))
    return root


def detour(root, how, name, cwd):
    p = {'abs': root + '/N', 'rel': root + '/N', 'dot': root + '/./N/.', 'up': root + '/N/sub/..', 'dirlink': root + '/M', 'uplink': root + '/N/lnk/..'}[how]
    if name:
        p += '/' + name
    if how == 'rel':
        p = os.path.relpath(p, cwd)
    return p


def link_check(env, case, ctx):
    from sudachipy.dictionary import Dictionary
    mask, conf, res, where = case
    root = link_tree(env)
    N = os.path.join(root, 'N')
    made = {'config': ('sudachi.json', 'T2/sub/conf.json'), 'system': ('sys.dic', 'T2/sys.dic'), 'user': ('u1.dic', 'T2/u1.dic'),
            'char': ('char.def', 'T2/char.def'), 'unk': ('unk.def', 'T2/unk.def')}
    linked = [k for i, k in enumerate(LINKS) if mask >> i & 1]
    for k in linked:
        name, target = made[k]
        os.rename(os.path.join(N, name), os.path.join(N, name + '.kept'))
        os.symlink(os.path.join('..', target), os.path.join(N, name))
    cwd = os.getcwd()
    try:
        os.chdir(os.path.join(root, where))
        kw = {'config_path': detour(root, conf, 'sudachi.json', os.getcwd())}
        base = conf if res == 'none' else res
        if res != 'none':
            kw['resource_dir'] = detour(root, res, '', os.getcwd())
        user = 'u2' if conf == 'uplink' else 'u1'
        if base == 'uplink':
            want = ('X', 'X', 'X', ('X' + user[1],))
        else:
            mark = lambda k: 'R' if k in linked else 'D'  # noqa: E731
            want = (mark('system'), mark('char'), mark('unk'), (mark('user') + '1' if user == 'u1' else 'D2',))
        what = 'links %r, setting file %s, resource directory %s, working directory %s' % (linked, kw['config_path'][len(root):] if conf != 'rel' else 'relative', res, where)
        try:
            d = Dictionary(**kw)
        except Exception as e:
            raise Violation('%s: %r' % (what, e))
        got = shown(d)
        d.close()
        if got != want:
            raise Violation('%s: made from %r, expected %r' % (what, got, want))
    finally:
        os.chdir(cwd)
        for k in linked:
            name, _ = made[k]
            os.unlink(os.path.join(N, name))
            os.rename(os.path.join(N, name + '.kept'), os.path.join(N, name))
    ctx.count('transitions')
    ctx.outcome(case)


# --- the commands choose their dictionary in the same way
def cmd_cases(tier):
    for conf in ('file', 'relative', 'default', 'missing', 'badjson'):
        for type_ in TYPE:
            for system in SYSTEM if conf in ('file', 'relative') else ['rel']:
                for inst in INSTALLED:
                    if type_ != '' or inst == 'all':
                        yield ('tokenize', (conf, None, type_, system, 'rel', 'two', 'rel', inst))
    for s in (None, 'rel', 'abs', 'missing', 'user', 'empty'):
        for inst in INSTALLED:
            yield ('ubuild', s, inst)


def cmd_check(env, case, ctx):
    from .. import cli
    if case[0] == 'tokenize':
        c = case[1]
        kw = arguments(env, c)
        argv = ['-a']
        if 'config_path' in kw:
            argv += ['-r', str(kw['config_path'])]
        if 'dict_type' in kw:
            argv += ['-s', kw['dict_type']]
        want = expected(env, c)
        with Site(env, c[7]):
            code, out, err = cli.fork_main(argv, 'あ\n'.encode('utf-8'), env.dir['D'])
        if want is None:
            if code == 0 or b'EOS' in out:
                raise Violation('%r: `sudachipy %s` succeeds with %r' % (c, ' '.join(argv), out[:200]))
        else:
            got = out.decode('utf-8').splitlines()
            if code != 0 or len(got) != 2 or got[1] != 'EOS' or got[0].split('\t')[4] != want[0]:
                raise Violation('%r: `sudachipy %s` prints %r, expected the word of %s: %s' % (c, ' '.join(argv), out[:200], want[0], err[-300:]))
        ctx.count('accepted' if want else 'refused')
    else:
        s, inst = case[1:]
        d = os.path.join(env.root, 'cmd-%d' % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        want = {None: 'pkg-%s-core' % inst if inst in ('core', 'all') else None, 'rel': 'D', 'abs': 'X', 'empty': 'pkg-%s-core' % inst if inst in ('core', 'all') else None}.get(s)
        pos = env.pos[0]
        marks = PLACES + ['pkg-%s-%s' % (a, b) for a in ('core', 'all') for b in ('core', 'small', 'full')]
        for m in marks:
            # the unit exists in the dictionary with this mark only
            src = os.path.join(d, 'src.csv')
            with open(src, 'w', encoding='utf-8') as f:
                f.write('あう,0,0,1,あう,%s,アウ,あう,*,C,"あ,%s,%s/う,%s,%s",*,*\n' % (','.join(pos), ','.join(pos), m, ','.join(pos), m))
            out = os.path.join(d, 'u.dic')
            if os.path.exists(out):
                os.unlink(out)
            argv = ['ubuild', '-o', out]
            if s is not None:
                argv += ['-s', {'rel': 'sys.dic', 'abs': os.path.join(env.dir['X'], 'sys.dic'), 'missing': 'nosuch.dic', 'user': 'u1.dic', 'empty': ''}[s]]
            with Site(env, inst):
                code, so, err = cli.fork_main(argv + [src], b'', env.dir['D'])
            ok = m == want
            if (code == 0) != ok or os.path.exists(out) != ok:
                raise Violation('%r: ubuild with a unit of the dictionary %s %s (expected dictionary: %s): %s' % (case, m, 'succeeds' if code == 0 else 'fails', want, err[-300:]))
            ctx.count('transitions')
        shutil.rmtree(d, ignore_errors=True)
    ctx.count('transitions')
    ctx.outcome(case)


SECTIONS = [
    Section('combinations', comb_cases, comb_check, build_tree,
            'every combination that differs from the plain one in up to 4 (thorough 5) of 8 respects; arguments x system dictionary x packages completely', block=32),
    Section('histories', hist_cases, hist_check, build_tree, 'all sequences of 2 of 17 constructions, of 3 of 10 (17; thorough also 4 of 8), all earlier dictionaries stay in use', block=16),
    Section('plugins', plug_cases, plug_check, build_tree, 'all lists of up to 3 plugins of each kind, with unknown classes, classes of another kind and without a class'),
    Section('names', name_cases, name_check, build_tree, '39 names with characters that other programs interpret ($, ~, %, *, spaces, ...) x every file that can be named x relative, absolute, without a resource directory; files of similar names exist', block=8),
    Section('links', link_cases, link_check, build_tree, 'all subsets of 5 files being symbolic links into another directory x 6 ways to write the path of the setting file x 7 of the resource directory (relative, ., .., linked directory, .. behind a link) x 2 working directories', block=32),
    Section('commands', cmd_cases, cmd_check, build_tree, 'tokenize: setting files x -s x installed packages; ubuild: -s x installed packages, with a unit that exists in one of the dictionaries only', block=8),
    Section('functions', func_cases, func_check, build_tree, 'path resolution, settings contents and the warning about two dictionaries'),
]
