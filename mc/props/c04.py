"""C04: results depend only on text, mode and configuration."""
import gc
import io
import itertools
import logging
import os

from .. import world as W
from ..core import Section, Violation, Scratch, hash_key
from ..enum import strings
from ..fmt import entry
from ..ref import INH
from ..world import World, POS_SYS, PROPS, observe_all
from .c02 import unk_table

PROPERTY = 'C04'
RULE = ('a case is one history of operations on tokenizers, results and dictionaries; the reference for every result is what a '
        'fresh dictionary and tokenizer give for the same text and mode, read at once')

SYS = [entry('あ', 1, 1, 10, reading='ア'), entry('い', 1, 1, 10), entry('漢', 1, 1, 10), entry('株', 1, 1, 30), entry('式', 1, 1, 30),
       entry('株式', 1, 1, 10), entry('会社', 1, 1, 10, syn=[3]), entry('株式会社', 1, 1, 5, a=[3, 4, 6], b=[5, 6], norm='（株）'),
       entry('1', 1, 1, 5, pos=1), entry('2', 1, 1, 5, pos=1), entry('万', 1, 1, 5, pos=1), entry(',', 1, 1, 5, pos=2),
       entry('アイ', 1, 1, 100), entry('ウ', 1, 1, 10), entry('ー', 1, 1, 10),
       entry('禁', 1, 2, 1), entry('制', 2, 1, 1), entry('禁止', 1, 2, 1), entry('食べ', 1, 1, 10, dform=19), entry('食べる', 1, 1, 10)]
USER = [entry('漢', 1, 1, 3, pos=6, reading='ユーザ'), entry('漢あ', 1, 1, 2, a=[(1 << 28), 0], b=[(1 << 28), 0])]
USER2 = [entry('会', 1, 1, 4, pos=6), entry('社', 1, 1, 4, pos=0), entry('株式会', 1, 1, 90, a=[5, 1 << 28])]
MATRIX = {(2, 2): INH, (2, 1): INH, (2, 0): INH, (1, 1): 2, (0, 1): 1}


def main_world(flood=0):
    sysd = SYS + [entry('字' + chr(0x5000 + i), 1, 1, 1, reading='R%d' % i, syn=[i % 7]) for i in range(flood)]
    users = [(USER, [('名詞', '甲', '*', '*', '*', '*')]), (USER2, [('名詞', '乙', '*', '*', '*', '*')])]
    if flood:
        users = [(USER + [entry('字' + chr(0x5000 + i) + 'あ', 1, 1, 1, reading='U%d' % i) for i in range(flood)], users[0][1]), users[1]]
    return World(sysd, users=users, unk=unk_table(), simple=(0, 0, 900, POS_SYS[2]), matrix=MATRIX, lsize=3, rsize=3,
                 input_plugins=[W.DEFAULT_PLUGIN, W.PSM_PLUGIN], path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN])


def other_world():
    """The same headwords with other contents, other plugins settings, other categories."""
    ents = [dict(e, reading='別' + e['reading'], norm='別', cost=50 - e['cost'], pos=4, a=[], b=[], dform=-1) for e in SYS]
    p = dict(PROPS, KATAKANA=(True, False, 1))
    return World(ents, users=[([entry('漢', 1, 1, -9, reading='他')], [])], simple=(0, 0, 900, POS_SYS[4]), lsize=3, rsize=3, props=p,
                 unk=[('DEFAULT', 0, 0, 1, POS_SYS[4])], matrix={(1, 1): 5},
                 ranges=[(0x30, 0x39, ['KANJI']), (0x4e00, 0x9fff, ['HIRAGANA'])],
                 input_plugins=[dict(W.PSM_PLUGIN, prolongedSoundMarks=['い'], replacementSymbol='う')],
                 path_plugins=[dict(W.NUMERIC_PLUGIN, enableNormalize=False), dict(W.KATAKANA_PLUGIN, minLength=9)])


T = {'long': '株式会社漢あいＡbc１２万アイウ漢', 'short': 'あ', 'comp': '漢あ株式会社', 'num': '12,122万あ1,', 'kata': 'アイウあウー〜',
     'fail': 'あい禁', 'fail2': '株式会社漢あい禁制禁', 'eat': '食べ𠮷㍿食べ', 'sur': 'あ\ud800い', 'mid': 'いい漢'}


def attempt(tok, text, mode=None, logger=None):
    """MorphemeList or the name of the exception"""
    try:
        return tok.tokenize(text, mode, logger) if logger else tok.tokenize(text, mode)
    except Exception as e:
        return type(e).__name__


def seen(r):
    return r if isinstance(r, str) else observe_all(r)


def seen_split(r, modes):
    if isinstance(r, str):
        return r
    return [[observe_all(m.split(modes[k])) for k in 'ABC'] for m in r]


def setup(tier):
    w, o = main_world(), other_world()
    w.write()
    o.write()
    modes = W.modes()
    expect = {}
    for name, text in list(T.items()) + [('empty', '')]:
        for m in 'ABC':
            r = attempt(w.open().create(), text, modes[m])
            expect[name, m] = (seen(r), seen_split(r, modes))
            r = attempt(o.open().create(), text, modes[m])
            expect['other', name, m] = (seen(r), seen_split(r, modes))
    for name in ('fail', 'fail2', 'sur'):
        if not isinstance(expect[name, 'C'][0], str):
            raise Violation('text %r does not fail' % T[name])
    return w, o, modes, expect


class History:
    def __init__(self, env):
        self.w, self.o, self.modes, self.expect = env
        self.dic = self.w.open()
        self.t = {'0': self.dic.create(), '1': self.dic.create(self.modes['A'])}
        self.results = []       # (key, result)

    def tok(self, which, text, mode=None, logger=None):
        default = {'0': 'C', '1': 'A', '2': 'B'}[which]
        r = attempt(self.t[which], '' if text == 'empty' else T[text], self.modes[mode] if mode else None, logger)
        self.results.append(((text, mode or default), r))

    def verify(self, split, case):
        for key, r in self.results:
            want = self.expect[key]
            got = seen(r)
            if got != want[0]:
                raise Violation('history %s: %r gives %r, a fresh tokenizer gives %r' % (case, key, got, want[0]))
            if split and seen_split(r, self.modes) != want[1]:
                raise Violation('history %s: splitting %r gives %r, fresh %r' % (case, key, seen_split(r, self.modes), want[1]))

    def op(self, c, case):
        if c == 'l':
            self.tok('0', 'long')
        elif c == 's':
            self.tok('0', 'short', 'A')
        elif c == 'f':
            self.tok('0', 'fail')
        elif c == 'F':
            self.tok('0', 'fail2', 'B')
        elif c == 'u':
            self.tok('0', 'sur')
        elif c == 'n':
            self.tok('0', 'num')
        elif c == 'L':
            self.tok('1', 'long')
        elif c == 'c':
            self.tok('1', 'comp', 'C')
        elif c == 'd':
            lg = logging.Logger('dbg')
            lg.addHandler(logging.StreamHandler(io.StringIO()))
            self.tok('0', 'comp', 'B', lg)
        elif c == 'o':
            self.od = self.o.open()
            r = attempt(self.od.create(), T['comp'], self.modes['A'])
            self.results.append((('other', 'comp', 'A'), r))
        elif c == 'v':
            self.verify(True, case)
        elif c == 'e':
            self.tok('0', 'empty')
        elif c == 'b':
            self.t['2'] = self.dic.create(mode=self.modes['B'])
            self.tok('2', 'comp')
        elif c == 'k':
            self.tok('0', 'kata')
        elif c == 'm':
            self.tok('0', 'mid', 'B')
        elif c == 'x':
            self.results = []
        elif c == 'i':
            self.tok('1', 'eat')
        else:
            raise KeyError(c)


OPS = 'lsfFunLcdoebkmxiv'


def histories(tier):
    return strings(OPS, 4 if tier == 'quick' else 5)


def history_check(env, case, ctx):
    h = History(env)
    for c in case:
        h.op(c, case)
    ctx.count('transitions', len(case))
    h.verify(False, case)
    h.verify(True, case)
    h.verify(False, case)
    ctx.count('states')
    ctx.outcome(tuple(sorted(case)))


# --- one tokenizer, all sequences of text lengths
def length_setup(tier):
    w = main_world()
    w.write()
    modes = W.modes()
    expect = {}
    for n in range(0, 40):
        for kind in KINDS:
            expect[n, kind] = seen(attempt(w.open().create(), length_text(n, kind), modes['C']))
    return w, w.open(), expect


KINDS = 'afk'


def length_text(n, kind):
    if kind == 'a':
        return ('あ漢い株式会社' * 9)[:n]
    if kind == 'k':
        return ('𠮷アー1' * 20)[:n]
    return ('あい漢' * 20)[:max(n - 1, 0)] + '禁'


def length_cases(tier):
    lens = [0, 1, 2, 3, 4, 7, 12] if tier == 'quick' else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 30]
    steps = [(n, k) for n in lens for k in KINDS if not (k == 'f' and n == 0)]
    return itertools.product(steps, repeat=3 if tier == 'quick' else 4)


def length_check(env, case, ctx):
    w, dic, expect = env
    tok = dic.create()
    for n, k in case:
        got = seen(attempt(tok, length_text(n, k)))
        ctx.count('transitions')
        if got != expect[n, k]:
            raise Violation('texts %r on one tokenizer: the text of %d %s gives %r, alone %r' % (case, n, k, got, expect[n, k]))
    ctx.count('states')
    ctx.outcome(tuple(sorted(case)))


# --- more distinct words than the caches hold
def cache_setup(tier):
    w = main_world(3000)
    w.write()
    return w


def cache_cases(tier):
    sizes = [0, 1, 100, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2999]
    if tier == 'thorough':
        sizes += list(range(900, 1100, 7)) + [127, 128, 129, 255, 256, 257, 511, 512, 513]
    for n in sizes:
        for start in (0, 1, 1500):
            for how in ('words', 'text', 'user', 'ids'):
                yield (n, start, how)


def cache_check(env, case, ctx):
    n, start, how = case
    dic = env.open()
    tok = dic.create()
    modes = W.modes()

    def words(i):
        return '字' + chr(0x5000 + i)

    def expect_word(i, m, user):
        want = ('U%d' if user else 'R%d') % i
        if m.reading_form() != want or list(m.synonym_group_ids()) != ([] if user else [i % 7]):
            raise Violation('%r: word %d reads %r (%r), expected %r' % (case, i, m.reading_form(), m.synonym_group_ids(), want))
        ctx.count('transitions')
    first = tok.tokenize('漢あ株式会社食べ', modes['C'])
    kept = tok.tokenize(words(5) + words(6) + 'あ', modes['C'])
    ref = (observe_all(first), seen_split(first, modes), observe_all(kept))
    order = [(start + i) % 3000 for i in range(n)]
    if how == 'words':
        for i in order:
            expect_word(i, tok.tokenize(words(i))[0], False)
    elif how == 'user':
        for i in order:
            expect_word(i, tok.tokenize(words(i) + 'あ')[0], True)
    elif how == 'text':
        for lo in range(0, len(order), 200):
            part = order[lo:lo + 200]
            for i, m in zip(part, tok.tokenize(''.join(words(i) for i in part))):
                expect_word(i, m, False)
    else:
        for i in order:
            dic.lexicon.get_word_info(len(SYS) + i)
            dic.lexicon.get_word_info((1 << 28) | (len(USER) + i))
    again = (observe_all(first), seen_split(first, modes), observe_all(kept))
    if again != ref:
        raise Violation('%r: results read again are %r, first %r' % (case, again, ref))
    first2 = tok.tokenize('漢あ株式会社食べ', modes['C'])
    if (observe_all(first2), seen_split(first2, modes)) != ref[:2]:
        raise Violation('%r: tokenizing again gives other results' % (case,))
    for i in order[::-1][:50]:
        expect_word(i, tok.tokenize(words(i) + 'あ')[0], True)
        expect_word(i, tok.tokenize(words(i))[0], False)
    ctx.count('states')
    ctx.outcome(case)


# --- the hash seed of the process
TIE_UNK = [('DEFAULT', 1, 1, 7, POS_SYS[2]), ('KANJI', 1, 1, 7, POS_SYS[0]), ('KANJI', 1, 1, 7, POS_SYS[4]),
           ('KANJINUMERIC', 1, 1, 7, POS_SYS[1]), ('HIRAGANA', 1, 1, 7, POS_SYS[5]), ('KATAKANA', 1, 1, 7, POS_SYS[0]),
           ('KATAKANA', 1, 1, 7, POS_SYS[3]), ('USER1', 1, 1, 7, POS_SYS[3]), ('USER2', 1, 1, 7, POS_SYS[4]),
           ('ALPHA', 1, 1, 7, POS_SYS[0]), ('SYMBOL', 1, 1, 7, POS_SYS[2])]


def tie_world():
    """All costs equal: every choice is a tie."""
    ents = [entry('あ', 1, 1, 7), entry('あ', 1, 1, 7, pos=3), entry('漢', 1, 1, 7), entry('漢字', 1, 1, 14)]
    p = {k: (True, True, 2) for k in PROPS}
    p['USER1'] = p['USER2'] = (True, True, 1)
    rng = W.RANGES + [(0x4e00, 0x9fff, ['USER2', 'USER1', 'SYMBOL']), (0x30a1, 0x30fa, ['USER1', 'ALPHA', 'SYMBOL'])]
    return World(ents, users=[([entry('あ', 1, 1, 7, pos=4)], []), ([entry('あ', 1, 1, 7, pos=0), entry('漢字', 1, 1, 14)], [])],
                 unk=TIE_UNK, simple=(1, 1, 7, POS_SYS[2]), props=p, ranges=rng, lsize=2, rsize=2,
                 input_plugins=[W.DEFAULT_PLUGIN, W.PSM_PLUGIN], path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN])


def seed_corpus(d):
    out = []
    for w in (tie_world(), main_world()):
        sub = os.path.join(d, str(len(out)))
        if not os.path.exists(sub):
            os.makedirs(sub)
            w.write(sub)
        w.dir = sub
        tok = w.open().create()
        modes = W.modes()
        for t in strings(['あ', '漢', '一', '字', 'ア', 'ー', 'a'], 3):
            out.append(hash_key(seen(attempt(tok, t, modes['A']))))
        for t in T:
            out.append(hash_key(seen(attempt(tok, T[t], modes['B']))))
    return out


def seed_setup(tier):
    d = Scratch.dir('seed')
    return d, seed_corpus(d)


def seed_cases(tier):
    return list(range(1, 17) if tier == 'quick' else range(1, 129)) + sorted(ENVIRONMENTS)


ENVIRONMENTS = {
    'ascii locale': {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
    'latin-1 output': {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'latin-1'},
    'no assertions': {'PYTHONOPTIMIZE': '2'},
    'another home and time zone': {'HOME': '/nonexistent', 'TZ': 'Asia/Tokyo', 'USER': 'あ', 'SUDACHI_DICT': 'x'},
    'developer mode': {'PYTHONDEVMODE': '1'},
}


def seed_check(env, case, ctx):
    from .. import sub
    d, ref = env
    got = sub.run('mc.props.c04', 'seed_corpus', d, ENVIRONMENTS[case] if case in ENVIRONMENTS else {'PYTHONHASHSEED': str(case)})
    ctx.count('transitions', len(got))
    if got != ref:
        k = [i for i in range(len(ref)) if got[i] != ref[i]][0]
        n = len(list(strings('1234567', 3)))
        per = n + len(T)
        texts = list(strings(['あ', '漢', '一', '字', 'ア', 'ー', 'a'], 3)) + list(T.values())
        raise Violation('with %s the result of %r differs' % (case if case in ENVIRONMENTS else 'PYTHONHASHSEED=%d' % case, texts[k % per]))
    ctx.count('states')
    ctx.outcome(case)


# --- every text after every other one
PAIR_ALPHABET = ['あ', 'い', 'ア', 'x', '1']


def pair_setup(tier):
    """a world in which many words cannot stand next to each other, or at an end"""
    ents = [entry('あ', 1, 1, 10, norm='亜'), entry('い', 2, 2, 10), entry('あい', 1, 2, 5, a=[0, 1]), entry('1', 0, 2, 5, pos=1)]
    unk = [('KATAKANA', 3, 3, 100, POS_SYS[0]), ('ALPHA', 3, 1, 90, POS_SYS[4]), ('ALPHA', 2, 3, 95, POS_SYS[0]), ('NUMERIC', 3, 0, 30, POS_SYS[1]), ('DEFAULT', 1, 1, 9, POS_SYS[2])]
    w = World(ents, unk=unk, lsize=4, rsize=4, matrix={(2, 3): INH, (3, 2): INH, (0, 2): INH, (1, 0): INH, (3, 3): 7, (1, 3): -20, (2, 2): INH, (1, 1): 3},
              input_plugins=[W.DEFAULT_PLUGIN], path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN], simple=None)
    w.write()
    texts = list(strings(PAIR_ALPHABET, 3 if tier == 'quick' else 4))
    expect = {t: seen(attempt(w.open().create(), t)) for t in texts}
    fails = sum(isinstance(v, str) for v in expect.values())
    if not fails or fails == len(texts):
        raise Violation('%d of %d texts fail' % (fails, len(texts)))
    return w, texts, expect


def pair_cases(tier):
    n = len(list(strings(PAIR_ALPHABET, 3 if tier == 'quick' else 4)))
    for i in range(n):
        yield i


def pair_check(env, case, ctx):
    w, texts, expect = env
    first = texts[case]
    tok = w.open().create()
    for t in texts:
        a = attempt(tok, first)
        b = attempt(tok, t)
        for x, r in ((first, a), (t, b)):
            if seen(r) != expect[x]:
                raise Violation('%r and then %r: the result of %r is %r, a fresh dictionary gives %r' % (first, t, x, seen(r), expect[x]))
        ctx.count('transitions')
    ctx.outcome(case)


# --- files that are replaced between two constructions by others of the same names, sizes and times
REPL_TEXTS = ['あ漢い', '株式会社漢あ', 'Ａアイウ1,2ー〜', '漢漢字x', '一二あ', 'い', '株式', 'エオ', '字字', 'aア。x', 'アイアイアイ', 'アイウアイウ', 'ー', 'ァア', 'ええええ', 'ウウ', 'あウウ漢']


def repl_world(k):
    """variant k differs from variant 0 in one respect, which changes no size"""
    sysd = [dict(e, cost=-50) if e['head'] == 'ウ' else dict(e) for e in SYS]
    users = [([dict(e) for e in USER], [('名詞', '甲', '*', '*', '*', '*')])]
    unk = [tuple(u) for u in unk_table()]
    kw = dict(simple=(0, 0, 900, POS_SYS[2]), matrix=dict(MATRIX), lsize=3, rsize=3, unk=unk, ranges=list(W.RANGES), props=dict(PROPS),
              input_plugins=[W.DEFAULT_PLUGIN, W.PSM_PLUGIN], path_plugins=[W.NUMERIC_PLUGIN, dict(W.KATAKANA_PLUGIN)], pos_list=list(POS_SYS))
    if k == 1:
        sysd[0] = dict(sysd[0], reading='イ')
    elif k == 2:
        kw['pos_list'][0] = tuple('別' + x[1:] if i == 0 else x for i, x in enumerate(POS_SYS[0]))
        kw['unk'] = [u for u in unk if u[4] != POS_SYS[0]]
        kw['path_plugins'][1]['oovPOS'] = list(POS_SYS[2])
    elif k == 3:
        sysd[5] = dict(sysd[5], cost=9999)
    elif k == 4:
        kw['matrix'][(1, 1)] = 3000
    elif k == 5:
        users[0][1][0] = ('名詞', '乙', '*', '*', '*', '*')
    elif k == 6:
        users[0][0][1] = dict(users[0][0][1], cost=9999)
    elif k == 7:
        kw['ranges'] = [(a, b, ['GREEK'] if c == ['KANJI'] else c) for a, b, c in W.RANGES]
    elif k == 8:
        kw['props']['HIRAGANA'] = (False, False, 1)
    elif k == 9:
        kw['unk'] = [(u[0], u[1], u[2], {30: 99, 25: 98, 20: 97, 22: 19}.get(u[3], u[3]), u[4]) for u in unk]
    elif k == 10:
        kw['simple'] = (0, 0, 901, POS_SYS[0])
        kw['unk'] = [u for u in unk if u[0] != 'KANJI']
    elif k == 11:
        kw['path_plugins'][1]['minLength'] = 0
    elif k == 12:
        kw['input_plugins'] = [W.DEFAULT_PLUGIN, dict(W.PSM_PLUGIN, replacementSymbol='〜')]
    elif k == 13:
        kw['path_plugins'][0] = dict(W.NUMERIC_PLUGIN, enableNormalize=False)
    elif k == 14:
        sysd = [dict(e, head='い', surface='い') if e['head'] == 'あ' else dict(e, head='あ', surface='あ') if e['head'] == 'い' else e for e in sysd]
    return World(sysd, users=users, **kw)


REPL = 15


def repl_results(dic):
    tok = dic.create()
    modes = W.modes()
    return [[repr(seen(attempt(tok, t, modes[m]))) for t in REPL_TEXTS] for m in 'AC']


def repl_fresh(arg):
    w = repl_world(arg)
    w.write()
    return repl_results(w.open())


def repl_setup(tier):
    from .. import sub
    want = [sub.run('mc.props.c04', 'repl_fresh', k) for k in range(REPL)]
    if len({repr(w) for w in want}) < REPL - 1:
        raise Violation('the variants do not differ: %r' % [k for k in range(REPL) if want[k] in want[:k]])
    return want, Scratch.dir('repl')


def repl_cases(tier):
    for a in range(REPL):
        for b in range(REPL):
            if tier == 'quick' and a and b and (a + b) % 3:
                continue
            for close in (0, 1):
                for place in (0, 1):
                    yield (a, b, close, place)


def repl_check(env, case, ctx):
    want, base = env
    a, b, close, place = case
    d = os.path.join(base, '%d-%d-%d-%d' % case)
    os.makedirs(d, exist_ok=True)
    here = os.getcwd()
    opened = []
    for step, k in enumerate((a, b, a)):
        w = repl_world(k)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        w.write(d)
        for f in os.listdir(d):
            os.utime(os.path.join(d, f), (10 ** 9, 10 ** 9))
        if place:
            from sudachipy.dictionary import Dictionary
            os.chdir(d)
            try:
                dic = Dictionary(config_path='./sudachi.json')
            finally:
                os.chdir(here)
        else:
            dic = w.open()
        got = repl_results(dic)
        ctx.count('transitions')
        if got != want[k]:
            bad = [(m, t) for m in range(2) for t in range(len(REPL_TEXTS)) if got[m][t] != want[k][m][t]][0]
            raise Violation('the files of variant %d are replaced by those of %r (same names and times), construction %d: %r gives %s, in a process of its own %s'
                            % (a, (b, a), step, REPL_TEXTS[bad[1]], got[bad[0]][bad[1]], want[k][bad[0]][bad[1]]))
        if close:
            try:
                dic.close()
            except BufferError:
                pass
        else:
            opened.append((k, dic))
    for k, dic in opened:
        if repl_results(dic) != want[k]:
            raise Violation('variants %r: the dictionary opened with variant %d behaves differently after its files were replaced' % ((a, b, a), k))
    ctx.count('states')
    ctx.outcome(case)


SECTIONS = [
    Section('replaced', repl_cases, repl_check, repl_setup, '15 configurations that differ in one file: opened, replaced, opened again', block=4),
    Section('histories', histories, history_check, setup,
            'all histories of up to 4 (thorough 5) of 17 operations: texts that succeed or fail, two default modes, debug logger, a '
            'second dictionary with other contents and settings, reading, splitting and dropping earlier results'),
    Section('pairs', pair_cases, pair_check, pair_setup, 'all pairs of texts of up to 3 (thorough 4) of 5 characters one after the other, where many connections are inhibited', block=4),
    Section('lengths', length_cases, length_check, length_setup, 'all sequences of 3 (thorough 4) texts of the listed lengths and kinds'),
    Section('caches', cache_cases, cache_check, cache_setup, 'numbers of distinct words around powers of two, four access patterns', block=1),
    Section('hash-seeds', seed_cases, seed_check, seed_setup, 'hash seeds 1..16 (thorough 128) and 5 other environments (ASCII locale, ...), 700+ texts with ties', block=1),
]
