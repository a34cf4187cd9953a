"""C15: every text is analysed."""
import itertools
import os

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS, observe

PROPERTY = 'C15'
RULE = ('a case is one text or one block of texts; every text is analysed in every mode by tokenizers of several configurations and every '
        'attribute of every morpheme is read; an exception, an empty or incomplete result or a hang is a violation')
ASSUMPTIONS = ['lone surrogates are not Unicode text', 'path costs stay within 32 bits',
               'definitions that propose no word up to any possible word start (e.g. ALPHA of length 1 without grouping) leave no way through a text']

WORDS = [entry('あ', 1, 1, 100), entry('漢', 1, 1, 100), entry('漢字', 1, 1, 50, a=[1, 3], b=[1, 3]), entry('字', 1, 1, 90), entry('1', 2, 2, 10, pos=1),
         entry('一', 2, 2, 10, pos=1), entry('万', 2, 2, 10, pos=1), entry(',', 1, 1, 500, pos=2), entry('.', 1, 1, 500, pos=2),
         entry('ア', 1, 1, 700), entry('アイ', 1, 1, 300), entry('a', 1, 1, 800), entry('(', 1, 1, 30, pos=2), entry('十', 2, 2, 10, pos=1),
         entry('千', 2, 2, 10, pos=1), entry('0', 2, 2, 10, pos=1), entry('兆', 2, 2, 10, pos=1), entry('5', 2, 2, 10, pos=1), entry('ゔ', 2, 2, 10, norm='う゛'),
         entry('1万', 2, 2, 15, pos=1, a=[4, 6], b=[4, 6]), entry('あア', 1, 1, 200, a=[0, 9]), entry('.5', 2, 2, 200, pos=1), entry('1,', 2, 2, 60, pos=1),
         entry('㍿', 1, 1, 0, norm='株'), entry('１', 2, 2, 3, pos=1, norm='1')]


def shipped():
    import sudachipy
    res = os.path.join(os.path.dirname(sudachipy.__file__), 'resources')
    ranges, props = ref.parse_char_def(os.path.join(res, 'char.def'))
    unk = []
    with open(os.path.join(res, 'unk.def'), encoding='utf-8') as f:
        for line in f:
            c = line.strip().split(',')
            if len(c) >= 10:
                unk.append((c[0], int(c[1]) % 3, int(c[2]) % 3, int(c[3]), tuple(c[4:10])))
    pos = list(POS_SYS)
    for u in unk:
        if u[4] not in pos:
            pos.append(u[4])
    with open(os.path.join(res, 'char.def'), encoding='utf-8') as f:
        text = f.read()
    return ranges, props, unk, pos, text


def worlds():
    ranges, props, unk, pos, text = shipped()
    m = {(1, 2): 40, (2, 1): -30, (1, 1): 7, (2, 2): -5}
    base = dict(pos_list=pos, unk=unk, chardef_text=text, lsize=3, rsize=3, matrix=m, ranges=ranges, props=props)
    norm_off = dict(W.NUMERIC_PLUGIN, enableNormalize=False)
    inp = [W.DEFAULT_PLUGIN, W.PSM_PLUGIN]
    out = []
    out.append(World(WORDS, input_plugins=inp, path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN], simple=(0, 0, 3857, POS_SYS[2]), **base))
    out.append(World(WORDS, users=[([entry('a漢', 1, 1, -200), entry('万1', 2, 2, -100, pos=1)], [])], path_plugins=[W.KATAKANA_PLUGIN, norm_off],
                     simple=(0, 0, 3857, POS_SYS[2]), **base))
    out.append(World([entry('亜', 0, 0, 0)], input_plugins=inp[::-1], path_plugins=[W.NUMERIC_PLUGIN, dict(W.KATAKANA_PLUGIN, minLength=1)],
                     simple=(0, 0, 30000, POS_SYS[1]), unk=None, lsize=1, rsize=1))
    return out


def setup(tier):
    out = []
    modes = W.modes()
    for w in worlds():
        d = w.open()
        out.append((w, d, d.create(), modes))
    return out


def analyse(env, text, ctx, modes='C', which=None, light=False):
    for k, (w, d, tok, md) in enumerate(env):
        if which is not None and k not in which:
            continue
        for mn in modes:
            try:
                ml = tok.tokenize(text, md[mn])
                obs = None if light else [observe(m) for m in ml]
                n = len(ml)
            except Exception as e:
                raise Violation('world %d, mode %s: %r: %s: %s' % (k, mn, text[:60], type(e).__name__, str(e)[:200]))
            if n == 0 or len(list(ml)) != n:
                raise Violation('world %d, mode %s: %r gives %d morphemes' % (k, mn, text[:60], n))
            pos = 0
            for m in ml:
                if m.begin() != pos or m.end() < pos:
                    raise Violation('world %d, mode %s: %r is not covered: %r' % (k, mn, text[:60], obs and [o[:2] for o in obs]))
                pos = m.end()
            if pos != len(text):
                raise Violation('world %d, mode %s: %r is covered to %d of %d' % (k, mn, text[:60], pos, len(text)))
            ctx.count('transitions')
    if not light:
        ctx.outcome((text, n))


# --- every code point
def cp_cases(tier):
    for lo in range(0, 0x110000, 256):
        if not 0xd800 <= lo <= 0xdfff:
            yield lo


def cp_check(env, case, ctx):
    for cp in range(case, case + 256):
        c = chr(cp)
        analyse(env, c, ctx, which=(0,), light=True)
        analyse(env, '1' + c + 'ア' + c, ctx, which=(cp % 3,), light=True, modes='A')
    ctx.count('states', 512)
    ctx.outcome(case)


# --- numerals and separators
NUM = ['1', '0', ',', '.', '一', '万', '十', 'a']


def num_cases(tier):
    yield from strings(NUM, 5 if tier == 'quick' else 7)
    if tier == 'quick':
        yield from strings(['1', ',', '.', '万', 'あ'], 7, 6)


def num_check(env, case, ctx):
    analyse(env, case, ctx, which=(0, 1) if len(case) < 6 else (0,))
    ctx.count('states')


# --- Katakana, marks and word starts
KATA = ['ア', 'イ', 'ー', 'ァ', '〜', 'ｱ', 'あ', 'é']


def kata_cases(tier):
    return strings(KATA, 5 if tier == 'quick' else 6)


def kata_check(env, case, ctx):
    analyse(env, case, ctx, modes='C' if len(case) > 3 else 'ABC')
    ctx.count('states')


# --- unusual characters
NASTY = ['\x00', '\x01', '\t', '\n', '\r', '\x1b', ' ', '\x7f', '\x85', '\xa0', '\xad', '\u0301', '\u0345', '\u0378', '\u0600', '\u0e33', '\u1100', '\u1161', '\u200b',
         '\u200d', '\u202e', '\u2028', '\u3000', '\u3099', '\ufdfa', '\ufe0f', '\ufeff', '\uff9e', '\ufffd', '\ufffe', '\uffff', '\U0001f600', '\U0001f3fd',
         '\U0001f1ef', '\U000e0041', '\U0010ffff', '\U00020000', 'İ', 'ß', 'ŉ', 'ǰ', 'ﷺ', '㍿', '⑴', '㌀', '゛', 'あ', '1', '一', 'ア', 'a', ',']


def nasty_cases(tier):
    n = len(NASTY)
    yield from strings(NASTY, 2)
    for a in range(n):
        for b in range(n):
            for c in range(n):
                yield NASTY[a] + NASTY[b] + NASTY[c]
    if tier == 'thorough':
        for t in itertools.product(NASTY[::3] + ['あ', '1', 'ア'], repeat=4):
            yield ''.join(t)


def nasty_check(env, case, ctx):
    analyse(env, case, ctx, modes='ABC' if len(case) < 3 else 'C', which=None if len(case) < 3 else (0, 2))
    ctx.count('states')


# --- long texts
def long_cases(tier):
    pats = ['あ', 'ア', 'a', 'é', '漢', '字', '漢字', '1', '1,', ',', '.', '1.', '一', '万', '一万', '十', 'ー', 'アー', '𠮷', '㍿', '\u0301', 'aあ', '1億', ' ', '\x00', 'ｶﾞ', 'ﾞ',
            'あア1a漢,ー.', '々', 'ァ', 'ß', '1,111']
    lens = [100, 255, 256, 1000] if tier == 'quick' else [100, 255, 256, 257, 1000, 4000]
    for n in lens:
        for p in pats:
            for tail in ('', '漢', ',', '1'):
                yield (p, n, tail)
    for p in ('あ', 'a', '1', '字', 'ア'):
        yield (p, 6000 if tier == 'quick' else 20000, '')
    for p in ('あ', 'a', '漢ァ') if tier == 'quick' else ('あ', 'a', '漢ァ', '1', 'ア', '𠮷', '㍿'):
        yield (p, 66000, '')


def long_check(env, case, ctx):
    p, n, tail = case
    t = (p * n)[:n] + tail
    analyse(env, t, ctx, light=True, modes='C' if n > 300 else 'AC', which=None if n <= 1000 else (0, 2) if n <= 20000 else (2,))
    ctx.count('states')
    ctx.outcome(case)


# --- definition files: any categories may lack properties or definitions, any character may be NOOOVBOW
DEF_CATS = [(), ('KANJI',), ('ALPHA',), ('NOOOVBOW',), ('KANJI', 'NOOOVBOW'), ('NUMERIC', 'KATAKANA')]
DEF_PROPS = [None, (False, False, 0), (True, False, 1), (False, True, 0), (True, True, 2)]
DEF_CHARS = ['a', 'é', '𠮷']


def def_cases(tier):
    for cats in itertools.product(range(len(DEF_CATS)), repeat=3):
        for p in range(len(DEF_PROPS)):
            for order in ('ms', 'sm', 's'):
                yield (cats, p, order)


def def_setup(tier):
    return Scratch.dir('c15'), list(strings(DEF_CHARS + ['z'], 3 if tier == 'quick' else 4)), W.modes()


def def_check(env, case, ctx):
    d, texts, modes = env
    cats, p, order = case
    ranges = [(ord(c), ord(c), DEF_CATS[k]) for c, k in zip(DEF_CHARS, cats) if DEF_CATS[k]]
    props = {}
    if DEF_PROPS[p]:
        props = {c: DEF_PROPS[p] for c in ('KANJI', 'ALPHA', 'NUMERIC', 'KATAKANA', 'NOOOVBOW')}
    unk = [(c, 0, 0, 400, POS_SYS[1]) for c in props if c != 'KATAKANA']
    w = World([entry('aé', 0, 0, 1), entry('z', 0, 0, 1)], ranges=ranges, props=props, unk=unk if order != 's' else None, oov_order=order,
              simple=(0, 0, 900, POS_SYS[0]), lsize=1, rsize=1, path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN], input_plugins=[W.DEFAULT_PLUGIN])
    w.dir = d
    w.write()
    dic = w.open()
    world = [(w, dic, dic.create(), modes)]
    model = w.model()
    for t in texts:
        if model.minimum(t) is None:    # these definitions leave no way through the text
            ctx.count('no way')
            continue
        analyse(world, t, ctx)
    ctx.count('states')


# --- no text
def empty_cases(tier):
    return itertools.product(range(3), 'ABC', range(3))


def empty_check(env, case, ctx):
    k, mn, how = case
    w, d, tok, modes = env[k]
    tok = d.create(modes[mn]) if how else tok
    if how == 2:
        tok.tokenize('あア')
    ml = tok.tokenize('', modes[mn]) if how != 1 else tok.tokenize('')
    if len(ml) != 0 or list(ml) != [] or ml.size() != 0 or str(ml) != '':
        raise Violation('the empty text gives %r' % ml)
    try:
        ml[0]
    except IndexError:
        ctx.outcome(case)
        ctx.count('transitions')
        ctx.count('states')
        return
    raise Violation('the empty list has a first element')


SECTIONS = [
    Section('code-points', cp_cases, cp_check, setup, 'every code point except surrogates, alone and in context'),
    Section('numerals', num_cases, num_check, setup, 'all texts up to 5 (thorough 7) over 8 numeral characters and separators, of 6 and 7 over 5', block=64),
    Section('katakana', kata_cases, kata_check, setup, 'all texts up to 5 (thorough 6) over 8 characters'),
    Section('unusual', nasty_cases, nasty_check, setup, 'all texts up to 3 (thorough 4 over a subset) over 52 unusual characters', block=64),
    Section('long', long_cases, long_check, setup, '32 patterns repeated to 100..1000 (thorough 4000) characters, 5 to 6000 (thorough 20000)', block=4),
    Section('definitions', def_cases, def_check, def_setup, 'all assignments of 6 category sets to 3 characters x properties x provider order, all texts up to 3 (thorough 4)'),
    Section('empty', empty_cases, empty_check, setup, 'the empty text'),
]
