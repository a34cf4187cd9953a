"""C27: the configured plugins are applied, in order, all of them and only they."""
import itertools
import json
import os

from .. import ref, world as W
from ..core import Section, Violation
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS
from . import c17, c18

PROPERTY = 'C27'
RULE = ('a case is one list of plugins of a kind (every order, with repetitions) with a set of texts, or one faulty entry in such a list; the result is compared with '
        'the composition of the reference models of the single plugins in the order listed')
ASSUMPTIONS = ['the list of input-text plugins leaves the text non-empty',
               'joining plugins are compared step by step: the result with n plugins is derived from that with the first n-1']


class Env:
    pass


# --- input text plugins
PSM = W.PSM_PLUGIN['class']
INPUT = {
    'default': dict(W.DEFAULT_PLUGIN),
    'wave': {'class': PSM, 'prolongedSoundMarks': ['ー', '〜'], 'replacementSymbol': 'ー'},
    'wide': {'class': PSM, 'prolongedSoundMarks': ['ー', 'a'], 'replacementSymbol': 'Ａ'},
    'grow': {'class': PSM, 'prolongedSoundMarks': ['Ａ', 'ー', '〜'], 'replacementSymbol': '〜ーa'},
    'nomarks': {'class': PSM, 'replacementSymbol': 'x'},
    'nosymbol': {'class': PSM, 'prolongedSoundMarks': ['a', '〜']},
    'bare': {'class': PSM},
}
INPUT_CHARS = ['ー', '〜', 'Ａ', 'a', 'あ']
RULE_CHARS = ['⼼', 'ｶ', 'ﾞ', 'ー', 'Ａ']      # the rewrite definition has rules and exceptions for these


def input_lists(tier):
    names = sorted(INPUT)
    for n in range(0, 3 if tier == 'quick' else 4):
        yield from itertools.product(names, repeat=n)
    if tier == 'quick':
        yield from itertools.product(['default', 'grow', 'wave', 'wide'], repeat=3)


def input_cases(tier):
    for names in input_lists(tier):
        for absent in ((False, True) if not names else (False,)):
            yield (list(names), absent, 4 if tier == 'quick' else 5)


_texts = {}


def texts_upto(chars, n):
    key = (tuple(chars), n)
    if key not in _texts:
        _texts[key] = list(strings(chars, n))
    return _texts[key]


def input_setup(tier):
    env = Env()
    from . import c11
    from sudachipy import config
    env.ignore, env.rep = ref.read_rewrite_def(os.path.join(config.DEFAULT_RESOURCEDIR, 'rewrite.def'))
    env.modes = W.modes()
    return env


def input_model(env, names, text):
    ot = ref.OffsetText(text)
    for n in names:
        if n == 'default':
            ref.default_rewrite(ot, env.ignore, env.rep)
        else:
            p = INPUT[n]
            ref.prolonged_rewrite(ot, p.get('prolongedSoundMarks', []), p.get('replacementSymbol', 'ー'))
    return ot


def input_check(env, case, ctx):
    names, absent, n = case
    w = World([entry('亜')], ranges=[(0x20, 0x20, ['SPACE'])], lsize=1, rsize=1, simple=(0, 0, 100, POS_SYS[2]), input_plugins=[INPUT[k] for k in names])
    if absent:
        cfg = w.config()
        cfg.pop('inputTextPlugin')
        w.config = lambda: cfg
    tok = w.open().create()
    for text in itertools.chain(texts_upto(INPUT_CHARS, n), texts_upto(RULE_CHARS, n - 1)):
        ot = input_model(env, names, text)
        # every character of the analysed text is one unknown word
        got = [(m.normalized_form(), m.begin(), m.end(), m.surface()) for m in tok.tokenize(text)]
        want = [(c, ot.origin[i], ot.origin[i + 1], text[ot.origin[i]:ot.origin[i + 1]]) for i, c in enumerate(ot.chars)]
        if got != want:
            raise Violation('input plugins %r: %r is analysed as %r, expected %r' % (names, text, got, want))
        ctx.count('transitions')
        ctx.outcome((names, tuple(got)))
    ctx.count('states')


# --- providers of unknown words
MECAB = 'sudachipy.plugin.oov.MeCabOovProviderPlugin'
SIMPLE = 'sudachipy.plugin.oov.SimpleOovProviderPlugin'
OOVPROPS = {
    'm1': {'KANJI': (True, False, 2), 'ALPHA': (True, True, 0), 'DEFAULT': (False, True, 0)},
    'm2': {'KANJI': (False, True, 1), 'HIRAGANA': (True, False, 1)},
}
OOVUNK = {'m1': [('KANJI', 1, 1, None, POS_SYS[0]), ('ALPHA', 1, 2, None, POS_SYS[0])],
          'm2': [('KANJI', 2, 1, None, POS_SYS[4]), ('HIRAGANA', 2, 2, None, POS_SYS[4])]}
OOVPOS = {'s1': POS_SYS[2], 's2': POS_SYS[5]}


class OovWorld(World):
    def __init__(self, names, costs, **k):
        World.__init__(self, [entry('語', 1, 1, 150), entry('漢あ', 2, 2, 420), entry('a', 1, 1, 100)], lsize=3, rsize=3,
                       matrix={(1, 2): 15, (2, 1): -25, (2, 2): 3, (0, 1): 1}, **k)
        self.names = names
        self.cost = costs

    def files(self, d):
        for m in ('m1', 'm2'):
            with open(os.path.join(d, m + '.char'), 'wb') as f:
                f.write(W.dump_char_def([], OOVPROPS[m]).encode('utf-8'))
            with open(os.path.join(d, m + '.unk'), 'wb') as f:
                f.write(''.join('%s,%d,%d,%d,%s\n' % (c, l, r, self.cost[m], ','.join(p)) for c, l, r, _, p in OOVUNK[m]).encode('utf-8'))

    def config(self):
        cfg = World.config(self)
        cfg['oovProviderPlugin'] = [
            {'class': MECAB, 'charDef': n + '.char', 'unkDef': n + '.unk'} if n in OOVUNK else
            {'class': SIMPLE, 'oovPOS': list(OOVPOS[n]), 'leftId': 2, 'rightId': 1, 'cost': self.cost[n]} for n in self.names]
        self.files(self.dir)
        return cfg

    def oov_models(self):
        return [ref.MecabOov(OOVPROPS[n], [(c, l, r, self.cost[n], p) for c, l, r, _, p in OOVUNK[n]]) if n in OOVUNK else
                ref.SimpleOov(2, 1, self.cost[n], OOVPOS[n]) for n in self.names]


KINDS = ['m1', 'm2', 's1', 's2']
OOV_TEXTS = ['漢', 'あ', '語', 'a', 'ー']      # no unknown word begins with the last, except as a last resort


def oov_cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for names in itertools.product(KINDS, repeat=n):
            used = sorted(set(names))
            for low in itertools.product((90, 610), repeat=len(used)):
                yield (names, dict(zip(used, low)), 3 if tier == 'quick' else 4)


def oov_check(env, case, ctx):
    names, low, n = case
    costs = {k: low.get(k, 0) + 7 * i for i, k in enumerate(KINDS)}
    w = OovWorld(names, costs)
    tok = w.open().create()
    model = w.model()
    for text in texts_upto(OOV_TEXTS, n):
        ctx.count('transitions')
        if model.minimum(text) is None:
            # a position without words: the last provider had no word either
            try:
                ml = tok.tokenize(text)
            except Exception:
                ctx.count('no_word')
                continue
            raise Violation('providers %r: %r gives %r although no provider has a word' % (names, text, [m.surface() for m in ml]))
        ml = tok.tokenize(text)
        W.check_min_path(model, text, ml, 'providers %r %r' % (names, low))
        ctx.outcome((names, tuple((m.surface(), m.part_of_speech_id(), m.dictionary_id()) for m in ml)))
    ctx.count('states')


# --- joining plugins
PATH = {
    'n': dict(W.NUMERIC_PLUGIN),
    'off': dict(W.NUMERIC_PLUGIN, enableNormalize=False),
    'bare': {'class': W.NUMERIC_PLUGIN['class']},
    'k1': {'class': W.KATAKANA_PLUGIN['class'], 'oovPOS': list(POS_SYS[4]), 'minLength': 1},
    'k3': {'class': W.KATAKANA_PLUGIN['class'], 'oovPOS': list(POS_SYS[0]), 'minLength': 3},
    'kbare': {'class': W.KATAKANA_PLUGIN['class'], 'oovPOS': list(POS_SYS[5])},
}
PATH_WORDS = [entry(c, 1, 1, 10, pos=2 if c in ',.' else 1) for c in '10千,.'] + [
    entry('ア', 1, 1, 20), entry('アー', 2, 2, 25, norm='亜'), entry('あ', 2, 2, 10), entry('アイア', 1, 1, 900), entry('10', 1, 1, -5, pos=1, norm='一〇')]
# two characters that are both a numeral and Katakana: for them the order of the plugins matters
PATH_WORDS += [entry('2', 1, 1, 10, pos=1), entry('百', 1, 1, 10, pos=1)]
PATH_RANGES = [(ord('2'), ord('2'), ['KATAKANA']), (ord('百'), ord('百'), ['KATAKANA'])] + W.RANGES
PATH_KW = dict(ranges=PATH_RANGES, system=PATH_WORDS, lsize=3, rsize=3, matrix={(1, 2): 30, (2, 1): -20, (1, 1): 5}, simple=(0, 0, 700, POS_SYS[2]))


def path_lists(tier):
    names = sorted(PATH)
    for n in range(1, 3 if tier == 'quick' else 4):
        yield from itertools.product(names, repeat=n)
    if tier == 'quick':
        yield from itertools.product(['n', 'off', 'k1', 'k3'], repeat=3)


def path_cases(tier):
    for names in path_lists(tier):
        for part in range(3):
            yield (names, part, tier)


def path_texts(part, tier):
    if part == 2:
        return texts_upto(['1', '2', '百', 'ア', 'ー'], 4 if tier == 'quick' else 5)
    if part:
        return texts_upto(['1', ',', 'ア', 'イ'], 5 if tier == 'quick' else 6)
    return texts_upto(['1', '0', '千', ',', '.', 'ア', 'イ', 'ー', 'あ'], 3 if tier == 'quick' else 4)


def path_setup(tier):
    env = Env()
    env.cache = {}
    env.cd = ref.CharDef(PATH_RANGES)
    env.modes = W.modes()
    return env


def opened(env, names):
    if names not in env.cache:
        if len(env.cache) > 60:
            env.cache.clear()
        w = World(path_plugins=[PATH[n] for n in names], **PATH_KW)
        d = w.open()
        env.cache[names] = (w, d, d.create(), w.model())
    return env.cache[names]


def path_check(env, case, ctx):
    names, part, tier = case
    names = tuple(names)
    wa, da, ta, model = opened(env, names[:-1])
    wb, db, tb, _ = opened(env, names)
    last = PATH[names[-1]]
    for text in path_texts(part, tier):
        if 'oovPOS' in last:
            c18.check_text((model, last.get('minLength', 1), da, ta, db, tb), text, ctx, 'joining plugins %r' % (names,), pos=last['oovPOS'])
        else:
            e = Env()
            e.modes, e.cd = env.modes, env.cd
            e.w = {'list': (wa, last.get('enableNormalize', True), da, ta, db, tb)}
            c17.check_text(e, 'list', text, ctx)
        ctx.outcome((names, text, tuple((m.surface(), m.normalized_form(), m.part_of_speech_id()) for m in tb.tokenize(text))))
    ctx.count('states')


# --- faulty entries
def faulty():
    """[(kind, list entry, what)]"""
    pos = list(POS_SYS[0])
    simple = {'class': SIMPLE, 'oovPOS': pos, 'leftId': 0, 'rightId': 0, 'cost': 3000}
    mecab = {'class': MECAB, 'charDef': 'm1.char', 'unkDef': 'm1.unk'}
    good = {'inputTextPlugin': INPUT['wave'], 'oovProviderPlugin': simple, 'pathRewritePlugin': PATH['k1']}
    out = []
    for kind in good:
        for other in good:
            if other != kind:
                out.append((kind, good[other], 'a plugin of another kind'))
        for c in ('', None, 'sudachipy.plugin.Nope', good[kind]['class'] + 'X', good[kind]['class'].rsplit('.', 1)[1], good[kind]['class'].lower(), good[kind]['class'] + ' '):
            out.append((kind, dict(good[kind], **{'class': c}), 'class %r' % c))
        out.append((kind, {k: v for k, v in good[kind].items() if k != 'class'}, 'no class'))
        out.append((kind, {}, 'an empty entry'))
    for k in ('oovPOS', 'leftId', 'rightId', 'cost'):
        out.append(('oovProviderPlugin', {x: v for x, v in simple.items() if x != k}, 'no ' + k))
    for p in (['名詞', '普通名詞', '一般', '*', '*', 'x'], pos[:5], pos + ['*'], [], ['*'] * 6):
        out.append(('oovProviderPlugin', dict(simple, oovPOS=p), 'a part of speech that the dictionary does not have: %r' % p))
        out.append(('pathRewritePlugin', dict(PATH['k1'], oovPOS=p), 'a part of speech that the dictionary does not have: %r' % p))
    out.append(('pathRewritePlugin', {'class': PATH['k1']['class']}, 'no oovPOS'))
    for k in ('charDef', 'unkDef'):
        out.append(('oovProviderPlugin', {x: v for x, v in mecab.items() if x != k}, 'no ' + k))
        out.append(('oovProviderPlugin', dict(mecab, **{k: 'nosuch'}), 'a file that does not exist'))
    for text in ('KANJI,1,1,100,名詞,普通名詞,一般,*,*,x\n', 'KANJI,1,1,100\n', 'NOSUCH,1,1,100,%s\n' % ','.join(pos), 'GREEK,1,1,100,%s\n' % ','.join(pos),
                 'KANJI,a,1,100,%s\n' % ','.join(pos), 'KANJI,1,1,100,%s\nKANJI,1,1,100,*,*,*,*,*,*\n' % ','.join(pos)):
        out.append(('oovProviderPlugin', dict(mecab, unkDef='bad.unk', text=text), 'an unknown-word definition %r' % text))
    for text in ('KANJI 1 1\n', 'NOSUCH 1 1 0\n', 'KANJI 1 1 0\nKANJI 1 1 0\n', 'KANJI 1 1 x\n'):
        out.append(('oovProviderPlugin', dict(mecab, charDef='bad.char', text=text), 'category properties %r' % text))
    for marks in (['ーー'], [''], [1], 5):
        out.append(('inputTextPlugin', dict(INPUT['wave'], prolongedSoundMarks=marks), 'marks %r' % (marks,)))
    return good, out


def faulty_cases(tier):
    good, bad = faulty()
    for i in range(len(bad)):
        for before in range(3):
            for after in range(2 if tier == 'quick' else 3):
                yield (i, before, after)
    yield (-1, 0, 0)
    yield (-2, 0, 0)
    for before in range(4):
        yield (-3, before, 0)


def faulty_check(env, case, ctx):
    i, before, after = case
    good, bad = faulty()

    class Faulty(OovWorld):
        def config(self):
            cfg = OovWorld.config(self)
            if i < 0:
                cfg['oovProviderPlugin'] = []
                if i == -2:
                    cfg.pop('oovProviderPlugin')
                if i == -3:     # no faulty entry at all: this opens
                    cfg.update({k: [v] * before for k, v in good.items() if k != 'oovProviderPlugin'}, oovProviderPlugin=[good['oovProviderPlugin']] * (before or 1))
                return cfg
            kind, obj, what = bad[i]
            obj = dict(obj)
            text = obj.pop('text', None)
            for name in ('bad.unk', 'bad.char'):
                if text is not None and name in obj.values():
                    with open(os.path.join(self.dir, name), 'wb') as f:
                        f.write(text.encode('utf-8'))
            cfg[kind] = [good[kind]] * before + [obj] + [good[kind]] * after
            return cfg
    costs = {k: 100 for k in KINDS}
    what = 'no provider of unknown words' if i < 0 else '%s: %s (entry %d of %d)' % (bad[i][0], bad[i][2], before, before + after + 1)
    if i == -3:
        Faulty(['s1'], costs).open().create().tokenize('語漢')
        ctx.count('states')
        return
    try:
        Faulty(['s1'], costs).open()
    except Exception as e:
        ctx.outcome((case, type(e).__name__))
    else:
        raise Violation('%s is accepted' % what)
    # the process is not affected
    w = OovWorld(['s1'], costs)
    tok = w.open().create()
    W.check_min_path(w.model(), '語漢', tok.tokenize('語漢'), 'after %s' % what)
    ctx.count('states')


# --- several dictionaries with different plugins in one process
def opened_worlds():
    """[(world, why it is refused or None)]: the same dictionary with other plugins of each kind"""
    words = [entry(c, 1, 1, 10, pos=1) for c in '12'] + [entry('アー', 2, 2, 25), entry('あ', 2, 2, 10)]
    kw = dict(ranges=W.RANGES, lsize=3, rsize=3, matrix={(1, 2): 30, (2, 1): -20, (1, 1): 5})
    simple = (0, 0, 700, POS_SYS[2])
    out = [
        World(words, simple=simple, path_plugins=[PATH['n'], PATH['k1']], input_plugins=[INPUT['default'], INPUT['wave']], **kw),
        World(words, simple=(0, 0, 5, POS_SYS[5]), path_plugins=[], input_plugins=[], **kw),
        World(words, simple=(1, 2, 300, POS_SYS[4]), path_plugins=[PATH['k3'], PATH['off']], input_plugins=[INPUT['wide']], **kw),
    ]
    bad = World(words, simple=simple, path_plugins=[PATH['k1'], {'class': 'sudachipy.plugin.Nope'}], input_plugins=[INPUT['grow']], **kw)
    return out, bad


OPENED_TEXTS = ['12', 'ア〜〜イー', '１2アー漢', 'アイウaあ', 'あー〜a2']
OPENED_OPS = ['open0', 'open1', 'open2', 'refused', 'create0', 'create1', 'create2']


def opened_results(tok, modes):
    return [[(m.surface(), m.normalized_form(), m.part_of_speech_id(), m.begin(), m.end(), m.is_oov()) for m in tok.tokenize(t)] for t in OPENED_TEXTS]


def opened_setup(tier):
    env = Env()
    env.worlds, env.bad = opened_worlds()
    env.dirs = []
    env.want = []
    env.modes = W.modes()
    for w in env.worlds:
        dic = w.open()
        env.want.append(opened_results(dic.create(), env.modes))
        dic.close()
    env.bad.write()
    for i in range(3):
        for k in range(i):
            if env.want[i] == env.want[k] or all(x == y for x, y in zip(env.want[i], env.want[k])):
                raise ValueError('the plugins make no difference')
    return env


def opened_cases(tier):
    for n in range(2, 7 if tier == 'quick' else 8):
        for ops in itertools.product(range(len(OPENED_OPS)), repeat=n):
            names = [OPENED_OPS[o] for o in ops]
            # a dictionary is opened before a tokenizer is made, and something is made in the end
            if all(o[-1] in [p[-1] for p in names[:i] if p.startswith('open')] for i, o in enumerate(names) if o.startswith('create')) and names[-1].startswith('create'):
                yield names


def opened_check(env, case, ctx):
    dics, toks = {}, []
    for k, op in enumerate(case):
        if op == 'refused':
            try:
                env.bad.open()
            except Exception:
                pass
            else:
                raise Violation('a plugin that does not exist is accepted')
        elif op.startswith('open'):
            i = int(op[-1])
            dics[i] = env.worlds[i].open()
        else:
            i = int(op[-1])
            toks.append((i, dics[i].create()))
            ctx.count('states')
        for i, tok in toks:
            got = opened_results(tok, env.modes)
            ctx.count('transitions')
            if got != env.want[i]:
                raise Violation('after %s: a tokenizer of dictionary %d gives %r, alone %r' % (', '.join(case[:k + 1]), i, got, env.want[i]))
    ctx.outcome(tuple(case))


# --- dictionaries whose settings are the same text
def same_world(k, plugins):
    """equal settings; the part-of-speech tables, categories, definitions and words differ"""
    pos = POS_SYS[k:] + POS_SYS[:k]
    at = {p: i for i, p in enumerate(pos)}
    words = [entry(c, 1, 1, 10, pos=at[POS_SYS[1]], norm=c if k != 2 else '2') for c in '12'] + [entry('アー', 2, 2, 25, pos=at[POS_SYS[k]]), entry('あ', 2, 2, 10 + k, pos=at[POS_SYS[2]])]
    words = words[k:] + words[:k]
    unk = [('KATAKANA', 1, 1, 50 + k, POS_SYS[4 - k]), ('DEFAULT', 2, 1, 90, POS_SYS[k]), ('ALPHA', 1, 2, 9 * k, POS_SYS[3])]
    ranges = W.RANGES if k != 1 else W.RANGES + [(0x3042, 0x3042, ['KATAKANA']), (0x61, 0x61, ['NUMERIC'])]
    return World(words, pos_list=pos, unk=unk, ranges=ranges, lsize=3, rsize=3, matrix={(1, 2): 30 - 20 * k, (2, 1): -20 * k, (1, 1): 5}, simple=(0, 1, 700, POS_SYS[5]),
                 input_plugins=[INPUT['default'], INPUT['wave']] if 'i' in plugins else [], oov_order='ms' if 'm' in plugins else 's',
                 path_plugins=([PATH['n']] if 'n' in plugins else []) + ([PATH['k3']] if 'k' in plugins else []))


SAME_TEXTS = ['12', 'ア〜〜イー', '１2アー漢', 'アイウaあ', 'あー〜a2', 'aa1']


def same_results(tok):
    return [[(m.surface(), m.normalized_form(), m.part_of_speech(), m.begin(), m.end(), m.is_oov(), m.dictionary_id()) for m in tok.tokenize(t)] for t in SAME_TEXTS]


def same_alone(d):
    """the results of a process that opens this dictionary only"""
    from sudachipy.dictionary import Dictionary
    return same_results(Dictionary(config_path=os.path.join(d, 'sudachi.json'), resource_dir=d).create())


SAME_PLUGINS = ['', 'i', 'm', 'n', 'k', 'nk', 'imnk']


def same_setup(tier):
    from .. import sub
    env = Env()
    env.worlds, env.want = {}, {}
    for p in SAME_PLUGINS:
        env.worlds[p] = [same_world(k, p) for k in range(3)]
        for w in env.worlds[p]:
            w.write()
        env.want[p] = [sub.run('mc.props.c27', 'same_alone', w.dir, {}) for w in env.worlds[p]]
        if len({open(os.path.join(w.dir, 'sudachi.json')).read() for w in env.worlds[p]}) != 1 or len({json.dumps(x) for x in env.want[p]}) != 3:
            raise ValueError('not the same settings with different dictionaries')
    return env


def same_cases(tier):
    for p in SAME_PLUGINS:
        for n in range(2, 5 if tier == 'quick' else 6):
            for ops in itertools.product(range(6), repeat=n):
                if all(o < 3 or o - 3 in ops[:i] for i, o in enumerate(ops)) and ops[-1] >= 3:
                    yield (p, ops)


def same_check(env, case, ctx):
    p, ops = case
    dics, toks = {}, []
    for k, o in enumerate(ops):
        if o < 3:
            dics[o] = env.worlds[p][o].open()
        else:
            toks.append((o - 3, dics[o - 3].create()))
            ctx.count('states')
        for i, tok in toks:
            got = json.loads(json.dumps(same_results(tok)))
            ctx.count('transitions')
            if got != json.loads(json.dumps(env.want[p][i])):
                raise Violation('plugins %r, after %r: a tokenizer of dictionary %d gives %r, alone %r' % (p, ops[:k + 1], i, got, env.want[p][i]))
    ctx.outcome(case)


SECTIONS = [
    Section('input', input_cases, input_check, input_setup, 'all lists of up to two (thorough three) of 7 input-text plugins and of three of 4, x all texts up to 4 (5) over 5 characters and up to 3 (4) over 5 with rules of the rewrite definition', block=1),
    Section('providers', oov_cases, oov_check, lambda tier: None, 'all lists of up to three (four) of 4 providers x two costs each x all texts up to 3 (4) over 5 characters', block=4),
    Section('joining', path_cases, path_check, path_setup, 'all lists of up to two (three) of 6 joining plugins and of three of 4, x all texts up to 3 (4) over 9 characters, up to 5 (6) over 4 and up to 4 (5) over 5, of which two are both numerals and Katakana', block=1),
    Section('faulty', faulty_cases, faulty_check, lambda tier: None, 'every faulty entry at every position of a list of up to four (five) entries', block=4),
    Section('opened', opened_cases, opened_check, opened_setup, 'all sequences of up to 6 (7) of: open one of three dictionaries with different plugins of every kind, open one with a faulty list, create a tokenizer; every tokenizer made so far is used after every step', block=16),
    Section('same-settings', same_cases, same_check, same_setup, 'three dictionaries with the same settings and different part-of-speech tables, categories and words, 7 lists of plugins: all sequences of up to 4 (5) of: open one, create a tokenizer', block=16),
]
