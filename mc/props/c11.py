"""C11: input normalization follows the rewrite definition."""
import itertools
import os

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS

PROPERTY = 'C11'
RULE = ('a case is one definition (or one block of texts); the edited text of every text is compared with the reference rewriting '
        '(plain scan over the definition read independently), its map to the original with the reference map')
ASSUMPTIONS = ['Unicode lower-casing and NFKC are those of the Python runtime', 'lone surrogates cannot be encoded and are excluded']


class FakeCategories:
    """grammar stand-in: the builder needs character categories only"""

    def __init__(self):
        from sudachipy.dictionarylib.categorytype import CategoryType
        self.set = {CategoryType.DEFAULT}

    def get_character_category(self):
        return self

    def get_category_types(self, cp):
        return self.set


def resource(name):
    import sudachipy
    return os.path.join(os.path.dirname(sudachipy.__file__), 'resources', name)


class Env:
    def __init__(self):
        from sudachipy.plugin.input_text import DefaultInputTextPlugin
        self.grammar = FakeCategories()
        self.plugin = DefaultInputTextPlugin()
        self.plugin.set_up()
        self.ignore, self.rep = ref.read_rewrite_def(resource('rewrite.def'))


def setup(tier):
    return Env()


def compare(grammar, plugins, refs, text, what, ctx):
    """plugins are applied in order; refs are functions on an OffsetText"""
    from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
    b = UTF8InputTextBuilder(text, grammar)
    ot = ref.OffsetText(text)
    for p, r in zip(plugins, refs):
        p.rewrite(b)
        r(ot)
    want = ot.text()
    if b.get_text() != want:
        raise Violation('%s: %r becomes %r, the definition gives %r' % (what, text, b.get_text(), want))
    if b.get_original_text() != text:
        raise Violation('%s: the original text of %r becomes %r' % (what, text, b.get_original_text()))
    ctx.count('transitions')
    if want == text:
        return False
    it = b.build()
    off = 0
    got = []
    for c in want:
        got.append(it.get_original_index(off))
        off += len(c.encode('utf-8'))
    got.append(it.get_original_index(off))
    if got != ot.origin:
        raise Violation('%s: %r -> %r is mapped to %r, expected %r' % (what, text, want, got, ot.origin))
    return True


def default(env, text, ctx, what='default rewriting'):
    return compare(env.grammar, [env.plugin], [lambda ot: ref.default_rewrite(ot, env.ignore, env.rep)], text, what, ctx)


# --- every code point
def cp_cases(tier):
    for lo in range(0, 0x110000, 256):
        if not 0xd800 <= lo <= 0xdfff:
            yield lo


def cp_check(env, case, ctx):
    changed = 0
    for cp in range(case, case + 256):
        c = chr(cp)
        if default(env, c, ctx):
            changed += 1
            default(env, 'Ａ' + c + 'あ', ctx)
            default(env, c + c, ctx)
            default(env, c + 'ﾞ', ctx)
            default(env, 'ｶ' + c + '㍿', ctx)
            ctx.outcome((cp, 'changed'))
        else:
            default(env, '㍿' + c + 'Ａ', ctx)
    ctx.count('states', 256)
    ctx.outcome((case, changed))


# --- every pair of keys, every first x every second character
def key_cases(tier):
    _, rep = ref.read_rewrite_def(resource('rewrite.def'))
    return sorted(rep)


def key_check(env, case, ctx):
    keys = sorted(env.rep)
    if not default(env, case, ctx):
        raise Violation('the key %r is not replaced' % case)
    seconds = sorted({k[1:] for k in keys})
    for k in keys:
        for t in (case + k, case[0] + k, case + k[-1], case + 'Ａ' + k, case[-1] + k + case[0]):
            default(env, t, ctx)
    for s in seconds + list('ＡÉあ'):
        for t in (case + s, case[0] + s, case[0] + s + s, case[0] + case[0] + s, 'x' + case[0] + s + case + 'x', case[0].upper() + s):
            default(env, t, ctx)
    ctx.count('states')
    ctx.outcome(case)


# --- all texts over characters of every class
CLASSES = ['ｶ', 'ﾞ', 'Ａ', '㍿', '⼼', 'Ⅲ', 'か', 'あ', 'İ', '𠮷', '\u0301', '㌀']


def text_cases(tier):
    return strings(CLASSES, 5 if tier == 'quick' else 6)


def text_check(env, case, ctx):
    if default(env, case, ctx):
        ctx.outcome(case)
    ctx.count('states')


# --- custom definitions
def def_cases(tier):
    keys = list(strings('xy', 3)) + ['Ｘ', 'xＸ', 'Ｘx']
    reps = ['z', 'xx', 'Ｚyx']
    n = 2 if tier == 'quick' else 3
    for k in range(0, n + 1):
        for ks in itertools.combinations(keys, k):
            for rs in itertools.product(reps, repeat=k):
                for ig in ((), ('Ｘ',), ('ｘ', 'Ｚ')) if k < 2 or tier != 'quick' else ((), ('ｘ',)):
                    if k == 3 and (ig or len(set(rs)) == 1):
                        continue
                    yield (tuple(zip(ks, rs)), ig)


def def_setup(tier):
    env = Env()
    env.dir = Scratch.dir('c11')
    env.texts = list(strings('xyXY', 3)) + list(strings('xｘX', 3)) + list(strings('xy', 4)) + list(strings('xyＸ', 3)) + ['xyxyxＸyx', 'Ｘxyyxx', 'ＸＸＸ', 'xxxxx', 'yxxyxxy']
    return env


def def_check(env, case, ctx):
    from sudachipy.plugin.input_text import DefaultInputTextPlugin
    rules, ignore = case
    path = os.path.join(env.dir, 'r.def')
    lines = ['# comment', ''] + [i for i in ignore] + ['%s\t%s' % r for r in rules] + ['  # x y z']
    for lines in (lines, lines[::-1]):
        with open(path, 'w', encoding='utf-8') as f:
            f.write('\n'.join(lines) + '\n')
        p = DefaultInputTextPlugin()
        p.read_rewrite_lists(path)
        rep = dict(rules)
        r = lambda ot: ref.default_rewrite(ot, set(ignore), rep)  # noqa
        n = 0
        for t in env.texts:
            n += compare(env.grammar, [p], [r], t, 'definition %r' % (case,), ctx)
    ctx.count('states')
    ctx.outcome((case, n))


# --- any characters in a definition
ODD = ['#', '"', "'", ',', '\\', '/', '0x41', '%', '*', '\u200b', '\ufeff', '\x7f', '𠮷', '\U0010ffff', 'ﾞ', '♯', '=', '..', '{}', '\\n', '\u0301']


def odd_cases(tier):
    for a in ODD:
        for b in ODD:
            yield (a, b)


def odd_check(env, case, ctx):
    from sudachipy.plugin.input_text import DefaultInputTextPlugin
    a, b = case
    path = os.path.join(env.dir, 'odd.def')
    n = 0
    for k, (ignore, rules) in enumerate((((), (('x' + a, 'y' + b),)), ((), (('x' + a, b), ('xy', 'z' + a + 'w'), ('z' + b, a + b))), ((b[0],) if b != '#' else (), (('い' + a + 'う', b + 'え'),)),
                                         ((), ((a, b),) if a[0] != '#' else (('x', a),)))):
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write('# comment\n\n' + ''.join('%s\n' % i for i in ignore) + ''.join('%s\t%s\n' % r for r in rules))
        p = DefaultInputTextPlugin()
        p.read_rewrite_lists(path)
        rep = dict(rules)
        for t in ('x' + a, 'x' + b, 'x' + a + b, a + b, 'xy' + a, 'z' + b + 'w', 'い' + a + 'うい', a, b, 'xx' + a + 'xyz' + b):
            n += compare(env.grammar, [p], [lambda ot: ref.default_rewrite(ot, set(ignore), rep)], t, 'definition %r %r' % (case, k), ctx)
    ctx.count('states')
    ctx.outcome((case, n))


# --- prolonged sound marks
def psm_cases(tier):
    for marks in (('ー',), ('ー', '〜'), tuple(W.MARKS), ('𠮷', 'ー'), ('a', '.'), ()):
        for sym in ('ー', '', '〜', 'ーー', 'abc', '𠮷', 'あ'):
            for first in (0, 1, 2):
                yield (marks, sym, first)


def psm_check(env, case, ctx):
    from sudachipy.plugin.input_text import ProlongedSoundMarkInputTextPlugin
    marks, sym, first = case
    p = ProlongedSoundMarkInputTextPlugin({'prolongedSoundMarks': list(marks), 'replacementSymbol': sym})
    p.set_up()
    n = 0
    alphabet = (list(marks[:2]) + ['あ', '𠮷', 'ー'])[:4]
    alphabet = list(dict.fromkeys(alphabet))
    for t in itertools.chain([''], strings(alphabet, 6 if env.tier == 'quick' else 8), ['ー' * k + 'あ' + 'ー' * j for k in range(5) for j in range(40, 44)],
                             [''.join(marks) * 3, 'x' + ''.join(marks) + 'y' + ''.join(marks)]):
        if len(t) % 3 == first and t:
            n += compare(env.grammar, [p], [lambda ot: ref.prolonged_rewrite(ot, set(marks), sym)], t, 'marks %r' % (case,), ctx)
    ctx.count('states')
    ctx.outcome((case, n))


def psm_setup(tier):
    e = Env()
    e.tier = tier
    return e


# --- as configured: the analysed text of a tokenizer
WORDS = [entry('ー', -1, 0, 0)] + [entry('zz%d' % i, 0, 0, 0) for i in range(2)]
CFG_ALPHABET = ['ー', '〜', 'Ａ', '㍿', 'ｶ', 'ﾞ', '⼼', 'ｰ', 'あ']


def cfg_setup(tier):
    ignore, rep = ref.read_rewrite_def(resource('rewrite.def'))
    d = lambda ot: ref.default_rewrite(ot, ignore, rep)  # noqa
    p = lambda ot: ref.prolonged_rewrite(ot, set(W.MARKS), 'ー')  # noqa
    out = []
    for plugins, refs in (([], []), ([W.DEFAULT_PLUGIN], [d]), ([W.PSM_PLUGIN], [p]), ([W.DEFAULT_PLUGIN, W.PSM_PLUGIN], [d, p]),
                          ([W.PSM_PLUGIN, W.DEFAULT_PLUGIN], [p, d]), ([{'class': W.PSM_PLUGIN['class']}], [lambda ot: None]),
                          ([dict(W.PSM_PLUGIN, prolongedSoundMarks=['あ'], replacementSymbol='いう'), W.DEFAULT_PLUGIN],
                           [lambda ot: ref.prolonged_rewrite(ot, {'あ'}, 'いう'), d])):
        w = World(WORDS, simple=(0, 0, 100, POS_SYS[0]), lsize=1, rsize=1, input_plugins=plugins)
        dic = w.open()
        out.append((refs, dic, dic.create()))
    return out


def cfg_cases(tier):
    return strings(CFG_ALPHABET, 4 if tier == 'quick' else 5)


def cfg_check(env, case, ctx):
    for k, (refs, dic, tok) in enumerate(env):
        ot = ref.OffsetText(case)
        for r in refs:
            r(ot)
        got = ''.join(m.normalized_form() for m in tok.tokenize(case))
        if got != ot.text():
            raise Violation('configuration %d: %r is analysed as %r, expected %r' % (k, case, got, ot.text()))
        ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- long texts
LONG_PARTS = ['ー', 'Ａ', '㍿', 'ｶﾞ', 'あ', '⼼', '𠮷', 'ーあ', 'ーーＡ', '〜']


def longtext_cases(tier):
    top = 300 if tier == 'quick' else 2000
    for n in list(range(1, top + 1)) + [4095, 4096, 4097]:
        yield n


def longtext_check(env, case, ctx):
    from sudachipy.plugin.input_text import ProlongedSoundMarkInputTextPlugin
    n = case
    ps = ProlongedSoundMarkInputTextPlugin({'prolongedSoundMarks': W.MARKS, 'replacementSymbol': 'ー'})
    ps.set_up()
    d = lambda ot: ref.default_rewrite(ot, env.ignore, env.rep)  # noqa
    p = lambda ot: ref.prolonged_rewrite(ot, set(W.MARKS), 'ー')  # noqa
    texts = [x * n for x in LONG_PARTS] + ['あ' * n + 'ーー〜' + 'い' * n, 'ー' * n + 'あ' + '〜' * n + 'い', 'Ａ' + 'あ' * n + '㍿ｶﾞ', 'ｶ' * n + 'ﾞ']
    for t in texts if n <= 300 else texts[:1] + texts[-4:]:
        compare(env.grammar, [ps], [p], t, 'marks, size %d' % n, ctx)
        if n <= 300 or t == texts[-2]:
            default(env, t, ctx)
    ctx.count('states')
    ctx.outcome(n)


SECTIONS = [
    Section('code-points', cp_cases, cp_check, setup, 'every code point except surrogates, alone and in context'),
    Section('keys', key_cases, key_check, setup, 'every key of the shipped rewrite definition with every key and every continuation'),
    Section('texts', text_cases, text_check, setup, 'all texts up to 5 (thorough 6) over 12 characters of every class', block=64),
    Section('definitions', def_cases, def_check, def_setup,
            'all definitions of up to 2 (thorough 3) rules over 17 nested keys and 3 replacements, several exemptions, 74 texts each'),
    Section('odd-characters', odd_cases, odd_check, def_setup, 'definitions with 21 odd strings (number signs, quotes, escapes, byte order marks, ...) in keys and replacements, all pairs'),
    Section('marks', psm_cases, psm_check, psm_setup, 'mark sets x replacement symbols, all texts up to 6 (thorough 8)'),
    Section('long', longtext_cases, longtext_check, setup, '14 families of texts of every size up to 300 (thorough 2000) and around 4096', block=2),
    Section('configured', cfg_cases, cfg_check, cfg_setup, 'all texts up to 4 (thorough 5) over 9 characters, 7 plugin configurations of a tokenizer'),
]
