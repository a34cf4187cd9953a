"""C12: text edits keep a correct map to the original text."""
import itertools
import os

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings

PROPERTY = 'C12'
RULE = ('a case is one text with a sequence of replacements; the built input is compared position by position with a reference that '
        'keeps one origin per character')
ASSUMPTIONS = ['a deleted range belongs to the character that follows it (or ends with the text), so that morphemes still tile the text']
TEXTS = {1: ['a', 'あ', '𠮷'], 2: ['あé', '𠮷a', 'ab'], 3: ['aあ𠮷', '𠮷é漢', 'abc'], 4: ['aéあ𠮷', '𠮷𠮷アa', 'éAbカ'], 5: ['aéあ𠮷b', '漢ア𠮷ñA']}
NEW = ['', 'x', 'ñ', 'いう', '𠮷zé', '漢']


class Grammar:
    def __init__(self, d):
        from sudachipy.dictionarylib.charactercategory import CharacterCategory
        p = os.path.join(d, 'char.def')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(W.dump_char_def(W.RANGES, W.PROPS))
        self.cc = CharacterCategory()
        self.cc.read_character_definition(p)
        self.chardef = ref.CharDef(W.RANGES)

    def get_character_category(self):
        return self.cc


def setup(tier):
    d = Scratch.dir('c12')
    return Grammar(d)


def start(g, text):
    from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
    return UTF8InputTextBuilder(text, g), ref.OffsetText(text)


def verify(g, b, ot, text, what, ctx, deep=True):
    want = ot.text()
    if b.get_text() != want:
        raise Violation('%s: text is %r, expected %r' % (what, b.get_text(), want))
    if b.get_original_text() != text:
        raise Violation('%s: original text is %r' % (what, b.get_original_text()))
    it = b.build()
    raw = want.encode('utf-8')
    if it.get_text() != want or bytes(it.get_byte_text()) != raw or it.get_original_text() != text:
        raise Violation('%s: built texts %r' % (what, (it.get_text(), it.get_byte_text(), it.get_original_text())))
    starts, chars = [], []
    off = 0
    for i, c in enumerate(want):
        k = len(c.encode('utf-8'))
        starts.append(off)
        chars.extend([i] * k)
        off += k
    starts.append(off)
    chars.append(len(want))
    n = len(raw)
    for j in range(n + 1):
        if it.get_offset_text_length(j) != chars[j]:
            raise Violation('%s: %r: byte %d is in character %d, expected %d' % (what, want, j, it.get_offset_text_length(j), chars[j]))
        if it.get_original_index(j) != ot.origin[chars[j]]:
            raise Violation('%s: %r: byte %d maps to %d, expected %d' % (what, want, j, it.get_original_index(j), ot.origin[chars[j]]))
    if any(ot.origin[i] > ot.origin[i + 1] for i in range(len(want))) or ot.origin[-1] != len(text):
        raise Violation('%s: reference map' % what)
    if not deep or not want:
        return it
    ti = ref.TextInfo(want, g.chardef)
    for i in range(len(want)):
        a = starts[i]
        if it.can_bow(a) != ti.bow[i]:
            raise Violation('%s: %r: can_bow(%d) is %r' % (what, want, a, it.can_bow(a)))
        for j in range(a + 1, starts[i + 1]):
            if it.can_bow(j):
                raise Violation('%s: %r: a word may start inside a character (byte %d)' % (what, want, j))
        run = starts[i + ti.run[i]] - a
        if it.get_char_category_continuous_length(a) != run:
            raise Violation('%s: %r: category run at byte %d is %d, expected %d' % (
                what, want, a, it.get_char_category_continuous_length(a), run))
        got = {t.name for t in it.get_char_category_types(a)}
        if got != ti.cats[i]:
            raise Violation('%s: %r: categories of character %d are %r' % (what, want, i, got))
        k = i + 1
        while k < len(want) and not ti.bow[k]:
            k += 1
        if it.get_word_candidate_length(a) != starts[k] - a:
            raise Violation('%s: %r: word candidate at byte %d is %d long, expected %d' % (
                what, want, a, it.get_word_candidate_length(a), starts[k] - a))
        for k in range(0, len(want) - i + 1):
            e = starts[i + k]
            if it.code_point_count(a, e) != k:
                raise Violation('%s: %r: %d code points between %d and %d' % (what, want, it.code_point_count(a, e), a, e))
            if it.get_substring(a, e) != want[i:i + k]:
                raise Violation('%s: %r: substring %d-%d is %r' % (what, want, a, e, it.get_substring(a, e)))
            if it.get_code_points_offset_length(a, k) != e - a:
                raise Violation('%s: %r: %d characters from byte %d are %d bytes, expected %d' % (
                    what, want, k, a, it.get_code_points_offset_length(a, k), e - a))
            if k and k <= ti.run[i]:
                common = set(ti.cats[i])
                for x in range(i, i + k):
                    common &= ti.cats[x]
                got = {t.name for t in it.get_char_category_types(a, e)}
                if got != common:
                    raise Violation('%s: %r: common categories of %d-%d are %r, expected %r' % (what, want, a, e, got, common))
    return it


def ops(length, news=NEW):
    for b in range(length):
        for e in range(b + 1, length + 2):
            for s in news:
                yield (b, e, s)


def run_ops(g, text, seq, ctx, deep):
    b, ot = start(g, text)
    for o in seq:
        b.replace(*o)
        ot.replace(*o)
    verify(g, b, ot, text, '%r after %r' % (text, seq), ctx, deep)


# --- all sequences of one and two replacements
def two_cases(tier):
    for n in sorted(TEXTS):
        for text in TEXTS[n]:
            yield (text, None)
            for o in ops(n):
                yield (text, o)


def extend(length, o):
    return length - (min(o[1], length) - o[0]) + len(o[2])


def two_check(env, case, ctx):
    text, o = case
    if o is None:
        run_ops(env, text, (), ctx, True)
        ctx.count('transitions')
        return
    run_ops(env, text, (o,), ctx, True)
    n = extend(len(text), o)
    for o2 in ops(n):
        run_ops(env, text, (o, o2), ctx, True)
        ctx.count('transitions')
        ctx.count('states')
    ctx.outcome(case)


# --- all sequences of three (thorough: four on short texts)
def three_cases(tier):
    texts = ['aéあ𠮷', 'é𠮷漢', 'ab'] if tier == 'quick' else ['aéあ𠮷', 'é𠮷漢', 'ab', '𠮷漢あé', 'aあ𠮷bé']
    news = ['', 'x', '𠮷é', 'いうえ']
    for text in texts:
        for o in ops(len(text), news):
            n = extend(len(text), o)
            for o2 in ops(n, news):
                yield (text, o, o2)


def three_check(env, case, ctx):
    text, o, o2 = case
    n = extend(extend(len(text), o), o2)
    for o3 in ops(n, ['', 'x', '𠮷é', 'いうえ']):
        if o3[1] > n:
            continue
        run_ops(env, text, (o, o2, o3), ctx, False)
        ctx.count('transitions')
        ctx.count('states')
    ctx.outcome(case)


# --- left-to-right edit scripts: every subset of the characters of a longer text is replaced
def script_cases(tier):
    n = 9 if tier == 'quick' else 10
    text = 'aéあ𠮷bア漢ñc'[:n]
    for mask in range(3 ** n):
        s, m = [], mask
        for i in range(n):
            s.append(m % 3)
            m //= 3
        yield (text, tuple(s))


def script_check(env, case, ctx):
    text, s = case
    for direction in (1, -1):
        for news in (('', 'いう'), ('x𠮷', 'ñ')):
            b, ot = start(env, text)
            off = 0
            idx = range(len(text)) if direction == 1 else range(len(text) - 1, -1, -1)
            for i in idx:
                if s[i] == 0:
                    continue
                new = news[s[i] - 1]
                p = i + (off if direction == 1 else 0)
                b.replace(p, p + 1, new)
                ot.replace(p, p + 1, new)
                off += len(new) - 1
            verify(env, b, ot, text, '%r with %r %d' % (text, s, direction), ctx, False)
            ctx.count('transitions')
    ctx.count('states')


# --- arguments that are not a range
def bad_cases(tier):
    return itertools.product(range(-2, 6), range(-2, 6), ['', 'x', 'いう'])


def bad_check(env, case, ctx):
    b, e, s = case
    text = 'a𠮷あ'
    bl, ot = start(env, text)
    valid = 0 <= b < e and b < len(text)
    if b == len(text) and e > b:
        ctx.count('unspecified')        # an insertion after the end
        return
    try:
        bl.replace(b, e, s)
        ok = True
    except Exception:
        ok = False
    if ok != valid:
        raise Violation('replace(%d, %d, %r) on a text of 3 characters is %s' % (b, e, s, 'accepted' if ok else 'refused'))
    if ok:
        ot.replace(b, e, s)
    verify(env, bl, ot, text, 'replace%r' % (case,), ctx)
    # queries outside the text
    it = bl.build()
    n = len(it.get_byte_text())
    for x, y in ((-1, n), (0, n + 1), (n, 0) if n else (-1, 0)):
        try:
            it.get_substring(x, y)
        except IndexError:
            continue
        raise Violation('get_substring(%d, %d) of %d bytes is accepted' % (x, y, n))
    ctx.outcome((case, ok))
    ctx.count('states')


# --- category runs and word starts of all short texts
ALPH = ['a', 'é', 'α', 'я', 'あ', 'ア', '漢', '一', '々', '1', '𠮷', 'ー', ' ']


def run_cases(tier):
    return strings(ALPH, 5 if tier == 'quick' else 6)


def run_check(env, case, ctx):
    run_ops(env, case, (), ctx, True)
    ctx.count('states')
    ctx.count('transitions')
    ctx.outcome(case)


# --- long texts
def long_cases(tier):
    for n in (1, 127, 128, 255, 256, 1000, 4096):
        for c in ('a', 'é', 'あ', '𠮷', 'aあ𠮷é'):
            for where in (0, 1, 2):
                yield (n, c, where)


def long_check(env, case, ctx):
    n, c, where = case
    text = (c * n)[:n]
    p = [0, n // 2, n - 1][where]
    for new in ('', 'x', 'い' * 300, '𠮷' * 7):
        run_ops(env, text, ((p, p + 1, new),), ctx, False)
        run_ops(env, text, ((p, n, new),), ctx, False)
        run_ops(env, text, ((0, p + 1, new), (0, 1, 'é')) if new else ((0, p + 1, new),), ctx, False)
        ctx.count('transitions', 3)
    ctx.count('states')
    ctx.outcome(case)


# --- pairs of replacements whose lengths cancel (or differ by one), on every text length up to 140 (thorough 300)
def pair_cases(tier):
    for n in range(3, 141 if tier == 'quick' else 301):
        for c in ('aéあ𠮷', 'a', '漢'):
            yield (n, c)


def pair_check(env, case, ctx):
    n, c = case
    text = (c * n)[:n]
    grid = sorted({0, 1, 2, n // 2, n - 3, n - 2, n - 1})
    for i in grid:
        for j in grid:
            if abs(i - j) < 2 or max(i, j) + 1 > n:
                continue
            for cut, new in ((2, 'xñ'), (2, '𠮷いx'), (1, 'いう'), (2, 'x')):
                if i + cut > n or (i < j and i + cut > j) or (j < i and i + cut > n):
                    continue
                # first shrink at i, then grow at j (its position moves when it lies behind i)
                q = j - cut if j > i else j
                run_ops(env, text, ((i, i + cut, ''), (q, q + 1, new)), ctx, False)
                # the same with the growing one first
                q = i if j > i else i + len(new) - 1
                if not (j < i and q + cut > n + len(new) - 1):
                    run_ops(env, text, ((j, j + 1, new), (q, q + cut, '')), ctx, False)
                ctx.count('transitions', 2)
    ctx.count('states')
    ctx.outcome(case)


# --- every code point
def cp_cases(tier):
    for lo in range(0, 0x110000, 32):
        if not 0xd800 <= lo <= 0xdfff:
            yield lo


EDGES = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x10fffe, 0x10ffff, 0x61, 0xe9, 0xfffd, 0xfeff}


def cp_check(env, case, ctx):
    block = ''.join(chr(case + k) for k in range(32))
    run_ops(env, block, (), ctx, False)
    run_ops(env, 'aあ' + block[::2] + '𠮷' + block[1::2], ((1, 2, block[3:9]),), ctx, False)
    for k in range(32):
        if case + k in EDGES:
            c = chr(case + k)
            for text, seq in ((c, ()), (c + c, ()), ('あ' + c + 'a', ()), (c + 'é𠮷', ()), ('aあ𠮷', ((1, 2, c),)), ('aあ𠮷', ((0, 1, c + c), (2, 3, 'x'))),
                              (c + 'あ', ((0, 1, ''),)), ('あ' + c, ((0, 1, 'ñx'),))):
                run_ops(env, text, seq, ctx, True)
    ctx.count('states', 32)
    ctx.count('transitions', 2)
    ctx.outcome(case)


SECTIONS = [
    Section('two', two_cases, two_check, setup, 'all sequences of 0, 1 and 2 replacements on 14 texts up to 5 characters, 6 replacement strings, all queries'),
    Section('three', three_cases, three_check, setup, 'all sequences of 3 replacements (3 texts, thorough 5), 4 replacement strings'),
    Section('scripts', script_cases, script_check, setup, 'every choice of replaced characters of a text of 9 (thorough 10), both directions'),
    Section('arguments', bad_cases, bad_check, setup, 'every argument pair from -2 to 5'),
    Section('texts', run_cases, run_check, setup, 'all texts up to 5 (thorough 6) over 13 characters: categories, runs, word starts', block=64),
    Section('codepoints', cp_cases, cp_check, setup, 'every code point in a text, original and inserted by an edit', block=64),
    Section('pairs', pair_cases, pair_check, setup, 'a shrinking and a growing replacement, in both orders, at 7 x 7 places of every text length from 3 to 140 (thorough 300)'),
    Section('long', long_cases, long_check, setup, 'lengths 1..4096'),
]
