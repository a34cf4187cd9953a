"""C13: character categories are those of the definition file."""
import itertools
import os

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings
from . import c12

PROPERTY = 'C13'
RULE = ('a case is one definition file (or one block of code points / texts); the categories of every code point around every boundary '
        'are compared with the union over the ranges, computed range by range')
ASSUMPTIONS = ['a range line without any category adds nothing to its code points (their union is empty)']


def tmpdir(tier):
    return Scratch.dir('c13')


def load(d, text):
    from sudachipy.dictionarylib.charactercategory import CharacterCategory
    p = os.path.join(d, 'char.def')
    with open(p, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    cc = CharacterCategory()
    cc.read_character_definition(p)
    return cc


def names(cc, cp):
    return frozenset(t.name for t in cc.get_category_types(cp))


def union(ranges, cp):
    hit, s = False, set()
    for lo, hi, cats in ranges:
        if lo <= cp <= hi:
            hit = True
            s.update(cats)
    return frozenset(s) if hit else frozenset(['DEFAULT'])


def range_line(lo, hi, cats):
    return '0x%04X%s %s' % (lo, '' if lo == hi else '..0x%04X' % hi, ' '.join(cats))


def check_ranges(d, ranges, points, what, ctx, text=None):
    cc = load(d, text if text is not None else ''.join(range_line(*r) + '\n' for r in ranges))
    got = tuple(names(cc, cp) for cp in points)
    want = tuple(union(ranges, cp) for cp in points)
    ctx.count('transitions', len(points))
    if got != want:
        for cp, g, w in zip(points, got, want):
            if g != w:
                raise Violation('%s: %s: U+%04X has %r, expected %r' % (
                    what, '; '.join(range_line(*r) for r in ranges), cp, sorted(g), sorted(w)))
    return want


# --- all sequences of up to three (thorough four) ranges over a small domain
CATS2 = [('ALPHA',), ('KANJI',), ('ALPHA', 'KANJI')]


def seq_cases(tier):
    n = 4
    spans = [(lo, hi) for lo in range(n) for hi in range(lo, n)]
    items = [(lo, hi, c) for lo, hi in spans for c in range(3)]
    few = [(lo, hi, c) for lo, hi in spans for c in range(2)]
    yield ()
    for k in (1, 2, 3):
        yield from itertools.product(items, repeat=k)
    yield from itertools.product(few if tier == 'quick' else items, repeat=4)
    if tier != 'quick':
        for s in itertools.combinations_with_replacement(few, 5):
            yield s
            yield s[::-1]
            yield s[2:] + s[:2]


def seq_check(env, case, ctx):
    ranges = [(10 + lo, 10 + hi, CATS2[c]) for lo, hi, c in case]
    want = check_ranges(env, ranges, range(8, 16), 'ranges', ctx)
    ctx.outcome(want)
    ctx.count('states')


# --- all pairs of ranges around the interesting ends of the code space
def edge_cases(tier):
    for base in (0, 0x7d, 0xfd, 0x7fe, 0xd7fd, 0xfffd, 0xfffe, 0x10ffff - 4, 0x10ffff - 3):
        spans = [(lo, hi) for lo in range(4) for hi in range(lo, 4) if base + hi <= 0x10ffff]
        for a, b in itertools.product(spans, repeat=2):
            for wide in (0, 1):
                yield (base, a, b, wide)


def edge_check(env, case, ctx):
    base, a, b, wide = case
    ranges = [(base + a[0], base + a[1], ('HIRAGANA',)), (base + b[0], base + b[1], ('NUMERIC', 'KANJI'))]
    if wide:
        ranges.insert(1, (0, 0x10ffff, ('USER1',)))
    pts = [p for p in range(base - 2, base + 7) if 0 <= p <= 0x10ffff] + [0, 0x10ffff]
    ctx.outcome((case, check_ranges(env, ranges, pts, 'ranges', ctx)))
    ctx.count('states')


# --- deep nests and long lists
def deep_cases(tier):
    for n in (1, 2, 5, 10, 16, 17, 40):
        for shape in range(7):
            for rev in (0, 1, 2):
                yield (n, shape, rev)


def deep_check(env, case, ctx):
    n, shape, rev = case
    names_ = ref.CATEGORY_ORDER
    R = []
    for i in range(n):
        c = (names_[1 + i % 15],) if shape != 4 else (names_[1 + i % 15], names_[1 + (i * 3) % 15])
        lo, hi = {0: (100 + i, 300 - i), 1: (100 + i, 200 + i), 2: (100 + 3 * i, 101 + 3 * i), 3: (100 + 2 * i, 102 + 2 * i),
                  4: (100, 100 + i), 5: (100 + i, 150), 6: (100 + i % 3, 140 + i % 2)}[shape]
        R.append((min(lo, hi), max(lo, hi), c))
    if rev == 1:
        R = R[::-1]
    elif rev == 2:
        R = R[1::2] + R[0::2]
    ctx.outcome((case, check_ranges(env, R, range(95, 310), 'shape %r' % (case,), ctx)))
    ctx.count('states')


# --- how the file may be written
def form_cases(tier):
    sep = [' ', '\t', '   ', ' \t ']
    for s in sep:
        for hexf in ('0x%04X', '0x%x', '0x%06X'):
            for tail in ('', ' ', ' # comment', '\t#KANJI', ' #', '#x KANJI' if False else ' #x KANJI'):
                for eol in ('\n', '\r\n'):
                    for final in (0, 1):
                        for order in (0, 1):
                            yield (s, hexf, tail, eol, final, order)


def form_check(env, case, ctx):
    s, hexf, tail, eol, final, order = case
    ranges = [(0x41, 0x5a, ('ALPHA', 'USER2')), (0x50, 0x50, ('GREEK',)), (0x3042, 0x3044, ('HIRAGANA', 'NOOOVBOW', 'HIRAGANA')),
              (0x20000, 0x2a6df, ('KANJI',)), (0x50, 0x51, ('KANJINUMERIC',))]
    if order:
        ranges = ranges[::-1]
    lines = ['# 0x41 KANJI', '', 'ALPHA 1 1 0', 'DEFAULT 0 1 0 # text', '   ']
    for lo, hi, c in ranges:
        lines.append((hexf % lo) + ('' if lo == hi else '..' + hexf % hi) + s + s.join(c) + tail)
        lines.append('#0x0041 SPACE')
    text = eol.join(lines) + (eol if final else '')
    pts = [0x40, 0x41, 0x4f, 0x50, 0x51, 0x52, 0x5a, 0x5b, 0x3041, 0x3042, 0x3044, 0x3045, 0x1ffff, 0x20000, 0x2a6df, 0x2a6e0, 0x61]
    ctx.outcome((case, check_ranges(env, ranges, pts, 'format %r' % (case,), ctx, text)))
    ctx.count('states')


# --- every set of categories
def name_cases(tier):
    return range(1, 1 << 16, 1)


def name_check(env, case, ctx):
    c = tuple(n for i, n in enumerate(ref.CATEGORY_ORDER) if case >> i & 1)
    check_ranges(env, [(0x61, 0x63, c), (0x63, 0x64, ('SPACE',))], range(0x60, 0x66), 'categories', ctx)
    check_ranges(env, [(0x61, 0x63, c[::-1]), (0x62, 0x62, c)], range(0x60, 0x65), 'categories', ctx)
    ctx.outcome(case)
    ctx.count('states')


# --- files that must be refused
BAD = ['0x0041', '0x0043..0x0041 ALPHA', '0x0041 NOSUCH', '0x0041 ALPHA kanji', '0x0041..0x0043 ALPHA DEFAUL', '0xZZ ALPHA', 'ALPHA']


def bad_cases(tier):
    for line in BAD:
        for where in range(3):
            yield (line, where)


def bad_check(env, case, ctx):
    line, where = case
    lines = ['ALPHA 1 1 0', '0x0061..0x0063 ALPHA']
    lines.insert(where, line)
    try:
        load(env, '\n'.join(lines) + '\n')
    except Exception:
        ctx.outcome(case)
        ctx.count('transitions')
        ctx.count('states')
        return
    raise Violation('the definition line %r is accepted' % line)


# --- the shipped definition, every code point
def ship_setup(tier):
    import sudachipy
    from sudachipy.dictionarylib.charactercategory import CharacterCategory
    p = os.path.join(os.path.dirname(sudachipy.__file__), 'resources', 'char.def')
    cc = CharacterCategory()
    cc.read_character_definition(p)
    return cc, ref.parse_char_def(p)[0]


def ship_cases(tier):
    return range(0, 0x110000, 256)


def ship_check(env, case, ctx):
    cc, ranges = env
    here = [r for r in ranges if r[0] <= case + 255 and r[1] >= case]
    for cp in range(case, case + 256):
        got, want = names(cc, cp), union(here, cp)
        if got != want:
            raise Violation('U+%04X has %r, expected %r' % (cp, sorted(got), sorted(want)))
    ctx.count('transitions', 256)
    ctx.count('states', 256)
    ctx.outcome((case, len(here)))


# --- word starts and category runs: characters of every small set of categories
RUN_SETS = [('ALPHA',), ('GREEK',), ('KANJI',), ('ALPHA', 'GREEK'), ('ALPHA', 'KANJI'), ('KANJI', 'NUMERIC'), ('NUMERIC',),
            ('ALPHA', 'KANJI', 'NUMERIC'), ('CYRILLIC', 'NOOOVBOW'), ('CYRILLIC',), ('NOOOVBOW', 'KATAKANA'), ('KATAKANA',)]
RUN_CHARS = ['a', 'é', 'あ', '𠮷', 'b', 'ñ', 'い', '𠮸', 'c', 'ö', 'う', '𠮹']


def run_setup(tier):
    g = c12.Grammar.__new__(c12.Grammar)
    ranges = [(ord(c), ord(c), s) for c, s in zip(RUN_CHARS, RUN_SETS)]
    g.cc = load(Scratch.dir('c13r'), ''.join(range_line(*r) + '\n' for r in ranges))
    g.chardef = ref.CharDef(ranges)
    return g


def run_cases(tier):
    return strings(RUN_CHARS + ['z'], 5 if tier == 'quick' else 6)


def run_check(env, case, ctx):
    c12.run_ops(env, case, (), ctx, True)
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- long runs
def longrun_cases(tier):
    sizes = (7, 20, 33) if tier == 'quick' else (7, 20, 33, 70)
    for i in range(len(RUN_CHARS) + 1):
        for j in range(len(RUN_CHARS) + 1):
            for n in sizes:
                if tier == 'thorough' or n < 20 or (i + j) % 4 == 0:
                    yield (i, j, n)


def longrun_check(env, case, ctx):
    i, j, n = case
    chars = RUN_CHARS + ['z']
    c12.run_ops(env, chars[i] * n + chars[j] * 3 + chars[i], (), ctx, True)
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


SECTIONS = [
    Section('sequences', seq_cases, seq_check, tmpdir,
            'all sequences of up to 3 ranges over 4 code points and 3 category sets, of 4 ranges with one category each (thorough: any; sets of 5 in three orders)', block=64),
    Section('edges', edge_cases, edge_check, tmpdir, 'all pairs of ranges at 9 places of the code space, with and without one that covers everything'),
    Section('nests', deep_cases, deep_check, tmpdir, 'up to 40 nested, shifted, adjacent, equal and interleaved ranges in three orders'),
    Section('formats', form_cases, form_check, tmpdir, 'separators x number formats x trailing comments x line ends'),
    Section('categories', name_cases, name_check, tmpdir, 'every set of the 16 categories'),
    Section('refused', bad_cases, bad_check, tmpdir, 'ill-formed definitions'),
    Section('shipped', ship_cases, ship_check, ship_setup, 'every code point with the shipped definition'),
    Section('runs', run_cases, run_check, run_setup, 'all texts up to 5 (thorough 6) over 13 characters with overlapping category sets', block=64),
    Section('long-runs', longrun_cases, longrun_check, run_setup, 'runs of 7, 20 and 33 (thorough: 70) characters followed by others', block=4),
]
