"""C17: numeric joining rewrites exactly the numerals in a text."""
import itertools
import unicodedata

from .. import ref, world as W
from ..core import Section, Violation
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS, observe

PROPERTY = 'C17'
RULE = ('a case is one text; it is analysed by the same configuration without and with the joining plugin and the second result is derived '
        'from the first by the specification, morpheme by morpheme and attribute by attribute')
ASSUMPTIONS = ['a run of numeral characters and separators that is not well formed as a whole (after trailing separators are set aside), or whose '
               ' first word is not tagged as a numeral, may be joined in part: then every joined morpheme is a union of neighbouring words that spell a numeral, with its value']

NUM = ('名詞', '数詞', '*', '*', '*', '*')
CHARS = ['1', '0', '5', '二', '千', '万', ',', '.', '円', 'a']


def single(cs='0123456789一二三五六十百千万億,.', **k):
    return [entry(c, 1, 1, 10, pos=2 if c in ',.' else 1, reading='ヨミ' + c, syn=[3], **k) for c in cs]


def worlds():
    base = dict(lsize=3, rsize=3, matrix={(1, 2): 5, (2, 1): -5, (1, 1): 1}, simple=(0, 0, 900, POS_SYS[0]))
    yen = [entry('円', 2, 2, 10), entry('a', 2, 2, 10)]
    plug = W.NUMERIC_PLUGIN
    off = dict(plug, enableNormalize=False)
    out = {}
    out['single'] = (dict(system=single() + yen, **base), plug)
    # several characters per word, words that cross the numeral's end, homographs
    multi = [entry('10', 1, 1, -30, pos=1), entry('千万', 1, 1, -20, pos=1, a=[13, 14]), entry('万円', 2, 2, -15), entry('5円', 2, 2, -40), entry('a1', 2, 2, -40),
             entry('1.5', 1, 1, -60, pos=1), entry(',5', 1, 1, -20, pos=2), entry('二千', 1, 1, -8, pos=0), entry('..', 1, 1, -30, pos=2),
             entry('50', 1, 1, -50, pos=1, norm='五〇'), entry('00', 1, 1, -50, pos=1, norm='zero'), entry('0,', 1, 1, -32, pos=1, norm='0'), entry('円5', 1, 1, -60)]
    out['multi'] = (dict(system=single() + yen + multi, **base), plug)
    # unknown digits, grouped
    unk = [('NUMERIC', 1, 1, 100, NUM), ('KANJINUMERIC', 1, 1, 100, NUM), ('SYMBOL', 2, 2, 60, POS_SYS[2]), ('DEFAULT', 0, 0, 100, POS_SYS[2]),
           ('ALPHA', 0, 0, 100, POS_SYS[0]), ('KANJI', 0, 0, 130, POS_SYS[0])]
    ungrouped = dict(W.PROPS, SYMBOL=(True, False, 1))
    out['unknown'] = (dict(system=[entry('円', 2, 2, 10), entry('5', 1, 1, 20, pos=1)], unk=unk, props=ungrouped, **base), plug)
    out['off'] = (dict(system=single(norm=None) + yen + [entry('10', 1, 1, -30, pos=1, norm='一〇'), entry('万', 1, 1, 0, pos=1, norm='まん')], **base), off)
    # words of other parts of speech among the numerals; no numeral part of speech at all
    other = [entry(c, 1, 1, 5, pos=k) for c, k in (('二', 4), ('5', 0), ('千', 3))]
    # words whose dictionary form is another entry's surface
    # and whose surface has another length than the headword
    forms = [dict(e, dform=(i * 7 + 3) % len(single()), surface=['数', e['head'] * 2, e['head']][i % 3]) for i, e in enumerate(single())]
    out['pos'] = (dict(system=single() + yen + other, **base), plug)
    out['forms'] = (dict(system=forms + yen, **base), plug)
    nopos = [p for p in POS_SYS if p != NUM]
    out['nopos'] = (dict(system=[dict(e, pos=0) for e in single() + yen], pos_list=nopos, lsize=3, rsize=3, matrix={},
                         simple=(0, 0, 900, POS_SYS[0])), plug)
    # a user dictionary that gives strange normalized forms and separators
    user = [entry('千', 1, 1, -90, pos=1, norm='1000'), entry('.', 1, 1, -90, pos=1, norm='・'), entry('万', 1, 1, -90, pos=1, norm=',0'),
            entry('a', 1, 1, -90, pos=1, norm='.'), entry('円', 1, 1, -90, pos=1, norm=','), entry('二', 1, 1, -90, pos=1, norm='0.5'), entry('00', 1, 1, -900, pos=1, norm='.0')]
    out['norms'] = (dict(system=single() + yen, users=[(user, [])], **base), plug)
    return out


WIDE = str.maketrans('105,.a', '１０５，．ａ')
LABELS = sorted(worlds()) + ['wide']


class Env:
    pass


def setup(tier):
    env = Env()
    env.w = {}
    ws = worlds()
    ws['wide'] = ({**ws['single'][0], 'input_plugins': [W.DEFAULT_PLUGIN]}, ws['single'][1])
    for label, (kw, plug) in ws.items():
        a, b = World(**kw), World(path_plugins=[plug], **kw)
        da, db = a.open(), b.open()
        env.w[label] = (a, plug.get('enableNormalize', True), da, da.create(), db, db.create())
    env.cd = ref.CharDef(W.RANGES)
    env.modes = W.modes()
    return env


def numeric_word(env, m):
    """m: (surface of the analysed text, normalized form)"""
    s, norm = m
    if norm in (',', '.'):
        return True
    cats = frozenset.intersection(*[frozenset(env.cd.cats(c)) for c in s])
    return 'NUMERIC' in cats or 'KANJINUMERIC' in cats


def view(m):
    return (m.begin(), m.end(), m.surface(), tuple(m.part_of_speech()), m.normalized_form(), m.dictionary_form(), m.reading_form(), tuple(m.synonym_group_ids()))


def joined(ms, value):
    """what one morpheme for the words ms reads as"""
    return (ms[0].begin(), ms[-1].end(), ''.join(m.surface() for m in ms), tuple(ms[0].part_of_speech()),
            ''.join(m.normalized_form() for m in ms) if value is None else value,
            ''.join(m.dictionary_form() for m in ms), ''.join(m.reading_form() for m in ms), ())


def value_of(s):
    v = ref.numeral_value(s)
    return None if v is None else ref.plain_decimal(*v)


def check_text(env, label, text, ctx, modes='C'):
    w, normalize, da, ta, db, tb = env.w[label]
    base = list(ta.tokenize(text, env.modes['C']))
    got = list(tb.tokenize(text, env.modes['C']))
    norms = [m.normalized_form() for m in base]
    num = [numeric_word(env, (unicodedata.normalize('NFKC', m.surface()) if label == 'wide' else m.surface(), n)) for m, n in zip(base, norms)]
    bad = lambda why: Violation('%s: %r: %s; words %r, result %r' % (  # noqa: E731
        label, text, why, [m.surface() for m in base], [(m.surface(), m.normalized_form()) for m in got]))
    gi = 0
    i = 0
    n = len(base)

    def same(k):
        nonlocal gi
        if gi >= len(got) or observe(got[gi]) != observe(base[k]):
            raise bad('word %d (%r) is not as it was' % (k, base[k].surface()))
        gi += 1

    def one(b, e, value, must):
        """words b..e-1 as one morpheme"""
        nonlocal gi
        if e - b == 1 and (not normalize or value == norms[b]):
            return same(b)
        want = joined(base[b:e], value if normalize else None)
        if gi >= len(got) or view(got[gi]) != want:
            raise bad('words %d to %d should read %r%s' % (b, e - 1, want, '' if gi >= len(got) else ', not %r' % (view(got[gi]),)))
        info = got[gi].get_word_info()
        if info.head_word_length != sum(m.get_word_info().head_word_length for m in base[b:e]) or info.surface != ''.join(
                m.get_word_info().surface for m in base[b:e]):
            raise bad('the joined morpheme does not have the length and surface of its words')
        gi += 1
        ctx.count('joined')
    while i < n:
        if not num[i]:
            same(i)
            i += 1
            continue
        j = i
        while j < n and num[j]:
            j += 1
        e = j
        while e > i and norms[e - 1] in (',', '.'):
            e -= 1
        value = value_of(''.join(norms[i:e])) if e > i else None
        if e == i:
            for k in range(i, j):
                same(k)
        elif value is not None and tuple(base[i].part_of_speech()) == NUM:
            one(i, e, value, True)
            for k in range(e, j):
                same(k)
        else:
            ctx.count('loose_runs')
            k = i
            while k < j:
                if gi >= len(got):
                    raise bad('morphemes are missing')
                g = got[gi]
                e = k + 1
                while e < j and base[e - 1].end() < g.end():
                    e += 1
                if g.begin() != base[k].begin() or base[e - 1].end() != g.end():
                    raise bad('%r is not a union of neighbouring words' % g.surface())
                if e - k == 1 and observe(g) == observe(base[k]):
                    gi += 1
                else:
                    v = value_of(''.join(norms[k:e]))
                    if v is None or tuple(base[k].part_of_speech()) != NUM:
                        raise bad('%r was joined' % g.surface())
                    one(k, e, v, False)
                k = e
        i = j
    if gi != len(got):
        raise bad('there are more morphemes')
    ctx.count('transitions', n)
    # the joined morphemes stay as they are in the shorter modes
    for mn in modes:
        if mn == 'C':
            continue
        md = env.modes[mn]
        part = [o for m in got for o in ([observe(m)] if not m.get_word_info().a_unit_split and not m.get_word_info().b_unit_split
                                         else [observe(x) for x in m.split(md)])]
        res = [observe(m) for m in tb.tokenize(text, md)]
        if part != res:
            raise bad('mode %s gives %r' % (mn, [o[2] for o in res]))
    return tuple(view(m)[:5] for m in got)


def text_cases(tier):
    n = 4 if tier == 'quick' else 5
    for s in strings(CHARS, n):
        yield s
    few = ['1', '0', ',', '.', '万', '円'] if tier == 'quick' else ['1', '0', '千', ',', '.', '円', '万']
    for k in ((5, 6) if tier == 'quick' else (6, 7)):
        for t in itertools.product(few, repeat=k):
            if k < 6 or tier != 'quick' or t[0] != '円' or True:
                yield ''.join(t)


def text_check(env, case, ctx):
    labels = LABELS if len(case) <= 5 else ['single', 'unknown']
    for label in labels:
        s = case.translate(WIDE) if label == 'wide' else case
        o = check_text(env, label, s, ctx, 'CAB' if len(case) <= 3 else 'C')
        ctx.count('analyses')
        ctx.outcome((label, o) if len(case) < 5 else o)


# --- long texts: numerals between words
PIECES = ['1,234,567.5', '12万3千', '1.', ',', '一億二千万', '0.50', 'a', '円', '1,00', '百', '5,5', '2,000', '...', '0', '円円', '1千2百3十4']


def long_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield from itertools.product(range(len(PIECES)), repeat=n)


def long_check(env, case, ctx):
    s = ''.join(PIECES[k] for k in case)
    for label in LABELS:
        ctx.outcome(check_text(env, label, s.translate(WIDE) if label == 'wide' else s, ctx, 'CA'))
        ctx.count('analyses')


# --- a numeral of the grammar between two neighbours is always one morpheme with its value (no reference run)
def exact_cases(tier):
    for s in strings(['1', '0', '五', '十', '千', '万', ',', '.'], 4 if tier == 'quick' else 6):
        if ref.numeral_value(s) is not None:
            yield s


def exact_check(env, case, ctx):
    w, normalize, da, ta, db, tb = env.w['single']
    for pre, post in (('', ''), ('円', '円'), ('a', ','), ('', '.'), ('円', 'a'), ('円', '.円'), ('', ',a'), ('円', '..'), ('a', ',,')):
        ms = list(tb.tokenize(pre + case + post))
        hit = [m for m in ms if m.begin() == len(pre)]
        if len(hit) != 1 or hit[0].end() != len(pre) + len(case) or hit[0].normalized_form() != value_of(case) or tuple(hit[0].part_of_speech()) != NUM:
            raise Violation('%r in %r is analysed as %r' % (case, pre + case + post, [(m.surface(), m.normalized_form()) for m in ms]))
        if ''.join(m.surface() for m in ms) != pre + case + post or len(ms) != 1 + len(pre) + len(post):
            raise Violation('%r: %r' % (pre + case + post, [m.surface() for m in ms]))
        ctx.count('transitions')
    ctx.outcome(case)


# --- numerals of every length
def length_cases(tier):
    top = 140 if tier == 'quick' else 600
    for n in list(range(1, top + 1)):
        for kind in range(7):
            yield (n, kind)


def length_check(env, case, ctx):
    n, kind = case
    body = ''.join('1234567890'[(i * 7) % 10] for i in range(n))
    s = [body,
         '1.' + body,
         ('1' if n % 3 != 1 else '') + ','.join([body[:n % 3]] * bool(n % 3) + ['000'] * 0 + [('%03d' % ((i * 37) % 1000)) for i in range(n // 3)]) if n % 3 else
         '1,' + ','.join('%03d' % ((i * 37) % 1000) for i in range(n // 3)),
         '1' * n + '万' + '千',
         '円'.join(['1,000'] * n),
         '5' + ',' * n,
         '一' * n + '億2千'][kind]
    for label in ('single', 'multi', 'unknown', 'off', 'wide'):
        t = s.translate(WIDE) if label == 'wide' else s
        ctx.outcome((label, len(check_text(env, label, t, ctx))))
        ctx.outcome((label, check_text(env, label, '円' + t + '円', ctx)))
        ctx.count('analyses', 2)


SECTIONS = [
    Section('texts', text_cases, text_check, setup, 'all texts up to 4 (thorough 5) over 10 characters, up to 6 (7) over 6 (7), in 8 configurations', block=64),
    Section('pieces', long_cases, long_check, setup, 'all sequences of up to 3 (thorough 4) of 16 pieces'),
    Section('lengths', length_cases, length_check, setup, 'seven kinds of numerals of every length up to 140 (thorough 600) words', block=4),
    Section('exact', exact_cases, exact_check, setup, 'every well-formed numeral up to 4 (thorough 6) characters over 8, between 9 pairs of neighbours'),
]
