"""C18: Katakana joining affects only unknown or short Katakana."""
import itertools

from .. import ref, world as W
from ..core import Section, Violation
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS, observe

PROPERTY = 'C18'
RULE = ('a case is one lexicon and text (or a text in all fixed configurations); it is analysed without and with the joining plugin and the second result is '
        'derived from the first by the specification; the candidates over a joined range come from the reference lattice')
ASSUMPTIONS = ['when the words over a joined range tie for the lowest cost, any of them may be chosen']

JOINPOS = POS_SYS[4]


def plugin(minlen):
    p = {'class': W.KATAKANA_PLUGIN['class'], 'oovPOS': list(JOINPOS)}
    if minlen is not None:
        p['minLength'] = minlen
    return p


UNK = [('KATAKANA', 1, 1, 300, POS_SYS[0]), ('DEFAULT', 0, 0, 400, POS_SYS[2]), ('KANJI', 1, 1, 350, POS_SYS[0])]
KEEP = dict(W.PROPS, KATAKANA=(True, True, 2))
SHORT = dict(W.PROPS, KATAKANA=(True, False, 1))
LATE = dict(W.PROPS, KATAKANA=(False, True, 2))


def configs():
    """label -> (World arguments, minimum length)"""
    words = [entry('ア', 1, 1, 50, reading='a', syn=[4]), entry('イ', 2, 2, 60), entry('アイ', 1, 1, 80, norm='愛'), entry('あ', 2, 2, 10), entry('漢', 2, 2, 10, surface='k'),
             entry('イア', 2, 2, 95, surface='いあx'), entry('アイア', 1, 1, 900), entry('アイア', 2, 2, 800, pos=3, norm='別'), entry('アあ', 1, 1, 20), entry('ァ', 1, 1, 70, surface='アア'),
             entry('ー', 1, 1, 100), entry('イー', 1, 1, 60, a=[1, 10], b=[1, 10])]
    m = {(1, 2): 30, (2, 1): -20, (1, 1): 5, (2, 2): 5}
    base = dict(lsize=3, rsize=3, matrix=m, simple=(0, 0, 700, POS_SYS[2]))
    out = {}
    for n in (None, 0, 1, 2, 3, 4):
        out['full-%s' % n] = (dict(system=words, **base), n)
    out['unknown-2'] = (dict(system=words[3:5], unk=UNK, props=KEEP, **base), 2)
    out['short-1'] = (dict(system=words[3:8], unk=UNK, props=SHORT, **base), 1)
    out['short-3'] = (dict(system=words[2:8], unk=UNK, props=SHORT, **base), 3)
    out['late-2'] = (dict(system=words[:1] + words[3:10], unk=UNK, props=LATE, **base), 2)
    out['users-3'] = (dict(system=words[:5], users=[([entry('アイ', 1, 1, -100), entry('アイイ', 1, 1, 400, norm='user')], []),
                                                       ([entry('アイイ', 1, 1, 300, pos=6)], [('名詞', '固有名詞', '人名', '一般', '*', '*')])], **base), 3)
    out['inhibited-3'] = (dict(system=[dict(e, left=2) for e in words if e['head'] != 'アイア'] + [entry('アイア', 1, 1, 10)], lsize=3, rsize=3,
                               matrix={(0, 1): 0x7fff, (1, 1): 5}, simple=(2, 2, 700, POS_SYS[2])), 3)
    return out


class Env:
    pass


def pair(kw, minlen, extra=()):
    a = World(**kw)
    b = World(path_plugins=list(extra) + [plugin(minlen)], **kw)
    if extra:
        a = World(path_plugins=list(extra), **kw)
    da, db = a.open(), b.open()
    return (a.model(), 1 if minlen is None else minlen, da, da.create(), db, db.create())


def katakana(model, s):
    return all('KATAKANA' in model.chardef.cats(c) for c in s)


def oov_view(base, s, pos):
    return (base[0].begin(), base[-1].end(), ''.join(m.surface() for m in base), tuple(pos), s, s, '', True, -1, ())


def view(m):
    return (m.begin(), m.end(), m.surface(), tuple(m.part_of_speech()), m.normalized_form(), m.dictionary_form(), m.reading_form(),
            bool(m.is_oov()), m.dictionary_id(), tuple(m.synonym_group_ids()))


def check_text(p, text, ctx, what, mtext=None, pos=JOINPOS):
    """mtext: the text as analysed; pos: part of speech of joined unknown words"""
    model, minlen, da, ta, db, tb = p
    mtext = text if mtext is None else mtext
    base = list(ta.tokenize(text))
    got = list(tb.tokenize(text))

    def bad(why):
        return Violation('%s: %r: %s; words %r, result %r' % (what, text, why, [(m.surface(), bool(m.is_oov())) for m in base],
                                                                [(m.surface(), m.dictionary_id()) for m in got]))
    raw, at, o = mtext.encode('utf-8'), [0], 0
    for m in base:
        o += m.get_word_info().head_word_length
        at.append(len(raw[:o].decode('utf-8')))
    if o != len(raw):
        raise bad('the words do not cover the text')
    parts = [mtext[x:y] for x, y in zip(at, at[1:])]
    kat = [bool(s) and katakana(model, s) for s in parts]
    gi = i = 0
    n = len(base)
    cands = None
    while i < n:
        j = i
        while j < n and kat[j]:
            j += 1
        b = j
        if any(base[k].is_oov() or len(parts[k]) < minlen for k in range(i, j)):
            b = i
            while b < j and 'NOOOVBOW' in model.chardef.cats(parts[b][0]):
                b += 1
        join = j - b > 1
        stop = b if join else max(j, i + 1)
        for k in range(i, stop):
            if gi >= len(got) or observe(got[gi]) != observe(base[k]):
                raise bad('word %d (%r) is not as it was' % (k, parts[k]))
            gi += 1
        i = max(j, i + 1)
        if not join:
            continue
        if gi >= len(got):
            raise bad('morphemes are missing')
        g = got[gi]
        gi += 1
        if (g.begin(), g.end()) != (base[b].begin(), base[j - 1].end()):
            raise bad('words %d to %d should be one morpheme' % (b, j - 1))
        cands = model.candidates(mtext) if cands is None else cands
        over = [c for c in cands.get(at[b], ()) if c.e == at[j]]
        if over:
            low = min(c.cost for c in over)
            ok = False
            for c in over:
                if c.cost != low:
                    continue
                if c.oov:
                    ok = ok or (g.is_oov() and tuple(g.part_of_speech()) == tuple(c.pos))
                else:
                    e = model.lexicons[c.did][c.wid]
                    ok = ok or (not g.is_oov() and g.dictionary_id() == c.did and g.word_id() & 0xfffffff == c.wid and
                                g.normalized_form() == e['norm'] and g.reading_form() == e['reading'])
            if not ok:
                raise bad('words %d to %d: the morpheme (%r, dictionary %d, word %d) is not the cheapest of the candidates %r' % (
                    b, j - 1, g.normalized_form(), g.dictionary_id(), g.word_id(), over))
            ctx.count('existing')
        else:
            s = ''.join(m.get_word_info().surface for m in base[b:j])
            if view(g) != oov_view(base[b:j], s, pos):
                raise bad('words %d to %d should read %r, not %r' % (b, j - 1, oov_view(base[b:j], s, pos), view(g)))
            if g.get_word_info().head_word_length != sum(m.get_word_info().head_word_length for m in base[b:j]):
                raise bad('the joined morpheme has a wrong length')
            ctx.count('joined')
    if gi != len(got):
        raise bad('there are more morphemes')
    ctx.count('transitions', n)
    ctx.count('analyses')
    return tuple(observe(m)[:3] + observe(m)[8:11:2] for m in got)


# --- all texts in fixed configurations
CHARS = ['ア', 'イ', 'ァ', 'ー', 'あ', '漢']


def text_setup(tier):
    env = Env()
    env.p = {label: pair(kw, n) for label, (kw, n) in configs().items()}
    return env


def text_cases(tier):
    yield from strings(CHARS, 5 if tier == 'quick' else 7)


def stretch_cases(tier):
    # known, unknown and other words: stretches before and behind one that is joined
    for n in range(6, (8 if tier == 'quick' else 10) + 1):
        for t in itertools.product('アイあ', repeat=n):
            yield ''.join(t)


def stretch_setup(tier):
    base = dict(lsize=3, rsize=3, matrix={}, simple=(0, 0, 700, POS_SYS[2]))
    words = [entry('ア', 1, 1, 50), entry('あ', 2, 2, 10), entry('漢', 2, 2, 10)]
    env = Env()
    env.p = {'stretches-%d' % n: pair(dict(system=words, **base), n) for n in (1, 2)}
    env.p['stretches-u'] = pair(dict(system=words + [entry('アアア', 1, 1, 20)], unk=UNK, props=dict(W.PROPS, KATAKANA=(True, False, 1)), **base), 1)
    return env


def text_check(env, case, ctx):
    for label, p in env.p.items():
        ctx.outcome((label, check_text(p, case, ctx, label)))


# --- all lexicons over short Katakana words
WORDS = ['ア', 'イ', 'アイ', 'イア', 'アイア', 'イー', 'ーア', 'アア']
LEXTEXTS = {'quick': 4, 'thorough': 5}


def lex_cases(tier):
    for mask in range(1 << len(WORDS)):
        for minlen in ((2, 3) if tier == 'quick' else (1, 2, 3)):
            for unk in (0, 1):
                yield (mask, minlen, unk, LEXTEXTS[tier])


def lex_setup(tier):
    env = Env()
    env.texts = {n: list(strings(['ア', 'イ', 'ー', 'あ'], n)) for n in set(LEXTEXTS.values())}
    return env


def lex_check(env, case, ctx):
    mask, minlen, unk, n = case
    ws = [entry(w, 1 + len(w) % 2, 1 + len(w) % 2, 100 * len(w) - 30 * i) for i, w in enumerate(WORDS) if mask >> i & 1] or [entry('亜')]
    kw = dict(system=ws, lsize=3, rsize=3, matrix={(1, 2): 90, (2, 2): -90}, simple=(0, 0, 350, POS_SYS[2]))
    if unk:
        kw.update(unk=UNK, props=SHORT if mask & 1 else KEEP)
    p = pair(kw, minlen)
    for t in env.texts[n]:
        ctx.outcome((case[:3], check_text(p, t, ctx, 'lexicon %r' % [w['head'] for w in ws])))


# --- Katakana of one to four bytes
WIDE = ['k', 'é', 'ア', '\U0001b000', 'あ']


def width_setup(tier):
    env = Env()
    env.p = {}
    ranges = [(ord(c), ord(c), ['KATAKANA']) for c in WIDE[:2] + WIDE[3:4]] + [(ord('x'), ord('x'), ['NOOOVBOW', 'KATAKANA'])]
    words = [entry(a, 1, 1, 30) for a in WIDE] + [entry(a + b, 1, 1, 45 + i) for i, (a, b) in enumerate(itertools.product(WIDE[:4], repeat=2))] + [
        entry(a * 3, 1, 1, 50) for a in WIDE[:4]]
    kw = dict(lsize=3, rsize=3, matrix={}, simple=(0, 0, 700, POS_SYS[2]), ranges=ranges + [r for r in W.RANGES if not any(r[0] <= ord(c) <= r[1] for c in 'kéx')] + [
        (ord('a'), ord('j'), ['ALPHA'])])
    for n in range(1, 8):
        env.p['widths-%d' % n] = pair(dict(system=words, **kw), n)
    for n in (1, 2, 3):
        env.p['widths-unknown-%d' % n] = pair(dict(system=words[2:6], **kw), n)
    return env


def width_cases(tier):
    yield from strings(WIDE, 4 if tier == 'quick' else 6)
    for n in (5, 6, 7) if tier == 'quick' else (7, 8):
        for t in itertools.product((WIDE[2], WIDE[3]), repeat=n):
            yield ''.join(t)


# --- texts that the input plugins rewrite
UNITS = [('ｱ', 'ア'), ('ｶﾞ', 'ガ'), ('ア', 'ア'), ('㍍', 'メートル'), ('あ', 'あ'), ('Ａ', 'a'), ('-', '-'), ('ガ', 'ガ'), ('ｰ', 'ー')]


def rewr_setup(tier):
    words = [entry('ア', 1, 1, 50), entry('ガ', 1, 1, 50), entry('アガ', 1, 1, 80), entry('メートル', 1, 1, 50), entry('a', 1, 1, 0), entry('あ', 1, 1, 0)]
    env = Env()
    env.p = []
    for n in (1, 2, 3):
        for sub in (words, words[4:], words[:1] + words[3:]):
            env.p.append(pair(dict(system=sub, lsize=2, rsize=2, simple=(0, 0, 500, POS_SYS[2]), input_plugins=[W.DEFAULT_PLUGIN]), n))
    return env


def rewr_cases(tier):
    for n in range(1, (3 if tier == 'quick' else 5) + 1):
        yield from itertools.product(range(len(UNITS)), repeat=n)


def rewr_check(env, case, ctx):
    text = ''.join(UNITS[k][0] for k in case)
    mtext = ''.join(UNITS[k][1] for k in case)
    for k, p in enumerate(env.p):
        ctx.outcome((k, check_text(p, text, ctx, 'rewritten (%d)' % k, mtext)))


# --- together with numeric joining
def both_setup(tier):
    env = Env()
    words = [entry('1', 1, 1, 0, pos=1), entry('0', 1, 1, 0, pos=1), entry(',', 1, 1, 0, pos=2), entry('ア', 1, 1, 0), entry('万', 1, 1, 0, pos=1)]
    kw = dict(system=words, lsize=2, rsize=2, simple=(0, 0, 500, POS_SYS[2]))
    env.p = [pair(kw, n, [W.NUMERIC_PLUGIN]) for n in (1, 2, 3)]
    return env


def both_cases(tier):
    yield from strings(['1', '0', ',', 'ア', 'イ', '万'], 5 if tier == 'quick' else 6)


def both_check(env, case, ctx):
    for k, p in enumerate(env.p):
        ctx.outcome((k, check_text(p, case, ctx, 'after numeric joining')))


# --- stretches of every length
def length_cases(tier):
    top = 80 if tier == 'quick' else 300
    for n in range(1, top + 1):
        for kind in range(6):
            yield (n, kind)


def length_check(env, case, ctx):
    n, kind = case
    s = ['アイ' * n, 'ア' * n, 'アイー' * n + 'あ', 'あ' + 'ァ' * n + 'アイ', 'アあ' * n, 'あ' * n + 'イ' + 'ア' * n + '漢'][kind]
    for label, p in env.p.items():
        ctx.outcome((label, check_text(p, s, ctx, label)))


# --- minimum lengths of every size
def minimum_cases(tier):
    for n in list(range(0, 41 if tier == 'quick' else 151)) + [255, 256, 257, 1000, 40000]:
        for k in (-1, 0, 1):
            if 0 < n + k < 300:
                yield (n, n + k)


def minimum_check(env, case, ctx):
    n, k = case
    word, other = ('アイウエオ' * k)[:k], ('カキクケコ' * 70)[:max(k - 2, 1)]
    p = pair(dict(system=[entry(word, 1, 1, max(-32768, 50 - k * 900)), entry(other, 1, 1, max(-32768, 60 - k * 800)), entry('あ', 1, 1, 10), entry(word * 2 + word, 1, 1, 32767)] if k > 1 else
                  [entry('ア', 1, 1, -1000), entry('カ', 1, 1, -900), entry('あ', 1, 1, 10)], lsize=2, rsize=2, simple=(0, 0, 700, POS_SYS[2])), n)
    for t in (word + word, word + other, other + word + 'あ', word + 'あ' + other, 'あ' + word * 3):
        ctx.outcome((case, check_text(p, t, ctx, 'minimum length %d' % n)))


SECTIONS = [
    Section('texts', text_cases, text_check, text_setup, 'all texts up to 5 (thorough 7) over 6 characters in 12 configurations', block=64),
    Section('stretches', stretch_cases, text_check, stretch_setup, 'all texts of 6..8 (thorough 10) known, unknown and other words, 3 configurations', block=64),
    Section('lexicons', lex_cases, lex_check, lex_setup, 'all 256 lexicons over 8 words x minimum lengths x unknown-word definitions x all texts up to 4 (5) over 4 characters', block=2),
    Section('lengths', length_cases, length_check, text_setup, 'six kinds of Katakana stretches of every length up to 80 (thorough 300), in 12 configurations', block=2),
    Section('minimums', minimum_cases, minimum_check, None, 'minimum lengths 0..40 (thorough 150), 255, 256, 257 with words one shorter, as long and one longer', block=4),
    Section('widths', width_cases, text_check, width_setup, 'Katakana of 1 to 4 bytes: all texts up to 4 (6) over 5 characters, up to 7 (8) over 2, minimum lengths 1 to 7, with and without their words', block=16),
    Section('rewritten', rewr_cases, rewr_check, rewr_setup, 'all sequences up to 3 (5) of 9 units that input rewriting shortens or lengthens, in 9 configurations'),
    Section('both', both_cases, both_check, both_setup, 'all texts up to 5 (6) over 6 characters with numeric joining in front', block=64),
]
