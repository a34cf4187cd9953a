"""C02: the returned path is a minimum-cost path over all candidates."""
import itertools
import os

from .. import fmt
from ..core import Section, Violation
from ..enum import strings, vectors
from ..fmt import entry
from ..ref import INH
from ..world import World, POS_SYS, PROPS, check_min_path

PROPERTY = 'C02'
RULE = ('a case is one dictionary/configuration (or one text) of the enumerated space; every text of the section is analysed by '
        'the real tokenizer and the cost of its path compared with the minimum over all candidate sequences of the reference '
        'model; outcomes are distinct (text, boundaries, ids) results')
ASSUMPTIONS = ['the reference model enumerates candidates per the documented rules']


def analyse(dic, model, text, ctx, tok=None):
    tok = tok or dic.create()
    ctx.count('transitions')
    best = model.minimum(text)
    try:
        ml = tok.tokenize(text)
    except Exception as e:
        if best is None:
            ctx.count('unreachable')
            ctx.outcome((text, 'error'))
            return
        raise Violation('%r: %s: %s, but a path of cost %d exists' % (text, type(e).__name__, e, best))
    if best is None:
        raise Violation('%r: a path %r was returned although no sequence is connected' % (text, [str(m) for m in ml]))
    check_min_path(model, text, ml)
    ctx.count('traces')
    ctx.outcome((text, best, tuple((m.end(), m.word_id(), m.dictionary_id()) for m in ml)))


def run_world(w, texts, ctx):
    dic = w.open()
    model = w.model()
    tok = dic.create()
    for t in texts:
        analyse(dic, model, t, ctx, tok)
    ctx.count('states')


def one_world_dir(env, w):
    w.dir = env
    w.write(env)
    return w


def tmpdir(tier):
    from ..core import Scratch
    return Scratch.dir('c02')


# --- every matrix over a 3x3 id space
TEXTS2 = list(strings('あい', 4))
TEXTS2_SHORT = list(strings('あい', 3))
CELLS = [(l, r) for l in range(3) for r in range(3) if (l, r) != (0, 0)]


def matrix_lexicon():
    return [entry('あ', 1, 1, 2), entry('い', 2, 2, 2), entry('あい', 1, 2, 3), entry('いあ', 2, 1, 3),
            entry('ああ', 1, 2, 4), entry('い', 1, 2, 1)]


def matrix_cases(tier):
    if tier == 'quick':
        return vectors([0, 5, INH], len(CELLS))
    return vectors([0, 5, INH, -3], len(CELLS))


def matrix_check(env, case, ctx):
    w = World(matrix_lexicon(), matrix=dict(zip(CELLS, case)), lsize=3, rsize=3, simple=(0, 0, 30000, POS_SYS[2]))
    run_world(one_world_dir(env, w), TEXTS2 if sum(1 for c in case if c) <= 4 else TEXTS2_SHORT, ctx)


# --- every assignment of left/right ids
ID_MATRIX = {(l, r): [0, 40, -7, 13, 90, 3, INH, -20, 55][l * 3 + r] for l in range(3) for r in range(3)}


def ids_cases(tier):
    ids = [(l, r) for l in range(3) for r in range(3)]
    return itertools.product(ids, repeat=3)


def ids_check(env, case, ctx):
    heads = ['あ', 'い', 'あい']
    ents = [entry(h, l, r, 5) for h, (l, r) in zip(heads, case)] + [entry('いあ', 1, 2, 8)]
    w = World(ents, matrix=ID_MATRIX, lsize=3, rsize=3, simple=(2, 1, 20000, POS_SYS[2]))
    run_world(one_world_dir(env, w), TEXTS2_SHORT, ctx)


# --- every assignment of costs, including extremes and homographs
def costs_cases(tier):
    vals = [0, 1, -5, 32767, -32768] if tier == 'quick' else [0, 1, -5, 7, 32767, -32768]
    return itertools.product(vals, repeat=5)


def costs_check(env, case, ctx):
    ents = [entry('あ', 0, 0, case[0]), entry('ああ', 1, 0, case[1]), entry('あああ', 0, 1, case[2]),
            entry('あ', 1, 1, case[3]), entry('い', 1, 0, case[4])]
    w = World(ents, matrix={(0, 1): 2, (1, 0): -1, (1, 1): 1}, lsize=2, rsize=2, simple=(0, 0, 100, POS_SYS[2]))
    run_world(one_world_dir(env, w), ['あ', 'い', 'ああ', 'あい', 'いあ', 'あああ', 'ああい', 'いああ', 'ああああ',
                                      'あいああ', 'あああああ'], ctx)


# --- rectangular matrices (ids beyond the smaller dimension)
def rect_cases(tier):
    for ls in range(2, 5):
        for rs in range(2, 5):
            for seed in range(6 if tier == 'quick' else 20):
                yield (ls, rs, seed)


def rect_check(env, case, ctx):
    ls, rs, seed = case
    m = {(l, r): ((l * 7 + r * 13 + seed * 5) * 37) % 101 - 50 for l in range(ls) for r in range(rs)}
    # right ids of words index the first dimension, left ids the second
    ents = []
    for i, h in enumerate(['あ', 'い', 'あい', 'いあ', 'ああ', 'いい', 'あ', 'い']):
        ents.append(entry(h, (i * 3 + seed) % rs, (i * 5 + seed) % ls, (i * 11) % 17))
    w = World(ents, matrix=m, lsize=ls, rsize=rs, simple=(rs - 1, ls - 1, 500, POS_SYS[2]))
    run_world(one_world_dir(env, w), TEXTS2, ctx)


# --- connection ids of every magnitude (sparse files)
WIDE = [(2, 2), (127, 128), (128, 127), (256, 256), (300, 200), (255, 257), (1000, 33), (4096, 4096), (20000, 3), (3, 20000), (32767, 1), (1, 32767), (32767, 2), (2, 32767), (32767, 1025),
        (1025, 32767), (16384, 16385), (32767, 32767)]


class WideWorld(World):
    def system_bytes(self):
        return b''

    def write(self, d=None):
        d = World.write(self, d)
        with open(os.path.join(d, 'system.dic'), 'wb') as f:
            fmt.encode_placed(f, self.version, self.system, self.pos_list, self.lsize, self.rsize, self.matrix, 0, 0, [None] * len(self.system))
        return d


def wide_cases(tier):
    for shape in WIDE:
        for seed in range(4 if tier == 'quick' else 30):
            yield shape + (seed,)


def wide_check(env, case, ctx):
    ls, rs, seed = case
    some = lambda n: sorted({0, 1 % n, n // 3, n // 2, (n - 1) // 256 * 256, n - 1})  # noqa: E731
    L, R = some(ls), some(rs)
    m = {(l, r): ((i * 7 + j * 13 + seed * 5) * 37) % 1001 - 500 for i, l in enumerate(L) for j, r in enumerate(R)}
    if seed % 2:
        m[(L[-1], R[-1])] = INH
    ents = []
    for i, h in enumerate(['あ', 'い', 'あい', 'いあ', 'ああ', 'いい', 'あ', 'い', 'あ', 'い']):
        # the first id of the matrix is the right id of the left word
        ents.append(entry(h, R[(i * 3 + seed) % len(R)], L[(i * 5 + seed) % len(L)], (i * 11) % 17))
    w = WideWorld(ents, matrix=m, lsize=ls, rsize=rs, simple=(R[-1], L[-1], 500, POS_SYS[2]))
    try:
        run_world(one_world_dir(env, w), TEXTS2, ctx)
    finally:
        os.unlink(os.path.join(w.dir, 'system.dic'))


# --- user dictionaries compete with the system dictionary
def users_cases(tier):
    vals = [0, 3, -2] if tier == 'quick' else [0, 3, -2, 40]
    return itertools.product(vals, repeat=6)


def users_check(env, case, ctx):
    sysd = [entry('あ', 0, 1, case[0]), entry('い', 1, 0, case[1]), entry('あい', 1, 1, case[2])]
    u1 = [entry('あ', 1, 1, case[3]), entry('あい', 0, 0, case[4])]
    u2 = [entry('い', 0, 0, case[5]), entry('いあ', 1, 0, 1)]
    w = World(sysd, users=[(u1, []), (u2, [])], matrix={(0, 1): 1, (1, 0): 2, (1, 1): INH}, lsize=2, rsize=2,
              simple=(0, 0, 10, POS_SYS[2]))
    run_world(one_world_dir(env, w), TEXTS2_SHORT, ctx)


# --- unknown words compete with dictionary words
def unk_table(base=0):
    return [('DEFAULT', 0, 0, 40, POS_SYS[2]), ('KANJI', 1, 1, 30, POS_SYS[0]), ('KANJI', 2, 2, 33, POS_SYS[4]),
            ('HIRAGANA', 1, 2, 25, POS_SYS[0]), ('KATAKANA', 2, 1, 20, POS_SYS[0]), ('KATAKANA', 1, 1, 22, POS_SYS[4]),
            ('NUMERIC', 1, 0, 15, POS_SYS[1]), ('ALPHA', 2, 0, 12 + base, POS_SYS[0]), ('SYMBOL', 0, 2, 35, POS_SYS[2]),
            ('GREEK', 1, 1, 12, POS_SYS[0]), ('CYRILLIC', 1, 1, 12, POS_SYS[0]), ('KANJINUMERIC', 1, 1, 14, POS_SYS[1])]


OOV_MATRIX = {(l, r): [0, 3, -4, 6, 1, 9, 2, INH, 5][l * 3 + r] for l in range(3) for r in range(3)}
OOV_MATRIX2 = {(l, r): [0, 30, -14, 6, 11, 9, 12, 7, 5][l * 3 + r] for l in range(3) for r in range(3)}
OOV_ALPHABET = ['あ', 'ア', 'ー', '漢', '一', '1', 'a', 'é', ' ', '𠮷', '。', 'я']


def oov_worlds():
    ents = [entry('あ', 1, 1, 10), entry('アー', 1, 2, 12), entry('漢', 2, 2, 9), entry('漢あ', 1, 1, 18), entry('a', 1, 1, 3),
            entry('aé', 2, 2, 5), entry('1a', 1, 2, 4), entry('一', 2, 1, 8), entry('𠮷', 1, 1, 14), entry('ー', 2, 2, 50),
            entry('éa', 1, 1, 1)]
    p2 = dict(PROPS)
    p2['HIRAGANA'] = (True, False, 2)
    p2['KANJI'] = (True, True, 1)
    p2['KATAKANA'] = (False, True, 3)
    p2['ALPHA'] = (False, False, 1)
    p2['SYMBOL'] = (False, False, 0)
    return [World(ents, matrix=OOV_MATRIX, lsize=3, rsize=3, unk=unk_table(), simple=(1, 2, 60, POS_SYS[2])),
            World(ents, matrix=OOV_MATRIX2, lsize=3, rsize=3, unk=unk_table(-9), simple=(0, 0, 60, POS_SYS[2]), props=p2),
            World(ents[:4], matrix=OOV_MATRIX2, lsize=3, rsize=3, unk=unk_table(), simple=(1, 2, 5, POS_SYS[2]),
                  oov_order='sm'),
            World(ents, matrix=OOV_MATRIX2, lsize=3, rsize=3, unk=None, simple=(1, 2, 5, POS_SYS[2]))]


def open_worlds(ws):
    out = []
    for w in ws:
        d = w.open()
        out.append((w, d, d.create(), w.model()))
    return out


def oov_setup(tier):
    return open_worlds(oov_worlds())


def oov_cases(tier):
    return strings(OOV_ALPHABET, 3 if tier == 'quick' else 4)


def oov_check(env, case, ctx):
    for w, d, tok, model in env:
        analyse(d, model, case, ctx, tok)
    ctx.count('states')


# --- long texts
def long_cases(tier):
    top = 160 if tier == 'quick' else 700
    for pat in ['あ', 'あい', '漢あ', 'aé', 'アーい', '𠮷1', 'ああい漢a ']:
        for n in range(1, top + 1, 1 if tier == 'thorough' else 3):
            yield (pat, n)
        yield (pat, 5000)


def long_check(env, case, ctx):
    pat, n = case
    text = (pat * (n // len(pat) + 1))[:n]
    for w, d, tok, model in env[:2] if n < 1000 else env[1:2]:
        analyse(d, model, text, ctx, tok)
    ctx.count('states')


# --- sums beyond 32 bits
def sums_cases(tier):
    # (words as (length, cost), connection cost): how many words it takes to leave 32 bits, and a few more
    for ws, conn in ([([(1, x), (1, 32767)], 32766) for x in range(12000, 32001, 4000 if tier == 'quick' else 500)] +
                     [([(1, 32767), (2, 32767)], 32766), ([(1, 32767), (2, 32766), (3, 32767)], 32766)] +
                     [([(1, x), (1, 32767)], -32768) for x in range(-32768, -11999, 5000 if tier == 'quick' else 600)] +
                     [([(1, -32768), (2, -32768)], -32768), ([(1, -1), (2, -32768), (2, 32767)], -32768)]):
        best = min((c + conn) / k for k, c in ws)
        n = int(abs((1 << 31) / best)) + 1
        if (1 << 31) / 32000 * 3 < n:
            continue
        for d in (0, 1, 2) if tier == 'quick' else range(8):
            yield (tuple(ws), conn, n + d)


def sums_check(env, case, ctx):
    ws, conn, n = case
    ents = [entry('あ' * k, 1, 1, c) for k, c in ws]
    w = one_world_dir(env, World(ents, matrix={(1, 1): conn, (0, 1): 0, (1, 0): 0}, lsize=2, rsize=2, simple=(0, 0, 32767, POS_SYS[2])))
    best = [0]
    for i in range(1, n + 1):
        best.append(min(best[i - k] + c + (conn if i > k else 0) for k, c in ws if k <= i))
    try:
        ml = w.open().create().tokenize('あ' * n)
    except Exception as e:
        raise Violation('%d times あ: %s: %s' % (n, type(e).__name__, e))
    pos = got = 0
    for m in ml:
        k, c = ws[m.word_id()]
        if m.begin() != pos or m.end() != pos + k or m.is_oov():
            raise Violation('%d times あ, words %r: morpheme %d-%d' % (n, ws, m.begin(), m.end()))
        got += c + (conn if pos else 0)
        pos += k
    if pos != n or got != best[n]:
        raise Violation('%d times あ, words (length, cost) %r, connection %d: the path costs %d, the minimum is %d' % (n, ws, conn, got, best[n]))
    ctx.count('states')
    ctx.count('transitions', n)
    ctx.outcome((case, got))


# --- many predecessors at one position: any of them may be the one that counts
SIZES = [1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]
SIZES_MORE = sorted(set(SIZES) | set(range(1, 150)) | {511, 512, 513, 600})


def many_cases(tier):
    for k in SIZES if tier == 'quick' else SIZES_MORE:
        for kind in ('homographs', 'lengths'):
            for order in ('up', 'down'):
                yield (k, kind, order)


def many_check(env, case, ctx):
    k, kind, order = case

    def cost(j):
        return j if order == 'up' else k - j
    chars = [chr(0x4e00 + j) for j in range(1, k + 1)]
    m = {(j, t): 0 if j == t else 1000 for j in range(1, k + 1) for t in range(1, k + 1)}
    if kind == 'homographs':
        words = [entry('あ', 0, j, cost(j)) for j in range(1, k + 1)]
        dics = [words[i:i + 127] for i in range(0, k, 127)]
    else:
        # fillers (0, 0), then one word of any length, then the character
        m.update({(j, k + 1): INH for j in range(1, k + 1)})
        dics = [[entry('あ', k + 1, 0, 0)] + [entry('あ' * j, k + 1, j, cost(j)) for j in range(2, k + 1)]]
        m.update({(0, t): 1000 for t in range(1, k + 1)})
    last = [entry(c, j + 1, 0, 0) for j, c in enumerate(chars)]
    w = one_world_dir(env, World(dics[0] + last, users=[(d, []) for d in dics[1:]], matrix=m, lsize=k + 2, rsize=k + 2,
                                 simple=(0, 0, 30000, POS_SYS[2])))
    tok = w.open().create()
    for j in range(1 if kind == 'homographs' else 2, k + 1):
        if kind == 'lengths' and k > 130 and j not in SIZES and k - j not in SIZES:
            continue
        text = ('あ' if kind == 'homographs' else 'あ' * k) + chars[j - 1]
        try:
            ml = tok.tokenize(text)
        except Exception as e:
            raise Violation('%r: %s: %s' % (text, type(e).__name__, e))
        got = [(x.begin(), x.end(), x.dictionary_id(), x.word_id() & 0xfffffff) for x in ml]
        if kind == 'homographs':
            want = [(0, 1, (j - 1) // 127, (j - 1) % 127), (1, 2, 0, len(dics[0]) + j - 1)]
        else:
            want = ([(i, i + 1, 0, 0) for i in range(k - j)] + [(k - j, k, 0, j - 1), (k, k + 1, 0, len(dics[0]) + j - 1)])
        if got != want:
            raise Violation('%d words end at position %d of %r and number %d connects best: got %r, expected %r' % (
                k, len(text) - 1, text, j, got, want))
        ctx.count('transitions')
        ctx.outcome((case, j, tuple(got)))
    ctx.count('states')


SECTIONS = [
    Section('matrices', matrix_cases, matrix_check, tmpdir,
            'all 3x3 connection matrices over {0,5,inhibited} (thorough: also -3), all texts of length <=4 over 2 characters'),
    Section('ids', ids_cases, ids_check, tmpdir, 'all left/right ids of 3 words over 3 ids, all texts of length <=3'),
    Section('costs', costs_cases, costs_check, tmpdir, 'all cost vectors of 5 words incl. 16-bit extremes, 11 texts'),
    Section('rectangular', rect_cases, rect_check, tmpdir, 'matrix dimensions 2..4 x 2..4, all texts of length <=4'),
    Section('wide', wide_cases, wide_check, tmpdir, 'matrix dimensions up to 32767 x 32767 with connection ids of every magnitude, all texts of length <=4', block=1),
    Section('users', users_cases, users_check, tmpdir, 'all costs of competing system/user words, texts <=3'),
    Section('oov', oov_cases, oov_check, oov_setup, 'all texts of length <=3 (thorough 4) over 12 character classes, 4 worlds'),
    Section('sums', sums_cases, sums_check, tmpdir, 'texts whose costs add up to more than 32 bits', block=1),
    Section('many', many_cases, many_check, tmpdir,
            '1..300 (thorough 600) homographs or words of different length that end at one position, each of them the one that '
            'connects best to one following character', block=1),
    Section('long', long_cases, long_check, oov_setup, 'periodic texts of every length up to the bound'),
]
