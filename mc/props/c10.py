"""C10: automatic costs of user words."""
import itertools
import os

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings, vectors
from ..fmt import entry
from ..world import World, POS_SYS, check_min_path
from .c02 import unk_table

PROPERTY = 'C10'
AUTO = -32768
RULE = ('a case is one set of dictionaries; after loading, the cost of every word is compared with the rule evaluated on all '
        'minimum-cost paths of the reference model, and texts are analysed with the resulting costs')
ASSUMPTIONS = ['surfaces are not empty and can be analysed by the dictionaries loaded before',
               'the analysis is the plain one: mode C, input rewriting, no joining plugins; when several paths are equally cheap each is allowed']


def minimum_paths(model, text):
    """{(cost of the first word, cost of the last, number of words)} over all minimum-cost candidate sequences of an analysed text"""
    cands = model.candidates(text)
    n = len(text)
    best = {0: {0: (0, {None})}}    # position -> right id -> (cost of the cheapest prefixes, their summaries)
    for i in range(n):
        if i not in best:
            continue
        for c in cands.get(i, ()):
            ways = [(t + model.conn(r, c.left) + c.cost, s) for r, (t, s) in best[i].items() if model.conn(r, c.left) != ref.INH]
            if not ways:
                continue
            m = min(t for t, _ in ways)
            new = {(c.cost, c.cost, 1) if x is None else (x[0], c.cost, x[2] + 1) for t, s in ways if t == m for x in s}
            at = best.setdefault(c.e, {})
            if c.right not in at or m < at[c.right][0]:
                at[c.right] = (m, new)
            elif m == at[c.right][0]:
                at[c.right] = (m, at[c.right][1] | new)
    ends = [(t + model.conn(r, 0), s) for r, (t, s) in best[n].items() if model.conn(r, 0) != ref.INH]
    m = min(t for t, _ in ends)
    return set().union(*[s for t, s in ends if t == m])


def rule(model, surface, rewrite):
    """Costs the rule allows for a word of this surface."""
    ot = ref.OffsetText(surface)
    rewrite(ot)
    out = set()
    for first, last, n in minimum_paths(model, ot.text()):
        c = last - first - 20 * n
        out.add(max(-32768, min(32767, c)))
    return out


def rewriter(w):
    if not w.input_plugins:
        return lambda ot: None
    import sudachipy
    ignore, rep = ref.read_rewrite_def(os.path.join(os.path.dirname(sudachipy.__file__), 'resources', 'rewrite.def'))

    def f(ot):
        ref.default_rewrite(ot, ignore, rep)
        if len(w.input_plugins) > 1:
            ref.prolonged_rewrite(ot, set(W.MARKS), 'ー')
    return f


def snapshot(d):
    out = {}
    for name in sorted(os.listdir(d)):
        with open(os.path.join(d, name), 'rb') as f:
            out[name] = f.read()
    return out


def verify(w, texts, what, ctx, also_texts=True):
    before = snapshot(w.dir)
    dic = w.open()
    lex = dic.lexicon
    rew = rewriter(w)
    full = w.model()
    for did in range(len(w.users) + 1):
        ents = w.system if did == 0 else w.users[did - 1][0]
        if did:
            m = ref.Model(full.lexicons[:did], full.matrix, full.chardef, full.oovs)
        for i, e in enumerate(ents):
            got = lex.get_cost((did << 28) | i)
            ctx.count('transitions')
            if did and e['cost'] == AUTO:
                want = rule(m, e['surface'], rew)
                if got not in want:
                    raise Violation('%s: word %r of user dictionary %d gets the cost %r, the rule gives %r' % (
                        what, e['surface'], did, got, sorted(want)))
                full.lexicons[did][i]['cost'] = got
            elif got != e['cost']:
                raise Violation('%s: word %r of dictionary %d has the cost %r, its file has %r' % (what, e['head'], did, got, e['cost']))
            p = (lex.get_left_id((did << 28) | i), lex.get_right_id((did << 28) | i))
            if p != (e['left'], e['right']):
                raise Violation('%s: ids of word %r of dictionary %d are %r' % (what, e['head'], did, p))
    if also_texts:
        plain = [p for p in w.path_plugins]
        tok = dic.create()
        for t in texts:
            ml = tok.tokenize(t)
            if not plain and not w.input_plugins:
                check_min_path(full, t, ml, what)
            ctx.outcome((t, tuple((m.end(), m.dictionary_id(), m.word_id()) for m in ml)))
            ctx.count('transitions')
    if snapshot(w.dir) != before:
        raise Violation('%s: a file was modified' % what)
    ctx.count('states')
    return dic


def tmpdir(tier):
    return Scratch.dir('c10')


# --- every choice of system words and costs, every short user word
STR2 = list(strings('あい', 2))


def small_cases(tier):
    costs = (None, 0, -30, 100) if tier == 'quick' else (None, 0, -30, 100, -2000)
    for vec in itertools.product(costs, repeat=len(STR2)):
        if vec[0] is None or vec[1] is None:
            if sum(v is None for v in vec) > 3:
                continue
        if all(v is None for v in vec):
            continue
        yield vec


def small_check(env, case, ctx):
    system = [entry(s, 1 + i % 2, 1 + (i + 1) % 2, c) for i, (s, c) in enumerate(zip(STR2, case)) if c is not None]
    u1 = [entry(s, 1, 2, AUTO) for s in strings('あい', 3)]
    u1.insert(3, entry('い', 2, 1, 77))
    u1.append(entry('あああ', -1, 0, AUTO))
    u2 = [entry(s, 2, 1, AUTO if len(s) > 1 else -32767) for s in strings('あい', 3)]
    w = World(system, users=[(u1, []), (u2, [])], simple=(0, 1, 400, POS_SYS[2]), lsize=3, rsize=3,
              matrix={(1, 1): 7, (1, 2): -11, (2, 1): 5, (2, 2): 13, (0, 1): 100, (0, 2): 90, (1, 0): 50, (2, 0): -40})
    w.dir = env
    w.write()
    verify(w, ['あ', 'あい', 'あいあ', 'いいあい'], 'costs %r' % (case,), ctx)


# --- clipping
def clip_cases(tier):
    for n in (1, 2, 3, 7):
        for target in list(range(32764, 32771)) + list(range(-32772, -32763)) + [0, 1, -1, 40000, -40000, 65000, -65500, 65495, -65535 - 20]:
            for conn in (0, 5, -1000):
                yield (n, target, conn)


def clip_check(env, case, ctx):
    n, target, conn = case
    # analysing n letters costs `target`: last minus first, minus 20 each
    diff = target + 20 * n
    first = -diff // 2
    first = max(-32768, min(32767, first))
    last = diff + first
    if n > 1 and not -32768 <= last <= 32767:
        ctx.count('skipped')
        return
    if n == 1:
        last, target = first, -20
    chars = 'あいうえおかき'[:n]
    system = [entry(ch, 1, 1, c) for ch, c in zip(chars, [first] + [17] * (n - 2) + [last])]
    w = World(system, users=[([entry(chars, 0, 0, AUTO), entry(chars[0], 0, 0, AUTO), entry('x', 0, 0, AUTO, surface=chars)], [])],
              simple=(1, 1, 32767, POS_SYS[2]), lsize=2, rsize=2, matrix={(1, 1): conn, (0, 1): conn})
    w.dir = env
    w.write()
    dic = verify(w, [chars], 'clip %r' % (case,), ctx)
    for i in (0, 2):
        got = dic.lexicon.get_cost((1 << 28) + i)
        if got != max(-32768, min(32767, target)):
            raise Violation('clip %r: cost %d of word %d' % (case, got, i))
    if dic.lexicon.get_cost((1 << 28) + 1) != -20:
        raise Violation('clip %r: cost of a single morpheme' % (case,))
    ctx.outcome((case, got))


# --- every cost that is not the marker is kept
def keep_cases(tier):
    vals = [-32768, -32767, -32766, -20, -1, 0, 1, 20, 255, 256, 32766, 32767]
    step = 257 if tier == 'quick' else 17
    return sorted(set(vals + list(range(-32768, 32768, step))))


def keep_check(env, case, ctx):
    system = [entry('あ', 0, 0, case), entry('い', 0, 0, -case if case > -32768 else 5)]
    u = [[entry('あ', 0, 0, case if case != AUTO else -1), entry('う', 0, 0, AUTO), entry('い', 0, 0, case if case != AUTO else 3)] for _ in range(2)]
    w = World(system, users=[(x, []) for x in u], simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    verify(w, ['あいう'], 'cost %d' % case, ctx)


# --- the analysis used: mode C, rewriting on, no joining, surface instead of headword
PLAIN_WORDS = ['1', '11', '1,111', '一万', 'アイ', 'アア', '東京', '東京都', '都', 'Ａ', 'A', '㍿', '株式会社', 'がー', 'スーーパ', 'abc', 'ab c', '𠮷野', 'ñ', 'É']


def plain_cases(tier):
    for ip in (0, 1, 2):
        for pp in itertools.product((0, 1), repeat=2):
            for order in ('ms', 'sm', 's'):
                for version in ('U1', 'U2', 'U3'):
                    yield (ip, pp, order, version)


def plain_check(env, case, ctx):
    ip, pp, order, version = case
    system = [entry('東京', 1, 1, 100), entry('都', 1, 1, 90), entry('東京都', 1, 1, 30, a=[0, 1], b=[0, 1]), entry('1', 1, 1, 9, pos=1),
              entry('一', 1, 1, 8, pos=1), entry('万', 1, 1, 5, pos=1), entry(',', 2, 2, 5), entry('a', 1, 1, 70), entry('株式', 1, 1, 8),
              entry('会社', 1, 2, 11), entry('ー', 1, 1, 3), entry('ア', 1, 1, 40), entry('abc', 2, 2, 15)]
    u = [entry(s, 1, 1, AUTO, pos=k % 5) for k, s in enumerate(PLAIN_WORDS)]
    u += [entry('x%d' % k, 1, 1, AUTO, surface=s) for k, s in enumerate(PLAIN_WORDS)]
    u += [entry('東京都株式', 1, 1, AUTO, a=[0, 1, 8], b=[2, 8])]
    u2 = [entry('東京都株式会社', 1, 1, AUTO), entry('abcabc', 1, 1, AUTO), entry('東京都株式', 2, 1, AUTO)]
    w = World(system, users=[(u, []), (u2, [])], unk=unk_table() if 'm' in order else None, simple=(1, 2, 60, POS_SYS[5]), oov_order=order,
              lsize=3, rsize=3, matrix={(1, 1): 3, (2, 1): 9, (1, 2): -4, (0, 1): 2},
              input_plugins=[[], [W.DEFAULT_PLUGIN], [W.DEFAULT_PLUGIN, W.PSM_PLUGIN]][ip],
              path_plugins=([W.NUMERIC_PLUGIN] if pp[0] else []) + ([W.KATAKANA_PLUGIN] if pp[1] else []), user_version=version)
    w.dir = env
    w.write()
    verify(w, PLAIN_WORDS, 'plugins %r' % (case,), ctx)


# --- chains: the words of a dictionary are built on those of the ones before
def chain_cases(tier):
    for n in (1, 2, 3, 5, 8, 9, 15) if tier == 'quick' else range(1, 16):
        for auto in (0, 1, 2, 3):
            for k in range(4):
                yield (n, auto, k)


def chain_check(env, case, ctx):
    n, auto, variant = case
    system = [entry(c, 1, 1, 10 + 7 * i) for i, c in enumerate('あいう')]
    users = []
    text = 'あ'
    for k in range(n):
        nxt = text + 'いうあ'[(k + variant) % 3]
        ents = [entry(nxt, 1 + (k + variant) % 2, 1 + k % 2, AUTO if (auto >> (k % 2)) & 1 else 15 - k),
                entry(nxt[1:], 1, 2, AUTO), entry('うえ'[:1 + k % 2], 1, 1, AUTO)]
        users.append((ents, []))
        text = nxt
    w = World(system, users=users, simple=(0, 1, 200, POS_SYS[2]), lsize=3, rsize=3, matrix={(1, 1): 4, (1, 2): -3, (2, 1): 6, (2, 2): 1})
    w.dir = env
    w.write()
    verify(w, [text, text + 'い'], 'chain %r' % (case,), ctx)


# --- many automatic words, and long ones
def many_cases(tier):
    small = list(range(1, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 500]
    for n in small + ([1000, 2000] if tier == 'thorough' else []):
        for step in (1, 2, 5):
            yield ('count', n, step)
    for n in [1639, 1637, 1638, 1640, 1000] + list(range(1, 70)) + [127, 128, 129, 255, 256, 257] + ([3000] if tier == 'thorough' else []):
        for cost in (10, -7)[:1 if n > 300 and tier == 'quick' else 2]:
            yield ('length', n, cost)


def many_check(env, case, ctx):
    kind, n, k = case
    matrix = {(1, 1): 4, (1, 2): -3, (2, 1): 6, (2, 2): 1}
    base = dict(simple=(0, 1, 200, POS_SYS[2]), lsize=3, rsize=3, matrix=matrix)
    if kind == 'count':
        system = [entry(c, 1 + i % 2, 1, 10 + 7 * i) for i, c in enumerate('あいう')] + [entry('あい', 2, 1, -5), entry('うう', 1, 2, 4)]
        words = list(itertools.islice((x for x in strings('あいう', 7) if x), 2 * n))
        # automatic words at every k-th place only, forwards and backwards
        u1 = [entry(x, 1, 2, AUTO if i % k == 0 else 40 + i % 9) for i, x in enumerate(words[:n])]
        u2 = [entry(x, 2, 1, AUTO if (n - 1 - i) % k == 0 else -1) for i, x in enumerate(reversed(words[n:]))]
        texts = [words[-1], words[n] + words[-1]]
    else:
        system = [entry('あ', 1, 1, 10 + k), entry('い', 1, 2, 12), entry('う', 2, 1, -3), entry('ああ', 2, 2, 90)]
        u1 = [entry('い' + 'あ' * n, 1, 1, AUTO), entry('あ' * n + 'う', 1, 1, AUTO), entry('あ' * n + 'え', 1, 1, AUTO)]
        u2 = [entry('い' + 'あ' * (n + 1) + 'う', 1, 1, AUTO)]
        texts = ['い' + 'あ' * n + 'う']
    w = World(system, users=[(u1, []), (u2, [])], **base)
    w.dir = env
    w.write()
    verify(w, texts if n < 600 else [], '%s %r' % (kind, case), ctx)


# --- surfaces with blanks and other special characters at either end
EDGES = [' ', '  ', '\t', '\u3000', '\xa0', '"', "'", '%', '\\', '#', '*', '/', ',', '.', '0', '１', '-', '_', '\u200b', '\ufeff', 'ー', '～', '\u0301', '\ufe0f', '(', '（', 'Z', 'ｶﾞ', '𠮷', '\x01', '\x7f']


def edge_cases(tier):
    for e in EDGES:
        for ip in (0, 1, 2):
            for known in (0, 1):
                for head in (0, 1):
                    yield (e, ip, known, head)


def edge_check(env, case, ctx):
    e, ip, known, head = case
    system = [entry('あ', 1, 1, 300), entry('い', 1, 2, -7), entry('あい', 2, 1, 900)]
    if known:
        system += [entry(x, 2, 1, 1000 + 37 * k) for k, x in enumerate(sorted({e, e.lower(), e[:1]}))]
    words = [e + 'あ', 'あ' + e, e + 'あい' + e, 'あ' + e + 'い', e, e + e, e + e + 'い', 'い' + e + e, e + 'い' + e + e]
    u = [entry('x%d' % k if head else x, 1, 2, AUTO, surface=x) for k, x in enumerate(words)]
    u2 = [entry(x, 2, 1, AUTO, surface=x) for x in words[::2]]
    w = World(system, users=[(u, []), (u2, [])], simple=(0, 1, 4000, POS_SYS[2]), lsize=3, rsize=3,
              matrix={(1, 1): 7, (1, 2): -11, (2, 1): 5, (2, 2): 13, (0, 1): 100, (0, 2): 90, (1, 0): 50, (2, 0): -40},
              input_plugins=[[], [W.DEFAULT_PLUGIN], [W.DEFAULT_PLUGIN, W.PSM_PLUGIN]][ip])
    w.dir = env
    w.write()
    verify(w, words, 'edge %r' % (case,), ctx)


SECTIONS = [
    Section('small', small_cases, small_check, tmpdir, 'all costs (or absence) of the 6 system words over two letters x all user words up to 3 letters in two dictionaries'),
    Section('clip', clip_cases, clip_check, tmpdir, 'rule values around both ends of the 16-bit range'),
    Section('keep', keep_cases, keep_check, tmpdir, 'every 257th (thorough: 17th) 16-bit cost and the ends'),
    Section('analysis', plain_cases, plain_check, tmpdir, 'input, OOV and joining plugins x user dictionary versions, 43 words each'),
    Section('chains', chain_cases, chain_check, tmpdir, '1..15 dictionaries whose words build on each other'),
    Section('many', many_cases, many_check, tmpdir, '1..40 and up to 500 words with automatic costs at every place, every second and every fifth; words of 1..70 and up to 1640 (thorough 3000) morphemes'),
    Section('edges', edge_cases, edge_check, tmpdir, 'surfaces which begin with, end with, contain or are one of 31 special characters, known to the system dictionary or not, x input plugins'),
]
