"""C05: modes A and B replace the units of mode C by their declared units."""
import itertools

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS, observe
from .c02 import unk_table

PROPERTY = 'C05'
RULE = ('a case is one assignment of A/B declarations (or one text); the lists of modes A, B and every split() are compared, attribute '
        'by attribute, with the units derived from the mode-C list and the plain entries of the dictionaries')
ASSUMPTIONS = ['declared units add up to the headword of the declaring entry']
MARK = 1 << 28


class Spec:
    """Expected splits, from the plain entries."""

    def __init__(self, w):
        self.w = w
        self.lex = [w.system] + [u[0] for u in w.users]
        self.posids = []
        base = len(w.pos_list)
        for _, own in w.users:
            self.posids.append(base)
            base += len(own)

    def resolve(self, raw, did):
        return (did if raw >> 28 else 0, raw & (MARK - 1))

    def units(self, did, wid, mode):
        if did < 0:
            return []
        e = self.lex[did][wid]
        raw = {'A': e['a'], 'B': e['b'], 'C': []}[mode]
        return [self.resolve(r, did) for r in raw] if len(raw) >= 2 else []

    def pos_id(self, did, pid):
        if did > 0 and pid >= len(self.w.pos_list):
            return pid - len(self.w.pos_list) + self.posids[did - 1]
        return pid

    def obs(self, b, e, text, did, wid):
        """expected observation of dictionary word (did, wid) at original b..e"""
        x = self.lex[did][wid]
        pid = self.pos_id(did, x['pos'])
        df = x['surface'] if x['dform'] < 0 else self.lex[did][x['dform']]['surface']
        return (b, e, text[b:e], self.w.posname(did, x['pos']), pid, x['norm'], df, x['reading'], False, (did << 28) | wid, did,
                tuple(x['syn']))


def nodes_of(spec, ml, analysed):
    """[(did, wid, length in the analysed text, observation)] of a list"""
    out, pos = [], 0
    for m in ml:
        did = m.dictionary_id()
        if did >= 0:
            wid = m.word_id() & (MARK - 1)
            out.append((did, wid, len(spec.lex[did][wid]['head']), observe(m)))
        else:
            n, k = m.get_word_info().head_word_length, 0
            while n > 0 and pos + k < len(analysed):
                n -= len(analysed[pos + k].encode('utf-8'))
                k += 1
            out.append((-1, -1, k, observe(m)))
        pos += out[-1][2]
    return out


def expected_list(spec, nodes, mode, text, origin):
    """[(did, wid, length, observation)] after splitting the mode-C nodes"""
    out, pos = [], 0
    for did, wid, n, o in nodes:
        us = spec.units(did, wid, mode)
        if not us:
            out.append((did, wid, n, o))
        else:
            p = pos
            for d, w in us:
                k = len(spec.lex[d][w]['head'])
                out.append((d, w, k, spec.obs(origin[p], origin[p + k], text, d, w)))
                p += k
        pos += n
    return out


def verify(w, spec, toks, modes, text, origin, ctx, what, analysed=None):
    c = toks['C'].tokenize(text, modes['C'])
    nodes = nodes_of(spec, c, analysed or text)
    if sum(n[2] for n in nodes) != len(origin) - 1:
        raise Violation('%s %r: mode C covers %d of %d characters of the analysed text' % (
            what, text, sum(n[2] for n in nodes), len(origin) - 1))
    lists = {'C': nodes}
    for mn in 'AB':
        lists[mn] = expected_list(spec, nodes, mn, text, origin)
    for mn in 'ABC':
        ctx.count('transitions')
        want = [n[3] for n in lists[mn]]
        for how, ml in (('tokenize(text, %s)' % mn, toks['C'].tokenize(text, modes[mn])),
                        ('create(%s).tokenize(text)' % mn, toks[mn].tokenize(text)),
                        # the mode of a call goes before that of the tokenizer
                        ('create(A).tokenize(text, %s)' % mn, toks['A'].tokenize(text, modes[mn])),
                        ('create(B).tokenize(text, mode=%s)' % mn, toks['B'].tokenize(text, mode=modes[mn])),
                        ('create().tokenize(text, %s)' % mn, toks[''].tokenize(text, modes[mn])) if mn != 'C' else ('create().tokenize(text)', toks[''].tokenize(text))):
            got = [observe(m) for m in ml]
            if got != want:
                raise Violation('%s %r: %s gives %r, expected %r' % (what, text, how, got, want))
        # splitting every morpheme of this list
        ml = toks['C'].tokenize(text, modes[mn])
        pos = 0
        for m, node in zip(ml, lists[mn]):
            for sn in 'ABC':
                sub = expected_list(spec, [node], sn, text, origin[pos:])
                want = [x[3] for x in sub]
                got = [observe(x) for x in m.split(modes[sn])]
                if got != want:
                    raise Violation('%s %r: morpheme %r of mode %s split with %s gives %r, expected %r' % (
                        what, text, m.surface(), mn, sn, got, want))
                if len(m.split(modes[sn])) != len(want):
                    raise Violation('%s %r: length of a split' % (what, text))
            pos += node[2]
    ctx.outcome((what, text, tuple(n[:2] for n in lists['A']), tuple(n[:2] for n in lists['B'])))


def opened(w):
    d = w.open()
    modes = W.modes()
    return d, dict({k: d.create(modes[k]) for k in 'ABC'}, **{'': d.create()}), modes


# --- every pair of declarations of a word of four characters
COMP = [(), (4,)] + [c for c in [(1, 3), (2, 2), (3, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 1, 1, 1)]]
LETTERS = [tuple('あいうえ'), ('a', 'é', 'あ', '𠮷'), ('𠮷', '漢', 'é', 'z')]


def decl_cases(tier):
    for where in (0, 1, 2):                 # dictionary of the compound
        for unitloc in ((0,) if where == 0 else (0, 1, 2)):    # units: system, own, alternating
            for letters in range(len(LETTERS)):
                for a in range(len(COMP)):
                    for b in range(len(COMP)):
                        yield (where, unitloc, letters, a, b)


def decl_world(case, d):
    where, unitloc, letters, a, b = case
    L = LETTERS[letters]

    def parts(own, shift):
        out = []
        for i in range(4):
            for j in range(i + 1, 5):
                h = ''.join(L[i:j])
                # unit entries: cost high, forms that differ from the headword; some not indexed
                out.append(((i, j), entry(h, -1 if (i + j) % 3 == 0 else 0, 0, 20000, surface=h if (i + j) % 2 else h[0] + 'x' * i, norm='n%d%d%d' % (own, i, j),
                                          reading='r%d%d%d' % (own, i, j), pos=(i + j) % 6, syn=[own, i, j],
                                          dform=-1)))
        return out
    sysd = [entry('x', 0, 0, 1)] + [e for _, e in parts(0, 1)]
    sid = {k: 1 + n for n, (k, _) in enumerate(parts(0, 1))}
    u = []
    for k in (1, 2):
        u.append([entry('y%d' % k, 0, 0, 1)] * k + [e for _, e in parts(k, k)])
    uid = [{key: k + n for n, (key, _) in enumerate(parts(k, k))} for k in (1, 2)]

    def ids(comp):
        out, p = [], 0
        for n, k in enumerate(comp):
            key = (p, p + k)
            use_own = unitloc == 1 or (unitloc == 2 and n % 2)
            out.append(MARK | uid[where - 1][key] if where and use_own else sid[key])
            p += k
        return out
    # units that declare splits themselves are not split again
    for dic, m, mark in ((sysd, sid, 0), (u[0], uid[0], MARK), (u[1], uid[1], MARK)):
        e = dic[m[(0, 2)]]
        e['a'] = [mark | m[(0, 1)], mark | m[(1, 2)]]
        e['b'] = []
        e = dic[m[(1, 4)]]
        e['b'] = [mark | m[(1, 3)], mark | m[(3, 4)]]
    comp = entry(''.join(L), 0, 0, -500, surface=''.join(L[:3 + a % 2]) + 'k' * (b % 3), norm='N', reading='R', pos=2, a=ids(COMP[a]), b=ids(COMP[b]), ws=ids(COMP[b]))
    (sysd if where == 0 else u[where - 1]).append(comp)
    w = World(sysd, users=[(u[0], [('甲',) * 6]), (u[1], [('乙',) * 6, ('丙',) * 6])], simple=(0, 0, 30000, POS_SYS[2]), lsize=1, rsize=1)
    if where:
        comp['pos'] = 6
    w.dir = d
    return w


def decl_check(env, case, ctx):
    w = decl_world(case, env)
    w.write()
    spec = Spec(w)
    d, toks, modes = opened(w)
    word = ''.join(LETTERS[case[2]])
    for text in (word, 'x' + word, word + word, word[:2] + 'x' + word + word[1:], 'う' + word + 'x' + word[0]):
        verify(w, spec, toks, modes, text, list(range(len(text) + 1)), ctx, 'declarations %r' % (case,))
    ctx.count('states')


# --- a rich world with rewriting and joining
RICH = [entry('あ', 1, 1, 10), entry('漢', 1, 1, 10), entry('株式', 1, 1, 10), entry('会社', 1, 1, 10, surface='社'), entry('株', 1, 1, 30, surface='カブ'),
        entry('式', 1, 1, 30), entry('株式会社', 1, 1, 5, a=[4, 5, 3], b=[2, 3]), entry('漢あ', 1, 1, 5, surface='漢アアア', a=[1, 0]),
        entry('あ漢', 1, 1, 5, b=[0, 1]), entry('1', 1, 1, 9, pos=1), entry('万', 1, 1, 9, pos=1, surface='10000'),
        entry('1万', 1, 1, 2, pos=1, a=[9, 10], b=[9, 10]), entry('アー', 1, 1, 30), entry('a', 1, 1, 5), entry('アーa', 1, 1, 1, a=[12, 13]),
        entry('が', 1, 1, 7), entry('がー', 1, 1, 5, a=[15, 17], b=[]), entry('ー', 1, 1, 9), entry('ああ', 1, 1, 4, a=[0], b=[0])]
RICH_USER = [entry('漢漢', 1, 1, 2, a=[1, 1], b=[1, MARK | 1]), entry('漢', 1, 1, 8, pos=6), entry('社', 1, 1, 90)]
RICH_ALPHABET = ['あ', '漢', '㍿', 'ー', '1', '万', 'ア', 'Ａ', 'か', 'ﾞ', '会']


def rich_setup(tier):
    out = []
    for ip in ([], [W.DEFAULT_PLUGIN], [W.DEFAULT_PLUGIN, W.PSM_PLUGIN]):
        for pp in ([], [W.KATAKANA_PLUGIN], [W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN]):
            w = World(RICH, users=[(RICH_USER, [('甲',) * 6])], unk=unk_table(), simple=(0, 0, 9000, POS_SYS[2]), lsize=3, rsize=3,
                      input_plugins=ip, path_plugins=pp)
            w.write()
            out.append((w, Spec(w)) + opened(w))
    import sudachipy
    import os
    ignore, rep = ref.read_rewrite_def(os.path.join(os.path.dirname(sudachipy.__file__), 'resources', 'rewrite.def'))
    return out, ignore, rep


def rich_cases(tier):
    yield from strings(RICH_ALPHABET, 4 if tier == 'quick' else 5)
    for s in strings(['㍿', '漢', 'あ', '1万', '株式会社'], 4 if tier == 'quick' else 5, 3):
        yield s


def rich_check(env, case, ctx):
    worlds, ignore, rep = env
    for w, spec, d, toks, modes in worlds:
        ot = ref.OffsetText(case)
        if w.input_plugins:
            ref.default_rewrite(ot, ignore, rep)
        if len(w.input_plugins) > 1:
            ref.prolonged_rewrite(ot, set(W.MARKS), 'ー')
        verify(w, spec, toks, modes, case, ot.origin, ctx, '%d/%d plugins' % (len(w.input_plugins), len(w.path_plugins)), ot.text())
    ctx.count('states')


# --- every number of units
def count_cases(tier):
    return [(n, k) for n in range(2, 128) for k in (0, 1)]


def count_check(env, case, ctx):
    n, user = case
    chars = [chr(0x4e00 + i) for i in range(n)]
    ents = [entry(c, 0, 0, 3000) for c in chars]
    mark = MARK if user else 0
    half = n // 2
    ents.append(entry(''.join(chars[:half]), -1, 0, 0))
    ents.append(entry(''.join(chars[half:]), -1, 0, 0))
    ents.append(entry(''.join(chars), 0, 0, -100, a=[mark | i for i in range(n)], b=[mark | n, mark | (n + 1)]))
    base = [entry('あ', 0, 0, 1)]
    w = World(base if user else ents, users=[(ents, [])] if user else [], simple=(0, 0, 30000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    d, toks, modes = opened(w)
    text = 'あ' + ''.join(chars) + 'あ'
    verify(w, Spec(w), toks, modes, text, list(range(len(text) + 1)), ctx, '%d units' % n)
    if len(toks['A'].tokenize(''.join(chars))) != n:
        raise Violation('%d units: mode A does not give %d morphemes' % (n, n))
    ctx.count('states')


def tmpdir(tier):
    return Scratch.dir('c05')


SECTIONS = [
    Section('declarations', decl_cases, decl_check, tmpdir,
            'all pairs of A/B declarations (none, one unit, every composition of 4) x dictionary of the word x location of the units x '
            'character widths, 5 texts, all modes, all splits of all lists'),
    Section('texts', rich_cases, rich_check, rich_setup, 'all texts up to 4 (thorough 5) over 11 characters, 9 plugin configurations'),
    Section('unit-counts', count_cases, count_check, tmpdir, 'every number of units 2..127, system and user dictionary'),
]
