"""C23: connection costs survive building and reading."""
import io
import itertools
import struct
import mmap
import os

from .. import fmt
from ..core import Scratch, Section, Violation
from ..enum import strings
from ..fmt import decode, entry
from ..ref import INH
from ..src import build_system, matrix_text, open_system, open_user, row, write_file, write_sources
from ..world import POS_SYS, World, check_min_path

PROPERTY = 'C23'
RULE = ('a case is one matrix source (or one matrix and a sequence of edits); the real builder builds it, an independent decoder and the '
        'real reader must give the cost of the source for every pair of ids, and the segmentation of every text must be optimal for it')
ASSUMPTIONS = ['of several costs for a pair the last counts, as in a file that is read from the top']
P = POS_SYS[0]


class Env:
    pass


def setup(tier):
    e = Env()
    e.dir = Scratch.dir('c23')
    e.paths = write_sources(e.dir, [[row('あ'), row('い', 1, 1, 5)]])
    return e


def check_cells(get, lsize, rsize, cells, what):
    for l in range(lsize):
        for r in range(rsize):
            got, want = int(get(l, r)), cells.get((l, r), 0)
            if got != want:
                raise Violation('%s: the cost of right id %d before left id %d is %d, the source says %s' % (
                    what, l, r, got, want if (l, r) in cells else 'nothing (0)'))


def build_and_check(env, text, lsize, rsize, cells, what, ctx, sparse=False):
    data = build_system(env.paths, text)
    d = decode(data)
    if (d.lsize, d.rsize) != (lsize, rsize):
        raise Violation('%s: the file has a %dx%d matrix' % (what, d.lsize, d.rsize))
    flat = [0] * (lsize * rsize)
    for (l, r), c in cells.items():
        flat[l + lsize * r] = c
    if d.cells != flat:
        i = [i for i in range(len(flat)) if d.cells[i] != flat[i]][0]
        raise Violation('%s: the file has cost %d for (%d, %d), the source %d' % (what, d.cells[i], i % lsize, i // lsize, flat[i]))
    if [e['surface'] for e in d.entries] != ['あ', 'い']:
        raise Violation('%s: the entries behind the matrix are %r' % (what, d.entries))
    bd = open_system(write_file(env.dir, 's.dic', data))
    check_cells(bd.grammar.get_connect_cost, lsize, rsize, cells, what)
    if bd.lexicon.size() != 2 or bd.lexicon.get_word_info(1).surface != 'い':
        raise Violation('%s: the lexicon behind the matrix is not read' % what)
    ctx.count('transitions')
    ctx.count('states')
    ctx.count('evaluations', lsize * rsize)


# --- every subset of the cells, in several orders
def cost_at(l, r, k):
    return [(l * 31 + r * 7 + 1) * (-1) ** (l + r), 32767 - l * 40 - r, -32768 + l * 40 + r, 256 * (l + 1) + r][k]


def subset_cases(tier):
    top = 4
    for ls in range(1, top + 1):
        for rs in range(1, top + 1):
            n = ls * rs
            if n > (12 if tier == 'quick' else 16):
                continue
            for mask in range(1 << n):
                for order in range(3):
                    for k in range(4 if n <= 6 else 2):
                        yield (ls, rs, mask, order, k)


def subset_check(env, case, ctx):
    ls, rs, mask, order, k = case
    cells = [(l, r) for l in range(ls) for r in range(rs)]
    given = [c for i, c in enumerate(cells) if mask >> i & 1]
    given = [given, given[::-1], sorted(given, key=lambda c: (c[1], c[0]))][order]
    m = {c: cost_at(c[0], c[1], k) for c in given}
    build_and_check(env, matrix_text(ls, rs, m), ls, rs, m, '%dx%d matrix with the cells %r' % (ls, rs, given), ctx)
    ctx.outcome(case)


# --- all orders of the lines
def order_cases(tier):
    for ls, rs in ((2, 2), (2, 3), (3, 2)) if tier == 'quick' else ((2, 2), (2, 3), (3, 2), (1, 7), (7, 1)):
        for p in itertools.permutations(range(ls * rs)):
            yield (ls, rs, p)


def order_check(env, case, ctx):
    ls, rs, p = case
    cells = [(l, r) for l in range(ls) for r in range(rs)]
    m = {cells[i]: cost_at(cells[i][0], cells[i][1], 0) for i in p}
    build_and_check(env, matrix_text(ls, rs, m), ls, rs, m, '%dx%d matrix, cells in the order %r' % (ls, rs, list(m)), ctx)
    ctx.outcome(case)


# --- pairs that are given several times
REPEAT_COSTS = [0, 5, -7, INH]


def repeat_cases(tier):
    for ls, rs in ((1, 2), (2, 1), (2, 2)):
        cells = [(l, r) for l in range(ls) for r in range(rs)]
        for n in range(2, 4 if ls * rs > 2 else 5 if tier == 'quick' else 6):
            for seq in itertools.product(itertools.product(cells, REPEAT_COSTS), repeat=n):
                if len({c for c, _ in seq}) < n:
                    yield (ls, rs, seq)


def repeat_check(env, case, ctx):
    ls, rs, seq = case
    text = '%d %d\n' % (ls, rs) + ''.join('%d %d %d\n' % (l, r, c) for (l, r), c in seq)
    build_and_check(env, text, ls, rs, dict(seq), 'matrix source %r' % text, ctx)
    ctx.outcome(case)


# --- layout: comments, blank lines, spaces, missing final newline
FILLERS = ['', '\n', '# 0 0 99\n', '#\n', '  \n', '\t\n', '\n\n', '#0 0 99\n# 1 1 99\n', '0 1\n', '5\n']
NUMBERS = ['%d', '0%d', '00%d', '+%d', '000000%d']
SEPS = [' ', '\t', '  ', ' \t ']


def layout_cases(tier):
    k = range(len(FILLERS))
    for f in itertools.product(k, repeat=3):
        yield ('fill', f, 0, 0)
    for s1 in range(4):
        for lead in ('', ' ', '\t'):
            for trail in ('', ' ', '\t', ' \t'):
                for end in ('\n', ''):
                    for nl in ('\n', '\r\n'):
                        yield ('sep', (s1, lead, trail), end, nl)
    for forms in itertools.product(range(len(NUMBERS)), repeat=3):
        yield ('number', forms, 0, 0)
    for n in list(range(1, 41)) + [100, 1000, 70000]:
        for filler in (1, 2, 3, 8):
            for where in range(4):
                yield ('many', n, filler, where)


def layout_check(env, case, ctx):
    kind, x, end, nl = case
    m = {(1, 2): -300, (0, 1): 7, (1, 0): 12}
    lines = ['%d %d %d\n' % (l, r, c) for (l, r), c in m.items()]
    if kind == 'fill':
        text = '2 3\n' + ''.join(FILLERS[f] + line for f, line in zip(x, lines)) + FILLERS[x[0]]
    elif kind == 'number':
        m = {(1, 2): -300, (0, 1): 17, (1, 0): 120, (0, 10): 77}
        spell = lambda f, v: (NUMBERS[f] % v if v >= 0 else '-' + NUMBERS[f].replace('+', '') % -v)  # noqa: E731
        text = '%s %s\n' % (spell(x[0], 2), spell(x[1], 11)) + ''.join('%s %s %s\n' % (spell(x[0], l), spell(x[1], r), spell(x[2], c)) for (l, r), c in m.items())
        build_and_check(env, text, 2, 11, m, 'matrix source %r' % text, ctx)
        ctx.outcome(case)
        return
    elif kind == 'many':
        lines.insert(nl, FILLERS[end] * x)
        text = '2 3\n' + ''.join(lines)
    else:
        s, lead, trail = SEPS[x[0]], x[1], x[2]
        text = nl.join([lead + s.join(line.split()) + trail for line in ['2 3'] + lines])
        text += nl if end else ''
    build_and_check(env, text, 2, 3, m, 'matrix source %r' % text[:300], ctx)
    ctx.outcome(case)


# --- every cost value
def value_cases(tier):
    for shape in ((256, 256), (128, 512), (1024, 64)) if tier == 'thorough' else ((256, 256),):
        for k in (0, 1):
            yield (shape, k)
    for shape in ((1, 32767), (32767, 1), (300, 200), (200, 300), (129, 127), (1000, 3), (3, 1000), (260, 260), (257, 256), (256, 257)):
        yield (shape, 2)


def value_check(env, case, ctx):
    (ls, rs), k = case
    m = {}
    n = ls * rs
    for i in range(n):
        l, r = (i % ls, i // ls) if k == 0 else (i // rs, i % rs)
        m[(l, r)] = ((i * (1 if k == 0 else 40503)) % 65536) - 32768
    if k < 2 and len(set(m.values())) != 65536:
        raise ValueError('not every value is used')
    build_and_check(env, matrix_text(ls, rs, m), ls, rs, m, '%dx%d matrix' % (ls, rs), ctx)
    ctx.outcome(case)


# --- wide matrices of which few cells are given
def wide_cases(tier):
    for shape in ((32767, 66), (66, 32767), (4096, 4097), (3000, 2999)) + (((32767, 4000), (4000, 32767), (11000, 11000)) if tier == 'thorough' else ()):
        for order in (0, 1, 2):
            yield shape + (order,)


def wide_check(env, case, ctx):
    ls, rs, order = case
    some = lambda n: sorted({0, 1, 2, n // 3, n // 2, 127, 128, 255, 256, (n - 1) // 256 * 256, n - 2, n - 1} & set(range(n)))  # noqa: E731
    given = [(l, r) for l in some(ls) for r in some(rs) if (l * 3 + r + order) % 4]
    given = [given, given[::-1], sorted(given, key=lambda c: (c[1], c[0]))][order]
    m = {c: (i * 7919 + 1) % 65536 - 32768 for i, c in enumerate(given)}
    what = '%dx%d matrix with %d cells (order %d)' % (ls, rs, len(m), order)
    data = build_system(env.paths, matrix_text(ls, rs, m))
    bd = open_system(write_file(env.dir, 's.dic', data))
    get = bd.grammar.get_connect_cost
    near = lambda n: sorted({x + k for x in some(n) for k in (-1, 0, 1)} & set(range(n)))  # noqa: E731
    for l in near(ls):
        for r in near(rs):
            if int(get(l, r)) != m.get((l, r), 0):
                raise Violation('%s: the cost of right id %d before left id %d is %d, expected %d' % (what, l, r, get(l, r), m.get((l, r), 0)))
            ctx.count('evaluations')
    at = data.index(struct.pack('<hh', ls, rs), 272) + 4
    want = bytearray(2 * ls * rs)
    for (l, r), c in m.items():
        struct.pack_into('<h', want, 2 * (l + ls * r), c)
    if data[at:at + len(want)] != want:
        raise Violation('%s: some cell in the file is not as given' % what)
    if bd.lexicon.size() != 2 or bd.lexicon.get_word_info(1).surface != 'い':
        raise Violation('%s: the lexicon behind the matrix is not read' % what)
    ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- edits in memory
EDIT_VALUES = [0, 123, -32768, INH]


def edit_world(ls, rs):
    m = {(l, r): cost_at(l, r, 0) for l in range(ls) for r in range(rs)}
    return m


def edit_cases(tier):
    shapes = ((2, 3), (3, 2), (1, 4)) if tier == 'quick' else ((2, 3), (3, 2), (1, 4), (4, 1), (2, 2), (3, 3))
    for ls, rs in shapes:
        cells = [(l, r) for l in range(ls) for r in range(rs)]
        depth = 2 if tier == 'quick' or ls * rs > 6 else 3
        for n in range(1, depth + 1):
            for seq in itertools.product(itertools.product(cells, EDIT_VALUES), repeat=n):
                for store in (('bytearray', 'mmap', 'user') if n < depth else ('bytearray',)):
                    yield (ls, rs, seq, store)


def edit_check(env, case, ctx):
    from sudachipy.dictionarylib.grammar import Grammar
    ls, rs, seq, store = case
    m = edit_world(ls, rs)
    what = '%dx%d matrix (%s), edits %r' % (ls, rs, store, seq)
    f = None
    if store == 'bytearray':
        class Buf(bytearray):
            pass
        raw = fmt.encode_grammar(POS_SYS[:2], ls, rs, m) + b'\x55' * 8
        mm = mmap.mmap(-1, len(raw))
        mm[:] = raw
        g = Grammar(mm, 0)
    else:
        data = fmt.encode(fmt.USER_V3, [entry('あ')], POS_SYS[:2], ls, rs, m)
        path = write_file(env.dir, 'u.dic', data)
        if store == 'user':
            bd = open_user(path)
            g = bd.grammar
        else:
            with open(path, 'rb') as f:
                mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY)
            g = Grammar(mm, 272)
    m = dict(m)
    check_cells(g.get_connect_cost, ls, rs, m, what + ': before')
    for k, ((l, r), c) in enumerate(seq):
        g.set_connect_cost(l, r, c)
        m[(l, r)] = c
        check_cells(g.get_connect_cost, ls, rs, m, what + ': after edit %d' % (k + 1))
        ctx.count('transitions')
    if [tuple(p) for p in g.pos_list] != POS_SYS[:2]:
        raise Violation('%s: parts of speech changed' % what)
    if store == 'bytearray' and mm[-8:] != b'\x55' * 8:
        raise Violation('%s: bytes behind the matrix changed' % what)
    if store != 'bytearray' and open(path, 'rb').read() != data:
        raise Violation('%s: the file changed' % what)
    ctx.count('states')
    ctx.outcome(case)


# --- the inhibiting plugin: every set of pairs
def inhibit_cases(tier):
    shapes = ((2, 2), (2, 3), (3, 2)) if tier == 'quick' else ((2, 2), (2, 3), (3, 2), (3, 3))
    for ls, rs in shapes:
        for mask in range(1 << (ls * rs)):
            yield (ls, rs, mask)


def inhibit_check(env, case, ctx):
    from sudachipy import config
    from sudachipy.dictionarylib.grammar import Grammar
    from sudachipy.plugin.connect_cost import InhibitConnectionPlugin
    import json
    ls, rs, mask = case
    m = edit_world(ls, rs)
    cells = sorted(m)
    pairs = [c for i, c in enumerate(cells) if mask >> i & 1]
    raw = fmt.encode_grammar(POS_SYS[:2], ls, rs, m)
    mm = mmap.mmap(-1, len(raw))
    mm[:] = raw
    g = Grammar(mm, 0)
    path = write_file(env.dir, 'inhibit.json', json.dumps({'systemDict': 'x', 'inhibitedPair': [list(p) for p in pairs] + [[], [1]]}).encode())
    config.settings.set_up(path, env.dir)
    p = InhibitConnectionPlugin()
    p.set_up(g)
    check_cells(g.get_connect_cost, ls, rs, m, 'before the plugin runs')
    p.edit(g)
    m = dict(m)
    for c in pairs:
        m[c] = INH
    if not pairs:
        # nothing is inhibited either where the setting is absent
        path = write_file(env.dir, 'inhibit.json', b'{"systemDict": "x"}')
        config.settings.set_up(path, env.dir)
        p = InhibitConnectionPlugin()
        p.set_up(g)
        p.edit(g)
    check_cells(g.get_connect_cost, ls, rs, m, '%dx%d, inhibited pairs %r' % (ls, rs, pairs))
    ctx.count('states')
    ctx.count('transitions')
    ctx.outcome(case)


# --- segmentation with a matrix that came through the builder
class BuiltWorld(World):
    """the system dictionary is built from sources by the real builder"""

    def system_bytes(self):
        d = Scratch.dir('c23src')
        rows = [row(e['head'], e['left'], e['right'], e['cost'], pos=self.pos_list[e['pos']]) for e in self.system]
        # all parts of speech of the configuration have to occur
        rows += [row('品%d' % i, -1, 0, 0, pos=p) for i, p in enumerate(self.pos_list)]
        paths = write_sources(d, [rows])
        data = build_system(paths, matrix_text(self.lsize, self.rsize, self.matrix))
        for p in paths:
            os.unlink(p)
        os.rmdir(d)
        return data


TEXTS = list(strings('あい', 3))


def seg_lexicon(ls, rs):
    """words whose right ids cover the first dimension and left ids the second"""
    out = []
    for i, h in enumerate(['あ', 'い', 'あい', 'いあ', 'ああ', 'あ']):
        out.append(entry(h, (i + 1) % rs, (i * 2 + 1) % ls, [3, 4, 6, 7, 8, 1][i]))
    return out


def seg_cases(tier):
    shapes = ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)) if tier == 'quick' else ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 5), (5, 1), (2, 4), (4, 2))
    vals = (None, 9, INH)
    for ls, rs in shapes:
        for v in itertools.product(range(3), repeat=ls * rs):
            yield (ls, rs, v)


def seg_check(env, case, ctx):
    ls, rs, v = case
    cells = [(l, r) for l in range(ls) for r in range(rs)]
    m = {c: (None, 9, INH)[x] for c, x in zip(cells, v) if x}
    w = BuiltWorld(seg_lexicon(ls, rs), matrix=m, lsize=ls, rsize=rs, simple=(0, 0, 30000, POS_SYS[2]))
    w.dir = env.dir
    w.write(env.dir)
    dic = w.open()
    tok = dic.create()
    model = w.model()
    check_cells(dic.grammar.get_connect_cost, ls, rs, m, 'matrix %r' % (m,))
    res = []
    for text in TEXTS:
        best = model.minimum(text)
        ctx.count('transitions')
        try:
            ml = tok.tokenize(text)
        except Exception as e:
            if best is None:
                res.append(None)
                continue
            raise Violation('matrix %dx%d %r: %r: %r, but a path exists' % (ls, rs, m, text, e))
        if best is None:
            raise Violation('matrix %dx%d %r: %r: a path %r although none is connected' % (ls, rs, m, text, [str(x) for x in ml]))
        check_min_path(model, text, ml, 'matrix %dx%d %r' % (ls, rs, m))
        res.append(tuple(x.end() for x in ml))
    ctx.count('states')
    ctx.outcome((ls, rs, m, res))


# --- edits reach tokenizers that exist already
def live_cases(tier):
    ls, rs = 2, 3
    cells = [(l, r) for l in range(ls) for r in range(rs)]
    one = [(c, x) for c in cells for x in (-50, 50, INH)]
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for seq in itertools.product(one, repeat=n):
            if len({c for c, _ in seq}) == n:
                yield seq


def live_setup(tier):
    e = setup(tier)
    e.lex = seg_lexicon(2, 3)
    e.matrix = {(0, 0): 1, (0, 1): 2, (1, 1): 3, (1, 2): 4}
    e.w = World(e.lex, matrix=e.matrix, lsize=2, rsize=3, simple=(0, 0, 30000, POS_SYS[2]))
    e.d = e.w.write(Scratch.dir('c23live'))
    e.dic = e.w.open()
    return e


def live_check(env, case, ctx):
    from sudachipy.dictionarylib.doublearraylexicon import DoubleArrayLexicon
    from sudachipy.dictionarylib.grammar import Grammar
    from sudachipy.dictionarylib.lexiconset import LexiconSet
    from sudachipy.tokenizer import Tokenizer
    with open(os.path.join(env.d, 'system.dic'), 'rb') as f:
        mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY)
    g = Grammar(mm, 272)
    lex = LexiconSet(DoubleArrayLexicon(mm, 272 + g.get_storage_size(), True))
    g.set_character_category(env.dic.grammar.get_character_category())
    tok = Tokenizer(g, lex, [], env.dic.oov_provider_plugins, [])
    m = dict(env.matrix)
    res = []
    for k in range(len(case) + 1):
        w = World(env.lex, matrix=m, lsize=2, rsize=3, simple=(0, 0, 30000, POS_SYS[2]))
        model = w.model()
        for text in TEXTS:
            best = model.minimum(text)
            ctx.count('transitions')
            what = 'after the edits %r' % (case[:k],)
            try:
                ml = tok.tokenize(text)
            except Exception as e:
                if best is None:
                    continue
                raise Violation('%s: %r: %r' % (what, text, e))
            if best is None:
                raise Violation('%s: %r: a path although none is connected' % (what, text))
            check_min_path(model, text, ml, what)
            res.append(tuple(x.end() for x in ml))
        if k < len(case):
            (l, r), c = case[k]
            g.set_connect_cost(l, r, c)
            m[(l, r)] = c
    ctx.count('states')
    ctx.outcome((case, res))


SECTIONS = [
    Section('subsets', subset_cases, subset_check, setup, 'all subsets of the cells of all matrices up to 4x3 and 3x4 (thorough 4x4), 3 orders, up to 4 cost patterns'),
    Section('orders', order_cases, order_check, setup, 'all orders of the lines of 2x2, 2x3, 3x2 matrices (thorough also 1x7, 7x1)'),
    Section('repeated', repeat_cases, repeat_check, setup, 'all sequences of up to 4 (5) lines for a matrix of two cells and of up to 3 for one of four that give a pair more than once, costs 0, 5, -7, inhibited'),
    Section('layout', layout_cases, layout_check, setup, 'fillers between lines, numbers with signs and leading zeros, up to 70000 comment or blank lines at every place, separators, line ends'),
    Section('values', value_cases, value_check, setup, 'every 16-bit cost; shapes up to 32767x1', block=1),
    Section('wide', wide_cases, wide_check, setup, 'wide matrices (thorough: up to 32767 x 4000), cells at ids of every magnitude, 3 orders', block=1),
    Section('edits', edit_cases, edit_check, setup, 'all sequences of up to 2 (thorough 3) edits'),
    Section('inhibit', inhibit_cases, inhibit_check, setup, 'all sets of inhibited pairs'),
    Section('segmentation', seg_cases, seg_check, setup, 'all matrices over {omitted, 9, inhibited} of small shapes built from source, all texts of length <= 3'),
    Section('live-edits', live_cases, live_check, live_setup, 'all sequences of up to 2 (thorough 3) edits with a tokenizer that exists already'),
]
