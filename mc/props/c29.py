"""C29: the debug output shows the lattice and the paths of the analysis."""
import itertools
import re

from .. import cli, world as W
from ..core import Section, Violation
from ..enum import strings
from ..fmt import entry
from ..ref import INH
from ..world import World, POS_SYS, observe_all
from .c02 import unk_table

PROPERTY = 'C29'
RULE = ('a case is one text (or one connection matrix with texts); it is analysed with a logger that keeps the messages, and the messages are compared with the '
        'candidates, costs and connection costs of the reference model and with the result')
ASSUMPTIONS = ['messages have the published layout (section titles start with ===, one message per node)']

NODE = re.compile(r'(\d+): (\d+) (\d+) (.*)\((-?\d+)\) (\S+) (-?\d+) (-?\d+) (-?\d+): ?((?:-?\d+ ?)*)$', re.S)
PATH = re.compile(r'(\d+): (\d+) (\d+) (.*)\((-?\d+)\) (-?\d+) (-?\d+) (-?\d+)\uffff?$', re.S)


class Keep:
    """a logger that keeps the messages"""
    disabled = False

    def __init__(self):
        self.messages = []

    def info(self, msg, *args):
        self.messages.append(msg % args if args else msg)


def sections(messages, what):
    out, name = {}, None
    for m in messages:
        if m.startswith('==='):
            name = m.strip('= :').lower()
            if name in out:
                raise Violation('%s: %r is shown twice' % (what, m))
            out[name] = []
        elif name is None:
            raise Violation('%s: %r before any title' % (what, m))
        else:
            out[name].append(m)
    return out


def pick(secs, word, what):
    for k in secs:
        if word in k:
            return secs[k]
    raise Violation('%s: nothing is shown about %r, only %r' % (what, word, sorted(secs)))


def offsets(text):
    o, out = 0, [0]
    for c in text:
        o += len(c.encode('utf-8'))
        out.append(o)
    return out


def expected_nodes(model, text):
    """multiset of (begin, end, surface, word, pos, left, right, cost, connection costs)"""
    off = offsets(text)
    cands = model.candidates(text) or {}
    rights = {0: [0]}
    for cs in cands.values():
        for c in cs:
            rights.setdefault(c.e, []).append(c.right)
    out = []
    for b, cs in cands.items():
        for c in cs:
            e = None if c.oov else model.lexicons[c.did][c.wid]
            out.append((off[b], off[c.e], text[b:c.e] if e is None else e['surface'], None if e is None else (c.did << 28) + c.wid, ','.join(c.pos),
                        c.left, c.right, c.cost, tuple(sorted(model.conn(r, c.left) for r in rights[b]))))
    n = len(text)
    eos = (off[n], off[n], None, None, 'BOS/EOS', 0, 0, 0, tuple(sorted(model.conn(r, 0) for r in rights.get(n, ()))))
    return sorted(out, key=repr), eos


def check_text(model, tok, text, mode, modes, ctx, what, mtext=None, result=None):
    mtext = text if mtext is None else mtext
    keep = Keep()
    what = '%s: %r' % (what, text)
    try:
        ml = tok.tokenize(text, modes[mode], keep)
    except Exception as e:
        if model.minimum(mtext) is not None:
            raise Violation('%s: with debug output: %s: %s' % (what, type(e).__name__, e))
        ml = None
    want = None
    try:
        want = observe_all(tok.tokenize(text, modes[mode]))
    except Exception:
        pass
    if (None if ml is None else observe_all(ml)) != want:
        raise Violation('%s: the result is another with debug output' % what)
    ctx.count('transitions')
    secs = sections(keep.messages, what)
    if not text:
        return
    shown = pick(secs, 'dump', what) if not any('npu' in k for k in secs) else [v for k, v in secs.items() if 'lattice' not in k and 'dump' in k][0]
    if ''.join(shown) != mtext:
        raise Violation('%s: the analysed text is shown as %r, not %r' % (what, shown, mtext))
    if model.candidates(mtext) is None:
        return
    nodes, eos, bos = [], [], 0
    for i, m in enumerate(pick(secs, 'lattice', what)):
        g = NODE.match(m)
        if not g or int(g.group(1)) != i + 1:
            raise Violation('%s: line %d of the lattice is %r' % (what, i + 1, m))
        b, e, surf, wid, pos, l, r, c = int(g[2]), int(g[3]), g[4], int(g[5]), g[6], int(g[7]), int(g[8]), int(g[9])
        conn = tuple(sorted(int(x) for x in g[10].split()))
        if pos == 'BOS/EOS':
            if e == 0:
                bos += 1
            else:
                eos.append((b, e, None, None, pos, l, r, c, conn))
        else:
            nodes.append((b, e, surf, wid, pos, l, r, c, conn))
    wn, we = expected_nodes(model, mtext)
    oov = {w[:3] + w[4:] for w in wn if w[3] is None}
    got = sorted((n if n[:3] + n[4:] not in oov or n in wn else n[:3] + (None,) + n[4:] for n in nodes), key=repr)
    if sorted(got, key=repr) != wn:
        miss = [w for w in wn if w not in got]
        more = [g for g in got if g not in wn]
        raise Violation('%s: the lattice shows %r; missing %r, not expected %r' % (what, got, miss, more))
    if eos != [we] or bos != 1:
        raise Violation('%s: the end is shown as %r (%d beginnings), expected %r' % (what, eos, bos, we))
    if ml is None:
        if any('before' in k for k in secs):
            raise Violation('%s: a path is shown although there is none' % what)
        ctx.count('no_path')
        return
    paths = {}
    for key in ('before', 'after'):
        p = []
        for i, m in enumerate(pick(secs, key, what)):
            g = PATH.match(m)
            if not g or int(g.group(1)) != i:
                raise Violation('%s: line %d of the path is %r' % (what, i + 1, m))
            p.append((int(g[2]), int(g[3]), g[4], int(g[5])) + tuple(int(x) for x in g.groups()[5:]))
        paths[key] = p
    # the path before rewriting is one of the lattice, of the lowest cost
    off = offsets(mtext)
    groups, pos = [], 0
    cands = model.candidates(mtext)
    for b, e, surf, wid, l, r, c in paths['before']:
        if b != pos or b not in off or e not in off:
            raise Violation('%s: the path before rewriting is %r' % (what, paths['before']))
        alts = [x for x in cands.get(off.index(b), ()) if off[x.e] == e and (x.left, x.right, x.cost) == (l, r, c) and
                (x.oov or (x.did << 28) + x.wid == wid)]
        if not alts:
            raise Violation('%s: %r of the path is not in the lattice' % (what, surf))
        groups.append(alts[:1])
        pos = e
    if pos != off[-1] or model.cost_of_path(groups) != model.minimum(mtext):
        raise Violation('%s: the path before rewriting, %r, is not of the lowest cost' % (what, paths['before']))
    # the path after rewriting is the result
    after = [(b, e, surf) for b, e, surf, *_ in paths['after']]
    res, o = [], 0
    for m in ml:
        h = m.get_word_info().head_word_length
        res.append((o, o + h, m.get_word_info().surface))
        o += h
    if after != res:
        raise Violation('%s: the path after rewriting is %r, the result is %r' % (what, after, res))
    for m, x in zip(ml, paths['after']):
        if m.dictionary_id() >= 0 and m.word_id() != x[3]:
            raise Violation('%s: word id %d is shown as %d' % (what, m.word_id(), x[3]))
    ctx.outcome((what, mode, after))
    ctx.count('nodes', len(nodes))


# --- texts
LEX = [entry('あ', 1, 1, 10), entry('い', 2, 1, -20, surface='イ(1) 2'), entry('漢', 1, 2, 10), entry('あい', 1, 1, 5, a=[0, 1], b=[]), entry('あ', 2, 2, 12, pos=3),
       entry('漢あい', 2, 2, -300, a=[2, 0, 1], b=[2, 3]), entry('1', 1, 1, 5, pos=1), entry('2', 1, 1, 5, pos=1), entry('禁', 1, 3, 1)]
USER = [entry('い', 1, 2, 32767, pos=6), entry('漢', 2, 1, -32767), entry('漢漢', 1, 1, -9, a=[2, (1 << 28) + 1], b=[])]
USER2 = [entry('あ', 1, 1, 9, pos=6)]
MATRIX = {(1, 1): 2, (1, 2): -30, (2, 1): 17, (0, 1): 4, (3, 1): INH, (3, 2): INH, (3, 0): INH, (3, 3): INH, (2, 0): -1, (1, 3): 32766, (0, 2): -32768}
CHARS = ['あ', 'い', '漢', '1', 'ア', '禁', '𠮷']


class Env:
    pass


def setup(tier):
    env = Env()
    env.modes = W.modes()
    base = dict(system=LEX, users=[(USER, [('名詞', '甲', '*', '*', '*', '*')]), (USER2, [('名詞', '乙', '*', '*', '*', '*')])], simple=(3, 1, 900, POS_SYS[2]),
                matrix=MATRIX, lsize=4, rsize=4)
    env.w = {'plain': World(**base), 'unknown': World(unk=unk_table(), **base),
             'joins': World(unk=unk_table(), input_plugins=[W.DEFAULT_PLUGIN], path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN], **base),
             'rules-last': World(unk=unk_table(), oov_order='sm', **dict(base, system=LEX + [entry('ーあ', 1, 1, 3), entry('ー', 2, 2, 7)]))}
    env.o = {}
    for k, w in env.w.items():
        d = w.open()
        env.o[k] = (w.model(), d, d.create())
    return env


def cases(tier):
    yield ''
    yield from strings(CHARS, 4 if tier == 'quick' else 5)
    yield from strings(['あ', 'い', '漢'], 6 if tier == 'quick' else 8)
    yield from strings(['ー', 'あ', 'ア'], 4 if tier == 'quick' else 6)
    for c in ' ()\n\t%:0aＡ｛{ー':
        for t in (c, 'あ' + c, c + '漢' + c, c + '(1) 2'):
            yield t
    for n in (10, 50, 100, 300):
        yield 'あい漢' * n


def check(env, case, ctx):
    import unicodedata
    for k, (model, d, tok) in env.o.items():
        mtext = case
        if k == 'joins':
            mtext = ''.join(unicodedata.normalize('NFKC', c.lower()) for c in case)
            if case != mtext and len(case) > 4:
                continue
        for mode in ('CAB' if len(case) <= 3 else 'A'):
            check_text(model, tok, case, mode, env.modes, ctx, k + ' mode ' + mode, mtext)
    ctx.count('states')


# --- connection matrices
def matrix_cases(tier):
    vals = [0, 7, INH]
    for m in itertools.product(vals, repeat=8):
        yield m


def matrix_check(env, case, ctx):
    cells = [(l, r) for l in range(3) for r in range(3) if (l, r) != (0, 0)]
    w = World([entry('あ', 1, 1, 1), entry('あ', 2, 1, 2), entry('い', 1, 2, 3), entry('あい', 2, 2, 4)], lsize=3, rsize=3, matrix=dict(zip(cells, case)),
              simple=(0, 0, 900, POS_SYS[2]))
    w.dir = env.dir
    w.write(env.dir)
    tok = w.open().create()
    model = w.model()
    for t in ('あ', 'い', 'あい', 'いあ', 'ああい'):
        check_text(model, tok, t, 'C', env.modes, ctx, 'matrix %r' % (case,))
    ctx.count('states')


def matrix_setup(tier):
    from ..core import Scratch
    env = Env()
    env.modes = W.modes()
    env.dir = Scratch.dir('c29')
    return env


# --- many words beginning or ending at one place
def many_cases(tier):
    for n in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 253, 254, 255]:
        for t in ('あ', 'あい', 'いあい', 'あああ'):
            yield (n, t)


def many_check(env, case, ctx):
    n, t = case
    w = World([entry('あ', i % 3, (i // 3) % 3, i * 7 % 50, pos=i % 4) for i in range(n)] + [entry('い', 1, 2, 3), entry('い', 2, 1, 3)], lsize=3, rsize=3,
              matrix={(0, 1): 4, (1, 1): 7, (2, 1): 1, (1, 2): INH, (1, 0): 2, (2, 0): 3}, simple=(0, 0, 900, POS_SYS[2]))
    w.dir = env.dir
    w.write(env.dir)
    check_text(w.model(), w.open().create(), t, 'C', env.modes, ctx, '%d words' % n)
    ctx.count('states')


# --- several user dictionaries with parts of speech of their own
def users_cases(tier):
    for n in (1, 2, 3, 4, 7, 13, 14):
        for own in ((1, 0), (0, 1), (1, 1), (0, 0)):
            yield (n,) + own


def users_check(env, case, ctx):
    n, first, rest = case
    heads = 'ぁぃぅぇぉかきくけこさしすせ'
    users = []
    for k in range(n):
        own = first if k == 0 else rest
        users.append(([entry(heads[k], 1 + k % 2, 2 - k % 2, k, pos=6 if own else k % 4), entry('あ', 1, 2, 20 + k, pos=7 if own else 1)],
                      [('名詞', '自作%d' % k, '*', '*', '*', '*'), ('名詞', '共通', '*', '*', '*', str(k))] if own else []))
    w = World([entry('あ', 1, 1, 30), entry('い', 1, 2, 3)], users=users, lsize=3, rsize=3, matrix={(1, 1): 7, (2, 1): 1, (1, 2): 9}, simple=(0, 0, 900, POS_SYS[2]))
    w.dir = env.dir
    w.write(env.dir)
    tok, model = w.open().create(), w.model()
    for t in ('あ', 'い' + heads[:n], heads[n - 1] + 'あ' + heads[0]):
        check_text(model, tok, t, 'C', env.modes, ctx, '%d user dictionaries' % n)
    ctx.count('states')


# --- the command line
def cli_cases(tier):
    yield from strings(['あい漢', '禁', '1', '𠮷ア'], 2 if tier == 'quick' else 3)


def cli_check(env, case, ctx):
    import os
    for k, (model, d, tok) in env.o.items():
        for mode in 'CA':
            opts = ['-r', os.path.join(env.w[k].dir, 'sudachi.json'), '-m', mode, '-a']
            data = (case + '\n\n').encode('utf-8')
            keep = Keep()
            try:
                tok.tokenize(case, env.modes[mode], keep)
                failed = False
            except Exception:
                failed = True
            c0, out0, err0 = cli.fork_main(opts, data)
            c1, out1, err1 = cli.fork_main(opts + ['-d'], data)
            if (c0 != 0) != failed or (c1 != 0) != failed:
                raise Violation('%s %r: exit status %d, with -d %d' % (k, case, c0, c1))
            dump = ''.join(m + '\n' for m in keep.messages).encode('utf-8')
            if out1 != dump + out0:
                raise Violation('%s %r: -d prints %r, expected the debug output %r and then %r' % (
                    k, case, out1.decode('utf-8', 'replace')[-300:], dump.decode('utf-8')[-300:], out0.decode('utf-8')))
            ctx.count('transitions', 2)
    ctx.count('states')
    ctx.outcome(case)


SECTIONS = [
    Section('texts', cases, check, setup, 'all texts up to 4 (thorough 5) over 7 characters and up to 6 (8) over 3, in 3 configurations', block=32),
    Section('matrices', matrix_cases, matrix_check, matrix_setup, 'all 3x3 connection matrices over {0, 7, inhibited} x 5 texts', block=32),
    Section('many', many_cases, many_check, matrix_setup, '1..39 and about 64, 128 and 254 homographs x 4 texts', block=4),
    Section('users', users_cases, users_check, matrix_setup, '1..14 user dictionaries, with and without parts of speech of their own', block=2),
    Section('command', cli_cases, cli_check, setup, 'the -d option for 20 (84) inputs, in 3 configurations and 2 modes', block=1),
]
