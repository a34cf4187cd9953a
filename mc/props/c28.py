"""C28: a result is a sequence of its morphemes."""
import itertools

from .. import world as W
from ..core import Section, Violation
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS, observe
from .c02 import unk_table

PROPERTY = 'C28'
RULE = ('a case is one sequence of reading operations on one result (a length, an index, a partly consumed iterator, attributes of a morpheme in some order, '
        'the text of the list, ...); every answer is compared with the plain list of what a fresh analysis of the same text gives')
ASSUMPTIONS = ['slices are not supported by results']

LEX = [entry('あ', 1, 1, 10, reading='ア', syn=[4]), entry('い', 1, 1, 10, dform=0), entry('漢', 1, 1, 10), entry('あい', 1, 1, 5, a=[0, 1], b=[], norm='愛'),
       entry('あいあ', 1, 1, 1, a=[0, 1, 0], b=[3, 0]), entry('1', 1, 1, 5, pos=1), entry('万', 1, 1, 5, pos=1)]
USER = [entry('漢漢', 1, 1, 2, a=[2, 2], b=[2, 2])]
TEXTS = ['', 'あ', 'あいあ漢漢', '1万𠮷あい', 'ｱＡあいあ', '漢漢漢ア']

ATTRS = ['begin', 'end', 'surface', 'part_of_speech', 'part_of_speech_id', 'normalized_form', 'dictionary_form', 'reading_form', 'is_oov', 'word_id',
         'dictionary_id', 'synonym_group_ids', '__str__']


class Env:
    pass


def plain(m):
    out = {}
    for a in ATTRS:
        v = getattr(m, a)()
        out[a] = tuple(v) if isinstance(v, (list, tuple)) else v
    if out['__str__'] != out['surface']:
        raise Violation('str() of the morpheme %r is %r' % (out['surface'], out['__str__']))
    return out


def setup(tier):
    env = Env()
    env.w = World(LEX, users=[(USER, [])], unk=unk_table(), simple=(0, 0, 900, POS_SYS[2]), lsize=3, rsize=3, matrix={(1, 1): 2},
                  input_plugins=[W.DEFAULT_PLUGIN], path_plugins=[W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN])
    env.modes = W.modes()
    env.dic = env.w.open()
    env.tok = env.dic.create()
    env.want = {}
    for t in TEXTS:
        for mode in 'ABC':
            tok = env.w.open().create()
            env.want[t, mode] = [plain(m) for m in tok.tokenize(t, env.modes[mode])]
            ms = tok.tokenize(t, env.modes[mode])
            env.want[t, mode, 'split'] = {sm: [[plain(x) for x in m.split(env.modes[sm])] for m in ms] for sm in 'ABC'}
    return env


# operations: name, argument
OPS = [('len',), ('size',), ('str',), ('all',), ('first',), ('last',), ('neg',), ('low',), ('high',), ('open',), ('next',), ('rest',), ('reversed',),
       ('attrs', 0), ('attrs', 1), ('twice',), ('splitA',), ('splitB',), ('nested',)]


def check_ml(get, want, wsplit, ops, what, modes, ctx):
    """get() gives the result under test"""
    ml = get()
    n = len(want)
    it = None
    at = 0
    held = None
    kept = []    # units obtained on the way: they stay as they are

    def same(m, k, why):
        got = plain(m)
        if got != want[k]:
            raise Violation('%s: %s gives %r, not morpheme %d: %r' % (what, why, got, k, want[k]))
    for name, *arg in ops:
        ctx.count('transitions')
        if name == 'len':
            if len(ml) != n or bool(ml) != bool(n):
                raise Violation('%s: the length is %d, not %d' % (what, len(ml), n))
        elif name == 'size':
            if hasattr(ml, 'size') and ml.size() != n:
                raise Violation('%s: the size is %d, not %d' % (what, ml.size(), n))
        elif name == 'str':
            if hasattr(ml, 'size') and str(ml) != ''.join(w['surface'] for w in want):
                raise Violation('%s: the text is %r' % (what, str(ml)[:200]))
        elif name == 'all':
            ms = list(ml)
            if len(ms) != n:
                raise Violation('%s: iterating gives %d morphemes, not %d' % (what, len(ms), n))
            for k in reversed(range(n)):
                same(ms[k], k, 'iterating')
        elif name in ('first', 'last', 'neg'):
            for k in range(n) if name == 'neg' else [0] if name == 'first' else [n - 1]:
                if not n:
                    continue
                i = k - n if name == 'neg' else k
                same(ml[i], k, 'index %d' % i)
        elif name in ('low', 'high'):
            for d in (0, 1, n, 1 << 31, 1 << 64):
                i = -n - 1 - d if name == 'low' else n + d
                try:
                    m = ml[i]
                except IndexError:
                    continue
                raise Violation('%s: index %d gives %r' % (what, i, m))
        elif name == 'open':
            it, at = iter(ml), 0
        elif name == 'next':
            if it is not None:
                m = next(it, None)
                if (m is None) != (at >= n):
                    raise Violation('%s: an iterator ends after %d of %d morphemes' % (what, at, n))
                if m is not None:
                    same(m, at, 'an iterator')
                    held = (m, at)
                    at += 1
        elif name == 'rest':
            ms = list(it) if it is not None else []
            if it is not None and len(ms) != n - at:
                raise Violation('%s: the rest of an iterator has %d morphemes, not %d' % (what, len(ms), n - at))
            for j, m in enumerate(ms):
                same(m, at + j, 'the rest of an iterator')
            at = n
        elif name == 'reversed':
            ms = list(reversed(ml))
            if len(ms) != n:
                raise Violation('%s: iterating backwards gives %d morphemes' % (what, len(ms)))
            for j, m in enumerate(ms):
                same(m, n - 1 - j, 'iterating backwards')
        elif name == 'attrs':
            # attributes in either order of one morpheme, each twice
            for k in range(n):
                m = ml[k]
                for a in (ATTRS if arg[0] == 0 else ATTRS[::-1]):
                    for _ in range(2):
                        v = getattr(m, a)()
                        v = tuple(v) if isinstance(v, (list, tuple)) else v
                        if v != want[k][a]:
                            raise Violation('%s: %s() of morpheme %d is %r, not %r' % (what, a, k, v, want[k][a]))
        elif name == 'twice':
            if held is not None:
                same(held[0], held[1], 'a morpheme read earlier')
            if n:
                a, b = ml[0], ml[n - 1]
                same(b, n - 1, 'index'), same(a, 0, 'index')
                held = (b, n - 1)
        elif name == 'nested':
            i = -1
            for i, x in enumerate(ml):
                j = -1
                for j, y in enumerate(ml):
                    if j in (0, n - 1):
                        same(y, j, 'a nested iteration')
                if j != n - 1:
                    raise Violation('%s: a nested iteration ends after %d of %d morphemes' % (what, j + 1, n))
                same(x, i, 'an iteration around another')
            if i != n - 1:
                raise Violation('%s: an iteration around another ends after %d of %d morphemes' % (what, i + 1, n))
        elif name in ('splitA', 'splitB'):
            if wsplit is None:
                continue
            for k in range(n):
                parts = ml[k].split(modes[name[-1]])
                got = [plain(x) for x in parts]
                if got != wsplit[name[-1]][k]:
                    raise Violation('%s: splitting morpheme %d gives %r' % (what, k, got))
                kept.append((parts, name[-1], k))
    if len(ml) != n or [plain(m) for m in ml] != want:
        raise Violation('%s: the result has changed' % what)
    for parts, sm, k in kept:
        if [plain(x) for x in parts] != wsplit[sm][k]:
            raise Violation('%s: the units (%s) of morpheme %d have changed' % (what, sm, k))


def cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        yield from itertools.product(range(len(OPS)), repeat=n)


def check(env, case, ctx):
    ops = [OPS[k] for k in case]
    for i, t in enumerate(TEXTS):
        mode = 'CAB'[(i + sum(case)) % 3] if len(case) > 2 else None
        for mo in ([mode] if mode else 'ABC'):
            what = '%r (mode %s) after %s' % (t, mo, ', '.join('%s' % o[0] for o in ops))
            check_ml(lambda: env.tok.tokenize(t, env.modes[mo]), env.want[t, mo], env.want[t, mo, 'split'], ops, what, env.modes, ctx)
            # the units of a morpheme are a result as well
            if len(case) <= 2:
                for k in range(len(env.want[t, mo])):
                    for sm in 'ABC':
                        check_ml(lambda: env.tok.tokenize(t, env.modes[mo])[k].split(env.modes[sm]), env.want[t, mo, 'split'][sm][k], None, ops,
                                 'units (%s) of morpheme %d of %s' % (sm, k, what), env.modes, ctx)
    ctx.count('states')
    ctx.outcome(case)


# --- results of every length
def length_cases(tier):
    for n in list(range(0, 70 if tier == 'quick' else 400)) + [127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097]:
        for unit in ('あ漢', '𠮷'):
            yield (n, unit)


def length_check(env, case, ctx):
    n, unit = case
    text = (unit * n)[:n * len(unit)]
    ml = env.tok.tokenize(text)
    want = []
    tok = env.w.open().create()
    ref = tok.tokenize(text)
    want = [plain(ref[k]) for k in range(len(ref))]
    if n and (want[0]['begin'], want[-1]['end']) != (0, len(text)):
        raise Violation('%r x %d: the result covers %d..%d' % (unit, n, want[0]['begin'], want[-1]['end']))
    for a, b in zip(want, want[1:]):
        if a['end'] != b['begin']:
            raise Violation('%r x %d: %r before %r' % (unit, n, a, b))
    check_ml(lambda: ml, want, None, [o for o in OPS if o[0] != 'nested'], '%r x %d' % (unit, n), env.modes, ctx)
    ctx.count('states')
    ctx.outcome(case)


SECTIONS = [
    Section('operations', cases, check, setup, 'all sequences of up to 3 (thorough 4) of 19 reading operations on the results of 6 texts (and, up to 2, on the units of their morphemes)', block=16),
    Section('lengths', length_cases, length_check, setup, 'results of every length up to 70 (400) and around powers of two up to 4097', block=2),
]
