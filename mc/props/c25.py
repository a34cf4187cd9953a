"""C25: a dictionary can be closed and reopened at any point."""
import gc
import itertools
import os

from ..core import Scratch, Section, Violation
from ..world import DEFAULT_PLUGIN, KATAKANA_PLUGIN, NUMERIC_PLUGIN, POS_SYS, PSM_PLUGIN, World, modes, observe_all
from .c22 import CATS, MATRIX, SYSTEM, USER1, USER2, quiet

PROPERTY = 'C25'
RULE = ('a case is one sequence of operations on up to three dictionary slots (two of them over the same files); after every closing the '
        'files of the closed dictionary must no longer be mapped or open unless another slot uses them, every other slot must give its '
        'results, and at the end everything is closed; the collector of reference cycles is off (its worst schedule)')
ASSUMPTIONS = ['the process reads its mappings in /proc/self/maps', 'closing a dictionary that is in use may be refused, but must not prevent closing it later']
TEXT = '東京都に行っ東京都京 abc東1,000アイウエ'
TEXT2 = '都東'


def worlds():
    plain = World(SYSTEM, [], matrix=MATRIX, unk=CATS, input_plugins=[], path_plugins=[])
    rich = World(SYSTEM, [USER1, USER2], matrix=MATRIX, unk=CATS,
                 input_plugins=[DEFAULT_PLUGIN, PSM_PLUGIN], path_plugins=[NUMERIC_PLUGIN, KATAKANA_PLUGIN], desc='user words')
    old = World(SYSTEM, [([dict(e, pos=0) for e in USER1[0]], [])], matrix=MATRIX, unk=CATS, version='S1', user_version='U1', desc='説明 ' + 'x' * 100)
    return [plain, rich, old]


OPS = ['open', 'create', 'tokenize', 'read', 'split', 'fail', 'lookup', 'drop', 'close', 'close-in-use']


class Slot:
    def __init__(self, world):
        self.world = world
        self.dic = None
        self.tok = None
        self.ml = None
        self.parts = None


class Env:
    pass


def results(dic):
    """what the dictionary does, through a tokenizer that is dropped again"""
    t = dic.create()
    out = []
    for x in ('A', 'B', 'C'):
        out.append(observe_all(t.tokenize(TEXT, modes()[x])))
    out.append(observe_all(t.tokenize(TEXT2)))
    return tuple(out)


def mapped(dirs):
    """files below the directories that the process maps or has open"""
    out = set()
    with open('/proc/self/maps') as f:
        for line in f:
            p = line.split(None, 5)
            if len(p) == 6 and p[5].startswith(tuple(dirs)):
                out.add(p[5].strip())
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(tuple(dirs)):
            out.add(p)
    return out


def setup(tier):
    quiet()
    gc.collect()
    gc.disable()
    e = Env()
    e.worlds = worlds()
    e.dirs = []
    for w in e.worlds:
        base = w.write(Scratch.dir('c25'))
        plug = os.path.join(base, 'rewrite.def')
        with open(plug, 'wb') as f:
            f.write('Ａ a\n'.encode())
        e.dirs.append(base)
    e.first = []
    for w in e.worlds:
        dic = w.open()
        e.first.append(results(dic))
        dic.close()
    left = mapped(e.dirs)
    if left:
        raise Violation('files are still open after the first closing: %r' % sorted(left))
    return e


def enabled(st, op):
    """st: (opened, tokenizer, result, parts)"""
    o, t, r, p = st
    name = OPS[op]
    if name == 'open':
        return not o
    if not o:
        return False
    if name == 'create':
        return not t
    if name in ('tokenize', 'fail'):
        return t
    if name in ('read', 'split'):
        return r
    if name == 'drop':
        return t or r or p
    if name == 'close-in-use':
        return t or r or p
    return True         # lookup, close (drops first)


def step(st, op):
    o, t, r, p = st
    name = OPS[op]
    if name == 'open':
        return (True, False, False, False)
    if name == 'create':
        return (o, True, r, p)
    if name == 'tokenize':
        return (o, t, True, p)
    if name == 'split':
        return (o, t, r, True)
    if name == 'drop':
        return (o, False, False, False)
    if name == 'close':
        return (False, False, False, False)
    if name == 'close-in-use':
        return (None, t, r, p)         # only dropping and closing remain
    return st


SLOTS = [[0], [1], [2], [1, 1], [0, 1], [1, 2], [1, 1, 0]]


def seqs(nslots, depth):
    def rec(states, seq):
        if seq:
            yield tuple(seq)
        if len(seq) == depth:
            return
        for s in range(nslots):
            for op in range(len(OPS)):
                if states[s][0] is None and OPS[op] != 'close':
                    continue
                if states[s][0] is not None and not enabled(states[s], op):
                    continue
                ns = list(states)
                ns[s] = step(states[s], op)
                yield from rec(ns, seq + [(s, op)])
    yield from rec([(False,) * 4] * nslots, [])


def cases(tier):
    for slots in SLOTS:
        if tier == 'quick':
            depth = {1: 7, 2: 5, 3: 4}[len(slots)]
        else:
            depth = {1: 9, 2: 6, 3: 5}[len(slots)]
        for seq in seqs(len(slots), depth):
            yield (tuple(slots), seq)


def check(env, case, ctx):
    which, seq = case
    slots = [Slot(w) for w in which]
    what = ''
    try:
        for k, (s, op) in enumerate(seq):
            what = 'configurations %r, after %s' % (list(which), '; '.join('%s(%d)' % (OPS[o], x) for x, o in seq[:k + 1]))
            apply(env, slots, s, OPS[op], what, ctx)
            ctx.count('transitions')
        what += '; then close everything'
        for i, sl in enumerate(slots):
            if sl.dic is not None:
                apply(env, slots, i, 'close', what, ctx)
        left = mapped(env.dirs)
        if left:
            raise Violation('%s: still mapped or open: %r' % (what, sorted(left)))
    finally:
        for sl in slots:
            sl.dic = sl.tok = sl.ml = sl.parts = None
    ctx.count('states')
    ctx.outcome((which, tuple((s, OPS[o]) for s, o in seq)))


def apply(env, slots, i, name, what, ctx):
    sl = slots[i]
    first = env.first[sl.world]
    if name == 'open':
        sl.dic = env.worlds[sl.world].open()
    elif name == 'create':
        sl.tok = sl.dic.create()
    elif name == 'tokenize':
        sl.ml = sl.tok.tokenize(TEXT, modes()['C'])
    elif name == 'fail':
        # a call that is refused
        for bad in (None, 5, b'x'):
            try:
                sl.tok.tokenize(bad)
            except Exception:
                pass
    elif name == 'read':
        if observe_all(sl.ml) != first[2]:
            raise Violation('%s: the results of slot %d differ from those of the first opening' % (what, i))
    elif name == 'split':
        sl.parts = [list(m.split(modes()['A'])) for m in sl.ml]
        got = tuple(x for p in sl.parts for x in observe_all(p))
        if got != first[0] and sl.world != 1:     # with joined numerals and words the units are those of the joined word
            raise Violation('%s: the units of slot %d differ: %r' % (what, i, got))
    elif name == 'lookup':
        if results(sl.dic) != first:
            raise Violation('%s: slot %d behaves differently from the first opening' % (what, i))
        list(sl.dic.lexicon.lookup(TEXT.encode(), 0))
        sl.dic.lexicon.get_word_id('東京', 0, 'トウキョウ')
    elif name == 'drop':
        sl.tok = sl.ml = sl.parts = None
    elif name == 'close-in-use':
        try:
            sl.dic.close()
            ctx.count('closed_in_use')
        except Exception:
            ctx.count('close_refused')
    elif name == 'close':
        sl.tok = sl.ml = sl.parts = None
        try:
            sl.dic.close()
        except Exception as e:
            raise Violation('%s: closing slot %d, which is no longer in use, fails: %s: %s' % (what, i, type(e).__name__, e))
        try:
            sl.dic.close()
        except Exception as e:
            raise Violation('%s: closing slot %d again fails: %s: %s' % (what, i, type(e).__name__, e))
        sl.dic = None
        still = {env.dirs[o.world] for o in slots if o.dic is not None}
        gone = [d for d in env.dirs if d not in still]
        left = mapped(gone)
        if left:
            raise Violation('%s: still mapped or open after closing slot %d: %r' % (what, i, sorted(left)))
        for j, o in enumerate(slots):
            if o.dic is None or o.dic.lexicon is None:
                continue
            if results(o.dic) != env.first[o.world]:
                raise Violation('%s: closing slot %d disturbs slot %d' % (what, i, j))
            if o.ml is not None and observe_all(o.ml) != env.first[o.world][2]:
                raise Violation('%s: closing slot %d changes results of slot %d' % (what, i, j))
    for j, o in enumerate(slots):
        if j != i and o.ml is not None and name == 'open' and o.dic.lexicon is not None and observe_all(o.ml) != env.first[o.world][2]:
            raise Violation('%s: opening slot %d changes results of slot %d' % (what, i, j))


# --- many cycles of opening and closing
def cycle_cases(tier):
    for w in range(3):
        for n in (1, 2, 20, 130) if tier == 'quick' else (1, 2, 20, 200, 1500):
            for keep in (0, 1):
                yield (w, n, keep)


def cycle_check(env, case, ctx):
    w, n, keep = case
    kept = env.worlds[(w + 1) % 3].open() if keep else None
    fds = len(os.listdir('/proc/self/fd'))
    for k in range(n):
        dic = env.worlds[w].open()
        if results(dic) != env.first[w]:
            raise Violation('configuration %d behaves differently after %d cycles' % (w, k))
        dic.close()
        if mapped([env.dirs[w]]):
            raise Violation('configuration %d is still mapped after %d cycles: %r' % (w, k + 1, sorted(mapped([env.dirs[w]]))))
        ctx.count('transitions')
    if len(os.listdir('/proc/self/fd')) != fds:
        raise Violation('%d cycles leave files open' % n)
    if kept is not None:
        if results(kept) != env.first[(w + 1) % 3]:
            raise Violation('%d cycles of configuration %d disturb another dictionary' % (n, w))
        kept.close()
    dic = kept = None
    if mapped(env.dirs):
        raise Violation('files are still mapped: %r' % sorted(mapped(env.dirs)))
    ctx.count('states')
    ctx.outcome(case)


# --- a dictionary that is dropped without closing, while what came from it is still in use
BETWEEN = ['open', 'close', 'collect', 'lookup']


def orphan_cases(tier):
    for w in range(3):
        for keep in range(8):
            for n in range(4 if tier == 'quick' else 6):
                for between in itertools.product(range(len(BETWEEN)), repeat=n):
                    yield (w, keep, between)


def orphan_check(env, case, ctx):
    w, keep, between = case
    dic = env.worlds[w].open()
    tok = dic.create()
    ml = tok.tokenize(TEXT, modes()['C'])
    m = ml[0]
    tok, ml, m = (tok if keep & 1 else None), (ml if keep & 2 else None), (m if keep & 4 else None)
    dic = None
    others = []
    what = 'configuration %d, the dictionary is dropped and %s kept; then %s' % (
        w, [x for i, x in enumerate(('tokenizer', 'result', 'morpheme')) if keep >> i & 1], [BETWEEN[b] for b in between])
    try:
        for b in list(between) + [None]:
            name = None if b is None else BETWEEN[b]
            if name == 'open':
                others.append(env.worlds[(w + len(others)) % 3].open())
            elif name == 'close' and others:
                others.pop(0).close()
            elif name == 'collect':
                gc.collect()
            elif name == 'lookup' and others:
                results(others[-1])
            if tok is not None and tuple(observe_all(tok.tokenize(TEXT, modes()[x])) for x in 'ABC') != env.first[w][:3]:
                raise Violation('%s: the tokenizer gives other results' % what)
            if ml is not None and observe_all(ml) != env.first[w][2]:
                raise Violation('%s: the result has changed' % what)
            if m is not None and observe_all([m]) != env.first[w][2][:1]:
                raise Violation('%s: the morpheme has changed' % what)
            ctx.count('transitions')
    finally:
        tok = ml = m = None
        while others:
            others.pop().close()
    ctx.count('states')
    ctx.outcome(case)


# --- single binary dictionaries
def single_cases(tier):
    for w in range(3):
        for user in (-1, 0, 1):
            for use in itertools.product((0, 1), repeat=4):
                yield (w, user, use)


def single_check(env, case, ctx):
    from ..src import open_system, open_user
    w, user, use = case
    if user >= len(env.worlds[w].users):
        return
    path = os.path.join(env.dirs[w], 'system.dic' if user < 0 else 'user%d.dic' % user)
    before = open(path, 'rb').read()
    for again in range(2):
        bd = open_system(path) if user < 0 else open_user(path)
        n = bd.lexicon.size()
        if use[0]:
            list(bd.lexicon.lookup(TEXT.encode(), 0))
        if use[1]:
            [bd.lexicon.get_word_info(i).surface for i in range(n)]
        if use[2]:
            bd.lexicon.get_cost(0), bd.lexicon.get_word_id('東', 0, 'ヒガシ')
        if use[3] and bd.grammar is not None:
            bd.grammar.get_part_of_speech_size(), bd.header.description
        if n != len((env.worlds[w].system if user < 0 else env.worlds[w].users[user][0])):
            raise Violation('%s has %d words' % (path, n))
        bd.close()
        if mapped([env.dirs[w]]):
            raise Violation('%s is still mapped after closing' % path)
        if open(path, 'rb').read() != before:
            raise Violation('%s changed' % path)
        bd.close()
        ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


SECTIONS = [
    Section('histories', cases, check, setup,
            'all enabled sequences of up to 7 operations on one slot, 5 on two, 4 on three (thorough 9, 6, 5); 10 operations, 7 sets of slots', block=8),
    Section('cycles', cycle_cases, cycle_check, setup, 'repeated opening and closing', block=1),
    Section('orphans', orphan_cases, orphan_check, setup, 'the dictionary is dropped without closing: 3 configurations x every subset of tokenizer, result and morpheme kept x all sequences of up to 3 (thorough 5) other operations', block=8),
    Section('single', single_cases, single_check, setup, 'BinaryDictionary: every subset of uses before closing'),
]
