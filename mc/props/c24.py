"""C24: tokenizers in different threads do not interfere."""
import gc
import itertools
import os
import sys

from .. import sched
from ..build import REPO
from ..core import Scratch, Section, Violation
from ..world import DEFAULT_PLUGIN, KATAKANA_PLUGIN, NUMERIC_PLUGIN, POS_SYS, PSM_PLUGIN, World, modes, observe_all
from .c22 import CATS, MATRIX, SYSTEM, USER1, USER2
from ..fmt import entry

PROPERTY = 'C24'
RULE = ('a case is a set of thread programs with the first one or two scheduling decisions; all schedules with at most the stated number of '
        'preemptions at executed lines (or bytecodes) of sudachipy are run on the real code under a controlled scheduler and every '
        'thread must observe what it observes alone')
ASSUMPTIONS = ['the compiled modules and the trie library hold the interpreter lock between calls back into Python code',
               'preemptions are possible before every executed line (thorough: every bytecode) of the Python modules of sudachipy']
BASE = os.path.realpath(REPO) + os.sep + 'sudachipy' + os.sep
T1 = 'ｶﾞ東京都1,0アイ'
T2 = '…行っ東ーー京ａ'
T3 = '京'


def world():
    sysd = SYSTEM + [entry('1', 0, 0, 10, pos=1), entry(',', 0, 0, 10, pos=2), entry('0', 0, 0, 10, pos=1), entry('ア', 0, 0, 900)]
    sysd += [entry(c, 0, 0, 10, pos=1) for c in '二十5'] + [entry('.', 0, 0, 10, pos=2)]
    w = World(sysd, [USER1, USER2], matrix=MATRIX, unk=CATS, input_plugins=[DEFAULT_PLUGIN, PSM_PLUGIN],
              path_plugins=[NUMERIC_PLUGIN, dict(KATAKANA_PLUGIN)])
    return w


def info(lex, ids):
    out = []
    for i in ids:
        w = lex.get_word_info(i)
        out.append((w.surface, w.head_word_length, w.pos_id, w.normalized_form, w.dictionary_form, w.reading_form, list(w.a_unit_split),
                    list(w.b_unit_split), list(w.word_structure), list(w.synonym_group_ids), lex.get_cost(i), lex.get_left_id(i)))
    return tuple(out)


U1, U2 = 1 << 28, 2 << 28


def programs(dic):
    """name -> function that prepares and returns the program of a thread"""
    m = modes()

    def tok(text, mode):
        def prepare():
            return lambda: observe_all(dic.create().tokenize(text, m[mode]))
        return prepare

    def held(text, mode):
        def prepare():
            t = dic.create()
            ml = t.tokenize(text, m[mode])
            return lambda: observe_all(ml)
        return prepare

    def ready(text, mode):
        def prepare():
            t = dic.create(m[mode])
            return lambda: observe_all(t.tokenize(text))
        return prepare

    def split(text):
        def prepare():
            t = dic.create()
            ml = t.tokenize(text)
            return lambda: tuple(observe_all(x.split(m['A'])) + observe_all(x.split(m['B'])) for x in ml)
        return prepare

    def infos(ids):
        def prepare():
            return lambda: info(dic.lexicon, ids)
        return prepare

    def lookup():
        def prepare():
            return lambda: (sorted((int(a), int(b)) for a, b in dic.lexicon.lookup('東京都'.encode(), 0)),
                            dic.lexicon.get_word_id('東京', 0, 'トウキョウ'), dic.lexicon.get_word_id('京', 0, '京'))
        return prepare

    def fail():
        def prepare():
            t = dic.create()

            def f():
                try:
                    t.tokenize(None)
                except Exception as e:
                    return (type(e).__name__, observe_all(t.tokenize(T3)))
            return f
        return prepare
    return {'C1': tok(T1, 'C'), 'A1': tok(T1, 'A'), 'B2': tok(T2, 'B'), 'C2': ready(T2, 'C'), 'A3': ready('東京都', 'A'), 'held1': held(T1, 'C'),
            'held2': held('東京都', 'A'), 'split': split('東京都'), 'info1': infos([3]), 'info2': infos([U1]), 'info3': infos([U2, 4]),
            'lookup': lookup(), 'fail': fail(), 'C3': ready(T3, 'C'),
            'N1': ready('1,000', 'C'), 'N2': ready('二十5.1', 'C')}


class Env:
    pass


def setup(tier):
    gc.collect()
    gc.disable()
    sys.setswitchinterval(1.0)
    e = Env()
    e.w = world()
    e.w.write()
    e.dic = e.w.open()
    e.alone = {}
    for k, p in programs(e.dic).items():
        clear(e.dic)
        e.alone[k] = p()()
    e.runs = 0
    return e


def clear(dic):
    """the shared cache is cold, as far as it can be reached"""
    f = getattr(getattr(type(dic.lexicon), 'get_word_info', None), 'cache_clear', None)
    if f is not None:
        f()


def run(env, names, first, plan, ctx, what, opcodes=False, reopen=False, warm=False):
    """one schedule; the scheduler (steps taken, plan completed) is returned"""
    dic = env.dic
    if reopen:
        dic = env.w.open()
    progs = programs(dic)
    fs = [progs[n]() for n in names]
    if not warm:
        clear(dic)
    s = sched.Scheduler(fs, first, plan, BASE, opcodes)
    results, errors = s.run()
    env.runs += 1
    if env.runs % 2000 == 0:
        gc.collect()
    ctx.count('schedules')
    ctx.count('transitions', s.steps)
    for i, n in enumerate(names):
        if errors[i] is not None or results[i] != env.alone[n]:
            # the same program alone, to be sure
            where = '; '.join('step %d: from thread %d at %s to thread %d' % x for x in s.trace_tail[:6])
            got = errors[i] if errors[i] is not None else diff(results[i], env.alone[n])
            raise Violation('threads %s, schedule: starts with thread %d, %s: thread %d (%s): %s' % (what, first, where, i, n, got))
    return s


def diff(got, want):
    if isinstance(got, tuple) and isinstance(want, tuple) and len(got) == len(want):
        for a, b in zip(got, want):
            if a != b:
                return 'observed %r, alone %r' % (a, b)
    return 'observed %r, alone %r' % (got, want)


NAMES = ['C1', 'A1', 'B2', 'C2', 'A3', 'held1', 'held2', 'split', 'info1', 'info2', 'info3', 'lookup', 'fail', 'C3', 'N1', 'N2']


# --- one preemption at every line, all pairs of programs
CHUNK = 40


QUICK = ['B2', 'A1', 'A3', 'split', 'held2', 'info1', 'info3', 'lookup', 'fail', 'C3', 'N1', 'N2']


def one_cases(tier):
    for pair in itertools.combinations_with_replacement(NAMES if tier == 'thorough' else QUICK, 2):
        for first in (0, 1):
            if pair[0] == pair[1] and first:
                continue
            for k in range(0, 100):
                yield (pair, first, k)


def one_check(env, case, ctx):
    pair, first, chunk = case
    for k in range(chunk * CHUNK + 1, (chunk + 1) * CHUNK + 1):
        # the second switch never comes: the first thread continues when the other ends
        s = run(env, pair, first, [(k, 1 - first)], ctx, '/'.join(pair))
        if not s.switches and s.plan:
            break           # shorter than k steps
        if s.skipped:
            break           # the first thread had ended
    else:
        k += 1
    if k > chunk * CHUNK + 1:
        ctx.count('states')
        ctx.outcome((case, k))


# --- two preemptions
TWO = [('info1', 'info2'), ('info2', 'info3'), ('info3', 'info1'), ('held2', 'info1'), ('C3', 'info2'), ('held2', 'held2'), ('lookup', 'info1'), ('A3', 'info1'),
       ('split', 'info2')]


def two_cases(tier):
    pairs = TWO[:4] if tier == 'quick' else TWO + [('C3', 'C3'), ('A3', 'A3'), ('held1', 'A3'), ('C2', 'info3'), ('A3', 'C3'), ('split', 'held2'), ('lookup', 'held2'),
                                               ('B2', 'C3'), ('C1', 'C2')]
    top = 160 if tier == 'quick' else 1400
    for pair in pairs:
        for first in (0, 1):
            for k1 in range(1, top):
                yield (pair, first, k1)


def two_check(env, case, ctx, opcodes=False, cap=None):
    pair, first, k1 = case
    s = run(env, pair, first, [(k1, 1 - first)], ctx, '/'.join(pair), opcodes)
    if not s.switches:
        return
    total = s.steps
    n = 0
    for k2 in range(k1 + 1, total + 1):
        s = run(env, pair, first, [(k1, 1 - first), (k2, first)], ctx, '/'.join(pair), opcodes)
        n += 1
        if s.skipped or s.plan:
            break           # the second thread ends before k2: the same schedule as with one preemption
    ctx.count('states')
    ctx.outcome((case, n))


# --- bytecode granularity
def op_cases(tier):
    pairs = [('info1', 'info2'), ('info3', 'info1')]
    for pair in pairs:
        for first in (0, 1):
            for k1 in range(1, 2500):
                yield (pair, first, k1)
    if tier == 'thorough':
        for pair in itertools.combinations_with_replacement(NAMES, 2):
            for first in (0, 1):
                for k1 in range(1, 16000):
                    yield (pair, first, k1)


def op_check(env, case, ctx):
    pair, first, k1 = case
    key = (pair, first)
    top = env.__dict__.setdefault('oplen', {}).get(key, 1 << 30)
    if k1 > top:
        return
    s = run(env, pair, first, [(k1, 1 - first)], ctx, '/'.join(pair) + ' (bytecodes)', True)
    if not s.switches:
        env.oplen[key] = min(top, k1)
        return
    ctx.count('states')
    ctx.outcome(case)


# --- a freshly opened dictionary in every schedule
def cold_cases(tier):
    for pair in [('C3', 'C3'), ('C3', 'A3'), ('info1', 'info1'), ('info2', 'lookup')] + ([('C1', 'C2'), ('C2', 'A3'), ('B2', 'B2'), ('C1', 'C1')] if tier == 'thorough' else []):
        for first in (0, 1):
            for k in range(1, 1500):
                yield (pair, first, k)


def cold_check(env, case, ctx):
    pair, first, k = case
    key = ('cold', pair, first)
    top = env.__dict__.setdefault('oplen', {}).get(key, 1 << 30)
    if k > top:
        return
    s = run(env, pair, first, [(k, 1 - first)], ctx, '/'.join(pair) + ' (fresh dictionary)', reopen=True)
    if not s.switches:
        env.oplen[key] = min(top, k)
        return
    ctx.count('states')
    ctx.outcome(case)


# --- three threads, two preemptions
def three_cases(tier):
    sets = [('info1', 'info2', 'info3')] + ([('C3', 'info2', 'info1'), ('held2', 'info1', 'info2')] if tier == 'thorough' else [])
    for names in sets:
        for first in range(1 if tier == 'quick' else 3):
            for second in range(3):
                if second == first:
                    continue
                for k1 in range(1, 140 if tier == 'quick' else 500):
                    yield (names, first, second, k1)


def three_check(env, case, ctx):
    names, first, second, k1 = case
    s = run(env, names, first, [(k1, second)], ctx, '/'.join(names))
    if not s.switches or s.skipped:
        return
    total = s.steps
    for third in range(3):
        if third == second:
            continue
        for k2 in range(k1 + 1, total + 1):
            s = run(env, names, first, [(k1, second), (k2, third)], ctx, '/'.join(names))
            if s.skipped or s.plan:
                break
    ctx.count('states')
    ctx.outcome(case)


# --- three preemptions on the shortest programs
def deep_cases(tier):
    pairs = [('info1', 'info2')] + ([('info1', 'info1'), ('info2', 'info3'), ('info3', 'lookup')] if tier == 'thorough' else [])
    for pair in pairs:
        for first in (0, 1):
            for k1 in range(1, 25 if tier == 'quick' else 150):
                for k2 in range(k1 + 1, k1 + (25 if tier == 'quick' else 150)):
                    yield (pair, first, k1, k2)


def deep_check(env, case, ctx):
    pair, first, k1, k2 = case
    s = run(env, pair, first, [(k1, 1 - first), (k2, first)], ctx, '/'.join(pair))
    if s.skipped or s.plan:
        return
    total = s.steps
    for k3 in range(k2 + 1, total + 1):
        s = run(env, pair, first, [(k1, 1 - first), (k2, first), (k3, 1 - first)], ctx, '/'.join(pair))
        if s.skipped or s.plan:
            break
    ctx.count('states')
    ctx.outcome(case)


# --- one program in the other's place: warm cache
def warm_cases(tier):
    for pair in itertools.combinations_with_replacement(NAMES if tier == 'thorough' else ['B2', 'split', 'held2', 'A3'], 2):
        for first in (0, 1):
            for k in range(0, 100):
                yield (pair, first, k)


def warm_check(env, case, ctx):
    pair, first, chunk = case
    for k in range(chunk * CHUNK + 1, (chunk + 1) * CHUNK + 1):
        s = run(env, pair, first, [(k, 1 - first)], ctx, '/'.join(pair) + ' (warm cache)', warm=True)
        if s.skipped or s.plan:
            break
    else:
        k += 1
    if k > chunk * CHUNK + 1:
        ctx.count('states')
        ctx.outcome((case, k))


# --- a cache near a round number of entries
LIMITS = (64, 100, 128, 256, 500, 512, 1000, 1024)


def full_setup(tier):
    gc.collect()
    gc.disable()
    sys.setswitchinterval(1.0)
    e = Env()
    sysd = [entry('%c%c' % (0x4e00 + i % 64, 0x4f00 + i // 64), 0, 0, 100, reading='ヨ%d' % i, norm='正%d' % (i % 7)) for i in range(1040)]
    e.w = World(sysd, [], matrix=MATRIX, unk=CATS)
    e.w.write()
    e.runs = 0
    dic = e.w.open()
    e.alone = [full_info(dic.lexicon, ids) for ids in ((1030, 1031), (1032, 1033))]
    return e


def full_info(lex, ids):
    out = []
    for i in ids:
        w = lex.get_word_info(i)
        out.append((w.surface, w.reading_form, w.normalized_form, w.dictionary_form, w.pos_id))
    return tuple(out)


def full_cases(tier):
    for limit in LIMITS:
        for less in ((1, 0) if tier == 'quick' else (3, 2, 1, 0)):
            for k in range(1, 200 if tier == 'quick' else 400):
                yield (limit - less, k)


def full_check(env, case, ctx):
    n, k = case
    key = ('full', n)
    top = env.__dict__.setdefault('top', {}).get(key, 1 << 30)
    if k > top:
        return
    dic = env.w.open()
    clear(dic)
    lex = dic.lexicon
    for i in range(n):
        lex.get_word_info(i)
    fs = [lambda: full_info(lex, (1030, 1031)), lambda: full_info(lex, (1032, 1033))]
    s = sched.Scheduler(fs, 0, [(k, 1)], BASE, False)
    results, errors = s.run()
    env.runs += 1
    if env.runs % 200 == 0:
        gc.collect()
    ctx.count('schedules')
    ctx.count('transitions', s.steps)
    for i in range(2):
        if errors[i] is not None or results[i] != env.alone[i]:
            raise Violation('after %d words were asked for, two threads ask for two further words each, switch at step %d: thread %d: %s'
                            % (n, k, i, errors[i] if errors[i] is not None else diff(results[i], env.alone[i])))
    if not s.switches or s.skipped:
        env.top[key] = min(top, k)
        return
    ctx.count('states')
    ctx.outcome(case)


SECTIONS = [
    Section('full', full_cases, full_check, full_setup, 'one preemption at every line, after a round number of words were asked for', block=16),
    Section('one-preemption', one_cases, one_check, setup, 'all pairs of 12 (thorough: 16) thread programs, one preemption at every line', block=1),
    Section('two-preemptions', two_cases, two_check, setup, 'pairs of short programs, two preemptions at all pairs of lines', block=1),
    Section('three-preemptions', deep_cases, deep_check, setup, 'the shortest programs, three preemptions', block=4),
    Section('three-threads', three_cases, three_check, setup, 'three threads, two preemptions', block=1),
    Section('bytecodes', op_cases, op_check, setup, 'one preemption at every bytecode', block=4),
    Section('fresh', cold_cases, cold_check, setup, 'one preemption at every line, the dictionary is opened anew for every schedule', block=4),
    Section('warm', warm_cases, warm_check, setup, 'one preemption with a filled cache', block=1),
]
