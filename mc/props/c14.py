"""C14: unknown-word candidates follow the definitions."""
import collections
import itertools
import os

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS, check_min_path

PROPERTY = 'C14'
RULE = ('a case is one definition (or one text); the candidates every provider proposes at every position are compared, as multisets, with '
        'the definitions; in the analyser each definition in turn is made the cheapest so that any missing or extra candidate shows')
ASSUMPTIONS = ['categories with properties but without definition lines propose nothing']


def build_input(text, grammar):
    from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
    return UTF8InputTextBuilder(text, grammar).build()


def offsets(text):
    out, o = [], 0
    for c in text:
        out.append(o)
        o += len(c.encode('utf-8'))
    return out + [o]


def compare(dic, models, chardef, text, what, ctx):
    ti = ref.TextInfo(text, chardef)
    it = build_input(text, dic.grammar)
    off = offsets(text)
    back = {o: i for i, o in enumerate(off)}
    for plugin, model in zip(dic.oov_provider_plugins, models):
        for i in range(len(text)):
            for other in (False, True):
                got = []
                for n in plugin.get_oov(it, off[i], other):
                    wi = n.get_word_info()
                    e = back.get(n.get_end())
                    s = text[i:e] if e is not None else None
                    if n.get_begin() != off[i] or e is None or not n.is_oov() or (
                            wi.surface, wi.normalized_form, wi.dictionary_form, wi.reading_form) != (s, s, s, ''):
                        raise Violation('%s: %r at %d: candidate %r-%r %r' % (what, text, i, n.get_begin(), n.get_end(), vars_of(wi)))
                    if list(wi.a_unit_split) or list(wi.b_unit_split) or list(wi.synonym_group_ids) or wi.head_word_length != len(s.encode('utf-8')):
                        raise Violation('%s: %r at %d: word info of a candidate' % (what, text, i))
                    got.append((e, n.get_left_id(), n.get_right_id(), n.get_path_cost(),
                                tuple(dic.grammar.get_part_of_speech_string(wi.pos_id)) if wi.pos_id >= 0 else None))
                want = [(c.e, c.left, c.right, c.cost, c.pos) for c in model.propose(ti, i, other)]
                ctx.count('transitions')
                if collections.Counter(got) != collections.Counter(want):
                    raise Violation('%s: %r at %d, %s: %s proposes %r, the definitions give %r' % (
                        what, text, i, 'dictionary words' if other else 'no dictionary word', type(plugin).__name__,
                        sorted(got, key=repr), sorted(want, key=repr)))
                ctx.outcome((what, text, i, other, tuple(want)))


def vars_of(wi):
    return (wi.surface, wi.normalized_form, wi.dictionary_form, wi.reading_form)


# --- all properties and numbers of definitions of two categories that overlap
PROPSET = [(bool(i), bool(g), n) for i in (0, 1) for g in (0, 1) for n in (0, 1, 2, 3)]
RANGES2 = [(ord('漢'), ord('漢'), ['KANJI']), (ord('á'), ord('á'), ['USER1']), (ord('𠮷'), ord('𠮷'), ['KANJI', 'USER1']),
           (ord('ー'), ord('ー'), ['USER1', 'NOOOVBOW'])]
ALPH2 = ['漢', 'á', '𠮷', 'z', 'ー']


def two_cases(tier):
    return itertools.product(range(len(PROPSET)), range(len(PROPSET)), range(3), range(3))


def two_setup(tier):
    return Scratch.dir('c14'), list(strings(ALPH2, 3 if tier == 'quick' else 4)) + ['漢' * 5, '漢𠮷á𠮷漢', '𠮷𠮷𠮷𠮷', 'áーáー', '漢漢𠮷𠮷áá']


def two_check(env, case, ctx):
    d, texts = env
    p1, p2, n1, n2 = case
    unk = [('KANJI', k, k + 1, 100 + k, POS_SYS[k]) for k in range(n1)] + [('USER1', k + 1, k, 200 + k, POS_SYS[2 + k]) for k in range(n2)] + [
        ('DEFAULT', 0, 0, 300, POS_SYS[4])]
    unk = unk[1::2] + unk[0::2]
    w = World([entry('亜', 0, 0, 0)], ranges=RANGES2, props={'KANJI': PROPSET[p1], 'USER1': PROPSET[p2], 'DEFAULT': (False, True, 0),
                                                             'NOOOVBOW': (True, True, 1)},
              unk=unk, simple=(1, 2, 999, POS_SYS[5]), lsize=4, rsize=4)
    w.dir = d
    w.write()
    dic = w.open()
    models = w.oov_models()
    cd = ref.CharDef(w.ranges)
    for t in texts:
        compare(dic, models, cd, t, 'KANJI %r x%d, USER1 %r x%d' % (PROPSET[p1], n1, PROPSET[p2], n2), ctx)
    ctx.count('states')


# --- long runs and long lengths
def run_cases(tier):
    for p in itertools.product((0, 1), (0, 1), (0, 1, 2, 5, 16, 100, 1000)):
        for n in (1, 2, 5, 16, 17, 60):
            for c in ('漢', 'á', '𠮷', 'z'):
                yield p + (n, c)


def run_check(env, case, ctx):
    inv, grp, length, n, c = case
    w = World([entry('亜', 0, 0, 0)], ranges=[(ord(c), ord(c), ['USER3'])], props={'USER3': (bool(inv), bool(grp), length)},
              unk=[('USER3', 1, 2, 3, POS_SYS[0]), ('USER3', 2, 1, 4, POS_SYS[1])], simple=(1, 2, 999, POS_SYS[5]), lsize=4, rsize=4, oov_order='ms')
    w.dir = env[0]
    w.write()
    dic = w.open()
    for t in (c * n, 'é' + c * n, c * n + 'é', c * n + 'é' + c * n):
        compare(dic, w.oov_models(), ref.CharDef(w.ranges), t, '%r' % (case,), ctx)
    ctx.count('states')


# --- the shipped definitions
def ship_setup(tier):
    import sudachipy
    res = os.path.join(os.path.dirname(sudachipy.__file__), 'resources')
    ranges, props = ref.parse_char_def(os.path.join(res, 'char.def'))
    unk = []
    with open(os.path.join(res, 'unk.def'), encoding='utf-8') as f:
        for line in f:
            c = line.strip().split(',')
            if len(c) >= 10:
                unk.append((c[0], int(c[1]), int(c[2]), int(c[3]), tuple(c[4:10])))
    pos = []
    for u in unk:
        if u[4] not in pos:
            pos.append(u[4])
    w = World([entry('亜', 0, 0, 0)], ranges=ranges, props=props, unk=unk, pos_list=pos, simple=(5968, 5968, 3857, pos[0]), lsize=1, rsize=1)
    with open(os.path.join(res, 'char.def'), encoding='utf-8') as f:
        w.chardef_text = f.read()
    with open(os.path.join(res, 'unk.def'), 'rb') as f:
        raw = f.read()
    d = w.write()
    with open(os.path.join(d, 'unk.def'), 'wb') as f:
        f.write(raw)
    dic = w.open()
    cd = ref.CharDef(ranges)
    return w, dic, w.oov_models(), cd


SHIP = ['あ', 'ア', 'ー', 'ァ', '漢', '々', '一', '1', 'a', 'é', 'α', 'я', ' ', '。', '!', '𠮷', '\u3000', '1'.translate({49: 0xff11}), '\u0301', '😀', 'ｱ', '〇']


def ship_cases(tier):
    return strings(SHIP, 3 if tier == 'quick' else 4)


def ship_check(env, case, ctx):
    w, dic, models, cd = env
    compare(dic, models, cd, case, 'shipped definitions', ctx)
    ctx.count('states')


# --- in the analyser: every definition in turn is the cheapest
CH_RANGES = [(ord('漢'), ord('漢'), ['KANJI']), (ord('々'), ord('々'), ['KANJI', 'NOOOVBOW']), (ord('一'), ord('一'), ['KANJI', 'KANJINUMERIC']),
             (ord('ー'), ord('ー'), ['KATAKANA', 'NOOOVBOW']), (ord('ア'), ord('ア'), ['KATAKANA']), (ord('a'), ord('z'), ['ALPHA']),
             (ord('é'), ord('é'), ['ALPHA', 'NOOOVBOW'])]
CH_PROPS = {'KANJI': (False, False, 2), 'KANJINUMERIC': (False, True, 0), 'KATAKANA': (True, True, 2), 'ALPHA': (True, True, 1),
            'DEFAULT': (False, True, 0)}
CH_UNK = [('KANJI', 1, 1), ('KANJI', 2, 1), ('KANJINUMERIC', 1, 2), ('KATAKANA', 1, 1), ('ALPHA', 2, 2), ('DEFAULT', 1, 1)]
CH_ALPHABET = ['漢', '々', '一', 'ー', 'ア', 'a', 'é', '𠮷']


def chosen_setup(tier):
    out = []
    for order in ('ms', 'sm', 'm', 's'):
        for k in range(len(CH_UNK) + 1):
            for cheap, rest in ((50, 5000), (-3000, 5000)):
                unk = [(c, l, r, cheap if i == k else rest + i, POS_SYS[i % 6]) for i, (c, l, r) in enumerate(CH_UNK)]
                if order == 's' and k:
                    continue
                simple = (2, 1, cheap if k == len(CH_UNK) else rest - 7, ('補助記号', '一般', '*', '*', '*', '*'))
                if order == 'm':
                    unk.append(('NOOOVBOW', 0, 0, 8000, POS_SYS[5]))
                w = World([entry('漢a', 1, 1, 40), entry('ア', 2, 2, 900), entry('ーア', 1, 2, 700), entry('々', -1, 0, -9000), entry('aé', 1, 1, 30)],
                          ranges=CH_RANGES, props=dict(CH_PROPS, **({'NOOOVBOW': (True, True, 0)} if order == 'm' else {})),
                          unk=unk, simple=simple, oov_order=order, lsize=3, rsize=3, matrix={(1, 1): 3, (2, 1): -2, (1, 2): 5, (0, 2): 1})
                w.write()
                dic = w.open()
                out.append((w, w.model(), dic, dic.create()))
    return out


def chosen_cases(tier):
    return strings(CH_ALPHABET, 4 if tier == 'quick' else 5)


def chosen_check(env, case, ctx):
    for n, (w, model, dic, tok) in enumerate(env):
        cands = model.candidates(case)
        ctx.count('transitions')
        if cands is None or model.minimum(case, cands) is None:
            try:
                ml = tok.tokenize(case)
            except Exception:
                continue
            raise Violation('world %d: %r gives %r although some position has no candidate' % (n, case, [str(m) for m in ml]))
        ml = tok.tokenize(case)
        check_min_path(model, case, ml, 'world %d (%s)' % (n, w.oov_order))
        ctx.outcome((n, case, tuple((m.end(), m.is_oov(), m.part_of_speech_id()) for m in ml)))
    ctx.count('states')


# --- many categories and many definitions
def many_cases(tier):
    lines = list(range(1, 18)) + [32, 33, 40] + ([64, 127, 128, 129, 300] if tier == 'thorough' else [])
    return itertools.product(range(1, 16), lines, (0, 1, 2))


def many_check(env, case, ctx):
    k, n, dup = case
    cats = [c for c in ref.CATEGORY_ORDER if c != 'NOOOVBOW'][:k]
    # dup: all different, all the same, the same at both ends
    unk = [(c, (j * (dup != 1) + (0 if dup == 2 and j == n - 1 else i)) % 4, j % 3 if dup == 0 else 1, -7 if dup == 1 or dup == 2 and j in (0, n - 1) else 10 * i + j, POS_SYS[(i + j * (dup == 0)) % 6])
           for j in range(n) for i, c in enumerate(cats)]
    props = {c: (bool(i & 1), i % 3 == 0, 1 + i % 2) for i, c in enumerate(cats)}
    props.setdefault('DEFAULT', (False, True, 0))
    w = World([entry('亜', 0, 0, 0)], ranges=[(ord('漢'), ord('漢'), cats), (ord('字'), ord('字'), cats[-1:] + cats[:1])], props=props,
              unk=unk, simple=(1, 2, 999, POS_SYS[5]), lsize=4, rsize=4)
    w.dir = env[0]
    w.write()
    dic = w.open()
    for t in ('漢', '漢漢', '漢字漢', '字字字', '亜漢z字'):
        compare(dic, w.oov_models(), ref.CharDef(w.ranges), t, '%d categories, %d lines each, %d' % case, ctx)
    ctx.count('states')


# --- the files as text
LAYOUT = {
    'plain': lambda ls: '\n'.join(ls) + '\n',
    'no-final-newline': lambda ls: '\n'.join(ls),
    'crlf': lambda ls: '\r\n'.join(ls) + '\r\n',
    'blank-lines': lambda ls: '\n\n' + '\n \n\n'.join(ls) + '\n\n',
    'indented': lambda ls: ''.join('  %s  \n' % x for x in ls),
    'reversed': lambda ls: '\n'.join(reversed(ls)) + '\n',
}
CHARLAYOUT = dict({k: f for k, f in LAYOUT.items() if k != 'indented'}, **{
    'comments': lambda ls: '# KANJI 1 1 1\n' + '#\n'.join(x + ' # KANJI\n' for x in ls) + '#',
    'tabs': lambda ls: '\n'.join(x.replace(' ', '\t\t') for x in ls),
    'interleaved': lambda ls: '\n'.join(ls[::2] + ls[1::2]),
})
UNKLAYOUT = dict(LAYOUT, **{
    'more-columns': lambda ls: ',x,y\n'.join(ls) + ',9\n',
    'trailing-comma': lambda ls: ',\n'.join(ls) + ',\n',
})
VALUES = [(0, 0, 0), (1, 2, -1), (3, 3, 32767), (3, 0, -32768), (2, 1, 40000), (0, 3, -40000)]


def layout_cases(tier):
    return itertools.product(sorted(CHARLAYOUT), sorted(UNKLAYOUT), range(len(VALUES)))


def layout_check(env, case, ctx):
    c, u, v = case
    props = {'DEFAULT': (False, True, 0), 'KANJI': (True, False, 2), 'USER1': (False, True, 3), 'ALPHA': (True, True, 0)}
    unk = [('KANJI',) + VALUES[v] + (POS_SYS[0],), ('USER1',) + VALUES[v - 1] + (POS_SYS[1],), ('KANJI',) + VALUES[v - 2] + (POS_SYS[2],),
           ('DEFAULT',) + VALUES[v - 3] + (POS_SYS[3],), ('ALPHA',) + VALUES[v - 4] + (POS_SYS[4],)]
    w = World([entry('亜', 0, 0, 0)], ranges=RANGES2 + [(ord('a'), ord('y'), ['ALPHA'])], props=props, unk=unk, simple=(1, 2, 999, POS_SYS[5]), lsize=4, rsize=4)
    w.dir = env[0]
    lines = [x for x in W.dump_char_def(w.ranges, w.props).split('\n') if x]
    w.chardef_text = CHARLAYOUT[c](lines)
    w.write()
    lines = ['%s,%d,%d,%d,%s' % (x[0], x[1], x[2], x[3], ','.join(x[4])) for x in unk]
    with open(os.path.join(w.dir, 'unk.def'), 'w', encoding='utf-8', newline='') as f:
        f.write(UNKLAYOUT[u](lines))
    dic = w.open()
    w.unk = [x for x in (reversed(unk) if u == 'reversed' else unk)]
    for t in ('漢𠮷á', 'ー漢ー', '𠮷𠮷𠮷', 'abz漢á'):
        compare(dic, w.oov_models(), ref.CharDef(w.ranges), t, '%r' % (case,), ctx)
    ctx.count('states')


SECTIONS = [
    Section('properties', two_cases, two_check, two_setup,
            'all properties (invoke, group, 0..3) and 0..2 definition lines of two overlapping categories, all texts up to 3 (thorough 4) over 5 characters'),
    Section('runs', run_cases, run_check, two_setup, 'runs of 1..60 characters, lengths up to 1000'),
    Section('shipped', ship_cases, ship_check, ship_setup, 'the shipped definitions on all texts up to 3 (thorough 4) over 22 characters'),
    Section('chosen', chosen_cases, chosen_check, chosen_setup,
            'all texts up to 4 (thorough 5) over 8 characters in the analyser, 44 worlds in which each definition is the cheapest'),
    Section('many', many_cases, many_check, two_setup, 'characters of 1..15 categories with 1..17 and up to 40 (thorough 300) definition lines each, different and equal ones'),
    Section('layout', layout_cases, layout_check, two_setup, 'both files in every layout (8 x 8: comments, blank lines, tabs, line ends, order, more columns) x 6 sets of ids and costs'),
]
