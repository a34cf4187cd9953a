"""C09: up to 15 user dictionaries compose."""
import itertools
import json
import os

from .. import fmt, world as W
from ..core import Section, Violation, Scratch
from ..fmt import entry
from ..src import row, build_system, build_user, open_system, write_sources, write_file
from ..world import World, POS_SYS, observe
from .c05 import MARK, Spec, verify, opened

PROPERTY = 'C09'
RULE = ('a case is one list of user dictionaries (kinds and order); every word of every dictionary is looked up, read by id and '
        'tokenized, alone and next to words of the other dictionaries, and compared with its plain entry')
ASSUMPTIONS = ['own parts of speech of a user dictionary are numbered after those of the system dictionary (file format)']

SYS = [entry('共', 1, 1, 50, norm='sys共', pos=0), entry('系', 1, 1, 10, norm='sys系', reading='けい', pos=3), entry('統', 1, 1, 10, pos=4),
       entry('系統', 1, 1, 5, a=[1, 2], b=[1, 2], ws=[1, 2], syn=[9])]


def own_pos(k, n):
    return [('利用者%d' % k, '品詞%d' % j, '*', '*', 'あ' * (k * 9 + j), '*') for j in range(n)]


def user(k, kind, shared_cost):
    """entries and own parts of speech of the k-th (0-based) user dictionary.
    kind: number of own parts of speech; -1: format version 1 (no grammar)"""
    n = max(kind, 0)
    c = chr(0x4e00 + k)
    own = len(SYS_POS)
    ents = [entry('填', 1, 1, 9000)] * (k % 3)      # ids differ between dictionaries
    base = len(ents)
    ents = list(ents)
    for j in range(max(n, 1)):
        ents.append(entry(c + 'あいう'[j], 1, 1, 10, norm='n%d-%d' % (k, j), reading='r%d-%d' % (k, j), pos=own + j if n else (k + j) % own,
                          dform=base if j else -1, syn=[k, j]))
    last = base + max(n, 1) - 1
    ents.append(entry('共', 1, 1, shared_cost, norm='u%d共' % k, reading='きょう%d' % k, pos=own + n - 1 if n else 2, syn=[k]))
    ents.append(entry(ents[base]['head'] + '系統' + ents[last]['head'], 1, 1, -30, norm='c%d' % k, pos=own if n else 1,
                      a=[MARK | base, 1, 2, MARK | last], b=[MARK | base, 3, MARK | last], ws=[MARK | base, 3, MARK | last], dform=base))
    return ents, own_pos(k, n)


SYS_POS = POS_SYS


class Many(World):
    """users with a format version each"""
    kinds = ()

    def user_bytes(self, k):
        e, p = self.users[k]
        v = self.kinds[k]
        if v == -1:
            return fmt.encode(fmt.USER_V1, [dict(x, syn=[]) for x in e])
        return fmt.encode(fmt.USER_V3 if v != 0 or k % 2 else fmt.USER_V2, e, p)


def many(kinds, costs, d):
    users = [user(k, v, c) for k, (v, c) in enumerate(zip(kinds, costs))]
    for k, v in enumerate(kinds):
        if v == -1 or (v == 0 and k % 2 == 0):      # versions without synonym ids
            for e in users[k][0]:
                e['syn'] = []
    w = Many(SYS, users=users, simple=(0, 0, 20000, POS_SYS[2]), lsize=2, rsize=2, matrix={(1, 1): 1, (0, 1): 2, (1, 0): 3})
    w.kinds = kinds
    w.dir = d
    w.write()
    return w


def check_world(w, what, ctx):
    spec = Spec(w)
    dic, toks, modes = opened(w)
    g = dic.grammar
    n = len(w.users)
    allpos = [tuple(p) for p in w.pos_list] + [tuple(p) for _, own in w.users for p in own]
    got = [tuple(g.get_part_of_speech_string(i)) for i in range(g.get_part_of_speech_size())]
    if got != allpos:
        raise Violation('%s: parts of speech are %r, expected %r' % (what, got, allpos))
    lex = dic.lexicon
    if lex.size() != sum(len(x) for x in spec.lex):
        raise Violation('%s: %d words' % (what, lex.size()))
    heads = {}
    for did, ents in enumerate(spec.lex):
        for i, e in enumerate(ents):
            heads.setdefault(e['head'], []).append(((did << 28) | i, len(e['head'].encode('utf-8'))))
    for h, ids in heads.items():
        raw = h.encode('utf-8')
        found = sorted((int(a), int(b)) for a, b in lex.lookup(raw, 0) if b == len(raw))
        if found != sorted(ids):
            raise Violation('%s: %r is found as %r, expected %r' % (what, h, found, sorted(ids)))
    order = [(did, i) for did, ents in enumerate(spec.lex) for i in range(len(ents))]
    for did, i in order + order[::-1]:
        e = spec.lex[did][i]
        wid = (did << 28) | i
        wi = lex.get_word_info(wid)
        conv = [[(did << 28 | (r & (MARK - 1))) if r >> 28 else r for r in e[f]] for f in ('a', 'b', 'ws')]
        o = spec.obs(0, 0, '', did, i)
        got = (wi.surface, wi.pos_id, wi.normalized_form, wi.dictionary_form, wi.reading_form, tuple(wi.synonym_group_ids),
               list(wi.a_unit_split), list(wi.b_unit_split), list(wi.word_structure), lex.get_cost(wid), lex.get_left_id(wid),
               lex.get_right_id(wid), lex.get_dictionary_id(wid))
        want = (e['surface'], o[4], o[5], o[6], o[7], o[11]) + tuple(conv) + (e['cost'], e['left'], e['right'], did)
        if got != want:
            raise Violation('%s: word %d of dictionary %d is %r, expected %r' % (what, i, did, got, want))
        first = min(x for x in order if spec.lex[x[0]][x[1]]['surface'] == e['surface'] and spec.lex[x[0]][x[1]]['reading'] == e['reading'] and
                    spec.pos_id(x[0], spec.lex[x[0]][x[1]]['pos']) == o[4])
        if lex.get_word_id(e['surface'], o[4], e['reading']) != (first[0] << 28 | first[1]):
            raise Violation('%s: get_word_id of word %d of dictionary %d' % (what, i, did))
        ctx.count('transitions')
    # located by surface, reading and every part of speech exactly when there is such a word
    byname = {}
    for did, i in order:
        e = spec.lex[did][i]
        byname.setdefault((e['surface'], e['reading']), {}).setdefault(spec.pos_id(did, e['pos']), did << 28 | i)
    for (surface, reading), ids in byname.items():
        for p in range(len(allpos)) if len(allpos) < 60 else sorted(ids):
            if lex.get_word_id(surface, p, reading) != ids.get(p, -1):
                raise Violation('%s: get_word_id(%r, %d, %r) is %r, expected %r' % (
                    what, surface, p, reading, lex.get_word_id(surface, p, reading), ids.get(p, -1)))
    texts = []
    for did, ents in enumerate(spec.lex):
        for i, e in enumerate(ents):
            if e['head'] == '共' or e['head'] == '填':
                continue
            texts.append((e['head'], [(did, i)]))
            k = (did + 1) % (n + 1)
            x = spec.lex[k][-1]
            texts.append((x['head'] + e['head'], [(k, len(spec.lex[k]) - 1), (did, i)]))
    cheapest = min((e['cost'], did, i) for did, ents in enumerate(spec.lex) for i, e in enumerate(ents) if e['head'] == '共')
    texts.append(('共', [cheapest[1:]]))
    texts.append(('統共', [(0, 2), cheapest[1:]]))
    texts.append((''.join(ents[-1]['head'] for ents in spec.lex), [(k, len(ents) - 1) for k, ents in enumerate(spec.lex)]))
    for text, words in texts:
        ml = toks['C'].tokenize(text)
        want, p = [], 0
        for d, i in words:
            k = len(spec.lex[d][i]['head'])
            want.append(spec.obs(p, p + k, text, d, i))
            p += k
        got = [observe(m) for m in ml]
        if got != want:
            raise Violation('%s: %r gives %r, expected %r' % (what, text, got, want))
        verify(w, spec, toks, modes, text, list(range(len(text) + 1)), ctx, what)
    ctx.count('states')
    ctx.outcome((what, tuple(w.kinds) if isinstance(w, Many) else '', cheapest))


def tmpdir(tier):
    return Scratch.dir('c09')


# --- every vector of kinds
def kind_cases(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(0, top + 1):
        for kinds in itertools.product((-1, 0, 1, 3), repeat=n):
            yield kinds


def kind_check(env, case, ctx):
    n = len(case)
    check_world(many(case, [40 - 3 * ((k * 2) % (n + 1)) for k in range(n)], env), 'kinds %r' % (case,), ctx)


# --- every number of dictionaries, every position of one that differs, every place of the cheapest homograph
def pos_cases(tier):
    for n in range(1, 16):
        for k in range(n):
            for kinds in ((0, 3), (1, -1), (2, 0), (-1, 1)):
                if tier == 'quick' and kinds in ((2, 0), (-1, 1)) and (n, k) not in ((15, 14), (15, 0), (15, 7), (8, 7), (9, 8)):
                    continue
                yield (n, k) + kinds


def pos_check(env, case, ctx):
    n, k, rest, special = case
    kinds = [rest] * n
    kinds[k] = special
    costs = [60] * n
    costs[k] = 20
    check_world(many(tuple(kinds), costs, env), '%d dictionaries, number %d differs (%d/%d)' % case, ctx)


# --- every order of four different dictionaries
def order_cases(tier):
    return itertools.permutations(range(4 if tier == 'quick' else 5))


def order_check(env, case, ctx):
    users = [user(k, [3, 0, 1, -1, 2][k], 40 - k) for k in case]
    for k, (ents, _) in zip(case, users):
        if k in (1, 3):
            for e in ents:
                e['syn'] = []
    w = Many(SYS, users=users, simple=(0, 0, 20000, POS_SYS[2]), lsize=2, rsize=2)
    w.kinds = [[3, 0, 1, -1, 2][k] for k in case]

    def ub(i):
        e, p = w.users[i]
        return fmt.encode({1: fmt.USER_V2, 3: fmt.USER_V1}.get(case[i], fmt.USER_V3), e, p)
    w.user_bytes = ub
    w.dir = env
    w.write()
    check_world(w, 'order %r' % (case,), ctx)


# --- more than 15 are refused
def refuse_cases(tier):
    return range(14, 22)


def refuse_check(env, case, ctx):
    from sudachipy.dictionary import Dictionary
    w = many((0,) * 15, [40] * 15, env)
    for names in ([w.config()['userDict'][i % 15] for i in range(case)], ['user0.dic'] * case):
        cfg = dict(w.config(), userDict=names)
        p = os.path.join(env, 'refuse.json')
        with open(p, 'w') as f:
            json.dump(cfg, f)
        try:
            d = Dictionary(config_path=p, resource_dir=env)
        except Exception:
            if case <= 15:
                raise
            d = None
        if d is not None:
            if case > 15:
                raise Violation('%d user dictionaries are accepted' % case)
            if names[-1] == 'user0.dic':        # the same file several times: every one has its own id
                found = sorted(int(a) for a, _ in d.lexicon.lookup('一あ'.encode('utf-8'), 0))
                if found != [(k + 1) << 28 for k in range(case)]:
                    raise Violation('the same dictionary %d times: %r' % (case, found))
        ctx.count('transitions')
        ctx.outcome((case, d is None))
    w.open().create().tokenize('系統')
    ctx.count('states')


# --- dictionaries from the real builder
def built_cases(tier):
    for perm in itertools.permutations(range(3)):
        for own in itertools.product((0, 1, 2), repeat=3):
            yield (perm, own)


def built_setup(tier):
    d = Scratch.dir('c09b')
    rows = [row('系', reading='ケイ', pos=POS_SYS[0]), row('統', pos=POS_SYS[1]), row('系統', pos=POS_SYS[2], type_='C', a='0/1', b='0/1', ws='0/1')]
    data = build_system(write_sources(d, [rows]), '1 1\n0 0 0\n')
    p = write_file(d, 'base.dic', data)
    return d, p, data


def built_check(env, case, ctx):
    d, base, data = env
    perm, own = case
    bd = open_system(base)
    users = []
    for k in range(3):
        pos = own_pos(k, own[k]) or [POS_SYS[2]]
        c = chr(0x4e00 + k)
        rows = [row(c + 'あいう'[j], cost=10, pos=p, reading='r%d%d' % (k, j)) for j, p in enumerate(pos)]
        rows.append(row(c + 'あ系統', cost=-5, pos=POS_SYS[1], type_='C', a='U0/0/1', b='"%sあ,%s,r%d0"/2' % (c, ','.join(pos[0]), k),
                        ws='U0/2'))
        rows[-1][16] = '%sあ,%s,r%d0/2' % (c, ','.join(pos[0]), k)
        users.append((build_user(write_sources(d, [rows], 'u%d' % k), bd.grammar, bd.lexicon), rows, pos))
    for i, k in enumerate(perm):
        write_file(d, 'user%d.dic' % i, users[k][0])
    write_file(d, 'system.dic', data)
    write_file(d, 'char.def', b'DEFAULT 0 1 0\n0x0000..0x10FFFF DEFAULT\n')
    cfg = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'userDict': ['user%d.dic' % i for i in range(3)],
           'oovProviderPlugin': [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(POS_SYS[0]), 'leftId': 0,
                                  'rightId': 0, 'cost': 9000}]}
    write_file(d, 'b.json', json.dumps(cfg).encode())
    from sudachipy.dictionary import Dictionary
    tok = Dictionary(config_path=os.path.join(d, 'b.json'), resource_dir=d).create()
    modes = W.modes()
    for i, k in enumerate(perm):
        _, rows, pos = users[k]
        for j, p in enumerate(pos):
            m, = tok.tokenize(rows[j][0])
            got = (m.dictionary_id(), m.word_id(), m.part_of_speech(), m.reading_form())
            want = (i + 1, ((i + 1) << 28) | j, list(p), rows[j][11])
            if got != want:
                raise Violation('built, order %r, own %r: %r is %r, expected %r' % (perm, own, rows[j][0], got, want))
        m, = tok.tokenize(rows[-1][0])
        for mn, want in (('A', [(rows[0][0], i + 1, pos[0]), ('系', 0, POS_SYS[0]), ('統', 0, POS_SYS[1])]),
                         ('B', [(rows[0][0], i + 1, pos[0]), ('系統', 0, POS_SYS[2])])):
            got = [(x.surface(), x.dictionary_id(), tuple(x.part_of_speech())) for x in m.split(modes[mn])]
            if got != [(a, b, tuple(c)) for a, b, c in want]:
                raise Violation('built, order %r, own %r: split %s is %r, expected %r' % (perm, own, mn, got, want))
        ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- ids beyond 16 bits
def large_cases(tier):
    return [0, 1, 2]


def large_check(env, case, ctx):
    n = 66000
    ents = [entry('%c%c' % (0x4e00 + i // 1000, 0x5e00 + i % 1000), 1, 1, 10, pos=i % 6) for i in range(n)]
    ents.append(entry('大' + ents[n - 1]['head'], 1, 1, 1, a=[], b=[], pos=6 if case else 0))
    mark = MARK if case else 0
    ents.append(entry('𠮷', 1, 1, 1))
    ents.append(entry('𠮷' + ents[n - 1]['head'], 1, 1, -50, a=[mark | (n + 1), mark | (n - 1)], dform=n - 1))
    users = [([entry('他', 1, 1, 1, pos=6)], own_pos(0, 1)), ([entry('別', 1, 1, 1, pos=6)], own_pos(1, 1))]
    sysd = SYS
    if case:
        users[case - 1] = (ents, users[case - 1][1])
    else:
        sysd = ents
    w = World(sysd, users=users, simple=(0, 0, 20000, POS_SYS[2]), lsize=2, rsize=2)
    w.dir = Scratch.dir('c09l')
    w.write()
    spec = Spec(w)
    _, toks, modes = opened(w)
    for i in list(range(0, n, 997)) + [32767, 32768, 65535, 65536, n - 1, n, n + 2]:
        h = ents[i]['head']
        ml = toks['C'].tokenize(h)
        got = [observe(m) for m in ml]
        want = [spec.obs(0, len(h), h, case, i)]
        if got != want:
            raise Violation('large dictionary %d: %r is %r, expected %r' % (case, h, got, want))
        verify(w, spec, toks, modes, h, list(range(len(h) + 1)), ctx, 'large')
    ctx.count('states')


# --- many own parts of speech
def owns_cases(tier):
    sizes = (0, 1, 120, 121, 122, 249, 250, 251, 255, 256, 257, 1000) if tier == 'quick' else tuple(range(0, 300)) + (505, 506, 507, 1000, 5000)
    for n in sizes:
        for n2 in (0, 1, 300):
            yield (n, n2)


def owns_check(env, case, ctx):
    sizes = case + (2,)
    users = []
    for k, n in enumerate(sizes):
        own = [('甲%d-%d' % (k, j), '*', '*', '*', '*', '*') for j in range(n)]
        users.append(([entry('%c%c' % (0x4e00 + k, 0x5000 + j), 1, 1, 10, pos=len(SYS_POS) + j if j < n else j % len(SYS_POS)) for j in range(n + 2)], own))
    w = World(SYS, users=users, simple=(0, 0, 20000, POS_SYS[2]), lsize=2, rsize=2)
    w.dir = env
    w.write()
    tok = w.open().create()
    for k, (ents, own) in enumerate(users):
        for j, e in enumerate(ents):
            ml = tok.tokenize(e['head'])
            got = [(m.surface(), m.dictionary_id(), tuple(m.part_of_speech())) for m in ml]
            want = [(e['head'], k + 1, w.posname(k + 1, e['pos']))]
            if got != want:
                raise Violation('dictionaries with %r own parts of speech: word %d of dictionary %d is %r, expected %r' % (sizes, j, k + 1, got, want))
            ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- every arrangement of system and own units
def unit_cases(tier):
    for n in (1, 2, 3, 15):
        for k in sorted({0, n // 2, n - 1}):
            for size in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                yield (n, k, size)


def unit_check(d, case, ctx):
    n, k, size = case
    users = []
    for u in range(n):
        ents = [entry(chr(0x4e00 + 2 * u), 1, 1, 10, reading='f%d' % u, pos=6), entry('填', 1, 1, 9000), entry(chr(0x4e01 + 2 * u), 1, 1, 10, reading='l%d' % u)]
        heads = {1: ('系', 1), 2: ('統', 2), MARK: (ents[0]['head'], MARK), MARK | 2: (ents[2]['head'], MARK | 2)}
        if u == k:
            for j, v in enumerate(itertools.product(sorted(heads), repeat=size)):
                if v == (1, 2):     # a word of the system dictionary
                    continue
                ents.append(entry(''.join(heads[x][0] for x in v) + '丙' * (size == 1), 1, 1, -50, a=v, b=v[::-1] if size > 1 else (), ws=v[1:] + v[:1], norm='v%d' % j))
        users.append((ents, own_pos(u, 1)))
    for e in users[k][0]:    # the units of B are those of A in the same order: they cover the headword
        e['b'] = list(e['a']) if len(e['a']) != 3 else []
    w = World(SYS, users=users, simple=(0, 0, 20000, POS_SYS[2]), lsize=2, rsize=2, matrix={(1, 1): 1, (0, 1): 2, (1, 0): 3})
    w.dir = d
    w.write()
    what = 'dictionary %d of %d with all words of %d units' % (k + 1, n, size)
    spec = Spec(w)
    dic, toks, modes = opened(w)
    ids = list(range(3, len(users[k][0])))
    for i in ids + ids[::-1]:    # twice: from the file and from the cache
        e = users[k][0][i]
        wi = dic.lexicon.get_word_info((k + 1) << 28 | i)
        got = [list(wi.a_unit_split), list(wi.b_unit_split), list(wi.word_structure)]
        want = [[(k + 1) << 28 | (x & (MARK - 1)) if x >> 28 else x for x in e[f]] for f in ('a', 'b', 'ws')]
        if got != want:
            raise Violation('%s: %r has %r, expected %r' % (what, e['head'], got, want))
        ctx.count('transitions')
    for i in ids:
        text = users[k][0][i]['head']
        verify(w, spec, toks, modes, text, list(range(len(text) + 1)), ctx, what)
    ctx.count('states')
    ctx.outcome(case)


# --- user dictionaries that define the same parts of speech
POOL = [('甲', '*', '*', '*', '*', '*'), ('乙', '*', '*', '*', '*', '*'), ('甲', '乙', '*', '*', '*', '*')]


def same_cases(tier):
    for sizes in itertools.product((0, 1, 2, 3), repeat=3 if tier == 'quick' else 4):
        for turn in (0, 1, 2):
            yield (sizes, turn)


def same_check(d, case, ctx):
    sizes, turn = case
    users = [(user(k, n, 40)[0], [POOL[(j + k * turn) % 3] for j in range(n)]) for k, n in enumerate(sizes)]
    w = World(SYS, users=users, simple=(0, 0, 20000, POS_SYS[2]), lsize=2, rsize=2, matrix={(1, 1): 1, (0, 1): 2, (1, 0): 3})
    w.dir = d
    w.write()
    check_world(w, 'own parts of speech %r' % ([p for _, p in users],), ctx)


SECTIONS = [
    Section('kinds', kind_cases, kind_check, tmpdir, 'all vectors of up to 4 (thorough 5) dictionaries over: no grammar, 0, 1, 3 own parts of speech'),
    Section('positions', pos_cases, pos_check, tmpdir, '1..15 dictionaries, every position of one that differs and has the cheapest homograph'),
    Section('orders', order_cases, order_check, tmpdir, 'every order of 4 (thorough 5) different dictionaries'),
    Section('refused', refuse_cases, refuse_check, tmpdir, '14..21 dictionaries, different files and the same file', block=1),
    Section('built', built_cases, built_check, built_setup, 'three dictionaries of the real builder, every order and number of own parts of speech'),
    Section('units', unit_cases, unit_check, tmpdir, 'all vectors of 1..3 (thorough 4) units over two words of the system and two of the own dictionary, in dictionaries at several positions', block=1),
    Section('many-own', owns_cases, owns_check, tmpdir, 'three dictionaries, the first with up to 1000 (thorough 5000), the second up to 300 own parts of speech', block=1),
    Section('same-names', same_cases, same_check, tmpdir, 'three (thorough four) dictionaries that define 0..3 parts of speech of the same three names in every order'),
    Section('large', large_cases, large_check, tmpdir, '66003 words in the system, first or second user dictionary', block=1, nproc=3),
]
