"""C08: every well-formed dictionary of the five format versions is read completely."""
import itertools
import os

from .. import fmt, world as W
from ..core import Section, Violation, Scratch
from ..fmt import entry
from ..src import open_system, open_user, write_file
from ..world import POS_SYS, World, observe
from .c05 import MARK, Spec

PROPERTY = 'C08'
RULE = 'a case is one dictionary image written by an independent encoder; everything the reader exposes is compared with what was encoded'
ASSUMPTIONS = ['descriptions contain no NUL (the format ends the description there)', 'creation times below 2^63 are written']
VERSIONS = ['S1', 'S2', 'U1', 'U2', 'U3']


def tmpdir(tier):
    return Scratch.dir('c08')


def open_image(d, v, data):
    path = write_file(d, 'x.dic', data)
    return open_system(path) if v[0] == 'S' else open_user(path)


def verify(d, v, entries, pos_list, ls, rs, matrix, time, desc, what, ctx, path=None):
    if path:
        bd = open_system(path) if v[0] == 'S' else open_user(path)
    else:
        bd = open_image(d, v, fmt.encode(fmt.ALL[v], entries, pos_list, ls, rs, matrix, time, desc))
    h = bd.header
    if (h.version, h.create_time, h.description) != (fmt.ALL[v], time, desc):
        raise Violation('%s: header %r' % (what, (h.version, h.create_time, h.description)))
    if (h.is_system_dictionary(), h.is_user_dictionary()) != (v[0] == 'S', v[0] == 'U'):
        raise Violation('%s: kind of the dictionary' % what)
    g = bd.grammar
    if v == 'U1':
        if g is not None:
            raise Violation('%s: a dictionary without grammar has one' % what)
    else:
        got = [tuple(g.get_part_of_speech_string(i)) for i in range(g.get_part_of_speech_size())]
        if got != [tuple(p) for p in pos_list]:
            raise Violation('%s: parts of speech %r, expected %r' % (what, short(got), short(pos_list)))
        for i, p in enumerate(pos_list):
            if g.get_part_of_speech_id(list(p)) != list(map(tuple, pos_list)).index(tuple(p)):
                raise Violation('%s: id of part of speech %r' % (what, short(p)))
        if g.get_part_of_speech_id(['no', 'such', 'part', 'of', 'speech', '!']) != -1:
            raise Violation('%s: id of an unknown part of speech' % what)
        for l in range(ls):
            for r in range(rs):
                if g.get_connect_cost(l, r) != matrix.get((l, r), 0):
                    raise Violation('%s: cost of (%d, %d) is %r, expected %r' % (
                        what, l, r, g.get_connect_cost(l, r), matrix.get((l, r), 0)))
        if list(g.get_bos_parameter()) != [0, 0, 0] or list(g.get_eos_parameter()) != [0, 0, 0]:
            raise Violation('%s: BOS/EOS parameters' % what)
    lex = bd.lexicon
    if lex.size() != len(entries):
        raise Violation('%s: %d entries, expected %d' % (what, lex.size(), len(entries)))
    order = list(range(len(entries))) + list(range(len(entries)))[::-1]
    for i in order:
        e = entries[i]
        wi = lex.get_word_info(i)
        df = e['surface'] if e['dform'] < 0 else entries[e['dform']]['surface']
        got = (lex.get_left_id(i), lex.get_right_id(i), lex.get_cost(i), wi.surface, wi.head_word_length, wi.pos_id, wi.normalized_form,
               wi.dictionary_form_word_id, wi.dictionary_form, wi.reading_form, list(wi.a_unit_split), list(wi.b_unit_split),
               list(wi.word_structure), list(wi.synonym_group_ids))
        want = (e['left'], e['right'], e['cost'], e['surface'], len(e['head'].encode('utf-8')), e['pos'], e['norm'], e['dform'], df,
                e['reading'], e['a'], e['b'], e['ws'], e['syn'] if v in ('S2', 'U3') else [])
        if got != want:
            raise Violation('%s: entry %d is %s, expected %s' % (what, i, short(got), short(want)))
        if e['left'] != -1:
            raw = e['head'].encode('utf-8')
            if (i, len(raw)) not in [(int(a), int(b)) for a, b in lex.lookup(raw, 0)]:
                raise Violation('%s: entry %d is not found' % (what, i))
    ctx.count('transitions', len(order))
    ctx.count('states')
    return bd


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


# --- headers
def descriptions(tier):
    for n in range(0, 257):
        yield 'a' * n
    for ch in ('é', 'あ', '𠮷'):
        k = len(ch.encode('utf-8'))
        for n in range(1, 256 // k + 1):
            yield ch * n
            if n * k < 256:
                yield 'x' * (256 - n * k) + ch * n
                yield ch * n + 'x' * (256 - n * k)
    for s in ('a b\tc\n', '"quoted"', '\x01\x7f', '\ufeffx', ' lead', 'trail ', 'é' * 127 + 'z', '\U0010ffff' * 64):
        yield s


TIMES = [0, 1, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40 + 5, 2 ** 63 - 1]


def header_cases(tier):
    for d in descriptions(tier):
        yield (d, 1234567890)
    for t in TIMES:
        for d in ('', 'あ', 'x' * 256):
            yield (d, t)


def header_check(env, case, ctx):
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    desc, time = case
    for v in VERSIONS:
        h = DictionaryHeader(fmt.ALL[v], time, desc)
        raw = bytes(h.to_bytes())
        want = fmt.encode_header(fmt.ALL[v], time, desc)
        if raw != want:
            raise Violation('header %r/%r of %s is written as %r' % (desc, time, v, raw))
        for off in (0, 1, 100):
            b = DictionaryHeader.from_bytes(b'\xff' * off + raw + b'zz', off)
            if (b.version, b.create_time, b.description) != (fmt.ALL[v], time, desc):
                raise Violation('header %r/%r of %s reads back as %r' % (desc, time, v, (b.version, b.create_time, b.description)))
        if h.storage_size() != 272 or len(raw) != 272:
            raise Violation('header size %d' % len(raw))
        ctx.count('transitions')
    verify(env, VERSIONS[len(desc) % 5], [entry('あ')], [POS_SYS[0]], 1, 1, {}, time, desc, 'header %r' % desc, ctx)
    ctx.outcome(case)


def long_cases(tier):
    return [('a', 257), ('a', 300), ('é', 129), ('あ', 86), ('𠮷', 65), ('a', 5000)]


def long_check(env, case, ctx):
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    ch, n = case
    try:
        raw = DictionaryHeader(fmt.SYSTEM_V2, 0, ch * n).to_bytes()
    except Exception:
        ctx.count('states')
        ctx.outcome(case)
        return
    raise Violation('a description of %d bytes is written (%d bytes)' % (len((ch * n).encode()), len(raw)))


# --- every small shape of every version
def shape_cases(tier):
    top = 4
    for v in VERSIONS:
        for npos in range(0, 4):
            for ls in range(top):
                for rs in range(top):
                    for n in (0, 1, 2, 5) if tier == 'quick' else range(0, 9):
                        yield (v, npos, ls, rs, n)


def shape_check(env, case, ctx):
    v, npos, ls, rs, n = case
    if n == 0:
        return          # the trie library cannot build an empty trie
    pos = [tuple('p%d%d' % (i, j) if (i + j) % 3 else '*' for j in range(6)) for i in range(npos)]
    m = {(l, r): (l * 31 + r * 7 + 1) * (-1) ** (l + r) * 100 for l in range(ls) for r in range(rs)}
    ents = [entry('あいa𠮷'[i % 4] * (i // 4 + 1), i - 1 if i == 0 and n > 1 else i, 2 * i, 100 - i, norm='n%d' % i if i % 2 else None,
                  reading='r' * i, pos=i % max(npos, 1), dform=(i + 1) % n if i % 3 == 0 else -1, a=[0] * i, b=[n - 1] * (2 * i),
                  ws=list(range(n)), syn=[i] * (n - i)) for i in range(n)]
    for e in ents:
        e['reading'] = e['reading'] or e['surface']
    verify(env, v, ents, pos, ls, rs, m, 7, 'd', 'shape %r' % (case,), ctx)
    ctx.outcome(case)


# --- values: 16/32-bit extremes, string and list lengths in every field of every version
LENS = [1, 2, 127, 128, 129, 255, 256, 257, 300, 511, 512, 32767]


def value_cases(tier):
    lens = LENS if tier == 'quick' else sorted(set(LENS + list(range(1, 700)) + [16383, 16384, 32766]))
    for v in VERSIONS:
        for n in lens:
            for f in ('surface', 'norm', 'reading', 'head', 'pos'):
                for ch in ('a', 'あ', '𠮷', '\ufeff'):
                    yield (v, f, n, ch)
        for n in range(0, 128):
            for f in ('a', 'b', 'ws', 'syn'):
                yield (v, f, n, '')
        for n in (0, 1, -1, 127, 128, 255, 256, 32767, -32768, -129):
            for f in ('left', 'right', 'cost', 'cell', 'posid'):
                yield (v, f, n, '')
        for n in (0, 1, 2 ** 28 - 1, 2 ** 28, 2 ** 28 + 5, 2 ** 31 - 1):
            for f in ('aid', 'synid'):
                yield (v, f, n, '')


def value_check(env, case, ctx):
    v, f, n, ch = case
    e = entry('頭', 1, 2, 3, norm='正', reading='読', pos=0, a=[0, 0], b=[0, 1], ws=[1], syn=[5])
    x = entry('次', 4, 5, 6, norm='X', reading='Y', pos=0, a=[1], b=[1, 1], ws=[0], syn=[6, 7])
    pos = [POS_SYS[0], POS_SYS[1]]
    m = {(0, 1): 5, (1, 0): -5}
    if ch:
        k = 2 if ch == '𠮷' else 1
        s = ch * (n // k) + 'z' * (n % k)
        if f == 'head':
            k = len(ch.encode('utf-8'))
            e['head'] = ch * (n // k) + 'z' * (n % k)
        elif f == 'pos':
            pos[0] = ('a', s, '*', s if n < 1000 else 'b', '*', 'c')
        else:
            e[f] = s
    elif f in ('a', 'b', 'ws', 'syn'):
        e[f] = [i % 2 for i in range(n)]
    elif f == 'cell':
        m[(1, 1)] = n
    elif f == 'posid':
        e['pos'] = max(n, 0)
    elif f == 'aid':
        e['a'] = [n, 0, n]
    elif f == 'synid':
        e['syn'] = [n, 0, n]
    else:
        e[f] = n
    verify(env, v, [e, x], pos, 2, 2, m, 9, 'desc', 'value %r' % (case,), ctx)
    ctx.outcome(case)


# --- POS strings: every code point
def poscp_cases(tier):
    for lo in range(0, 0x110000, 1536):
        if tier == 'quick' and lo > 0x3000 and lo % (1536 * 8):
            continue
        yield lo


def poscp_check(env, case, ctx):
    cps = [c for c in range(case, min(case + 1536, 0x110000)) if not 0xd800 <= c < 0xe000]
    if not cps:
        return
    cps += [cps[0]] * (-len(cps) % 6)
    pos = [tuple(chr(c) for c in cps[i:i + 6]) for i in range(0, len(cps), 6)]
    verify(env, ['S1', 'S2', 'U2', 'U3'][case // 1536 % 4], [entry('あ', surface=chr(cps[-1]) + 'い', norm=chr(cps[0]))], pos, 1, 2, {(0, 1): 3},
           1, '', 'code points U+%04X' % case, ctx)
    ctx.outcome(case)


# --- parts of speech that are alike
def alike_lists():
    two = [('あ', 'い')] * 6
    yield 'all over two strings', list(itertools.product(*two))
    yield 'strings that are parts of each other', [t + ('*', '*', '*') for t in itertools.product(['あ', 'あい', 'い', '', '*'], repeat=3)]
    yield 'at the end', [('*', '*', '*') + t for t in itertools.product(['あ', 'ああ', ' あ', 'あ ', '*'], repeat=3)]
    yield 'case and width', [(a, b, '*', '*', '*', c) for a, b, c in itertools.product(['a', 'A', 'Ａ', 'ａ'], repeat=3)]


def alike_cases(tier):
    for i, (_, l) in enumerate(alike_lists()):
        for shift in range(0, len(l), 1 if tier == 'thorough' else 5):
            for rev in (False, True):
                yield (i, shift, rev)


def alike_check(env, case, ctx):
    from sudachipy.dictionarylib.grammar import Grammar
    import mmap
    i, shift, rev = case
    name, pos = list(alike_lists())[i]
    pos = pos[shift:] + pos[:shift]
    absent = pos[-3:]
    pos = pos[:-3][::-1] if rev else pos[:-3]
    what = 'parts of speech alike: %s, from %d%s' % (name, shift, ', backwards' if rev else '')
    raw = fmt.encode_grammar(pos, 1, 1, {(0, 0): 3})
    mm = mmap.mmap(-1, len(raw))
    mm[:] = raw
    g = Grammar(mm, 0)
    for k, p in enumerate(pos):
        if g.get_part_of_speech_id(list(p)) != k or tuple(g.get_part_of_speech_string(k)) != tuple(p):
            raise Violation('%s: %r is number %d, not %d; that number is %r' % (what, p, g.get_part_of_speech_id(list(p)), k, g.get_part_of_speech_string(k)))
        ctx.count('transitions')
    for p in absent:
        if g.get_part_of_speech_id(list(p)) != -1:
            raise Violation('%s: %r is number %d, but it is not there' % (what, p, g.get_part_of_speech_id(list(p))))
    # and through the builder
    if shift % 10 == 0:
        from ..src import row, write_sources, build_system, open_system
        paths = write_sources(env, [[row('語%d' % k, 0, 0, k, pos=p) for k, p in enumerate(pos)]])
        bd = open_system(write_file(env, 'alike.dic', build_system(paths, '1 1\n0 0 0\n')))
        for k, p in enumerate(pos):
            if tuple(bd.grammar.get_part_of_speech_string(bd.lexicon.get_word_info(k).pos_id)) != tuple(p):
                raise Violation('%s: word %d is built with %r, its row says %r' % (what, k, bd.grammar.get_part_of_speech_string(bd.lexicon.get_word_info(k).pos_id), p))
            if bd.lexicon.get_word_id('語%d' % k, k, '語%d' % k) != k:
                raise Violation('%s: word %d is not found' % (what, k))
            ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- dictionaries of several versions used together
def combo_cases(tier):
    n = 2 if tier == 'quick' else 3
    for s in ('S1', 'S2'):
        for k in range(n + 1):
            for us in itertools.product(('U1', 'U2', 'U3'), repeat=k):
                yield (s,) + us


def combo_check(env, case, ctx):
    sysd = [entry('あ', 0, 0, 5, syn=[1]), entry('い', 0, 0, 5, pos=2, syn=[2]), entry('あい', 0, 0, 8, a=[0, 1], b=[0, 1], syn=[3])]
    users = []
    for k, v in enumerate(case[1:]):
        own = [] if v == 'U1' else [('固%d' % k, v, '*', '*', '*', '*')]
        c = 'うえお'[k]
        users.append(([entry(c, 0, 0, 5, pos=len(POS_SYS) if own else 1, syn=[9, k], reading='R%d' % k),
                       entry('あ' + c, 0, 0, 2, a=[0, MARK], b=[0, MARK], pos=3, syn=[4]), entry('い', -1, 0, 1, pos=0)], own))
    w = World(sysd, users=users, simple=(0, 0, 999, POS_SYS[2]), lsize=1, rsize=1, version=case[0])
    w.dir = env
    w.write()
    for k, v in enumerate(case[1:]):
        e, p = users[k]
        write_file(env, 'user%d.dic' % k, fmt.encode(fmt.ALL[v], e, p))
    # entries without synonyms where the version has none
    spec = Spec(w)
    if case[0] == 'S1':
        for e in sysd:
            e['syn'] = []
    for v, (e, _) in zip(case[1:], users):
        for x in e:
            if v != 'U3':
                x['syn'] = []
    dic = w.open()
    modes = W.modes()
    for text in ['あ', 'い', 'あい', 'あう', 'うえ', 'あえい', 'おあお', 'あうあえあお']:
        for mn in 'ABC':
            ml = dic.create().tokenize(text, modes[mn])
            ctx.count('transitions')
            for m in ml:
                if m.dictionary_id() < 0:
                    continue
                did, wid = m.dictionary_id(), m.word_id() & (MARK - 1)
                want = spec.obs(m.begin(), m.end(), text, did, wid)
                if spec.lex[did][wid]['head'] != text[m.begin():m.end()] or observe(m) != want:
                    raise Violation('versions %r: %r: morpheme %r, expected %r' % (case, text, observe(m), want))
            ctx.outcome((case, text, mn, tuple((m.surface(), m.word_id()) for m in ml)))
    for k in range(len(users)):
        c = 'うえお'[k]
        ml = dic.create().tokenize('あ' + c, modes['A'])
        if [(m.surface(), m.dictionary_id()) for m in ml] != [('あ', 0), (c, k + 1)]:
            raise Violation('versions %r: words of user dictionary %d are not used: %r' % (case, k, [(m.surface(), m.dictionary_id()) for m in ml]))
    ctx.count('states')


# --- large files: sizes and positions of every magnitude (the files are sparse)
STEPS = [0, 100, 255, 256, 65535, 65536, 2 ** 24 - 40, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 70000]
FAR = [2 ** 24 + 1, 2 ** 25 - 30, 2 ** 28 + 5, 2 ** 31 - 40, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 77, 3 * 2 ** 30, 2 ** 32 - 4096]


def place_cases(tier):
    for v in VERSIONS:
        for n in STEPS:
            yield (v, n, 0, 0)
            yield (v, 0, n, 0)
            yield (v, n // 3, n // 2, n)
        for n in STEPS[4:] + FAR:
            if v[0] == 'S' or n < 2 ** 26:      # user dictionaries are mapped copy on write
                yield (v, 0, 0, n)
                yield (v, 40000, 70000, n)


def place_check(env, case, ctx):
    v, pad, gap, far = case
    ents = [entry('あ', 1, 2, 3, norm='正', reading='ヨミ', a=[1, 2], b=[2, 1], syn=[5, 9]), entry('い', 4, 5, 6, pos=1, dform=0), entry('あ', -7, 8, 9, dform=3, syn=[1]),
            entry('あいう', 2, 2, -9, surface='遠い語', norm='x' * 200, ws=[0, 1]), entry('無', -1, 0, 0)]
    m = {(0, 1): 5, (1, 0): -5}
    path = os.path.join(env, 'placed.dic')
    with open(path, 'wb') as f:
        fmt.encode_placed(f, fmt.ALL[v], ents, POS_SYS[:2], 2, 2, m, pad, gap, [None, far or None, None, far + 2000 if far else None, None])
    try:
        if far and os.path.getsize(path) < far:
            raise RuntimeError('the file is too short')
        verify(env, v, ents, POS_SYS[:2], 2, 2, m, 0, '', 'placed %r' % (case,), ctx, path)
    finally:
        os.unlink(path)
    ctx.outcome(case)


SECTIONS = [
    Section('headers', header_cases, header_check, tmpdir, 'all description lengths 0..256 in 1-4 byte characters, 10 times, 5 versions'),
    Section('long-descriptions', long_cases, long_check, tmpdir, 'descriptions that do not fit'),
    Section('shapes', shape_cases, shape_check, tmpdir, 'versions x 0..3 parts of speech x matrix dimensions 0..3 x 0..3 x entry counts'),
    Section('values', value_cases, value_check, tmpdir, 'string lengths, list lengths, 16/32-bit extremes in every field of every version'),
    Section('positions', place_cases, place_check, tmpdir, 'sizes of the trie and of the word id lists up to 2^24, positions of word information up to 2^32 (sparse files)', block=1),
    Section('pos-code-points', poscp_cases, poscp_check, tmpdir, 'code points of the stated ranges in part-of-speech and word strings', block=1),
    Section('alike', alike_cases, alike_check, tmpdir, 'four families of 64 to 125 parts of speech that differ in every combination of columns, rotated and reversed'),
    Section('combinations', combo_cases, combo_check, tmpdir, 'all combinations of a system version and up to 2 (thorough 3) user versions'),
]
