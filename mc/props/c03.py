"""C03: lookup returns exactly the indexed entries that are a prefix of the text."""
import itertools

from .. import fmt
from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from ..src import Quiet, build_system, csv_text, open_system, open_user, row, write_file, write_sources
from ..world import POS_SYS, World

PROPERTY = 'C03'
RULE = ('a case is one set of dictionaries (headwords, homographs, unindexed entries); every position of every text of the section '
        'is looked up and compared with a prefix scan over the plain list of entries')
ASSUMPTIONS = ['headwords contain no NUL character (the trie library treats keys as C strings)',
               'part-of-speech ids given to get_word_id are those of the system dictionary here; those of user dictionaries: C09']


def tmpdir(tier):
    return Scratch.dir('c03')


def expected(heads, text_bytes, off):
    """heads: [(encoded headword or None, id)]"""
    out = []
    for h, wid in heads:
        if h is not None and text_bytes.startswith(h, off):
            out.append((wid, off + len(h)))
    return sorted(out)


def check_lookup(lex, heads, texts, ctx, what):
    for t in texts:
        raw = t.encode('utf-8')
        for off in range(len(raw) + 1):
            got = sorted((int(w), int(e)) for w, e in lex.lookup(raw, off))
            want = expected(heads, raw, off)
            ctx.count('transitions')
            if got != want:
                raise Violation('%s: lookup(%r, %d) gives %r, expected %r' % (what, t, off, got, want))
            if want:
                ctx.outcome((t, off, tuple(want)))


def heads_of(entries, did=0):
    return [(e['head'].encode('utf-8') if e['left'] != -1 else None, (did << 28) | i) for i, e in enumerate(entries)]


def open_entries(d, entries, version='S2', name='s.dic'):
    data = fmt.encode(fmt.ALL[version], entries, POS_SYS, 1, 1)
    path = write_file(d, name, data)
    return open_system(path) if version[0] == 'S' else open_user(path)


# --- all small sets of headwords
CHARS = ['a', 'é', 'è', 'あ', 'い', '𠮷']
POOL = list(strings(CHARS, 2))
TEXTS = list(strings(CHARS, 2)) + ['ああい', 'いああ', 'aéè', 'é𠮷あ', '𠮷𠮷𠮷', 'あああ', 'aaa', 'èéa', 'あ𠮷い', 'いい𠮷']


def set_cases(tier):
    for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield from itertools.combinations(range(len(POOL)), k)


def set_check(env, case, ctx):
    ents = [entry(POOL[i], 0, 0, 0) for i in case]
    d = open_entries(env, ents)
    check_lookup(d.lexicon, heads_of(ents), TEXTS, ctx, 'heads %r' % [POOL[i] for i in case])
    if d.lexicon.size() != len(ents):
        raise Violation('size() is %r, expected %d' % (d.lexicon.size(), len(ents)))
    ctx.count('states')


# --- the same through the builder (keys unsorted in the source)
def built_cases(tier):
    pool = list(strings(['a', 'é', 'あ', '𠮷'], 2))
    for c in itertools.permutations(pool, 2):
        yield c
    for c in itertools.combinations(pool if tier == 'thorough' else pool[::2], 3):
        yield c
        yield c[::-1]


def built_check(env, case, ctx):
    rows = []
    for i, h in enumerate(case):
        rows.append(row(h))
        if i == 0:
            rows.append(row(h, left=-1))
            rows.append(row(h, reading='よみ'))
    paths = write_sources(env, [rows])
    data = build_system(paths, '1 1\n0 0 0\n')
    d = open_system(write_file(env, 'b.dic', data))
    heads = [(r[0].encode('utf-8') if r[1] != '-1' else None, i) for i, r in enumerate(rows)]
    check_lookup(d.lexicon, heads, TEXTS, ctx, 'built %r' % (case,))
    ctx.count('states')


# --- homographs: every number of entries per headword
def homograph_cases(tier):
    yield from range(1, 128)
    yield from range(128, 256)


def homograph_check(env, case, ctx):
    ents = [entry('あ', 0, 0, 0)] * 2 + [entry('ああ', 0, 0, 0)] * case + [entry('あい', 0, 0, 0)] * (case % 7 + 1) + \
        [entry('ああ', -1, 0, 0)] + [entry('a', 0, 0, 0)]
    d = open_entries(env, ents)
    check_lookup(d.lexicon, heads_of(ents), ['ああ', 'あああい', 'aあい', 'い'], ctx, '%d homographs' % case)
    ctx.count('states')


def homograph_built_cases(tier):
    return [1, 2, 3, 126, 127, 128, 129, 254, 255] if tier == 'quick' else range(1, 256)


def homograph_built_check(env, case, ctx):
    rows = [row('ああ', cost=i) for i in range(case)] + [row('あ'), row('あああ')]
    data = build_system(write_sources(env, [rows]), '1 1\n')
    d = open_system(write_file(env, 'b.dic', data))
    heads = [(r[0].encode('utf-8'), i) for i, r in enumerate(rows)]
    check_lookup(d.lexicon, heads, ['ああ', 'いああああ'], ctx, '%d homographs (built)' % case)
    ctx.count('states')


# --- nested prefixes of every depth
def nested_cases(tier):
    top = 320
    for unit in ('a', 'é', 'あ', '𠮷', 'aあ', 'é𠮷', 'いあ'):
        for n in range(1, top + 1, 1):
            yield (unit, n)
        yield (unit, 700)


def nested_check(env, case, ctx):
    unit, n = case
    text = (unit * (n // len(unit) + 1))[:n]
    ents = [entry(text[:i], 0, 0, 0) for i in range(1, n + 1)]
    d = open_entries(env, ents)
    heads = heads_of(ents)
    for t in (text + 'い', text[1:]) if n < 100 else (text,):
        raw = t.encode('utf-8')
        for off in range(0, min(len(raw), 14)):
            got = sorted((int(w), int(e)) for w, e in d.lexicon.lookup(raw, off))
            ctx.count('transitions')
            if got != expected(heads, raw, off):
                raise Violation('nested prefixes of %r to depth %d: lookup at %d gives %d words, expected %d' % (
                    unit, n, off, len(got), len(expected(heads, raw, off))))
    ctx.outcome((unit, n))
    ctx.count('states')


# --- unindexed entries
def unindexed_cases(tier):
    return itertools.product([0, -1, 5] if tier == 'quick' else [0, -1, 5, -2], repeat=6)


UHEADS = ['あ', 'あ', 'あい', 'a', 'あい', '𠮷']


def unindexed_check(env, case, ctx):
    ents = [entry(h, l, 0, i, reading='r%d' % i, pos=i % 3) for i, (h, l) in enumerate(zip(UHEADS, case))]
    d = open_entries(env, ents)
    lex = d.lexicon
    check_lookup(lex, heads_of(ents), ['あ', 'あい', 'aあい𠮷', '𠮷𠮷', 'い'], ctx, 'left ids %r' % (case,))
    for i, e in enumerate(ents):
        if lex.get_left_id(i) != e['left'] or lex.get_right_id(i) != 0 or lex.get_cost(i) != i:
            raise Violation('left ids %r: parameters of word %d' % (case, i))
        wi = lex.get_word_info(i)
        if (wi.surface, wi.reading_form, wi.pos_id) != (e['surface'], e['reading'], e['pos']):
            raise Violation('left ids %r: word %d is not readable by id' % (case, i))
        if lex.get_word_id(e['surface'], e['pos'], e['reading']) != i:
            raise Violation('left ids %r: word %d is not found by surface, part of speech and reading' % (case, i))
        for s, p, r in ((e['surface'], e['pos'], 'none'), (e['surface'], 5, e['reading']), ('い', e['pos'], e['reading']),
                        (e['surface'] + 'い', e['pos'], e['reading'])):
            if lex.get_word_id(s, p, r) != -1:
                raise Violation('left ids %r: a word was found for %r' % (case, (s, p, r)))
        ctx.count('transitions', 6)
    ctx.count('states')


# --- system and user dictionaries combined: every distribution of words
def set3_cases(tier):
    n = 5 if tier == 'quick' else 6
    return itertools.product(range(8), repeat=n)


SWORDS = [('あ', 'r1', 0), ('あい', 'r2', 1), ('あ', 'r3', 0), ('𠮷', 'r4', 2), ('い', 'r5', 1), ('あい', 'r2', 2)]


def set3_check(env, case, ctx):
    from sudachipy.dictionarylib.lexiconset import LexiconSet
    dics = [[], [], []]
    for (h, r, p), mask in zip(SWORDS, case):
        for k in range(3):
            if mask & (1 << k):
                dics[k].append(entry(h, 0, 0, 7, reading=r, pos=p))
    for k in range(3):
        dics[k].append(entry('z%d' % k, 0, 0, 0))
    sysd = open_entries(env, dics[0])
    lex = LexiconSet(sysd.lexicon)
    keep = [sysd]
    for k in (1, 2):
        u = open_user(write_file(env, 'u%d.dic' % k, fmt.encode(fmt.USER_V3, dics[k])))
        keep.append(u)
        lex.add(u.lexicon, len(POS_SYS))
    heads = [h for k in range(3) for h in heads_of(dics[k], k)]
    check_lookup(lex, heads, ['あ', 'あい', 'い𠮷', 'あz1z2', 'z0あい', 'éあ'], ctx, 'words in dictionaries %r' % (case,))
    if lex.size() != sum(len(d) for d in dics):
        raise Violation('%r: size() is %d' % (case, lex.size()))
    for h, r, p in SWORDS[:len(case)]:
        for pp in (p, 3):
            want = [(k << 28) | i for k in range(3) for i, e in enumerate(dics[k])
                    if (e['surface'], e['reading'], e['pos']) == (h, r, pp)] or [-1]
            got = lex.get_word_id(h, pp, r)
            ctx.count('transitions')
            if got not in want:
                raise Violation('%r: get_word_id(%r, %d, %r) is %r, expected one of %r' % (case, h, pp, r, got, want))
            ctx.outcome((h, pp, got))
    for k in range(3):
        for i, e in enumerate(dics[k]):
            wid = (k << 28) | i
            if lex.get_cost(wid) != e['cost'] or lex.get_word_info(wid).surface != e['surface']:
                raise Violation('%r: word %d of dictionary %d' % (case, i, k))
    ctx.count('states')


# --- many dictionaries, nested headwords and homographs, short and long texts
def deep_cases(tier):
    for users in (range(0, 16) if tier == 'thorough' else (0, 1, 2, 3, 4, 7, 8, 14, 15)):
        for depth in (1, 2, 3, 5, 9, 33):
            for homographs in (1, 2, 3):
                yield (users, depth, homographs)


def deep_check(env, case, ctx):
    from sudachipy.dictionarylib.lexiconset import LexiconSet
    users, depth, homographs = case
    dics = [[entry('あ' * n, 0, 0, n, reading=str(k)) for n in range(1, depth + 1) for k in range(homographs)] + [entry('い', 0, 0, 0)]
            for _ in range(users + 1)]
    for k in range(1, users + 1, 2):
        dics[k].append(entry('いあ', 0, 0, 0))
    keep = [open_entries(env, dics[0])]
    lex = LexiconSet(keep[0].lexicon)
    for k in range(1, users + 1):
        keep.append(open_user(write_file(env, 'u%d.dic' % k, fmt.encode(fmt.USER_V3, dics[k]))))
        lex.add(keep[-1].lexicon, len(POS_SYS))
    heads = [h for k in range(users + 1) for h in heads_of(dics[k], k)]
    for text in ('あ', 'あいあ', 'い' + 'あ' * depth, 'あ' * 40, 'あ' * 100 + 'いあ', 'いあ' * 200, 'あ' * 400):
        raw = text.encode('utf-8')
        for c in sorted({0, 1, 2, depth, len(text) // 2, len(text) - 2, len(text) - 1}):
            if not 0 <= c < len(text):
                continue
            got = sorted((int(w), int(e)) for w, e in lex.lookup(raw, 3 * c))
            ctx.count('transitions')
            if got != expected(heads, raw, 3 * c):
                raise Violation('%r: lookup at %d of %r... (%d characters) gives %d entries, expected %d' % (
                    case, 3 * c, text[:4], len(text), len(got), len(expected(heads, raw, 3 * c))))
            ctx.outcome((case, len(got)))
    ctx.count('states')


# --- every code point as a headword
def cp_cases(tier):
    step = 2048
    for lo in range(0, 0x110000, step):
        if 0xd800 <= lo < 0xe000:
            continue
        yield (max(lo, 1), lo + step)


def cp_check(env, case, ctx):
    heads = [chr(c) for c in range(*case)]
    ents = [entry(h, 0, 0, 0) for h in heads] + [entry(h + 'あ', 0, 0, 0) for h in heads[::16]]
    d = open_entries(env, ents)
    n = len(heads)
    for i, h in enumerate(heads):
        raw = ('a' + h + 'あ').encode('utf-8')
        want = [(i, 1 + len(h.encode('utf-8')))]
        if i % 16 == 0:
            want.append((n + i // 16, len(raw)))
        got = sorted((int(w), int(e)) for w, e in d.lexicon.lookup(raw, 1))
        ctx.count('transitions')
        if got != sorted(want):
            raise Violation('U+%04X: lookup gives %r, expected %r' % (ord(h), got, want))
        # the same behind the character (and behind U+0000, which no headword has)
        for before in (('a' + h, 'a\0b') if i % 16 == 0 else ('a' + h,)):
            shift = len(before.encode('utf-8'))
            raw = (before + h + 'あ').encode('utf-8')
            got = sorted((int(w), int(e)) for w, e in d.lexicon.lookup(raw, shift))
            ctx.count('transitions')
            if got != sorted((w, e - 1 + shift) for w, e in want):
                raise Violation('U+%04X behind %r: lookup gives %r, expected %r' % (ord(h), before, got, [(w, e - 1 + shift) for w, e in want]))
    ctx.outcome(case)
    ctx.count('states')


# --- large dictionaries: ids and offsets beyond 8, 16 and 17 bits
def large_cases(tier):
    return [255, 256, 257, 4095, 13107, 13108, 65535, 65536, 65537] + ([200000] if tier == 'thorough' else [])


def large_check(env, case, ctx):
    def head(i):
        return chr(0x4e00 + i % 20000) + (chr(0x4e00 + i // 20000) if i >= 20000 else '') + 'ん'
    ents = [entry(head(i), i % 3, i % 5, i % 101) for i in range(case)]
    d = open_entries(env, ents)
    step = 1 if case < 5000 else 7
    for i in list(range(0, case, step)) + [case - 1]:
        raw = head(i).encode('utf-8')
        got = [(int(w), int(e)) for w, e in d.lexicon.lookup(raw, 0)]
        ctx.count('transitions')
        if got != [(i, len(raw))]:
            raise Violation('%d entries: lookup of entry %d gives %r' % (case, i, got))
        if (d.lexicon.get_left_id(i), d.lexicon.get_right_id(i), d.lexicon.get_cost(i)) != (i % 3, i % 5, i % 101):
            raise Violation('%d entries: parameters of entry %d' % (case, i))
        if i % 13 == 0 and d.lexicon.get_word_info(i).surface != head(i):
            raise Violation('%d entries: surface of entry %d' % (case, i))
    ctx.outcome(case)
    ctx.count('states')


SECTIONS = [
    Section('headword-sets', set_cases, set_check, tmpdir,
            'all sets of <=3 headwords (thorough 4) out of 42 over 6 characters of 1-4 bytes sharing byte prefixes, all byte positions of 52 texts'),
    Section('built', built_cases, built_check, tmpdir, 'ordered pairs and triples of headwords through the real builder'),
    Section('homographs', homograph_cases, homograph_check, tmpdir, 'every number of homographs 1..255'),
    Section('homographs-built', homograph_built_cases, homograph_built_check, tmpdir, 'numbers of homographs through the builder'),
    Section('nested', nested_cases, nested_check, tmpdir, 'nested prefixes to every depth up to the bound (and 700)'),
    Section('unindexed', unindexed_cases, unindexed_check, tmpdir, 'all left-id vectors of 6 entries over {0,-1,5}'),
    Section('combined', set3_cases, set3_check, tmpdir, 'all distributions of 5 (thorough 6) words over system and two user dictionaries'),
    Section('deep', deep_cases, deep_check, tmpdir, 'up to 15 user dictionaries x 1..33 nested headwords x 1..3 homographs, 7 texts up to 400 characters'),
    Section('code-points', cp_cases, cp_check, tmpdir, 'every code point as a headword', block=1),
    Section('large', large_cases, large_check, tmpdir, 'dictionary sizes around powers of two', block=1),
]
