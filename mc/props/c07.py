"""C07: a built dictionary contains exactly its source."""
import itertools
import os

from .. import fmt
from ..core import Section, Violation, Scratch
from ..fmt import decode
from ..src import csv_text, build_system, build_user, open_system, open_user, row, write_file, write_sources

PROPERTY = 'C07'
RULE = ('a case is one set of source files; the real builder builds it and the result is decoded by an independent implementation '
        'of the format and read by the real reader; both must give exactly the source rows')
ASSUMPTIONS = ['headwords contain no NUL (trie library), sources contain no raw carriage return (text mode translates it)',
               'parts of speech contain no comma (rejected, see C21)']
P1 = ('名詞', '普通名詞', '一般', '*', '*', '*')
P2 = ('動詞', '一般', '*', '*', '五段-カ行', '終止形-一般')
MARK = 1 << 28
MATRIX = '2 3\n0 0 0\n1 2 -5\n0 1 7\n'


def exp(head, left=0, right=0, cost=0, surface=None, pos=P1, reading=None, norm=None, dform=-1, a=(), b=(), ws=(), syn=()):
    s = head if surface is None else surface
    return dict(head=head, left=left, right=right, cost=cost, surface=s, pos=tuple(pos), reading=s if reading is None else reading,
                norm=s if norm is None else norm, dform=dform, a=list(a), b=list(b), ws=list(ws), syn=list(syn))


def check_image(data, want, what, sys_pos=None, matrix=None):
    """independent decoding"""
    d = decode(data)
    if d.version != (fmt.USER_V3 if sys_pos is not None else fmt.SYSTEM_V2):
        raise Violation('%s: version %x' % (what, d.version))
    if len(d.entries) != len(want):
        raise Violation('%s: %d entries, the source has %d' % (what, len(d.entries), len(want)))
    if d.end > d.size:
        raise Violation('%s: entries extend beyond the end of the file' % what)
    posl = list(sys_pos or []) + d.pos_list
    if len(set(posl)) != len(posl):
        raise Violation('%s: duplicate parts of speech' % what)
    index = {}
    for i, (e, w) in enumerate(zip(d.entries, want)):
        got = dict(e, pos=posl[e['pos']] if 0 <= e['pos'] < len(posl) else ('bad', e['pos']), head=w['head'])
        del got['head_len']
        if e['head_len'] != len(w['head'].encode('utf-8')):
            raise Violation('%s: entry %d: head length %d of %r' % (what, i, e['head_len'], w['head'][:30]))
        if got != w:
            k = [k for k in w if got[k] != w[k]][0]
            raise Violation('%s: entry %d (%r): %s is %r in the file, %r in the source' % (
                what, i, w['head'][:30], k, trim(got[k]), trim(w[k])))
        if w['left'] != -1:
            index.setdefault(w['head'].encode('utf-8'), []).append(i)
    if {k: sorted(v) for k, v in d.index.items()} != index:
        raise Violation('%s: the index is %r, expected %r' % (what, trim(d.index), trim(index)))
    used = {w['pos'] for w in want} - set(sys_pos or [])
    if not used <= set(d.pos_list):
        raise Violation('%s: parts of speech of the file: %r' % (what, d.pos_list))
    if matrix is not None and (d.lsize, d.rsize, d.cells) != matrix:
        raise Violation('%s: matrix %r' % (what, (d.lsize, d.rsize, d.cells)))
    return d


def trim(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def check_reader(bd, want, what, sys_pos=None):
    lex, g = bd.lexicon, bd.grammar
    if lex.size() != len(want):
        raise Violation('%s: reader: %d entries' % (what, lex.size()))
    posl = [tuple(p) for p in list(sys_pos or []) + [g.get_part_of_speech_string(i) for i in range(g.get_part_of_speech_size())]]
    for i, w in enumerate(want):
        wi = lex.get_word_info(i)
        df = w['surface'] if w['dform'] < 0 else want[w['dform']]['surface']
        got = (lex.get_left_id(i), lex.get_right_id(i), lex.get_cost(i), wi.surface, wi.head_word_length, posl[wi.pos_id],
               wi.reading_form, wi.normalized_form, wi.dictionary_form_word_id, wi.dictionary_form, list(wi.a_unit_split),
               list(wi.b_unit_split), list(wi.word_structure), list(wi.synonym_group_ids))
        exp_ = (w['left'], w['right'], w['cost'], w['surface'], len(w['head'].encode('utf-8')), w['pos'], w['reading'] or w['surface'],
                w['norm'] or w['surface'], w['dform'], df, w['a'], w['b'], w['ws'], w['syn'])
        if got != exp_:
            k = [k for k in range(len(exp_)) if got[k] != exp_[k]][0]
            raise Violation('%s: reader: entry %d field %d is %s, expected %s' % (what, i, k, trim(got[k]), trim(exp_[k])))
        if w['left'] != -1:
            raw = w['head'].encode('utf-8')
            if (i, len(raw)) not in [(int(x), int(y)) for x, y in lex.lookup(raw, 0)]:
                raise Violation('%s: reader: entry %d is not found by its headword' % (what, i))


class Base:
    """A system dictionary against which user dictionaries are built."""

    def __init__(self, d):
        self.dir = d
        self.rows = [row('系'), row('統', pos=P2, reading='トウ'), row('系統', left=-1, reading='ケイトウ'), row('共', reading='キョウ')]
        self.want = [exp('系'), exp('統', pos=P2, reading='トウ'), exp('系統', left=-1, reading='ケイトウ'), exp('共', reading='キョウ')]
        data = build_system(write_sources(d, [self.rows], 'base'), MATRIX)
        check_image(data, self.want, 'base', matrix=(2, 3, [0, 0, 7, 0, 0, -5]))
        self.bd = open_system(write_file(d, 'base.dic', data))
        from sudachipy.dictionarylib.lexiconset import LexiconSet
        self.set = LexiconSet(self.bd.lexicon)

    def sys_pos(self):
        return [tuple(p) for p in self.bd.grammar.pos_list]


def setup(tier):
    return Base(Scratch.dir('c07'))


def both(base, sources, want, what, ctx, user_want=None, users=True):
    """builds the sources as system and as user dictionary"""
    d = base.dir
    paths = write_sources(d, sources)
    before = [open(p, 'rb').read() for p in paths]
    data = build_system(paths, MATRIX)
    check_image(data, want, what + ' (system)', matrix=(2, 3, [0, 0, 7, 0, 0, -5]))
    check_reader(open_system(write_file(d, 's.dic', data)), want, what + ' (system)')
    ctx.count('transitions')
    if users:
        uw = user_want or want
        data = build_user(paths, base.bd.grammar, base.set)
        check_image(data, uw, what + ' (user)', sys_pos=base.sys_pos(), matrix=(0, 0, []))
        check_reader(open_user(write_file(d, 'u.dic', data)), uw, what + ' (user)', sys_pos=base.sys_pos())
        ctx.count('transitions')
    if [open(p, 'rb').read() for p in paths] != before:
        raise Violation('%s: the build changed a source file' % what)
    ctx.count('states')


# --- combinations of field values in one row (the second of three)
FIELDS = {
    'head': ['語', 'a', '"引用"', 'a,b', 'x\ny', '𠮷野家', 'é', '\\u', '\\u00', 'A*B', ' ', '#', '*', 'e\u0301', '\ufeff', 'ー'],
    'left': [0, -1, 1, 32767],
    'right': [0, 1, 32767, -1],
    'cost': [0, -1, 1, 32767, -32768, 128, 255, 256, -129],
    'surface': [None, '表', '表 記', 'a,"b', '𠮷\U0010ffff', '\ufeffあ', '*', '\ufffe'],
    'pos': [P1, P2, ('あ', '', '*', 'x' * 127, '𠮷', ' '), ('あ', 'い', '*', 'x' * 128, '"', '\ufeff'), ('*',) * 6],
    'reading': [None, 'ヨミ', '', '𠮷', 'よ\tみ'],
    'norm': [None, '正', '', '正𠮷\u0301'],
    'dform': ['*', '0', '1', '2'],
    'type': ['*', 'A', 'B', 'C'],
    'a': ['*', '0/2', 'U0/U2', '0', '0/U1/2'],
    'b': ['*', '2/0', 'U2', '0/0/0'],
    'ws': ['*', '1/0', 'U1/0/2'],
    'syn': ['*', None, '1', '0/2147483647/-1', '1/2/3/4/5'],
}
NAMES = list(FIELDS)


def field_cases(tier):
    for k in range(0, 4 if tier == 'quick' else 5):
        for where in itertools.combinations(range(len(NAMES)), k):
            for vals in itertools.product(*[range(1, len(FIELDS[NAMES[i]])) for i in where]):
                v = [0] * len(NAMES)
                for i, x in zip(where, vals):
                    v[i] = x
                yield tuple(v)


def raw_ids(s, user):
    if s == '*':
        return []
    out = []
    for x in s.split('/'):
        out.append((MARK | int(x[1:]) if user else int(x[1:])) if x.startswith('U') else int(x))
    return out


def field_check(env, case, ctx):
    v = {n: FIELDS[n][i] for n, i in zip(NAMES, case)}
    if v['type'] == 'A' and (v['a'] != '*' or v['b'] != '*'):
        return
    r = row(v['head'], v['left'], v['right'], v['cost'], v['surface'], v['pos'], v['reading'], v['norm'], v['dform'], v['type'],
            v['a'], v['b'], v['ws'], v['syn'])
    rows = [row('前', 1, 1, 10), r, row('後', -1, 1, 20, reading='アト')]
    out = []
    for user in (False, True):
        out.append([exp('前', 1, 1, 10),
                    exp(v['head'], v['left'], v['right'], v['cost'], v['surface'], v['pos'],
                        # an empty reading or normalized form means: like the surface
                        (v['reading'] or None), (v['norm'] or None), -1 if v['dform'] == '*' else int(v['dform']),
                        raw_ids(v['a'], user), raw_ids(v['b'], user), raw_ids(v['ws'], user),
                        [] if v['syn'] in ('*', None) else [int(x) for x in v['syn'].split('/')]),
                    exp('後', -1, 1, 20, reading='アト')])
    both(env, [rows], out[0], 'row %r' % (r,), ctx, out[1])
    ctx.outcome(case)


# --- lists that are equal to each other, or the beginning, the reverse or a part of each other
LISTS = ['*', '0/1', '1/0', '0/1/0', '0/1/0/2', '0/0/0', '2']


def list_cases(tier):
    for a, b, ws in itertools.product(LISTS, LISTS, LISTS):
        for syn in ('*', '0/1', '0/1/0'):
            yield (a, b, ws, syn)


def list_check(env, case, ctx):
    a, b, ws, syn = case
    rows = [row('前', 1, 1, 10, ws=a, syn=syn), row('語', 1, 0, 5, a=a, b=b, ws=ws, syn=syn), row('後', -1, 1, 20, a=ws, b=a)]
    i = [raw_ids(x, False) for x in case]
    want = [exp('前', 1, 1, 10, ws=i[0], syn=i[3]), exp('語', 1, 0, 5, a=i[0], b=i[1], ws=i[2], syn=i[3]), exp('後', -1, 1, 20, a=i[2], b=i[0])]
    both(env, [rows], want, 'lists %r' % (case,), ctx)
    ctx.outcome(case)


# --- columns that are equal to each other, to those of other rows, or to the placeholder
SAME = ['あ', 'い', 'ウウ', '*']


def same_cases(tier):
    yield from itertools.product(SAME, SAME, SAME + [''], SAME + [''], ['*', '0', '1', '2'])


def same_check(env, case, ctx):
    head, surface, reading, norm, dform = case
    rows = [row('い', 1, 1, 10, surface='あ', norm='ウウ', reading='*'), row(head, 0, 1, 5, surface, P1, reading, norm, dform), row('あ', -1, 1, 20, reading='ウウ', norm='い')]
    want = [exp('い', 1, 1, 10, surface='あ', norm='ウウ', reading='*'),
            exp(head, 0, 1, 5, surface, P1, reading or None, norm or None, -1 if dform == '*' else int(dform)),
            exp('あ', -1, 1, 20, reading='ウウ', norm='い')]
    both(env, [rows], want, 'row %r' % (rows[1],), ctx, want)
    ctx.outcome(case)


# --- every code point, raw and escaped
def cp_cases(tier):
    step = 1024
    for lo in range(0, 0x110000, step):
        if 0xd800 <= lo < 0xe000:
            continue
        if tier == 'quick' and 0x31000 <= lo < 0xe0000 and lo % 0x8000 and lo % 0x10000 != 0xfc00:
            continue
        yield (lo, lo + step)


def esc4(cp):
    return '\\u%04x' % cp if cp < 0x10000 else '\\u{%x}' % cp


def cp_check(env, case, ctx):
    rows, want = [], []
    for n, cp in enumerate(range(*case)):
        c = chr(cp)
        raw = c if cp != 0x0d else 'R'
        head = c if cp else 'N'
        hsrc = [raw if cp else 'N', esc4(cp) if cp else 'N', '\\u{%06X}' % cp if cp else 'N'][n % 3]
        head = 'R' if hsrc == 'R' else head
        pos = P1
        if cp % 8 == 0 and c not in ',\r':
            pos = (c, raw, '*', c + 'あ', '*', '*')
        rows.append(row(hsrc, surface='あ' + esc4(cp), norm='\\u{%X}い' % cp, reading=raw + 'う',
                        pos=(esc4(cp) if pos is not P1 else P1[0],) + tuple(pos[1:]), cost=n))
        want.append(exp(head, surface='あ' + c, norm=c + 'い', reading=raw + 'う', pos=pos, cost=n))
    both(env, [rows], want, 'code points U+%04X..' % case[0], ctx, users=case[0] % 0x4000 == 0)
    ctx.outcome(case)


# --- escapes in every column that holds text
ESC = [('\\u3042', 'あ'), ('\\u{3042}', 'あ'), ('\\u{20bb7}', '𠮷'), ('\\u002c', ','), ('\\u{2f}', '/'), ('\\u0022', '"'),
       ('\\u{A}', '\n'), ('\\u005c', '\\'), ('\\u{10FFFF}', '\U0010ffff'), ('\\u3042\\u3044', 'あい'), ('\\u{3042}i', 'あi'),
       ('\\u30423', 'あ3'), ('x\\u{1F600}y', 'x😀y'), ('\\u005cu3042', '\\u3042'), ('\\u{5c}u{41}', '\\u{41}'),
       ('\\u304', '\\u304'), ('\\u{}', '\\u{}'), ('\\n', '\\n'), ('\\U0041', '\\U0041'), ('\\uFF21', 'Ａ'), ('\\u{00003042}', 'あ')]


def esc_cases(tier):
    yield from itertools.product(range(len(ESC)), ['head', 'surface', 'reading', 'norm', 'pos0', 'pos3', 'inline-head', 'inline-reading', 'inline-pos0', 'inline-pos5'],
                                 ['plain', 'pair'])


def esc_check(env, case, ctx):
    i, field, how = case
    src, val = ESC[i]
    if how == 'pair':
        src, val = src + 'ん' + src, val + 'ん' + val
    head = src if field == 'head' else '頭'
    kw = {field: src} if field in ('surface', 'reading', 'norm') else {}
    ekw = {field: val} if field in ('surface', 'reading', 'norm') else {}
    if field.startswith('pos'):
        if ',' in val:
            return
        k = int(field[3])
        kw['pos'] = P1[:k] + (src,) + P1[k + 1:]
        ekw['pos'] = P1[:k] + (val,) + P1[k + 1:]
    rows = [row(head, cost=3, **kw)]
    want = [exp(val if field == 'head' else '頭', cost=3, **ekw)]
    uwant = [dict(want[0])]
    if field.startswith('inline'):
        # the target is written with escapes in its own row, the reference with escapes in the unit
        t, r = field == 'inline-head', field == 'inline-reading'
        s = src.replace(',', '\\u002c').replace('/', '\\u002f')
        pos = vpos = P1
        if field.startswith('inline-pos'):
            if ',' in val:
                return
            k = int(field[10])
            pos, vpos = P1[:k] + (s,) + P1[k + 1:], P1[:k] + (val,) + P1[k + 1:]
        rows.append(row(src if t else '的', reading=src if r else None, pos=pos))
        want.append(exp(val if t else '的', reading=val if r else None, pos=vpos))
        ref = '%s,%s,%s' % (s if t else '的', ','.join(pos), s if t or r else '的')
        rows.append(row('参照', a='0/' + ref, b=ref + '/0', ws=ref))
        want.append(exp('参照', a=[0, 1], b=[1, 0], ws=[1]))
        uwant = [dict(want[0]), dict(want[1]), exp('参照', a=[0, MARK | 1], b=[MARK | 1, 0], ws=[MARK | 1])]
    both(env, [rows], want, 'escape %r in %s' % (src, field), ctx, uwant)
    ctx.outcome(case)


# --- lengths of strings and lists
def length_cases(tier):
    lens = [1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 257, 383, 384, 511, 512, 4095, 4096, 16383, 16384, 32639, 32640, 32766, 32767]
    if tier == 'thorough':
        lens = sorted(set(lens + list(range(1, 1200)) + list(range(256, 32767, 256)) + list(range(255, 32767, 256))))
    for n in lens:
        for f in ('head', 'surface', 'reading', 'norm', 'pos0', 'pos5'):
            for ch in ('a', 'é', 'あ', '𠮷'):
                yield (f, n, ch)
    for n in range(0, 128):
        for f in ('a', 'b', 'ws', 'syn'):
            yield (f, n, '')


def length_check(env, case, ctx):
    f, n, ch = case
    if f in ('a', 'b', 'ws', 'syn'):
        ids = [i % 2 for i in range(n)]
        if f == 'syn':
            ids = [i * 1000003 for i in range(n)]
        src = '/'.join(map(str, ids)) or '*'
        rows = [row('あ'), row('い', **{f: src}), row('う')]
        want = [exp('あ'), exp('い', **{f: ids}), exp('う')]
        both(env, [rows], want, '%d elements in %s' % (n, f), ctx)
    else:
        if f == 'head':
            k = len(ch.encode('utf-8'))
        else:
            k = 2 if ch == '𠮷' else 1
        s = ch * (n // k) + 'z' * (n % k)
        kw = {f: s}
        if f.startswith('pos'):
            i = int(f[3])
            kw = {'pos': P1[:i] + (s,) + P1[i + 1:]}
        if f == 'head':
            kw = {'surface': '表'}
        rows = [row('あ'), row(s if f == 'head' else 'い', **kw), row('う')]
        want = [exp('あ'), exp(s if f == 'head' else 'い', **kw), exp('う')]
        both(env, [rows], want, 'length %d of %s (%r)' % (n, f, ch), ctx)
    ctx.outcome(case)


# --- unit references: every kind of reference to every kind of target
TARGETS = [('甲', dict()), ('甲', dict(pos=P2)), ('甲', dict(reading='コウ')), ('甲', dict(left=-1, reading='コウ2')),
           ('甲', dict(surface='乙')), ('乙', dict(surface='甲', reading='オツ')), ('甲', dict(reading='コウ', cost=5)),
           ('共', dict(reading='キョウ')), ('系', dict(reading='別'))]


def inline(surface, pos, reading):
    return ','.join((surface,) + tuple(pos) + (reading,))


REFS = sorted({inline(kw.get('surface', h), kw.get('pos', P1), kw.get('reading', kw.get('surface', h))) for h, kw in TARGETS} |
              {inline('系', P1, '系'), inline('統', P2, 'トウ'), inline('系統', P1, 'ケイトウ')}) + ['0', 'U0', '3', 'U3', 'U8', '8']


def ref_cases(tier):
    for place in (0, 4, 9):           # position of the referring row: before, between, after the targets
        for r1 in range(len(REFS)):
            for r2 in range(len(REFS)):
                yield (place, r1, r2)


def resolve(text, entries, user, base):
    """raw id, or None when there is no such word"""
    if text.lstrip('U').isdigit():
        i = int(text.lstrip('U'))
        if text[0] == 'U':
            return (MARK | i if user else i) if i < len(entries) else None
        return i if i < (len(base) if user else len(entries)) else None
    c = text.split(',')
    key = (c[0], tuple(c[1:7]), c[7])
    for i, e in enumerate(entries):
        if (e['surface'], e['pos'], e['reading']) == key:
            return MARK | i if user else i
    if user:
        for i, e in enumerate(base):
            if (e['surface'], e['pos'], e['reading']) == key:
                return i
    return None


def ref_check(env, case, ctx):
    place, r1, r2 = case
    s1, s2 = REFS[r1], REFS[r2]
    rows = [row(h, **kw) for h, kw in TARGETS]
    want = [exp(h, **kw) for h, kw in TARGETS]
    rows.insert(place, row('参照', a=s1 + '/' + s2, b=s2 + '/' + s1 + '/' + s1, ws=s2))
    want.insert(place, exp('参照'))
    done = []
    for user in (False, True):
        i1, i2 = resolve(s1, want, user, env.want), resolve(s2, want, user, env.want)
        paths = write_sources(env.dir, [rows])
        what = 'references %s, %s (%s)' % (s1, s2, 'user' if user else 'system')
        try:
            data = build_user(paths, env.bd.grammar, env.set) if user else build_system(paths, MATRIX)
        except Exception as e:
            if i1 is not None and i2 is not None:
                raise Violation('%s: the build fails: %r' % (what, e))
            done.append(None)
            continue
        if i1 is None or i2 is None:
            raise Violation('%s: the build accepts a reference to a word that does not exist' % what)
        w = [dict(x) for x in want]
        w[place].update(a=[i1, i2], b=[i2, i1, i1], ws=[i2])
        check_image(data, w, what, sys_pos=env.sys_pos() if user else None)
        bd = open_user(write_file(env.dir, 'u.dic', data)) if user else open_system(write_file(env.dir, 's.dic', data))
        check_reader(bd, w, what, sys_pos=env.sys_pos() if user else None)
        done.append((i1, i2))
    ctx.count('transitions', 2)
    ctx.count('states')
    ctx.outcome(tuple(done))


# --- rows distributed over several source files
def file_cases(tier):
    n = 4 if tier == 'quick' else 6
    for files in (1, 2, 3, 4):
        for cut in itertools.combinations_with_replacement(range(n + 1), files - 1):
            for end in ('\n', ''):
                yield (n, cut, end)
    for k in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for order in itertools.product(range(5), repeat=k):
            yield ('twice', order)


def twice_check(env, case, ctx):
    """files that are given several times, or under several names"""
    order, = case[1:]
    rows = [row('語%d' % i, i, i, i, pos=(P1, P2)[i % 2], dform=str(i)) for i in range(3)]
    paths = write_sources(env.dir, [csv_text([r]) for r in rows])
    paths.append(os.path.join(env.dir, '.', os.path.basename(paths[0])))
    paths.append(os.path.join(env.dir, 'link.csv'))
    if not os.path.lexists(paths[4]):
        os.symlink(paths[1], paths[4])
    which = [(0, 1, 2, 0, 1)[k] for k in order]
    if max(which) >= len(order):
        return
    want = [exp('語%d' % i, i, i, i, pos=(P1, P2)[i % 2], dform=i) for i in which]
    names = [paths[k] for k in order]
    what = 'files %r' % (order,)
    data = build_system(names, MATRIX)
    check_reader(open_system(write_file(env.dir, 's.dic', data)), want, what + ' (system)')
    data = build_user(names, env.bd.grammar, env.set)
    check_reader(open_user(write_file(env.dir, 'u.dic', data)), want, what + ' (user)', sys_pos=env.sys_pos())
    ctx.count('transitions', 2)
    ctx.count('states')
    ctx.outcome(case)


def file_check(env, case, ctx):
    if case[0] == 'twice':
        return twice_check(env, case, ctx)
    n, cut, end = case
    rows = [row('語%d' % i, i, i, i, pos=(P1, P2)[i % 2], a='%d/%d' % (0, (i + 1) % n), dform=str((i + 2) % n)) for i in range(n)]
    want = [exp('語%d' % i, i, i, i, pos=(P1, P2)[i % 2], a=[0, (i + 1) % n], dform=(i + 2) % n) for i in range(n)]
    bounds = [0] + list(cut) + [n]
    sources = []
    for lo, hi in zip(bounds, bounds[1:]):
        t = csv_text(rows[lo:hi])
        sources.append(t if end or not t else t[:-1])
    both(env, sources, want, 'files cut at %r' % (cut,), ctx)
    ctx.outcome(case)


# --- the first and the last character of a source file
EDGES = ['\ufeff', '\ufeff\ufeff', '\ufffe', '#', ';', ' ', '\t', '\u3000', '\u00a0', '\u200b', '\u2028', '\x85', '\x0b', '\x0c', '\x1c', '\x1a', '\x7f', "'", '"', '%', '*', '-', '\\', '0', 'U1', '𠮷', '\u0301', 'あ']


def edge_cases(tier):
    for c in EDGES:
        for k in range(3):
            for files in (1, 2, 3):
                yield (c, k, files)


def edge_check(env, case, ctx):
    c, k, files = case
    head = [c, c + 'あ', 'あ' + c][k]
    rows = [row(head, norm=c + 'z', reading='z' + c), row('語', norm=c, reading='ゴ'), row(head + '語', reading=c)]
    want = [exp(head, norm=c + 'z', reading='z' + c), exp('語', norm=c, reading='ゴ'), exp(head + '語', reading=c)]
    from ..src import csv_text
    if files == 1:
        sources = [csv_text(rows)]
    elif files == 2:
        sources = [csv_text(rows[:1])[:-1], csv_text(rows[1:])]
    else:
        sources = [csv_text([r])[:-1] for r in rows]
    both(env, sources, want, 'edges %r' % (case,), ctx)
    ctx.outcome(case)


# --- the order of the headwords in the index
ORDER = ['\x01', 'a', '\x7f', '\x80', '\u07ff', '\u0800', '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0010ffff']


def order_cases(tier):
    import itertools
    return list(itertools.product(ORDER, repeat=2 if tier == 'quick' else 3))


def order_check(env, case, ctx):
    heads = [''.join(case), ''.join(case[::-1])] + list(case) + [case[0] * 2 + case[1], case[1] + case[0] * 300, case[0] * 255, case[0] * 256, ''.join(case)]
    rows = [row(h, cost=i, norm='n%d' % i) for i, h in enumerate(heads)]
    want = [exp(h, cost=i, norm='n%d' % i) for i, h in enumerate(heads)]
    both(env, [rows], want, 'order %r' % (case,), ctx)
    ctx.outcome(case)


# --- sizes
def size_cases(tier):
    return [1, 2, 127, 128, 255, 256, 257, 1000, 4369] + ([32768, 65535, 65536, 70000, 120000] if tier == 'thorough' else [20000])


def size_check(env, case, ctx):
    rows, want = [], []
    for i in range(case):
        h = chr(0x4e00 + i % 20000) + chr(0x3041 + i // 20000)
        kw = dict(pos=P1[:1] + ('p%d' % (i % 700),) + P1[2:]) if case <= 1000 else {}
        rows.append(row(h, i % 32768, i % 7, i % 32768, a='%d/0' % (case - 1), **kw))
        want.append(exp(h, i % 32768, i % 7, i % 32768, a=[case - 1, 0], **kw))
    both(env, [rows], want, '%d rows' % case, ctx, users=False)
    ctx.outcome(case)


def pos_cases(tier):
    return [1, 2, 127, 128, 255, 256, 1000] + ([20000] if tier == 'thorough' else [])


def pos_check(env, case, ctx):
    """many parts of speech"""
    rows = [row('語%d' % i, pos=('品%d' % i, '*', '*', '*', '*', '*')) for i in range(case)]
    want = [exp('語%d' % i, pos=('品%d' % i, '*', '*', '*', '*', '*')) for i in range(case)]
    both(env, [rows], want, '%d parts of speech' % case, ctx)
    ctx.outcome(case)


SECTIONS = [
    Section('fields', field_cases, field_check, setup,
            'all combinations of up to 3 (thorough 4) of 14 columns with every listed value, system and user dictionary'),
    Section('coincidences', same_cases, same_check, setup, 'all assignments of four values (or none) to key, headword, reading and normalized form, the values being those of other rows and *, x 4 dictionary forms'),
    Section('lists', list_cases, list_check, setup, 'all assignments of 7 lists to A units, B units and word structure x 3 synonym lists, repeated in the rows around'),
    Section('code-points', cp_cases, cp_check, setup, 'every code point of the stated planes raw and escaped in every text column', block=1),
    Section('escapes', esc_cases, esc_check, setup, '21 escape forms x 10 columns x single/repeated'),
    Section('lengths', length_cases, length_check, setup, 'string lengths around every boundary x 6 columns x 4 widths; list lengths 0..127'),
    Section('references', ref_cases, ref_check, setup, 'all pairs of 18 unit references x 3 positions, system and user'),
    Section('files', file_cases, file_check, setup, 'all cuts of the rows into 1..4 files; all sequences of 2..4 (thorough 5) of 3 files, one of them under two names, one behind a link'),
    Section('edges', edge_cases, edge_check, setup, '28 characters at the beginning and the end of the headwords, forms and files, 1..3 files'),
    Section('key-order', order_cases, order_check, setup, 'headwords of all pairs (thorough: triples) of 11 characters at the boundaries of the encodings, also as prefixes of each other'),
    Section('sizes', size_cases, size_check, setup, 'numbers of rows', block=1),
    Section('parts-of-speech', pos_cases, pos_check, setup, 'numbers of parts of speech', block=1),
]
