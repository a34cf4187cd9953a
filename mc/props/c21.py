"""C21: invalid dictionary sources are rejected."""
import io
import itertools
import os

from .. import fmt
from ..core import Section, Violation, Scratch
from ..fmt import decode
from ..src import build_system, build_user, csv_text, open_system, row, write_file, write_sources
from ..cli import fork_main
from .c07 import MARK, P1, P2, check_image, exp

PROPERTY = 'C21'
RULE = ('a case is one source (lexicon rows and a matrix) for one kind of dictionary with one or two columns set to values whose validity '
        'the specification decides; the real builder must raise an error exactly for the invalid ones, and what it accepts is decoded '
        'independently and must hold exactly the source, every reference pointing at an existing word')
ASSUMPTIONS = ['number syntax is that of decimal integers with an optional minus sign (other spellings Python accepts are not used)',
               'connection ids are not compared with the size of the matrix (ids are representable without it)',
               'matrix lines with fewer than three columns are skipped with a warning (documented by the builder\'s message)']

MATRIX = '2 3\n0 0 0\n1 2 -5\n0 1 7\n'
CELLS = (2, 3, [0, 0, 7, 0, 0, -5])
BASE = [('系', {}), ('統', dict(pos=P2, reading='トウ')), ('共', dict(reading='キョウ'))]
NBASE = len(BASE)
NROWS = 3
BAD = object()


def inl(surface, pos, reading):
    return ','.join((surface,) + tuple(pos) + (reading,))


def long_(n, ch='あ'):
    return ch * n


class Vals:
    """column -> list of (source text, kinds where valid, expected value by kind)"""


def same(x):
    return lambda user: x


def text_values(limit_units=32767):
    return [('表', same('表')), (long_(32767), same(long_(32767))), (long_(32768), BAD), (long_(131072), BAD), (long_(140000), BAD), ('𠮷' * 16383 + 'z', same('𠮷' * 16383 + 'z')),
            ('𠮷' * 16384, BAD), ('\\u3042', same('あ')), ('\\u{D800}', BAD), ('\\uDFFF', BAD), ('\\u{110000}', BAD),
            ('\\u{FFFFFFFFFF}', BAD), ('a\\u0000b', same('a\0b')), (long_(32766) + '\\u{20BB7}', BAD), (long_(32765) + '\\u{20BB7}', same(long_(32765) + '𠮷'))]


def id_values(lo=-32768):
    return [('0', same(0)), ('1', same(1)), ('32767', same(32767)), ('32768', BAD), ('-32768', same(-32768)), ('-32769', BAD), ('65535', BAD),
            ('65536', BAD), ('4294967296', BAD), ('x', BAD), ('', BAD), ('1.5', BAD), ('0x10', BAD), ('*', BAD), ('-', BAD), ('-1', same(-1))]


def unit_values():
    def one(sysid, userid):
        def f(user):
            v = userid if user else sysid
            return BAD if v is BAD else [v]
        return f
    n = NROWS
    vals = [('*', same([])), ('0', one(0, 0)), (str(n - 1), one(n - 1, n - 1 if n - 1 < NBASE else BAD)), (str(n), BAD), (str(n + 1), BAD),
            ('999999', BAD), ('-1', BAD), ('-0', BAD), ('x', BAD), ('', BAD), ('/', BAD), ('0/', BAD), ('/0', BAD), ('0//1', BAD),
            ('U0', one(0, MARK)), ('U%d' % (n - 1), one(n - 1, MARK | (n - 1))), ('U%d' % n, BAD), ('U-1', BAD), ('U', BAD), ('UU0', BAD),
            ('u0', BAD), ('0,1', BAD), ('0 1', BAD),
            (str(MARK), one(BAD, MARK)), (str(MARK + n), BAD), (str(MARK * 2), BAD), (str(MARK * 2 + 1), BAD), (str(MARK * 15), BAD),
            (str(MARK * 16), BAD), ('4294967295', BAD), ('4294967296', BAD), ('U%d' % MARK, BAD), ('U%d' % (MARK - 1), BAD),
            ('U%d' % (MARK * 2), BAD), ('U%d' % (MARK * 15), BAD), ('U4294967296', BAD), ('99999999999999999999', BAD),
            ('/'.join(['0'] * 127), same([0] * 127)), ('/'.join(['0'] * 128), BAD), ('/'.join(['0'] * 255), BAD), ('/'.join(['0'] * 256), BAD),
            ('/'.join(['0'] * 126 + ['9']), BAD), ('0/0/9', BAD), ('9/0/0', BAD),
            # inline references
            (inl('甲', P1, 'コウ'), one(0, MARK)), (inl('系', P1, '系'), one(BAD, 0)), (inl('統', P2, 'トウ'), one(BAD, 1)),
            (inl('甲', P1, 'オツ'), BAD), (inl('甲', P2, 'コウ'), BAD), (inl('乙', P1, 'コウ'), BAD), (inl('甲', ('x',) * 6, 'コウ'), BAD),
            ('甲', BAD), ('甲,' + ','.join(P1), BAD), ('甲,名詞,コウ', BAD), (inl('', P1, ''), BAD), (inl('\\u7532', P1, '\\u{30b3}ウ'), one(0, MARK)),
            (inl('\\u{110000}', P1, 'コウ'), BAD),
            (inl('尾', P2, '尾'), one(2, MARK | 2)), (inl('尾', P1, '尾'), BAD),
            ('0/' + inl('甲', P1, 'オツ'), BAD), (inl('甲', P1, 'オツ') + '/0', BAD)]
    # too few columns, where the headword could stand for the reading
    for word, pos in (('尾', P2), ('系', P1)):
        full = inl(word, pos, word).split(',')
        vals += [(','.join(full[:k]), BAD) for k in range(2, 8)] + [(','.join(full[:7]) + '/0', BAD)]
    return vals


COLS = {
    'head': [('語', same('語')), ('', BAD), ('a' * 32767, same('a' * 32767)), ('a' * 32768, BAD), ('あ' * 10922, same('あ' * 10922)),
             ('あ' * 10922 + 'zz', BAD), ('あ' * 10923, BAD), ('𠮷' * 8191 + 'zzz', same('𠮷' * 8191 + 'zzz')), ('𠮷' * 8192, BAD), ('\\u0000', BAD),
             ('語\\u{0}', BAD), ('\\u0000語', BAD), ('\\uD842', BAD), ('\\u{DC00}語', BAD), ('\\u{110000}', BAD), ('\\u0061', same('a')), ('a' * 131073, BAD)],
    'left': id_values(), 'right': id_values(), 'cost': id_values(),
    'surface': [v for v in text_values()],
    'reading': [v for v in text_values()],
    'norm': [v for v in text_values()],
    'dform': [('*', same(-1)), ('0', same(0)), ('%d' % (NROWS - 1), same(NROWS - 1)), ('%d' % NROWS, BAD), ('%d' % (NROWS + 1), BAD), ('-2', BAD),
              ('-3', BAD), ('x', BAD), ('', BAD), ('2147483648', BAD), ('4294967295', BAD), ('4294967296', BAD), ('-32768', BAD), (str(MARK), BAD),
              ('U0', BAD), ('1.0', BAD)],
    'type': [('A', same('A')), ('B', same('B')), ('C', same('C')), ('*', same('*'))],
    'a': unit_values(), 'b': unit_values(), 'ws': unit_values(),
    'syn': [('*', same([])), ('0', same([0])), ('2147483647', same([2147483647])), ('2147483648', BAD), ('-2147483648', same([-2147483648])),
            ('-2147483649', BAD), ('4294967295', BAD), ('x', BAD), ('', BAD), ('1/', BAD), ('/1', BAD), ('1,2', BAD), ('1.5', BAD),
            ('/'.join(['7'] * 127), same([7] * 127)), ('/'.join(['7'] * 128), BAD), ('/'.join(['7'] * 256), BAD)],
}
for k in range(6):
    COLS['pos%d' % k] = [('品', same('品')), ('', same('')), ('a,b', BAD), (',', BAD), ('\\u002c', BAD), ('あ\\u{2C}い', BAD), (long_(32767), same(long_(32767))),
                         (long_(32768), BAD), ('𠮷' * 16384, BAD), ('\\uD800', BAD), ('\\u{110000}', BAD)]
NAMES = list(COLS)
NUL_HEADS = {'\\u0000': '\0', '語\\u{0}': '語\0', '\\u0000語': '\0語'}
TEXTS = ('surface', 'reading', 'norm')


def base_rows():
    r = [dict(head='甲', reading='コウ', norm='甲'), dict(head='語', reading='ゴ', norm='語'), dict(head='尾', pos=P2, reading='尾', norm='尾')]
    w = [exp('甲', reading='コウ'), exp('語', reading='ゴ'), exp('尾', pos=P2, reading='尾')]
    return r, w


def apply(r, w, where, name, value, user):
    """puts the value in the source row; True when it is valid (then also in the expectation)"""
    src, f = value
    v = f if f is BAD else f(user)
    if name.startswith('pos'):
        k = int(name[3])
        p = list(r[where].get('pos', P1))
        p[k] = src
        r[where]['pos'] = tuple(p)
        if v is BAD:
            return False
        q = list(w[where]['pos'])
        q[k] = v
        w[where]['pos'] = tuple(q)
        return True
    if name == 'head':
        r[where].setdefault('surface', r[where]['head'])
    r[where][{'type': 'type_'}.get(name, name)] = src
    if v is BAD:
        return False
    if name == 'type':
        return True
    w[where][name] = v
    return True


def complete(rows):
    out = []
    for x in rows:
        out.append(row(**x))
    return out


class Env:
    pass


def setup(tier):
    from sudachipy.dictionarylib.lexiconset import LexiconSet
    e = Env()
    e.dir = Scratch.dir('c21')
    data = build_system(write_sources(e.dir, [[row(h, **kw) for h, kw in BASE]], 'base'), MATRIX)
    e.base = write_file(e.dir, 'base.dic', data)
    e.bd = open_system(e.base)
    e.set = LexiconSet(e.bd.lexicon)
    e.pos = [tuple(p) for p in e.bd.grammar.pos_list]
    return e


def build(env, paths, user, matrix=MATRIX):
    """bytes, or the exception"""
    try:
        return build_user(paths, env.bd.grammar, env.set) if user else build_system(paths, matrix)
    except Exception as e:  # noqa
        return e


def references_ok(d, user, what):
    """no reference of a dictionary that was accepted points to a missing word"""
    n = len(d.entries)
    for i, e in enumerate(d.entries):
        for k in ('a', 'b', 'ws'):
            for u in e[k]:
                ok = 0 <= u < (NBASE if user else n) or (user and MARK <= u < MARK + n)
                if not ok:
                    raise Violation('%s: entry %d has %s unit %d, a word that does not exist' % (what, i, k, u))
        if not -1 <= e['dform'] < n:
            raise Violation('%s: entry %d has dictionary form %d' % (what, i, e['dform']))


def judge(env, sources, want, user, what, ctx, matrix=MATRIX, cells=CELLS):
    """want None: must be rejected"""
    paths = write_sources(env.dir, sources)
    got = build(env, paths, user, matrix)
    ctx.count('transitions')
    if want is None:
        ctx.count('rejected')
        if not isinstance(got, Exception):
            raise Violation('%s: the build succeeds although the source is invalid' % what)
        return type(got).__name__
    if isinstance(got, Exception):
        raise Violation('%s: the build fails (%s: %s) although the source is valid' % (what, type(got).__name__, str(got)[:200]))
    ctx.count('accepted')
    check_image(got, want, what, sys_pos=env.pos if user else None, matrix=(0, 0, []) if user else cells)
    references_ok(decode(got), user, what)
    return 'ok'


def short(x):
    return x if len(x) < 60 else '%s...(%d)' % (x[:40], len(x))


# --- one or two columns of one row
def one_cases(tier):
    for user in (0, 1):
        for where in range(NROWS):
            for c in range(len(NAMES)):
                for v in range(len(COLS[NAMES[c]])):
                    yield (user, where, ((c, v),))


def pair_values(name, tier):
    """indices used in pairs (the very long values are covered alone)"""
    vals = COLS[name]
    idx = [i for i, (s, _) in enumerate(vals) if len(s) < 400]
    if tier == 'quick':
        idx = [i for k, i in enumerate(idx) if k < 6 or vals[i][1] is not BAD or k % 3 == 0]
        if len(idx) > 10:
            good = [i for i in idx if vals[i][1] is not BAD]
            bad = [i for i in idx if vals[i][1] is BAD]
            idx = sorted(good[:5] + bad[:5])
    return idx


def two_cases(tier):
    for user in (0, 1):
        for where in ((1,) if tier == 'quick' else range(NROWS)):
            for c1, c2 in itertools.combinations(range(len(NAMES)), 2):
                for v1 in pair_values(NAMES[c1], tier):
                    for v2 in pair_values(NAMES[c2], tier):
                        yield (user, where, ((c1, v1), (c2, v2)))


def cell_check(env, case, ctx):
    user, where, cells = case
    r, w = base_rows()
    ok = True
    unindexed = any(NAMES[c] == 'left' and COLS['left'][v][0] == '-1' for c, v in cells)
    for c, v in cells:
        if NAMES[c] == 'head' and unindexed and COLS['head'][v][0] in NUL_HEADS:
            # only the index cannot hold a null character
            src = COLS['head'][v][0]
            apply(r, w, where, 'head', (src, same(NUL_HEADS[src])), bool(user))
            continue
        ok &= apply(r, w, where, NAMES[c], COLS[NAMES[c]][v], bool(user))
    if r[where].get('type_') == 'A' and not (r[where].get('a', '*') == '*' and r[where].get('b', '*') == '*'):
        ok = False
    inline = any(',' in str(r[where].get(k, '')) for k in ('a', 'b', 'ws'))
    if ok and inline and any(NAMES[c] not in ('a', 'b', 'ws', 'syn', 'left', 'right', 'cost', 'dform', 'type') for c, v in cells) and where == 0:
        return          # the row that inline references point at has been changed: not predicted
    what = '%s dictionary, row %d, %s' % ('user' if user else 'system', where, ', '.join(
        '%s=%r' % (NAMES[c], short(COLS[NAMES[c]][v][0])) for c, v in cells))
    o = judge(env, [complete(r)], w if ok else None, bool(user), what, ctx)
    ctx.count('states')
    ctx.outcome((user, cells, o))


# --- empty reading/normalized form, numbers of columns, blank lines, files
def shape_cases(tier):
    for user in (0, 1):
        for where in range(NROWS):
            for n in list(range(0, 22)):
                yield (user, 'cols', where, n)
            for blank in ('\n', ' \n', '\t\n', ',\n', '""\n', ',' * 17 + '\n', ',' * 18 + '\n', '#comment\n', '#' + ',' * 18 + '\n'):
                yield (user, 'line', where, blank)
        for k in range(3):
            for n in range(1, 4):
                yield (user, 'file', k, n)
        yield (user, 'nofile', 0, 0)
        for enc in ('utf-16', 'euc-jp', 'shift-jis', 'latin'):
            yield (user, 'encoding', 0, enc)
        for n in (127, 128, 255, 256, 257, 300):
            for where in (0, 1):
                yield (user, 'homographs', where, n)


def shape_check(env, case, ctx):
    user, kind, where, x = case
    r, w = base_rows()
    rows = complete(r)
    what = '%s dictionary, %s %r at %r' % ('user' if user else 'system', kind, x, where)
    if kind == 'cols':
        rows[where] = (rows[where] + ['*', 'x', 'y'])[:x]
        ok = x >= 18
        o = judge(env, [rows], w if ok else None, bool(user), what, ctx)
    elif kind == 'line':
        lines = csv_text(rows).splitlines(True)
        lines.insert(where, x)
        o = judge(env, [''.join(lines)], None, bool(user), what, ctx)
    elif kind == 'file':
        # an invalid row in the where-th of n files
        if where >= x:
            return
        files = [csv_text(rows[i:i + 1] if i < x - 1 else rows[i:]) for i in range(x)]
        o = judge(env, files, w, bool(user), what, ctx)
        bad = list(files)
        bad[where] += csv_text([row('')])
        judge(env, bad, None, bool(user), what + ' with an empty headword', ctx)
        bad = list(files)
        bad[where] += csv_text([row('追', a='0/4')])
        judge(env, bad, None, bool(user), what + ' with a missing unit', ctx)
    elif kind == 'nofile':
        paths = write_sources(env.dir, [rows]) + [os.path.join(env.dir, 'missing.csv')]
        got = build(env, paths, bool(user))
        if not isinstance(got, Exception):
            raise Violation('%s: a missing source file is ignored' % what)
        o = type(got).__name__
    elif kind == 'encoding':
        text = csv_text(rows) if x != 'latin' else csv_text(rows[:1] + [row('\xe9', surface='x', reading='x', norm='x')])
        raw = text.encode(x) if x != 'latin' else csv_text(rows[:1]).encode() + text.splitlines(True)[1].replace('甲', 'x').encode('latin-1', 'ignore')
        p = os.path.join(env.dir, 'enc.csv')
        with open(p, 'wb') as f:
            f.write(raw)
        got = build(env, [p], bool(user))
        if not isinstance(got, Exception):
            raise Violation('%s: a source that is not UTF-8 is accepted' % what)
        o = type(got).__name__
    else:
        # x entries with one headword; more than an index entry can hold are rejected
        more = [row('同', cost=i) for i in range(x)]
        mw = [exp('同', cost=i) for i in range(x)]
        rows = rows[:where] + more + rows[where:]
        w = w[:where] + mw + w[where:]
        o = judge(env, [rows], w if x <= 255 else None, bool(user), what, ctx)
    ctx.count('states')
    ctx.outcome((case[:2], repr(x), o))


# --- connection matrices
HEADERS = [('2 3', (2, 3)), ('1 1', (1, 1)), ('', BAD), (' ', BAD), ('\t', BAD), ('2', BAD), ('2 3 4', BAD), ('2,3', BAD), ('x y', BAD), ('2 x', BAD),
           ('x 3', BAD), ('-1 3', BAD), ('2 -3', BAD), ('-1 -1', BAD), ('32768 1', BAD), ('1 32768', BAD), ('65536 1', BAD), ('2.0 3', BAD), ('#2 3', BAD),
           ('# 2 3', BAD), ('32767 1', (32767, 1)), ('1 32767', (1, 32767)), ('  2\t 3 ', (2, 3)), ('0 0', (0, 0)), ('3 2', (3, 2))]
LINES = [('', None), ('0 0 1', (0, 0, 1)), ('0 0 32767', (0, 0, 32767)), ('0 0 -32768', (0, 0, -32768)), ('0 0 32768', BAD), ('0 0 -32769', BAD),
         ('0 0 65535', BAD), ('0 0 x', BAD), ('0 x 0', BAD), ('x 0 0', BAD), ('0 0 1.5', BAD), ('0 0 0 0', BAD), ('0 0 0 # c', BAD), ('L 0 5', BAD),
         ('0 R 5', BAD), ('-1 0 5', BAD), ('0 -1 5', BAD), ('L R 5', BAD), ('1 0 5', (1, 0, 5)), ('0 2 5', (0, 2, 5)), ('# comment', None), ('#0 0 9', None),
         (' \t', None), ('  0\t0  3 ', (0, 0, 3)), ('1 2 -1', (1, 2, -1)), ('99999 0 1', BAD), ('0 99999 1', BAD)]


def matrix_cases(tier):
    for h in range(len(HEADERS)):
        for l1 in range(len(LINES)):
            if tier == 'quick' and HEADERS[h][1] is BAD and l1 > 3:
                continue
            for l2 in range(len(LINES)):
                if tier == 'quick' and h not in (0, 1, 24) and l2 > 1:
                    continue
                yield (h, l1, l2)
    yield ('pre', 0, 0)
    yield ('pre', 1, 0)


def matrix_check(env, case, ctx):
    h, l1, l2 = case
    r, w = base_rows()
    rows = complete(r)
    if h == 'pre':
        # an empty first line is not a header, the sizes may not come later
        text = '\n2 3\n0 0 1\n' if l1 == 0 else ''
        o = judge(env, [rows], None, False, 'matrix %r' % text, ctx, text)
        ctx.outcome((h, o))
        ctx.count('states')
        return
    head, size = HEADERS[h]
    ok = size is not BAD
    lines = []
    cells = {}
    for i in (l1, l2):
        src, cell = LINES[i]
        if 'L' in src:
            src = src.replace('L', str(size[0]) if ok else '2')
        if 'R' in src:
            src = src.replace('R', str(size[1]) if ok else '3')
        lines.append(src)
        if cell is BAD:
            ok = False
        elif cell and ok:
            if cell[0] < size[0] and cell[1] < size[1]:
                cells[cell[:2]] = cell[2]
            else:
                ok = False
    text = head + '\n' + '\n'.join(lines) + '\n'
    want = None
    if ok:
        flat = [0] * (size[0] * size[1])
        for (l, r_), c in cells.items():
            flat[l + size[0] * r_] = c
        want = (size[0], size[1], flat)
    o = judge(env, [rows], w if ok else None, False, 'matrix %r' % text, ctx, text, want)
    ctx.count('states')
    ctx.outcome((case, o))


# --- descriptions, and the exit status of the command line
def cli_cases(tier):
    step = 1 if tier == 'thorough' else 4
    n = 0
    for user in (0, 1):
        for c in range(len(NAMES)):
            for v in range(len(COLS[NAMES[c]])):
                n += 1
                if len(COLS[NAMES[c]][v][0]) < 1000 and (n % step == 0 or v < 2):
                    yield (user, 'cell', c, v)
        for n_ in (0, 1, 255, 256, 257, 1000):
            for ch in ('a', 'é', 'あ', '𠮷'):
                yield (user, 'desc', n_, ch)
        for what in ('noinput', 'nomatrix', 'nosystem', 'directory', 'emptysystem', 'nomatrixoption', 'noinputs', 'badoption', 'outdir'):
            yield (user, 'usage', what, '')
    for h in range(len(HEADERS)):
        yield (0, 'matrix', h, 0)


def cli_check(env, case, ctx):
    user, kind, x, y = case
    d = Scratch.dir('c21cli')
    r, w = base_rows()
    ok = True
    matrix = MATRIX
    cells = CELLS
    desc = None
    if kind == 'cell':
        ok = apply(r, w, 1, NAMES[x], COLS[NAMES[x]][y], bool(user))
    if kind == 'desc':
        desc = y * (x // len(y.encode())) + 'z' * (x % len(y.encode()))
        ok = x <= 256
    if kind == 'matrix':
        head, size = HEADERS[x]
        matrix = head + '\n'
        ok = size is not BAD
        cells = (size[0], size[1], [0] * (size[0] * size[1])) if ok else None
    paths = write_sources(d, [complete(r)])
    mpath = os.path.join(d, 'matrix.def')
    with open(mpath, 'wb') as f:
        f.write(matrix.encode())
    out = os.path.join(d, 'out.dic')
    sysdic = env.base
    if kind == 'usage':
        ok = False
        if x == 'noinput':
            paths = paths + [os.path.join(d, 'none.csv')]
        elif x == 'nomatrix':
            mpath += '.none'
            ok = bool(user)
        elif x == 'nosystem':
            sysdic += '.none'
            ok = not user
        elif x == 'directory':
            paths = [d]
        elif x == 'emptysystem':
            sysdic = os.path.join(d, 'empty.dic')
            open(sysdic, 'w').close()
            ok = not user
        elif x == 'noinputs':
            paths = []
        elif x == 'outdir':
            out = os.path.join(d, 'none', 'out.dic')
    argv = ['ubuild', '-s', sysdic] if user else ['build', '-m', mpath]
    if kind == 'usage' and x == 'nomatrixoption':
        argv = argv[:1] if not user else argv
        ok = bool(user)
    if kind == 'usage' and x == 'badoption':
        argv.append('-z')
    if desc is not None:
        argv += ['-d', desc]
    code, so, se = fork_main(argv + ['-o', out] + paths, cwd=d)
    what = 'command line %s, %s %r %r' % (argv[0], kind, x if kind != 'cell' else NAMES[x], y if kind != 'cell' else short(COLS[NAMES[x]][y][0]))
    if (code == 0) != ok:
        raise Violation('%s: exit status %d, the source is %s: %s' % (what, code, 'valid' if ok else 'invalid', se[-300:]))
    if ok:
        dec = check_image(open(out, 'rb').read(), w, what, sys_pos=env.pos if user else None, matrix=(0, 0, []) if user else cells)
        references_ok(dec, bool(user), what)
        if desc is not None and dec.desc != desc:
            raise Violation('%s: description %r' % (what, dec.desc))
    elif not se.strip():
        raise Violation('%s: nothing is reported on standard error' % what)
    ctx.count('transitions')
    ctx.count('states')
    ctx.count('accepted' if ok else 'rejected')
    ctx.outcome((case, code))
    for name in os.listdir(d):
        os.unlink(os.path.join(d, name))
    os.rmdir(d)


# --- numbers of distinct parts of speech
def pos_cases(tier):
    return [] if tier == 'quick' else [(0, 32767), (0, 32768), (1, 32765), (1, 32766), (1, 32767)]


def pos_check(env, case, ctx):
    user, n = case
    rows = [row('語%d' % i, pos=('品%d' % i, '*', '*', '*', '*', '*')) for i in range(n)]
    want = [exp('語%d' % i, pos=('品%d' % i, '*', '*', '*', '*', '*')) for i in range(n)]
    # identifiers are 16 bit signed: those of a user dictionary continue behind the ones of the system (2 here)
    ok = n <= 32767 and (not user or n + len(env.pos) <= 32768)
    o = judge(env, [rows], want if ok else None, bool(user), '%d parts of speech' % n, ctx)
    ctx.count('states')
    ctx.outcome((case, o))


SECTIONS = [
    Section('one-column', one_cases, cell_check, setup, 'every value of every column of every row position, system and user dictionary'),
    Section('two-columns', two_cases, cell_check, setup, 'pairs of columns with every combination of their values'),
    Section('shape', shape_cases, shape_check, setup, '0..21 columns, blank lines, several files, encodings, homographs'),
    Section('matrix', matrix_cases, matrix_check, setup, 'every header with every pair of lines'),
    Section('command-line', cli_cases, cli_check, setup, 'exit status of build and ubuild for the same classes'),
    Section('parts-of-speech', pos_cases, pos_check, setup, 'numbers of parts of speech around the 16-bit limit (thorough)', hang=900, block=1),
]
