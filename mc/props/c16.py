"""C16: numeral interpretation is numerically correct."""
import itertools
from decimal import Decimal, getcontext

from .. import ref
from ..core import Section, Violation
from ..enum import strings

getcontext().prec = 2000

PROPERTY = 'C16'
RULE = ('a case is one string fed to the real parser character by character (a block of strings sharing a prefix in the larger spaces); '
        'acceptance and value are compared with a grammar of numerals evaluated in exact decimal arithmetic')
ASSUMPTIONS = ['a numeral is read left to right; a part that follows a larger unit must fit below it (so 二百百 and 十万億 are not numerals)',
               'the normalized value keeps the leading zeros that were written in front of it and drops trailing zeros after a point']

KANJI = '〇一二三四五六七八九'
UNITS = {'十': 1, '百': 2, '千': 3, '万': 4, '億': 8, '兆': 12}
ALL = '0123456789' + KANJI + ''.join(UNITS) + ',.'
FEW = ['1', '0', '5', '十', '千', '万', '億', ',', '.', '二', '百', '兆']


def parser():
    from sudachipy.plugin.path_rewrite.numericparser import NumericParser
    return NumericParser()


def run(p, s):
    """(value or None) as the joining plugin uses the parser"""
    for c in s:
        if not p.append(c):
            return None
    if not p.done():
        return None
    return p.get_normalized()


def expected(s):
    v = ref.numeral_value(s)
    return None if v is None else ref.plain_decimal(*v)


def check_string(p, s, what='numeral'):
    want = expected(s)
    p.clear()
    got = run(p, s)
    if got != want:
        raise Violation('%s %s: the parser gives %r, it denotes %r' % (what, s, got, want))
    return want


def setup(tier):
    return parser()


# --- all strings: a case is a prefix, the check runs all its extensions by TAIL characters
TAIL = 3


def all_cases(tier):
    for n in (1, 2, 3):
        for t in itertools.product(FEW, repeat=n):
            yield (''.join(t), 0)
    for n in range(1, (3 if tier == 'quick' else 4) + 1):
        for t in itertools.product(FEW, repeat=n):
            yield (''.join(t), TAIL)


def all_check(env, case, ctx):
    head, k = case
    for t in itertools.product(FEW, repeat=k):
        s = head + ''.join(t)
        want = check_string(env, s)
        ctx.count('strings')
        ctx.count('transitions', len(s))
        if want is not None:
            ctx.count('accepted')
            ctx.outcome(want)


# --- every numeral character in every short string
def full_cases(tier):
    for n in (1, 2, 3):
        yield from (''.join(t) for t in itertools.product(ALL, repeat=n))
    if tier != 'quick':
        yield from (''.join(t) for t in itertools.product(ALL, repeat=4))


def full_check(env, case, ctx):
    ctx.outcome((check_string(env, case)))
    ctx.count('strings')
    ctx.count('transitions', len(case))


# --- parts with separators, zeros and points around units
PARTS = ['', '0', '1', '00', '10', '000', '0,000', '1,000', '00,000', '10,000', '000,000', '0000', '1.5', '0.0', '.', '1.', ',', '1,', '1,00', '1,0000', '1.000', '1,000.5', '1000',
         '0,0', '1.5,000', '二', '〇', '一〇,〇〇〇', '五.〇']
JOINTS = list(UNITS) + ['千万', '']


def part_cases(tier):
    for a in PARTS:
        for u in JOINTS:
            yield (a, u)


def part_check(env, case, ctx):
    few = PARTS[:20]
    for b in PARTS:
        for v in JOINTS:
            for c in few:
                s = case[0] + case[1] + b + v + c
                if not s:
                    continue
                want = check_string(env, s)
                ctx.count('strings')
                ctx.count('transitions', len(s))
                if want is not None:
                    ctx.outcome((want, s))


# --- long numerals, generated from their value
DIGS = ['7', '07', '120', '0', '9081726354', '5' * 15 + '0' * 5, '10203040506070809', '1' * 60]
FRACS = ['', '5', '50', '05', '000', '123456789012345678901234567890']


def commas(s):
    out = []
    while len(s) > 3:
        out.insert(0, s[-3:])
        s = s[:-3]
    return ','.join([s] + out)


def kan(s):
    return ''.join(KANJI[int(c)] if c.isdigit() else c for c in s)


def long_cases(tier):
    for d in DIGS:
        for f in FRACS:
            for form in range(4):
                for unit in ('',) + tuple(UNITS) + (('千万', '十億', '百兆') if tier != 'x' else ()):
                    for lower in ('', '二', '3', '十', '五十', '百一', '4.5', '千'):
                        yield (d, f, form, unit, lower)


def long_check(env, case, ctx):
    d, f, form, unit, lower = case
    i = commas(d) if form & 1 else d
    s = i + ('.' + f if f else '')
    if form & 2:
        s = kan(s)
    s = s + unit + lower
    want = check_string(env, s)
    ctx.count('strings')
    ctx.count('transitions', len(s))
    # independently of the grammar: no lower part, plain decimal arithmetic
    if not lower and len(unit) <= 1 and not (form & 1 and (d[0] == '0' and len(d) <= 3 and set(d) == {'0'} and ',' in i)):
        if want is None:
            raise Violation('%s is not a numeral for the reference' % s)
        v = Decimal(d + ('.' + f if f else '')).scaleb(UNITS.get(unit, 0))
        if Decimal(want) != v:
            raise Violation('reference disagrees with itself: %s %s %s' % (s, want, v))
    ctx.outcome((want, s))


# --- every value below a bound written out with units
def spell(n, one):
    """Kanji numeral of n; `one`: write 一 before small units"""
    out = ''
    for u, e in (('兆', 12), ('億', 8), ('万', 4), ('', 0)):
        part = n // 10 ** e % 10000
        if not part:
            continue
        t = ''
        for su, se in (('千', 3), ('百', 2), ('十', 1), ('', 0)):
            k = part // 10 ** se % 10
            if k:
                t += (KANJI[k] if k > 1 or one or not su else '') + su
        out += t + u
    return out


def value_cases(tier):
    return range(0, 10000 if tier == 'quick' else 100000, 50)


def value_check(env, case, ctx):
    for v in range(case, case + 50):
        for n in (v, v * 10000, v * 10000 + 7, v * 100000001, v * 10 ** 8 + v, v * 10 ** 12 + v * 7 % 10000 * 10 ** 4):
            if n <= 0 or n >= 10 ** 16:
                continue
            for one in (0, 1):
                s = spell(n, one)
                env.clear()
                got = run(env, s)
                if got != str(n):
                    raise Violation('%s denotes %d, the parser gives %r' % (s, n, got))
                ctx.count('strings')
                ctx.count('transitions', len(s))
        ctx.outcome(v)


# --- histories: the parser is reused after clear
def reuse_cases(tier):
    few = FEW[:9]
    A = list(strings(few, 3 if tier == 'quick' else 4))
    for s in A:
        yield s


REUSE_NEXT = ['1', '0', '十', '1,000', '1.5', '万', '1.5千', '2万3', ',', '.', '1,00', '1.', '100億', '5.050']


def reuse_check(env, case, ctx):
    for upto in range(len(case) + 1):
        for done in (0, 1, 2):
            for t in REUSE_NEXT:
                p = env
                p.clear()
                for c in case[:upto]:
                    if not p.append(c):
                        break
                if done:
                    ok = p.done()
                    if done == 2 and ok:
                        p.get_normalized()
                check_string(p, t, 'after %r (%d, %d), cleared,' % (case, upto, done))
                ctx.count('strings')
                ctx.count('transitions', upto + 1 + len(t))
    ctx.outcome(case)


# --- characters that are no numeral characters are refused everywhere
def other_cases(tier):
    return range(0, 0x110000 if tier != 'quick' else 0x10000, 256)


def other_check(env, case, ctx):
    for cp in range(case, case + 256):
        c = chr(cp)
        for pre in ('', '1', '十'):
            env.clear()
            for x in pre:
                env.append(x)
            got = env.append(c)
            want = c in ALL and not (c in ',.' and pre != '1') and not (c in '万億兆' and pre == '') and not (c in '十百千' and pre == '十')
            if bool(got) != want:
                raise Violation('append(U+%04X) after %r returns %r' % (cp, pre, got))
            ctx.count('transitions')
    ctx.outcome(case)


SECTIONS = [
    Section('strings', all_cases, all_check, setup, 'all strings up to 6 (thorough 7) over 12 characters: digits, units, comma, point', block=4),
    Section('characters', full_cases, full_check, setup, 'all strings up to 3 (thorough 4) over all 28 numeral characters', block=256),
    Section('parts', part_cases, part_check, setup, 'three parts with separators, zeros and points (29 x 29 x 20) around two of 8 units', block=1),
    Section('long', long_cases, long_check, setup, 'long digit strings x fractions x notations x units x lower parts'),
    Section('values', value_cases, value_check, setup, 'every value below 10 000 (thorough 100 000) and its multiples, written with units'),
    Section('reuse', reuse_cases, reuse_check, setup, 'all prefixes of all strings up to 3 (thorough 4), abandoned, then clear and another numeral'),
    Section('others', other_cases, other_check, setup, 'every BMP (thorough: every) code point after three prefixes'),
]
