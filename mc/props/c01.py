"""C01: morphemes tile the original text."""
import itertools

from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from .. import world as W
from ..world import World, POS_SYS
from .c02 import unk_table

PROPERTY = 'C01'
RULE = ('a case is one text (or a block of code points); it is analysed with every configuration and mode, and the morphemes, and the units of every '
        'morpheme, are compared with the text position by position')
ASSUMPTIONS = ['replacement symbols and rewrite definitions leave the text non-empty',
               'declared units of a word add up to the word (well-formed dictionaries)']

ALPHABET = ['あ', 'ア', 'ー', '〜', '漢', 'Ａ', 'a', 'か', 'ﾞ', '㍿', 'ﷺ', '𠮷', '１', ',', '.', '一', '万', 'é', 'İ', ' ', '社',
            '\u3099', '😀', '…']
SMALL = ['あ', 'ー', '〜', 'か', 'ﾞ', '㍿', '𠮷', '1', ',', 'İ', 'é', '万', '漢']

# index: 0 あ 1 い 2 漢 3 株式 4 会社 5 株 6 式 ...
LEX = [entry('あ', 1, 1, 10), entry('ア', 1, 1, 10), entry('漢', 1, 1, 10), entry('株式', 1, 1, 10),
       entry('会社', 1, 1, 10), entry('株', 1, 1, 30, surface='カブ'), entry('式', 1, 1, 30),
       entry('株式会社', 1, 1, 5, a=[5, 6, 4], b=[3, 4]),
       entry('あア', 1, 1, 5, a=[0, 1], b=[0, 1]),
       entry('漢あ', 1, 1, 5, a=[2, 0]), entry('𠮷', 1, 1, 10), entry('𠮷漢', 1, 1, 5, a=[10, 2], b=[10, 2]),
       entry('が', 1, 1, 10), entry('がー', 1, 1, 10), entry('a', 1, 1, 10, surface='エイ'), entry('é', 1, 1, 20),
       entry('aé', 1, 1, 5, a=[14, 15]), entry('1', 1, 1, 10, pos=1), entry('一', 1, 1, 10, pos=1),
       entry('万', 1, 1, 10, pos=1), entry(',', 1, 1, 10, pos=2), entry('.', 1, 1, 10, pos=2),
       entry('1万', 1, 1, 3, pos=1, a=[17, 19], b=[17, 19]), entry('ああ', 1, 1, 5, a=[0, 0], b=[]),
       entry('ーあ', 1, 1, 9)]
USER = [entry('漢漢', 1, 1, 2, a=[2, 2], b=[2, 2]), entry('社', 1, 1, 2), entry('漢社', 1, 1, 1, a=[2, (1 << 28) | 1], b=[])]

INPUTS = {'none': [], 'default': [W.DEFAULT_PLUGIN], 'psm': [W.PSM_PLUGIN], 'both': [W.DEFAULT_PLUGIN, W.PSM_PLUGIN],
          'psm-empty': [dict(W.PSM_PLUGIN, replacementSymbol='')],
          'psm-long': [W.DEFAULT_PLUGIN, dict(W.PSM_PLUGIN, replacementSymbol='ーあ')]}


def worlds():
    for iname, ip in INPUTS.items():
        for pname, pp in (('plain', []), ('join', [W.NUMERIC_PLUGIN, W.KATAKANA_PLUGIN])):
            yield (iname + '/' + pname,
                   World(LEX, users=[(USER, [])], unk=unk_table(), simple=(0, 0, 9000, POS_SYS[2]), input_plugins=ip,
                         path_plugins=pp, lsize=3, rsize=3, matrix={(1, 1): 1, (2, 2): 7, (0, 2): -3}))


def setup(tier):
    out = []
    for name, w in worlds():
        d = w.open()
        out.append((name, d, {m: d.create() for m in 'ABC'}))
    return out, W.modes()


def verify(text, ml, what, begin=0, end=None):
    end = len(text) if end is None else end
    pos = begin
    surf = []
    for m in ml:
        b, e, s = m.begin(), m.end(), m.surface()
        if b != pos:
            raise Violation('%s %r: morpheme %r begins at %d, previous ended at %d' % (what, text, s, b, pos))
        if e < b:
            raise Violation('%s %r: morpheme %r ends at %d before its begin %d' % (what, text, s, e, b))
        if s != text[b:e] or str(m) != s:
            raise Violation('%s %r: surface %r is not text[%d:%d]' % (what, text, s, b, e))
        surf.append(s)
        pos = e
    if pos != end:
        raise Violation('%s %r: morphemes cover %d..%d of %d..%d' % (what, text, begin, pos, begin, end))
    return surf


def only_marks(text):
    return all(c in W.MARKS for c in text)


def check(env, case, ctx):
    worlds_, modes = env
    for name, d, toks in worlds_:
        if name.startswith('psm-empty') and only_marks(case):
            continue
        for mn, mode in modes.items():
            ctx.count('transitions')
            ml = toks[mn].tokenize(case, mode)
            surf = verify(case, ml, '%s mode %s' % (name, mn))
            if len(ml) != len(surf) or ml.size() != len(surf):
                raise Violation('%s mode %s %r: length of the result' % (name, mn, case))
            if str(ml) != case:
                raise Violation('%s mode %s %r: str() of the list is %r' % (name, mn, case, str(ml)))
            ctx.outcome((name, mn, case, tuple(surf)))
            if mn == 'C':
                for m in ml:
                    for sm in (modes['A'], modes['B']):
                        verify(case, m.split(sm), '%s split %s of %r' % (name, sm, m.surface()), m.begin(), m.end())
                if len(ml):
                    last = ml[-1]
                    if (last.begin(), last.end()) != (ml[len(ml) - 1].begin(), len(case)):
                        raise Violation('%s %r: indexing from the end' % (name, case))
    ctx.count('states')


def texts(tier):
    yield from strings(ALPHABET, 2 if tier == 'quick' else 3)
    for s in strings(SMALL, 3 if tier == 'quick' else 4, 3):
        yield s


def long_texts(tier):
    top = 300 if tier == 'quick' else 1500
    for unit in ('あ', '𠮷漢', 'か\uff9e', '㍿', 'ー〜', 'a', 'İé', '1万', 'ああア'):
        for n in list(range(1, top + 1, 1 if tier == 'thorough' else 5)) + [1023, 1024, 1025, 4099]:
            yield (unit, n)


def long_check(env, case, ctx):
    unit, n = case
    text = (unit * (n // len(unit) + 1))[:n]
    worlds_, modes = env
    sel = worlds_ if n < 60 else [x for x in worlds_ if x[0] == 'both/join'] if n % 3 else worlds_[:1]
    if unit == 'ー〜':
        sel = [x for x in sel if not x[0].startswith('psm-empty')]
    check((sel, modes), text, ctx)


def codepoints(tier):
    step = 64
    for lo in range(0, 0x110000, step):
        if 0xd800 <= lo <= 0xdfff:
            continue
        if tier == 'quick' and 0x30000 <= lo < 0xe0000:
            if lo % 4096:
                continue
        yield (lo, lo + step)


def codepoint_check(env, case, ctx):
    worlds_, modes = env
    sel = [x for x in worlds_ if x[0] in ('both/join', 'default/plain')]
    for cp in range(*case):
        for text in (chr(cp), 'あ' + chr(cp) + '漢', chr(cp) * 2):
            for name, d, toks in sel:
                ctx.count('transitions')
                ml = toks['C'].tokenize(text, modes['A'])
                surf = verify(text, ml, name)
                ctx.outcome((name, [len(s) for s in surf], len(text)))
    ctx.count('states', case[1] - case[0])


SECTIONS = [
    Section('texts', texts, check, setup,
            'all texts up to length 2 (thorough 3) over 24 characters and 3 (4) over 13, x 12 plugin configurations x 3 modes'),
    Section('long', long_texts, long_check, setup, 'lengths 1..300 (1500) of 9 periodic patterns'),
    Section('codepoints', codepoints, codepoint_check, setup, 'every Unicode code point alone, between words and doubled'),
]
