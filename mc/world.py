"""Configurations ("worlds"): dictionaries and resource files written with the
independent encoder, the real Dictionary opened on them, and the reference model
of the same world."""
import json
import os

from . import fmt, ref
from .core import Scratch

POS_SYS = [('名詞', '普通名詞', '一般', '*', '*', '*'),
           ('名詞', '数詞', '*', '*', '*', '*'),
           ('補助記号', '一般', '*', '*', '*', '*'),
           ('動詞', '一般', '*', '*', '五段-カ行', '終止形-一般'),
           ('名詞', '固有名詞', '地名', '一般', '*', '*'),
           ('感動詞', '一般', '*', '*', '*', '*')]

RANGES = [(0x20, 0x20, ['SPACE']),
          (0x21, 0x2f, ['SYMBOL']), (0x30, 0x39, ['NUMERIC']), (0x3a, 0x40, ['SYMBOL']),
          (0x41, 0x5a, ['ALPHA']), (0x61, 0x7a, ['ALPHA']), (0xc0, 0x17f, ['ALPHA']),
          (0x370, 0x3ff, ['GREEK']), (0x400, 0x4f9, ['CYRILLIC']),
          (0x3041, 0x309f, ['HIRAGANA']), (0x30a1, 0x30fa, ['KATAKANA']), (0x30fc, 0x30ff, ['KATAKANA']),
          (0x30a1, 0x30a1, ['NOOOVBOW']), (0x30e3, 0x30e3, ['NOOOVBOW']), (0x30fb, 0x30fe, ['NOOOVBOW']),
          (0x3005, 0x3005, ['KANJI', 'NOOOVBOW']), (0x4e00, 0x9fff, ['KANJI']),
          (0x20000, 0x2ffff, ['KANJI'])] + [
    (ord(c), ord(c), ['KANJINUMERIC', 'KANJI']) for c in '一二三四五六七八九十百千万億兆〇']

PROPS = {'DEFAULT': (False, True, 0), 'SPACE': (False, True, 0), 'KANJI': (False, False, 2), 'SYMBOL': (True, True, 0),
         'NUMERIC': (True, True, 0), 'ALPHA': (True, True, 0), 'HIRAGANA': (False, True, 2),
         'KATAKANA': (True, True, 2), 'KANJINUMERIC': (False, True, 0), 'GREEK': (True, True, 0),
         'CYRILLIC': (True, True, 0)}

DEFAULT_PLUGIN = {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}
MARKS = ['ー', '-', '⁓', '〜', '〰']
PSM_PLUGIN = {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin',
              'prolongedSoundMarks': MARKS, 'replacementSymbol': 'ー'}
NUMERIC_PLUGIN = {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': True}
KATAKANA_PLUGIN = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin',
                   'oovPOS': list(POS_SYS[0]), 'minLength': 3}


def dump_char_def(ranges, props):
    out = []
    for c, (inv, grp, n) in props.items():
        out.append('%s %d %d %d' % (c, inv, grp, n))
    out.append('')
    for lo, hi, cats in ranges:
        out.append('0x%04X%s %s' % (lo, '' if lo == hi else '..0x%04X' % hi, ' '.join(cats)))
    return '\n'.join(out) + '\n'


class World:
    """system: entries (pos = index into pos_list); users: list of (entries, own POS
    list) where a user entry's pos is an index into system POS + its own POS."""

    def __init__(self, system, users=(), pos_list=None, lsize=4, rsize=4, matrix=None, ranges=None, props=None,
                 unk=None, simple=(0, 0, 3000, POS_SYS[2]), input_plugins=(), path_plugins=(), oov_order='ms',
                 version='S2', user_version='U3', extra=None, chardef_text=None, desc=''):
        self.system, self.users = list(system), [(list(e), list(p)) for e, p in users]
        self.pos_list = [tuple(p) for p in (pos_list or POS_SYS)]
        self.lsize, self.rsize, self.matrix = lsize, rsize, dict(matrix or {})
        self.ranges = RANGES if ranges is None else ranges
        self.props = PROPS if props is None else props
        self.unk = unk
        self.simple = simple
        self.input_plugins, self.path_plugins = list(input_plugins), list(path_plugins)
        self.oov_order = oov_order
        self.version, self.user_version = fmt.ALL[version], fmt.ALL[user_version]
        self.extra = extra or {}
        self.chardef_text = chardef_text
        self.desc = desc
        self.dir = None

    # -- files
    def system_bytes(self):
        return fmt.encode(self.version, self.system, self.pos_list, self.lsize, self.rsize, self.matrix, desc=self.desc)

    def user_bytes(self, k):
        e, p = self.users[k]
        return fmt.encode(self.user_version, e, p, desc=self.desc)

    def config(self):
        oovs = []
        for o in self.oov_order:
            if o == 'm' and self.unk is not None:
                oovs.append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def',
                             'unkDef': 'unk.def'})
            if o == 's' and self.simple is not None:
                l, r, c, p = self.simple
                oovs.append({'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(p),
                             'leftId': l, 'rightId': r, 'cost': c})
        cfg = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def',
               'inputTextPlugin': self.input_plugins, 'oovProviderPlugin': oovs,
               'pathRewritePlugin': self.path_plugins}
        if self.users:
            cfg['userDict'] = ['user%d.dic' % i for i in range(len(self.users))]
        cfg.update(self.extra)
        return cfg

    def write(self, d=None):
        self.dir = d or self.dir or Scratch.dir('world')

        def w(name, data):
            path = os.path.join(self.dir, name)
            if os.path.exists(path):
                os.unlink(path)     # earlier dictionaries may still map the old file
            with open(path, 'wb') as f:
                f.write(data)
        w('system.dic', self.system_bytes())
        for k in range(len(self.users)):
            w('user%d.dic' % k, self.user_bytes(k))
        w('char.def', (self.chardef_text or dump_char_def(self.ranges, self.props)).encode('utf-8'))
        if self.unk is not None:
            w('unk.def', ''.join('%s,%d,%d,%d,%s\n' % (u[0], u[1], u[2], u[3], ','.join(u[4]))
                                 for u in self.unk).encode('utf-8'))
        w('sudachi.json', json.dumps(self.config(), ensure_ascii=False).encode('utf-8'))
        return self.dir

    def open(self):
        from sudachipy.dictionary import Dictionary
        if self.dir is None:
            self.write()
        return Dictionary(config_path=os.path.join(self.dir, 'sudachi.json'), resource_dir=self.dir)

    # -- model
    def oov_models(self):
        out = []
        for o in self.oov_order:
            if o == 'm' and self.unk is not None:
                out.append(ref.MecabOov(self.props, self.unk))
            if o == 's' and self.simple is not None:
                out.append(ref.SimpleOov(*self.simple))
        return out

    def posname(self, did, pos):
        if did == 0:
            return self.pos_list[pos]
        if pos < len(self.pos_list):
            return self.pos_list[pos]
        return tuple(self.users[did - 1][1][pos - len(self.pos_list)])

    def model(self):
        lex = []
        for did, ents in enumerate([self.system] + [u[0] for u in self.users]):
            lex.append([dict(e, posname=self.posname(did, e['pos'])) for e in ents])
        return ref.Model(lex, self.matrix, ref.CharDef(self.ranges), self.oov_models())


def modes():
    from sudachipy.tokenizer import Tokenizer
    m = Tokenizer.SplitMode
    return {'A': m.A, 'B': m.B, 'C': m.C}


def observe(m):
    """Everything a user can read from a morpheme."""
    return (m.begin(), m.end(), m.surface(), tuple(m.part_of_speech()), m.part_of_speech_id(), m.normalized_form(),
            m.dictionary_form(), m.reading_form(), bool(m.is_oov()), m.word_id(), m.dictionary_id(),
            tuple(m.synonym_group_ids()))


def observe_all(ml):
    return tuple(observe(m) for m in ml)


def check_min_path(model, text, ml, what=''):
    """The list (mode C, no input plugins, no joining) is a minimum-cost path."""
    from .core import Violation
    cands = model.candidates(text)
    best = model.minimum(text, cands)
    if best is None:
        raise Violation('%s: a path was returned although none is connectable: %r' % (what, [str(m) for m in ml]))
    groups = []
    pos = 0
    for m in ml:
        b, e = m.begin(), m.end()
        if b != pos:
            raise Violation('%s: morpheme %d-%d after position %d' % (what, b, e, pos))
        pos = e
        p = tuple(m.part_of_speech())
        did, wid = m.dictionary_id(), m.word_id()
        if did >= 0:
            wid &= 0x0fffffff
            alts = [c for c in cands.get(b, ()) if c.e == e and not c.oov and c.did == did and c.wid == wid]
        else:
            alts = [c for c in cands.get(b, ()) if c.e == e and c.oov and c.pos == p]
        if not alts:
            raise Violation('%s: %r: morpheme %r at %d-%d (dictionary %d, pos %s) is not an allowed candidate' % (
                what, text, m.surface(), b, e, did, p))
        groups.append(alts)
    if pos != len(text):
        raise Violation('%s: %r: path ends at %d' % (what, text, pos))
    got = model.cost_of_path(groups)
    if got != best:
        raise Violation('%s: %r: path %r costs %r, the minimum is %r' % (
            what, text, [(m.surface(), m.dictionary_id(), m.word_id()) for m in ml], got, best))
    return best
