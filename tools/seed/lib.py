"""Helpers of the demonstrations: small dictionaries built with the code in the working directory."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
ROOT = os.getcwd()
sys.path.insert(0, ROOT)
PY = sys.executable
TMP = tempfile.mkdtemp(prefix='demo-')
import atexit
atexit.register(shutil.rmtree, TMP, True)
P = {'n': '名詞,普通名詞,一般,*,*,*', 'num': '名詞,数詞,*,*,*,*', 's': '補助記号,一般,*,*,*,*', 'v': '動詞,一般,*,*,五段-カ行,終止形-一般',
     'p': '名詞,固有名詞,地名,一般,*,*'}
CHARDEF = """DEFAULT 0 1 0
SPACE 0 1 0
KANJI 0 0 2
SYMBOL 1 1 0
NUMERIC 1 1 0
ALPHA 1 1 0
HIRAGANA 0 1 2
KATAKANA 1 1 2
KANJINUMERIC 0 1 0
GREEK 1 1 0
CYRILLIC 1 1 0
0x0020 SPACE
0x0021..0x002F SYMBOL
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC NOOOVBOW
0x30E3 NOOOVBOW
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC KANJI
0x4E8C KANJINUMERIC KANJI
0x4E09 KANJINUMERIC KANJI
0x5341 KANJINUMERIC KANJI
0x5343 KANJINUMERIC KANJI
0x4E07 KANJINUMERIC KANJI
"""


def row(surface, l=0, r=0, cost=0, pos='n', head=None, reading='ヨミ', norm=None, form='*', mode='C', a='*', b='*', ws='*', syn=None):
    cols = [surface, l, r, cost, surface if head is None else head] + P.get(pos, pos).split(',') + [
        reading, surface if norm is None else norm, form, mode, a, b, ws] + ([syn] if syn is not None else [])
    out = []
    for c in cols:
        c = str(c)
        out.append('"%s"' % c.replace('"', '""') if ',' in c or '"' in c or '\n' in c else c)
    return ','.join(out)


def write(name, text):
    p = os.path.join(TMP, name)
    with open(p, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return p


def cli(*args, **kw):
    env = dict(os.environ, PYTHONPATH=ROOT, PYTHONWARNINGS='ignore', PYTHONIOENCODING='utf-8')
    env.update(kw.pop('env', {}))
    return subprocess.run([PY, '-B', '-m', 'sudachipy.command_line'] + list(args), cwd=kw.pop('cwd', TMP), env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def matrix(n=3, m=None, cells=None):
    m = m or n
    return '%d %d\n' % (n, m) + ''.join('%d %d %d\n' % (i, j, (cells or {}).get((i, j), 0)) for i in range(n) for j in range(m))


def build(rows, name='system.dic', mat=None, ok=True):
    src = write(name + '.csv', '\n'.join(rows) + '\n')
    mp = write(name + '.matrix', mat or matrix())
    r = cli('build', '-o', os.path.join(TMP, name), '-m', mp, src)
    assert not ok or r.returncode == 0, r.stderr.decode()[-2000:]
    return os.path.join(TMP, name) if ok else r


def ubuild(rows, name='user.dic', system='system.dic', ok=True):
    src = write(name + '.csv', '\n'.join(rows) + '\n')
    r = cli('ubuild', '-o', os.path.join(TMP, name), '-s', os.path.join(TMP, system), src)
    assert not ok or r.returncode == 0, r.stderr.decode()[-2000:]
    return os.path.join(TMP, name) if ok else r


SIMPLE = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': P['n'].split(','), 'leftId': 0, 'rightId': 0, 'cost': 3000}
MECAB = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}
DEFAULT = {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}
PSM = {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin', 'prolongedSoundMarks': ['ー', '-', '〜'], 'replacementSymbol': 'ー'}
NUMERIC = {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': True}
KATAKANA = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': P['n'].split(','), 'minLength': 3}


def config(users=(), inp=(), oov=None, path=(), chardef=CHARDEF, unk=None, name='sudachi.json', **extra):
    write('char.def', chardef)
    if unk is not None:
        write('unk.def', unk)
    c = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'inputTextPlugin': list(inp),
         'oovProviderPlugin': oov or ([MECAB] if unk is not None else []) + [SIMPLE], 'pathRewritePlugin': list(path)}
    if users:
        c['userDict'] = list(users)
    c.update(extra)
    return write(name, json.dumps(c))


def open_dic(cfg=None, **kw):
    from sudachipy.dictionary import Dictionary
    return Dictionary(config_path=cfg or config(**kw), resource_dir=TMP)


def see(ml):
    return [(m.begin(), m.end(), m.surface(), ','.join(m.part_of_speech()), m.normalized_form(), m.dictionary_form(), m.reading_form(),
             m.is_oov(), m.word_id(), m.dictionary_id(), list(m.synonym_group_ids())) for m in ml]


def words(ml):
    return [m.surface() for m in ml]


def expect(got, want, what=''):
    if got != want:
        print('%s: got %r, expected %r' % (what, got, want))
        sys.exit(1)


def modes():
    from sudachipy.tokenizer import Tokenizer
    return Tokenizer.SplitMode
