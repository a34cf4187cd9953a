"""Dictionary sources (CSV rows, matrix.def) and the real builders run on them."""
import csv
import io
import logging
import os

from .core import Scratch


class Quiet:
    """A logger that discards everything (the builder takes a logger)."""

    def __getattr__(self, name):
        return lambda *a, **k: None


def row(head, left=0, right=0, cost=0, surface=None, pos=('名詞', '普通名詞', '一般', '*', '*', '*'), reading=None,
        norm=None, dform='*', type_='*', a='*', b='*', ws='*', syn='*'):
    surface = head if surface is None else surface
    return [head, str(left), str(right), str(cost), surface] + list(pos) + [
        surface if reading is None else reading, surface if norm is None else norm, str(dform), type_, a, b, ws] + (
        [] if syn is None else [syn])


def csv_text(rows):
    f = io.StringIO()
    csv.writer(f, lineterminator='\n').writerows(rows)
    return f.getvalue()


def matrix_text(lsize, rsize, cells):
    return '%d %d\n' % (lsize, rsize) + ''.join('%d %d %d\n' % (l, r, c) for (l, r), c in cells.items())


def write_sources(d, sources, prefix='lex'):
    """sources: list of row lists or raw texts -> paths"""
    paths = []
    for i, s in enumerate(sources):
        p = os.path.join(d, '%s%d.csv' % (prefix, i))
        with open(p, 'wb') as f:
            f.write((s if isinstance(s, str) else csv_text(s)).encode('utf-8', 'surrogatepass'))
        paths.append(p)
    return paths


def build_system(paths, matrix, time=0, desc=''):
    """bytes of a system dictionary built by the real builder"""
    from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2
    from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    out = io.BytesIO()
    out.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, time, desc).to_bytes())
    DictionaryBuilder(logger=Quiet()).build(paths, io.StringIO(matrix), out)
    return out.getvalue()


def build_user(paths, grammar, lexicon, time=0, desc=''):
    from sudachipy.dictionarylib import USER_DICT_VERSION_3
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
    out = io.BytesIO()
    out.write(DictionaryHeader(USER_DICT_VERSION_3, time, desc).to_bytes())
    UserDictionaryBuilder(grammar, lexicon, logger=Quiet()).build(paths, None, out)
    return out.getvalue()


def write_file(d, name, data):
    path = os.path.join(d, name)
    if os.path.exists(path):
        os.unlink(path)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def open_system(path):
    from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
    return BinaryDictionary.from_system_dictionary(path)


def open_user(path):
    from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
    return BinaryDictionary.from_user_dictionary(path)
