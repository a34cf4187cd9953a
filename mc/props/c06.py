"""C06: a morpheme reports the attributes of its own entry."""
import itertools
import os

from .. import ref, world as W
from ..core import Section, Violation, Scratch
from ..enum import strings
from ..fmt import entry
from ..world import World, POS_SYS, observe
from .c02 import unk_table
from .c05 import MARK, Spec

PROPERTY = 'C06'
RULE = 'a case is one set of entries (or one text); every morpheme is compared with its plain entry, attribute by attribute'
ASSUMPTIONS = ['which entry is chosen is decided by C02; here the choice is made unique by costs']
OWN = [('甲', 'あ', '*', '*', '*', '*'), ('乙', '𠮷', 'x' * 130, '*', '*', '*')]


def tmpdir(tier):
    return Scratch.dir('c06')


def expect_word(spec, m, b, e, text, did, wid, what):
    want = spec.obs(b, e, text, did, wid)
    for _ in range(2):
        got = observe(m)
        if got != want:
            raise Violation('%s: %r: morpheme %d-%d reports %r, its entry is %r' % (what, text, b, e, got, want))
    wi = m.get_word_info()
    x = spec.lex[did][wid]
    if (wi.surface, wi.head_word_length, wi.pos_id) != (x['surface'], len(x['head'].encode('utf-8')), want[4]):
        raise Violation('%s: %r: word info of morpheme %d-%d' % (what, text, b, e))


# --- every combination of the fields of one entry
def field_cases(tier):
    return itertools.product(
        range(3),                                   # dictionary
        ['', 'same', '表', 'かな𠮷'],                # surface: '' = headword
        ['', 'h', '正', '正𠮷規'],                   # normalized form: '' = surface, h = headword
        ['', 'h', 'ヨミ'],                           # reading
        [-1, 0, 1, 2],                              # dictionary form
        [0, 5, 6],                                  # part of speech (6: own or last)
        [(), (7,), (1, 2147483647, 0)])             # synonyms


def field_check(env, case, ctx):
    did, surf, norm, reading, dform, pos, syn = case
    head = '見出し'
    s = {'': head, 'same': head}.get(surf, surf)
    n = {'': s, 'h': head}.get(norm, norm)
    r = {'': s, 'h': head}.get(reading, reading)
    if did == 0 and pos == 6:
        pos = 4
    x = entry(head, 0, 0, 1, surface=s, norm=n, reading=r, dform=dform, pos=pos, syn=syn)
    y = entry('基本', 0, 0, 2, surface='基本形', norm='別', reading='', dform=0, pos=1)
    y['reading'] = 'きほん'
    z = entry('無', -1, 0, 3, surface='無し', dform=1, pos=2)
    dics = [[entry('他', 0, 0, 1)], [entry('人', 0, 0, 1)], [entry('甲', 0, 0, 1)]]
    dics[did] = [x, y, z] + dics[did]
    # the other dictionaries have other words under the same ids
    for k in range(3):
        if k != did:
            dics[k] += [entry('q%d%d' % (k, i), 0, 0, 5, norm='qn', reading='qr', pos=3) for i in range(3)]
    w = World(dics[0], users=[(dics[1], OWN), (dics[2], OWN[1:])], simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    spec = Spec(w)
    tok = w.open().create()
    text = ('q02' if did else 'q12') + head + '基本' + ['他', '人', '甲'][did]
    ml = tok.tokenize(text)
    pos_, seen = 0, 0
    for m in ml:
        b, e = m.begin(), m.end()
        for d, ents in enumerate(dics):
            for i, en in enumerate(ents):
                if en['head'] == text[b:e]:
                    expect_word(spec, m, b, e, text, d, i, 'fields %r' % (case,))
                    seen += 1
        ctx.count('transitions')
    if seen != 4:
        raise Violation('fields %r: %r' % (case, [str(m) for m in ml]))
    ctx.count('states')
    ctx.outcome(case)


# --- every dictionary-form graph over four entries
def graph_cases(tier):
    n = 4 if tier == 'quick' else 5
    for d in (0, 1, 2):
        for g in itertools.product(range(-1, n), repeat=n):
            yield (d, g)


def graph_check(env, case, ctx):
    did, g = case
    heads = ['語' + 'あいうえお'[i] for i in range(len(g))]
    ents = [entry(h, 0 if i != 2 else -1, 0, 1, surface='面%d' % i, norm='正%d' % i, dform=f) for i, (h, f) in enumerate(zip(heads, g))]
    dics = [[entry('語', 0, 0, 1, surface='系%d' % i) for i in range(4)], [entry('々', 0, 0, 1, surface='一%d' % i) for i in range(4)],
            [entry('〆', 0, 0, 1, surface='二%d' % i) for i in range(4)]]
    dics[did] = ents + dics[did]
    w = World(dics[0], users=[(dics[1], []), (dics[2], [])], simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    spec = Spec(w)
    dic = w.open()
    tok = dic.create()
    for i, h in enumerate(heads):
        ctx.count('transitions')
        if ents[i]['left'] != -1:
            ml = tok.tokenize(h)
            if len(ml) != 1:
                raise Violation('graph %r: %r' % (case, str(ml)))
            expect_word(spec, ml[0], 0, len(h), h, did, i, 'dictionary forms %r' % (case,))
        wi = dic.lexicon.get_word_info((did << 28) | i)
        want = ents[i]['surface'] if g[i] < 0 else ents[g[i]]['surface']
        if wi.dictionary_form != want or wi.normalized_form != '正%d' % i:
            raise Violation('dictionary forms %r: word %d has %r, expected %r' % (case, i, wi.dictionary_form, want))
    ctx.count('states')
    ctx.outcome(case)


# --- homographs: the reported entry is the chosen one
def homo_cases(tier):
    return itertools.product(itertools.permutations([5, -3, 40, 17]), itertools.product(range(3), repeat=4))


def homo_check(env, case, ctx):
    costs, dicts = case
    dics = [[entry('z', 0, 0, 0)], [entry('z', 0, 0, 1)], [entry('z', 0, 0, 2)]]
    where = []
    for i, (c, d) in enumerate(zip(costs, dicts)):
        dics[d].append(entry('同音', 0, 0, c, pos=i, norm='正%d' % i, reading='読%d' % i, syn=[i, c & 255],
                             surface='同音' if i % 2 else '同%d' % i))
        where.append((c, d, len(dics[d]) - 1))
    w = World(dics[0], users=[(dics[1], OWN), (dics[2], [])], simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    spec = Spec(w)
    dic = w.open()
    _, d, i = min(where)
    for text, at in (('同音', 0), ('z同音', 1), ('同音同音', 1), ('𠮷同音z', 1)):
        ml = dic.create().tokenize(text)
        m = ml[at]
        ctx.count('transitions')
        expect_word(spec, m, text.rindex('同'), text.rindex('音') + 1, text, d, i, 'homographs %r' % (case,))
    for _, d, i in where:
        wi = dic.lexicon.get_word_info((d << 28) | i)
        x = dics[d][i]
        if (wi.surface, wi.normalized_form, wi.reading_form, list(wi.synonym_group_ids)) != (x['surface'], x['norm'], x['reading'], x['syn']):
            raise Violation('homographs %r: word info %d of dictionary %d' % (case, i, d))
    ctx.count('states')
    ctx.outcome(case)


# --- lengths of the forms
def length_cases(tier):
    lens = [1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 16383, 16384, 32766, 32767]
    if tier == 'thorough':
        lens = sorted(set(lens + list(range(1, 1400))))
    for n in lens:
        for field in ('surface', 'norm', 'reading', 'dform'):
            for ch in ('あ', '𠮷', 'a\ufeff'):
                yield (n, field, ch)


def length_check(env, case, ctx):
    n, field, ch = case
    s = (ch * n)[:n // len(ch.encode('utf-16-le')) * 2 if ch == '𠮷' else n]
    if ch == '𠮷':
        s = ch * (n // 2) + ('a' if n % 2 else '')
    x = entry('語', 0, 0, 1, norm='正', reading='読', pos=3, syn=[1, 2])
    y = entry('基', 0, 0, 1, surface='基', norm='別')
    if field == 'dform':
        y['surface'] = s
        x['dform'] = 1
    else:
        x[field] = s
    w = World([x, y], simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    ml = w.open().create().tokenize('語基')
    spec = Spec(w)
    for i in (0, 1):
        expect_word(spec, ml[i], i, i + 1, '語基', 0, i, 'length %d of %s' % (n, field))
        ctx.count('transitions')
    ctx.count('states')
    ctx.outcome((n, field, ch))


# --- out-of-vocabulary morphemes
OOV_ALPHABET = ['あ', 'ア', '漢', '一', '1', 'a', 'é', '𠮷', '。', 'я', 'Ａ', '㍿', '語', 'ﾞ', 'か']


def oov_setup(tier):
    ents = [entry('語', 1, 1, -4000, norm='ご', reading='ゴ'), entry('語a', 2, 2, -5000, norm='ごa', reading='ゴ')]
    out = []
    for ip in ([], [W.DEFAULT_PLUGIN]):
        for order in ('ms', 'sm', 's'):
            w = World(ents, unk=unk_table() if 'm' in order else None, simple=(1, 2, 60, POS_SYS[5]), oov_order=order, lsize=3, rsize=3,
                      matrix={(1, 1): 3, (2, 1): 9}, input_plugins=ip)
            w.write()
            d = w.open()
            out.append((w, Spec(w), d, d.create(), w.model()))
    import sudachipy
    return out, ref.read_rewrite_def(os.path.join(os.path.dirname(sudachipy.__file__), 'resources', 'rewrite.def')), W.modes()


def oov_cases(tier):
    return strings(OOV_ALPHABET, 4 if tier == 'quick' else 5)


def oov_check(env, case, ctx):
    worlds, (ignore, rep), modes = env
    for w, spec, d, tok, model in worlds:
        ot = ref.OffsetText(case)
        if w.input_plugins:
            ref.default_rewrite(ot, ignore, rep)
        text = ot.text()
        cands = model.candidates(text)
        ml = tok.tokenize(case)
        pos = 0
        for m in ml:
            ctx.count('transitions')
            if m.dictionary_id() >= 0:
                wid = m.word_id()
                n = len(w.system[wid]['head'])
                if text[pos:pos + n] != w.system[wid]['head']:
                    raise Violation('%r: morpheme %r is word %d %r' % (case, m.surface(), wid, w.system[wid]['head']))
                expect_word(spec, m, ot.origin[pos], ot.origin[pos + n], case, 0, wid, 'text')
            else:
                t = m.normalized_form()
                n = len(t)
                got = (m.begin(), m.end(), m.is_oov(), m.dictionary_id(), m.normalized_form(), m.dictionary_form(), m.reading_form(),
                       tuple(m.synonym_group_ids()))
                want = (ot.origin[pos], ot.origin[pos + n] if pos + n < len(ot.origin) else None, True, -1, text[pos:pos + n],
                        text[pos:pos + n], '', ())
                if got != want or n == 0:
                    raise Violation('%r: unknown word reports %r, expected %r' % (case, got, want))
                poss = {c.pos for c in cands[pos] if c.oov and c.e == pos + n}
                if tuple(m.part_of_speech()) not in poss or d.grammar.get_part_of_speech_string(m.part_of_speech_id()) != m.part_of_speech():
                    raise Violation('%r: unknown word %r has part of speech %r, the rules give %r' % (
                        case, t, m.part_of_speech(), sorted(poss)))
                if [observe(x) for x in m.split(modes['A'])] != [observe(m)] or [observe(x) for x in m.split(modes['B'])] != [observe(m)]:
                    raise Violation('%r: unknown word %r is split' % (case, t))
            pos += n
        if pos != len(text):
            raise Violation('%r: morphemes cover %d of %d' % (case, pos, len(text)))
        ctx.outcome((w.oov_order, len(w.input_plugins), case, tuple(m.is_oov() for m in ml)))
    ctx.count('states')


# --- long unknown words
def long_cases(tier):
    top = 300 if tier == 'quick' else 1200
    for c in OOV_ALPHABET:
        for n in list(range(5, top)) + [1023, 1024, 1025]:
            if n < 70 or n % 16 in (0, 1, 15) or c in 'aア':
                yield c * n
                if n % 8 == 0:
                    yield '語' + c * n + '語'


# --- numbers of synonym groups
def synonym_cases(tier):
    for n in range(0, 128):
        for did in (0, 1, 2):
            yield (n, did)


def synonym_check(env, case, ctx):
    n, did = case
    x = entry('語', 0, 0, 1, norm='正', reading='読', pos=3, syn=[(i * 77777777 + n) % 2147483648 for i in range(n)])
    y = entry('基', 0, 0, 1, surface='基', norm='別', syn=[5])
    dics = [[entry('甲', 0, 0, 1)], [entry('乙', 0, 0, 1)], [entry('丙', 0, 0, 1)]]
    dics[did] = [x, y] + dics[did]
    w = World(dics[0], users=[(dics[1], []), (dics[2], [])], simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    ml = w.open().create().tokenize('語基')
    spec = Spec(w)
    for i in (0, 1):
        expect_word(spec, ml[i], i, i + 1, '語基', did, i, '%d synonym groups' % n)
        ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- numbers of user dictionaries
def dics_cases(tier):
    return itertools.product(range(1, 16), range(2 if tier == 'quick' else 4))


def dics_check(env, case, ctx):
    n, shift = case
    first = 0x4E00
    dics = []
    for d in range(n + 1):
        c = chr(first + d)
        dics.append([entry('共', 0, 0, 50 - 3 * ((d + shift * 5) % (n + 1)), norm='共%d' % d, reading='キョウ%d' % d, syn=[1000 + d], pos=d % 3)] +
                    [entry('語' + c, 0, 0, -900, surface='表' + c, norm='正%d' % d, reading='ゴ%d' % d, syn=[d, d + 100], dform=d % 3,
                           pos=(len(POS_SYS) if d and shift % 2 == 0 else d % len(POS_SYS)))] +
                    [entry(c + '語', 0, 0, -900, norm='後%d' % d, reading='コウ%d' % d, dform=1, pos=(d * 2) % len(POS_SYS))])
    w = World(dics[0], users=[(x, [('自', '品%d' % d, '*', '*', '*', '*')] if shift % 2 == 0 else []) for d, x in enumerate(dics[1:])],
              simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    spec = Spec(w)
    tok = w.open().create()
    best = min(range(n + 1), key=lambda d: dics[d][0]['cost'])
    for d in range(n + 1):
        c = chr(first + d)
        text = '語' + c + '共' + c + '語'
        ml = tok.tokenize(text)
        if [m.surface() for m in ml] != ['語' + c, '共', c + '語']:
            raise Violation('%d user dictionaries: %r: %r' % (n, text, [m.surface() for m in ml]))
        for i, (b, e, did, wid) in enumerate(((0, 2, d, 1), (2, 3, best, 0), (3, 5, d, 2))):
            expect_word(spec, ml[i], b, e, text, did, wid, '%d user dictionaries' % n)
            ctx.count('transitions')
    ctx.count('states')
    ctx.outcome(case)


# --- values that other programs take for nothing or interpret
ODD = [' ', '\u3000', '\t', '\n', ' ア', 'ア ', '\u3000ア\u3000', '*', '-', '-1', '0', 'None', '(null)', '"', '""', ',', 'a,b', '/', 'a/b', '#', '\\u3042', '\ufeff', '\ufeffア',
       'A', 'Ａ', 'ｱﾞ', 'e\u0301', '\u200b', '\x00', '\x01', 'ア\x00', '\ufffd', '\U0010ffff', 'あ' * 128]


def odd_cases(tier):
    for did in (0, 1):
        for v in ODD:
            for x in range(1, 32):
                yield (did, v, x)


def odd_check(env, case, ctx):
    did, v, where = case
    if where & 16 and '\x00' in v:
        ctx.count('skipped')    # not a headword
        return
    head = v if where & 16 else '見出し'
    x = entry(head, 0, 0, -900, surface=v if where & 1 else '表', norm=v if where & 2 else '正', reading=v if where & 4 else 'ヨミ',
              dform=2 if where & 8 else -1, pos=3, syn=(5,))
    y = entry('基本', 0, 0, 2, surface='基本形', norm=v if where & 4 else '別', reading='きほん', dform=1, pos=1)
    z = entry('無' + v.replace('\x00', 'N'), 0, 0, 3, surface=v, norm='無し', reading='ナシ', dform=1, pos=2)
    dics = [[entry('他', 0, 0, 1)], [entry('人', 0, 0, 1)]]
    dics[did] = [entry('先', 0, 0, 1), x, z, y]
    own = [(v.replace('\x00', '0'), '*', v[:1].replace('\x00', '0'), '*', '*', v.replace('\x00', '0'))]
    if did:
        x['pos'] = len(POS_SYS)
    w = World(dics[0], users=[(dics[1], own)], simple=(0, 0, 9000, POS_SYS[2]), lsize=1, rsize=1)
    w.dir = env
    w.write()
    spec = Spec(w)
    tok = w.open().create()
    seen = 0
    for text in (head, '基本' + head, head + '基本', z['head']):
        for m in tok.tokenize(text):
            b, e = m.begin(), m.end()
            for d, ents in enumerate(dics):
                for i, en in enumerate(ents):
                    if en['head'] == text[b:e]:
                        expect_word(spec, m, b, e, text, d, i, 'value %r' % (case,))
                        seen += 1
            ctx.count('transitions')
    if seen != 6:
        raise Violation('value %r: %d words are found' % (case, seen))
    ctx.count('states')
    ctx.outcome(case)


SECTIONS = [
    Section('dictionaries', dics_cases, dics_check, tmpdir, '1..15 user dictionaries, words of each of them and homographs in all of them, with and without own parts of speech', block=2),
    Section('fields', field_cases, field_check, tmpdir, 'all combinations of the fields of an entry in three dictionaries'),
    Section('dictionary-forms', graph_cases, graph_check, tmpdir, 'all dictionary-form graphs over 4 (thorough 5) entries, three dictionaries'),
    Section('odd-values', odd_cases, odd_check, tmpdir, '34 odd values in every combination of headword, surface, normalized form, reading, dictionary form and part of speech of words of the system and a user dictionary'),
    Section('homographs', homo_cases, homo_check, tmpdir, 'all orders of costs and locations of four homographs'),
    Section('lengths', length_cases, length_check, tmpdir, 'lengths of the stored strings around every encoding boundary'),
    Section('synonyms', synonym_cases, synonym_check, tmpdir, '0..127 synonym groups in each of three dictionaries'),
    Section('long-unknown', long_cases, oov_check, oov_setup, 'runs of every size up to 300 (1200) of 15 characters', block=8),
    Section('unknown', oov_cases, oov_check, oov_setup, 'all texts up to 4 (thorough 5) over 15 characters, 6 configurations'),
]
