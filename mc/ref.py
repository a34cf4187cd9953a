"""Reference model of the analyser: deliberately plain, quadratic, and independent
of the implementation (characters instead of bytes, strings instead of tries,
dictionaries instead of double arrays)."""

INH = 0x7fff
BOW_RESTRICTED = ('ALPHA', 'GREEK', 'CYRILLIC')


class CharDef:
    """ranges: list of (low, high inclusive, [category names])"""

    def __init__(self, ranges):
        self.ranges = list(ranges)
        self.memo = {}

    def cats(self, c):
        cp = ord(c)
        r = self.memo.get(cp)
        if r is None:
            s = set()
            for lo, hi, cs in self.ranges:
                if lo <= cp <= hi:
                    s.update(cs)
            r = frozenset(s) if s else frozenset(['DEFAULT'])
            if not s and any(lo <= cp <= hi for lo, hi, _ in self.ranges):
                r = frozenset()
            self.memo[cp] = r
        return r


def parse_char_def(path):
    """(ranges, props) of a char.def file; props: {category: (invoke, group, length)}"""
    ranges, props = [], {}
    with open(path, encoding='utf-8') as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            cols = line.split()
            if cols[0].startswith('0x'):
                lo, _, hi = cols[0].partition('..')
                cats = []
                for c in cols[1:]:
                    if c.startswith('#'):
                        break
                    cats.append(c)
                ranges.append((int(lo, 16), int(hi or lo, 16), cats))
            else:
                props[cols[0]] = (cols[1] != '0', cols[2] != '0', int(cols[3]))
    return ranges, props


CATEGORY_ORDER = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC',
                  'GREEK', 'CYRILLIC', 'USER1', 'USER2', 'USER3', 'USER4', 'NOOOVBOW']


class TextInfo:
    """Categories, word starts and category runs of an analysed text."""

    def __init__(self, text, chardef):
        n = len(text)
        self.text = text
        self.cats = [chardef.cats(c) for c in text]
        self.bow = []
        for i in range(n):
            ok = True
            if i > 0 and any(r in self.cats[i] for r in BOW_RESTRICTED):
                ok = not (self.cats[i] & self.cats[i - 1])
            self.bow.append(ok)
        self.run = [0] * n      # characters up to the end of the category run
        i = 0
        while i < n:
            j = i + 1
            common = set(self.cats[i])
            while j < n and (common & self.cats[j]):
                common &= self.cats[j]
                j += 1
            for k in range(i, j):
                self.run[k] = j - k
            i = j


class Cand:
    __slots__ = ('b', 'e', 'left', 'right', 'cost', 'did', 'wid', 'pos', 'oov')

    def __init__(self, b, e, left, right, cost, did, wid, pos, oov):
        self.b, self.e, self.left, self.right, self.cost = b, e, left, right, cost
        self.did, self.wid, self.pos, self.oov = did, wid, pos, oov

    def key(self):
        return (self.b, self.e, self.oov, self.did, self.wid, self.pos)

    def __repr__(self):
        return 'Cand(%d-%d l%d r%d c%d %s)' % (self.b, self.e, self.left, self.right, self.cost,
                                               'oov pos%s' % (self.pos,) if self.oov else 'w%d:%d' % (self.did, self.wid))


class MecabOov:
    """props: {category: (invoke, group, length)}; unk: [(category, left, right, cost, pos tuple)]"""

    def __init__(self, props, unk):
        self.props, self.unk = props, unk

    def propose(self, ti, i, has_words):
        out = []
        for cat in CATEGORY_ORDER:
            if cat not in ti.cats[i] or cat not in self.props:
                continue
            defs = [u for u in self.unk if u[0] == cat]
            if not defs:
                continue
            invoke, group, length = self.props[cat]
            if has_words and not invoke:
                continue
            run = ti.run[i]
            lengths = []
            if group:
                lengths.append(run)
            for k in range(1, length + 1):
                if k > run or (group and k == run):
                    break
                lengths.append(k)
            for k in lengths:
                for u in defs:
                    out.append(Cand(i, i + k, u[1], u[2], u[3], -1, -1, tuple(u[4]), True))
        return out


class SimpleOov:
    def __init__(self, left, right, cost, pos):
        self.left, self.right, self.cost, self.pos = left, right, cost, tuple(pos)

    def propose(self, ti, i, has_words):
        if has_words:
            return []
        j = i + 1
        while j < len(ti.text) and not ti.bow[j]:
            j += 1
        return [Cand(i, j, self.left, self.right, self.cost, -1, -1, self.pos, True)]


class Model:
    """lexicons: [system entries, user entries...] (dicts as in fmt.entry, pos index
    resolved to a tuple under 'posname'); matrix: {(left's right id, right's left id): cost}"""

    def __init__(self, lexicons, matrix, chardef, oovs):
        self.lexicons = lexicons
        self.matrix = matrix
        self.chardef = chardef
        self.oovs = oovs
        self.by_head = []
        for did, lex in enumerate(lexicons):
            d = {}
            for wid, e in enumerate(lex):
                if e['left'] != -1:
                    d.setdefault(e['head'], []).append((wid, e))
            self.by_head.append(d)
        self.maxlen = max([len(h) for d in self.by_head for h in d] or [0])

    def conn(self, l, r):
        return self.matrix.get((l, r), 0)

    def lookup(self, text, i):
        """[(did, wid, end)] of all indexed entries that are a prefix of text[i:]"""
        out = []
        for did, d in enumerate(self.by_head):
            for k in range(1, min(self.maxlen, len(text) - i) + 1):
                for wid, _ in d.get(text[i:i + k], ()):
                    out.append((did, wid, i + k))
        return out

    def candidates(self, text):
        """{begin: [Cand]} for the positions the analyser can be at, or None when a
        reachable position has no word at all."""
        ti = TextInfo(text, self.chardef)
        n = len(text)
        reach = [False] * (n + 1)
        reach[0] = True
        out = {}
        for i in range(n):
            if not reach[i] or not ti.bow[i]:
                continue
            cs = []
            for did, wid, e in self.lookup(text, i):
                if e < n and not ti.bow[e]:
                    continue
                w = self.lexicons[did][wid]
                cs.append(Cand(i, e, w['left'], w['right'], w['cost'], did, wid, tuple(w.get('posname', ())), False))
            if 'NOOOVBOW' not in ti.cats[i]:
                for p in self.oovs:
                    cs.extend(p.propose(ti, i, bool(cs)))
            if not cs and self.oovs:
                cs.extend(self.oovs[-1].propose(ti, i, False))
            if not cs:
                return None
            for c in cs:
                reach[c.e] = True
            out[i] = cs
        return out

    def minimum(self, text, cands=None):
        """Minimum total cost, or None when the end cannot be reached."""
        cands = self.candidates(text) if cands is None else cands
        if cands is None:
            return None
        n = len(text)
        best = {0: {0: 0}}      # position -> right id -> cost
        for i in range(n):
            if i not in best or i not in cands:
                continue
            for c in cands[i]:
                m = None
                for rid, t in best[i].items():
                    k = self.conn(rid, c.left)
                    if k != INH and (m is None or t + k < m):
                        m = t + k
                if m is None:
                    continue
                d = best.setdefault(c.e, {})
                if c.right not in d or m + c.cost < d[c.right]:
                    d[c.right] = m + c.cost
        m = None
        for rid, t in best.get(n, {}).items():
            k = self.conn(rid, 0)
            if k != INH and (m is None or t + k < m):
                m = t + k
        return m

    def cost_of_path(self, groups):
        """groups: list of alternative candidates per morpheme; minimum total over
        the alternatives, None if not connectable."""
        cur = {0: 0}
        for alts in groups:
            nxt = {}
            for c in alts:
                m = None
                for rid, t in cur.items():
                    k = self.conn(rid, c.left)
                    if k != INH and (m is None or t + k < m):
                        m = t + k
                if m is not None and (c.right not in nxt or m + c.cost < nxt[c.right]):
                    nxt[c.right] = m + c.cost
            cur = nxt
        m = None
        for rid, t in cur.items():
            k = self.conn(rid, 0)
            if k != INH and (m is None or t + k < m):
                m = t + k
        return m


# ---------------------------------------------------------------- input text

def read_rewrite_def(path):
    """(ignore set, {key: replacement}) of a rewrite definition"""
    ignore, rep = set(), {}
    with open(path, encoding='utf-8') as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            cols = line.split()
            if len(cols) == 1:
                ignore.add(cols[0])
            else:
                rep[cols[0]] = cols[1]
    return ignore, rep


class OffsetText:
    """Edited text with, per character, its origin; origin[-1] is the end."""

    def __init__(self, text):
        self.chars = list(text)
        self.origin = list(range(len(text) + 1))

    def replace(self, b, e, new):
        e = min(e, len(self.chars))
        ob, oe = self.origin[b], self.origin[e]
        mid = [ob] + [oe] * (len(new) - 1) if new else []
        tail = self.origin[e:]
        if not new and len(tail) > 1:
            tail = [ob] + tail[1:]
        self.chars[b:e] = list(new)
        self.origin = self.origin[:b] + mid + tail

    def text(self):
        return ''.join(self.chars)


def default_rewrite(ot, ignore, rep):
    """Applies the default normalization to an OffsetText."""
    import unicodedata
    text = ot.text()
    maxk = max([len(k) for k in rep] or [0])
    edits = []
    i = 0
    while i < len(text):
        for k in range(min(maxk, len(text) - i), 0, -1):
            r = rep.get(text[i:i + k])
            if r:
                edits.append((i, i + k, r))
                i += k
                break
        else:
            c = text[i]
            low = c.lower()
            new = low if low in ignore else unicodedata.normalize('NFKC', low)
            if new != c:
                edits.append((i, i + 1, new))
            i += 1
    for b, e, r in reversed(edits):
        ot.replace(b, e, r)


def prolonged_rewrite(ot, marks, symbol):
    text = ot.text()
    edits = []
    i = 0
    while i < len(text):
        j = i
        while j < len(text) and text[j] in marks:
            j += 1
        if j - i >= 2:
            edits.append((i, j, symbol))
        i = max(j, i + 1)
    for b, e, r in reversed(edits):
        ot.replace(b, e, r)


# ---------------------------------------------------------------- numerals

DIGITS = {c: i for i, c in enumerate('0123456789')}
DIGITS.update({'〇': 0, '一': 1, '二': 2, '三': 3, '四': 4, '五': 5, '六': 6, '七': 7, '八': 8, '九': 9})
SMALL = {'十': 1, '百': 2, '千': 3}
LARGE = {'万': 4, '億': 8, '兆': 12}
NUMERAL_CHARS = set(DIGITS) | set(SMALL) | set(LARGE)


class _Num:
    """digits * 10**exp; absent when digits is ''"""

    def __init__(self, digits='', exp=0):
        self.digits, self.exp = digits, exp

    def intlen(self):
        return len(self.digits) + self.exp


def _add(a, b):
    """a + b where b must fit into the trailing zero places of a; None if not"""
    if not b.digits:
        return a
    if not a.digits:
        return b
    if a.exp < b.intlen():
        return None
    return _Num(a.digits + '0' * (a.exp - b.intlen()) + b.digits, b.exp)


def numeral_value(s):
    """Exact value of a well-formed numeral as (int digits, exp), or None.

    numeral     := { small-number large-unit } [ small-number ]
    small-number:= { [ decimal ] small-unit } [ decimal ]
    decimal     := digits [ ',' 3 digits ]* [ '.' digits ]
    Every added part must fit in the trailing zero places of what precedes it.
    """
    i, n = 0, len(s)
    total = _Num()
    sub = _Num()
    tmp = _Num()

    def decimal(i):
        """parses a decimal at i: (Num, next) or None if ill formed; Num empty if none"""
        j = i
        while j < n and s[j] in DIGITS:
            j += 1
        if j == i:
            return (_Num(), i)
        digits = s[i:j]
        if j < n and s[j] == ',':
            if len(digits) > 3 or all(DIGITS[c] == 0 for c in digits):
                return None
            while j < n and s[j] == ',':
                k = j + 1
                while k < n and s[k] in DIGITS:
                    k += 1
                if k - (j + 1) != 3:
                    return None
                digits += s[j + 1:k]
                j = k
        exp = 0
        if j < n and s[j] == '.':
            k = j + 1
            while k < n and s[k] in DIGITS:
                k += 1
            if k == j + 1:
                return None
            digits += s[j + 1:k]
            exp = -(k - j - 1)
            j = k
        return (_Num(''.join(str(DIGITS[c]) for c in digits), exp), j)

    while i < n:
        r = decimal(i)
        if r is None:
            return None
        tmp, j = r
        if j == n:
            i = j
            break
        c = s[j]
        if c in SMALL:
            t = _Num(tmp.digits or '1', tmp.exp + SMALL[c])
            sub = _add(sub, t)
            if sub is None:
                return None
            tmp = _Num()
        elif c in LARGE:
            sub = _add(sub, tmp)
            if sub is None or not sub.digits:
                return None
            total = _add(total, _Num(sub.digits, sub.exp + LARGE[c]))
            if total is None:
                return None
            sub = _Num()
            tmp = _Num()
        else:
            return None
        i = j + 1
    sub = _add(sub, tmp)
    if sub is None:
        return None
    total = _add(total, sub)
    if total is None or not total.digits:
        return None
    return total.digits, total.exp


def plain_decimal(digits, exp):
    """Decimal notation: no exponent, no trailing zeros after the point, no hanging
    point; leading zeros of the integer part are kept."""
    if exp >= 0:
        return digits + '0' * exp
    ip, fp = digits[:len(digits) + exp], digits[len(digits) + exp:]
    if len(digits) + exp <= 0:
        ip, fp = '0', '0' * -(len(digits) + exp) + digits
    fp = fp.rstrip('0')
    return ip + '.' + fp if fp else ip
