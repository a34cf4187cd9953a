"""Independent implementation of the binary dictionary format (written from the
published format, sharing no code with sudachipy).

Entry: a plain dict
  head    headword (trie key, UTF-8)
  left, right, cost
  surface display form, pos index into the POS list, norm, dform (-1 or id),
  reading, a, b, ws: lists of raw 32-bit ids, syn: list of ints
"""
import struct

SYSTEM_V1 = 0x7366d3f18bd111e7
SYSTEM_V2 = 0xce9f011a92394434
USER_V1 = 0xa50f31188bd211e7
USER_V2 = 0x9fdeb5a90168d868
USER_V3 = 0xca9811756ff64fb0
ALL = {'S1': SYSTEM_V1, 'S2': SYSTEM_V2, 'U1': USER_V1, 'U2': USER_V2, 'U3': USER_V3}
HAS_GRAMMAR = {SYSTEM_V1, SYSTEM_V2, USER_V2, USER_V3}
HAS_SYN = {SYSTEM_V2, USER_V3}


def entry(head, left=0, right=0, cost=0, surface=None, pos=0, norm=None, dform=-1, reading=None,
          a=(), b=(), ws=(), syn=()):
    surface = head if surface is None else surface
    return dict(head=head, left=left, right=right, cost=cost, surface=surface, pos=pos,
                norm=surface if norm is None else norm, dform=dform,
                reading=surface if reading is None else reading,
                a=list(a), b=list(b), ws=list(ws), syn=list(syn))


def _length(n):
    if n < 128:
        return bytes([n])
    if n > 32767:
        raise ValueError(n)
    return bytes([0x80 | (n >> 8), n & 255])


def _string(s):
    raw = s.encode('utf-16-le')
    return _length(len(raw) // 2) + raw


def _array(xs):
    return bytes([len(xs)]) + b''.join(struct.pack('<I', x & 0xffffffff) for x in xs)


def encode_grammar(pos_list, lsize, rsize, matrix):
    """matrix: {(right id of the left word, left id of the right word): cost}"""
    out = [struct.pack('<h', len(pos_list))]
    for p in pos_list:
        assert len(p) == 6
        out.extend(_string(x) for x in p)
    out.append(struct.pack('<hh', lsize, rsize))
    cells = [0] * (lsize * rsize)
    for (l, r), c in matrix.items():
        cells[l + lsize * r] = c
    out.append(struct.pack('<%dh' % len(cells), *cells))
    return b''.join(out)


def encode_header(version, time=0, desc=''):
    d = desc.encode('utf-8')
    assert len(d) <= 256
    return struct.pack('<QQ', version, time) + d + b'\0' * (256 - len(d))


def encode_info(version, e):
    raw = _string(e['surface']) + _length(len(e['head'].encode('utf-8')))
    raw += struct.pack('<h', e['pos'])
    raw += _string('' if e['norm'] == e['surface'] else e['norm'])
    raw += struct.pack('<i', e['dform'])
    raw += _string('' if e['reading'] == e['surface'] else e['reading'])
    raw += _array(e['a']) + _array(e['b']) + _array(e['ws'])
    if version in HAS_SYN:
        raw += _array(e['syn'])
    return raw


def encode(version, entries, pos_list=(), lsize=0, rsize=0, matrix=None, time=0, desc=''):
    from dartsclone import DoubleArray
    out = bytearray(encode_header(version, time, desc))
    if version in HAS_GRAMMAR:
        out += encode_grammar(pos_list, lsize, rsize, matrix or {})
    keys = {}
    for i, e in enumerate(entries):
        if e['left'] != -1:
            keys.setdefault(e['head'].encode('utf-8'), []).append(i)
    table = bytearray()
    ks, vs = [], []
    for k in sorted(keys):
        ks.append(k)
        vs.append(len(table))
        table += bytes([len(keys[k])]) + struct.pack('<%dI' % len(keys[k]), *keys[k])
    trie = DoubleArray()
    trie.build(ks, lengths=[len(k) for k in ks], values=vs)
    arr = trie.array()
    out += struct.pack('<I', trie.size()) + bytes(arr)[:trie.size() * 4]
    out += struct.pack('<I', len(table)) + table
    out += struct.pack('<I', len(entries))
    for e in entries:
        out += struct.pack('<hhh', e['left'], e['right'], e['cost'])
    infos = []
    base = len(out) + 4 * len(entries)
    offs = []
    for e in entries:
        offs.append(base)
        raw = encode_info(version, e)
        infos.append(raw)
        base += len(raw)
    out += struct.pack('<%dI' % len(offs), *offs)
    for raw in infos:
        out += raw
    return bytes(out)


def encode_placed(f, version, entries, pos_list, lsize, rsize, matrix, pad_trie, gap_table, place):
    """Writes a (sparse) image to the file f, with a matrix of any size: pad_trie unused units behind the trie, word id lists from index gap_table of
    their table on, and the information of the entries at the positions `place` (None: at once behind the offsets)."""
    from dartsclone import DoubleArray
    f.write(encode_header(version, 0, ''))
    if version in HAS_GRAMMAR:
        f.write(encode_grammar(pos_list, 0, 0, {})[:-4] + struct.pack('<hh', lsize, rsize))
        at = f.tell()
        for (l, r), c in matrix.items():
            f.seek(at + 2 * (l + lsize * r))
            f.write(struct.pack('<h', c))
        f.seek(at + 2 * lsize * rsize)
    ks = sorted({e['head'].encode('utf-8') for e in entries if e['left'] != -1})
    vs, table = [], bytearray()
    for k in ks:
        ids = [i for i, e in enumerate(entries) if e['left'] != -1 and e['head'].encode('utf-8') == k]
        vs.append(gap_table + len(table))
        table += bytes([len(ids)]) + struct.pack('<%dI' % len(ids), *ids)
    trie = DoubleArray()
    trie.build(ks, lengths=[len(k) for k in ks], values=vs)
    f.write(struct.pack('<I', trie.size() + pad_trie) + bytes(trie.array())[:trie.size() * 4])
    f.seek(pad_trie * 4, 1)
    f.write(struct.pack('<I', gap_table + len(table)))
    f.seek(gap_table, 1)
    f.write(bytes(table) + struct.pack('<I', len(entries)))
    for e in entries:
        f.write(struct.pack('<hhh', e['left'], e['right'], e['cost']))
    at = f.tell()
    pos = at + 4 * len(entries)
    for i, e in enumerate(entries):
        raw = encode_info(version, e)
        p = place[i]
        if p is None:
            p = pos
            pos += len(raw)
        f.seek(at + 4 * i)
        f.write(struct.pack('<I', p))
        f.seek(p)
        f.write(raw)


class FormatError(Exception):
    pass


class Decoded:
    pass


def trie_items(units):
    """All (key, value) pairs of a Darts-clone double array."""
    out = []

    def offset(u):
        return (u >> 10) << ((u & (1 << 9)) >> 6)

    n = len(units)
    if n == 0:
        return out
    stack = [(0, b'')]
    while stack:
        pos, key = stack.pop()
        unit = units[pos]
        base = pos ^ offset(unit)
        if (unit >> 8) & 1:
            leaf = units[base]
            out.append((key, leaf & 0x7fffffff))
        for c in range(1, 256):
            q = base ^ c
            if q < n and (units[q] & 0x800000ff) == c:
                stack.append((q, key + bytes([c])))
    out.sort()
    return out


def decode(data):
    """Complete decoding of a dictionary image; every byte must be accounted for."""
    d = Decoded()
    d.version, d.time = struct.unpack_from('<QQ', data, 0)
    desc = data[16:272]
    d.desc = desc.split(b'\0', 1)[0].decode('utf-8')
    if d.version not in ALL.values():
        raise FormatError('version %x' % d.version)
    p = 272

    def short():
        nonlocal p
        v = struct.unpack_from('<h', data, p)[0]
        p += 2
        return v

    def u32():
        nonlocal p
        v = struct.unpack_from('<I', data, p)[0]
        p += 4
        return v

    def i32():
        nonlocal p
        v = struct.unpack_from('<i', data, p)[0]
        p += 4
        return v

    def length():
        nonlocal p
        n = data[p]
        p += 1
        if n & 0x80:
            n = ((n & 0x7f) << 8) | data[p]
            p += 1
        return n

    def string():
        nonlocal p
        n = length()
        raw = data[p:p + 2 * n]
        if len(raw) != 2 * n:
            raise FormatError('string beyond the end')
        p += 2 * n
        return raw.decode('utf-16-le')

    def arr():
        nonlocal p
        n = data[p]
        p += 1
        v = list(struct.unpack_from('<%di' % n, data, p))
        p += 4 * n
        return v

    d.pos_list = []
    d.lsize = d.rsize = 0
    d.cells = []
    if d.version in HAS_GRAMMAR:
        for _ in range(short()):
            d.pos_list.append(tuple(string() for _ in range(6)))
        d.lsize, d.rsize = short(), short()
        n = d.lsize * d.rsize
        d.cells = list(struct.unpack_from('<%dh' % n, data, p))
        p += 2 * n
    n = u32()
    units = struct.unpack_from('<%dI' % n, data, p)
    p += 4 * n
    size = u32()
    table = data[p:p + size]
    p += size
    d.index = {}
    covered = 0
    for key, val in trie_items(units):
        if val >= size:
            raise FormatError('trie value outside the id table')
        c = table[val]
        d.index[key] = list(struct.unpack_from('<%dI' % c, table, val + 1))
        covered += 1 + 4 * c
    if covered != size:
        raise FormatError('id table has %d bytes, %d are referenced' % (size, covered))
    n = u32()
    params = []
    for _ in range(n):
        params.append((short(), short(), short()))
    offs = [u32() for _ in range(n)]
    d.entries = []
    end = p
    for i in range(n):
        p = offs[i]
        e = {}
        e['left'], e['right'], e['cost'] = params[i]
        e['surface'] = string()
        e['head_len'] = length()
        e['pos'] = short()
        e['norm'] = string() or e['surface']
        e['dform'] = i32()
        e['reading'] = string() or e['surface']
        e['a'], e['b'], e['ws'] = arr(), arr(), arr()
        e['syn'] = arr() if d.version in HAS_SYN else []
        d.entries.append(e)
        end = max(end, p)
    d.end = end
    d.size = len(data)
    return d


def cost_of(d, left_right_id, right_left_id):
    return d.cells[left_right_id + d.lsize * right_left_id]
