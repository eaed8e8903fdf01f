"""The documented binary format of dictionaries: an independent parser and writer."""
import struct

SYSTEM_V1 = 0x7366d3f18bd111e7
SYSTEM_V2 = 0xce9f011a92394434
USER_V1 = 0xa50f31188bd211e7
USER_V2 = 0x9fdeb5a90168d868
USER_V3 = 0xca9811756ff64fb0
SYSTEM_VERSIONS = (SYSTEM_V1, SYSTEM_V2)
USER_VERSIONS = (USER_V1, USER_V2, USER_V3)


def has_grammar(v):
    return v != USER_V1


def has_synonyms(v):
    return v in (SYSTEM_V2, USER_V3)


class Reader:
    def __init__(self, data, at=0):
        self.data, self.at = data, at

    def get(self, fmt):
        v = struct.unpack_from('<' + fmt, self.data, self.at)
        self.at += struct.calcsize('<' + fmt)
        return v[0] if len(v) == 1 else v

    def length(self):
        n = self.get('B')
        return n if n < 128 else (n & 127) << 8 | self.get('B')

    def string(self):
        n = self.length()
        raw = self.data[self.at:self.at + 2 * n]
        if len(raw) != 2 * n:
            raise ValueError('string beyond the end')
        self.at += 2 * n
        return raw.decode('utf-16-le')

    def ints(self):
        n = self.get('B')
        v = struct.unpack_from('<%di' % n, self.data, self.at)
        self.at += 4 * n
        return list(v)


class Parsed:
    pass


def parse(data):
    r = Reader(data)
    p = Parsed()
    p.version, p.time = r.get('QQ')
    desc = data[16:272]
    p.description = desc.split(b'\0')[0].decode('utf-8')
    r.at = 272
    p.pos, p.lsize, p.rsize, p.cost = None, 0, 0, {}
    if has_grammar(p.version):
        p.pos = [tuple(r.string() for _ in range(6)) for _ in range(r.get('h'))]
        p.lsize, p.rsize = r.get('hh')
        n = p.lsize * p.rsize
        p.matrix = struct.unpack_from('<%dh' % n, data, r.at)
        r.at += 2 * n
    n = r.get('I')
    p.trie = struct.unpack_from('<%dI' % n, data, r.at)
    r.at += 4 * n
    size = r.get('I')
    p.table = data[r.at:r.at + size]
    r.at += size
    n = r.get('I')
    p.params = [struct.unpack_from('<hhh', data, r.at + 6 * i) for i in range(n)]
    r.at += 6 * n
    p.offsets = struct.unpack_from('<%dI' % n, data, r.at)
    p.infos = []
    for o in p.offsets:
        q = Reader(data, o)
        info = {'surface': q.string(), 'head_len': q.length(), 'pos_id': q.get('h'), 'normalized': q.string(), 'dicform_id': q.get('i'),
                'reading': q.string(), 'a': q.ints(), 'b': q.ints(), 'c': q.ints()}
        info['syn'] = q.ints() if has_synonyms(p.version) else []
        info['normalized'] = info['normalized'] or info['surface']
        info['reading'] = info['reading'] or info['surface']
        p.infos.append(info)
    return p


def connection(p, left, right):
    """left: right ID of the left word; right: left ID of the right word"""
    return p.matrix[left + p.lsize * right]


def _offset(u):
    return (u >> 10) << ((u & (1 << 9)) >> 6)


def trie_get(p, key):
    """Word IDs of a headword (bytes), exact."""
    t = p.trie
    at = _offset(t[0])
    node = 0
    u = t[0]
    for ch in key:
        node ^= _offset(u) ^ ch
        u = t[node]
        if (u & (0x80000000 | 0xff)) != ch:
            return None
    if not (u >> 8) & 1:
        return None
    v = t[node ^ _offset(u)] & 0x7fffffff
    n = p.table[v]
    return list(struct.unpack_from('<%dI' % n, p.table, v + 1))


def trie_keys(p):
    """All keys of the double array, by walking it."""
    t = p.trie
    out = []
    stack = [(0, b'')]
    while stack:
        node, key = stack.pop()
        u = t[node]
        base = node ^ _offset(u)
        if (u >> 8) & 1 and key:
            out.append(key)
        for ch in range(1, 256):
            nxt = base ^ ch
            if nxt < len(t) and (t[nxt] & (0x80000000 | 0xff)) == ch and nxt != 0:
                stack.append((nxt, key + bytes([ch])))
    return out


# ---------------------------------------------------------------- writer

def w_len(n):
    return bytes([n]) if n < 128 else bytes([n >> 8 | 0x80, n & 255])


def w_str(s):
    raw = s.encode('utf-16-le')
    return w_len(len(raw) // 2) + raw


def w_ints(v):
    return bytes([len(v)]) + struct.pack('<%di' % len(v), *v)


def header(version, when=0, description=b''):
    return struct.pack('<QQ', version, when) + description.ljust(256, b'\0')


def write(version, words, pos, lsize=0, rsize=0, matrix=None, when=0, description=b'', pos_id=None, unit=None):
    """words: model.Word objects; pos: the parts of speech of this dictionary; unit: (own, index) -> the number to store."""
    from dartsclone import DoubleArray
    out = bytearray(header(version, when, description))
    if has_grammar(version):
        out += struct.pack('<h', len(pos))
        for p in pos:
            for s in p:
                out += w_str(s)
        out += struct.pack('<hh', lsize, rsize)
        cells = [0] * (lsize * rsize)
        for (l, r), c in (matrix or {}).items():
            cells[l + lsize * r] = c
        out += struct.pack('<%dh' % len(cells), *cells)
    index = {}
    for i, w in enumerate(words):
        if w.indexed:
            index.setdefault(w.headword.encode('utf-8'), []).append(i)
    table = bytearray()
    keys, vals = [], []
    for k in sorted(index):
        keys.append(k)
        vals.append(len(table))
        table += bytes([len(index[k])]) + struct.pack('<%dI' % len(index[k]), *index[k])
    trie = DoubleArray()
    trie.build(keys, lengths=[len(k) for k in keys], values=vals)
    out += struct.pack('<I', trie.size()) + trie.array()
    out += struct.pack('<I', len(table)) + table
    out += struct.pack('<I', len(words))
    for w in words:
        out += struct.pack('<hhh', w.left, w.right, w.cost)
    at = len(out)
    infos = bytearray()
    offsets = []
    base = at + 4 * len(words)
    for w in words:
        offsets.append(base + len(infos))
        infos += w_str(w.surface) + w_len(w.head_len) + struct.pack('<h', pos_id(w.pos))
        infos += w_str('' if w.normalized == w.surface else w.normalized) + struct.pack('<i', w.dicform_id)
        infos += w_str('' if w.reading == w.surface else w.reading)
        for units in (w.a, w.b, w.c):
            infos += w_ints([unit(u) for u in units])
        if has_synonyms(version):
            infos += w_ints(w.syn)
    out += struct.pack('<%dI' % len(offsets), *offsets) + infos
    return bytes(out)
