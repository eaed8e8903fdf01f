"""An independent reference model of the documented behaviour.

Nothing here imports the code under test.  The model works on the *sources* (CSV, matrix.def,
char.def, unk.def, rewrite.def, JSON settings), never on files or objects made by the code under test.
"""
import csv
import io
import re
import unicodedata

CATEGORY_ORDER = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC',
                  'GREEK', 'CYRILLIC', 'USER1', 'USER2', 'USER3', 'USER4', 'NOOOVBOW']
INHIBITED = 0x7fff
U_FLAG = 1 << 28


# ---------------------------------------------------------------- source files

def unescape(s):
    return re.sub(r'\\u(?:([0-9a-fA-F]{4})|\{([0-9a-fA-F]+)\})', lambda m: chr(int(m.group(1) or m.group(2), 16)), s)


class Word:
    __slots__ = ('headword', 'left', 'right', 'cost', 'surface', 'pos', 'reading', 'normalized', 'dicform_id',
                 'a', 'b', 'c', 'syn', 'indexed', 'dicform', 'head_len', 'raw_reading')

    def __repr__(self):
        return 'Word(%s)' % ', '.join('%s=%r' % (k, getattr(self, k, None)) for k in self.__slots__)


def parse_words(texts):
    """texts: the CSV sources in order.  Splits stay unresolved strings."""
    words = []
    for text in texts:
        for row in csv.reader(io.StringIO(text, newline='')):
            w = Word()
            d = [unescape(c) for c in row[:15]]
            w.headword = d[0]
            w.indexed = d[1] != '-1'
            w.left, w.right, w.cost = int(d[1]), int(d[2]), int(d[3])
            w.surface = d[4]
            w.pos = tuple(d[5:11])
            w.raw_reading = d[11]
            w.reading = d[11] or w.surface
            w.normalized = d[12] or w.surface
            w.dicform_id = -1 if d[13] == '*' else int(d[13])
            w.a, w.b, w.c = row[15:18]
            w.syn = [] if len(row) < 19 or row[18] == '*' else [int(x) for x in row[18].split('/')]
            w.head_len = len(w.headword.encode('utf-8'))
            words.append(w)
    return words


class Dic:
    """One dictionary: its words with everything resolved; splits become (is_user, index) pairs."""

    def __init__(self, texts, system=None):
        self.words = parse_words(texts)
        self.system = system
        own_pos = []
        known = list(system.pos) if system else []
        for w in self.words:
            if w.pos not in known and w.pos not in own_pos:
                own_pos.append(w.pos)
        self.pos = own_pos
        for w in self.words:
            w.dicform = self.words[w.dicform_id].surface if w.dicform_id >= 0 else w.surface
        for w in self.words:
            w.a, w.b, w.c = (self.resolve(s) for s in (w.a, w.b, w.c))
        self.index = {}
        for i, w in enumerate(self.words):
            if w.indexed:
                self.index.setdefault(w.headword.encode('utf-8'), []).append(i)
        self.max_key = max([len(k) for k in self.index], default=0)

    def find(self, surface, pos, reading, built=False):
        """The first word with these; among the sources an empty reading is no reading, once built it is the surface."""
        for i, w in enumerate(self.words):
            if w.surface == surface and w.pos == pos and (w.reading if built else w.raw_reading) == reading:
                return i
        return None

    def resolve(self, s):
        if s == '*':
            return []
        out = []
        for unit in s.split('/'):
            if re.fullmatch(r'U?[0-9]+', unit):
                own = unit.startswith('U') or self.system is None
                out.append((own and self.system is not None, int(unit.lstrip('U'))))
                continue
            cols = [unescape(c) for c in unit.split(',')]
            key = (cols[0], tuple(cols[1:7]), cols[7])
            i = self.find(*key)
            if i is not None:
                out.append((self.system is not None, i))
            else:
                i = self.system.find(*key, built=True)
                if i is None:
                    raise ValueError('unresolved unit %r' % unit)
                out.append((False, i))
        return out

    def prefixes(self, data, offset):
        """(index, end) of all indexed words that start at offset, shortest first, then in order of the source."""
        for n in range(1, min(self.max_key, len(data) - offset) + 1):
            for i in self.index.get(data[offset:offset + n], ()):
                yield i, offset + n


def parse_matrix(text):
    lines = text.split('\n')
    lsize, rsize = (int(x) for x in lines[0].split())
    m = {}
    for line in lines[1:]:
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        cols = line.split()
        if len(cols) < 3:
            continue
        l, r, c = (int(x) for x in cols)
        m[l, r] = c
    return lsize, rsize, m


class CharDef:
    def __init__(self, text):
        self.ranges = []
        self.props = {}
        for line in text.split('\n'):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            cols = line.split()
            if cols[0].startswith('0x'):
                lo, _, hi = cols[0].partition('..')
                lo = int(lo, 16)
                hi = int(hi, 16) if hi else lo
                cats = []
                for c in cols[1:]:
                    if c.startswith('#'):
                        break
                    cats.append(c)
                self.ranges.append((lo, hi, frozenset(cats)))
            else:
                self.props[cols[0]] = (cols[1] != '0', cols[2] != '0', int(cols[3]))
        self.memo = {}

    def categories(self, ch):
        got = self.memo.get(ch)
        if got is None:
            cp = ord(ch)
            cats = set()
            hit = False
            for lo, hi, cs in self.ranges:
                if lo <= cp <= hi:
                    cats |= cs
                    hit = True
            got = frozenset(cats) if hit else frozenset(['DEFAULT'])
            self.memo[ch] = got
        return got


def parse_unk(text):
    unk = {}
    for line in text.split('\n'):
        line = line.strip()
        if not line:
            continue
        cols = line.split(',')
        unk.setdefault(cols[0], []).append((int(cols[1]), int(cols[2]), int(cols[3]), tuple(cols[4:10])))
    return unk


class Rewrite:
    def __init__(self, text):
        self.ignore = set()
        self.table = {}
        for line in text.split('\n'):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            cols = line.split()
            if len(cols) == 1:
                self.ignore.add(cols[0])
            else:
                self.table[cols[0]] = cols[1]
        self.longest = max([len(k) for k in self.table], default=0)

    def edits(self, text):
        """The (begin, end, replacement) edits, left to right, on the text as it is."""
        out = []
        i = 0
        while i < len(text):
            for n in range(min(self.longest, len(text) - i), 0, -1):
                if text[i:i + n] in self.table:
                    out.append((i, i + n, self.table[text[i:i + n]]))
                    i += n
                    break
            else:
                ch = text[i]
                low = ch.lower()
                new = low if low in self.ignore else unicodedata.normalize('NFKC', low)
                if new != ch:
                    out.append((i, i + 1, new))
                i += 1
        return out


def psm_edits(text, marks, symbol):
    out = []
    i = 0
    while i < len(text):
        j = i
        while j < len(text) and text[j] in marks:
            j += 1
        if j - i >= 2:
            out.append((i, j, symbol))
        i = max(j, i + 1)
    return out


# ---------------------------------------------------------------- input text

class MText:
    """A text with, for each of its characters (and its end), the index in the original text."""

    def __init__(self, text):
        self.original = text
        self.chars = text
        self.origin = list(range(len(text) + 1))

    def apply(self, edits):
        chars, origin = [], []
        at = 0
        for b, e, new in edits:
            chars.append(self.chars[at:b])
            origin.extend(self.origin[at:b])
            chars.append(new)
            origin.extend([self.origin[b]] + [self.origin[e]] * (len(new) - 1) if new else [])
            at = e
        chars.append(self.chars[at:])
        origin.extend(self.origin[at:])
        self.chars = ''.join(chars)
        self.origin = origin
        return self

    def finish(self, chardef):
        t = self.chars
        self.data = t.encode('utf-8')
        self.start = []          # byte offset of each character, and of the end
        n = 0
        for ch in t:
            self.start.append(n)
            n += len(ch.encode('utf-8'))
        self.start.append(n)
        self.char_at = {b: i for i, b in enumerate(self.start)}
        self.cats = [chardef.categories(ch) for ch in t]
        self.run_end = [0] * len(t)     # end (character index) of the run of characters that share a category
        i = 0
        while i < len(t):
            common = set(self.cats[i])
            j = i + 1
            while j < len(t) and common & self.cats[j]:
                common &= self.cats[j]
                j += 1
            for k in range(i, j):
                self.run_end[k] = j
            i = j
        self.bow = []
        for i in range(len(t)):
            if i and self.cats[i] & {'ALPHA', 'GREEK', 'CYRILLIC'}:
                self.bow.append(not (self.cats[i] & self.cats[i - 1]))
            else:
                self.bow.append(True)
        return self

    def can_end(self, byte):
        if byte == len(self.data):
            return True
        i = self.char_at.get(byte)
        return i is not None and self.bow[i]

    def range_categories(self, b, e):
        """Categories shared by the whole span (in characters), or nothing when it exceeds a run."""
        if e > self.run_end[b]:
            return frozenset()
        common = set(self.cats[b])
        for i in range(b, e):
            common &= self.cats[i]
        return common


# ---------------------------------------------------------------- candidates and best path

class Cand:
    __slots__ = ('b', 'e', 'left', 'right', 'cost', 'dic', 'word', 'pos', 'total')

    def __init__(self, b, e, left, right, cost, dic, word, pos):
        self.b, self.e, self.left, self.right, self.cost = b, e, left, right, cost
        self.dic, self.word, self.pos = dic, word, pos

    def key(self):
        return (self.b, self.e, self.left, self.right, self.cost, self.dic, self.word, self.pos)


class NoMorpheme(Exception):
    pass


class NotConnected(Exception):
    pass


class World:
    """A complete configuration: sources + settings."""

    def __init__(self, sys_texts, matrix_text, chardef_text, rewrite_text, settings, user_texts=(), mecab_chardef=None, unk_text=None, mecab_files=None):
        self.system = Dic(sys_texts)
        self.lsize, self.rsize, self.matrix = parse_matrix(matrix_text)
        self.chardef = CharDef(chardef_text)
        self.settings = settings
        self.rewrite = Rewrite(rewrite_text)
        self.mecab_props = CharDef(mecab_chardef).props if mecab_chardef is not None else None
        self.unk = parse_unk(unk_text) if unk_text is not None else None
        # further definitions, for settings with several MeCab providers: name of a file -> its text
        self.mecab_files = {k: CharDef(v).props if k.split('/')[-1].startswith('mchar') else parse_unk(v) for k, v in (mecab_files or {}).items()}
        self.pos = list(self.system.pos)
        self.dics = [self.system]
        for texts in user_texts:
            self.add_user(texts)

    # -- dictionaries
    def add_user(self, texts):
        d = Dic(texts, self.system)
        for w in d.words:
            if w.cost == -32768:
                w.cost = self.auto_cost(w.surface)
        self.dics.append(d)
        self.pos.extend(d.pos)
        return d

    def auto_cost(self, surface):
        if not surface:
            return None
        # Only the costs of the first and the last morpheme and the number of morphemes count.  The analysis
        # takes part in this, so that with ties there may be several right answers: give them all.
        return AutoCost(self, surface)

    def conn(self, left_node_right, right_node_left):
        return self.matrix.get((left_node_right, right_node_left), 0)

    # -- input
    def input(self, text):
        t = MText(text)
        for p in self.settings.get('inputTextPlugin', []):
            if p['class'].endswith('DefaultInputTextPlugin'):
                t.apply(self.rewrite.edits(t.chars))
            else:
                t.apply(psm_edits(t.chars, set(p.get('prolongedSoundMarks', [])), p.get('replacementSymbol', 'ー')))
        return t.finish(self.chardef)

    # -- candidates
    def oov(self, plugin, t, i, has_words):
        if plugin['class'].endswith('MeCabOovProviderPlugin'):
            return self.mecab_oov(t, i, has_words, self.mecab_files.get(plugin['charDef'], self.mecab_props), self.mecab_files.get(plugin['unkDef'], self.unk))
        if has_words:
            return []
        j = i + 1
        while j < len(t.chars) and not t.bow[j]:
            j += 1
        return [Cand(t.start[i], t.start[j], plugin['leftId'], plugin['rightId'], plugin['cost'], -1, None, tuple(plugin['oovPOS']))]

    def mecab_oov(self, t, i, has_words, props, unk):
        out = []
        run = t.run_end[i]
        for cat in CATEGORY_ORDER:
            if cat not in t.cats[i] or cat not in props or cat not in unk:
                continue
            invoke, group, length = props[cat]
            if has_words and not invoke:
                continue
            if group:
                for l, r, c, pos in unk[cat]:
                    out.append(Cand(t.start[i], t.start[run], l, r, c, -1, None, pos))
            # the word of the whole run is there already
            for n in range(1, length + 1):
                j = i + n
                if j > run - (1 if group else 0):
                    break
                for l, r, c, pos in unk[cat]:
                    out.append(Cand(t.start[i], t.start[j], l, r, c, -1, None, pos))
        return out

    def lexical(self, t, i):
        out = []
        b = t.start[i]
        order = list(range(1, len(self.dics))) + [0]
        for d in order:
            for w, e in self.dics[d].prefixes(t.data, b):
                if t.can_end(e):
                    word = self.dics[d].words[w]
                    cost = word.cost
                    out.append(Cand(b, e, word.left, word.right, cost, d, w, word.pos))
        return out

    def candidates_at(self, t, i):
        out = self.lexical(t, i)
        has = bool(out)
        plugins = self.settings.get('oovProviderPlugin', [])
        if 'NOOOVBOW' not in t.cats[i]:
            for p in plugins:
                new = [c for c in self.oov(p, t, i, has) if t.can_end(c.e)]
                has = has or bool(new)
                out += new
        if not has and plugins:
            new = self.oov(plugins[-1], t, i, False)
            has = bool(new)
            out += new
        return out

    def lattice(self, t):
        """All candidates, by begin (character index), at the positions a morpheme can reach."""
        ends = {0}
        by_begin = {}
        for i in range(len(t.chars)):
            b = t.start[i]
            if b not in ends or not (t.bow[i]):
                continue
            cands = self.candidates_at(t, i)
            if not cands:
                raise NoMorpheme(b)
            by_begin[b] = cands
            for c in cands:
                ends.add(c.e)
        return by_begin

    def best_cost(self, t, by_begin=None):
        """Least total cost (BOS and EOS included); raises NotConnected."""
        by_begin = self.lattice(t) if by_begin is None else by_begin
        best = {0: {0: 0}}      # byte position -> right id -> least cost of a path that ends so
        for b in sorted(by_begin):
            here = best.get(b)
            if not here:
                continue
            memo = {}
            for c in by_begin[b]:
                m = memo.get(c.left)
                if m is None:
                    m = None
                    for r, tot in here.items():
                        k = self.conn(r, c.left)
                        if k == INHIBITED:
                            continue
                        if m is None or tot + k < m:
                            m = tot + k
                    memo[c.left] = m if m is not None else False
                if m is None or m is False:
                    continue
                at = best.setdefault(c.e, {})
                v = m + cost_of(c)
                if c.right not in at or v < at[c.right]:
                    at[c.right] = v
        final = best.get(len(t.data), {})
        vals = [tot + self.conn(r, 0) for r, tot in final.items() if self.conn(r, 0) != INHIBITED]
        if not vals:
            raise NotConnected()
        return min(vals)

    def path_cost(self, path):
        """Cost of a path of (left, right, cost) triples, None when it uses an inhibited connection."""
        total, r = 0, 0
        for left, right, cost in path:
            k = self.conn(r, left)
            if k == INHIBITED:
                return None
            total += k + cost
            r = right
        k = self.conn(r, 0)
        if k == INHIBITED:
            return None
        return total + k

    def word(self, dic, idx):
        return self.dics[dic].words[idx]

    def unit(self, dic, unit):
        """A unit of a word of dictionary dic -> (dic, idx)"""
        own, idx = unit
        return (dic if own else 0, idx)


class AutoCost:
    """The set of costs an automatic cost may have (a set only because of ties)."""

    def __init__(self, world, surface):
        t = world.input(surface)
        self.values = all_auto_costs(world, t)

    def __repr__(self):
        return 'AutoCost(%r)' % (sorted(self.values),)


def cost_of(c):
    if isinstance(c.cost, AutoCost):
        if len(c.cost.values) != 1:
            raise AmbiguousCost()
        return next(iter(c.cost.values))
    return c.cost


class AmbiguousCost(Exception):
    pass


def all_auto_costs(world, t):
    """last cost - first cost - 20 * morphemes, clipped, for every least-cost path."""
    by_begin = world.lattice(t)
    INF = None
    # forward: state (byte, right id) -> (cost, set of (first cost, last cost, count))
    best = {0: {0: (0, {(None, None, 0)})}}
    for b in sorted(by_begin):
        here = best.get(b)
        if not here:
            continue
        for c in by_begin[b]:
            cc = cost_of(c)
            m, s = None, set()
            for r, (tot, hist) in here.items():
                k = world.conn(r, c.left)
                if k == INHIBITED:
                    continue
                if m is None or tot + k < m:
                    m, s = tot + k, set(hist)
                elif tot + k == m:
                    s |= hist
            if m is None:
                continue
            new = {(f if f is not None else cc, cc, n + 1) for f, l, n in s}
            at = best.setdefault(c.e, {})
            v = m + cc
            if c.right not in at or v < at[c.right][0]:
                at[c.right] = (v, new)
            elif v == at[c.right][0]:
                at[c.right] = (v, at[c.right][1] | new)
    m, s = None, set()
    for r, (tot, hist) in best.get(len(t.data), {}).items():
        k = world.conn(r, 0)
        if k == INHIBITED:
            continue
        if m is None or tot + k < m:
            m, s = tot + k, set(hist)
        elif tot + k == m:
            s |= hist
    if m is None:
        raise NotConnected()
    out = set()
    for f, l, n in s:
        out.add(max(-32768, min(32767, l - f - 20 * n)))
    return out
