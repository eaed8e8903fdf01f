"""Random texts, sources and settings."""
import csv
import io
import json

HIRA = 'あいうかがきくこさたなにのはばぱまゃやらをん'
KATA = 'アイウカガキクコサタナニノハバパマャヤラヲンー'
KANJI = '東京都行政大学人木山川日本語国'
KNUM = '〇一二三五九十百千万億兆'
DIGIT = '0123456789'
LATIN = 'abcdexyzABCXYZ'
LATIN2 = 'éÀß'
GREEK = 'αβωΣΩ'
CYR = 'яжЖЯ'
SYM = '。、！？!?・「」()-,.'
SPACE = ' \u3000\t'
ASTRAL = '𠮟𠀋😀𝄞🍣'
WIDE = 'ＡＢｃ１２３．，'
HALF = 'ｱｶﾞﾊﾟｰｳﾞ'
COMPAT = '㍿㌔ﬁ①㊤½ⅢⅳＡ㎏'
SPECIAL = 'İıſKǅ\u0301\u3099\u309aだｶﾞか\u3099'
CTRL = '\x00\x01\n\r\x7f\u200b\ufeff\u2028\uffff\U0010ffff\u0085'
PSM = 'ー-⁓〜〰'
POOLS = [HIRA, KATA, KANJI, KNUM, DIGIT, LATIN, LATIN2, GREEK, CYR, SYM, SPACE, ASTRAL, WIDE, HALF, COMPAT, SPECIAL, CTRL, PSM]
TEXTPOOLS = [HIRA, HIRA, KATA, KATA, KANJI, KANJI, KNUM, DIGIT, DIGIT, LATIN, LATIN, LATIN2, GREEK, CYR, SYM, SPACE, ASTRAL, WIDE, HALF,
             COMPAT, SPECIAL, CTRL, PSM]

POS_OOV = ('名詞', '普通名詞', '一般', '*', '*', '*')
POS_NUM = ('名詞', '数詞', '*', '*', '*', '*')
POS_SYM = ('補助記号', '一般', '*', '*', '*', '*')
POS_EXTRA = [('助詞', '格助詞', '*', '*', '*', '*'), ('動詞', '一般', '*', '*', '五段-カ行', '終止形-一般'),
             ('助動詞', '*', '*', '*', '助動詞-タ', '終止形-一般'), ('名詞', '固有名詞', '地名', '一般', '*', '*'),
             ('空白', '*', '*', '*', '*', '*'), ('接尾辞', '名詞的', '一般', '*', '*', '*'), ('感動詞', '', '一般', '*', '*', '𠮟')]

POS_NEAR = [('Xa', 'b', '*', '*', '*', '*'), ('xa', 'b', '*', '*', '*', '*'), ('xA', 'B', '*', '*', '*', '*'), ('x', 'ab', '*', '*', '*', '*'),
            ('xab', '', '*', '*', '*', '*'), ('xa', ' b', '*', '*', '*', '*'), ('xa', 'b ', '*', '*', '*', '*'), ('ｘａ', 'b', '*', '*', '*', '*'),
            ('xa', 'b', '*', '*', '', '*'), ('ガ', 'b', '*', '*', '*', '*'), ('カ\u3099', 'b', '*', '*', '*', '*'), ('xa', '*', 'b', '*', '*', '*')]

CATS = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC',
        'USER1', 'USER2', 'USER3', 'USER4']


def pick_run(rng, lo=1, hi=4):
    pool = rng.choice(TEXTPOOLS)
    return ''.join(rng.choice(pool) for _ in range(rng.randint(lo, hi)))


def any_char(rng):
    while True:
        r = rng.random()
        if r < 0.3:
            cp = rng.randrange(0x20, 0x250)
        elif r < 0.6:
            cp = rng.randrange(0x3000, 0x30ff + 1)
        elif r < 0.75:
            cp = rng.randrange(0x250, 0x10000)
        elif r < 0.85:
            cp = rng.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0xfffff, 0x100000, 0x10ffff])
        else:
            cp = rng.randrange(0x10000, 0x110000)
        if not 0xd800 <= cp < 0xe000:
            return chr(cp)


def text(rng, words=(), lo=0, hi=12, wild=0.1):
    """A text of about lo..hi pieces: words of the dictionary, runs of one script, wild characters."""
    out = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if words and r < 0.55:
            out.append(rng.choice(words))
        elif r < 1 - wild:
            out.append(pick_run(rng))
        else:
            out.append(any_char(rng))
    if out and rng.random() < 0.015:
        # a long run of one script
        pool = rng.choice([HIRA, KATA, KANJI, LATIN, DIGIT, HALF])
        out.insert(rng.randint(0, len(out)), ''.join(rng.choice(pool) for _ in range(rng.choice([20, 40, 100]))))
    return ''.join(out)


def csv_text(rows, crlf=False):
    f = io.StringIO()
    csv.writer(f, lineterminator='\r\n' if crlf else '\n').writerows(rows)
    return f.getvalue()


def escape_some(rng, s, p=0.1):
    """Write some characters as \\u literals."""
    if rng.random() > 0.3:
        return s
    out = []
    for ch in s:
        if rng.random() < p:
            cp = ord(ch)
            k = rng.randrange(3)
            if k == 0 and cp <= 0xffff:
                out.append('\\u%04x' % cp)
            elif k == 1:
                out.append('\\u{%X}' % cp)
            else:
                out.append('\\u{%08x}' % cp)
        else:
            out.append(ch)
    return ''.join(out)


def headword(rng):
    r = rng.random()
    if r < 0.6:
        pool = rng.choice([HIRA, KATA, KANJI, KNUM, DIGIT, LATIN.lower(), SYM, HIRA + KANJI])
        return ''.join(rng.choice(pool) for _ in range(rng.randint(1, 3)))
    if r < 0.8:
        return pick_run(rng, 1, 2) .replace('\x00', '') .replace('\r', '').replace('\n', '') or 'あ'
    if r < 0.9:
        return rng.choice([ASTRAL[0], ASTRAL[2] + 'a', 'か\u3099', '2', '.', ',', '1', '12'])
    return pick_run(rng, 1, 2).replace('\x00', '').replace('\r', '').replace('\n', '') + rng.choice(HIRA)


class LexGen:
    """Rows of a lexicon; splits are made from words that concatenate to the headword."""

    def __init__(self, rng, lsize, rsize, pos, is_user=False, base=None, normalized_heads=True, max_cost=10000, esc=True):
        self.rng, self.lsize, self.rsize, self.pos = rng, lsize, rsize, list(pos)
        self.is_user, self.base = is_user, base
        self.rows = []
        self.max_cost = max_cost
        self.esc = esc
        self.units = []     # (own, index, headword, row)

    def params(self):
        rng = self.rng
        r = rng.random()
        if r < 0.8:
            cost = rng.randint(-2000, self.max_cost)
        elif r < 0.9:
            cost = rng.choice([0, 0, 100, 5000])
        else:
            cost = rng.choice([-32767, 32767, -5000, 30000, -1, 1])
        return rng.randrange(self.rsize), rng.randrange(self.lsize), cost

    def add(self, head, surface=None, pos=None, reading=None, normalized=None, dicform='*', mode='A', a='*', b='*', c='*', syn='*',
            indexed=True, params=None):
        left, right, cost = params or self.params()
        if not indexed:
            left = -1
        rng = self.rng
        surface = head if surface is None else surface
        pos = pos or rng.choice(self.pos)
        reading = surface if reading is None else reading
        normalized = surface if normalized is None else normalized
        row = [head, left, right, cost, surface, *pos, reading, normalized, dicform, mode, a, b, c]
        if syn is not None:
            row.append(syn)
        self.rows.append(row)
        return len(self.rows) - 1

    def random_word(self, head=None):
        rng = self.rng
        head = head or headword(rng)
        surface = head if rng.random() < 0.85 else headword(rng)
        reading = surface if rng.random() < 0.3 else ('' if rng.random() < 0.1 else pick_run(rng, 1, 5).replace('\r', '').replace('\n', ''))
        normalized = surface if rng.random() < 0.5 else ('' if rng.random() < 0.1 else headword(rng))
        syn = '*' if rng.random() < 0.6 else '/'.join(str(rng.choice([0, 1, 7, 2 ** 31 - 1, rng.randrange(10 ** 6), rng.choice([-1, -2 ** 31, rng.randrange(-10 ** 6, 2 ** 31)])])) for _ in range(rng.choice([1, 2, 3, 127 if rng.random() < .1 else 4])))
        if rng.random() < 0.1:
            syn = None
        return self.add(head, surface, None, reading, normalized, syn=syn, indexed=rng.random() > 0.05)

    def pool(self):
        """Usable units: (reference text, headword)"""
        out = []
        if self.is_user:
            for i, row in enumerate(self.base.rows):
                out.append((str(i), row))
            for i, row in enumerate(self.rows):
                out.append(('U%d' % i, row))
        else:
            for i, row in enumerate(self.rows):
                out.append((self.rng.choice(['%d', '%d', 'U%d']) % i, row))
        return out

    def inline(self, row):
        """An inline reference head,pos..,reading, or None when the row has no unambiguous one."""
        surface, pos, reading = row[4], row[5:11], row[11]
        if not reading or '\\u' in surface + reading:
            return None
        def esc(s):
            return ''.join('\\u%04x' % ord(ch) if ch in ',/*\\"' else ch for ch in s)
        if any(ch in s for s in pos for ch in ',/'):
            return None
        if '\n' in surface + reading or '\r' in surface + reading:
            return None
        return ','.join([esc(surface)] + list(pos) + [esc(reading)])

    def compose(self, n_units, of=None):
        rng = self.rng
        pool = of or self.pool()
        chosen = [rng.choice(pool) for _ in range(n_units)]
        head = ''.join(row[0] for _, row in chosen)
        return head, chosen

    def ref(self, chosen):
        out = []
        for r, row in chosen:
            if self.rng.random() < 0.2:
                inl = self.inline(row)
                # an inline reference must find this very row: the first that matches, own dictionary first
                if inl is not None and self.first_match(row) is row:
                    r = inl
            out.append(r)
        return '/'.join(out)

    def first_match(self, row):
        key = (row[4], tuple(row[5:11]), row[11])
        found = []
        for rows in ([self.rows, self.base.rows] if self.is_user else [self.rows]):
            found += [r for r in rows if (r[4], tuple(r[5:11]), r[11] or r[4]) == key]
        return found[0] if len(found) == 1 else None

    def composite(self):
        """A word with a B and/or A split; the A split refines the B split."""
        rng = self.rng
        n = rng.randint(2, 3)
        if rng.random() < 0.02:
            # many units
            short = [(r, row) for r, row in self.pool() if len(row[0].encode()) <= 6]
            head, bs = self.compose(rng.choice([8, 17, 33, 65, 100, 127]), short or None)
        else:
            head, bs = self.compose(n)
        if len(head.encode()) > 800:
            return None
        if rng.random() < 0.1:
            head, bs = self.compose(1)
        a_units = []
        for ref, row in bs:
            a_units.append((ref, row))
        kind = rng.random()
        a, b, c = '*', '*', '*'
        if kind < 0.4:
            a = b = self.ref(bs)
        elif kind < 0.7:
            a = self.ref(bs)
        elif kind < 0.85:
            b = self.ref(bs)
        else:
            b = self.ref(bs)
            finer = []
            for r, row in bs:
                finer += self.open_unit(r, row)
            if len(finer) > 127:
                finer = bs
            a = self.ref(finer)
        if rng.random() < 0.5:
            c = self.ref(bs)
        i = self.random_word(head)
        row = self.rows[i]
        row[14], row[15], row[16], row[17] = rng.choice('BC'), a, b, c
        return i

    def open_unit(self, ref, row):
        """The units of the A split of a unit, or the unit itself."""
        if row[15] == '*' or ',' in row[15]:
            return [(ref, row)]
        from_base = self.is_user and any(row is r for r in self.base.rows)
        out = []
        for u in row[15].split('/'):
            n = int(u.lstrip('U'))
            if from_base:
                out.append((str(n), self.base.rows[n]))
            elif self.is_user and not u.startswith('U'):
                out.append((u, self.base.rows[n]))
            else:
                out.append((u, self.rows[n]))
        return out

    def fill(self, n, composites=0):
        rng = self.rng
        for _ in range(n):
            self.random_word(rng.choice(self.rows)[0] if self.rows and rng.random() < 0.15 else None)
        for _ in range(composites):
            self.composite()
        # dictionary forms
        for row in self.rows:
            if rng.random() < 0.25:
                row[13] = rng.randrange(len(self.rows))
            elif rng.random() < 0.05:
                row[13] = -1
        return self

    def many(self, n):
        """n words more, each of its own headword, and some that are made of them."""
        rng = self.rng
        first = len(self.rows)
        for k in range(n):
            head = '巨' + ''.join('あいうえおかきくけこ'[int(c)] for c in str(k))
            i = self.add(head, reading='ヨ%d' % (k % 977), normalized=None if k % 3 else '正%d' % (k % 31), syn='*' if k % 7 else str(k))
            if rng.random() < 0.1:
                self.rows[i][13] = rng.randrange(first + n)
        for _ in range(12):
            self.composite()

    def long_words(self, n=1):
        """n words of long headwords (around 255 bytes, around 128 and 256 characters, and longer), and words that begin like them."""
        rng = self.rng
        heads = []
        for _ in range(n):
            pool = rng.choice([HIRA, KANJI, LATIN.lower(), ASTRAL[:2] + KANJI])
            size = rng.choice([rng.randint(60, 140), rng.randint(250, 262), 128, 256, 86, rng.randint(300, 700)])
            head = ''.join(rng.choice(pool) for _ in range(size))
            heads.append(head)
            self.random_word(head)
            self.add(head[:rng.choice([1, 2, size // 2, size - 1])])
            if rng.random() < 0.4:
                # many words that begin at one place
                for k in sorted(rng.sample(range(1, size), min(size - 1, rng.choice([20, 40, 70, 140, 270])))):
                    self.add(head[:k])
        return heads

    def texts(self, parts=1, crlf=False):
        """The CSV sources (the rows cut into parts)."""
        rng = self.rng
        rows = []
        for row in self.rows:
            row = list(row)
            if self.esc:
                for k in (0, 4, 11, 12):
                    if '\\' not in row[k]:
                        row[k] = escape_some(rng, row[k])
            rows.append(row)
        cuts = sorted(rng.randint(0, len(rows)) for _ in range(parts - 1))
        out = []
        at = 0
        for c in cuts + [len(rows)]:
            out.append(csv_text(rows[at:c], crlf))
            at = c
        return out

    def heads(self):
        return [row[0] for row in self.rows if row[1] != -1]


def matrix_text(rng, lsize, rsize, inhibit=0.0, missing=0.1, lo=-1500, hi=4000):
    lines = ['%d %d' % (lsize, rsize)]
    cells = [(l, r) for l in range(lsize) for r in range(rsize)]
    if rng.random() < 0.5:
        rng.shuffle(cells)
    ties = rng.random() < 0.15
    for l, r in cells:
        if rng.random() < missing:
            continue
        if rng.random() < inhibit:
            cost = 0x7fff
        elif ties:
            cost = rng.choice([0, 100])
        else:
            cost = rng.randint(lo, hi)
            if rng.random() < 0.02:
                cost = rng.choice([-32768, 32766])
        if rng.random() < 0.03:      # given more than once: the last counts
            lines.append('%d %d %d' % (l, r, rng.randint(lo, hi)))
            cost = rng.choice([0, 0, cost])
        lines.append('%d %d %d' % (l, r, cost))
        if rng.random() < 0.02:
            lines.append(rng.choice(['', '# comment', '   ']))
    if rng.random() < 0.3:
        lines.insert(rng.randint(1, len(lines)), rng.choice(['', '# 0 0 5', '#', ' ', '\t', '#0 0 5']))
    if rng.random() < 0.2:
        lines = [rng.choice(['\t', '  ', ' \t ']).join(line.split(' ')) if line[:1].isdigit() else line for line in lines]
        lines = [rng.choice([line, line, line + ' ', '  ' + line]) for line in lines]
    return '\n'.join(lines) + ('\n' if rng.random() < 0.8 else '')


BASE_RANGES = [('0x0020', 'SPACE'), ('0x3000', 'SPACE'), ('0x0030..0x0039', 'NUMERIC'), ('0xFF10..0xFF19', 'NUMERIC'),
               ('0x0041..0x005A', 'ALPHA'), ('0x0061..0x007A', 'ALPHA'), ('0x00C0..0x00FF', 'ALPHA'), ('0xFF21..0xFF5A', 'ALPHA'),
               ('0x0370..0x03FF', 'GREEK'), ('0x0400..0x04FF', 'CYRILLIC'), ('0x3041..0x309F', 'HIRAGANA'), ('0x30A1..0x30FF', 'KATAKANA'),
               ('0xFF66..0xFF9F', 'KATAKANA'), ('0x4E00..0x9FA5', 'KANJI'), ('0x3001..0x3002', 'SYMBOL'), ('0x0021..0x002F', 'SYMBOL'),
               ('0x20000..0x2A6DF', 'KANJI'), ('0x1B000..0x1B0FF', 'KATAKANA')]


def chardef_text(rng, props=True, standard=0.5, knum=True, noov=0.5):
    lines = []
    if props:
        for c in CATS:
            if c == 'DEFAULT' or rng.random() < 0.85:
                lines.append('%s %d %d %d' % (c, rng.random() < 0.5, rng.random() < 0.6, rng.choice([0, 0, 1, 2, 2, 3, 5]) if rng.random() < 0.96 else rng.choice([8, 12, 30, 100])))
        if rng.random() < 0.2:
            lines.append('NOOOVBOW %d %d %d' % (rng.randrange(2), rng.randrange(2), rng.randrange(3)))
    ranges = ['%s %s' % x for x in BASE_RANGES]
    if knum:
        ranges += ['0x%X KANJINUMERIC' % ord(c) if rng.random() < 0.5 else '0x%X KANJINUMERIC KANJI' % ord(c) for c in KNUM]
    if rng.random() > standard:
        # the base with holes, overlaps and odd assignments
        ranges = [r for r in ranges if rng.random() < 0.85]
        for _ in range(rng.randint(0, 8)):
            pool = rng.choice(POOLS)
            lo = ord(rng.choice(pool))
            hi = lo + rng.choice([0, 0, 1, 5, 50, 300])
            cats = rng.sample(CATS, rng.choice([1, 1, 2, 3]))
            ranges.append(('0x%X..0x%X %s' % (lo, hi, ' '.join(cats))) if hi > lo or rng.random() < .3 else '0x%X %s' % (lo, ' '.join(cats)))
    if rng.random() < noov:
        for ch in 'ャァー\u0301\u3099ん':
            if rng.random() < 0.6:
                ranges.append('0x%X NOOOVBOW' % ord(ch))
        for ch in 'zωя':
            if rng.random() < 0.25:
                ranges.append('0x%X NOOOVBOW' % ord(ch))
    if rng.random() < 0.5:
        rng.shuffle(ranges)
    for r in ranges:
        if rng.random() < 0.1:
            r = rng.choice(['\t', '  ', ' \t']).join(r.split(' '))
        if rng.random() < 0.1:
            r = ' '.join(x.lower() if x.startswith('0x') else x for x in r.split())
        lines.append(r + (rng.choice(['', '  # comment', ' #x', '\t# y z', ' ', '\t']) if rng.random() < 0.3 else ''))
        if rng.random() < 0.05:
            lines.append(rng.choice(['', '# 0x0041 KANJI', '   ']))
    return '\n'.join(lines) + '\n'


def unk_text(rng, lsize, rsize, pos, defined):
    lines = []
    for c in defined:
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if rng.random() > 0.005 else rng.randint(90, 300)):
            lines.append('%s,%d,%d,%d,%s' % (c, rng.randrange(rsize), rng.randrange(lsize), rng.randint(-500, 12000) if rng.random() < 0.97 else rng.choice([-40000, 40000, 32768, -32769, 70000]), ','.join(rng.choice(pos))))
    rng.shuffle(lines)
    if rng.random() < 0.2:
        lines.insert(rng.randint(0, len(lines)), rng.choice(['', ' ']))
    return '\n'.join(lines) + '\n'


class Sources:
    """Everything that defines a world, as texts, and how it is to be laid out in a directory."""

    def __init__(self):
        self.sys_texts = []
        self.matrix = ''
        self.users = []          # list of lists of CSV texts
        self.chardef = ''
        self.mecab_chardef = None
        self.unk = None
        self.files = {}          # further definitions: name -> text
        self.settings = {}
        self.heads = []
        self.syslex = None
        self.userlex = []

    def as_json(self):
        return {'lex': self.sys_texts, 'matrix': self.matrix, 'users': self.users, 'char.def': self.chardef,
                'mecab_char.def': self.mecab_chardef, 'unk.def': self.unk, 'files': self.files, 'settings': self.settings}


def sources(rng, n_words=None, composites=None, users=0, inhibit=0.0, mecab=None, plugins=None, rewrite=None, noov=0.5,
            standard=0.5, simple_last=True, square=None, big=False, max_ids=6, psm=None, default_plugin=None, knum_words=False,
            auto=0.0, extra_heads=(), fallback=True, missing=0.1, huge=0, huge_user=0,
            user_words=None, homographs=0, long_words=None, many_pos=0):
    s = Sources()
    if users >= 2 and not huge and rng.random() < 0.03:
        users = rng.randint(8, 15)
    lsize, rsize = rng.randint(1, max_ids), rng.randint(1, max_ids)
    if square or (square is None and rng.random() < 0.3):
        rsize = lsize
    if big:
        lsize, rsize = rng.randint(60, 200), rng.randint(60, 200)
    if huge:
        lsize, rsize = rng.randint(257, 300), rng.randint(257, 300)
    s.lsize, s.rsize = lsize, rsize
    pos = [POS_OOV, POS_NUM, POS_SYM] + rng.sample(POS_EXTRA, rng.randint(1, len(POS_EXTRA)))
    if rng.random() < 0.2:
        # parts of speech that are nearly the same: in case, width, white space, or with the same texts joined
        pos += rng.sample(POS_NEAR, rng.randint(2, len(POS_NEAR)))
    if huge:
        pos += [('品詞%d' % k, '*', '*', '*', '*', '*') for k in range(rng.choice([130, 300, 600]))]
    if many_pos:
        pos += [('多', '品詞%d' % (k // 7), '%d' % (k % 7), '*', '*', '*') for k in range(many_pos)]
    s.pos = pos
    lex = LexGen(rng, lsize, rsize, pos)
    if n_words is None:
        n_words = rng.choice([1, 3, 10, 25, 40])
    # the parts of speech that the plugins need exist
    first = [('名', POS_OOV), ('1', POS_NUM), ('。', POS_SYM)] + [(headword(rng), p) for p in pos[3:]]
    if rng.random() < 0.5:
        rng.shuffle(first)
    for head, p in first:
        lex.add(head, pos=p)
    for _ in range(homographs):
        lex.add(extra_heads[0], pos=rng.choice(pos))
    for h in extra_heads:
        lex.random_word(h)
    if knum_words:
        for ch in '0123456789〇一二三四五六七八九十百千万億兆':
            if rng.random() < 0.8:
                lex.add(ch, pos=POS_NUM if rng.random() < 0.9 else POS_OOV, params=(rng.randrange(rsize), rng.randrange(lsize), rng.randint(0, 3000)))
        for ch in ',.':
            if rng.random() < 0.8:
                lex.add(ch, pos=POS_SYM if rng.random() < 0.8 else POS_NUM)
    lex.fill(n_words, composites if composites is not None else rng.randint(0, 6))
    if huge:
        lex.many(huge)
    long_heads = lex.long_words(rng.randint(1, 2)) if long_words is True or rng.random() < 0.03 and long_words is None else []
    s.syslex = lex
    s.sys_texts = lex.texts(rng.choice([1, 1, 2, 3]))
    s.matrix = matrix_text(rng, lsize, rsize, inhibit, missing=missing)
    s.long_heads = [h for h in long_heads if h in lex.heads()]
    s.heads = lex.heads()
    for u in range(users):
        upos = list(pos)
        for k in range(rng.randint(0, 2) if user_words is None else rng.randint(1, 4)):
            upos.append(('利用者%d' % rng.randrange(4), 'x%d' % rng.randrange(3), '*', '*', '*', '*'))
        ul = LexGen(rng, lsize, rsize, upos, is_user=True, base=lex)
        if user_words is None:
            ul.fill(rng.randint(1, 8), rng.randint(0, 3))
        else:
            ul.fill(*user_words)
        if huge_user:
            ul.many(huge_user)
        for row in ul.rows:
            if row[1] != -1 and rng.random() < auto:
                row[3] = -32768
        s.userlex.append(ul)
        s.users.append(ul.texts(rng.choice([1, 1, 2])))
        s.heads += ul.heads()
    if mecab is None:
        mecab = rng.random() < 0.6
    s.chardef = chardef_text(rng, noov=noov, standard=standard)
    oovs = []
    if mecab:
        s.mecab_chardef = s.chardef if rng.random() < 0.6 else chardef_text(rng)
        defined = [l.split()[0] for l in s.mecab_chardef.split('\n') if l and not l.startswith(('0x', '#')) and l.strip()]
        s.unk = unk_text(rng, lsize, rsize, pos, defined)
        oovs.append({'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'mchar.def', 'unkDef': 'unk.def'})
    simple = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(rng.choice([POS_OOV, POS_SYM])),
              'leftId': rng.randrange(rsize), 'rightId': rng.randrange(lsize), 'cost': rng.choice([0, 3857, 10000, 30000, -100])}
    if fallback or not oovs:
        oovs.append(simple)
        if not simple_last and rng.random() < 0.5:
            oovs.reverse()
    inputs = []
    if default_plugin is None:
        default_plugin = rng.random() < 0.75
    if psm is None:
        psm = rng.random() < 0.4
    if default_plugin:
        inputs.append({'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'})
    if psm:
        inputs.append({'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin',
                       'prolongedSoundMarks': list(PSM[:rng.randint(1, len(PSM))]), 'replacementSymbol': rng.choice(['ー', 'ー', 'ー', '〜', 'ーー'])})
        if rng.random() < 0.2:
            inputs.reverse()
    s.settings = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'inputTextPlugin': inputs, 'oovProviderPlugin': oovs}
    if plugins is None:
        plugins = rng.random() < 0.5
    if rewrite is not None or plugins:
        rw = []
        if rewrite != 'katakana':
            rw.append({'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': rng.random() < 0.8})
            if rng.random() < 0.1:
                rw[-1]['joinKanjiNumeric'] = rng.random() < 0.5      # of no meaning any more
        if rewrite != 'numeric':
            k = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': list(POS_OOV)}
            if rng.random() < 0.8:
                k['minLength'] = rng.choice([0, 1, 2, 3, 3, 4, 5, 10])
            rw.append(k)
        s.settings['pathRewritePlugin'] = rw
    if users:
        s.settings['userDict'] = ['user%d.dic' % i for i in range(users)]
    return s
