"""C03: what was built from sources and is read back is what the sources say."""
import os
import subprocess
import sys
import time

from rt import binfmt, gen, model, sut
from rt.core import expect
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary

ID = 'C03'
LEVEL = 'exploration'
QUICK, THOROUGH = 1600, 40000
CASE_CPU = 150
RULE = ('random valid sources (1 to 3000 words in 1 to 4 files, escapes, quoting, all scripts, long strings, line ends in fields, all kinds of splits, '
        'synonyms, dictionary forms, non-indexed words, square and other, sparse and full matrices), built through the API or the command; '
        'read through the API and by an independent parser of the file; non-trivial: a word, distinct by its fields')
REQUIRE = {'words': 10000, 'cells': 20000, 'lookups': 10000, 'hits': 3000, 'trie_keys': 3000, 'by_command': 20, 'long_strings': 20, 'unit_refs': 1000,
           'not_indexed': 100, 'same_headword_255': 1, 'huge': 1, 'line_ends_in_fields': 50, 'many_parts_of_speech': 4, 'matrices_of_65536_lines': 1, 'further_columns': 100}


def long_string(rng, n):
    """A string of n UTF-16 units."""
    out = ''.join(rng.choice('あア漢aé') for _ in range(n % 7))
    rest = n - len(out)
    body = rng.choice(['𠮟', '漢', 'x', 'ア'])
    units = 2 if ord(body) > 0xffff else 1
    out += body * (rest // units) + 'z' * (rest % units)
    return out


def make_sources(ctx, rng, i):
    if i % 800 == 13:
        ctx.count('huge')
        return gen.sources(rng, composites=0, mecab=False, missing=0 if i < 800 else 0.3, huge=rng.randint(65600, 70000))
    big = i % 100 == 11
    many = rng.choice([127, 255, 300, 1100, 2100]) if i % 80 == 17 else 0
    ctx.count('many_parts_of_speech', many > 1000)
    s = gen.sources(rng, many_pos=many, n_words=rng.choice([1500, 3000]) if big else None, composites=rng.choice([0, 5, 12]), max_ids=rng.choice([1, 3, 8, 20]),
                    mecab=False, missing=rng.choice([0, 0.1, 0.6, 1]))
    if rng.random() < 0.2:
        s.matrix = gen.matrix_text(rng, s.lsize, s.rsize, missing=rng.choice([0, 0.5]), lo=-32768, hi=32767)
    lex = s.syslex
    crlf = rng.random() < 0.1
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([126, 127, 128, 129, 255, 256, 257, 300, 1000, 32766, 32767])
            kind = rng.choice(['head', 'surface', 'reading', 'norm', 'pos'])
            ctx.count('long_strings')
            if kind == 'head':
                h = 'あ' * (min(n, 3000) // 3) + 'x' * (min(n, 3000) % 3)
                if n > 3000:
                    h = 'い' * (n // 3) + 'y' * (n % 3)
                lex.add(h, surface='略', reading='リャク', normalized='略')
            elif kind == 'pos':
                n = min(n, 300)
                lex.add(gen.headword(rng), pos=tuple([long_string(rng, n)] + ['*'] * 4 + [long_string(rng, 128)]))
            else:
                lex.add(gen.headword(rng), **{{'surface': 'surface', 'reading': 'reading', 'norm': 'normalized'}[kind]: long_string(rng, n)})
    if rng.random() < 0.2:
        # awkward characters anywhere but in the headword
        for _ in range(3):
            odd = ''.join(rng.choice('\t"\'\\,/*#\u3000 \x00\x01\ufeff\u2028\U0010ffff\uffffあU12\r\n') for _ in range(rng.randint(1, 6)))
            odd = odd.replace('U', '\r\n')
            if '\r' in odd:
                ctx.count('line_ends_in_fields')
                crlf = True
            lex.add(gen.headword(rng), surface=odd, reading=''.join(reversed(odd)), normalized=odd + '異')
    if i % 50 == 7:
        for k in range(255):
            lex.add('同', reading='ヨミ%d' % k)
        ctx.count('same_headword_255')
    if rng.random() < 0.15:
        lex.rows[-1][16 if rng.random() < .5 else 17] = '/'.join(str(rng.randrange(len(lex.rows))) for _ in range(rng.choice([1, 126, 127])))
        lex.rows[-1][14] = 'C'
    if rng.random() < 0.2:
        # columns after the ones that mean something
        for row in rng.sample(lex.rows, min(len(lex.rows), rng.choice([1, 5, 50]))):
            if len(row) == 19:
                row.extend(rng.choice(['', '*', '77', '1/2', 'x', '異']) for _ in range(rng.randint(1, 3)))
                ctx.count('further_columns')
    s.sys_texts = lex.texts(rng.choice([1, 1, 2, 4]), crlf)
    return s


def build(ctx, rng, s):
    out = os.path.join(ctx.dir, 'built.dic')
    desc = ''.join(rng.choice('あ説明 x𠮟é') for _ in range(rng.randint(0, 60)))
    if rng.random() < 0.1:
        desc = 'あ' * 85 + 'x'
    if rng.random() < 0.08:
        ctx.count('by_command')
        before = int(time.time())
        p = subprocess.run([sys.executable, '-m', 'sudachipy.command_line', 'build', '-o', out, '-m', s.matrix_path, '-d', desc] + s.sys_paths,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        expect(p.returncode == 0, 'build of valid sources failed: %s', p.stderr.decode(errors='replace')[-1000:])
        return out, desc, before, int(time.time())
    when = rng.choice([0, 1, int(time.time()), 2 ** 40, 2 ** 63 - 1])
    sut.build_system(out, s.sys_paths, s.matrix_path, desc, when)
    return out, desc, when, when


def case(ctx, rng, i):
    s = make_sources(ctx, rng, i)
    ctx.note(sources={k: v for k, v in s.as_json().items() if k in ('lex', 'matrix')})
    sut.write_sources(ctx.dir, s)
    out, desc, t0, t1 = build(ctx, rng, s)
    ref = model.Dic(s.sys_texts)
    lsize, rsize, cells = model.parse_matrix(s.matrix)
    with open(out, 'rb') as f:
        data = f.read()
    dic = BinaryDictionary.from_system_dictionary(out)
    g, lex, h = dic.grammar, dic.lexicon, dic.header
    p = binfmt.parse(data)
    ctx.count('evaluations')

    for who, hd in (('API', (h.version, h.description)), ('file', (p.version, p.description))):
        expect(hd == (binfmt.SYSTEM_V2, desc), '%s: header %r, expected description %r', who, hd, desc)
    expect(t0 <= h.create_time <= t1 and p.time == h.create_time, 'creation time %r and %r, expected %r to %r', h.create_time, p.time, t0, t1)

    n = g.get_part_of_speech_size()
    got = [tuple(g.get_part_of_speech_string(k)) for k in range(n)]
    expect(got == ref.pos, 'parts of speech %r, expected %r', got, ref.pos)
    expect(p.pos == ref.pos, 'parts of speech in the file %r, expected %r', p.pos, ref.pos)
    ids = {}
    for k, pos in enumerate(ref.pos):
        ids[pos] = k
        expect(g.get_part_of_speech_id(list(pos)) == k, 'ID of part of speech %r is %r, not %d', pos, g.get_part_of_speech_id(list(pos)), k)
    expect(g.get_part_of_speech_id(['無', '*', '*', '*', '*', '*']) == -1, 'an unknown part of speech has an ID')

    expect((p.lsize, p.rsize) == (lsize, rsize), 'matrix size %r, expected %r', (p.lsize, p.rsize), (lsize, rsize))
    for l in range(lsize):
        for r in range(rsize):
            want = cells.get((l, r), 0)
            expect(g.get_connect_cost(l, r) == want, 'connection cost (%d, %d) is %r, not %r', l, r, g.get_connect_cost(l, r), want)
            expect(binfmt.connection(p, l, r) == want, 'connection cost (%d, %d) is %r in the file, not %r', l, r, binfmt.connection(p, l, r), want)
    ctx.count('cells', lsize * rsize)
    ctx.count('matrices_of_65536_lines', s.matrix.count('\n') > 65540)

    expect(lex.size() == len(ref.words) == len(p.infos), '%d words, %d in the file, expected %d', lex.size(), len(p.infos), len(ref.words))
    order = list(range(len(ref.words)))
    rng.shuffle(order)
    for k in order:
        w = ref.words[k]
        want = (w.surface, w.head_len, ids[w.pos], w.normalized, w.dicform_id, w.dicform, w.reading, [u for _, u in w.a], [u for _, u in w.b],
                [u for _, u in w.c], w.syn, w.left, w.right, w.cost)
        v = lex.get_word_info(k)
        got = (v.surface, v.head_word_length, v.pos_id, v.normalized_form, v.dictionary_form_word_id, v.dictionary_form, v.reading_form,
               list(v.a_unit_split), list(v.b_unit_split), list(v.word_structure), list(v.synonym_group_ids),
               lex.get_left_id(k), lex.get_right_id(k), lex.get_cost(k))
        expect(got == want, 'word %d: %r, its source says %r', k, got, want)
        v = p.infos[k]
        dform = p.infos[v['dicform_id']]['surface'] if v['dicform_id'] >= 0 else v['surface']
        got = (v['surface'], v['head_len'], v['pos_id'], v['normalized'], v['dicform_id'], dform, v['reading'], v['a'], v['b'], v['c'], v['syn'],
               *p.params[k])
        expect(got == want, 'word %d: %r in the file, its source says %r', k, got, want)
        ctx.count('words')
        ctx.count('unit_refs', len(w.a) + len(w.b) + len(w.c))
        if not w.indexed:
            ctx.count('not_indexed')
        ctx.distinct(w.headword, want)
    ctx.sample({'headword': ref.words[-1].headword, 'fields': [str(x)[:60] for x in want]})

    keys = sorted(binfmt.trie_keys(p))
    if keys != sorted(ref.index):
        known = set(keys)
        expect(False, 'headwords of the file: %r, expected %r', [k for k in keys if k not in ref.index][:5], [k for k in ref.index if k not in known][:5])
    for k in keys:
        got = binfmt.trie_get(p, k)
        expect(got == ref.index[k], 'word IDs of %r in the file: %r, expected %r', k, got, ref.index[k])
    ctx.count('trie_keys', len(keys))

    # lookups: all prefixes at all byte offsets
    texts = [gen.text(rng, s.heads, 1, 10).encode('utf-8') for _ in range(8)]
    texts += [k[:2500] + b'\x00' for k in rng.sample(keys, min(3, len(keys)))] + [b'', '同'.encode() * 2]
    texts += [b'.' + h.encode() + '漢'.encode() for h in s.long_heads]
    texts.append(bytes(rng.randrange(256) for _ in range(10)))
    for text in texts:
        for off in range(len(text) + 1):
            got = [tuple(x) for x in lex.lookup(text, off)]
            want = list(ref.prefixes(text, off))
            expect(got == want, 'lookup in %r at %d: %r, expected %r', text, off, got, want)
            ctx.count('lookups')
            ctx.count('hits', len(got))
    for k in rng.sample(keys, min(20, len(keys))):
        got = [x for x in lex.lookup(b'..' + k, 2) if x[1] == 2 + len(k)]
        expect([x[0] for x in got] == ref.index[k], 'lookup of headword %r: %r, expected %r', k[:50], got, ref.index[k])
    # find a word by its surface, part of speech and reading
    for k in rng.sample(range(len(ref.words)), min(10, len(ref.words))):
        w = ref.words[k]
        got = lex.get_word_id(w.surface, ids[w.pos], w.reading)
        same = [j for j, x in enumerate(ref.words) if (x.surface, x.pos, x.reading) == (w.surface, w.pos, w.reading)]
        expect(got in same, 'the word %r %r %r is found as %r, expected one of %r', w.surface, w.pos, w.reading, got, same)
        expect(lex.get_word_id(w.surface, ids[w.pos], w.reading + '無い') == -1, 'a word with another reading than %r is found', w.reading)
    del g, lex
    dic.close()
