"""C20: versions and layouts of dictionary files."""
import os
import struct

from rt import binfmt, gen, model, sut
from rt.core import expect
from sudachipy.dictionary import Dictionary
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
from .c25 import pos_ids

ID = 'C20'
LEVEL = 'exploration'
QUICK, THOROUGH = 900, 25000
RULE = ('system dictionaries of both layouts and stacks of up to 5 user dictionaries of all three, written by an independent writer from random sources, opened '
        'through Dictionary and compared word by word, lookup by lookup and path by path; the same files with other versions (all known ones, their neighbours '
        'and single-bit variants, random 64-bit numbers) and too short ones, opened as either kind; header values; non-trivial: distinct (layout, kind, '
        'version) of a refusal and a word of a layout by its fields')
REQUIRE = {'refused': 20000, 'wrong_kind': 3000, 'accepted': 1200, 'headers': 10000, 'words SYSTEM_V1': 3000, 'words SYSTEM_V2': 3000, 'words USER_V1': 1000,
           'words USER_V2': 1000, 'words USER_V3': 1000, 'paths': 2000, 'too_short': 2000, 'descriptions_full': 100, 'many_parts_of_speech': 3, 'descriptions_ended_by_zero': 1000}
NAMES = {binfmt.SYSTEM_V1: 'SYSTEM_V1', binfmt.SYSTEM_V2: 'SYSTEM_V2', binfmt.USER_V1: 'USER_V1', binfmt.USER_V2: 'USER_V2', binfmt.USER_V3: 'USER_V3'}
OPEN = {True: BinaryDictionary.from_user_dictionary, False: BinaryDictionary.from_system_dictionary}


def description(rng):
    n = rng.choice([0, 1, 10, 100, 255, 256, 256])
    chars = 'aあé𠮟 \t漢' if rng.random() < 0.7 else 'xyz'
    out = ''
    while True:
        c = rng.choice(chars)
        if len((out + c).encode()) > n:
            break
        out += c
    return out + 'z' * (n - len(out.encode()))


def versions(rng):
    known = list(NAMES)
    out = list(known)
    for v in known:
        out += [(v + 1) % 2 ** 64, v - 1, v ^ (1 << rng.randrange(64)), v & 0xffffffff, v & ~0xffffffff, int.from_bytes(v.to_bytes(8, 'little'), 'big'), v ^ (2 ** 64 - 1)]
    out += [0, 1, 2 ** 64 - 1] + [rng.getrandbits(64) for _ in range(3)]
    rng.shuffle(out)
    return out


def case(ctx, rng, i):
    many = rng.choice([127, 255, 300, 1100, 2100]) if i % 60 == 17 else 0
    ctx.count('many_parts_of_speech', many > 1000)
    s = gen.sources(rng, many_pos=many, users=rng.choice([0, 1, 1, 2, 3, 5]), n_words=rng.choice([3, 10, 25]), composites=rng.randint(0, 5), auto=rng.choice([0, 0.3]), max_ids=5,
                    plugins=False)
    ctx.note(sources=s.as_json())
    ctx.count('evaluations')
    sut.write_sources(ctx.dir, s)
    world = model.World(s.sys_texts, s.matrix, s.chardef, sut.rewrite_text(), s.settings, (), s.mecab_chardef, s.unk)
    sysv = rng.choice(binfmt.SYSTEM_VERSIONS)
    layouts = [sysv]
    if sysv == binfmt.SYSTEM_V1:
        for w in world.system.words:
            w.syn = []
    sysids = {p: k for k, p in enumerate(world.system.pos)}
    headers = []

    def put(path, version, words, pos, ids, **kw):
        when, desc = rng.choice([0, 1, 2 ** 31, 2 ** 63 - 1, rng.getrandbits(63)]), description(rng)
        headers.append((path, version, when, desc))
        data = binfmt.write(version, words, pos, when=when, description=desc.encode(), pos_id=ids.__getitem__, unit=lambda u: u[0] << 28 | u[1], **kw)
        with open(path, 'wb') as f:
            f.write(data)
        return data

    sysdic = os.path.join(ctx.dir, 'system.dic')
    sysdata = put(sysdic, sysv, world.system.words, world.system.pos, sysids, lsize=world.lsize, rsize=world.rsize, matrix=world.matrix)
    userdata = None
    for u, texts in enumerate(s.users):
        d = model.Dic(texts, world.system)
        v = rng.choice(binfmt.USER_VERSIONS)
        layouts.append(v)
        if v == binfmt.USER_V1:
            # all its parts of speech are those of the system
            for w in d.words:
                if w.pos not in sysids:
                    w.pos = rng.choice(world.system.pos)
            d.pos = []
        if v != binfmt.USER_V3:
            for w in d.words:
                w.syn = []
        ids = dict(sysids)
        ids.update({p: len(sysids) + k for k, p in enumerate(d.pos)})
        userdata = put(os.path.join(ctx.dir, 'user%d.dic' % u), v, d.words, d.pos, ids)
        world.dics.append(d)
        world.pos.extend(d.pos)
    ctx.note(layouts=[NAMES[v] for v in layouts])

    dic = Dictionary(config_path=s.config_path, resource_dir=s.dir)
    lex, g = dic.lexicon, dic.grammar
    expect([tuple(g.get_part_of_speech_string(k)) for k in range(g.get_part_of_speech_size())] == world.pos, 'parts of speech of %r', layouts)
    for l in range(world.lsize):
        for r in range(world.rsize):
            expect(g.get_connect_cost(l, r) == world.conn(l, r), 'connection cost (%d, %d) of a %s dictionary', l, r, NAMES[sysv])
    expect(lex.size() == sum(len(d.words) for d in world.dics), 'number of words')
    for d, wd in enumerate(world.dics):
        for k, w in enumerate(wd.words):
            if d and w.cost == -32768:
                # among the dictionaries before this one
                sub = model.World.__new__(model.World)
                sub.__dict__.update(world.__dict__, dics=world.dics[:d])
                got = lex.get_cost(d << 28 | k)
                allowed = sub.auto_cost(w.surface).values
                expect(got in allowed, 'automatic cost of %r in a %s dictionary is %r, expected %r', w.surface, NAMES[layouts[d]], got, sorted(allowed))
                w.cost = got
    posids = pos_ids(world)
    for d, wd in enumerate(world.dics):
        for k, w in enumerate(wd.words):
            wid = d << 28 | k
            v = lex.get_word_info(wid)
            units = [[dd << 28 | kk for dd, kk in (world.unit(d, u) for u in us)] for us in (w.a, w.b, w.c)]
            got = (v.surface, v.head_word_length, v.pos_id, v.normalized_form, v.dictionary_form, v.reading_form, list(v.a_unit_split),
                   list(v.b_unit_split), list(v.word_structure), list(v.synonym_group_ids), lex.get_left_id(wid), lex.get_right_id(wid), lex.get_cost(wid))
            want = (w.surface, w.head_len, posids[d][w.pos], w.normalized, w.dicform, w.reading, *units, w.syn, w.left, w.right, w.cost)
            expect(got == want, 'word %d of a %s dictionary: %r, it holds %r', k, NAMES[layouts[d]], got, want)
            ctx.count('words ' + NAMES[layouts[d]])
            ctx.distinct(layouts[d], w.headword, want)
    for text in [gen.text(rng, s.heads, 1, 8) for _ in range(4)]:
        raw = text.encode('utf-8')
        for off in range(len(raw)):
            got = [tuple(x) for x in lex.lookup(raw, off)]
            want = [(d << 28 | k, e) for d in list(range(1, len(world.dics))) + [0] for k, e in world.dics[d].prefixes(raw, off)]
            expect(got == want, 'lookup in %r at %d: %r, expected %r', text, off, got, want)
    before, _ = sut.watch(dic)
    tok = dic.create()
    for _ in range(4):
        text = gen.text(rng, s.heads, 1, 8, wild=0.02)
        t = world.input(text)
        if not t.chars:
            continue
        tok.tokenize(text)
        path = [(v['left'], v['right'], v['cost']) for v in before.nodes]
        expect(world.path_cost(path) == world.best_cost(t), 'the path of %r is not the cheapest', text)
        ctx.count('paths')
    del lex, g, tok, v, before
    dic.lexicon = dic.grammar = None

    # headers
    for path, version, when, desc in headers:
        user = version in binfmt.USER_VERSIONS
        d = OPEN[user](path)
        h = d.header
        expect((h.version, h.create_time, h.description) == (version, when, desc), 'header %r, expected %r', (h.version, h.create_time, h.description), (version, when, desc))
        expect((h.is_user_dictionary(), h.is_system_dictionary()) == (user, not user), 'kind of a %s dictionary', NAMES[version])
    for _ in range(20):
        v, when, desc = rng.choice([rng.choice(list(NAMES)), rng.getrandbits(64)]), rng.choice([0, 2 ** 63 - 1, rng.getrandbits(63), rng.getrandbits(32)]), description(rng)
        raw = struct.pack('<QQ', v, when) + desc.encode().ljust(256, b'\0')
        h = DictionaryHeader(v, when, desc)
        expect(h.storage_size() == 272 and h.to_bytes() == raw, 'the header %r is written as %r', (v, when, desc), h.to_bytes())
        off = rng.choice([0, 0, 5])
        rest = 256 - len(desc.encode())
        if rest > 1 and rng.random() < 0.3:
            # what follows the first zero is no part of the description
            n = rng.randint(1, rest - 1)
            raw = raw[:272 - rest + 1] + (rng.choice([b'z', b'\xff', b'\0x', 'あ'.encode()]) * n)[:n].ljust(rest - 1, rng.choice([b'\0', b'q']))
            ctx.count('descriptions_ended_by_zero')
        h = DictionaryHeader.from_bytes(b'x' * off + raw + rng.choice([b'', b'yy']), off)
        expect((h.version, h.create_time, h.description) == (v, when, desc), 'the header %r is read as %r', (v, when, desc), (h.version, h.create_time, h.description))
        ctx.count('headers')
        if len(desc.encode()) == 256:
            ctx.count('descriptions_full')

    # versions
    path = os.path.join(ctx.dir, 'other.dic')
    for data, base_user in ((sysdata, False), (userdata, True)):
        if data is None:
            continue
        own = struct.unpack('<Q', data[:8])[0]
        for v in versions(rng):
            with open(path, 'wb') as f:
                f.write(struct.pack('<Q', v) + data[8:])
            for user in (False, True):
                good = v in (binfmt.USER_VERSIONS if user else binfmt.SYSTEM_VERSIONS)
                if good and v != own:
                    continue        # the version does not fit the layout: nothing is claimed
                ctx.note(version=hex(v), as_user=user)
                try:
                    d = OPEN[user](path)
                except Exception:
                    expect(not good, 'a %s dictionary is refused', NAMES.get(v))
                    ctx.count('refused')
                    ctx.distinct('refused', base_user, user, v)
                    if v in NAMES:
                        ctx.count('wrong_kind')
                    continue
                expect(good, 'a file with the version %#x (%s) is accepted as a %s dictionary', v, NAMES.get(v, 'unknown'), 'user' if user else 'system')
                expect((d.header.is_user_dictionary(), d.header.is_system_dictionary()) == (user, not user), 'kind of version %#x', v)
                ctx.count('accepted')
            if v not in NAMES:
                h = DictionaryHeader(v, 0, '')
                expect(not h.is_user_dictionary() and not h.is_system_dictionary(), 'the unknown version %#x has a kind', v)
        for n in {0, 1, 7, 8, 15, 16, rng.randrange(272), 271}:
            with open(path, 'wb') as f:
                f.write(data[:n])
            for user in (False, True):
                try:
                    OPEN[user](path)
                except Exception:
                    ctx.count('too_short')
                    continue
                expect(False, 'a file of %d bytes is accepted', n)
    # through the settings
    import json
    v = rng.choice(list(NAMES))
    with open(path, 'wb') as f:
        f.write(struct.pack('<Q', v) + sysdata[8:])
    settings = dict(s.settings, systemDict='other.dic', userDict=[])
    conf = sut.write(os.path.join(ctx.dir, 'other.json'), json.dumps(settings))
    as_user = dict(s.settings, userDict=['system.dic'])
    conf2 = sut.write(os.path.join(ctx.dir, 'other2.json'), json.dumps(as_user))
    for c, ok in ((conf, v == sysv), (conf2, False)):
        if c == conf and not ok and v in binfmt.SYSTEM_VERSIONS:
            continue
        try:
            Dictionary(config_path=c, resource_dir=ctx.dir)
        except Exception:
            expect(not ok, 'a correct dictionary is refused')
            continue
        expect(ok, 'a dictionary of the wrong kind is accepted by the settings %r', c)
    ctx.sample({'layouts': [NAMES[v] for v in layouts], 'words': len(world.system.words)})
