"""C17: dictionaries in one process do not influence each other, and no file changes."""
import gc
import hashlib
import os
import re

from rt import child, gen, sut
from rt.core import expect

ID = 'C17'
LEVEL = 'exploration'
QUICK, THOROUGH = 400, 5000
RULE = ('random histories of opening, using and closing up to 6 dictionaries over 2 to 3 configurations (different plugins, contents, user dictionaries; the same '
        'files twice), with failing attempts in between; results are compared with those of a process that opens only this configuration; all files '
        'are read before and after; non-trivial: an analysis while another dictionary is open or has been, distinct by configuration and text')
REQUIRE = {'analyses': 8000, 'opened': 800, 'closed': 300, 'failed_opens': 50, 'same_files_twice': 100, 'files_compared': 1000, 'automatic_costs': 30, 'shared_user_files': 20}


def digests(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = (hashlib.sha256(f.read()).hexdigest(), os.stat(p).st_mtime_ns)
    return out


def case(ctx, rng, i):
    worlds = []
    shared = rng.random() < 0.3
    for w in range(rng.choice([2, 2, 3])):
        s = gen.sources(rng, users=rng.choice([1, 2] if shared else [0, 0, 1, 2]), auto=rng.choice([0.4, 0.8] if shared else [0, 0.4]), composites=3,
                        n_words=rng.choice([5, 15]), plugins=rng.random() < 0.7)
        if w and rng.random() < (0.9 if shared else 0.3):
            # the same words with other settings
            t = worlds[0]
            s.sys_texts, s.matrix, s.syslex, s.heads, s.users, s.userlex = t.sys_texts, t.matrix, t.syslex, t.heads, t.users, t.userlex
            s.lsize, s.rsize, s.pos = t.lsize, t.rsize, t.pos
            s.settings = dict(t.settings, **{k: v for k, v in s.settings.items() if k in ('inputTextPlugin', 'pathRewritePlugin')})
            s.chardef, s.mecab_chardef, s.unk = t.chardef, t.mecab_chardef, t.unk
        d = os.path.join(ctx.dir, 'w%d' % w)
        os.makedirs(d)
        if w and worlds[0].users and s.users is worlds[0].users and (shared or rng.random() < 0.6):
            # the user dictionaries of the first world, by their own paths, with a system dictionary whose words cost something else
            k = rng.randrange(2)
            s.sys_texts = [re.sub(r'(?m)^((?:[^,"\n]+,){3})(-?\d+)(?=,)', lambda m: m.group(1) + str(rng.randint(-3000, 3000) + 12000 * (k % 2)), t) for t in s.sys_texts]
            s.settings['userDict'] = [os.path.join(worlds[0].dir, 'user%d.dic' % k) for k in range(len(s.users))]
            ctx.count('shared_user_files')
        sut.materialise(d, s)
        if any('-32768' in t for ts in s.users for t in ts):
            ctx.count('automatic_costs')
        worlds.append(s)
    heads = [h for s in worlds for h in s.heads]
    texts = [gen.text(rng, heads, 1, 6) for _ in range(6)] + [r.split(',')[0] for ts in worlds[0].users for t in ts for r in t.split('\n') if '-32768' in r][:4] + ['ー〜ーァ1,000円', 'ｱbcdDEFアイウ', '1.5千']
    runs = [[t, m] for t in texts for m in 'ABC']
    procs = [child.start({'analyse': [{'config': s.config_path, 'dir': s.dir, 'runs': runs}]}) for s in worlds]
    before = digests(ctx.dir)
    expected = []
    for p in procs:
        got = child.result(p)
        expected.append({(t, m): r for (t, m), r in zip(runs, got['analysed'][0])})
    import json
    opened = []
    trail = []
    ever = 0
    broken = os.path.join(ctx.dir, 'w0', 'broken.json')
    for _ in range(rng.randint(25, 50)):
        r = rng.random()
        if (r < 0.25 or not opened) and len(opened) < 6:
            w = rng.randrange(len(worlds))
            trail.append('open %d' % w)
            dic = sut.load(worlds[w])
            if any(o[0] == w for o in opened):
                ctx.count('same_files_twice')
            opened.append([w, dic, dic.create()])
            ctx.count('opened')
            ever += 1
        elif r < 0.33 and opened:
            w, dic, tok = opened.pop(rng.randrange(len(opened)))
            trail.append('close %d' % w)
            tok = None
            dic.oov_provider_plugins = dic.path_rewrite_plugins = dic.input_text_plugins = None
            try:
                dic.close()
            except BufferError:
                pass        # something still holds a view of the file
            dic = None
            ctx.count('closed')
        elif r < 0.38:
            trail.append('fail')
            settings = dict(rng.choice(worlds).settings)
            k = rng.randrange(3)
            if k == 0:
                settings['systemDict'] = 'missing.dic'
            elif k == 1:
                settings['oovProviderPlugin'] = [{'class': 'x'}]
            else:
                settings['userDict'] = ['system.dic']
            path = os.path.join(str(ctx.scratch), 'broken.json')
            sut.write(path, json.dumps(settings))
            try:
                from sudachipy.dictionary import Dictionary
                Dictionary(config_path=path, resource_dir=worlds[0].dir)
                raise AssertionError
            except AssertionError:
                expect(False, 'broken settings were accepted: %r', settings)
            except Exception:
                ctx.count('failed_opens')
        elif opened:
            o = rng.choice(opened)
            if rng.random() < 0.3:
                o[2] = o[1].create()
            t, m = rng.choice(runs)
            trail.append('use %d %s %r' % (o[0], m, t))
            ctx.note(trail=trail)
            for t, m in [(t, m)] + rng.sample([tuple(x) for x in runs], 3):
                got = child.analyse(o[2], t, m)
                got = json.loads(json.dumps(got))
                ctx.count('analyses')
                ctx.count('evaluations')
                expect(got == expected[o[0]][t, m], 'configuration %d, %r in mode %s with %d dictionaries open: %r, alone %r', o[0], t, m, len(opened), got,
                       expected[o[0]][t, m])
                if ever > 1:
                    ctx.distinct(o[0], t, m)
    opened = o = dic = tok = None
    after = digests(ctx.dir)
    for p in before:
        ctx.count('files_compared')
        expect(after.get(p) == before[p], 'the file %s was changed or removed', p)
    expect(set(after) == set(before), 'files were added: %r', sorted(set(after) - set(before)))
    ctx.sample({'history': [x[:20] for x in trail[:12]]})
