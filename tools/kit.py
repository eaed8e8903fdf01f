"""Helpers of the demonstrations: dictionaries made in a scratch directory from a few words."""
import atexit
import csv
import io
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from sudachipy import config, dictionary                                            # noqa: E402
from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2, USER_DICT_VERSION_3      # noqa: E402
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary               # noqa: E402
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder             # noqa: E402
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader               # noqa: E402
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder     # noqa: E402
from sudachipy.tokenizer import Tokenizer                                           # noqa: E402

A, B, C = Tokenizer.SplitMode.A, Tokenizer.SplitMode.B, Tokenizer.SplitMode.C
PY = sys.executable
log = logging.getLogger('demo')
log.addHandler(logging.NullHandler())
log.propagate = False

NOUN = '名詞,普通名詞,一般,*,*,*'
NUM = '名詞,数詞,*,*,*,*'
SYM = '補助記号,一般,*,*,*,*'
CHARDEF = '''
DEFAULT 0 1 0
ALPHA 1 1 0
NUMERIC 1 1 0
KATAKANA 1 1 2
KANJI 0 0 2
HIRAGANA 0 1 2
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x0030..0x0039 NUMERIC
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC KATAKANA NOOOVBOW
0x30C3 KATAKANA NOOOVBOW
0x4E00..0x9FFF KANJI
'''
SIMPLE = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': NOUN.split(','), 'leftId': 0, 'rightId': 0, 'cost': 30000}
MECAB = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}
DEFAULT = {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}
NUMERIC = {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': True}
KATAKANA = {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': NOUN.split(','), 'minLength': 3}


def scratch():
    d = tempfile.mkdtemp(prefix='demo_')
    atexit.register(shutil.rmtree, d, True)
    return d


def row(head, cost=100, pos=NOUN, left=0, right=0, surface=None, reading=None, norm=None, dform='*', mode='C', a='*', b='*', c='*', syn='*'):
    surface = head if surface is None else surface
    return [head, left, right, cost, surface] + pos.split(',') + [surface if reading is None else reading, surface if norm is None else norm,
                                                                  dform, mode, a, b, c, syn]


def text_of(rows):
    out = io.StringIO()
    csv.writer(out, lineterminator='\n').writerows(rows)
    return out.getvalue()


def put(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path


def matrix(n=1, m=None, costs=()):
    m = m or n
    return '%d %d\n' % (n, m) + ''.join('%d %d %d\n' % c for c in costs)


def build_system(d, rows, mat=None, name='system.dic'):
    lex, mp = put(os.path.join(d, name + '.csv'), text_of(rows)), put(os.path.join(d, name + '.def'), mat or matrix())
    with open(os.path.join(d, name), 'wb') as wf, open(mp, encoding='utf-8') as rf:
        wf.write(DictionaryHeader(SYSTEM_DICT_VERSION_2, 0, 'demo').to_bytes())
        DictionaryBuilder(logger=log).build([lex], rf, wf)
    return os.path.join(d, name)


def build_user(d, rows, name='user.dic'):
    lex = put(os.path.join(d, name + '.csv'), text_of(rows))
    dic = BinaryDictionary.from_system_dictionary(os.path.join(d, 'system.dic'))
    with open(os.path.join(d, name), 'wb') as wf:
        wf.write(DictionaryHeader(USER_DICT_VERSION_3, 0, 'demo').to_bytes())
        UserDictionaryBuilder(dic.grammar, dic.lexicon, logger=log).build([lex], None, wf)
    return os.path.join(d, name)


def make(rows, users=(), mat=None, oov=(SIMPLE,), inputs=(), paths=(), chardef=CHARDEF, unk=None, d=None, **more):
    """Write everything into a directory; returns the path of the setting file."""
    d = d or scratch()
    build_system(d, rows, mat)
    names = [build_user(d, u, 'user%d.dic' % i) for i, u in enumerate(users)]
    put(os.path.join(d, 'char.def'), chardef)
    if unk is not None:
        put(os.path.join(d, 'unk.def'), unk)
    s = {'systemDict': 'system.dic', 'userDict': [os.path.basename(n) for n in names], 'characterDefinitionFile': 'char.def',
         'inputTextPlugin': list(inputs), 'oovProviderPlugin': list(oov), 'pathRewritePlugin': list(paths)}
    s.update(more)
    return put(os.path.join(d, 'sudachi.json'), json.dumps(s))


def load(*args, **kw):
    cfg = make(*args, **kw)
    return dictionary.Dictionary(config_path=cfg, resource_dir=os.path.dirname(cfg))


def cut(tok, text, mode=None):
    return [m.surface() for m in tok.tokenize(text, mode)]


def same(got, want, what=''):
    if got != want:
        print('FAIL %s: got %r, expected %r' % (what, got, want))
        sys.exit(1)
    print('ok', what, repr(got)[:200])


def refused(what, f, *args, **kw):
    try:
        f(*args, **kw)
    except Exception as e:
        print('ok: %s refused: %r' % (what, e))
        return
    print('FAIL: %s was accepted' % what)
    sys.exit(1)


def cli(*args, stdin=None, cwd=None, env=None):
    e = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    return subprocess.run([PY, '-m', 'sudachipy.command_line'] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          cwd=cwd, env=e, timeout=120)


def watchdog(seconds):
    """End with a failure when the demonstration takes for ever."""
    import threading

    def stop():
        print('FAIL: still running after %d s' % seconds, flush=True)
        os._exit(1)
    t = threading.Timer(seconds, stop)
    t.daemon = True
    t.start()
