"""The code under test, seen from outside: build, load, analyse, record."""
import io
import json
import logging
import os

from sudachipy import dictionary as sudachi_dictionary
from sudachipy import config as sudachi_config
from sudachipy.dictionarylib import SYSTEM_DICT_VERSION_2, USER_DICT_VERSION_3
from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
from sudachipy.plugin.path_rewrite import PathRewritePlugin
from sudachipy.tokenizer import Tokenizer

from . import model

MODES = {'A': Tokenizer.SplitMode.A, 'B': Tokenizer.SplitMode.B, 'C': Tokenizer.SplitMode.C}

quiet = logging.getLogger('verif.quiet')
quiet.propagate = False
quiet.addHandler(logging.NullHandler())
quiet.setLevel(logging.CRITICAL)

REWRITE_DEF = os.path.join(os.path.dirname(sudachi_config.__file__), 'resources', 'rewrite.def')


def rewrite_text():
    with open(REWRITE_DEF, encoding='utf-8') as f:
        return f.read()


def write(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path


def build_system(out, csv_paths, matrix_path, description='', when=0):
    header = DictionaryHeader(SYSTEM_DICT_VERSION_2, when, description)
    with open(out, 'wb') as wf, open(matrix_path, 'r', encoding='utf-8') as rf:
        wf.write(header.to_bytes())
        DictionaryBuilder(logger=quiet).build(csv_paths, rf, wf)
    return out


def build_user(out, csv_paths, system_path, description='', when=0):
    header = DictionaryHeader(USER_DICT_VERSION_3, when, description)
    dic = BinaryDictionary.from_system_dictionary(system_path)
    with open(out, 'wb') as wf:
        wf.write(header.to_bytes())
        UserDictionaryBuilder(dic.grammar, dic.lexicon, logger=quiet).build(csv_paths, None, wf)
    return out


def write_sources(d, s):
    s.sys_paths = [write(os.path.join(d, 'lex%d.csv' % i), t) for i, t in enumerate(s.sys_texts)]
    s.matrix_path = write(os.path.join(d, 'matrix.def'), s.matrix)
    s.user_paths = [[write(os.path.join(d, 'user%d_%d.csv' % (u, i)), t) for i, t in enumerate(ts)] for u, ts in enumerate(s.users)]
    write(os.path.join(d, 'char.def'), s.chardef)
    if s.mecab_chardef is not None:
        write(os.path.join(d, 'mchar.def'), s.mecab_chardef)
        write(os.path.join(d, 'unk.def'), s.unk)
    for name, text in s.files.items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        write(os.path.join(d, name), text)
    s.config_path = write(os.path.join(d, 'sudachi.json'), json.dumps(s.settings, ensure_ascii=False))
    s.dir = d
    return s


def materialise(d, s):
    """Write the sources into directory d and build the dictionaries there."""
    write_sources(d, s)
    sysdic = build_system(os.path.join(d, 'system.dic'), s.sys_paths, s.matrix_path)
    for u, paths in enumerate(s.user_paths):
        build_user(os.path.join(d, 'user%d.dic' % u), paths, sysdic)
    return s


def reference(s):
    return model.World(s.sys_texts, s.matrix, s.chardef, rewrite_text(), s.settings, s.users, s.mecab_chardef, s.unk, s.files)


def load(s):
    return sudachi_dictionary.Dictionary(config_path=s.config_path, resource_dir=s.dir)


class Recorder(PathRewritePlugin):
    """A path rewrite plugin that only looks: what the paths are before (or after) the other plugins."""

    def __init__(self):
        self.text = None
        self.nodes = None
        self.raw = None
        self.calls = 0

    def set_up(self, grammar):
        pass

    def rewrite(self, text, path, lattice):
        self.calls += 1
        self.text = text
        self.raw = list(path)
        self.nodes = [node_view(n) for n in path]


def node_view(n):
    info = n.get_word_info()
    return {'b': n.get_begin(), 'e': n.get_end(), 'left': n.get_left_id(), 'right': n.get_right_id(), 'cost': n.get_path_cost(),
            'oov': bool(n.is_oov()), 'dic': n.get_dictionary_id(), 'word': n.get_word_id() & 0x0FFFFFFF if n.get_dictionary_id() >= 0 else None,
            'wid': n.get_word_id(),
            'surface': info.surface, 'pos_id': info.pos_id, 'norm': info.normalized_form, 'dform': info.dictionary_form,
            'reading': info.reading_form, 'len': info.head_word_length, 'a': list(info.a_unit_split), 'b_': list(info.b_unit_split),
            'syn': list(info.synonym_group_ids)}


def watch(dic):
    """Put recorders before and after the path rewrite plugins of a Dictionary."""
    before, after = Recorder(), Recorder()
    dic.path_rewrite_plugins = [before] + list(dic.path_rewrite_plugins) + [after]
    return before, after


def watch_each(dic):
    """A recorder before and after every path rewrite plugin: [recorder, plugin, recorder, plugin, recorder]."""
    plugins = list(dic.path_rewrite_plugins)
    recs = [Recorder() for _ in range(len(plugins) + 1)]
    mixed = [recs[0]]
    for p, r in zip(plugins, recs[1:]):
        mixed += [p, r]
    dic.path_rewrite_plugins = mixed
    return recs


def view(m):
    return {'begin': m.begin(), 'end': m.end(), 'surface': m.surface(), 'pos': tuple(m.part_of_speech()), 'pos_id': m.part_of_speech_id(),
            'dform': m.dictionary_form(), 'norm': m.normalized_form(), 'reading': m.reading_form(), 'oov': bool(m.is_oov()),
            'dic': m.dictionary_id(), 'wid': m.word_id(), 'syn': list(m.synonym_group_ids())}


def views(ml):
    return [view(m) for m in ml]
