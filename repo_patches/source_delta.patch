From c98b6da62cf86b105d10cf9584b985ab862f12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 01/32] fix: read a connection matrix that is not square

The cell of (left, right) is stored at left + left_id_size * right, so the
rows of the view are right_id_size many, each left_id_size long.
---
 sudachipy/dictionarylib/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..1ffd0cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From 11b0323211fcaf09715fbf18e5e8643fedadd457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 02/32] fix: write the whole connection matrix and check its
 indices

Entries left out at the end of the matrix made the file too short, so that the
lexicon was read from the wrong place; an index out of range was written over
another cell or behind the matrix.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..7353add 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,7 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        matrix = JTypedByteBuffer(b'\x00' * (2 * lsize * rsize))
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
@@ -209,6 +209,8 @@ class DictionaryBuilder(object):
                 self.logger.warn('invalid format at line {}'.format(i))
                 continue
             l, r, cost = [int(col) for col in cols]
+            if not (0 <= l < lsize and 0 <= r < rsize):
+                raise ValueError('invalid connection ID at line {}'.format(i))
             pos = matrix.tell()
             matrix.seek(2 * (l + lsize * r))
             matrix.write_int(cost, 'short')
-- 
2.43.0


From 660df360d436c177803f165cf5eb76c2cb4aa18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 03/32] fix: decode \u{...} literals of any length

Only those with four or five hexadecimal digits were decoded correctly.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 7353add..ee6e566 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -307,11 +307,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From 5a8391d985f0014926740063961dde0c918dff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 04/32] fix: decode the split information only after separating
 its units

A word with a comma or a slash could not be referred to, not even escaped, and
an escaped backslash sequence was decoded twice.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index ee6e566..5cb36a9 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -105,7 +105,8 @@ class DictionaryBuilder(object):
     def parse_line(self, cols):
         if len(cols) < self.__MIN_REQUIRED_COLS_NUM:
             raise ValueError('invalid format')
-        cols = [self.decode(col) for col in cols]
+        # the units of the splits are decoded after they have been separated
+        cols = [self.decode(col) for col in cols[:15]] + cols[15:]
         if not self.__is_length_valid(cols):
             raise ValueError('string is too long')
         if not cols[0]:
@@ -349,7 +350,7 @@ class DictionaryBuilder(object):
         if len(cols) < 8:
             raise ValueError('too few columns')
         headword = self.decode(cols[0])
-        pos_id = self.get_posid([cols[i] for i in range(1, 7)])
+        pos_id = self.get_posid([self.decode(cols[i]) for i in range(1, 7)])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
         reading = self.decode(cols[7])
-- 
2.43.0


From 55491b284c6d99adad5504e35f63ed2a0003dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/32] fix: hold the word IDs of more than seven user
 dictionaries

The dictionary ID is in the upper four bits of a word ID, so that an ID of the
eighth user dictionary and later did not fit into a signed int.
---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..8d2f5ca 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From 6f0039ccbe4c5137d4cb5e838533f839f8a615a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 06/32] fix: return the word ID found by LexiconSet.get_word_id

---
 sudachipy/dictionarylib/lexiconset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..1a8bac4 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -80,7 +80,7 @@ class LexiconSet(Lexicon):
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
             wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
-            if wid <= 0:
+            if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
-- 
2.43.0


From 5b1c93d9f0435a523b6dd2d083dbd95f958a6675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 07/32] fix: clear the lattice before it is used again

After an analysis that failed its nodes stayed in the lattice and took part in
the next one.
---
 sudachipy/lattice.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index fdb120e..0fa6d5a 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -35,6 +35,7 @@ cdef class Lattice:
         self.connect_costs = self.grammar._matrix_view
 
     cpdef void resize(self, int size):
+        self.clear()
         if size > self.capacity:
             self.expand(size)
         self.size = size
-- 
2.43.0


From e37c7e5b183050dc19479b68c10af7a16550149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 08/32] fix: expand the lattice only by what is missing

---
 sudachipy/lattice.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index 0fa6d5a..6d86cd8 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -50,7 +50,7 @@ cdef class Lattice:
         self.eos_node = None
 
     def expand(self, new_size: int) -> None:
-        expand_list = [[] for _ in range(self.size, new_size)]
+        expand_list = [[] for _ in range(self.capacity, new_size)]
         self.end_lists.extend(expand_list)
         self.capacity = new_size
 
-- 
2.43.0


From 4130ddcfbfb033d283ebd8bcb52f76c4682d7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 09/32] fix: keep the cost of a path from overflowing

In a long text the sum of the costs exceeded an int and wrapped around.
---
 sudachipy/lattice.pxd     | 2 +-
 sudachipy/lattice.pyx     | 6 ++++--
 sudachipy/latticenode.pxd | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sudachipy/lattice.pxd b/sudachipy/lattice.pxd
index ec2ce35..713fd5d 100644
--- a/sudachipy/lattice.pxd
+++ b/sudachipy/lattice.pxd
@@ -1,7 +1,7 @@
 from .latticenode cimport LatticeNode
 
 cdef extern from "limits.h":
-    cdef int INT_MAX
+    cdef long long LLONG_MAX
 
 cdef class Lattice:
 
diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index 6d86cd8..ff0eb9e 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -88,10 +88,11 @@ cdef class Lattice:
 
     cdef void connect_node(self, LatticeNode r_node):
         begin = r_node.begin
-        r_node.total_cost = INT_MAX
+        r_node.total_cost = LLONG_MAX
 
         cdef LatticeNode l_node
         cdef int connect_cost
+        cdef long long cost
         for l_node in self.end_lists[begin]:
             if not l_node.is_connected_to_bos:
                 continue
@@ -106,7 +107,8 @@ cdef class Lattice:
                 r_node.best_previous_node = l_node
 
         r_node.is_connected_to_bos = r_node.best_previous_node is not None
-        r_node.total_cost += r_node.cost
+        if r_node.is_connected_to_bos:
+            r_node.total_cost += r_node.cost
 
     cdef void connect_eos_node(self):
         self.connect_node(self.eos_node)
diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index 8d2f5ca..c82e69f 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -2,7 +2,7 @@ cdef class LatticeNode:
 
     cdef int begin
     cdef int end
-    cdef int total_cost
+    cdef long long total_cost
     cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
-- 
2.43.0


From e07466057e130a51c8b8d50fa7e4ef324cf25fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 10/32] fix: do not keep closed dictionaries alive in a cache

The cache of word information belonged to the class and referred to the lexicon
sets, so that their dictionaries could not be closed after use.
---
 sudachipy/dictionarylib/lexiconset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 1a8bac4..0d981c5 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -14,6 +14,7 @@
 
 from functools import lru_cache
 from typing import List
+from weakref import ref
 
 from .lexicon import Lexicon
 
@@ -25,6 +26,9 @@ class LexiconSet(Lexicon):
     def __init__(self, system_lexicon: Lexicon):
         self.lexicons = [system_lexicon]
         self.pos_offsets = [0]
+        # a cache per lexicon set, which does not keep the lexicon set alive
+        weak_self = ref(self)
+        self._cached_word_info = lru_cache(1024)(lambda word_id: weak_self()._load_word_info(word_id))
 
     def add(self, lexicon: Lexicon, pos_offset: int) -> None:
         if lexicon not in self.lexicons:
@@ -58,8 +62,10 @@ class LexiconSet(Lexicon):
         return self.lexicons[self.get_dictionary_id(word_id)]\
             .get_cost(self.get_word_id1(word_id))
 
-    @lru_cache(1024)
     def get_word_info(self, word_id: int) -> 'WordInfo':  # noqa: F821
+        return self._cached_word_info(word_id)
+
+    def _load_word_info(self, word_id: int) -> 'WordInfo':  # noqa: F821
         dic_id = self.get_dictionary_id(word_id)
         winfo = self.lexicons[dic_id].get_word_info(self.get_word_id1(word_id))
         pos_id = winfo.pos_id
-- 
2.43.0


From db42701e0d32e41d82ed58c608e00932fe18b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 11/32] fix: read word information in several threads

The tokenizers of a dictionary share the position in its file, which another
thread could move while an entry was being read.
---
 sudachipy/dictionarylib/wordinfolist.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 6a62ebb..211cab5 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import struct
+from threading import Lock
 
 from .wordinfo import WordInfo
 
@@ -23,8 +24,13 @@ class WordInfoList(object):
         self.offset = offset
         self._word_size = word_size
         self.has_synonym_gid = has_synonym_gid
+        self._lock = Lock()  # for the position in bytes
 
     def get_word_info(self, word_id):
+        with self._lock:
+            return self._read_word_info(word_id)
+
+    def _read_word_info(self, word_id):
         orig_pos = self.bytes.tell()
         index = self.word_id_to_offset(word_id)
         self.bytes.seek(index)
@@ -48,7 +54,7 @@ class WordInfoList(object):
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
-            wi = self.get_word_info(dictionary_form_word_id)
+            wi = self._read_word_info(dictionary_form_word_id)
             dictionary_form = wi.surface
 
         self.bytes.seek(orig_pos)
-- 
2.43.0


From 034fbc90dd94de05a46ea5e13719ef1b30bbc8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 12/32] fix: check the word ID of a dictionary form and read
 only its surface

An ID out of range was read as garbage, and words that were the dictionary
form of each other ended in a RecursionError.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 sudachipy/dictionarylib/wordinfolist.py      | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 5cb36a9..536b6c3 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -278,6 +278,8 @@ class DictionaryBuilder(object):
         base = io_out.tell()
         for entry in self.entries:
             wi = entry.wordinfo
+            if wi.dictionary_form_word_id >= len(self.entries):
+                raise ValueError('invalid word ID')
             offsets.write_int(io_out.tell(), 'int')
             self.write_string(wi.surface)
             self.write_stringlength(wi.length())
diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 211cab5..9c2820b 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -54,8 +54,8 @@ class WordInfoList(object):
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
-            wi = self._read_word_info(dictionary_form_word_id)
-            dictionary_form = wi.surface
+            self.bytes.seek(self.word_id_to_offset(dictionary_form_word_id))
+            dictionary_form = self.buffer_to_string()
 
         self.bytes.seek(orig_pos)
 
-- 
2.43.0


From 54c2113ec7fc20aecd2b2da00e16644f65f583db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 13/32] fix: provide OOV words in an order that does not vary

The order of a set depends on the hash seed, and with it which of the words of
equal cost was chosen.
---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..a12b92b 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -63,7 +63,7 @@ class MeCabOovPlugin(OovProviderPlugin):
         if length < 1:
             return []
         nodes = []
-        for type_ in input_text.get_char_category_types(offset):
+        for type_ in sorted(input_text.get_char_category_types(offset), key=lambda t: t.value):
             if type_ not in self.categories:
                 continue
             cinfo = self.categories[type_]
-- 
2.43.0


From 0f84b576626f99cf041b519ea50c0ce398bc12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 14/32] fix: read parts of speech as they are written

The length of a string takes two bytes if it is 128 or more, and the strings
are written without a byte order mark.
---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 1ffd0cc..9297eb8 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length >= 128:
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From 9c9a714e1d8a0c06b1553fa86390e448cd31a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 15/32] fix: reject a comma inside a part of speech

The table of parts of speech is split at commas when it is written, so that such
a part of speech shifted all that follow it.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 536b6c3..a2400af 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -158,6 +158,8 @@ class DictionaryBuilder(object):
         self.trie_keys[key].append(word_id)
 
     def get_posid(self, strs):
+        if any(',' in s for s in strs):
+            raise ValueError('invalid part of speech')
         return self.pos_table.get_id(','.join(strs))
 
     def write_grammar(self, matrix_input_stream, output_stream):
-- 
2.43.0


From b2ca2964c5714f23153a45b574ab5d503c22981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 16/32] fix: limit the length of a string as it is written

The length is written in UTF-16 code units, but was limited in code points, and
not at all for parts of speech.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index a2400af..03058b9 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -388,6 +388,8 @@ class DictionaryBuilder(object):
                 len_ += 2
             else:
                 len_ += 1
+        if len_ > self.__STRING_MAX_LENGTH:
+            raise ValueError('string is too long')
         self.write_stringlength(len_)
         self.byte_buffer.write_str(text)
 
-- 
2.43.0


From 5b9da1c20ec59c20da149d065f40b3dd3d706f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 17/32] fix: keep the position after a replacement symbol of
 several characters

---
 sudachipy/plugin/input_text/prolongedsoundmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/input_text/prolongedsoundmark.py b/sudachipy/plugin/input_text/prolongedsoundmark.py
index 6bfb2aa..0a0bc47 100644
--- a/sudachipy/plugin/input_text/prolongedsoundmark.py
+++ b/sudachipy/plugin/input_text/prolongedsoundmark.py
@@ -44,7 +44,7 @@ class ProlongedSoundMarkInputTextPlugin(InputTextPlugin):
             elif is_psm and cp not in self._psm_set:
                 if i - m_start_idx > 1:
                     builder.replace(m_start_idx - offset, i - offset, self._replace_symbol)
-                    offset += i - m_start_idx - 1
+                    offset += i - m_start_idx - len(self._replace_symbol)
                 is_psm = False
         if is_psm and n - m_start_idx > 1:
             builder.replace(m_start_idx - offset, n - offset, self._replace_symbol)
-- 
2.43.0


From 46c946391658b3179d947fc839f6cd6af0a73e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 18/32] fix: write the header of a dictionary last

A build that failed or was interrupted left a file that could be loaded, but
lacked words or their information.
---
 sudachipy/command_line.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 66f7fba..7f6c12f 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -109,9 +109,11 @@ def _command_user_build(args, print_usage):
         USER_DICT_VERSION_3, int(time.time()), args.description)
     dict_ = BinaryDictionary.from_system_dictionary(args.system_dic)
     with open(args.out_file, 'wb') as wf:
-        wf.write(header.to_bytes())
+        wf.write(bytes(header.storage_size()))
         builder = UserDictionaryBuilder(dict_.grammar, dict_.lexicon)
         builder.build(args.in_files, None, wf)
+        wf.seek(0)
+        wf.write(header.to_bytes())
 
 
 def _command_build(args, print_usage):
@@ -120,9 +122,11 @@ def _command_build(args, print_usage):
     header = DictionaryHeader(
         SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
     with open(args.out_file, 'wb') as wf, open(args.matrix_file, 'r') as rf:
-        wf.write(header.to_bytes())
+        wf.write(bytes(header.storage_size()))
         builder = DictionaryBuilder()
         builder.build(args.in_files, rf, wf)
+        wf.seek(0)
+        wf.write(header.to_bytes())
 
 
 def _command_tokenize(args, print_usage):
-- 
2.43.0


From 96778cab64f949f7e984c647f5de0a075a5ded5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 19/32] fix: do not try a number again for ever

A numeric word with a comma or a period at the wrong place of its normalized
form, or of a category that has them as digits, was parsed again and again.
---
 sudachipy/plugin/path_rewrite/join_numeric_plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 060423c..861440f 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -59,10 +59,10 @@ class JoinNumericPlugin(PathRewritePlugin):
                 for c in s:
                     if not parser.append(c):
                         if begin_index >= 0:
-                            if parser.error_state == NumericParser.Error.COMMA:
+                            if parser.error_state == NumericParser.Error.COMMA and comma_as_digit:
                                 comma_as_digit = False
                                 i = begin_index - 1
-                            elif parser.error_state == NumericParser.Error.POINT:
+                            elif parser.error_state == NumericParser.Error.POINT and period_as_digit:
                                 period_as_digit = False
                                 i = begin_index - 1
                             begin_index = -1
-- 
2.43.0


From 56dd4f974978d7fbe899df61a9b80229a9e1de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 20/32] fix: ignore OOV words that end where no word can begin

They cannot be followed by any word, but kept the fallback OOV provider from
being asked, so that the analysis could fail.
---
 sudachipy/tokenizer.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 18e21fa..cae81b8 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -61,6 +61,9 @@ cdef void build_lattice_c(object tokenizer, object input_):
         if CategoryType.NOOOVBOW not in input_.get_char_category_types(i):
             for oov_plugin in tokenizer._oov_provider_plugins:
                 for node in oov_plugin.get_oov(input_, i, has_words):
+                    end = node.get_end()
+                    if (end < len(bytes_)) and (not input_.can_bow(end)):
+                        continue
                     has_words = True
                     lattice.insert(node.get_begin(), node.get_end(), node)
         if not has_words and tokenizer.default_oov_provider:
-- 
2.43.0


From 5ded9f6a804c899a58dcbda57fb1b42dc3995d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 21/32] fix: do not take a malformed number for one with a
 trailing comma
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The parser reported a trailing comma or period for numbers that have no value,
such as "十12,", so that they were joined and normalized to 0.
---
 sudachipy/plugin/path_rewrite/numericparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index f48daf1..6bd4f6e 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -247,14 +247,15 @@ class NumericParser(object):
         return True
 
     def done(self) -> bool:
-        ret = self._sub_total.add(self._tmp) and self._total.add(self._sub_total)
+        if not (self._sub_total.add(self._tmp) and self._total.add(self._sub_total)):
+            return False
         if self._has_hanging_point:
             self._error_state = self.Error.POINT
             return False
         if self._has_comma and self._digit_length != 3:
             self._error_state = self.Error.COMMA
             return False
-        return ret
+        return True
 
     def get_normalized(self) -> str:
         return str(self._total)
-- 
2.43.0


From f85b7d02450e46605d25e15b86cda5690970142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 22/32] fix: check the whole number of a reference to an own
 word

Numbers of 2^28 and more were cut to 28 bits before they were checked.
---
 sudachipy/dictionarylib/dictionarybuilder.py     | 2 +-
 sudachipy/dictionarylib/userdictionarybuilder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 03058b9..9cf9dce 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -343,7 +343,7 @@ class DictionaryBuilder(object):
         if text.startswith('U'):
             id_ = int(text[1:])
             if self.is_user_dictionary:
-                id_ |= (1 << 28)
+                id_ += (1 << 28)
         else:
             id_ = int(text)
         self.check_wordid(id_)
diff --git a/sudachipy/dictionarylib/userdictionarybuilder.py b/sudachipy/dictionarylib/userdictionarybuilder.py
index bead4bc..39131c3 100644
--- a/sudachipy/dictionarylib/userdictionarybuilder.py
+++ b/sudachipy/dictionarylib/userdictionarybuilder.py
@@ -53,6 +53,6 @@ class UserDictionaryBuilder(DictionaryBuilder):
 
     def check_wordid(self, wid):
         if wid >= (1 << 28):
-            super().check_wordid(wid & ((1 << 28) - 1))
+            super().check_wordid(wid - (1 << 28))
         elif wid < 0 or wid >= self.system_lexicon.size():
             raise ValueError('invalid word id')
-- 
2.43.0


From 15c2b01533d830177cf3ad4d8401e91ddc51d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 23/32] fix: reject negative sizes of a connection matrix

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 9cf9dce..1880c9a 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,6 +198,8 @@ class DictionaryBuilder(object):
             raise ValueError('invalid format at line 0')
         lr = header.split()
         lsize, rsize = [int(x) for x in lr]
+        if lsize < 0 or rsize < 0:
+            raise ValueError('invalid format at line 0')
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-- 
2.43.0


From 95c5eb57dafc76eed219320077d2ae32b766e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 24/32] fix: go over a run of katakana that cannot be joined
 only once

---
 sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py b/sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py
index bbacef3..0b33f2c 100644
--- a/sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py
@@ -66,6 +66,8 @@ class JoinKatakanaOovPlugin(PathRewritePlugin):
             if (end - begin) > 1:
                 self.concatenate_oov(path, begin, end, self.oov_pos_id, lattice)
                 i = begin + 1  # skip next node, as we already know it is not a joinable katakana
+            else:
+                i = end  # the rest of this run cannot be joined, either
             i += 1
 
     def is_katakana_node(self, text, node):
-- 
2.43.0


From cf1e7e96e42fcd0c58a9635e2da8aafb0166bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:14 +0000
Subject: [PATCH 25/32] fix: do not write the messages of a build once for each
 earlier build

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 1880c9a..00465c9 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -33,6 +33,7 @@ class DictionaryBuilder(object):
     __PATTERN_UNICODE_LITERAL = re.compile(r"\\u([0-9a-fA-F]{4}|{[0-9a-fA-F]+})")
     __ARRAY_MAX_LENGTH = __BYTE_MAX_VALUE  # max value of byte in Java
     __STRING_MAX_LENGTH = 32767  # max value of short in Java
+    __default_handler = None
     is_user_dictionary = False
 
     class WordEntry:
@@ -65,6 +66,9 @@ class DictionaryBuilder(object):
         handler.setLevel(DEBUG)
         logger = getLogger(__name__)
         logger.setLevel(DEBUG)
+        # the handler of an earlier builder would write each message once more
+        logger.removeHandler(DictionaryBuilder.__default_handler)
+        DictionaryBuilder.__default_handler = handler
         logger.addHandler(handler)
         logger.propagate = False
         return logger
-- 
2.43.0


From da4cbb80b024758ddf98ee0a9c651a5149fe93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:57 +0000
Subject: [PATCH 26/32] fix: keep line ends inside the quoted fields of lexicon
 sources as they are

---
 sudachipy/dictionarylib/dictionarybuilder.py     | 2 +-
 sudachipy/dictionarylib/userdictionarybuilder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 00465c9..aeb7e3d 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -84,7 +84,7 @@ class DictionaryBuilder(object):
     def build(self, lexicon_paths, matrix_input_stream, out_stream):
         self.logger.info('reading the source file...')
         for path in lexicon_paths:
-            with open(path, 'r', encoding='utf-8') as rf:
+            with open(path, 'r', encoding='utf-8', newline='') as rf:
                 self.build_lexicon(rf)
         self.logger.info('{} words\n'.format(len(self.entries)))
 
diff --git a/sudachipy/dictionarylib/userdictionarybuilder.py b/sudachipy/dictionarylib/userdictionarybuilder.py
index 39131c3..82a41c8 100644
--- a/sudachipy/dictionarylib/userdictionarybuilder.py
+++ b/sudachipy/dictionarylib/userdictionarybuilder.py
@@ -32,7 +32,7 @@ class UserDictionaryBuilder(DictionaryBuilder):
         """
         self.logger.info('reading the source file...')
         for path in lexicon_paths:
-            with open(path, 'r', encoding='utf-8') as rf:
+            with open(path, 'r', encoding='utf-8', newline='') as rf:
                 self.build_lexicon(rf)
         self.logger.info('{} words\n'.format(len(self.entries)))
 
-- 
2.43.0


From 09767762bfc0083a22ffed965c1de0fbd4c5ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:21 +0000
Subject: [PATCH 27/32] fix: find words of later user dictionaries by their own
 parts of speech

---
 sudachipy/dictionarylib/lexiconset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 0d981c5..419c6cc 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -85,7 +85,12 @@ class LexiconSet(Lexicon):
 
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
-            wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
+            dic_pos_id = pos_id
+            if dic_id > 0 and pos_id >= self.pos_offsets[1]:  # user defined part-of-speech
+                dic_pos_id = pos_id - self.pos_offsets[dic_id] + self.pos_offsets[1]
+                if dic_pos_id < self.pos_offsets[1]:  # of an earlier dictionary
+                    continue
+            wid = self.lexicons[dic_id].get_word_id(headword, dic_pos_id, reading_form)
             if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
-- 
2.43.0


From 51b7490d8672d8c74778a88e77bb0b3d43f52197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:17 +0000
Subject: [PATCH 28/32] fix: provide OOV words of every length also with
 several entries of a category

With grouping on, the limit for the words of single lengths was lowered once
per entry of unk.def instead of once, so that with several entries words
shorter than the run were missing, too.
---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index a12b92b..60bbe29 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -77,7 +77,7 @@ class MeCabOovPlugin(OovProviderPlugin):
                 s = input_text.get_substring(offset, offset + length)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
-                    llength -= 1
+                llength -= 1  # the words of the whole run are there
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
                 if sublength > llength:
-- 
2.43.0


From c02a6010d5b1a63b63077400fbc59b15d88d7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:22 +0000
Subject: [PATCH 29/32] fix: provide each OOV word at the end of a text only
 once

For lengths beyond the end of the text, the word of the last length was given
again.
---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 60bbe29..fe01e23 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -78,10 +78,12 @@ class MeCabOovPlugin(OovProviderPlugin):
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
                 llength -= 1  # the words of the whole run are there
+            last_sublength = 0
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
-                if sublength > llength:
+                if sublength > llength or sublength == last_sublength:  # the end of the text
                     break
+                last_sublength = sublength
                 s = input_text.get_substring(offset, offset + sublength)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, sublength))
-- 
2.43.0


From 3e5bc81cc76162517cdead6231fedc7a0153f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:33 +0000
Subject: [PATCH 30/32] fix: free a long chain of lattice nodes without
 recursion

The nodes of an analysis hold their predecessors. When the last one of a
long text was freed, each freed the one before within its own
deallocation, which overflowed the stack and ended the process.
---
 sudachipy/latticenode.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudachipy/latticenode.pyx b/sudachipy/latticenode.pyx
index 2d8213f..ea8f3cb 100644
--- a/sudachipy/latticenode.pyx
+++ b/sudachipy/latticenode.pyx
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+cimport cython
+
 from .dictionarylib.wordinfo import WordInfo
 
 __NULL_SURFACE = '(null)'
@@ -21,6 +23,8 @@ UNK =\
     WordInfo(__NULL_SURFACE, 0, -1, __NULL_SURFACE, -1,
              __NULL_SURFACE, __NULL_SURFACE, [], [], [], [])
 
+# a node may be the last to hold a chain of as many nodes as the text has words
+@cython.trashcan(True)
 cdef class LatticeNode:
 
     def __init__(self, lexicon=None, left_id=None, right_id=None, cost=None, word_id=None):
-- 
2.43.0


From ebd0a3a9808f74d5b5c1be02a1176ab9ef8a87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:33 +0000
Subject: [PATCH 31/32] fix: copy no more of a text for a lookup than a
 headword can be long

Each lookup copied the text from its position to its end, so that the
work of an analysis grew with the square of its text.
---
 sudachipy/dictionarylib/doublearraylexicon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/doublearraylexicon.py b/sudachipy/dictionarylib/doublearraylexicon.py
index fb77ee8..acc703d 100644
--- a/sudachipy/dictionarylib/doublearraylexicon.py
+++ b/sudachipy/dictionarylib/doublearraylexicon.py
@@ -27,6 +27,7 @@ class DoubleArrayLexicon(Lexicon):
     __SIGNED_SHORT_MIN = -32768
     __SIGNED_SHORT_MAX = 32767
     __USER_DICT_COST_PER_MORPH = -20
+    __MAX_HEADWORD_LENGTH = 32767  # in bytes
 
     trie = None
     word_id_table = None
@@ -54,7 +55,7 @@ class DoubleArrayLexicon(Lexicon):
         del self.word_params
 
     def lookup(self, text: bytes, offset: int) -> Lexicon.Itr:
-        key = text[offset:]
+        key = text[offset:offset + self.__MAX_HEADWORD_LENGTH]
         result = self.trie.common_prefix_search(key, length=len(key))
         for index, length in result:
             word_ids = self.word_id_table.get(index)
-- 
2.43.0


From d3a8d352baf8e92a9dbb40f44bbee241ed20cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:55 +0000
Subject: [PATCH 32/32] fix: a lattice refuses None for a node, and has no best
 path before it was built

---
 sudachipy/lattice.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index ff0eb9e..27d08b8 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -71,6 +71,8 @@ cdef class Lattice:
         return min_arg
 
     cpdef void insert(self, int begin, int end, LatticeNode node):
+        if node is None:
+            raise TypeError("a node must not be None")
         self.end_lists[end].append(node)
         node.begin = begin
         node.end = end
@@ -115,7 +117,7 @@ cdef class Lattice:
 
     def get_best_path(self) -> List[LatticeNode]:
         # self.connect_node(self.eos_node)
-        if not self.eos_node.is_connected_to_bos:    # EOS node
+        if self.eos_node is None or not self.eos_node.is_connected_to_bos:    # EOS node
             raise AttributeError("EOS is not connected to BOS")
         result = []
         node = self.eos_node.best_previous_node
-- 
2.43.0

