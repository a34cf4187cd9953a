From 95d356bd49ce6ccfa622b6bd899c33353f08822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 01/31] fix: word ids of the 8th and later user dictionaries
 overflowed a signed int

---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..8d2f5ca 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From e59ea234a26df7fda9baadb9ba9418e7e78fbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 02/31] fix: Dictionary.close() raised BufferError after a word
 had been looked up

---
 sudachipy/dictionary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionary.py b/sudachipy/dictionary.py
index d54d7a9..a59438c 100644
--- a/sudachipy/dictionary.py
+++ b/sudachipy/dictionary.py
@@ -93,6 +93,8 @@ class Dictionary:
 
     def close(self):
         self.grammar = None
+        if self.lexicon is not None:
+            self.lexicon.get_word_info.cache_clear()  # the cache keeps the lexicons alive
         self.lexicon = None
         for dict_ in self.dictionaries:
             dict_.close()
-- 
2.43.0


From 3832669066b6afcea230533f76d12eca440ad0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 03/31] fix: a failed tokenize() left its nodes in the lattice
 of the next call

---
 sudachipy/tokenizer.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 18e21fa..74c4363 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -33,6 +33,7 @@ cdef void build_lattice_c(object tokenizer, object input_):
     bytes_ = input_.get_byte_text()
 
     cdef Lattice lattice = tokenizer._lattice
+    lattice.clear()  # nodes remain there when the previous call failed
     lattice.resize(len(bytes_))
 
     cdef unsigned int i, word_id, end, idx
-- 
2.43.0


From 46b55a743356f3d2bac69c96e567aa4893a175aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 04/31] fix: connection costs of non-square matrices were read
 from wrong cells

---
 sudachipy/dictionarylib/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..1ffd0cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From b1f6dbc9c0362fd9bdbe3cb19c375cfdb90c92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 05/31] fix: matrix.def with omitted or out-of-range cells
 built a corrupted dictionary

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..7353add 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,7 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        matrix = JTypedByteBuffer(b'\x00' * (2 * lsize * rsize))
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
@@ -209,6 +209,8 @@ class DictionaryBuilder(object):
                 self.logger.warn('invalid format at line {}'.format(i))
                 continue
             l, r, cost = [int(col) for col in cols]
+            if not (0 <= l < lsize and 0 <= r < rsize):
+                raise ValueError('invalid connection ID at line {}'.format(i))
             pos = matrix.tell()
             matrix.seek(2 * (l + lsize * r))
             matrix.write_int(cost, 'short')
-- 
2.43.0


From bcbdedee6948cea91318c7fa93f5d94b2da0a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 06/31] fix: \u{...} escapes worked with 4 or 5 hexadecimal
 digits only

---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 7353add..ee6e566 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -307,11 +307,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From 30dc77f4952b87872b4b24511c51393784be9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 07/31] fix: escapes in inline split units were decoded before
 the unit was parsed

---
 sudachipy/dictionarylib/dictionarybuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index ee6e566..488953d 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -105,7 +105,8 @@ class DictionaryBuilder(object):
     def parse_line(self, cols):
         if len(cols) < self.__MIN_REQUIRED_COLS_NUM:
             raise ValueError('invalid format')
-        cols = [self.decode(col) for col in cols]
+        # the units of splits are decoded when they are resolved
+        cols = [self.decode(col) for col in cols[:15]] + cols[15:]
         if not self.__is_length_valid(cols):
             raise ValueError('string is too long')
         if not cols[0]:
-- 
2.43.0


From 753df63fbfaf2f94c822393736d42cd62663c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 08/31] fix: LexiconSet.get_word_id() returned -1 or a wrong
 dictionary for existing words

---
 sudachipy/dictionarylib/lexiconset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..1a8bac4 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -80,7 +80,7 @@ class LexiconSet(Lexicon):
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
             wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
-            if wid <= 0:
+            if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
-- 
2.43.0


From cf359906d1ad23e7dd5342e3ac4f88cde3fc16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 09/31] fix: strings of more than 32767 UTF-16 units were
 accepted and written with a wrong length

---
 sudachipy/dictionarylib/dictionarybuilder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 488953d..75fd14a 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -147,9 +147,11 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and len(cols[4]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[11]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[12]) <= self.__STRING_MAX_LENGTH
+            and all(self.__utf16_length(cols[i]) <= self.__STRING_MAX_LENGTH for i in (4, 11, 12))
+
+    @staticmethod
+    def __utf16_length(text):
+        return len(text.encode('utf-16-le', 'surrogatepass')) // 2
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
-- 
2.43.0


From ab917418ca3a6c8324006760dc6e526c0c65f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 10/31] fix: part-of-speech strings of 128 or more characters,
 or starting with a BOM, were misread

---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 1ffd0cc..9297eb8 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length >= 128:
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From 291d54f6d8101e8596c4b912d66598af96c357c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 11/31] fix: the order of OOV candidates depended on the hash
 seed of the process

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..a12b92b 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -63,7 +63,7 @@ class MeCabOovPlugin(OovProviderPlugin):
         if length < 1:
             return []
         nodes = []
-        for type_ in input_text.get_char_category_types(offset):
+        for type_ in sorted(input_text.get_char_category_types(offset), key=lambda t: t.value):
             if type_ not in self.categories:
                 continue
             cinfo = self.categories[type_]
-- 
2.43.0


From 62c844692964de614d285e4971017f8a568e5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 12/31] fix: grouped OOVs with several definitions suppressed
 the candidates of length 1 to n

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index a12b92b..2852880 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -77,7 +77,7 @@ class MeCabOovPlugin(OovProviderPlugin):
                 s = input_text.get_substring(offset, offset + length)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
-                    llength -= 1
+                llength -= 1  # the whole run is not repeated below
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
                 if sublength > llength:
-- 
2.43.0


From a122b51dde8823adce00e253e75ce96fc3ca5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 13/31] fix: prolonged sound marks replaced by a symbol of
 other length than 1 corrupted the text or its offsets

---
 sudachipy/plugin/input_text/prolongedsoundmark.py | 2 +-
 sudachipy/utf8inputtextbuilder.py                 | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/input_text/prolongedsoundmark.py b/sudachipy/plugin/input_text/prolongedsoundmark.py
index 6bfb2aa..0a0bc47 100644
--- a/sudachipy/plugin/input_text/prolongedsoundmark.py
+++ b/sudachipy/plugin/input_text/prolongedsoundmark.py
@@ -44,7 +44,7 @@ class ProlongedSoundMarkInputTextPlugin(InputTextPlugin):
             elif is_psm and cp not in self._psm_set:
                 if i - m_start_idx > 1:
                     builder.replace(m_start_idx - offset, i - offset, self._replace_symbol)
-                    offset += i - m_start_idx - 1
+                    offset += i - m_start_idx - len(self._replace_symbol)
                 is_psm = False
         if is_psm and n - m_start_idx > 1:
             builder.replace(m_start_idx - offset, n - offset, self._replace_symbol)
diff --git a/sudachipy/utf8inputtextbuilder.py b/sudachipy/utf8inputtextbuilder.py
index c923fe8..cd02a07 100644
--- a/sudachipy/utf8inputtextbuilder.py
+++ b/sudachipy/utf8inputtextbuilder.py
@@ -45,7 +45,8 @@ class UTF8InputTextBuilder:
         length = len(str_)
         if end - begin > length:
             del self.modified_to_original[begin + length:end]
-        self.modified_to_original[begin] = modified_begin
+        if begin < len(self.modified_text):  # the end of the text stays the end
+            self.modified_to_original[begin] = modified_begin
         for i in range(1, length):
             if begin + i < end:
                 self.modified_to_original[begin + i] = modified_end
-- 
2.43.0


From 09f2fc56a3aeef8ceae6c156a751cf5bfda165c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 14/31] fix: words that are the dictionary form of each other
 recursed endlessly

---
 sudachipy/dictionarylib/wordinfolist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 6a62ebb..bfa7efe 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -48,8 +48,8 @@ class WordInfoList(object):
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
-            wi = self.get_word_info(dictionary_form_word_id)
-            dictionary_form = wi.surface
+            self.bytes.seek(self.word_id_to_offset(dictionary_form_word_id))
+            dictionary_form = self.buffer_to_string()
 
         self.bytes.seek(orig_pos)
 
-- 
2.43.0


From fcf15dcf267941ad4732a614631c808b65b595a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 15/31] fix: tokenizers of one dictionary in several threads
 mixed up their reading positions

---
 sudachipy/dictionarylib/wordinfolist.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index bfa7efe..7f74848 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import struct
+from threading import Lock
 
 from .wordinfo import WordInfo
 
@@ -23,8 +24,13 @@ class WordInfoList(object):
         self.offset = offset
         self._word_size = word_size
         self.has_synonym_gid = has_synonym_gid
+        self._lock = Lock()  # the position of bytes_ is shared
 
     def get_word_info(self, word_id):
+        with self._lock:
+            return self._read_word_info(word_id)
+
+    def _read_word_info(self, word_id):
         orig_pos = self.bytes.tell()
         index = self.word_id_to_offset(word_id)
         self.bytes.seek(index)
-- 
2.43.0


From 857a42792e5cfa3e532cca7e7d859860ff8b077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 16/31] fix: dictionary form ids that do not exist were written
 to the dictionary

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 75fd14a..9f51824 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -280,6 +280,8 @@ class DictionaryBuilder(object):
         base = io_out.tell()
         for entry in self.entries:
             wi = entry.wordinfo
+            if not -1 <= wi.dictionary_form_word_id < len(self.entries):
+                raise ValueError('invalid dictionary form word ID: {}'.format(wi.dictionary_form_word_id))
             offsets.write_int(io_out.tell(), 'int')
             self.write_string(wi.surface)
             self.write_stringlength(wi.length())
-- 
2.43.0


From 53591f413899d55b0845a00e41e49f33f50095fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 17/31] fix: part-of-speech columns that cannot be stored were
 accepted and corrupted the dictionary

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 9f51824..168836c 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -119,6 +119,8 @@ class DictionaryBuilder(object):
         # left-id, right-id, connect_cost
         entry.parameters = [int(cols[i]) for i in [1, 2, 3]]
         # part of speech
+        if any(',' in col for col in cols[5:11]):
+            raise ValueError('invalid part of speech')
         pos_id = self.get_posid(cols[5:11])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
@@ -147,7 +149,7 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and all(self.__utf16_length(cols[i]) <= self.__STRING_MAX_LENGTH for i in (4, 11, 12))
+            and all(self.__utf16_length(cols[i]) <= self.__STRING_MAX_LENGTH for i in range(4, 13))
 
     @staticmethod
     def __utf16_length(text):
-- 
2.43.0


From dd519fcb20cf3208d3b5e7a61780b16b3929673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 18/31] fix: a character definition without ranges raised
 IndexError

---
 sudachipy/dictionarylib/charactercategory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/charactercategory.py b/sudachipy/dictionarylib/charactercategory.py
index fdecef3..c98282b 100644
--- a/sudachipy/dictionarylib/charactercategory.py
+++ b/sudachipy/dictionarylib/charactercategory.py
@@ -93,6 +93,8 @@ class CharacterCategory(object):
                 left_chain.put(left)
                 right_chain.pop(0)
         self.range_list = []
+        if not new_range_list:
+            return
         _range = new_range_list[0]
         for irange in new_range_list[1:]:
             if irange.low == _range.high and irange.categories == _range.categories:
-- 
2.43.0


From 8ebe55f1c41adff02cf9c8142c921622d76b3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 19/31] fix: a failed build replaced the output file by a
 truncated or wrong dictionary

---
 sudachipy/command_line.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 66f7fba..f07c91f 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import argparse
+import contextlib
 import fileinput
 import logging
 import os
@@ -102,13 +103,32 @@ def _matrix_file_checker(args, print_usage):
         exit(1)
 
 
+@contextlib.contextmanager
+def _open_output(path):
+    """ opens a file that takes the place of `path` only when it is completely written """
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path):  # e.g. a device
+        with open(path, 'wb') as wf:
+            yield wf
+        return
+    tmp_path = '{}.{}.tmp'.format(path, os.getpid())
+    try:
+        with open(tmp_path, 'wb') as wf:
+            yield wf
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
 def _command_user_build(args, print_usage):
     _system_dic_checker(args, print_usage)
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         USER_DICT_VERSION_3, int(time.time()), args.description)
     dict_ = BinaryDictionary.from_system_dictionary(args.system_dic)
-    with open(args.out_file, 'wb') as wf:
+    with _open_output(args.out_file) as wf:
         wf.write(header.to_bytes())
         builder = UserDictionaryBuilder(dict_.grammar, dict_.lexicon)
         builder.build(args.in_files, None, wf)
@@ -119,7 +139,7 @@ def _command_build(args, print_usage):
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
-    with open(args.out_file, 'wb') as wf, open(args.matrix_file, 'r') as rf:
+    with _open_output(args.out_file) as wf, open(args.matrix_file, 'r') as rf:
         wf.write(header.to_bytes())
         builder = DictionaryBuilder()
         builder.build(args.in_files, rf, wf)
-- 
2.43.0


From bf7b9e1ab02cb4a8a845f2af11d5d7c57f2a5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 20/31] =?UTF-8?q?fix:=20numerals=20with=20misplaced=20sepa?=
 =?UTF-8?q?rators=20or=20points=20were=20accepted=20(1.5,000=20/=201,00?=
 =?UTF-8?q?=E4=B8=87=20/=201.=E4=B8=875)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 sudachipy/plugin/path_rewrite/numericparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index f48daf1..7275316 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -219,6 +219,12 @@ class NumericParser(object):
             return False
 
         num = self._char_to_num[char]
+        if num < 0 and self._has_hanging_point:
+            self._error_state = self.Error.POINT
+            return False
+        if num < 0 and self._has_comma and not self.check_comma():
+            self._error_state = self.Error.COMMA
+            return False
         if self.is_small_unit(num):
             self._tmp.shift_scale(-num)
             if not self._sub_total.add(self._tmp):
@@ -260,7 +266,7 @@ class NumericParser(object):
         return str(self._total)
 
     def check_comma(self) -> bool:
-        if self._is_first_digit:
+        if self._is_first_digit or self._tmp.point >= 0:
             return False
         if not self._has_comma:
             return self._digit_length <= 3 and not self._tmp.is_zero() and not self._tmp.is_all_zero
-- 
2.43.0


From 9a8a922900ecb054c99d979409fe93c170e2a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 21/31] fix: an unknown word at the end of the text was
 proposed several times

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 2852880..b5b8ef0 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -78,10 +78,12 @@ class MeCabOovPlugin(OovProviderPlugin):
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
                 llength -= 1  # the whole run is not repeated below
+            previous = 0
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
-                if sublength > llength:
+                if sublength > llength or sublength == previous:  # end of the run or of the text
                     break
+                previous = sublength
                 s = input_text.get_substring(offset, offset + sublength)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, sublength))
-- 
2.43.0


From 3dc2aac261de3b0b7c74c66cbdac03142cbb43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 22/31] fix: JoinNumericPlugin looped forever on a numeric word
 whose normalized form has a misplaced separator

---
 sudachipy/plugin/path_rewrite/join_numeric_plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 060423c..861440f 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -59,10 +59,10 @@ class JoinNumericPlugin(PathRewritePlugin):
                 for c in s:
                     if not parser.append(c):
                         if begin_index >= 0:
-                            if parser.error_state == NumericParser.Error.COMMA:
+                            if parser.error_state == NumericParser.Error.COMMA and comma_as_digit:
                                 comma_as_digit = False
                                 i = begin_index - 1
-                            elif parser.error_state == NumericParser.Error.POINT:
+                            elif parser.error_state == NumericParser.Error.POINT and period_as_digit:
                                 period_as_digit = False
                                 i = begin_index - 1
                             begin_index = -1
-- 
2.43.0


From 120119562f1586710f5d9b6f4ea99569f0d77a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 23/31] fix: separators behind a numeral could keep it from
 being joined (1.5. / 1,000.5, / 1,234,,)

---
 .../plugin/path_rewrite/join_numeric_plugin.py    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 861440f..989ebae 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -49,8 +49,10 @@ class JoinNumericPlugin(PathRewritePlugin):
             node = path[i]
             types = self.get_char_category_types(text, node)
             s = node.get_word_info().normalized_form
-            if CategoryType.NUMERIC in types or CategoryType.KANJINUMERIC in types or \
-               (period_as_digit and s == '.') or (comma_as_digit and s == ','):
+            ends_numeral = begin_index >= 0 and s in ('.', ',') and not self._is_followed_by_digit(text, path, i)
+            if not ends_numeral and (
+                    CategoryType.NUMERIC in types or CategoryType.KANJINUMERIC in types or
+                    (period_as_digit and s == '.') or (comma_as_digit and s == ',')):
 
                 if begin_index < 0:
                     parser.clear()
@@ -94,6 +96,15 @@ class JoinNumericPlugin(PathRewritePlugin):
                    (parser.error_state == NumericParser.Error.POINT and ss == '.'):
                     self._concat(path, begin_index, len(path) - 1, lattice, parser)
 
+    def _is_followed_by_digit(self, text, path, i):
+        # separators behind the last digit are not a part of the numeral
+        for k in range(i + 1, len(path)):
+            node = path[k]
+            if node.get_word_info().normalized_form not in ('.', ','):
+                types = self.get_char_category_types(text, node)
+                return CategoryType.NUMERIC in types or CategoryType.KANJINUMERIC in types
+        return False
+
     def _concat(self, path, begin, end, lattice, parser) -> None:
         if path[begin].get_word_info().pos_id != self._numeric_pos_id:
             return
-- 
2.43.0


From 03a68d1df007f2180e44e781ccd3726274a2cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 24/31] fix: a headword with a null character was written to a
 wrong index entry

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 168836c..bf98544 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -115,6 +115,8 @@ class DictionaryBuilder(object):
         entry = self.WordEntry()
         # head word for trie
         if cols[1] != '-1':
+            if '\0' in cols[0]:  # the trie cannot hold it
+                raise ValueError('headword has a null character')
             entry.headword = cols[0]
         # left-id, right-id, connect_cost
         entry.parameters = [int(cols[i]) for i in [1, 2, 3]]
-- 
2.43.0


From 2cf3e123d1c156604dbe98f7b8a41bb5321603ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 25/31] fix: connection matrices of negative size were accepted

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bf98544..2bdab3f 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -202,6 +202,8 @@ class DictionaryBuilder(object):
             raise ValueError('invalid format at line 0')
         lr = header.split()
         lsize, rsize = [int(x) for x in lr]
+        if lsize < 0 or rsize < 0:
+            raise ValueError('invalid size at line 0')
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-- 
2.43.0


From 2a7122e404a226664d274e212059029b935162ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 26/31] fix: units with word IDs of other user dictionaries
 were accepted in a user dictionary

---
 sudachipy/dictionarylib/dictionarybuilder.py     | 2 +-
 sudachipy/dictionarylib/userdictionarybuilder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 2bdab3f..23c0e81 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -349,7 +349,7 @@ class DictionaryBuilder(object):
         if text.startswith('U'):
             id_ = int(text[1:])
             if self.is_user_dictionary:
-                id_ |= (1 << 28)
+                id_ += (1 << 28)
         else:
             id_ = int(text)
         self.check_wordid(id_)
diff --git a/sudachipy/dictionarylib/userdictionarybuilder.py b/sudachipy/dictionarylib/userdictionarybuilder.py
index bead4bc..39131c3 100644
--- a/sudachipy/dictionarylib/userdictionarybuilder.py
+++ b/sudachipy/dictionarylib/userdictionarybuilder.py
@@ -53,6 +53,6 @@ class UserDictionaryBuilder(DictionaryBuilder):
 
     def check_wordid(self, wid):
         if wid >= (1 << 28):
-            super().check_wordid(wid & ((1 << 28) - 1))
+            super().check_wordid(wid - (1 << 28))
         elif wid < 0 or wid >= self.system_lexicon.size():
             raise ValueError('invalid word id')
-- 
2.43.0


From 57b009cdfa959df34cc041b2b250d4c3bc44179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 27/31] fix: a dictionary whose close had failed because it was
 in use could not be closed later

---
 sudachipy/dictionarylib/binarydictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/binarydictionary.py b/sudachipy/dictionarylib/binarydictionary.py
index 30ff868..69c7cb4 100644
--- a/sudachipy/dictionarylib/binarydictionary.py
+++ b/sudachipy/dictionarylib/binarydictionary.py
@@ -60,8 +60,8 @@ class BinaryDictionary(object):
         return cls(*args)
 
     def close(self):
-        del self._grammar
-        del self._lexicon
+        self._grammar = None
+        self._lexicon = None
         self._bytes.close()
 
     @property
-- 
2.43.0


From 8026994c29a9c2bfa6e113618e7f15ea5bd00f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 28/31] fix: total costs of long texts overflowed 32 bits

---
 sudachipy/lattice.pxd     | 2 +-
 sudachipy/lattice.pyx     | 3 ++-
 sudachipy/latticenode.pxd | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sudachipy/lattice.pxd b/sudachipy/lattice.pxd
index ec2ce35..713fd5d 100644
--- a/sudachipy/lattice.pxd
+++ b/sudachipy/lattice.pxd
@@ -1,7 +1,7 @@
 from .latticenode cimport LatticeNode
 
 cdef extern from "limits.h":
-    cdef int INT_MAX
+    cdef long long LLONG_MAX
 
 cdef class Lattice:
 
diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index fdb120e..724d091 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -87,10 +87,11 @@ cdef class Lattice:
 
     cdef void connect_node(self, LatticeNode r_node):
         begin = r_node.begin
-        r_node.total_cost = INT_MAX
+        r_node.total_cost = LLONG_MAX
 
         cdef LatticeNode l_node
         cdef int connect_cost
+        cdef long long cost
         for l_node in self.end_lists[begin]:
             if not l_node.is_connected_to_bos:
                 continue
diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index 8d2f5ca..c82e69f 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -2,7 +2,7 @@ cdef class LatticeNode:
 
     cdef int begin
     cdef int end
-    cdef int total_cost
+    cdef long long total_cost
     cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
-- 
2.43.0


From 329a4bab15a97809197756ce95ef836e49f04e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:38 +0000
Subject: [PATCH 29/31] fix: unknown words with a part of speech that the
 dictionary lacks were given its last one

---
 sudachipy/plugin/oov/mecab_oov_plugin.py  | 2 ++
 sudachipy/plugin/oov/simple_oov_plugin.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index b5b8ef0..5968502 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -143,4 +143,6 @@ class MeCabOovPlugin(OovProviderPlugin):
                 oov.cost = int(cols[3])
                 pos = cols[4:10]
                 oov.pos_id = grammar.get_part_of_speech_id(pos)
+                if oov.pos_id < 0:
+                    raise ValueError("the part of speech is invalid at line {}".format(i))
                 self.oov_list[type_].append(oov)
diff --git a/sudachipy/plugin/oov/simple_oov_plugin.py b/sudachipy/plugin/oov/simple_oov_plugin.py
index 82c2218..908407e 100644
--- a/sudachipy/plugin/oov/simple_oov_plugin.py
+++ b/sudachipy/plugin/oov/simple_oov_plugin.py
@@ -28,6 +28,8 @@ class SimpleOovPlugin(OovProviderPlugin):
 
     def set_up(self, grammar):
         self.oov_pos_id = grammar.get_part_of_speech_id(self.__oov_pos_strings)
+        if self.oov_pos_id < 0:
+            raise ValueError("oovPOS is invalid")
 
     def provide_oov(self, input_text, offset, has_other_words):
         if not has_other_words:
-- 
2.43.0


From 19f362dc5445ef8ceb0f781bb2d0c78eee094047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:12 +0000
Subject: [PATCH 30/31] fix: words with the own part of speech of a later user
 dictionary were not found by get_word_id

---
 sudachipy/dictionarylib/lexiconset.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 1a8bac4..6b7cb74 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -79,11 +79,24 @@ class LexiconSet(Lexicon):
 
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
-            wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
+            own_pos_id = self.__own_pos_id(dic_id, pos_id)
+            if own_pos_id < 0:
+                continue
+            wid = self.lexicons[dic_id].get_word_id(headword, own_pos_id, reading_form)
             if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
+    def __own_pos_id(self, dic_id: int, pos_id: int) -> int:
+        # the opposite of the conversion in get_word_info; -1 if it belongs to another dictionary
+        if dic_id == 0 or pos_id < self.pos_offsets[1]:
+            return pos_id
+        if pos_id < self.pos_offsets[dic_id]:
+            return -1
+        if dic_id + 1 < len(self.pos_offsets) and pos_id >= self.pos_offsets[dic_id + 1]:
+            return -1
+        return pos_id - self.pos_offsets[dic_id] + self.pos_offsets[1]
+
     def build_word_id(self, dict_id, word_id):
         if word_id > 0x0FFFFFFF:
             raise AttributeError("word ID is too large: ", word_id)
-- 
2.43.0


From cdc3094ff6a3795c53b6552fc283e810c5d0ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:21 +0000
Subject: [PATCH 31/31] fix: escapes in the part of speech of inline split
 units were not decoded

---
 sudachipy/dictionarylib/dictionarybuilder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 23c0e81..95bce84 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -106,7 +106,7 @@ class DictionaryBuilder(object):
         if len(cols) < self.__MIN_REQUIRED_COLS_NUM:
             raise ValueError('invalid format')
         # the units of splits are decoded when they are resolved
-        cols = [self.decode(col) for col in cols[:15]] + cols[15:]
+        cols = [col if 15 <= i < 18 else self.decode(col) for i, col in enumerate(cols)]
         if not self.__is_length_valid(cols):
             raise ValueError('string is too long')
         if not cols[0]:
@@ -356,14 +356,14 @@ class DictionaryBuilder(object):
         return id_
 
     def word_to_id(self, text):
-        cols = text.split(',')
+        cols = [self.decode(col) for col in text.split(',')]
         if len(cols) < 8:
             raise ValueError('too few columns')
-        headword = self.decode(cols[0])
+        headword = cols[0]
         pos_id = self.get_posid([cols[i] for i in range(1, 7)])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
-        reading = self.decode(cols[7])
+        reading = cols[7]
         return self.get_wordid(headword, pos_id, reading)
 
     def get_wordid(self, headword, pos_id, reading_form):
-- 
2.43.0

