From 22060f84872cbe96f741c5b059cd9b6451d95ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 01/52] fix: treat brackets and backslashes literally in
 Far.AcceptText

AcceptText() compiled its argument as a Pynini string, so that text with an
unbalanced bracket or a backslash raised an error and bracketed numbers were
read as byte values, while ApplyOnText() escapes them.
---
 nisaba/scripts/utils/far.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/far.py b/nisaba/scripts/utils/far.py
index c114040..6a6f3d1 100644
--- a/nisaba/scripts/utils/far.py
+++ b/nisaba/scripts/utils/far.py
@@ -79,7 +79,8 @@ class Far:
       """
       if not self._fst.properties(pynini.ACCEPTOR, True):
         warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
-      lattice = text @ self._fst
+      # Square brackets and backslash are literal here, as in `ApplyOnText()`.
+      lattice = pynini.escape(text) @ self._fst
       return lattice.start() != pynini.NO_STATE_ID
 
   def __init__(self, path_to_far: os.PathLike[str]) -> None:
-- 
2.43.0


From 5650019dfe19cfa0ffc8db34817c786137ace630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 02/52] fix: read rewrite rule files as plain text

pandas inferred column types, so that a rule file whose left or right column
had only digits (or True/False) gave numbers instead of strings (007 became 7),
and a quotation mark swallowed the lines after it.
---
 nisaba/scripts/utils/rule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/rule.py b/nisaba/scripts/utils/rule.py
index d98b12c..bc912f2 100644
--- a/nisaba/scripts/utils/rule.py
+++ b/nisaba/scripts/utils/rule.py
@@ -60,6 +60,7 @@ CDRewrites of the FSTs from each rule.
 """
 
 from collections.abc import Iterable, Iterator
+import csv
 import itertools as it
 import os
 from typing import NamedTuple
@@ -85,8 +86,10 @@ def rules_from_string_file(file: os.PathLike[str]) -> Iterator[Rule]:
 def rules_from_string_path(file: os.PathLike[str]) -> Iterator[Rule]:
   """Yields string rules from a text file with unweighted string maps."""
   with pathlib.Path(file).open('rt') as f:
+    # Rules are plain strings: digits or quotes have no special meaning.
     df = pd.read_csv(f, sep='\t', comment='#', escapechar='\\',
-                     names=['lhs', 'rhs'], na_filter=False)
+                     names=['lhs', 'rhs'], na_filter=False, dtype=str,
+                     quoting=csv.QUOTE_NONE)
     for row in df.itertuples(index=False, name='Rule'):
       if not row.lhs:
         raise ValueError('Rule expects an LHS: {}'.format(row))
-- 
2.43.0


From 97d0185538e35251976a6a375b27be73aab62ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 03/52] fix: accept named character sequences in character
 tables

unicode_strings.proto documents sequence names such as TAMIL SYLLABLE NNNAI,
but resolving one raised a TypeError because category() takes one character.
---
 nisaba/scripts/utils/unicode_strings_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index a4f45b1..fa339a7 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -41,7 +41,8 @@ def name_to_char(prefixes: Sequence[str], suffix: str) -> tuple[str, str]:
     uname = (prefix + ' ' + suffix).lstrip()
     try:
       char = unicodedata.lookup(uname)
-      if unicodedata.category(char) != 'Cc':
+      # Named sequences resolve to more than one character.
+      if len(char) > 1 or unicodedata.category(char) != 'Cc':
         char_names.append((char, uname))
     except KeyError:
       pass
-- 
2.43.0


From 8a008f931f02639715d047b64bedd82dd4b9cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 04/52] fix: read character lists with
 unicode_strings_util.read_textproto

Items without a destination made it assign None to the to_raw field, which is
a TypeError: only mappings could be read.
---
 nisaba/scripts/utils/unicode_strings_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index fa339a7..d169152 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -164,9 +164,11 @@ def _fill_missing_raw(pb: unicode_strings_pb2.UnicodeStrings) -> None:
     None
   """
   for item in pb.item:
-    item.raw, item.to_raw = convert_item(
+    item.raw, to_raw = convert_item(
         pb.uname_prefix, pb.to_uname_prefix, item
     )
+    # There is no destination, if the item does not define a mapping.
+    item.to_raw = to_raw or ''
 
 
 def read_textproto(
-- 
2.43.0


From 1bf14a00483065acae29e009f566517d1e641969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 05/52] fix: Feature.Set.update keeps the set's own values
 among its arguments

---
 nisaba/scripts/natural_translit/utils/feature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 2f7a0ea..54602fd 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -268,7 +268,9 @@ class Feature(ty.Thing):
       return self
 
     def update(self, *features) -> Feature.Set:
-      return self.reset().add(*features)
+      # Collect the features first: they may include this set.
+      new_features = Feature.Set(*features)
+      return self.reset().add(new_features)
 
     def copy(self) -> Feature.Set:
       return Feature.Set(self)
-- 
2.43.0


From a56932a45a3344493c6e2d1c8b78cb7cfdff0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 06/52] fix: has_feature of value lists and aspects no longer
 recurses forever

---
 nisaba/scripts/natural_translit/utils/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 54602fd..9009776 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -500,7 +500,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: Feature.Aspect.VALUES) -> bool:
       """Checks if the given value or one of its children is in this list."""
-      return value.is_in(self)
+      return self.set().has_feature(value)
 
     def is_in(self, obj) -> bool:
       """Checks if this list is contained within the given object."""
@@ -653,7 +653,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: VALUES) -> bool:
       """Checks if the given value or one of its children is in this aspect."""
-      return value.is_in(self)
+      return Feature.Set(self).has_feature(value)
 
     def is_applicable(self, profile: Feature.Profile) -> bool:
       """Checks if this aspect is applicable to the given profile."""
-- 
2.43.0


From ee4ae42d7b829518bfe45104668c9c03d6f1977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 07/52] fix: Profile.get doesn't return an aspect of another
 inventory with the same alias

---
 nisaba/scripts/natural_translit/utils/feature.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 9009776..514f7dc 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -809,13 +809,14 @@ class Feature(ty.Thing):
 
     def get(self, aspect: Feature.Aspect) -> Feature.Set:
       """Gets the value set for the given aspect."""
-      if aspect.inventory == self.inventory:
-        inventory_alias = 'missing'
-      else:
-        inventory_alias = aspect.inventory.alias
+      if aspect.inventory != self.inventory:
+        # Another inventory can have an aspect with the same alias.
+        return Feature.Set(
+            aspect.n_a, alias=f'{aspect.inventory.alias}_{aspect.alias}'
+        )
       return super().get(
           aspect.alias,
-          Feature.Set(aspect.n_a, alias=f'{inventory_alias}_{aspect.alias}'),
+          Feature.Set(aspect.n_a, alias=f'missing_{aspect.alias}'),
       )
 
     def copy(self, alias: str) -> Feature.Profile:
-- 
2.43.0


From e08de71d87284f7f5e0061318d49fca21d7792e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 08/52] fix: Profile.compare handles profiles without any
 distance

---
 nisaba/scripts/natural_translit/utils/feature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 514f7dc..6f1aee1 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -904,7 +904,8 @@ class Feature(ty.Thing):
               ', '.join(item2.sorted_item_texts()),
               f'{dist:.2f}',
           ])
-      similarity = 1 - total_dist / max_dist
+      # All values are equally near if no aspect has a distance.
+      similarity = 1 - total_dist / max_dist if max_dist else 1
       table.extend([
           ['Total distance', '', '', f'{total_dist:.2f}'],
           ['Similarity', '', '', f'{similarity:.3f}'],
-- 
2.43.0


From 653a9333782ad6f6671367d296fccdf3bab4320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 09/52] fix: Item.accepts compares the symbol lists, not their
 numbers

---
 nisaba/scripts/natural_translit/utils/symbol.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index 6e0b214..db44959 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -97,14 +97,15 @@ class Item(ty.Thing):
           equivalent and self.is_expression_any() and other.is_expression_any()
       ) or not equivalent
     self_symbols, other_symbols = self.symbols(), other.symbols()
-    self_len, other_len = len(self_symbols), len(other_symbols)
-    if (
-        not self_len
-        or self_len < other_len
-        or (equivalent and self_len != other_len)
-    ):
-      return False
-    return all(sym_list in self_symbols for sym_list in other_symbols)
+    # The same symbol list can recur, so the number of lists isn't conclusive.
+    return (
+        bool(self_symbols)
+        and all(sym_list in self_symbols for sym_list in other_symbols)
+        and (
+            not equivalent
+            or all(sym_list in other_symbols for sym_list in self_symbols)
+        )
+    )
 
   def is_equivalent(self, other: Item) -> bool:
     return self.accepts(other, equivalent=True)
-- 
2.43.0


From 9411a0c86b221edad1ecdd636b646e799698fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 10/52] fix: head_matches and tail_matches accept plain symbols
 as arguments

---
 nisaba/scripts/natural_translit/utils/symbol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index db44959..afcc497 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -244,7 +244,7 @@ class Item(ty.Thing):
   # following context, the rule shouldn't apply.
 
   def head_matches(self, other: Item) -> bool:
-    if self and not other:
+    if self.state_count() and not other.state_count():
       return other.is_expression_any()
     return self.contains(other, match_head=True)
 
@@ -252,7 +252,7 @@ class Item(ty.Thing):
     return other.head_matches(self)
 
   def tail_matches(self, other: Item) -> bool:
-    if self and not other:
+    if self.state_count() and not other.state_count():
       return other.is_expression_any()
     return self.contains(other, match_tail=True)
 
-- 
2.43.0


From 16e210fbf2fcda98591bc0f0c69a61197126a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:09 +0000
Subject: [PATCH 11/52] fix: lattices don't share the default transducer and
 error node

---
 .../scripts/natural_translit/utils/lattice.py  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/lattice.py b/nisaba/scripts/natural_translit/utils/lattice.py
index 8d7f1bb..57d9d0e 100644
--- a/nisaba/scripts/natural_translit/utils/lattice.py
+++ b/nisaba/scripts/natural_translit/utils/lattice.py
@@ -14,6 +14,8 @@
 
 """Lattice class for building aligner FSTs."""
 
+from typing import Union
+
 import pynini as pyn
 from nisaba.scripts.natural_translit.utils import log_op as log
 from nisaba.scripts.natural_translit.utils import type_op as ty
@@ -41,12 +43,12 @@ class Node(ty.Thing):
       text: str = '',
       x: int = -1,
       y: int = -1,
-      fst: pyn.Fst = pyn.Fst(),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
   ):
     super().__init__(alias, text)
     self.x = x
     self.y = y
-    self.fst = fst
+    self.fst = fst if isinstance(fst, pyn.Fst) else pyn.Fst()
     self.state = ty.UNASSIGNED
 
   def __str__(self):
@@ -78,22 +80,22 @@ class Lattice(ty.Thing):
       alias: str,
       width: int,
       height: int,
-      fst: pyn.Fst = pyn.Fst(),
-      error: Node = Node('error'),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
+      error: Union[Node, ty.Nothing] = ty.UNSPECIFIED,
       populate: bool = False,
   ):
     super().__init__(alias)
     self.text = alias
-    self.fst = fst
+    self.fst = fst if isinstance(fst, pyn.Fst) else pyn.Fst()
     self.width = width
     self.height = height
     self._nodes = [
         [self._new_node(x, y) for x in range(self.width)]
         for y in range(self.height)
     ]
-    self.error = error
-    if error.fst is not self.fst:
-      error.fst = self.fst
+    self.error = error if isinstance(error, Node) else Node('error')
+    if self.error.fst is not self.fst:
+      self.error.fst = self.fst
     if not self.error.has_state():
       self.error.state = self.fst.add_state()
     if populate:
-- 
2.43.0


From da2d3b357864cbadf263e454086889a79df2fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 12/52] fix: rewrite_repeated_ls and reassign_ls rewrite
 instead of optionally rewriting

---
 .../scripts/natural_translit/utils/rewrite_functions.py  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/rewrite_functions.py b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
index a250525..5b4102f 100644
--- a/nisaba/scripts/natural_translit/utils/rewrite_functions.py
+++ b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
@@ -130,7 +130,12 @@ def rewrite_repeated_ls(
     following: pyn.FstLike = al.EPSILON) -> pyn.Fst:
   """Rewrites a repeated string or fst. By default reduces it to one."""
   return rewrite_op(
-      fl.FstList.make(rewrite_repeated, *list_comp).union_opt(),
+      fl.FstList.cross(
+          *[
+              (cc.repeat(repeated), new[0] if new and new[0] else repeated)
+              for repeated, *new in list_comp
+          ]
+      ).union_opt(),
       preceding,
       following)
 
@@ -183,7 +188,7 @@ def reassign_ls(
     following: pyn.FstLike = al.EPSILON) -> pyn.Fst:
   """Shorthand for when the op loops over a list."""
   return rewrite_op(
-      fl.FstList.make(reassign, *list_comp).union_opt(),
+      fl.FstList.make(al.realign, *list_comp).union_opt(),
       preceding,
       following)
 
-- 
2.43.0


From 54eecd45716384210a0540edd3ecd54777ae23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 13/52] fix: Gujarati words with diphthongs have a
 pronunciation

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 00796a7..5a65f1c 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -40,12 +40,13 @@ ph = psa.PHONEME_INVENTORY
 # Vowels
 
 # TODO: Convert this constant to a function where duration and diphthong
-# context are passed as arguments, and remove the recovery rule.
+# context are passed as arguments, and remove the recovery rules.
 # The current rule rewrites all /a/ to /ə/ including the diphthongs like /ai/,
-# and recovers long a with /ə:/ -> /a:/ but not the diphthongs.
+# and recovers long a with /ə:/ -> /a:/ and the diphthongs with /ə+/ -> /a+/.
 A_TO_EC = (
     rw.rewrite(ph.A, ph.EC) @
-    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH)
+    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH) @
+    rw.rewrite(ph.EC, ph.A, following=al.enclose_phoneme(al.COMBINE))
 )
 A_AE = rw.reassign(gr.A_I, ph.A, ph.AE)
 
-- 
2.43.0


From 38e65d7f5e7d4727974349d1713fa9d1e4df1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 14/52] fix: addak geminates affricates and aspirated
 consonants in one way

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 5a65f1c..5565b29 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -239,8 +239,19 @@ H_ASP = rw.reassign(
     gr.H, ph.H, ph.ASP, (ph.M | ph.NI | ph.VU | ph.L | ph.R)
 )
 
-ADDAK = rw.rewrite_ls(
-    [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+# Geminates the consonant after the addak. Aspirated consonants are covered by
+# their unaspirated counterparts. <ta> is separate since its phoneme is the
+# beginning of the affricate {t}{+}{sh}.
+ADDAK = (
+    rw.rewrite_ls(
+        [
+            (char.ph, char.ph + char.ph)
+            for char in iso.SIMPLE_CONSONANT + iso.DEAD_CONSONANT
+            if char.typ != 'ta'
+        ],
+        ph.SIL,
+    )
+    @ rw.reassign(gr.TA, ph.T, ph.T + ph.T, ph.SIL)
 )
 
 AUM_AON = rw.reassign(gr.U_I, ph.U, ph.O, following=(gr.ANS + al.SKIP + al.EOW))
-- 
2.43.0


From c64508212d4e267b2b8999a11d10dab294d63a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 15/52] fix: keep a copy of the file name in File, and
 terminate names given as views

---
 nisaba/port/file.cc |  4 ++--
 nisaba/port/file.h  | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nisaba/port/file.cc b/nisaba/port/file.cc
index d1019e4..42e951b 100644
--- a/nisaba/port/file.cc
+++ b/nisaba/port/file.cc
@@ -42,7 +42,7 @@ bool File::Exists(const char* const name) { return access(name, F_OK) == 0; }
 
 size_t File::Size() {
   struct stat f_stat;
-  stat(name_.data(), &f_stat);
+  stat(name_.c_str(), &f_stat);
   return f_stat.st_size;
 }
 
@@ -149,7 +149,7 @@ File* OpenOrDie(const absl::string_view& filename,
                 const absl::string_view& mode, int flags) {
   File* f;
   CHECK_EQ(flags, Defaults());
-  f = File::Open(filename, mode.data());
+  f = File::Open(filename, std::string(mode).c_str());
   if (f == nullptr) {
     LOG(FATAL) << absl::StrCat("Could not open '", filename, "'");
   }
diff --git a/nisaba/port/file.h b/nisaba/port/file.h
index 9e43740..83ee438 100644
--- a/nisaba/port/file.h
+++ b/nisaba/port/file.h
@@ -16,6 +16,8 @@
 #ifndef NISABA_PORT_FILE_H_
 #define NISABA_PORT_FILE_H_
 
+#include <string>
+
 #include "google/protobuf/message.h"
 #include "absl/status/status.h"
 #include "absl/strings/string_view.h"
@@ -29,7 +31,7 @@ class File {
 #ifndef SWIG  // no overloading
   inline static File* Open(const absl::string_view& name,
                            const char* const mode) {
-    return Open(name.data(), mode);
+    return Open(std::string(name).c_str(), mode);
   }
 #endif  // SWIG
 
@@ -40,7 +42,7 @@ class File {
 #ifndef SWIG  // no overloading
   inline static File* OpenOrDie(const absl::string_view& name,
                                 const char* const flag) {
-    return OpenOrDie(name.data(), flag);
+    return OpenOrDie(std::string(name).c_str(), flag);
   }
 #endif  // SWIG
 
@@ -91,7 +93,7 @@ class File {
   // Deletes a file.
   static bool Delete(const char* const name);
   static bool Delete(const absl::string_view& name) {
-    return Delete(name.data());
+    return Delete(std::string(name).c_str());
   }
 
   // Tests if a file exists.
@@ -103,7 +105,7 @@ class File {
   File(FILE* const f_des, const absl::string_view& name);
 
   FILE* f_;
-  const absl::string_view name_;
+  const std::string name_;
 };
 
 namespace file {
-- 
2.43.0


From 7b06e7ea4b5a7477726553346161f5b7fb5a20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 16/52] fix: remove the carriage return at line end in
 ReadLines, as documented

---
 nisaba/port/file_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index cff7eb0..c55128c 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -168,6 +168,7 @@ absl::StatusOr<std::vector<std::string>> ReadLines(
   }
   std::string line;
   while (std::getline(ifs, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();
     if (line.empty()) continue;
     if (line.size() >= max_length) line[max_length - 1] = '\0';
     input_lines.emplace_back(line);
-- 
2.43.0


From 8bf732f531177af67ceb302d2b591e41d798bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 17/52] fix: report an error when a directory is read as a file

---
 nisaba/port/file_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index c55128c..99c11b5 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -135,7 +135,8 @@ absl::StatusOr<std::string> ReadFile(absl::string_view file_path,
   std::string contents;
   input.seekg(0, std::ios::end);
   const std::streampos file_size = input.tellg();
-  if (file_size <= 0) {
+  // The size of a directory that is opened as a file is meaningless.
+  if (file_size <= 0 || std::filesystem::is_directory(std::string(file_path))) {
     return absl::InternalError("File empty or invalid");
   }
   contents.reserve(file_size);
-- 
2.43.0


From fa221435ac504bd838eb1198346be3be826bb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 18/52] fix: report text files that could not be written out

---
 nisaba/port/file_util.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index 99c11b5..65d956e 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -98,6 +98,7 @@ absl::StatusOr<std::string> WriteTempTextFile(absl::string_view filename,
     return absl::PermissionDeniedError(absl::StrCat("Failed to open: ", path));
   }
   out << contents;
+  out.close();  // Flushes, which may fail.
   if (!out.good()) {
     return absl::InternalError(absl::StrCat("Failed to write to", path));
   }
@@ -113,6 +114,7 @@ absl::Status WriteTextFile(absl::string_view file_path,
         absl::StrCat("Failed to open: ", file_path));
   }
   output << contents;
+  output.close();  // Flushes, which may fail.
   if (!output) {
     return absl::PermissionDeniedError(absl::StrCat(
         "Failed to write: ", contents.size(), " bytes to ", file_path));
-- 
2.43.0


From 8c32ca0c7cc60429b0fe2bcf7ca20426e6560c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 19/52] fix: report read errors in ReadLines

---
 nisaba/port/file_util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index 65d956e..242364b 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -176,6 +176,9 @@ absl::StatusOr<std::vector<std::string>> ReadLines(
     if (line.size() >= max_length) line[max_length - 1] = '\0';
     input_lines.emplace_back(line);
   }
+  if (ifs.bad()) {
+    return absl::InternalError(absl::StrCat("Failed to read: ", input_file));
+  }
   return input_lines;
 }
 
-- 
2.43.0


From ff566b8355dd4e58e9137c7d3057bfe46bc65e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 20/52] fix: read an empty output column as an empty string,
 not as the next column

---
 nisaba/translit/tools/calculate_error_rate.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index aade700..3aaf0c4 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -357,8 +357,8 @@ void MultiRefErrorRate::ReadInputs(absl::string_view input_file,
   QCHECK(input_lines_status.ok()) << "Failed to read " << input_file;
   const std::vector<std::string> input_lines = input_lines_status.value();
   for (const std::string &str : input_lines) {
-    const std::vector<std::string> seq =
-        absl::StrSplit(str, '\t', absl::SkipEmpty());
+    // The output string may be empty, hence empty columns are not skipped.
+    const std::vector<std::string> seq = absl::StrSplit(str, '\t');
     QCHECK_GE(seq.size(), 2);
     int input_idx = std::stoi(seq[0]);
     int osym = 0;
@@ -370,8 +370,8 @@ void MultiRefErrorRate::ReadInputs(absl::string_view input_file,
     }
     // Default count (in reference) is 1.0; otherwise default (-logP) is 0.0.
     double item_value = is_reference ? 1.0 : 0.0;
-    if (seq.size() > 2) {
-      QCHECK_LE(seq.size(), 3);
+    QCHECK_LE(seq.size(), 3);
+    if (seq.size() > 2 && !seq[2].empty()) {
       item_value = std::stod(seq[2]);
     }
     if (is_reference) {
-- 
2.43.0


From 88fb6aafa70d984d7e3d175a8ed1d6dfac3fe7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 21/52] fix: escape the strings in the json of pairwise edits

---
 nisaba/translit/tools/calculate_error_rate.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 3aaf0c4..0625453 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -188,6 +188,21 @@ double GetNormalizer(const std::vector<std::pair<int, double>> &input_pairs) {
   return -log(exp_sum);
 }
 
+// Escapes the characters that may not occur as they are in a json string.
+std::string JsonEscape(absl::string_view str) {
+  std::string escaped;
+  for (const unsigned char c : str) {
+    if (c == '"' || c == '\\') {
+      absl::StrAppend(&escaped, "\\", std::string(1, c));
+    } else if (c < 0x20) {
+      absl::StrAppend(&escaped, "\\u", absl::Hex(c, absl::kZeroPad4));
+    } else {
+      escaped.push_back(c);
+    }
+  }
+  return escaped;
+}
+
 // Writes vector of candidates to output file in expected json format, after
 // normalizing the weights, and returns vector of probabilities.
 std::vector<double> WriteCands(std::ofstream &output_file,
@@ -197,7 +212,7 @@ std::vector<double> WriteCands(std::ofstream &output_file,
   std::vector<double> probs;
   probs.reserve(cands.size());
   for (int i = 0; i < cands.size(); ++i) {
-    const std::string hyp_word = syms.Find(cands[i].first);
+    const std::string hyp_word = JsonEscape(syms.Find(cands[i].first));
     probs.push_back(exp(-cands[i].second + norm));
     const std::string delim = i > 0 ? ", \"" : "\"";
     impl::LineToFile(output_file,
-- 
2.43.0


From f3d3a8ab7e937029a270485ddbb77adb776f7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:04 +0000
Subject: [PATCH 22/52] fix: pairwise edits give reference lengths in the units
 of the distances

---
 nisaba/translit/tools/calculate_error_rate.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 0625453..9e60458 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -274,13 +274,16 @@ std::string GetDistances(const std::vector<std::vector<int>> &dists) {
   return absl::StrJoin(dist_arrays, ", ");
 }
 
-// Returns vector of lengths of strings in cands.
+// Returns vector of lengths of strings in cands, in the units of the distances.
 std::vector<int> GetLengths(const std::vector<std::pair<int, double>> &cands,
-                            const fst::SymbolTable &syms) {
+                            const fst::SymbolTable &syms, bool split_chars) {
   std::vector<int> lengths;
   lengths.reserve(cands.size());
   for (const auto cand : cands) {
-    lengths.push_back(utf8::StrSplitByChar(syms.Find(cand.first)).size());
+    lengths.push_back(
+        cand.first == 0
+            ? 0
+            : MaybeSplitChars(syms.Find(cand.first), split_chars).size());
   }
   return lengths;
 }
@@ -344,7 +347,8 @@ void MultiRefErrorRate::WritePairwiseEdits(std::ofstream &output_file) {
     impl::LineToFile(output_file,
                      impl::GetBracketedVectorString(
                          std::vector<int>(test_input_[idx].size(), 0),
-                         impl::GetLengths(references_[idx], output_syms_)),
+                         impl::GetLengths(references_[idx], output_syms_,
+                                          is_split_chars_)),
                      /*newline=*/false);
     impl::LineToFile(output_file, "}", /*newline=*/true);
   }
-- 
2.43.0


From 66281ba5239f53c615ac78b97fab9bc8d0ae0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:12 +0000
Subject: [PATCH 23/52] fix: normalize large negative log weights without
 underflow in pairwise edits

---
 nisaba/translit/tools/calculate_error_rate.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 9e60458..6f8bb50 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -14,6 +14,7 @@
 
 #include "nisaba/translit/tools/calculate_error_rate.h"
 
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <string>
@@ -181,11 +182,17 @@ std::vector<std::string> MaybeSplitChars(absl::string_view str,
 
 // Accumulates a normalizer from a vector of pairs including -log weights.
 double GetNormalizer(const std::vector<std::pair<int, double>> &input_pairs) {
+  if (input_pairs.empty()) return 0.0;
+  // Scales by the minimum weight, so that large weights do not underflow.
+  double min_weight = input_pairs[0].second;
+  for (const auto input_pair : input_pairs) {
+    min_weight = std::min(min_weight, input_pair.second);
+  }
   double exp_sum = 0.0;
   for (const auto input_pair : input_pairs) {
-    exp_sum += exp(-input_pair.second);
+    exp_sum += exp(min_weight - input_pair.second);
   }
-  return -log(exp_sum);
+  return min_weight - log(exp_sum);
 }
 
 // Escapes the characters that may not occur as they are in a json string.
-- 
2.43.0


From 561c458f91966378103ea97478bb2d2295325f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 24/52] fix: pairwise edits of the right item after an index
 without references

---
 nisaba/translit/tools/calculate_error_rate.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 6f8bb50..6b17523 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -323,6 +323,7 @@ void MultiRefErrorRate::WriteErrorRate(std::ofstream &output_file) {
 
 void MultiRefErrorRate::WritePairwiseEdits(std::ofstream &output_file) {
   for (int idx = 0; idx < references_.size(); ++idx) {
+    if (references_[idx].empty()) continue;  // Nothing given for this index.
     // Writes system outputs with probabilities.
     impl::LineToFile(output_file, "{\"hyp\": {", /*newline=*/false);
     const auto p1 =
@@ -478,7 +479,8 @@ void MultiRefErrorRate::CalculatePairwiseErrors(int idx) {
 
 void MultiRefErrorRate::CalculateErrorRate(int idx, bool pairwise_edits) {
   if (references_[idx].empty()) {
-    // Nothing to do for this example.
+    // Nothing to do for this example. Keeps the items and their edits aligned.
+    if (pairwise_edits) pairwise_edits_.emplace_back();
     return;
   }
   if (pairwise_edits) {
-- 
2.43.0


From 7a390c080eda133c808e74b73408e478c4b23639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 25/52] fix: default k-best of rejoined lists counts the last
 string too

---
 nisaba/translit/tools/kbest-full-string-util.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index 9c9d4c8..07f592e 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -667,6 +667,11 @@ void KbestRejoiner::InitializeKbestRejoiner(
       last_input = seq[0];
       curr_list.back().push_back(std::make_pair(seq[1], std::stod(seq[2])));
     }
+    for (const auto &curr_set : curr_list) {
+      if (curr_set.size() > max_kbest) {
+        max_kbest = curr_set.size();
+      }
+    }
     kbest_lists_.push_back(curr_list);
     QCHECK_EQ(kbest_lists_.size(), output_indices_.back() + 1);
   }
-- 
2.43.0


From af85e25d7960c139275df070ae2d22ebd536acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 26/52] fix: normalize k-best scores without underflow of large
 costs

---
 nisaba/translit/tools/kbest-full-string-util.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index 07f592e..b51b6ea 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -89,6 +89,15 @@ int MostFreqValue(std::vector<int> input_vec, int *min_value = nullptr) {
   return most_freq_val;
 }
 
+// Returns the negative log of the sum of two probabilities, each given as
+// negative log. Does not underflow, however large the values are.
+double NegLogSum(double a, double b) {
+  const double low = std::min(a, b);
+  const double high = std::max(a, b);
+  if (std::isinf(high)) return low;
+  return low - std::log1p(std::exp(low - high));
+}
+
 // Returns (whitespace delimited) word count for string.
 int GetWordCount(const std::string &str) {
   const std::vector<std::string> seq = absl::StrSplit(
@@ -189,7 +198,7 @@ std::vector<std::vector<std::pair<std::string, double>>> NormAndPairList(
     double tot = system_scores[i][0];
     input_to_ensemble[i].reserve(system_scores[i].size());
     for (int j = 1; j < system_scores[i].size(); ++j) {
-        tot = -log(exp(-tot) + exp(-system_scores[i][j]));
+        tot = NegLogSum(tot, system_scores[i][j]);
     }
     for (int j = 0; j < system_scores[i].size(); ++j) {
       input_to_ensemble[i].push_back(
@@ -259,8 +268,7 @@ std::vector<std::pair<std::string, double>> GetOutputs(
       curr_st = arc.nextstate;
     }
     kbest_scores[i] += kbest_strings.Final(curr_st).Value();
-    tot_cost =
-        i == 0 ? kbest_scores[i] : -log(exp(-tot_cost) + exp(-kbest_scores[i]));
+    tot_cost = i == 0 ? kbest_scores[i] : NegLogSum(tot_cost, kbest_scores[i]);
   }
   std::vector<std::pair<std::string, double>> result(start_states.size());
   for (int i = 0; i < start_states.size(); ++i) {
-- 
2.43.0


From bb2ce83b6e16b28fd3fba7308944ee18366a23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:25 +0000
Subject: [PATCH 27/52] fix: start the threads that decode with pair language
 models

---
 nisaba/translit/fst/pairlm_decoder.cc        | 1 +
 nisaba/translit/fst/pairlm_decoder_runner.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index bb6af6c..a22bae7 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -1022,6 +1022,7 @@ StdVectorFst PairLMDecoder::BuildTransliterationFst(
   std::vector<StdVectorFst> translit_fsts(input_words.size());
   {
      ThreadPool pool(max_parallel_tokens_);
+     pool.StartWorkers();
      for (int i = 0; i < input_words.size(); ++i) {
        pool.Schedule([this, i, word_k_best, &translit_fsts, &input_words,
          &fst_params] {
diff --git a/nisaba/translit/fst/pairlm_decoder_runner.cc b/nisaba/translit/fst/pairlm_decoder_runner.cc
index 6b04791..a55f521 100644
--- a/nisaba/translit/fst/pairlm_decoder_runner.cc
+++ b/nisaba/translit/fst/pairlm_decoder_runner.cc
@@ -80,6 +80,7 @@ absl::Status ParallelDecoding(const PairLMDecoderOptions &config,
       std::make_unique<PairLMDecoder>(config);
   std::unique_ptr<ThreadPool> thread_pool =
       std::make_unique<ThreadPool>(num_workers);
+  thread_pool->StartWorkers();
 
   int index = 0;
   for (const auto &input_line : input_lines) {
-- 
2.43.0


From 6e0421bef78a5f2f2a570b905c8efcc2146a70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:25 +0000
Subject: [PATCH 28/52] fix: pairlm_translit_weight was reset after it was read

---
 nisaba/translit/fst/pairlm_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index a22bae7..a65757b 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -411,6 +411,7 @@ void PairLMDecoder::InitializePairLMDecoder(
                              : kDefaultMaxParallelTokens;
   oov_cost_ =
       pairlm_config.has_oov_cost() ? pairlm_config.oov_cost() : kOOVCost;
+  pairlm_translit_weight_ = kDefaultMixWeight;
   InitializeExternalTransliterations(pairlm_config);
   max_word_cands_ = pairlm_config.has_max_word_cands()
                         ? pairlm_config.max_word_cands()
@@ -421,7 +422,6 @@ void PairLMDecoder::InitializePairLMDecoder(
   min_cand_posterior_ = pairlm_config.has_min_cand_posterior()
                             ? pairlm_config.min_cand_posterior()
                             : kMinCandPosterior;
-  pairlm_translit_weight_ = kDefaultMixWeight;
   sample_from_k_best_ = pairlm_config.sample_from_k_best();
   if (pairlm_config.has_random_seed()) {
     random_seed_ = pairlm_config.random_seed();
-- 
2.43.0


From 153b6fafa0b014f00ff54b0f7f2637f136bc9b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:25 +0000
Subject: [PATCH 29/52] fix: read the candidate symbols of a segmented word
 under the lock

---
 nisaba/translit/fst/pairlm_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index a65757b..d915c1f 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -804,6 +804,7 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
       // concatenates along the path. Only non-epsilon labels added to
       // new_symbol.
       const StdArc arc = aiter.Value();
+      fst_params.mutex.lock();
       std::string new_symbol =
           arc.ilabel > 0 ? fst_params.cand_syms.Find(arc.ilabel) : "";
       double cost = arc.weight.Value();
@@ -821,7 +822,6 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
         next_state = next_arc.nextstate;
       }
       cost += best_concat_strings.Final(next_state).Value();
-      fst_params.mutex.lock();
       AddCandSymArc(new_symbol, cost, word_final_state, fst_params,
                     &translit_result);
       fst_params.mutex.unlock();
-- 
2.43.0


From da7782b4dde1b46bdfa8169df5bd408aec2215d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:25 +0000
Subject: [PATCH 30/52] fix: mix the candidates of a repeated word with the
 listed ones only once

---
 nisaba/translit/fst/pairlm_decoder.cc | 40 +++++++++++++--------------
 nisaba/translit/fst/pairlm_decoder.h  |  5 ++--
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index d915c1f..aa93dc4 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -830,18 +830,26 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
   return translit_result;
 }
 
-void PairLMDecoder::ExtractCachedWordTransliterations(
+bool PairLMDecoder::ExtractCachedWordTransliterations(
     absl::string_view input_word, TranslitContext &fst_params,
     StdVectorFst &cached) {
+  absl::flat_hash_map<std::string, double> cached_pairs;
   mutex_.lock_shared();
-  const auto cached_pairs = global_word_transliteration_cache_.at(input_word);
+  const bool override = mix_overrides_.contains(input_word);
+  const auto cached_it = global_word_transliteration_cache_.find(input_word);
+  const bool vocab_check =
+      cached_it != global_word_transliteration_cache_.end();
+  if (vocab_check) cached_pairs = cached_it->second;
   mutex_.unlock_shared();
   for (const auto &pair : cached_pairs) {
     AddCandSymArc(pair.first, pair.second,
                   /*destination_state=*/1, fst_params, &(cached));
   }
-  impl::PushInLogSemiring(&(cached),
-                          /*determinize=*/true);
+  if (vocab_check) {
+    impl::PushInLogSemiring(&(cached),
+                            /*determinize=*/true);
+  }
+  return override;
 }
 
 StdVectorFst PairLMDecoder::TransliterateUnsegmentedWord(
@@ -910,19 +918,14 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
   if (!fst_params.word_transliteration_cache.contains(input_word)) {
     // Adds input_word since it has not been seen before.
     fst_params.input_syms.AddSymbol(input_word);
-    // Add premixed.
-    mutex_.lock_shared();
-    const bool override = mix_overrides_.contains(input_word);
-    mutex_.unlock_shared();
-    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
-    //  Add global cache.
+    // Add premixed and global cache. Both are read under the same lock, so that
+    // they are consistent if another line is being transliterated.
     StdVectorFst cached;
     cached.SetStart(cached.AddState());
     cached.SetFinal(cached.AddState(), StdArc::Weight::One());
-    const bool vocab_check = CheckCache(input_word);
-    if (vocab_check) {
-      ExtractCachedWordTransliterations(input_word, fst_params, cached);
-    }
+    const bool override =
+        ExtractCachedWordTransliterations(input_word, fst_params, cached);
+    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
     fst_params.word_transliteration_cache.insert_or_assign(input_word, cached);
   }
   fst_params.mutex.unlock();
@@ -955,16 +958,12 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
 
   // If the word is marked as mixed, no need to mix or cache again, so return
   // right away.
-  fst_params.mutex.lock_shared();
-  const bool override = fst_params.mixed_with_precomputed.at(input_word);
-  fst_params.mutex.unlock_shared();
-  if (override) {
+  absl::MutexLock params_lock(fst_params.mutex);
+  if (fst_params.mixed_with_precomputed.at(input_word)) {
     // Returns cached word transliterations.
-    absl::ReaderMutexLock lock(fst_params.mutex);
     return fst_params.word_transliteration_cache.at(input_word);
   }
 
-  fst_params.mutex.lock();
   // Adds Fst weighting to final state of Fst automaton prior to union.
   QCHECK_EQ(word_transliterations.NumStates(), 2);
   QCHECK_EQ(word_transliterations.Start(), 0);
@@ -999,7 +998,6 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
     }
     mix_overrides_.emplace(input_word);
   }
-  fst_params.mutex.unlock();
 
   return word_transliterations;
 }
diff --git a/nisaba/translit/fst/pairlm_decoder.h b/nisaba/translit/fst/pairlm_decoder.h
index 6d9a07b..ec9d612 100644
--- a/nisaba/translit/fst/pairlm_decoder.h
+++ b/nisaba/translit/fst/pairlm_decoder.h
@@ -159,8 +159,9 @@ class PairLMDecoder {
   void BuildCandToLMFst(absl::string_view new_symbol,
                         ::fst::StdVectorFst *cand_to_lm);
 
-  // Build FST containing transliterations from global cache
-  void ExtractCachedWordTransliterations(absl::string_view input_word,
+  // Build FST containing transliterations from global cache. Returns whether
+  // these override, or already include, the output of the pair LM.
+  bool ExtractCachedWordTransliterations(absl::string_view input_word,
                                          TranslitContext &fst_params,
                                          ::fst::StdVectorFst &cached);
 
-- 
2.43.0


From c430a87844100d1b2f3bde170bd8971f6c57d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:25 +0000
Subject: [PATCH 31/52] fix: crash on a word that was seen before as a part of
 another

---
 nisaba/translit/fst/pairlm_decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index aa93dc4..1b0c406 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -914,10 +914,10 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
                                               int k_best,
                                               TranslitContext &fst_params) {
   fst_params.mutex.lock();
+  // Adds input_word, which may have been seen before only as part of a word.
+  fst_params.input_syms.AddSymbol(input_word);
   // We haven't seen this word, so initialize it in indexes.
   if (!fst_params.word_transliteration_cache.contains(input_word)) {
-    // Adds input_word since it has not been seen before.
-    fst_params.input_syms.AddSymbol(input_word);
     // Add premixed and global cache. Both are read under the same lock, so that
     // they are consistent if another line is being transliterated.
     StdVectorFst cached;
-- 
2.43.0


From c7f7181153ae2c75151d7fee016095f94b71793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 32/52] fix: crash on empty candidates with a word piece
 language model

---
 nisaba/translit/fst/pairlm_decoder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 1b0c406..43da9d0 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -706,6 +706,11 @@ void PairLMDecoder::AddToCandsToLMFst(absl::string_view new_symbol,
       lm_syms.push_back(lm_sym);
     }
   }
+  if (lm_syms.empty()) {
+    // An empty candidate has no word pieces, so assigns OOV symbol and cost.
+    lm_syms.push_back(lm_oov_index_);
+    cost += oov_cost_;
+  }
   int cand_ilabel = cand_sym;
   int curr_state = fst_params.cands_to_lm_fst->Start();
   for (int i = 0; i < lm_syms.size(); ++i) {
-- 
2.43.0


From 6b1cf368a584824c3561ab98ea3cd20f125f20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 33/52] fix: apply min_cand_posterior to words with few
 candidates too

---
 nisaba/translit/fst/pairlm_decoder.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 43da9d0..0a0f3aa 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -289,7 +289,6 @@ void PushInLogSemiring(StdVectorFst *fst, bool determinize = false) {
 std::vector<bool> ApplyArcScoreThresh(const StdVectorFst &fst, int state,
                                       int k_best, double min_cand_posterior,
                                       const std::vector<double> *costs) {
-  QCHECK_LT(k_best, fst.NumArcs(state));
   std::vector<bool> keep_arc(fst.NumArcs(state), false);
   std::vector<std::pair<double, size_t>> scores;
   size_t arc_idx = 0;
@@ -306,7 +305,7 @@ std::vector<bool> ApplyArcScoreThresh(const StdVectorFst &fst, int state,
     ++arc_idx;
   }
   std::sort(scores.begin(), scores.end());
-  for (int i = 0; i < k_best; ++i) {
+  for (int i = 0; i < k_best && i < scores.size(); ++i) {
     if (i == 0 || min_cand_posterior <= 0.0 ||
         scores[i].first <= -log(min_cand_posterior)) {
       // Always takes the lowest cost item; otherwise only adds if cost less
@@ -1116,7 +1115,7 @@ void PairLMDecoder::ApplyFinalKBestFilter(
     StdVectorFst *transliteration_fst) const {
   int dead_state = kNoStateId;
   for (int s = 0; s < transliteration_fst->NumStates(); ++s) {
-    if (transliteration_fst->NumArcs(s) > k_best) {
+    if (transliteration_fst->NumArcs(s) > k_best || min_cand_posterior_ > 0.0) {
       // Calculates score threshold if some pruning required at state. If
       // pruning required, makes sure that a sink state has been created.
       std::vector<bool> keep_arc =
@@ -1155,7 +1154,7 @@ void PairLMDecoder::AssignLabelsAndCostsToTranslitLattice(
     int input_sym = fst_params.input_syms.Find(input_string[s]);
     QCHECK_GT(input_sym, 0);  // Checks that symbol is found and not <epsilon>.
     std::vector<bool> keep_arc;
-    if (transliteration_fst->NumArcs(s) > k_best) {
+    if (transliteration_fst->NumArcs(s) > k_best || min_cand_posterior_ > 0.0) {
       // Calculates score threshold if some pruning required at state. If
       // pruning required, makes sure that a sink state has been created.
       keep_arc =
-- 
2.43.0


From cc9901ffdb2a06710c3691b50d12fd9e0c143050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 34/52] fix: crash on blank lines with a language model

---
 nisaba/translit/fst/pairlm_decoder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 0a0f3aa..f2a1d69 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -1193,7 +1193,8 @@ StdVectorFst PairLMDecoder::TransliterateString(absl::string_view input_line,
   TranslitContext fst_params(epsilon_symbol_);
   StdVectorFst transliteration_fst =
       BuildTransliterationFst(input_line, k_best, fst_params, &unique_arc_id);
-  if (lm_fst_ != nullptr) {
+  // With no words there is nothing for the language model to choose.
+  if (lm_fst_ != nullptr && unique_arc_id.size() > 1) {
     StdVectorFst lm_labels_lattice_fst;
     auto cands_ptr = *(fst_params.cands_to_lm_fst);
     if (apply_lm_at_word_level_) {
-- 
2.43.0


From fbac37989b1c1c549a8ef0f8e9e4a526eda7f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 35/52] fix: report write errors when transliterations are
 flushed

---
 nisaba/translit/fst/pairlm_decoder_runner.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder_runner.cc b/nisaba/translit/fst/pairlm_decoder_runner.cc
index a55f521..dfcde32 100644
--- a/nisaba/translit/fst/pairlm_decoder_runner.cc
+++ b/nisaba/translit/fst/pairlm_decoder_runner.cc
@@ -63,6 +63,10 @@ absl::Status SequentialDecoding(const PairLMDecoderOptions &config,
       return absl::InternalError("Failed to write to the output file");
     }
   }
+  output_file.close();
+  if (!output_file) {
+    return absl::InternalError("Failed to write to the output file");
+  }
   return absl::OkStatus();
 }
 
@@ -106,6 +110,7 @@ absl::Status ParallelDecoding(const PairLMDecoderOptions &config,
       outputs, "", [](std::string *output, const auto &entry) {
         absl::StrAppend(output, entry.first);
       });
+  output_file.close();
   if (!output_file) {
     return absl::InternalError("Failed to write to the output file");
   } else {
-- 
2.43.0


From ca8d80b756c9759d7ca4a6a49e0bf6561d789d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 36/52] fix: report write errors when error rates are flushed

---
 nisaba/translit/tools/calculate_error_rate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index 6b17523..79577bc 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -371,6 +371,8 @@ void MultiRefErrorRate::Write(absl::string_view ofile, bool pairwise_edits) {
   } else {
     WriteErrorRate(output_file);
   }
+  output_file.close();  // Flushes, which may fail.
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 void MultiRefErrorRate::ReadInputs(absl::string_view input_file,
-- 
2.43.0


From 85729f25ba356864a6b859e6dba545349baf8029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 37/52] fix: report write errors when k-best strings are
 flushed

---
 nisaba/translit/tools/kbest-full-string-util.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index b51b6ea..b3da115 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -538,6 +538,8 @@ void EnsembleFiles::RunEnsembleAndOutput(int kbest, const std::string &ofile) {
       QCHECK(output_file);
     }
   }
+  output_file.close();  // Flushes, which may fail.
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 std::vector<std::pair<std::string, double>> KbestExtractor::GetBest(
@@ -622,6 +624,8 @@ void KbestExtractor::RunExtractorAndOutput(const std::string &ofile, int kbest,
       QCHECK(output_file);
     }
   }
+  output_file.close();  // Flushes, which may fail.
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 void KbestRejoiner::InitializeKbestRejoiner(absl::string_view ifile,
@@ -719,6 +723,8 @@ void KbestRejoiner::RunRejoinerAndOutput(const std::string &ofile) {
     }
     ++output_idx;
   }
+  output_file.close();  // Flushes, which may fail.
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 }  // namespace tools
-- 
2.43.0


From 46f74b45f6598a02d03b0ddd8b8d47f46089eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:11 +0000
Subject: [PATCH 38/52] fix: grammars that share a manager no longer each
 delete it

Every Grammar that was given a GrmManager kept it in a shared_ptr of its own, so
that the manager, which is documented to be shareable, was deleted once per
grammar. Grammars with the same manager now have one owner in common.
---
 nisaba/scripts/brahmic/grammar.cc | 16 ++++++++++++++++
 nisaba/scripts/brahmic/grammar.h  |  9 +++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/brahmic/grammar.cc b/nisaba/scripts/brahmic/grammar.cc
index c22b946..12e5fcb 100644
--- a/nisaba/scripts/brahmic/grammar.cc
+++ b/nisaba/scripts/brahmic/grammar.cc
@@ -14,7 +14,10 @@
 
 #include "nisaba/scripts/brahmic/grammar.h"
 
+#include <map>
 #include <memory>
+#include <mutex>
+#include <string>
 
 #include "nisaba/interim/grm2/thrax/grm-manager.h"
 #include "absl/status/status.h"
@@ -63,6 +66,19 @@ std::string MakeFarFilePath(absl::string_view far_path,
       far_path, absl::StrCat(absl::AsciiStrToLower(far_name), kFarExtn));
 }
 
+std::shared_ptr<GrmManager> Grammar::ShareManager(GrmManager *manager) {
+  static auto *const mutex = new std::mutex;
+  static auto *const owners = new std::map<GrmManager *,
+                                           std::weak_ptr<GrmManager>>;
+  const std::lock_guard<std::mutex> lock(*mutex);
+  std::shared_ptr<GrmManager> owner = (*owners)[manager].lock();
+  if (owner == nullptr) {
+    owner.reset(manager);
+    (*owners)[manager] = owner;
+  }
+  return owner;
+}
+
 absl::Status Grammar::Load() {
   RETURN_IF_ERROR(LoadArchive(far_file_path_, *grm_mgr_));
   RETURN_IF_ERROR(VerifyLoad());
diff --git a/nisaba/scripts/brahmic/grammar.h b/nisaba/scripts/brahmic/grammar.h
index 4d90e42..8d9c6d5 100644
--- a/nisaba/scripts/brahmic/grammar.h
+++ b/nisaba/scripts/brahmic/grammar.h
@@ -56,12 +56,13 @@ class Grammar {
       : Grammar(kFarPath, far_name, fst_name) {}
 
   // Takes a GrmManager that was previously created and loaded from a file. The
-  // same manager can be shared with other Grammars.
+  // same manager can be shared with other Grammars. It is deleted together with
+  // the last of them.
   Grammar(absl::string_view far_name, absl::string_view fst_name,
           thrax::GrmManager *grm_manager)
       : far_file_path_(MakeFarFilePath(kFarPath, far_name)),
         fst_name_(absl::AsciiStrToUpper(fst_name)),
-        grm_mgr_(grm_manager) {}
+        grm_mgr_(ShareManager(grm_manager)) {}
 
   // Loads the FAR file and verifies that the FST is found.
   absl::Status Load();
@@ -76,6 +77,10 @@ class Grammar {
  private:
   Grammar() = delete;
 
+  // Returns the owner common to all the grammars that are given this manager.
+  static std::shared_ptr<thrax::GrmManager> ShareManager(
+      thrax::GrmManager *manager);
+
   const std::string far_file_path_;
   std::string fst_name_;
   const std::shared_ptr<thrax::GrmManager> grm_mgr_;
-- 
2.43.0


From 96fc4bdff3c48691abd0bcef747b225576be3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:11 +0000
Subject: [PATCH 39/52] fix: a failed VerifyLoad no longer changes which
 grammar is loaded later

Verifying before loading replaced the language by its script, although the FST
of the script was not found either, so that a following Load used the grammar of
the script instead of the one of the language, or failed if it has none.
---
 nisaba/scripts/brahmic/grammar.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/brahmic/grammar.cc b/nisaba/scripts/brahmic/grammar.cc
index 12e5fcb..7081e52 100644
--- a/nisaba/scripts/brahmic/grammar.cc
+++ b/nisaba/scripts/brahmic/grammar.cc
@@ -101,12 +101,13 @@ absl::Status Grammar::VerifyLoad() {
           "FST \"", fst_name_, "\" not found in lowercase inside FAR \"",
           far_path.value(), "\""));
     }
-    fst_name_ = absl::AsciiStrToUpper(entry->second);
-    if (grm_mgr_->GetFstMap()->count(fst_name_) == 0) {
+    const std::string script_fst_name = absl::AsciiStrToUpper(entry->second);
+    if (grm_mgr_->GetFstMap()->count(script_fst_name) == 0) {
       return absl::InternalError(absl::StrCat(
-          "FST \"", fst_name_, "\" not found in uppercase inside FAR \"",
+          "FST \"", script_fst_name, "\" not found in uppercase inside FAR \"",
           far_path.value(), "\""));
     }
+    fst_name_ = script_fst_name;
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From e46dbb5a8779adab9351327585e750e22fa09471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 40/52] fix: a path iterator that is reset midway starts over

---
 nisaba/interim/grm2/paths/paths.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nisaba/interim/grm2/paths/paths.h b/nisaba/interim/grm2/paths/paths.h
index 29c5845..bb66d04 100644
--- a/nisaba/interim/grm2/paths/paths.h
+++ b/nisaba/interim/grm2/paths/paths.h
@@ -128,6 +128,11 @@ PathIterator<Arc>::PathIterator(const Fst<Arc> &fst, bool check_acyclic)
 
 template <class Arc>
 void PathIterator<Arc>::Reset() {
+  path_states_.clear();
+  path_ilabels_.clear();
+  path_olabels_.clear();
+  path_weights_.clear();
+  arc_iterator_offsets_.clear();
   pop_labels_ = false;
   const auto start = fst_->Start();
   if (start == kNoStateId) return;
-- 
2.43.0


From e8ff15f92fa1f0e653b8e000878d7c4af85268d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 41/52] fix: a tie with a longer output is no single best
 rewrite

---
 nisaba/interim/grm2/rewrite/base_rule_cascade.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/base_rule_cascade.h b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
index 8ba9cc8..3fa95b9 100644
--- a/nisaba/interim/grm2/rewrite/base_rule_cascade.h
+++ b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
@@ -250,7 +250,9 @@ bool BaseRuleCascade<Arc>::OneTopRewrite(absl::string_view input,
   // Make sure there is only one path.
   for (::fst::StateIterator<MutableTransducer> siter(*output); !siter.Done();
        siter.Next()) {
-    if (output->NumArcs(siter.Value()) > 1) return false;
+    const auto state = siter.Value();
+    const bool is_final = output->Final(state) != Arc::Weight::Zero();
+    if (output->NumArcs(state) + is_final > 1) return false;
   }
   return true;
 }
-- 
2.43.0


From 70a590f198a4a5d2b981441fa1b4ccece5f7fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 42/52] fix: the best rewrites of a cascade as a repeated field
 compile

---
 nisaba/interim/grm2/rewrite/base_rule_cascade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/base_rule_cascade.h b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
index 3fa95b9..622241b 100644
--- a/nisaba/interim/grm2/rewrite/base_rule_cascade.h
+++ b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
@@ -349,7 +349,7 @@ bool BaseRuleCascade<Arc>::TopRewrites(
     google::protobuf::RepeatedPtrField<std::string> *output) const {
   output->Clear();
   MutableTransducer lattice;
-  if (!TopRewrites(input, nshortest, lattice)) return false;
+  if (!TopRewrites(input, nshortest, &lattice)) return false;
   return LatticeToStrings(lattice, output, token_type_);
 }
 #endif  // NO_GOOGLE
-- 
2.43.0


From 10574f93e070ed871fad825c44411e8858160206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 43/52] fix: debug output shows no epsilons

---
 nisaba/interim/grm2/rewrite/base_rule_cascade.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/interim/grm2/rewrite/base_rule_cascade.h b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
index 622241b..bd51548 100644
--- a/nisaba/interim/grm2/rewrite/base_rule_cascade.h
+++ b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
@@ -519,6 +519,8 @@ bool BaseRuleCascade<Arc>::LabelsToDebugString(absl::string_view output,
 template <class Arc>
 void BaseRuleCascade<Arc>::PrintDebugSymbol(Label label,
                                             std::ostream &ostrm) const {
+  // The shortest path algorithm might have added epsilons.
+  if (!label) return;
   if (const auto *gensyms = GeneratedSymbols()) {
     // First check the symbol table, then back off to bytes.
     const auto &symbol = gensyms->Find(label);
-- 
2.43.0


From 4c64d032b74ef17eab3d6e48c565c3b6a463e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 44/52] fix: an input that cannot be compiled is not rewritten

---
 nisaba/interim/grm2/rewrite/base_rule_cascade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/base_rule_cascade.h b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
index bd51548..39e5fb4 100644
--- a/nisaba/interim/grm2/rewrite/base_rule_cascade.h
+++ b/nisaba/interim/grm2/rewrite/base_rule_cascade.h
@@ -538,7 +538,7 @@ void BaseRuleCascade<Arc>::PrintDebugSymbol(Label label,
 template <class Arc>
 bool BaseRuleCascade<Arc>::RewriteLattice(absl::string_view input,
                                           MutableTransducer *lattice) const {
-  compiler_(input, lattice);
+  if (!compiler_(input, lattice)) return false;
   if (!Rewrite(*lattice, lattice)) return false;
   return internal::CheckNonEmptyAndCleanup(lattice);
 }
-- 
2.43.0


From 8f5f5e33ed05f9dceac17992997043bea24c9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 45/52] fix: the best rewrites as a repeated field compile and
 are returned

---
 nisaba/interim/grm2/rewrite/rewrite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/interim/grm2/rewrite/rewrite.h b/nisaba/interim/grm2/rewrite/rewrite.h
index de9fb85..af79f62 100644
--- a/nisaba/interim/grm2/rewrite/rewrite.h
+++ b/nisaba/interim/grm2/rewrite/rewrite.h
@@ -446,7 +446,7 @@ bool TopRewrites(const ::fst::Fst<Arc> &input, const ::fst::Fst<Arc> &rule,
   ::fst::VectorFst<Arc> lattice;
   if (!RewriteLattice(input, rule, &lattice)) return false;
   LatticeToShortest(&lattice, nshortest);
-  return LatticeToStrings(lattice, ttype, syms);
+  return LatticeToStrings(lattice, output, ttype, syms);
 }
 #endif  // NO_GOOGLE
 
-- 
2.43.0


From 606f174f052cb3c32a98864cadee87daaf8d6918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 46/52] fix: a rule cascade that is initialized again forgets
 its earlier rules

---
 nisaba/interim/grm2/thrax/abstract-grm-manager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nisaba/interim/grm2/thrax/abstract-grm-manager.h b/nisaba/interim/grm2/thrax/abstract-grm-manager.h
index b54dd15..15a6501 100644
--- a/nisaba/interim/grm2/thrax/abstract-grm-manager.h
+++ b/nisaba/interim/grm2/thrax/abstract-grm-manager.h
@@ -412,6 +412,7 @@ template <typename Arc>
 bool RuleCascade<Arc>::InitFromDefs(const AbstractGrmManager<Arc>* grm,
                                     const std::vector<std::string>& rules) {
   grm_ = grm;
+  rule_triples_.clear();
   for (auto& rule : rules) rule_triples_.emplace_back(rule);
   return ValidateRules();
 }
-- 
2.43.0


From e34c1939e61b19600d5284323dad2b635b595129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:30 +0000
Subject: [PATCH 47/52] fix: symbol tables are generated once, under the lock

---
 nisaba/interim/grm2/thrax/walker/util/function/symbols.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc b/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc
index d584d0b..d6b379d 100644
--- a/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc
+++ b/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc
@@ -149,29 +149,32 @@ SymbolTableBuilder::SymbolTableBuilder()
     : byte_symbols_(nullptr), utf8_symbols_(nullptr) {}
 
 const ::fst::SymbolTable* SymbolTableBuilder::GetByteSymbolTable() {
+  absl::MutexLock lock(map_mutex_);
   if (!byte_symbols_) GenerateByteSymbolTable();
   return byte_symbols_.get();
 }
 
 const ::fst::SymbolTable* SymbolTableBuilder::GetUtf8SymbolTable() {
+  absl::MutexLock lock(map_mutex_);
   if (!utf8_symbols_) GenerateUtf8SymbolTable();
   return utf8_symbols_.get();
 }
 
 void SymbolTableBuilder::AddToByteSymbolTable(std::string symbol,
                                               int64_t label) {
+  absl::MutexLock lock(map_mutex_);
   if (!byte_symbols_) return;
   byte_symbols_->AddSymbol(symbol, label);
 }
 
 void SymbolTableBuilder::AddToUtf8SymbolTable(std::string symbol,
                                               int64_t label) {
+  absl::MutexLock lock(map_mutex_);
   if (!utf8_symbols_) return;
   utf8_symbols_->AddSymbol(symbol, label);
 }
 
 void SymbolTableBuilder::GenerateByteSymbolTable() {
-  absl::MutexLock lock(map_mutex_);
   byte_symbols_ = std::make_unique<::fst::SymbolTable>(kByteSymbolTableName);
   byte_symbols_->AddSymbol("<epsilon>", 0);
   char c_str[5];
@@ -187,7 +190,6 @@ void SymbolTableBuilder::GenerateByteSymbolTable() {
 }
 
 void SymbolTableBuilder::GenerateUtf8SymbolTable() {
-  absl::MutexLock lock(map_mutex_);
   utf8_symbols_ = std::make_unique<::fst::SymbolTable>(kUtf8SymbolTableName);
   utf8_symbols_->AddSymbol("<epsilon>", 0);
   for (int c = 1; c < 0x10000; ++c) {
-- 
2.43.0


From 273bd0a2f215519993def34b017473031b4238eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:52 +0000
Subject: [PATCH 48/52] fix: a list of feature values is found in symbols and
 plain iterables

value_in() looked up the value itself, not the features contained in it, when
the object had no has_feature method, so Symbol.has_feature() was False for
every value list; and it iterated over objects that have one, which never ended
for an Atomic that lacks the feature.
---
 nisaba/scripts/natural_translit/utils/feature.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 6f1aee1..4c7025b 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -1085,9 +1085,8 @@ def value_in(value: Feature.Aspect.VALUES, obj) -> bool:
       `value_in(gr_class.boundary, hyphen.features)`: `True`
       `value_in(gr_class.space, hyphen.features)`: `False`
   """
-  return (
-      (hasattr(obj, 'has_feature') and obj.has_feature(value))
-      or obj == value
-      or obj in value.parent_list
-      or (isinstance(obj, Iterable) and value in Feature.Set(obj))
-  )
+  if obj == value or obj in value.parent_list:
+    return True
+  if hasattr(obj, 'has_feature'):
+    return obj.has_feature(value)
+  return isinstance(obj, Iterable) and Feature.Set(obj).has_feature(value)
-- 
2.43.0


From d60cc43ac4cebe7eb05926179ebdce79c14070c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:52 +0000
Subject: [PATCH 49/52] fix: the close-mid front rounded vowel has a height

---
 nisaba/scripts/natural_translit/phonology/inventories/x_uni.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
index 86f8745..7eec2eb 100644
--- a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
+++ b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
@@ -74,7 +74,7 @@ def _phoneme_inventory() -> po.Phon.Inventory:
     open_mid_vowel.update_descriptives(phf.height.open_mid)
   for mid_vowel in [ph.ec]:
     mid_vowel.update_descriptives(phf.height.mid)
-  for close_mid_vowel in [ph.e, ph.el, ph.eo, ph.o, ph.ol]:
+  for close_mid_vowel in [ph.e, ph.el, ph.eo, ph.o, ph.oi, ph.ol]:
     close_mid_vowel.update_descriptives(phf.height.close_mid)
   for near_close_vowel in [ph.iy, ph.uv, ph.uy]:
     near_close_vowel.update_descriptives(phf.height.near_close)
-- 
2.43.0


From 3738ed770643874d2caae97182793eb7acc3cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:56 +0000
Subject: [PATCH 50/52] fix: approximants have the voicing of their row of the
 chart

The README builds the profile of a symbol from the row and the column of the
chart; the row of approximants is voiced, but the phones got the manner only.
---
 nisaba/scripts/natural_translit/phonology/inventories/x_uni.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
index 7eec2eb..fa770ea 100644
--- a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
+++ b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
@@ -290,7 +290,7 @@ def _phoneme_inventory() -> po.Phon.Inventory:
   ]:
     nonsibilant_fricative.update_descriptives(phf.manner.non_sibilant)
   for approximant_consonant in [ph.gu, ph.rru, ph.ru, ph.vu, ph.w, ph.y, ph.yw]:
-    approximant_consonant.update_descriptives(phf.manner.approximant)
+    approximant_consonant.update_descriptives(phf.approximant)
   for tap_consonant in [ph.rd, ph.rt, ph.vt]:
     tap_consonant.update_descriptives(phf.manner.tap)
   for trill_consonant in [ph.bb, ph.hh, ph.hho, ph.r, ph.rj]:
-- 
2.43.0


From 6d3072432e98ea738111b509d7609df41bac0ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:12 +0000
Subject: [PATCH 51/52] fix: --input_lm_fst_file sets the language model, not
 the pair model

---
 nisaba/translit/fst/pairlm_decoder_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder_main.cc b/nisaba/translit/fst/pairlm_decoder_main.cc
index 1779fcd..cc5cc74 100644
--- a/nisaba/translit/fst/pairlm_decoder_main.cc
+++ b/nisaba/translit/fst/pairlm_decoder_main.cc
@@ -84,7 +84,7 @@ bool Run() {
     config.set_pairlm_file(absl::GetFlag(FLAGS_input_pairlm_fst_file));
   }
   if (!absl::GetFlag(FLAGS_input_lm_fst_file).empty()) {
-    config.set_pairlm_file(absl::GetFlag(FLAGS_input_lm_fst_file));
+    config.set_lm_file(absl::GetFlag(FLAGS_input_lm_fst_file));
   }
 
   // Run the decoder.
-- 
2.43.0


From df375053620c5004f3627fb5cc396b3ae2624fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:13 +0000
Subject: [PATCH 52/52] fix: a derived sound has the base transliteration by
 default, as documented

---
 nisaba/scripts/natural_translit/phonology/modify_phon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/phonology/modify_phon.py b/nisaba/scripts/natural_translit/phonology/modify_phon.py
index a7887e8..95ab362 100644
--- a/nisaba/scripts/natural_translit/phonology/modify_phon.py
+++ b/nisaba/scripts/natural_translit/phonology/modify_phon.py
@@ -83,7 +83,7 @@ MOD = p.phon_inventory(
 def derive_with_suffix(
     phon: p.Phon,
     modifier: p.Phon,
-    new_tr: pyn.Fst = pyn.Fst()
+    new_tr: ty.FstIterable = ty.UNSPECIFIED,
 ) -> p.Phon:
   """Makes a new Phon from a phoneme Phon and a suffix Phon.
 
-- 
2.43.0

