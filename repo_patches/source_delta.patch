From 098d28a98b3978c6533ca091d9295552274c1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:19 +0000
Subject: [PATCH 01/42] fix: BibleBook.first_verse() raised when VERSE_0 was
 only set by its flags argument

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..a70b9fe 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -194,7 +194,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
-- 
2.43.0


From 3f181669e26d05529f0eb0904ffd211d3ce69ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:22 +0000
Subject: [PATCH 02/42] fix: BibleVerse.subtract() ignored flags for verse 0s
 of the chapters it steps back over

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index a70b9fe..fb1591a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -527,7 +527,7 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
             bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-- 
2.43.0


From 31aaf6c5298210d9768d2fdb84e6d0476e099ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:26 +0000
Subject: [PATCH 03/42] fix: BibleRange.difference() raised at book boundaries,
 for multibook ranges and for lists

---
 src/bibleref/ref.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fb1591a..a9fad77 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1049,7 +1049,7 @@ class BibleRange:
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-    def difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
+    def difference(self, other_ref: 'BibleRef',
                    flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this range, but not in `other_ref`.
 
@@ -1060,6 +1060,9 @@ class BibleRange:
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1068,14 +1071,14 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        # Existing multibook ranges are honoured, even if MULTIBOOK is unset
+        flags = (flags or bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        new_list = BibleRangeList()
+        if self.start < other_ref.start:
+            new_list.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
+        if self.end > other_ref.end:
+            new_list.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return new_list
 
     def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
                    flags: BibleFlag = None) -> 'BibleRangeList':
-- 
2.43.0


From 1505e1f2954555243fcbfd70a0b5b25ce0b83f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:29 +0000
Subject: [PATCH 04/42] fix: BibleRangeList.difference_update() kept ranges
 that are completely subtracted

---
 src/bibleref/ref.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index a9fad77..ce24527 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1478,6 +1478,8 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([other_ref])
         if not isinstance(other_ref, BibleRangeList):
             raise ValueError(f"{other_ref} is not a valid BibleRef")        
+        if other_ref is self: # We can't modify other_ref while iterating over it
+            other_ref = BibleRangeList(self)
 
         # Each BibleRefList is effectively a union of its elements.
         # Key set theory identity: (where \ means set difference, so A \ B = A - B)
@@ -1504,8 +1506,12 @@ class BibleRangeList(util.GroupedList):
                         self._insert_before(self_node, difference_range)
                         self_node = self_node.prev
                     self._pop_node(old_self_node)
+                else:
+                    # Nothing is left of this item. (self_node.next is still valid after popping.)
+                    self._pop_node(self_node)
+                    break
             self_node = self_node.next
-        self.merge()
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
-- 
2.43.0


From 4f9a0adc1c61b8404907fc9636b98a422ad793d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:58 +0000
Subject: [PATCH 05/42] fix: BibleRangeList |=, &=, -= and ^= replaced the list
 with None

---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index ce24527..a4bba4a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1559,16 +1559,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From 2d73f6da6f88e5b6f69efbe510a3cfa06c097634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:01 +0000
Subject: [PATCH 06/42] fix: BibleRangeList.range(), chap_range() and
 book_range() missed verses when a range ends after the last one

---
 src/bibleref/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index a4bba4a..854d538 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1310,7 +1310,7 @@ class BibleRangeList(util.GroupedList):
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
+        max_range: BibleRange = max(self, key=lambda bible_range: bible_range.end)
         return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
@@ -1322,7 +1322,7 @@ class BibleRangeList(util.GroupedList):
         flags = flags or bibleref.flags or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
+        max_range: BibleRange = max(self, key=lambda bible_range: bible_range.end)
         return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
                           flags=flags)
 
@@ -1335,7 +1335,7 @@ class BibleRangeList(util.GroupedList):
         flags = flags or bibleref.flags or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
+        max_range: BibleRange = max(self, key=lambda bible_range: bible_range.end)
         return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
                           flags=flags)
 
-- 
2.43.0


From 10d532738b230557d60e432771eda4150e306e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:04 +0000
Subject: [PATCH 07/42] fix: GroupedList accepted negative indexes before the
 start of the list

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..b7e16fb 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if not 0 <= group_index < self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if not 0 <= index < self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
-- 
2.43.0


From 199edbb2ba916e0682c81a1fa151d4ee85e97e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:07 +0000
Subject: [PATCH 08/42] fix: parsing a string depended on the strings parsed
 before it

---
 src/bibleref/parser.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..c0ef4b2 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -28,17 +28,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -53,8 +42,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     
     try:
         flags = flags or bibleref.flags or ref.BibleFlag.NONE
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # The transformer tracks the current book, chapter and level, so each parse needs its own.
+        range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From 6c725fa2d840c14e2fda3b0c7c1f86d062203ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:11 +0000
Subject: [PATCH 09/42] fix: parsing a back-to-front range of chapters or books
 gave the wrong verses

---
 src/bibleref/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index c0ef4b2..9d3edb8 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -85,6 +85,8 @@ class _BibleRefTransformer(Transformer):
         # We don't need to update self.cur_book or self.cur_chap_num as they will
         # have already been updated by the parsing of the second BibleRange child.
         try:
+            if first.start > second.end: # The references are back-to-front, so swap them whole
+                (first, second) = (second, first)
             bible_range = ref.BibleRange(first.start.book, first.start.chap_num, first.start.verse_num,
                                                second.end.book, second.end.chap_num, second.end.verse_num,
                                                flags=self.flags)
-- 
2.43.0


From 89d456ca720d5b7792c06ba7fdf6561a895ed6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 10/42] fix: parsing errors at the end of the string had a
 position of -1, and huge numbers raised ValueError

---
 src/bibleref/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 9d3edb8..142c613 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -33,8 +33,10 @@ def _parse(string, flags: ref.BibleFlag = None):
     try:
         tree = _parser().parse(string)
     except UnexpectedInput as orig:
-        start_pos=orig.pos_in_stream
-        end_pos=orig.pos_in_stream + 1
+        start_pos = orig.pos_in_stream
+        if start_pos is None or start_pos < 0: # Unexpected end of input
+            start_pos = len(string)
+        end_pos = min(start_pos + 1, len(string))
         new_error = ref.BibleRefParsingError(f"Unexpected text: {string[start_pos:end_pos]}",
                                          start_pos, end_pos)
         new_error.orig = orig
@@ -188,7 +190,10 @@ class _BibleRefTransformer(Transformer):
         return book
 
     def NUM(self, token):
-        return int(token)
+        try:
+            return int(token)
+        except ValueError as e: # Too many digits for Python to convert
+            raise ref.BibleRefParsingError(str(e), token.start_pos, token.end_pos)
 
 def _recreate_parser():
     global _parser_obj
-- 
2.43.0


From 1d655cfb07ee1d1edf57b289bdf7ddf3ecc246fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:40 +0000
Subject: [PATCH 11/42] fix: multi-word book titles written by
 str(nospace=True) could not be parsed

---
 src/bibleref/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..8c7c627 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -158,8 +158,8 @@ class BibleData:
                     full_title_pattern += "(" + char
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
-                # Allow for extra whitespace.
-                full_title_pattern = full_title_pattern.replace(" ",r"\s+")
+                # Allow for extra or missing whitespace.
+                full_title_pattern = full_title_pattern.replace(" ",r"\s*")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
-- 
2.43.0


From 55c6d0d2de93880d95e77240feaa9ba87a0e32da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 12/42] fix: union and intersection of existing multibook
 ranges raised when MULTIBOOK was unset

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 854d538..2ebb70b 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1021,7 +1021,8 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # Existing multibook ranges are honoured, even if MULTIBOOK is unset
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1045,7 +1046,8 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # Existing multibook ranges are honoured, even if MULTIBOOK is unset
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-- 
2.43.0


From 879fc0d915f9efc7408b972534753a384ff5ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 13/42] fix: BibleRangeList.str() kept forcing dual references
 for all later ranges

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2ebb70b..2133896 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1671,11 +1671,11 @@ class BibleRangeList(util.GroupedList):
         first_range = True
         list_sep = ""
         result_str = ""
-        force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
 
         for group in self.groups:
             for bible_range in group:
                 bible_range: BibleRange = bible_range # Typecast                
+                force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
                 if bible_range.spans_start_book(flags): # Range start includes an entire book
                     # Even if already in same book, whole book references repeat the whole book name.
                     start_parts = BibleVersePart.BOOK
-- 
2.43.0


From 601ad622311977bc5d287142ea1e0ffdfe89d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:22 +0000
Subject: [PATCH 14/42] fix: flags=BibleFlag.NONE did not override the global
 flags

---
 src/bibleref/parser.py |  3 +--
 src/bibleref/ref.py    | 30 ++++++++++++++++++------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 142c613..e991de3 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -5,7 +5,6 @@ from lark import Lark, UnexpectedInput
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
-import bibleref
 from bibleref import ref, bible_data
 
 
@@ -43,7 +42,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = ref._resolve_flags(flags)
         # The transformer tracks the current book, chapter and level, so each parse needs its own.
         range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2133896..311b748 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -37,6 +37,12 @@ class BibleFlag(Flag):
 
 bibleref.flags = BibleFlag.NONE # Default setting for global flags attribute.
 
+def _resolve_flags(flags: BibleFlag = None) -> BibleFlag:
+    '''Returns `flags`, or the global `bibleref.flags` attribute if `flags` is `None`.'''
+    if flags is None:
+        flags = bibleref.flags
+    return BibleFlag.NONE if flags is None else flags
+
 
 class BibleBook(Enum):
     '''An enum of books in the Bible.
@@ -176,7 +182,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +476,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +513,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +615,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +667,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +863,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +872,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +887,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1074,7 +1080,7 @@ class BibleRange:
             return BibleRangeList()
 
         # Existing multibook ranges are honoured, even if MULTIBOOK is unset
-        flags = (flags or bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        flags = _resolve_flags(flags) | BibleFlag.MULTIBOOK
         new_list = BibleRangeList()
         if self.start < other_ref.start:
             new_list.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
@@ -1234,7 +1240,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1321,7 +1327,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self, key=lambda bible_range: bible_range.end)
@@ -1334,7 +1340,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self, key=lambda bible_range: bible_range.end)
-- 
2.43.0


From e9a36e20ba3776d0a81c3e55fdc21dbabdda37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 15/42] fix: verse, chapter and book counts and verse
 subtraction ignored their flags argument

---
 src/bibleref/ref.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 311b748..2a5ec49 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -536,8 +536,8 @@ class BibleVerse:
                 min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            bible_range = BibleRange(start=self, end=other, flags=flags) # Bible will swap start and end as necessary
+            difference = bible_range.verse_count(flags) - 1
             if self < other:
                 difference *= -1
             return difference
@@ -823,7 +823,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
@@ -835,12 +835,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -849,12 +849,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0


From 12ba7baf80b9b53274e1ddcfbd56282127e44d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:28 +0000
Subject: [PATCH 16/42] fix: comparing a GroupedList with == to None or a
 number raised TypeError

---
 src/bibleref/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index b7e16fb..4fe8f35 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -642,6 +642,8 @@ class GroupedList(MutableSequence):
             node = node.next
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, GroupedList):
+            return NotImplemented
         return self.equals(other)
 
     def equals(self, other_iterable, compare_groups=True) -> bool:
-- 
2.43.0


From 22b5907a1576a21a869f4a1f46e39bb4e7dbb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 17/42] fix: sorting a list of more than about 1000 items
 raised RecursionError

---
 src/bibleref/util.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 4fe8f35..795831e 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -612,21 +612,25 @@ class GroupedList(MutableSequence):
             return (first_node_B, last_node_B)
         if first_node_B is None:
             return (first_node_A, last_node_A)
-        
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
+
+        new_first_node = None
+        new_last_node = None
+        while first_node_A is not None or first_node_B is not None:
+            if first_node_B is None or (first_node_A is not None and
+                                        first_node_A <= first_node_B): # Nodes compare using their values
+                node = first_node_A
+                first_node_A = node.next
+            else: # first_node_B is less than first_node_A
+                node = first_node_B
+                first_node_B = node.next
+            node.prev = new_last_node
+            if new_last_node is None:
+                new_first_node = node
+            else:
+                new_last_node.next = node
+            new_last_node = node
+        new_last_node.next = None
+        return (new_first_node, new_last_node)
 
     #
     # End of sort-related methods
-- 
2.43.0


From a132bee1e426b96ffe5452de71f527fdbfbf1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 18/42] fix: iterating over a BibleRange skipped the verse 0s
 that are counted by verse_count()

---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2a5ec49..3a035ab 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1113,10 +1113,13 @@ class BibleRange:
             return union[0].difference(intersection[0])
 
     def __iter__(self):
+        flags = _resolve_flags() | BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse`` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From ebc3e94e1486d823d5c458ea51e6e774880cc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:58 +0000
Subject: [PATCH 19/42] fix: insert_group_at() on the first item of a group
 corrupted the list of groups

---
 src/bibleref/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 795831e..190b16d 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -321,6 +321,9 @@ class GroupedList(MutableSequence):
         if node is self._first:
             # First node is always already a group.
             return
+        if node.is_group_head:
+            # Node already starts a group.
+            return
         node.is_group_head = True
         prev_group_head = self._find_group_head(node.prev)
         node.prev_head = prev_group_head
-- 
2.43.0


From 45993a27146a206c48785a995b4d3cf9a2a3a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:01 +0000
Subject: [PATCH 20/42] fix: GroupViews stayed usable after clear(), and
 deleting through one corrupted the list

---
 src/bibleref/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 190b16d..d04771c 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -190,6 +190,7 @@ class GroupedList(MutableSequence):
         
         If the items of `iterable` are Python lists or tuples, each element of `iterable` is added as a
         separate group.'''
+        self._first: GroupedList._Node = None
         self.clear()
         if iterable is None:
             return
@@ -529,6 +530,10 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        for node in self._node_iter():
+            # Invalidate any existing GroupViews
+            node.parent = None
+            node.clear_group_head()
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From 22bb307373d0ec1ae2b3651dc410ce09babfd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 21/42] fix: extending a list with itself never ended

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index d04771c..c5a4b9d 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -486,13 +486,13 @@ class GroupedList(MutableSequence):
         
         The new items all form a single new group.'''
         is_first_item = True
-        for item in iterable:
+        for item in list(iterable): # Copied, as iterable may be (a view of) this list
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in iterable:
+        for item in list(iterable): # Copied, as iterable may be (a view of) this list
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From c53804f2014dfc85282cc5c4fc9f851793eabba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:07 +0000
Subject: [PATCH 22/42] fix: intersection_update() and sym_difference_update()
 lost the groups, and merge() and split() regrouped without flags

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 3a035ab..3d95833 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -934,7 +934,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(flags=flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
@@ -1374,7 +1374,7 @@ class BibleRangeList(util.GroupedList):
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup()
+        self.regroup(flags=flags)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
@@ -1466,6 +1466,7 @@ class BibleRangeList(util.GroupedList):
         intersection_list = self.intersection(other_ref, flags=flags)
         self.clear()
         self.extend(intersection_list)
+        self.regroup(flags=flags)
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
@@ -1551,6 +1552,7 @@ class BibleRangeList(util.GroupedList):
         sym_difference_list = self.sym_difference(other_ref, flags=flags)
         self.clear()
         self.extend(sym_difference_list)
+        self.regroup(flags=flags)
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 726a8b35e7a46df9dfaba0f5bb02597f651bda2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:51 +0000
Subject: [PATCH 23/42] fix: a list didn't contain() an existing multibook
 range when its own ranges meet at the end of a book

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 3d95833..7fc2123 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1397,9 +1397,9 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
-        # Create a consolidated copy of ourselves
+        # Create a consolidated copy of ourselves (merging across books, to honour existing multibook ranges)
         self_copy = BibleRangeList(self)
-        self_copy.merge(flags=flags)
+        self_copy.merge(flags=_resolve_flags(flags) | BibleFlag.MULTIBOOK)
         # Every one of the other list's ranges must be contained by at least one of the our ranges
         return all(any(self_range.contains(other_range) for self_range in self_copy) for other_range in other_ref)
 
-- 
2.43.0


From 2a80ed1058d547af11743a59ab3173ddb6a2fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 24/42] fix: BibleRange.is_adjacent() ignored its flags
 argument for lists

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 7fc2123..6535e20 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -961,7 +961,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref) 
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From 6aaf4134ca9de7f6e9be6936310d9a6845bf1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:57 +0000
Subject: [PATCH 25/42] fix: string conversion and regroup() partly ignored
 their flags argument

---
 src/bibleref/ref.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6535e20..8212ce6 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1155,11 +1155,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
@@ -1635,7 +1635,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
@@ -1764,7 +1764,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From fb7dc5fb1471ad0718bde83b80a7feaa7ce39a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:59 +0000
Subject: [PATCH 26/42] fix: BibleRange.sym_difference() raised for lists and
 ignored flags

---
 src/bibleref/ref.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8212ce6..2f00330 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1088,7 +1088,7 @@ class BibleRange:
             new_list.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
         return new_list
 
-    def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
+    def sym_difference(self, other_ref: 'BibleRef',
                    flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this range, or in `other_ref`,
         but not both.
@@ -1098,6 +1098,9 @@ class BibleRange:
 
         Using the `^` operator is equivalent to calling `sym_difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return other_ref.sym_difference(self, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1110,7 +1113,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         flags = _resolve_flags() | BibleFlag.MULTIBOOK
-- 
2.43.0


From cce081094e58b83968bdea8beec9b9a574ebcc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:02 +0000
Subject: [PATCH 27/42] fix: BibleRange.split() never ended when num_verses was
 less than 1

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2f00330..779cc8e 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -887,6 +887,8 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
+        if num_verses is not None and num_verses < 1:
+            raise ValueError(f"Cannot split into ranges of {num_verses} verses")
         flags = _resolve_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
-- 
2.43.0


From 8521206b7d9abda640261bbeac6e34d218c752d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:05 +0000
Subject: [PATCH 28/42] fix: BibleVerse.max_verse_num() required its optional
 argument

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 779cc8e..24c51c7 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -400,7 +400,7 @@ class BibleVerse:
             chap_num = self.chap_num
         return self.book.min_verse_num(chap_num, flags=flags)
 
-    def max_verse_num(self, chap_num: int) -> int:
+    def max_verse_num(self, chap_num: int = None) -> int:
         '''Return the highest verse number for the specified chapter of the `BibleBook` containing this verse.
         If no chapter is specified, it returns the highest verse number of the chapter containing this `BibleVerse`.
         '''
-- 
2.43.0


From 3260500cd226c683652fd1f72834d6575fd89037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:13 +0000
Subject: [PATCH 29/42] fix: force_start_verses left out the start verse or
 chapter of a range that starts with a whole book

---
 src/bibleref/ref.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 24c51c7..cbdd9db 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1161,8 +1161,12 @@ class BibleRange:
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
         if self.spans_start_book(flags):
-            start_parts = BibleVersePart.BOOK
-            at_verse_level = False
+            if force_start_verses and not self.spans_end_chap(flags):
+                start_parts = BibleVersePart.FULL_REF
+                at_verse_level = True
+            else:
+                start_parts = BibleVersePart.BOOK
+                at_verse_level = False
         elif self.spans_start_chap(flags):
             if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
@@ -1771,7 +1775,7 @@ class BibleRangeList(util.GroupedList):
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
                    (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
-                    start_parts |= BibleVersePart.VERSE
+                    start_parts |= BibleVersePart.CHAP_VERSE
                     at_verse_level = True
 
                 start_str = bible_range.start.str(abbrev, alt_sep, nospace, start_parts) 
-- 
2.43.0


From c17d5f8c2be0c65c5b619b27e040ae19cff7c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:39 +0000
Subject: [PATCH 30/42] fix: extend() and append_group() added some of the
 items when one of them was refused

---
 src/bibleref/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index c5a4b9d..a81541b 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -485,14 +485,20 @@ class GroupedList(MutableSequence):
         '''Appends each item of `iterable` to the end of this list.
         
         The new items all form a single new group.'''
+        items = list(iterable) # Copied, as iterable may be (a view of) this list
+        for item in items: # Check all of them first, so that nothing is added if one is refused
+            self._check_type(item)
         is_first_item = True
-        for item in list(iterable): # Copied, as iterable may be (a view of) this list
+        for item in items:
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in list(iterable): # Copied, as iterable may be (a view of) this list
+        items = list(iterable) # Copied, as iterable may be (a view of) this list
+        for item in items: # Check all of them first, so that nothing is added if one is refused
+            self._check_type(item)
+        for item in items:
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From 0316b5f4c91c9495e17c414175f96f3d59415403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:36 +0000
Subject: [PATCH 31/42] fix: special characters in installed book names were
 taken as regex syntax

---
 src/bibleref/data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 8c7c627..ad232b8 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -150,12 +150,13 @@ class BibleData:
                 
                 # Add the minimum number of unique characters
                 # e.g. full_title_pattern = r"(1|I)\s*J"
-                full_title_pattern += full_title[0:min_chars]
+                # (Escaped, as names can contain characters that are special in a regex, e.g. "St. Mark")
+                full_title_pattern += re.escape(full_title[0:min_chars]).replace("\\ ", " ")
 
                 # Add the rest of full title characters as optional matches.
                 # e.g. full_title_pattern = r"(1|I)\s*J(o(h(n)?)?)?"
                 for char in full_title[min_chars:]:
-                    full_title_pattern += "(" + char
+                    full_title_pattern += "(" + re.escape(char).replace("\\ ", " ")
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
                 # Allow for extra or missing whitespace.
@@ -165,7 +166,7 @@ class BibleData:
                 # single regex for the book
                 total_pattern = full_title_pattern
                 for abbrev in extra_abbrevs:
-                    abbrev = abbrev.replace(" ",r"\s*") # Allow for variable whitespace
+                    abbrev = re.escape(abbrev).replace("\\ ", r"\s*") # Allow for variable whitespace
                     total_pattern += "|" + abbrev
                 book.regex = re.compile(total_pattern, re.IGNORECASE)
 
-- 
2.43.0


From 88f770a694ed66e1219dad8e839ca70cd795f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:44 +0000
Subject: [PATCH 32/42] fix: a separator that is refused with an error stayed
 installed

---
 src/bibleref/data.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index ad232b8..47da30f 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -21,6 +21,15 @@ class BibleData:
         self._max_verses        = {}
         self._verse_0s          = {}    
 
+    def _set_separator(self, attr_name, value):
+        old_value = getattr(self, attr_name)
+        setattr(self, attr_name, value)
+        try:
+            parser._recreate_parser()
+        except Exception:
+            setattr(self, attr_name, old_value) # Don't keep a separator that can't be parsed
+            raise
+
     @property
     def range_sep(self):
         '''Range separator character used to separate start and end of a Bible range.'''
@@ -28,8 +37,7 @@ class BibleData:
     
     @range_sep.setter
     def range_sep(self, value):
-        self._range_sep = value
-        parser._recreate_parser()
+        self._set_separator('_range_sep', value)
 
     @property
     def major_list_sep(self):
@@ -40,8 +48,7 @@ class BibleData:
     
     @major_list_sep.setter
     def major_list_sep(self, value):
-        self._major_list_sep = value
-        parser._recreate_parser()
+        self._set_separator('_major_list_sep', value)
 
     @property
     def minor_list_sep(self):
@@ -52,8 +59,7 @@ class BibleData:
     
     @minor_list_sep.setter
     def minor_list_sep(self, value):
-        self._minor_list_sep = value
-        parser._recreate_parser()
+        self._set_separator('_minor_list_sep', value)
 
     @property
     def verse_sep_std(self):
@@ -62,8 +68,7 @@ class BibleData:
     
     @verse_sep_std.setter
     def verse_sep_std(self, value):
-        self._verse_sep_std = value
-        parser._recreate_parser()
+        self._set_separator('_verse_sep_std', value)
 
     @property
     def verse_sep_alt(self):
@@ -72,8 +77,7 @@ class BibleData:
     
     @verse_sep_alt.setter
     def verse_sep_alt(self, value):
-        self._verse_sep_alt = value
-        parser._recreate_parser()
+        self._set_separator('_verse_sep_alt', value)
 
     @property
     def book_order(self):
-- 
2.43.0


From ae52597bc4bc5fd62ba5d135cc15640fd57d8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:07 +0000
Subject: [PATCH 33/42] fix: a book order that is refused with an error was
 partly installed

---
 src/bibleref/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 47da30f..246c393 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -88,8 +88,11 @@ class BibleData:
 
     @book_order.setter
     def book_order(self, book_order_list: list):
-        self._book_order = book_order_list
         book_set = set(ref.BibleBook)
+        # Check the whole list first, so that nothing is changed if it is refused
+        if len(set(book_order_list)) != len(book_order_list) or not book_set.issuperset(book_order_list):
+            raise ValueError("Book order must be a list of different Bible books")
+        self._book_order = book_order_list
         for i in range(len(self._book_order)):
             self._book_order[i].order = i
             book_set.remove(self._book_order[i])
-- 
2.43.0


From bd977b901706ab26da448711264f1c8a045dda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:46 +0000
Subject: [PATCH 34/42] fix: a range could be built from a start and end that
 are not verses

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index cbdd9db..ef365ce 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -669,6 +669,8 @@ class BibleRange:
         '''
         flags = _resolve_flags(flags)
         if len(args) == 0:
+            if not isinstance(start, BibleVerse) or not isinstance(end, BibleVerse):
+                raise ValueError("Start and end of a BibleRange must be BibleVerses")
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
                                                     f"({start.book.abbrev} and {end.book.abbrev} are different)")
-- 
2.43.0


From fcb9c11820e4a85c3a0ec419c678eba860c27c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:17 +0000
Subject: [PATCH 35/42] fix: chapter and verse numbers given as text were
 compared as text

---
 src/bibleref/ref.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index ef365ce..0a24f66 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -713,6 +713,10 @@ class BibleRange:
         elif end_book is not None and not isinstance(end_book, BibleBook):
             raise InvalidReferenceError(f"{end_book} is not a valid BibleBook")
 
+        # Numbers can also be given as strings, which don't compare as numbers
+        start_chap, start_verse, end_chap, end_verse = (None if num is None else int(num) for num in
+                                                        (start_chap, start_verse, end_chap, end_verse))
+
         # If start > end, swap around. The logic is messy due to implied values when args are None.
         if start_book is not None:
             if end_book is not None and start_book > end_book:
-- 
2.43.0


From f46f17d5f309ae7764c06ce989a06768f5f7605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 36/42] fix: a list compared with something that is no
 reference raises an error

is_disjoint() and contains() of a BibleRangeList took any iterable as operand, and anything at all
if the list was empty, so that BibleRangeList().is_disjoint(5), or contains("") of any list, was True.
The other list operations (and the same methods of BibleRange) raise a ValueError.
---
 src/bibleref/ref.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 0a24f66..6c0dbcd 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1399,6 +1399,8 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
+        if not isinstance(other_ref, BibleRangeList):
+            raise ValueError(f"{other_ref} is not a valid BibleRef")
         return all(self_range.is_disjoint(other_range) for self_range in self for other_range in other_ref)
 
     def contains(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> bool:
@@ -1412,6 +1414,8 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
+        if not isinstance(other_ref, BibleRangeList):
+            raise ValueError(f"{other_ref} is not a valid BibleRef")
         # Create a consolidated copy of ourselves (merging across books, to honour existing multibook ranges)
         self_copy = BibleRangeList(self)
         self_copy.merge(flags=_resolve_flags(flags) | BibleFlag.MULTIBOOK)
-- 
2.43.0


From 63da071787211959960ff25ff6597590215e6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:08 +0000
Subject: [PATCH 37/42] fix: names, chapter sizes or verse-0 data that are
 refused no longer take effect in part

Setting them to something unusable raised an error, but with the new value already installed and,
for names, some of the books renamed.
---
 src/bibleref/data.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 246c393..3e384b6 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -1,4 +1,5 @@
 
+from collections.abc import Mapping
 import re
 
 import bibleref
@@ -109,9 +110,11 @@ class BibleData:
 
     @name_data.setter
     def name_data(self, name_data: dict):
+        regexes = self._get_regexes(name_data) # First, so that nothing is changed if the data is refused
         self._name_data = name_data
         self._set_abbrevs_and_titles(self._name_data)
-        self._set_regexes(self._name_data)
+        for book in ref.BibleBook:
+            book.regex = regexes[book]
 
     def _set_abbrevs_and_titles(self, name_data: dict):
         for book in ref.BibleBook:
@@ -124,18 +127,19 @@ class BibleData:
                 book.abbrev = book_name_data[0]
                 book.title = book_name_data[1]
 
-    def _set_regexes(self, name_data: dict):
-        '''Add a 'regex' attribute to each BibleBook for a regex matching acceptable names.
+    def _get_regexes(self, name_data: dict) -> dict:
+        '''Return a dictionary with a regex for each BibleBook that matches its acceptable names.
 
         For each book, several regex patterns are joined together.
         The main pattern is derived from the book's full title, and requires the min number of unique characters.
         Any characters beyond the minimum are optional, but must be correct.
         Extra patterns are derived from the list of any extra recognised abbreviations.
         '''
+        regexes = {}
         for book in ref.BibleBook:
             if book not in name_data:
                 # print(f"No name data for {book}")
-                book.regex = None
+                regexes[book] = None
             else:
                 book_name_data = name_data[book]
 
@@ -175,7 +179,8 @@ class BibleData:
                 for abbrev in extra_abbrevs:
                     abbrev = re.escape(abbrev).replace("\\ ", r"\s*") # Allow for variable whitespace
                     total_pattern += "|" + abbrev
-                book.regex = re.compile(total_pattern, re.IGNORECASE)
+                regexes[book] = re.compile(total_pattern, re.IGNORECASE)
+        return regexes
 
     @property
     def max_verses(self):
@@ -185,6 +190,8 @@ class BibleData:
 
     @max_verses.setter
     def max_verses(self, max_verses: dict):
+        if not isinstance(max_verses, Mapping):
+            raise TypeError("Max verses must be a dictionary")
         self._max_verses = max_verses
         for book in ref.BibleBook:
             if book not in self._max_verses:
@@ -202,6 +209,8 @@ class BibleData:
     
     @verse_0s.setter
     def verse_0s(self, verse_0s: dict):
+        if not isinstance(verse_0s, Mapping):
+            raise TypeError("Verse 0s must be a dictionary")
         self._verse_0s = verse_0s
         for book in ref.BibleBook:
             if book in verse_0s:
-- 
2.43.0


From b2aaa39d23bee87de016db356798f65b4854a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:11 +0000
Subject: [PATCH 38/42] fix: a range could be built from fractional numbers or
 bytes, which were cut to whole numbers

BibleRange(BibleBook.Gen, 1.7, 2) was Gen 1:2.
---
 src/bibleref/ref.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 6c0dbcd..5252fdd 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -713,6 +713,9 @@ class BibleRange:
         elif end_book is not None and not isinstance(end_book, BibleBook):
             raise InvalidReferenceError(f"{end_book} is not a valid BibleBook")
 
+        for num in (start_chap, start_verse, end_chap, end_verse):
+            if num is not None and not isinstance(num, (int, str)):
+                raise ValueError(f"{num} is not an integer chapter or verse number")
         # Numbers can also be given as strings, which don't compare as numbers
         start_chap, start_verse, end_chap, end_verse = (None if num is None else int(num) for num in
                                                         (start_chap, start_verse, end_chap, end_verse))
-- 
2.43.0


From f3ead793d33439a9bc6d264e53104409aa0bda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:53 +0000
Subject: [PATCH 39/42] fix: sorting a grouped list whose items are of
 different kinds left them unsorted

Comparing nodes called the items' comparison methods directly, so that the NotImplemented with which, say, an int
answers a float counted as true: GroupedList([2, 1.5]).sort() left [2, 1.5].
---
 src/bibleref/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index a81541b..e8457bf 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -49,19 +49,19 @@ class GroupedList(MutableSequence):
             self.next_head = None
 
         def __eq__(self, other):
-            return self.value.__eq__(other.value)
+            return self.value == other.value
 
         def __lt__(self, other):
-            return self.value.__lt__(other.value)
+            return self.value < other.value
 
         def __gt__(self, other):
-            return self.value.__gt__(other.value)
+            return self.value > other.value
 
         def __ge__(self, other):
-            return self.value.__ge__(other.value)
+            return self.value >= other.value
 
         def __le__(self, other):
-            return self.value.__le__(other.value)
+            return self.value <= other.value
 
         def _id(self, obj):
             return id(obj) if obj is not None else None
-- 
2.43.0


From e1509ccaa3954ef81f27a3b9aa0b4bfa0633a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:29 +0000
Subject: [PATCH 40/42] fix: sorting a grouped list that raises while comparing
 items lost items

The list was left split in parts, with its groups gone.
---
 src/bibleref/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index e8457bf..5792b80 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -577,8 +577,17 @@ class GroupedList(MutableSequence):
     def sort(self):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
         new group.'''
-        (self._first, self._last) = self._merge_sort(self._first, clear_group_heads=True)
-        self._setup_single_group()
+        nodes = list(self._node_iter())
+        try:
+            (self._first, self._last) = self._merge_sort(self._first)
+        except BaseException: # There are items that can't be compared, so put the list back together
+            for (prev_node, node) in zip([None] + nodes, nodes + [None]):
+                if prev_node is not None:
+                    prev_node.next = node
+                if node is not None:
+                    node.prev = prev_node
+            raise
+        self.clear_groups()
 
     def _merge_sort(self, first_node: 'GroupedList._Node', clear_group_heads=False):
         '''Sorts a list beginning with `first_node`, and returns a tuple of (new_first_node, new_last_node).
-- 
2.43.0


From f6945039b4f08f0af418d51c2554df904b34ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:47 +0000
Subject: [PATCH 41/42] fix: a list copied by the copy module shared its nodes
 with the original

Changing one of them corrupted the other, and long lists could not be deep-copied or pickled (RecursionError).
---
 src/bibleref/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 5792b80..b597943 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -200,6 +200,10 @@ class GroupedList(MutableSequence):
             else:
                 self.append(item)
 
+    def __reduce__(self):
+        # Copies made by the copy and pickle modules get nodes of their own
+        return (type(self), (self.to_nested_lists(),))
+
     def _check_type(self, value):
         '''Subclasses can override to raise an exception if the provided
         value is not of a certain type.
-- 
2.43.0


From 6c94c2f9c0f59401b5cec75de28e7b0e00e17545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:45 +0000
Subject: [PATCH 42/42] revert f3ead79: the comparisons it replaced already
 fell back on the other item's, so nothing was unsorted

---
 src/bibleref/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index b597943..276b10a 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -49,19 +49,19 @@ class GroupedList(MutableSequence):
             self.next_head = None
 
         def __eq__(self, other):
-            return self.value == other.value
+            return self.value.__eq__(other.value)
 
         def __lt__(self, other):
-            return self.value < other.value
+            return self.value.__lt__(other.value)
 
         def __gt__(self, other):
-            return self.value > other.value
+            return self.value.__gt__(other.value)
 
         def __ge__(self, other):
-            return self.value >= other.value
+            return self.value.__ge__(other.value)
 
         def __le__(self, other):
-            return self.value <= other.value
+            return self.value.__le__(other.value)
 
         def _id(self, obj):
             return id(obj) if obj is not None else None
-- 
2.43.0

