From 3da36dffb607707d88e55743ffc0db507fcbb79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 01/55] fix: fix_includes: do not insert into the middle of a
 reorder span

When every #include of a file is removed (or its forward-declares come after
contentful code), the fallback insertion point could lie inside an existing
reorder span.  The span was then emitted twice, duplicating lines, or not at
all, losing the additions.  Return the enclosing span instead.
---
 fix_includes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..46e87b0 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1815,6 +1815,11 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
             first_reorder_spans
         if line_number >= first_reorder_spans[_FORWARD_DECLARE_KIND][0]:
           return first_reorder_spans[_FORWARD_DECLARE_KIND]
+      # Likewise for any other reorder span (its #includes may all be deleted,
+      # or its forward-declares may come after 'contentful' code).
+      for reorder_span in good_reorder_spans:
+        if reorder_span[0] <= line_number < reorder_span[1]:
+          return reorder_span
       return (line_number, line_number)
 
   # OK, I guess just insert at the end of the file
-- 
2.43.0


From 88e160dfd2c43fcf8de55a3c5b928235097fd321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 02/55] fix: fix_includes: skip only the lines of the header
 guard

A whole-file #ifdef/#if also counts as a header guard but has no #define after
it.  Skipping two lines regardless put added lines inside a comment or function
starting on the second line.
---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 46e87b0..e2880a5 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1794,7 +1794,9 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       line_number += 1
     elif file_lines[line_number].type == _HEADER_GUARD_RE:
       seen_header_guard = True
-      line_number += 2    # skip over the header guard
+      line_number += 1    # skip over the header guard...
+    elif file_lines[line_number].type == _HEADER_GUARD_DEFINE_RE:
+      line_number += 1    # ...and its #define, if it has one
     elif file_lines[line_number].type == _BLANK_LINE_RE:
       line_number += 1
     elif file_lines[line_number].type == _PRAGMA_ONCE_LINE_RE:
-- 
2.43.0


From d120c18b246ffa4e60227ee5a679ac82c79bddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 03/55] fix: fix_includes: do not pair a deleted #ifdef with a
 live #endif

_DeleteEmptyIfdefs restarted at an #ifdef it had already deleted, skipped the
deleted lines and took the next #endif -- typically the one of the enclosing
header guard -- for its own, leaving the file with unbalanced conditionals.
---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index e2880a5..7ab369d 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1097,6 +1097,9 @@ def _DeleteEmptyIfdefs(file_lines):
   num_ifdefs_deleted = 0
   start_line = 0
   while start_line < len(file_lines):
+    if file_lines[start_line].deleted:
+      start_line += 1
+      continue
     if file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE):
       start_line += 1
       continue
-- 
2.43.0


From ae578af21d94fc126807d05f338a73ab6e2c56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 04/55] fix: fix_includes: do not truncate a file whose new
 contents cannot be encoded

An ASCII file that gets an #include with a non-ASCII name was truncated before
the encoder failed, losing all its contents and ending the run.
---
 fix_includes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 7ab369d..ecd07dd 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -602,12 +602,13 @@ def _ReadFile(filename, fileinfo):
 def _WriteFile(filename, fileinfo, file_lines):
   """Write the given file-lines to the file."""
   try:
+    # file_lines already have line endings, so join with ''.
+    # Encode before opening, because opening truncates the file.
+    content = ''.join(file_lines)
+    content = content.encode(fileinfo.encoding)
     with open(filename, 'wb') as f:
-      # file_lines already have line endings, so join with ''.
-      content = ''.join(file_lines)
-      content = content.encode(fileinfo.encoding)
       f.write(content)
-  except (IOError, OSError) as why:
+  except (IOError, OSError, UnicodeError) as why:
     print("Error writing '%s': %s" % (filename, why))
 
 
-- 
2.43.0


From fd546911d25ac8ce770675446e1acc3b5331d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 05/55] fix: fix_includes: split lines only where the compiler
 does

str.splitlines also splits at form feeds, vertical tabs, file separators and
Unicode line separators, so every line after one of these was off by one
against include-what-you-use's line numbers and the report was rejected (or
applied to the wrong lines).
---
 fix_includes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index ecd07dd..dab080a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -60,6 +60,7 @@ up.  Then we're done!
 __author__ = 'csilvers@google.com (Craig Silverstein)'
 
 import difflib
+import io
 import argparse
 import os
 import re
@@ -588,12 +589,13 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
-      # endings.  Later in WriteFile, they will be used as-is.
+      # Keep the original line endings (newline='').  Later in
+      # WriteFile, they will be used as-is.
       # This will reduce spurious changes to the original files.
       # The lines we add will have the linesep determined by
-      # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # FileInfo.  Do not use str.splitlines: it also splits at form
+      # feeds and other separators which are no line ends to IWYU.
+      return list(io.StringIO(content.decode(fileinfo.encoding), newline=''))
   except (IOError, OSError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From 684172fedaa75a168c267b830b2c117ae6ded571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 06/55] fix: fix_includes: diagnose #include line numbers past
 the end of the file

An IndexError ended the whole run instead of skipping the one stale file.
---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index dab080a..960b82d 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -768,6 +768,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
-- 
2.43.0


From 9241767f41f5a34c4e555cf406a8def79d2f39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 07/55] fix: fix_includes: skip files that cannot be read or
 decoded

A missing or unreadable file, or one in no supported encoding, ended the run
with a traceback before the remaining files were fixed.
---
 fix_includes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 960b82d..552eea2 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -596,7 +596,7 @@ def _ReadFile(filename, fileinfo):
       # FileInfo.  Do not use str.splitlines: it also splits at form
       # feeds and other separators which are no line ends to IWYU.
       return list(io.StringIO(content.decode(fileinfo.encoding), newline=''))
-  except (IOError, OSError) as why:
+  except (IOError, OSError, UnicodeError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
 
@@ -2266,7 +2266,11 @@ def FixManyFiles(iwyu_records, flags):
   files_fixed = 0
   for iwyu_record in iwyu_records:
     try:
-      fileinfo = FileInfo.parse(iwyu_record.filename)
+      try:
+        fileinfo = FileInfo.parse(iwyu_record.filename)
+      except (IOError, OSError) as why:
+        print("Skipping '%s': %s" % (iwyu_record.filename, why))
+        continue
 
       file_contents = _ReadFile(iwyu_record.filename, fileinfo)
       if not file_contents:
-- 
2.43.0


From 89c23bb3e4defa3fa3b6ef9474e6b969e17593e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 08/55] fix: compute the full transitive closure of cyclic
 include mappings

The depth-first expansion marked a node done while one of its successors was
still being calculated, so nodes on a cycle missed part of what they can reach
(with A->B, A->D, B->C, C->A, D->E, the nodes B and C did not lead to E) and
IWYU claimed there was no public header.
---
 iwyu_include_picker.cc | 85 +++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 60 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..4e2cc6c 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1273,71 +1273,36 @@ void ExpandOnce(const IncludePicker::IncludeMap& m,
   nodes->swap(nodes_and_children);  // modify nodes in-place
 }
 
-enum TransitiveStatus { kUnused = 0, kCalculating, kDone };
-
-// If the filename-map maps a.h to b.h, and also b.h to c.h, then
-// there's a transitive mapping of a.h to c.h.  We want to add that
-// into the filepath map as well, to make lookups easier.  We do this
-// by doing a depth-first search for a single mapping, recursing
-// whenever the value is itself a key in the map, and putting the
-// results in a vector of all values seen.
-// NOTE: This function updates values seen in filename_map, but
-// does not invalidate any filename_map iterators.
-void MakeNodeTransitive(IncludePicker::IncludeMap* filename_map,
-                        map<string, TransitiveStatus>* seen_nodes,
-                        vector<string>* node_stack,  // used for debugging
-                        const string& key) {
-  // If we've already calculated this node's transitive closure, we're done.
-  const TransitiveStatus status = (*seen_nodes)[key];
-  if (status == kCalculating) {  // means there's a cycle in the mapping
-    // Note that cycles in mappings are generally benign, the cycle detection
-    // here is only necessary to protect the recursive algorithm from infinite
-    // regress. We will still expand all reachable nodes in the graph to a
-    // plain sequence representing the transitive closure.
-    // The expanded mappings are only used for simple lookup, never followed
-    // recursively (which could have necessitated preserving cycles and handling
-    // them in that traversal too).
-    // Log cycles at a high verbosity level to aid debugging.
-    VERRS(8) << "Ignored cycle in include mappings: ";
-    for (const string& node : *node_stack)
-      VERRS(8) << node << " -> ";
-    VERRS(8) << key << "\n";
-    return;
-  }
-  if (status == kDone)
-    return;
-
-  IncludePicker::IncludeMap::iterator node = filename_map->find(key);
-  if (node == filename_map->end()) {
-    (*seen_nodes)[key] = kDone;
+// Appends everything reachable from key to closure, in depth-first order and
+// without duplicates.  Cycles in mappings are generally benign: a node that is
+// already in the closure is not followed again.
+void CollectReachable(const IncludePicker::IncludeMap& m, const string& key,
+                      set<string>* seen_nodes, vector<MappedInclude>* closure) {
+  const vector<MappedInclude>* children = FindInMap(&m, key);
+  if (!children)
     return;
+  for (const MappedInclude& child : *children) {
+    if (!seen_nodes->insert(child.quoted_include).second)
+      continue;
+    closure->push_back(child);
+    CollectReachable(m, child.quoted_include, seen_nodes, closure);
   }
-
-  // Keep track of node->second as we update it, to avoid duplicates.
-  (*seen_nodes)[key] = kCalculating;
-  for (const MappedInclude& child : node->second) {
-    node_stack->push_back(child.quoted_include);
-    MakeNodeTransitive(filename_map, seen_nodes, node_stack,
-                       child.quoted_include);
-    node_stack->pop_back();
-  }
-  (*seen_nodes)[key] = kDone;
-
-  // Our transitive closure is just the union of the closure of our
-  // children.  This routine replaces our value with this closure,
-  // by replacing each of our values with its values.  Since our
-  // values have already been made transitive, that is a closure.
-  ExpandOnce(*filename_map, &node->second);
 }
 
-// Updates the values in filename_map based on its transitive mappings.
+// If the filename-map maps a.h to b.h, and also b.h to c.h, then
+// there's a transitive mapping of a.h to c.h.  We want to add that
+// into the filepath map as well, to make lookups easier.  Every value
+// is replaced by the plain sequence of all nodes reachable from its key.
+// The expanded mappings are only used for simple lookup, never followed
+// recursively (which could have necessitated preserving cycles and handling
+// them in that traversal too).
 void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
-  // Insert keys of filename_map here once we know their value is
-  // the complete transitive closure.
-  map<string, TransitiveStatus> seen_nodes;
-  vector<string> node_stack;
-  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map)
-    MakeNodeTransitive(filename_map, &seen_nodes, &node_stack, includes.first);
+  const IncludePicker::IncludeMap original = *filename_map;
+  for (IncludePicker::IncludeMap::value_type& includes : *filename_map) {
+    set<string> seen_nodes;
+    includes.second.clear();
+    CollectReachable(original, includes.first, &seen_nodes, &includes.second);
+  }
 }
 
 // Get a scalar value from a YAML node.
-- 
2.43.0


From 6f2244e7dcea10161df974037d4d4fe8b2705bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 09/55] fix: make --error independent of --verbose

Edits were counted while printing the add and remove sections, which are
printed at verbosity 1 and above only: with --verbose=0, --error never reported
a violation.
---
 iwyu_output.cc | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index be3e0fa..fca66d0 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2102,22 +2102,20 @@ size_t PrintableDiffs(const string& filename,
 
   // First, check if there are no adds or deletes.  If so, we print a
   // shorter summary line.
-  bool no_adds_or_deletes = true;
+  // The number of edits must not depend on what we print.
+  size_t num_edits = 0;
   for (const auto& key_line : sorted_lines) {
     const OneIncludeOrForwardDeclareLine* line = key_line.second;
     if ((line->is_desired() && !line->is_present()) || // add
         (line->is_present() && !line->is_desired())) { // delete
-      no_adds_or_deletes = false;
-      break;
+      ++num_edits;
     }
   }
-  if (no_adds_or_deletes && !GlobalFlags().update_comments) {
+  if (num_edits == 0 && !GlobalFlags().update_comments) {
     output = "\n(" + filename + " has correct #includes/fwd-decls)\n";
     return 0;
   }
 
-  size_t num_edits = 0;
-
   // First, new desired includes and forward-declares.
   if (ShouldPrint(1)) {
     output_lines.push_back(
@@ -2127,7 +2125,6 @@ size_t PrintableDiffs(const string& filename,
       if (line->is_desired() && !line->is_present()) {
         output_lines.push_back(
           PrintableIncludeOrForwardDeclareLine(*line, aqi));
-        ++num_edits;
       }
     }
   }
@@ -2142,8 +2139,6 @@ size_t PrintableDiffs(const string& filename,
         output_lines.push_back(
             PrintableIncludeOrForwardDeclareLine(*line, aqi));
         output_lines.back().add_prefix("- ");
-
-        ++num_edits;
       }
     }
   }
-- 
2.43.0


From d263af871682569e8c46478fae1c11fe73afac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 10/55] fix: compare files by one name when selecting and
 merging records

A file named on the command line by a relative path was never changed,
because only the command line side was made absolute; a relative basedir
was applied twice; and two spellings of one file were not merged.
---
 fix_includes.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 552eea2..85816e4 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2332,8 +2332,11 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
     except FixIncludesError as why:
       print('ERROR: %s' % why)
       continue
-    filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
-    if files_to_process is not None and filename not in files_to_process:
+    # The parser has already applied basedir to the filename.  For comparisons,
+    # name each file in one way only.
+    filename = iwyu_record.filename
+    record_key = NormalizeFilePath(cwd, filename)
+    if files_to_process is not None and record_key not in files_to_process:
       print('(skipping %s: not listed on commandline)' % filename)
       continue
     if flags.ignore_re and re.search(flags.ignore_re, filename):
@@ -2345,21 +2348,23 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
           filename, flags.only_re))
       continue
 
-    if filename in iwyu_output_records:
-      iwyu_output_records[filename].Merge(iwyu_record)
+    if record_key in iwyu_output_records:
+      iwyu_record.filename = iwyu_output_records[record_key].filename
+      iwyu_output_records[record_key].Merge(iwyu_record)
     else:
-      iwyu_output_records[filename] = iwyu_record
+      iwyu_output_records[record_key] = iwyu_record
 
   # Now ignore all the files that never had any contentful changes
   # seen for them.  (We have to wait until we're all done, since a .h
   # file may have a contentful change when #included from one .cc
   # file, but not another, and we need to have merged them above.)
   if not flags.update_comments:
-    for filename in iwyu_output_records:
-      if not iwyu_output_records[filename].HasContentfulChanges():
-        print('(skipping %s: iwyu reports no contentful changes)' % filename)
+    for record_key, iwyu_record in iwyu_output_records.items():
+      if not iwyu_record.HasContentfulChanges():
+        print('(skipping %s: iwyu reports no contentful changes)' %
+              iwyu_record.filename)
         # Mark that we're skipping this file by setting the record to None
-        iwyu_output_records[filename] = None
+        iwyu_output_records[record_key] = None
 
   # Now do all the fixing, and return the number of files modified
   contentful_records = [ior for ior in iwyu_output_records.values() if ior]
-- 
2.43.0


From d486873a154c02603f97e4ca57dd06f3782b5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 11/55] fix: skip a file with a UTF-8 BOM that is not UTF-8

It was read as windows-1250, so that the byte-order mark became text of
the first line, hid its #include, and ended up below added lines.
---
 fix_includes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 85816e4..efc3100 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -571,10 +571,10 @@ class FileInfo(object):
         return False
       return True
 
-    # Special-case UTF-8 BOM
+    # Special-case UTF-8 BOM.  If the rest is not UTF-8, any other encoding
+    # would take the BOM for text on the first line and move it about.
     if bytebuf[0:3] == b'\xef\xbb\xbf':
-      if try_decode(bytebuf, 'utf-8-sig'):
-        return 'utf-8-sig'
+      return 'utf-8-sig'
 
     encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252']
     for encoding in encodings:
-- 
2.43.0


From cc3f8651ff0b96308e11689d48f11fb38ff125ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 12/55] fix: end an unterminated last line before adding lines
 after it

Lines added after a file's last line were glued to it when that line had
no newline: '// comment' turned into '// comment#include "n.h"'.
---
 fix_includes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index efc3100..c4f6edf 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2228,6 +2228,11 @@ def FixFileLines(iwyu_record, file_lines, flags, fileinfo):
     # Add line separators to the new lines.
     new_lines = [nl.rstrip() + fileinfo.linesep for nl in new_lines]
 
+    # The last line of the file may lack one.
+    if (new_lines and output_lines and output_lines[-1] is not None and
+        not output_lines[-1].endswith(('\n', '\r'))):
+      output_lines[-1] += fileinfo.linesep
+
     output_lines.extend(new_lines)
     line_number = current_reorder_span[1]               # go to end of span
 
-- 
2.43.0


From 4b5bf3315e7611a93ce377616b84d312df620497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 13/55] fix: pointer increments and referenced pointers need
 the full type

Incrementing or decrementing a pointer is pointer arithmetic as much as
adding to it is, and so is adding to a pointer that is held by reference.
Both were taken for uses that need a declaration only, so that the include
of the pointee's definition was replaced by a forward declaration and the
file no longer compiled.
---
 iwyu.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 0373578..8b2fd11 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -265,6 +265,7 @@ using clang::TypedefDecl;
 using clang::TypedefNameDecl;
 using clang::TypedefType;
 using clang::UnaryExprOrTypeTraitExpr;
+using clang::UnaryOperator;
 using clang::UnresolvedLookupExpr;
 using clang::UsingDecl;
 using clang::UsingDirectiveDecl;
@@ -2034,15 +2035,32 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
 
       // If the term expression is pointer-typed we need the full types for
       // pointer arithmetic.
-      const Type* type = GetTypeOf(term);
-      if (type->isPointerType()) {
-        ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
+      // Note that an expression's own type is never a reference.
+      if (term->getType()->isPointerType()) {
+        ReportTypeUse(GetLocation(term), GetTypeOf(term),
+                      DerefKind::RemoveRefsAndPtr);
       }
     }
 
     return true;
   }
 
+  // Incrementing or decrementing a pointer is pointer arithmetic too.
+  bool VisitUnaryOperator(UnaryOperator* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (!expr->isIncrementDecrementOp())
+      return true;
+
+    const Expr* term = expr->getSubExpr()->IgnoreImpCasts()->IgnoreParens();
+    if (term->getType()->isPointerType()) {
+      ReportTypeUse(GetLocation(term), GetTypeOf(term),
+                    DerefKind::RemoveRefsAndPtr);
+    }
+    return true;
+  }
+
   bool VisitTypeTraitExpr(TypeTraitExpr* expr) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0


From f5dfbc12c364fc7df320dba8609c7752eff31f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 14/55] fix: do not rely on forward declarations the associated
 header is about to lose

A forward declaration in an associated header was accepted in place of one in
the .cc file even when the report removes it from the header, so following
the report gave a program that does not compile.
---
 iwyu_output.cc | 35 ++++++++++++++++++++++++++++++-----
 iwyu_output.h  |  4 ++++
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index fca66d0..c74be26 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1483,7 +1483,8 @@ void ProcessSymbolUse(OneUse* use,
 void CalculateIwyuForForwardDeclareUse(
     OneUse* use, const set<string>& actual_includes,
     const set<string>& desired_includes,
-    const set<OptionalFileEntryRef>& associated_includes) {
+    const set<OptionalFileEntryRef>& associated_includes,
+    const set<const NamedDecl*>& associated_removed_decls) {
   CHECK_(!use->ignore_use() && "Trying to calculate on an ignored use");
   CHECK_(use->decl() && "CalculateIwyuForForwardDeclareUse takes a fwd-decl");
   CHECK_(!use->is_full_use() && "ForwardDeclareUse are not full uses");
@@ -1532,11 +1533,14 @@ void CalculateIwyuForForwardDeclareUse(
     }
   }
   // If there's no redecl in the .cc file, we'll accept a redecl in
-  // an associated .h file.  Since associated .h files are always
-  // desired includes, we don't need to check for that.
+  // an associated .h file, unless the .h file is about to lose it
+  // without gaining the definition.  Since associated .h files are
+  // always desired includes, we don't need to check for that.
   if (!same_file_decl) {
     for (const NamedDecl* redecl : redecls) {
-      if (ContainsKey(associated_includes, GetFileEntry(redecl))) {
+      if (ContainsKey(associated_includes, GetFileEntry(redecl)) &&
+          (dfn_is_in_desired_includes ||
+           !ContainsKey(associated_removed_decls, redecl))) {
         same_file_decl = redecl;
         break;
       }
@@ -1663,6 +1667,22 @@ void CalculateIwyuForFullUse(OneUse* use,
 
 }  // namespace internal
 
+set<const NamedDecl*> IwyuFileInfo::AssociatedRemovedForwardDeclares() const {
+  set<const NamedDecl*> removed_decls;
+  for (const IwyuFileInfo* associated : associated_headers_) {
+    for (const OneIncludeOrForwardDeclareLine& line : associated->lines_) {
+      if (line.IsIncludeLine() || line.is_desired() ||
+          line.is_elaborated_type())
+        continue;
+      const NamedDecl* decl = line.fwd_decl();
+      if (const ClassTemplateDecl* tpl_decl = DynCastFrom(decl))
+        decl = tpl_decl->getTemplatedDecl();
+      removed_decls.insert(decl);
+    }
+  }
+  return removed_decls;
+}
+
 void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   VERRS(6) << "--- Calculating IWYU violations for "
            << GetFilePath(file_) << " ---\n";
@@ -1716,6 +1736,11 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
   set<string> effective_desired_includes = desired_includes();
   InsertAllInto(associated_desired_includes, &effective_desired_includes);
 
+  // Likewise, forward-declares that our associated headers are removing
+  // will not be there for us.
+  const set<const NamedDecl*> associated_removed_decls =
+      AssociatedRemovedForwardDeclares();
+
   // Now that we've figured out desired_includes, figure out iwyu violations.
   for (OneUse& use : *uses) {
     if (use.ignore_use()) {
@@ -1723,7 +1748,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
     } else if (!use.is_full_use()) {
       internal::CalculateIwyuForForwardDeclareUse(
           &use, effective_direct_includes, effective_desired_includes,
-          AssociatedFileEntries());
+          AssociatedFileEntries(), associated_removed_decls);
     } else {
       internal::CalculateIwyuForFullUse(
           &use, effective_direct_includes, quoted_file_);
diff --git a/iwyu_output.h b/iwyu_output.h
index 8eb3338..89b57fa 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -376,6 +376,10 @@ class IwyuFileInfo {
     return associated_desired_includes;
   }
 
+  // The (non-template) decls of the forward-declares that our associated
+  // headers, whose lines have been calculated already, do not keep.
+  set<const clang::NamedDecl*> AssociatedRemovedForwardDeclares() const;
+
   // Populates uses with full data, including is_iwyu_violation_.
   void CalculateIwyuViolations(vector<OneUse>* uses);
   // Uses uses to emit warning messages (at high enough verbosity).
-- 
2.43.0


From 1762a95567aa88c3c97b6342f321786db9486798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 15/55] fix: consider the elements of template parameter packs
 in instantiations

Types in a parameter pack argument were ignored when collecting the
components of a template instantiation.
---
 iwyu_ast_util.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 7ee6f94..9f42a9b 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -1586,15 +1586,17 @@ static TemplateInstantiationData GetTplInstDataForClassNoComponentTypes(
   // Pull the template arguments out of the specialization type. If this is
   // a ClassTemplateSpecializationDecl specifically, we want to
   // get the arguments therefrom to correctly handle default arguments.
-  llvm::ArrayRef<TemplateArgument> tpl_args = written_tpl_args;
-  unsigned num_args = tpl_args.size();
-
-  if (cls_tpl_decl) {
-    const TemplateArgumentList& tpl_arg_list =
-        cls_tpl_decl->getTemplateInstantiationArgs();
-    tpl_args = tpl_arg_list.asArray();
-    num_args = tpl_arg_list.size();
-  }
+  // The elements of a parameter pack are arguments like any other.
+  vector<TemplateArgument> tpl_args;
+  for (const TemplateArgument& arg :
+       cls_tpl_decl ? cls_tpl_decl->getTemplateInstantiationArgs().asArray()
+                    : written_tpl_args) {
+    if (arg.getKind() == TemplateArgument::Pack)
+      Extend(&tpl_args, arg.pack_elements());
+    else
+      tpl_args.push_back(arg);
+  }
+  const unsigned num_args = tpl_args.size();
 
   // TemplateSpecializationType only includes explicitly specified
   // types in its args list, so we start with that.  Note that an
-- 
2.43.0


From 91a9e61c908de61d6e93ce41257001314652b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 16/55] fix: report the begin/end functions a range-based for
 statement uses

Free functions begin and end found by argument-dependent lookup were not
reported, so their header could be lost.
---
 iwyu.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 8b2fd11..ce2f4cc 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -203,6 +203,7 @@ using clang::ConceptSpecializationExpr;
 using clang::Decl;
 using clang::DeclContext;
 using clang::DeclRefExpr;
+using clang::DeclStmt;
 using clang::DecltypeType;
 using clang::DeducedTemplateSpecializationType;
 using clang::ElaboratedType;
@@ -1818,13 +1819,35 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (const Type* type = GetTypeOf(stmt->getRangeInit())) {
       ReportTypeUse(CurrentLoc(), type, DerefKind::RemoveRefs);
 
-      // TODO: We should probably find a way to require inclusion of any
-      // argument-dependent begin/end declarations.
     }
 
+    // The begin/end functions may also be found by argument-dependent lookup,
+    // possibly in another file than the range type.
+    ReportRangeFunctionUse(stmt->getRangeInit(), stmt->getBeginStmt());
+    ReportRangeFunctionUse(stmt->getRangeInit(), stmt->getEndStmt());
+
     return true;
   }
 
+  // Reports the free function that initializes the begin or end iterator of a
+  // range-based for-loop over range, unless it comes with the type of the range.
+  void ReportRangeFunctionUse(const Expr* range, const DeclStmt* iterator_stmt) {
+    if (iterator_stmt == nullptr || !iterator_stmt->isSingleDecl())
+      return;
+    const auto* iterator = dyn_cast<VarDecl>(iterator_stmt->getSingleDecl());
+    if (iterator == nullptr || iterator->getInit() == nullptr)
+      return;
+    const auto* call =
+        dyn_cast<CallExpr>(iterator->getInit()->IgnoreUnlessSpelledInSource());
+    const FunctionDecl* function = call ? call->getDirectCallee() : nullptr;
+    if (function == nullptr || isa<CXXMethodDecl>(function))
+      return;
+    const TagDecl* range_decl = range->getType()->getAsTagDecl();
+    if (range_decl && GetFileEntry(range_decl) == GetFileEntry(function))
+      return;
+    ReportDeclUse(CurrentLoc(), function);
+  }
+
   // When casting non-pointers, iwyu will do the right thing
   // automatically, but sometimes when casting from one pointer to
   // another, you still need the full type information of both types:
-- 
2.43.0


From 6b980bf3048e2979e4157808351de75db0849c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 17/55] fix: look into packs among the template arguments of a
 called function

A function template with a parameter pack whose instantiation needs the
complete type of an argument deduced into the pack (`l(c)` with
`template <class... X> void l(X&... x) { (x.f(), ...); }`) made IWYU ask
only for a forward declaration of it, because the pack's elements were
not among the types of interest.
---
 iwyu_ast_util.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 9f42a9b..71cd113 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -905,8 +905,16 @@ static map<const Type*, const Type*> GetTplTypeResugarMapForFunctionNoCallExpr(
     return retval;
   if (const TemplateArgumentList* tpl_list =
           decl->getTemplateSpecializationArgs()) {
-    for (unsigned i = start_arg; i < tpl_list->size(); ++i) {
-      if (const Type* arg_type = GetTemplateArgAsType(tpl_list->get(i))) {
+    // The elements of a parameter pack are arguments like any other.
+    vector<TemplateArgument> tpl_args;
+    for (const TemplateArgument& arg : tpl_list->asArray()) {
+      if (arg.getKind() == TemplateArgument::Pack)
+        Extend(&tpl_args, arg.pack_elements());
+      else
+        tpl_args.push_back(arg);
+    }
+    for (unsigned i = start_arg; i < tpl_args.size(); ++i) {
+      if (const Type* arg_type = GetTemplateArgAsType(tpl_args[i])) {
         retval[GetCanonicalType(arg_type)] = arg_type;
         VERRS(6) << "Adding an implicit tpl-function type of interest: "
                  << PrintableType(arg_type) << "\n";
-- 
2.43.0


From eb372375bcbb038d1af11772c7cbee58f93b3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 18/55] fix: report the template that an explicit
 specialization specializes

An explicit specialization of a function or variable template needs a
declaration of the primary template.  IWYU reported no use of it, and so
removed the header that declares it.
---
 iwyu.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index ce2f4cc..cd878f7 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -274,6 +274,7 @@ using clang::UsingShadowDecl;
 using clang::UsingType;
 using clang::ValueDecl;
 using clang::VarDecl;
+using clang::VarTemplateSpecializationDecl;
 using clang::driver::ToolChain;
 using llvm::cast;
 using llvm::dyn_cast;
@@ -1715,6 +1716,13 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       // Make all our types forward-declarable.
       current_ast_node()->set_in_forward_declare_context(true);
     }
+
+    // The template must be declared before it can be specialized.
+    if (decl->getTemplateSpecializationKind() ==
+        clang::TSK_ExplicitSpecialization) {
+      if (const FunctionTemplateDecl* primary = decl->getPrimaryTemplate())
+        ReportDeclUse(CurrentLoc(), primary);
+    }
     return true;
   }
 
@@ -1722,6 +1730,13 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (CanIgnoreCurrentASTNode())
       return true;
 
+    // The template must be declared before it can be specialized.
+    if (const auto* spec_decl =
+            dyn_cast<VarTemplateSpecializationDecl>(decl)) {
+      if (spec_decl->isExplicitSpecialization())
+        ReportDeclUse(CurrentLoc(), spec_decl->getSpecializedTemplate());
+    }
+
     if (decl->isThisDeclarationADefinition()) {
       // For variable definitions, report use of all previously seen decls with
       // external storage.
-- 
2.43.0


From 99be354aec34ecd55be54360d5ef1ea8d38f8096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 19/55] fix: honour keep and export pragmas on attributed and
 nested forward declarations

---
 iwyu.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index cd878f7..70a2d49 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4278,9 +4278,11 @@ class IwyuAstConsumer
               definitely_keep_fwd_decl = true;
           }
         }
-      } else if (preprocessor_info().ForwardDeclareIsMarkedKeep(decl)) {
-        definitely_keep_fwd_decl = true;
-      } else if (preprocessor_info().ForwardDeclareIsExported(decl)) {
+      }
+
+      // (4) Whatever it is, the author can ask for it to be kept.
+      if (preprocessor_info().ForwardDeclareIsMarkedKeep(decl) ||
+          preprocessor_info().ForwardDeclareIsExported(decl)) {
         definitely_keep_fwd_decl = true;
       }
 
-- 
2.43.0


From 19e614a7e3d5df26d4aafdcf2432f8c1bcbfde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 20/55] fix: do not suggest <built-in> for sources in an
 internal directory

---
 iwyu_include_picker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 4e2cc6c..d6f8521 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1537,7 +1537,7 @@ void IncludePicker::AddDirectInclude(const string& includer_filepath,
   // Mark the clang fake-file "<built-in>" as private, so we never try
   // to map anything to it.
   if (includer_filepath == "<built-in>")
-    MarkIncludeAsPrivate("\"<built-in>\"");
+    MarkIncludeAsPrivate(quoted_includer);
 
   // Automatically mark files in foo/internal/bar as private, and map them.
   // Then say that everyone else in foo/.* is a friend, who is allowed to
-- 
2.43.0


From af27671367e6493215a50c7a5f28dff846f4e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 21/55] fix: keep the spelling a friend uses for a private
 header

---
 iwyu_include_picker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index d6f8521..df56c4b 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1852,7 +1852,7 @@ vector<string> IncludePicker::GetCandidateHeadersForFilepathIncludedFrom(
   if (headers_with_includer_as_friend != nullptr &&
       ContainsKey(*headers_with_includer_as_friend, included_filepath)) {
     mapped_includes.push_back(
-        MappedInclude(quoted_includee, including_filepath));
+        MappedInclude(quoted_includee, included_filepath));
   } else {
     mapped_includes =
         GetCandidateHeadersForFilepath(included_filepath, including_filepath);
-- 
2.43.0


From 010e59e43a708db79e48eb9a6d1cf179ca8accba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 22/55] fix: protect re-exported and always_keep includes as
 they are written

---
 iwyu_include_picker.h | 12 ++++++------
 iwyu_preprocessor.cc  | 13 +++++++++----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 44275e1..3cb044f 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -182,6 +182,12 @@ class IncludePicker {
   bool HasMapping(const string& map_from_filepath,
                   const string& map_to_filepath) const;
 
+  // Given an includer-pathname and includee-pathname, return the
+  // quoted-include of the includee, as written in the includer, or
+  // "" if it's not found for some reason.
+  string MaybeGetIncludeNameAsWritten(const string& includer_filepath,
+                                      const string& includee_filepath) const;
+
   bool IsPublic(clang::OptionalFileEntryRef file) const;
 
   // Parses a YAML/JSON file containing mapping directives of various types.
@@ -247,12 +253,6 @@ class IncludePicker {
   vector<MappedInclude> GetPublicValues(const IncludeMap& m,
                                         const string& key) const;
 
-  // Given an includer-pathname and includee-pathname, return the
-  // quoted-include of the includee, as written in the includer, or
-  // "" if it's not found for some reason.
-  string MaybeGetIncludeNameAsWritten(const string& includer_filepath,
-                                      const string& includee_filepath) const;
-
   // Given a collection of MappedIncludes, and a path that might include them,
   // choose the best quoted include form for each MappedInclude.
   vector<string> BestQuotedIncludesForIncluder(
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9acde4f..2a9417b 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -540,19 +540,24 @@ void IwyuPreprocessorInfo::FinalizeProtectedIncludes() {
     for (OptionalFileEntryRef include :
          includer.direct_includes_as_fileentries()) {
       const string includee_path = GetFilePath(include);
+      // Protect the line that is there, which may spell the name differently
+      // from how we would.
+      string quoted_includee =
+          GlobalIncludePicker().MaybeGetIncludeNameAsWritten(includer_path,
+                                                             includee_path);
+      if (quoted_includee.empty())
+        quoted_includee = ConvertToQuotedInclude(includee_path);
       if (GlobalIncludePicker().HasMapping(includee_path, includer_path)) {
         // If includer re-exports includee, that counts as a "use" of it, so
         // protect the include.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(include, quoted_includee);
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
             << includee_path << " (reason: re-exports)\n";
       } else if (always_keep_files_.count(include) > 0) {
         // Includee itself contains an "always_keep" pragma that protects it
         // from removal in all includers.
-        includer.ReportIncludeFileUse(include,
-                                      ConvertToQuotedInclude(includee_path));
+        includer.ReportIncludeFileUse(include, quoted_includee);
         includer.ReportKnownDesiredFile(include);
         ERRSYM(includer_file)
             << "Marked dep: " << includer_path << " needs to keep "
-- 
2.43.0


From 956e8440f2a520ecc2541ef821318a82a91d4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 23/55] fix: keep every line that exports an include, not only
 the first

---
 iwyu_preprocessor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 2a9417b..075de80 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -488,6 +488,7 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
              LineHasText(includer_loc, "/* IWYU pragma: export") ||
              HasOpenBeginExports(includer)) {
     protect_reason = "pragma_export";
+    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
     const string includer_path = GetFilePath(includer);
     const string quoted_includer = ConvertToQuotedInclude(includer_path);
     MappedInclude map_to(quoted_includer, includer_path);
-- 
2.43.0


From 2407430404c82892b7bfecc417bbeda86a8de7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 24/55] fix: honour exported forward declarations of templates

---
 iwyu_output.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index c74be26..b3d6d4a 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1192,7 +1192,11 @@ void ProcessForwardDeclare(OneUse* use,
   // (A7) If any arbitrary redeclaration is marked with IWYU pragma: export,
   // reset use as a full use of this decl to keep its containing file included.
   if (!use->is_full_use()) {
-    for (const Decl* redecl : use->decl()->redecls()) {
+    // An implicit specialization is provided by any declaration of its template.
+    const NamedDecl* declared = use->decl();
+    if (spec_decl && !spec_decl->isExplicitSpecialization())
+      declared = tpl_decl;
+    for (const Decl* redecl : declared->redecls()) {
       const auto* decl = cast<NamedDecl>(redecl);
       if (preprocessor_info->ForwardDeclareIsExported(decl)) {
         use->reset_decl(decl);
-- 
2.43.0


From 439f60e6717778472b4f8f672afb7159a86b13ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 25/55] fix: treat a forward declaration in a file included
 repeatedly as one line

---
 iwyu_output.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index b3d6d4a..196bb63 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -614,11 +614,27 @@ void IwyuFileInfo::AddForwardDeclare(const NamedDecl* fwd_decl,
   CHECK_(fwd_decl && "forward_declare_decl unexpectedly nullptr");
   CHECK_((isa<ClassTemplateDecl>(fwd_decl) || isa<TagDecl>(fwd_decl)) &&
          "Can only forward declare tag types and class templates");
-  lines_.push_back(OneIncludeOrForwardDeclareLine(fwd_decl));
-  lines_.back().set_present();
+  OneIncludeOrForwardDeclareLine new_decl(fwd_decl);
+  new_decl.set_present();
   if (definitely_keep_fwd_decl)
-    lines_.back().set_desired();
+    new_decl.set_desired();
   direct_forward_declares_.insert(fwd_decl);   // store in another way as well
+
+  // Like an #include, a forward-declare is seen multiple times if its file is
+  // included repeatedly.  It is still only one line.
+  for (OneIncludeOrForwardDeclareLine& line : lines_) {
+    if (!line.IsIncludeLine() && line.LineNumbersMatch(new_decl) &&
+        line.line() == new_decl.line()) {
+      if (definitely_keep_fwd_decl)
+        line.set_desired();
+      VERRS(6) << "Ignoring repeated forward-declare: "
+               << GetFilePath(file_) << ":" << line.LineNumberString() << ": "
+               << line.line() << "\n";
+      return;
+    }
+  }
+
+  lines_.push_back(new_decl);
   VERRS(6) << "Found forward-declare: "
            << GetFilePath(file_) << ":" << lines_.back().LineNumberString()
            << ": " << internal::PrintablePtr(fwd_decl)
-- 
2.43.0


From 241dc88abdee328b57278a435f99697177de25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 26/55] fix: do not take the end of a comment for the argument
 of a pragma

---
 iwyu_preprocessor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 075de80..8e40b2d 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -218,8 +218,10 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
   OptionalFileEntryRef const this_file_entry = GetFileEntry(begin_loc);
 
   // Pragmas must start comments.
-  if (!StripLeft(&pragma_text, "// IWYU pragma: ") &&
-      !StripLeft(&pragma_text, "/* IWYU pragma: ")) {
+  if (StripLeft(&pragma_text, "/* IWYU pragma: ")) {
+    // The end of the comment is no part of the pragma.
+    StripRight(&pragma_text, "*/");
+  } else if (!StripLeft(&pragma_text, "// IWYU pragma: ")) {
     return;
   }
   const vector<string> tokens =
-- 
2.43.0


From 015b447b135b6e584ad1bf2735f8586966493375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 27/55] fix: a keep or export pragma is honoured only if it is
 one

---
 iwyu_lexer_utils.cc  | 16 ++++++++++++++--
 iwyu_lexer_utils.h   |  7 +++----
 iwyu_preprocessor.cc | 12 ++++--------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/iwyu_lexer_utils.cc b/iwyu_lexer_utils.cc
index e95ce77..d000ee4 100644
--- a/iwyu_lexer_utils.cc
+++ b/iwyu_lexer_utils.cc
@@ -9,6 +9,7 @@
 
 #include "iwyu_lexer_utils.h"
 
+#include <cctype>
 #include <cstring>
 #include <string>
 
@@ -27,10 +28,21 @@ using std::string;
 
 namespace include_what_you_use {
 
-bool LineHasText(SourceLocation source_location, StringRef text) {
+bool LineHasPragma(SourceLocation source_location, StringRef name) {
   const StringRef data =
       GetSourceTextUntilEndOfLine(source_location, DefaultDataGetter());
-  return data.find(text) != StringRef::npos;
+  for (StringRef opening : {"// IWYU pragma: ", "/* IWYU pragma: "}) {
+    for (size_t pos = data.find(opening); pos != StringRef::npos;
+         pos = data.find(opening, pos + 1)) {
+      StringRef rest = data.substr(pos + opening.size()).ltrim();
+      if (rest.consume_front(name) &&
+          (rest.empty() || isspace(rest.front()) ||
+           (opening.starts_with("/*") && rest.starts_with("*/")))) {
+        return true;
+      }
+    }
+  }
+  return false;
 }
 
 // SourceManagerCharacterDataGetter method implementations.
diff --git a/iwyu_lexer_utils.h b/iwyu_lexer_utils.h
index 37ead5a..3982608 100644
--- a/iwyu_lexer_utils.h
+++ b/iwyu_lexer_utils.h
@@ -26,10 +26,9 @@ namespace include_what_you_use {
 
 using std::string;
 
-// For a particular source line that source_location points to,
-// returns true if the given text occurs on the line.
-// (Case sensitive.)
-bool LineHasText(clang::SourceLocation source_location, llvm::StringRef text);
+// Returns true if the rest of the line at source_location has a comment with
+// the IWYU pragma of exactly the given name.
+bool LineHasPragma(clang::SourceLocation source_location, llvm::StringRef name);
 
 // Interface to get character data from a SourceLocation. This allows
 // tests to avoid constructing a SourceManager yet still allow iwyu to
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 8e40b2d..1a159c7 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -475,8 +475,7 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
   // TODO(dsturtevant): As written "// // IWYU pragma: keep" is incorrectly
   // interpreted as a pragma. Maybe do "keep" and "export" pragma handling
   // in HandleComment?
-  if (LineHasText(includer_loc, "// IWYU pragma: keep") ||
-      LineHasText(includer_loc, "/* IWYU pragma: keep") ||
+  if (LineHasPragma(includer_loc, "keep") ||
       HasOpenBeginKeep(includer)) {
     protect_reason = "pragma_keep";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
@@ -486,8 +485,7 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
     protect_reason = "--keep";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
 
-  } else if (LineHasText(includer_loc, "// IWYU pragma: export") ||
-             LineHasText(includer_loc, "/* IWYU pragma: export") ||
+  } else if (LineHasPragma(includer_loc, "export") ||
              HasOpenBeginExports(includer)) {
     protect_reason = "pragma_export";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
@@ -1196,8 +1194,7 @@ bool IwyuPreprocessorInfo::ForwardDeclareIsMarkedKeep(
     }
   }
   // Is the declaration itself marked with trailing comment?
-  return (LineHasText(loc, "// IWYU pragma: keep") ||
-          LineHasText(loc, "/* IWYU pragma: keep"));
+  return LineHasPragma(loc, "keep");
 }
 
 bool IwyuPreprocessorInfo::ForwardDeclareIsExported(
@@ -1216,7 +1213,6 @@ bool IwyuPreprocessorInfo::ForwardDeclareIsExported(
     }
   }
   // Is the declaration itself marked with trailing comment?
-  return (LineHasText(loc, "// IWYU pragma: export") ||
-          LineHasText(loc, "/* IWYU pragma: export"));
+  return LineHasPragma(loc, "export");
 }
 }  // namespace include_what_you_use
-- 
2.43.0


From 44aefc7219e8b0f94830117b02f067c09f5e80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 28/55] fix: report on the associated headers of a header
 before the header

A header that itself has associated headers (by a pragma) made the analysis
stop on an internal check, depending on the order of the file names; so did a
file associated with itself.
---
 iwyu.cc        | 28 +++++++++++++++++++++++-----
 iwyu_output.cc | 18 ++++++++++++++++++
 iwyu_output.h  |  8 ++++++++
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 70a2d49..1d62a94 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4071,19 +4071,21 @@ class IwyuAstConsumer
 
     // We have to calculate the .h files before the .cc file, since
     // the .cc file inherits #includes from the .h files, and we
-    // need to figure out what those #includes are going to be.
+    // need to figure out what those #includes are going to be.  The same
+    // goes for a .h file that has associated headers of its own.
     size_t num_edits = 0;
+    set<const IwyuFileInfo*> reported;
     OptionalFileEntryRef const main_file = preprocessor_info().main_file();
     for (OptionalFileEntryRef file : *files_to_report_iwyu_violations_for) {
       if (file == main_file)
         continue;
       CHECK_(preprocessor_info().FileInfoFor(file));
-      num_edits += preprocessor_info().FileInfoFor(file)
-          ->CalculateAndReportIwyuViolations();
+      num_edits += CalculateAndReportIwyuViolations(
+          preprocessor_info().FileInfoFor(file), &reported);
     }
     CHECK_(preprocessor_info().FileInfoFor(main_file));
-    num_edits += preprocessor_info().FileInfoFor(main_file)
-        ->CalculateAndReportIwyuViolations();
+    num_edits += CalculateAndReportIwyuViolations(
+        preprocessor_info().FileInfoFor(main_file), &reported);
 
     int exit_code = EXIT_SUCCESS;
     if (GlobalFlags().exit_code_always) {
@@ -4097,6 +4099,22 @@ class IwyuAstConsumer
     exit(exit_code);
   }
 
+  // Reports on file_info, and before that on its associated headers, unless
+  // that has been done already.  Returns the number of edits reported.
+  size_t CalculateAndReportIwyuViolations(IwyuFileInfo* file_info,
+                                          set<const IwyuFileInfo*>* reported) {
+    if (!reported->insert(file_info).second)
+      return 0;
+    size_t num_edits = 0;
+    for (OptionalFileEntryRef file :
+         *preprocessor_info().files_to_report_iwyu_violations_for()) {
+      IwyuFileInfo* other = preprocessor_info().FileInfoFor(file);
+      if (ContainsKey(file_info->associated_headers(), other))
+        num_edits += CalculateAndReportIwyuViolations(other, reported);
+    }
+    return num_edits + file_info->CalculateAndReportIwyuViolations();
+  }
+
   void ParseFunctionTemplates(Sema& sema, TranslationUnitDecl* tu_decl) {
     set<FunctionDecl*> late_parsed_decls = GetLateParsedFunctionDecls(tu_decl);
 
diff --git a/iwyu_output.cc b/iwyu_output.cc
index 196bb63..4b76dd6 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -575,7 +575,25 @@ IwyuFileInfo::IwyuFileInfo(OptionalFileEntryRef this_file,
       desired_includes_have_been_calculated_(false) {
 }
 
+bool IwyuFileInfo::IsAssociatedWith(const IwyuFileInfo* other) const {
+  if (this == other)
+    return true;
+  for (const IwyuFileInfo* associated : associated_headers_) {
+    if (associated->IsAssociatedWith(other))
+      return true;
+  }
+  return false;
+}
+
 void IwyuFileInfo::AddAssociatedHeader(const IwyuFileInfo* other) {
+  // What we report for a file depends on what we report for its associated
+  // headers, so a file cannot be (indirectly) associated with itself.
+  if (other->IsAssociatedWith(this)) {
+    VERRS(6) << "Not adding " << GetFilePath(other->file_)
+             << " as associated header for " << GetFilePath(file_)
+             << ", which is associated with it\n";
+    return;
+  }
   VERRS(6) << "Adding " << GetFilePath(other->file_)
            << " as associated header for " << GetFilePath(file_) << "\n";
   associated_headers_.insert(other);
diff --git a/iwyu_output.h b/iwyu_output.h
index 89b57fa..6d0dd07 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -269,6 +269,10 @@ class IwyuFileInfo {
   // headers.
   void AddAssociatedHeader(const IwyuFileInfo* other);
 
+  const set<const IwyuFileInfo*>& associated_headers() const {
+    return associated_headers_;
+  }
+
   // Use these to register an iwyu declaration: either an #include,
   // a forward-declaration or a using-declaration.
 
@@ -354,6 +358,10 @@ class IwyuFileInfo {
     return desired_includes_;
   }
 
+  // True if other is this file, or one of its (direct or indirect) associated
+  // headers.
+  bool IsAssociatedWith(const IwyuFileInfo* other) const;
+
   set<string> AssociatedQuotedIncludes() const {
     set<string> associated_quoted_includes;
     for (const IwyuFileInfo* associated : associated_headers_)
-- 
2.43.0


From 83f85a661d6eb505f3e465254c7e1250d065c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 29/55] fix: -r takes an argument

---
 iwyu_globals.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index d59aa6a..13b9fbf 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -253,7 +253,7 @@ int CommandlineFlags::ParseArgv(int argc, char** argv) {
     {"experimental", required_argument, nullptr, 'p'},
     {nullptr, 0, nullptr, 0}
   };
-  static const char shortopts[] = "v:c:m:d:nr";
+  static const char shortopts[] = "v:c:m:d:nr:";
   while (true) {
     switch (getopt_long(argc, argv, shortopts, longopts, nullptr)) {
       case 'c': AddGlobToReportIWYUViolationsFor(optarg); break;
-- 
2.43.0


From 539f859b06ace4e7b5439f9dbc4b50e82fb5f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 30/55] fix: the name of a file to report on is not a pattern

A main file or an associated header with a glob character in its path was
reported without any uses, or stopped the analysis on an internal check.
---
 iwyu_globals.cc      | 7 +++++++
 iwyu_globals.h       | 3 +++
 iwyu_preprocessor.cc | 6 +++---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index 13b9fbf..7f18363 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -547,8 +547,15 @@ void AddGlobToReportIWYUViolationsFor(const string& glob) {
   commandline_flags->check_also.insert(NormalizeFilePath(glob));
 }
 
+void AddFileToReportIWYUViolationsFor(const string& path) {
+  CHECK_(commandline_flags && "Call ParseIwyuCommandlineFlags() before this");
+  commandline_flags->check_files.insert(NormalizeFilePath(path));
+}
+
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
   const string filepath = GetFilePath(file);
+  if (ContainsKey(GlobalFlags().check_files, filepath))
+    return true;
   for (const string& glob : GlobalFlags().check_also)
     if (GlobMatchesPath(glob.c_str(), filepath.c_str()))
       return true;
diff --git a/iwyu_globals.h b/iwyu_globals.h
index 3aa9bed..2dc57af 100644
--- a/iwyu_globals.h
+++ b/iwyu_globals.h
@@ -91,6 +91,7 @@ struct CommandlineFlags {
   bool HasExperimentalFlag(const char* flag) const;
 
   set<string> check_also;  // -c: globs to report iwyu violations for
+  set<string> check_files; // (no flag) files to report iwyu violations for
   set<string> keep;        // -k: globs to force-keep includes for
   bool transitive_includes_only;   // -t: don't add 'new' #includes to files
   int verbose;             // -v: how much information to emit as we parse
@@ -138,6 +139,8 @@ FullUseCache* ClassMembersFullUseCache();
 // They are specified as glob file-patterns (which behave just as they
 // do in the shell).  TODO(csilvers): use a prefix instead? allow '...'?
 void AddGlobToReportIWYUViolationsFor(const string& glob);
+// For the files of the main compilation unit, by name: theirs are not patterns.
+void AddFileToReportIWYUViolationsFor(const string& path);
 bool ShouldReportIWYUViolationsFor(clang::OptionalFileEntryRef file);
 
 // For the commandline option --keep.
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 1a159c7..93315d5 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -635,7 +635,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
     // TODO: This line cannot be covered with our current test framework;
     // don't forget to add a test case if we build something better in the
     // future.
-    AddGlobToReportIWYUViolationsFor(GetFilePath(includee));
+    AddFileToReportIWYUViolationsFor(GetFilePath(includee));
   }
 
   // Besides marking headers as "associated header" with heuristics, the user
@@ -650,7 +650,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
              << " as associated header of " << GetFilePath(includer)
              << " due to associated pragma.\n";
 
-    AddGlobToReportIWYUViolationsFor(GetFilePath(includee));
+    AddFileToReportIWYUViolationsFor(GetFilePath(includee));
     associated_pragma_location_ = SourceLocation();
   }
 
@@ -867,7 +867,7 @@ void IwyuPreprocessorInfo::FileChanged_EnterFile(
       BelongsToMainCompilationUnit(GetFileEntry(include_loc), new_file)) {
     VERRS(5) << "Added to main compilation unit: "
              << GetFilePath(new_file) << "\n";
-    AddGlobToReportIWYUViolationsFor(GetFilePath(new_file));
+    AddFileToReportIWYUViolationsFor(GetFilePath(new_file));
   }
   if (ShouldReportIWYUViolationsFor(new_file)) {
     files_to_report_iwyu_violations_for_.insert(new_file);
-- 
2.43.0


From 2299e59573e3d8d9578759344440a67ccc1140e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 31/55] fix: a regular expression has to match the whole header
 name

Anchoring a pattern with alternatives by ^ and $ anchors its first and last
alternative only, and half a match put a broken name into the report.
---
 iwyu_regex.cc | 45 ++++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 09aee7b..171b6ff 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -13,33 +13,12 @@
 #include <regex>
 
 #include "iwyu_port.h"
-#include "iwyu_string_util.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Regex.h"
 
 namespace include_what_you_use {
 
-namespace {
-
-// Add ^...$ start/end anchoring if they don't already exist.
-// This is useful to transform from search-inside-string semantics to match-
-// whole-string semantics for regex implementations that don't support the
-// latter.
-std::string Anchored(const std::string& pattern) {
-  const char* prefix = "";
-  const char* suffix = "";
-  if (!StartsWith(pattern, "^")) {
-    prefix = "^";
-  }
-  if (!EndsWith(pattern, "$")) {
-    suffix = "$";
-  }
-
-  return prefix + pattern + suffix;
-}
-
-}  // anonymous namespace
-
 bool ParseRegexDialect(const char* str, RegexDialect* dialect) {
   if (strcmp(str, "llvm") == 0) {
     *dialect = RegexDialect::LLVM;
@@ -55,9 +34,11 @@ bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::match has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
-      return r.match(str);
+      // llvm::Regex::match has search semantics, but finds the leftmost and
+      // then longest match; ensure it is all of str.
+      llvm::Regex r(pattern);
+      llvm::SmallVector<llvm::StringRef, 4> matches;
+      return r.match(str, &matches) && matches[0].size() == str.size();
     }
 
     case RegexDialect::ECMAScript: {
@@ -73,16 +54,18 @@ std::string RegexReplace(RegexDialect dialect, const std::string& str,
                          const std::string& replacement) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::sub has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
+      // llvm::Regex::sub has search semantics; see RegexMatch.
+      llvm::Regex r(pattern);
       return r.sub(replacement, str);
     }
 
     case RegexDialect::ECMAScript: {
-      // std::regex_replace has search semantics; ensure anchored.
-      std::regex r(Anchored(pattern), std::regex_constants::ECMAScript);
-      return std::regex_replace(str, r, replacement,
-                                std::regex_constants::format_first_only);
+      // std::regex_replace has search semantics; format a full match.
+      std::regex r(pattern, std::regex_constants::ECMAScript);
+      std::smatch matches;
+      if (!std::regex_match(str, matches, r))
+        return str;
+      return matches.format(replacement);
     }
   }
   CHECK_UNREACHABLE_("Unexpected regex dialect");
-- 
2.43.0


From 68c4c99fa23a786a4374a9f8e8330b7a2bed573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 32/55] fix: refuse a mapping file with syntax errors

The YAML parser returns null nodes for some syntax errors, which were
dereferenced.
---
 iwyu_include_picker.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index df56c4b..0076b4d 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1932,6 +1932,14 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
   VERRS(5) << "Adding mappings from file '" << absolute_path << "'.\n";
 
   SourceMgr source_manager;
+
+  // The nodes of a file with syntax errors cannot be used, so look for errors
+  // (which are printed) first.
+  Stream validating_stream(bufferOrError.get()->getMemBufferRef(),
+                           source_manager);
+  if (!validating_stream.validate())
+    return;
+
   Stream json_stream(bufferOrError.get()->getMemBufferRef(), source_manager);
 
   document_iterator stream_begin = json_stream.begin();
-- 
2.43.0


From 8374b2bfe4e578f8c9ac00f27b96e6b65f241334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 33/55] fix: read a mapping file once

Mapping files that refer to each other, or to themselves, were followed until
the stack overflowed.
---
 iwyu_include_picker.cc | 7 +++++++
 iwyu_include_picker.h  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 0076b4d..cadc4f0 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1929,6 +1929,13 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
     return;
   }
 
+  // Files may refer to each other; read every one of them once.
+  llvm::SmallString<256> real_path;
+  if (llvm::sys::fs::real_path(absolute_path, real_path))
+    real_path = absolute_path;
+  if (!mapping_files_read_.insert(real_path.str().str()).second)
+    return;
+
   VERRS(5) << "Adding mappings from file '" << absolute_path << "'.\n";
 
   SourceMgr source_manager;
diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 3cb044f..e162884 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -301,6 +301,9 @@ class IncludePicker {
   // contents of friend_to_headers_map_["@\"foo/bar/.*\""].
   map<string, set<string>> friend_to_headers_map_;
 
+  // The mapping files that have been read, by their real paths.
+  set<string> mapping_files_read_;
+
   // Make sure we don't do any non-const operations after finalizing.
   bool has_called_finalize_added_include_lines_;
 
-- 
2.43.0


From 5dddc1921a111b5e56dcaa0a5b04e3f497b5c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 34/55] fix: diagnose broken entries of mapping files

A regular expression that is none, a symbol entry whose name is not a scalar
and anything after the array were accepted silently.
---
 iwyu_include_picker.cc | 25 ++++++++++++++++++++++++-
 iwyu_regex.cc          | 12 ++++++++++++
 iwyu_regex.h           |  6 ++++++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index cadc4f0..9be27bd 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1944,7 +1944,12 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
   // (which are printed) first.
   Stream validating_stream(bufferOrError.get()->getMemBufferRef(),
                            source_manager);
-  if (!validating_stream.validate())
+  size_t num_documents = 0;
+  for (document_iterator it = validating_stream.begin();
+       it != validating_stream.end(); ++it) {
+    ++num_documents;
+  }
+  if (validating_stream.failed())
     return;
 
   Stream json_stream(bufferOrError.get()->getMemBufferRef(), source_manager);
@@ -1960,6 +1965,10 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
     json_stream.printError(root, "Root element must be an array.");
     return;
   }
+  if (num_documents > 1) {
+    json_stream.printError(root, "Unexpected content after the root element.");
+    return;
+  }
 
   for (Node& array_item_node : *array) {
     Node* current_node = &array_item_node;
@@ -2004,6 +2013,12 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
           return;
         }
 
+        if (mapping[0].empty()) {
+          json_stream.printError(current_node,
+                                 "Expected from-entry to be a symbol name.");
+          return;
+        }
+
         AddSymbolMapping(mapping[0], MappedInclude(mapping[2]), to_visibility);
       } else if (directive == "include") {
         // Include mapping.
@@ -2037,6 +2052,14 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
           return;
         }
 
+        string regex_error;
+        if (StartsWith(mapping[0], "@") &&
+            !RegexIsValid(regex_dialect, mapping[0].substr(1), &regex_error)) {
+          json_stream.printError(current_node, "Invalid regex '" + mapping[0] +
+                                                   "': " + regex_error);
+          return;
+        }
+
         if (!IsQuotedInclude(mapping[2])) {
           json_stream.printError(
               current_node,
diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 171b6ff..f04d14f 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -30,6 +30,18 @@ bool ParseRegexDialect(const char* str, RegexDialect* dialect) {
   return false;
 }
 
+bool RegexIsValid(RegexDialect dialect, const std::string& pattern,
+                  std::string* error) {
+  switch (dialect) {
+    case RegexDialect::LLVM:
+      return llvm::Regex(pattern).isValid(*error);
+
+    case RegexDialect::ECMAScript:
+      return true;
+  }
+  CHECK_UNREACHABLE_("Unexpected regex dialect");
+}
+
 bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
diff --git a/iwyu_regex.h b/iwyu_regex.h
index 54f4a6c..d40f7fe 100644
--- a/iwyu_regex.h
+++ b/iwyu_regex.h
@@ -19,6 +19,12 @@ enum class RegexDialect { LLVM = 0, ECMAScript = 1 };
 // Parse dialect string to enum.
 bool ParseRegexDialect(const char* str, RegexDialect* dialect);
 
+// Returns false and says why if pattern is no valid regular expression.
+// Errors of ECMAScript patterns can only be reported by exceptions, so they
+// are not detected.
+bool RegexIsValid(RegexDialect dialect, const std::string& pattern,
+                  std::string* error);
+
 // Returns true if str matches regular expression pattern for the given dialect.
 bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern);
-- 
2.43.0


From 457405853f18991dcec0e14e1b0250ab2bb24c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 35/55] fix: contradictory visibilities in mapping files are no
 internal error

A mapping file that gives one header two visibilities, or makes a header in an
internal directory public, stopped the analysis on an assertion.  Say so and
keep the first.
---
 iwyu_include_picker.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 9be27bd..9c4adf5 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1507,11 +1507,13 @@ void IncludePicker::MarkVisibility(VisibilityMap* map,
 
   // insert() leaves any old value alone, and only inserts if the key is new.
   map->insert(make_pair(key, visibility));
-  CHECK_((*map)[key] == visibility)
-      << " Same file seen with two different visibilities: "
-      << key
-      << " Old vis: " << (*map)[key]
-      << " New vis: " << visibility;
+  // Mapping files can contradict each other, or the built-in rules.
+  if ((*map)[key] != visibility) {
+    VERRS(0) << "Warning: Ignoring that " << key << " is declared "
+             << (visibility == kPublic ? "public" : "private")
+             << ", it is already declared "
+             << (visibility == kPublic ? "private" : "public") << "\n";
+  }
 }
 
 // AddDirectInclude lets us use some hard-coded rules to add filepath
-- 
2.43.0


From 4e15709aec1aba66bcbd558670fd4a5b745c9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 36/55] fix: count #elifdef and #elifndef as uses of the macro
 they test

---
 iwyu_preprocessor.cc | 16 ++++++++++++++++
 iwyu_preprocessor.h  |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 93315d5..668f1e6 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -762,6 +762,22 @@ void IwyuPreprocessorInfo::Ifndef(SourceLocation loc, const Token& id,
   ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
 }
 
+void IwyuPreprocessorInfo::Elifdef(SourceLocation loc, const Token& id,
+                                   const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifdef    ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
+void IwyuPreprocessorInfo::Elifndef(SourceLocation loc, const Token& id,
+                                    const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifndef   ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
 // Clang will give a MacroExpands() callback for all macro-tokens
 // used inside an #if or #elif, *except* macro-tokens used within a
 // 'defined' operator. They produce a Defined() callback.
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 9be44b4..a2ed171 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -184,6 +184,14 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
              const clang::MacroDefinition& definition) override;
   void Ifndef(clang::SourceLocation loc, const clang::Token& id,
               const clang::MacroDefinition& definition) override;
+  void Elifdef(clang::SourceLocation loc, const clang::Token& id,
+               const clang::MacroDefinition& definition) override;
+  void Elifndef(clang::SourceLocation loc, const clang::Token& id,
+                const clang::MacroDefinition& definition) override;
+  // The overloads for untaken #elifdefs and #elifndefs, whose macro isn't
+  // looked at, keep doing nothing.
+  using clang::PPCallbacks::Elifdef;
+  using clang::PPCallbacks::Elifndef;
   void Defined(const clang::Token& id,
                const clang::MacroDefinition& definition,
                clang::SourceRange range) override;
-- 
2.43.0


From bd334bc57ccde46cd052cacce2fe4be14f47eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 37/55] fix: a macro's parameters are no uses of macros of the
 same name

---
 iwyu_preprocessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 668f1e6..eddfb7b 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -728,6 +728,10 @@ void IwyuPreprocessorInfo::MacroDefined(const Token& id,
     if (token.isExpandDisabled())
       continue;
 
+    // A parameter stands for its argument, whatever macros share its name.
+    if (defined_macro->getParameterNum(token.getIdentifierInfo()) >= 0)
+      continue;
+
     const MacroInfo* macro =
         preprocessor_.getMacroInfo(token.getIdentifierInfo());
     if (!macro || !macro->isEnabled())
-- 
2.43.0


From bb2fbbf4b72a0a85ebae8cc30dc186e4df19d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 38/55] fix: refuse malformed numbers in --verbose and
 --max_line_length

---
 iwyu_globals.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index 7f18363..c8de56f 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -259,7 +259,12 @@ int CommandlineFlags::ParseArgv(int argc, char** argv) {
       case 'c': AddGlobToReportIWYUViolationsFor(optarg); break;
       case 'k': AddGlobToKeepIncludes(optarg); break;
       case 't': transitive_includes_only = true; break;
-      case 'v': verbose = atoi(optarg); break;
+      case 'v':
+        if (!ParseIntegerOptarg(optarg, &verbose)) {
+          PrintHelp("FATAL ERROR: --verbose argument must be valid integer.");
+          exit(EXIT_FAILURE);
+        }
+        break;
       case 'm': mapping_files.push_back(optarg); break;
       case 'n': no_default_mappings = true; break;
       case 'o': no_comments = true; break;
@@ -291,8 +296,13 @@ int CommandlineFlags::ParseArgv(int argc, char** argv) {
         break;
       case 'h': pch_in_code = true; break;
       case 'l':
-        max_line_length = atoi(optarg);
-        CHECK_((max_line_length >= 0) && "Max line length must be positive");
+        if (!ParseIntegerOptarg(optarg, &max_line_length) ||
+            max_line_length <= 0) {
+          PrintHelp(
+              "FATAL ERROR: --max_line_length argument must be positive "
+              "integer.");
+          exit(EXIT_FAILURE);
+        }
         break;
       case 'q': quoted_includes_first = true; break;
       case 'C': cxx17ns = true; break;
-- 
2.43.0


From 0ff95af5cb888c1e1ae3a855ce7f4cd423c86237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 39/55] fix: comments in the long style name pointer uses with
 their namespaces too

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 4b76dd6..16a1a5e 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1943,7 +1943,9 @@ void CalculateDesiredIncludesAndForwardDeclares(
     } else if (ContainsKey(include_map, use.suggested_header())) {
       // If we satisfy a forward-declare use from a file, let the file
       // know (this is just for logging).
-      const string symbol_name = use.short_symbol_name();
+      const string symbol_name = GlobalFlags().comments_with_namespace
+                                     ? use.symbol_name()
+                                     : use.short_symbol_name();
 
       auto range = include_map.equal_range(use.suggested_header());
       for (auto it = range.first; it != range.second; ++it) {
-- 
2.43.0


From 107b0840cc5d1a91a2b70f97d038c73e5920e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 40/55] fix: refuse stray words after -Xiwyu

---
 iwyu_globals.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index c8de56f..eb61974 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -405,6 +405,10 @@ static int ParseIwyuCommandlineFlags(int argc, char** argv) {
   CHECK_(commandline_flags == nullptr && "Only parse commandline flags once");
   commandline_flags = new CommandlineFlags;
   const int retval = commandline_flags->ParseArgv(argc, argv);
+  if (retval < argc) {
+    PrintHelp("FATAL ERROR: unexpected argument to -Xiwyu.");
+    exit(EXIT_FAILURE);
+  }
   SetVerboseLevel(commandline_flags->verbose);
 
   VERRS(4) << "Setting verbose-level to " << commandline_flags->verbose << "\n";
-- 
2.43.0


From c3ed903d6e7b08c31e7ed2f109767ff3993f20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 41/55] fix: --no_fwd_decls applies to declarations of
 templates too

---
 iwyu_output.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 16a1a5e..fa6558d 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1246,7 +1246,14 @@ void ProcessForwardDeclare(OneUse* use,
   // so we can just let IWYU do its work, and there is no need to recategorize.
   if (!use->ignore_use() && GlobalFlags().no_fwd_decls) {
     bool promote_to_full_use = true;
-    for (const Decl* decl = use->decl(); decl != nullptr;
+    const Decl* last_decl = use->decl();
+    if (spec_decl && !spec_decl->isExplicitSpecialization()) {
+      // An implicit specialization is not redeclared, its template is.
+      const CXXRecordDecl* dfn = tpl_decl->getTemplatedDecl()->getDefinition();
+      last_decl = dfn ? dfn->getDescribedClassTemplate()
+                      : tpl_decl->getMostRecentDecl();
+    }
+    for (const Decl* decl = last_decl; decl != nullptr;
          decl = decl->getPreviousDecl()) {
       if (IsBeforeInSameFile(decl->getLocation(), use->use_loc())) {
         promote_to_full_use = false;
-- 
2.43.0


From 9e3266ee70ecc4a99f6edf3d6013f0dedd44a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 42/55] fix: --check_also globs do not match the built-in file

---
 iwyu_globals.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index eb61974..5aa4ebb 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -567,6 +567,9 @@ void AddFileToReportIWYUViolationsFor(const string& path) {
 }
 
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
+  // No glob means the built-in "file" or the command line.
+  if (!file)
+    return false;
   const string filepath = GetFilePath(file);
   if (ContainsKey(GlobalFlags().check_files, filepath))
     return true;
-- 
2.43.0


From 67712149c040d1709fb6b7be79e80a0bc63f0355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 43/55] fix: --no_fwd_decls prefers headers whatever the order
 of declarations

---
 iwyu_output.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index fa6558d..ced5eab 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1246,13 +1246,14 @@ void ProcessForwardDeclare(OneUse* use,
   // so we can just let IWYU do its work, and there is no need to recategorize.
   if (!use->ignore_use() && GlobalFlags().no_fwd_decls) {
     bool promote_to_full_use = true;
-    const Decl* last_decl = use->decl();
-    if (spec_decl && !spec_decl->isExplicitSpecialization()) {
-      // An implicit specialization is not redeclared, its template is.
-      const CXXRecordDecl* dfn = tpl_decl->getTemplatedDecl()->getDefinition();
-      last_decl = dfn ? dfn->getDescribedClassTemplate()
-                      : tpl_decl->getMostRecentDecl();
-    }
+    // An implicit specialization is not redeclared, its template is.
+    const NamedDecl* last_decl = use->decl();
+    if (spec_decl && !spec_decl->isExplicitSpecialization())
+      last_decl = tpl_decl;
+    if (const NamedDecl* dfn = GetTagDefinition(last_decl))
+      last_decl = dfn;
+    else
+      last_decl = cast<NamedDecl>(last_decl->getMostRecentDecl());
     for (const Decl* decl = last_decl; decl != nullptr;
          decl = decl->getPreviousDecl()) {
       if (IsBeforeInSameFile(decl->getLocation(), use->use_loc())) {
-- 
2.43.0


From f17b4ff4f1a9815d65e63d137a82a6785e5f26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 44/55] fix: do not read past a response file that ends in a
 backslash

---
 iwyu_driver.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index 6b52c34..0d9f4a6 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -149,9 +149,9 @@ void ExpandArgsFromBuf(const char *Arg,
     }
 
     if (*P == '\\') {
-      ++P;
-      if (*P != '\0')
-        CurArg.push_back(*P);
+      // A backslash at the end of the file escapes nothing.
+      if (P[1] != '\0')
+        CurArg.push_back(*++P);
       continue;
     }
     CurArg.push_back(*P);
-- 
2.43.0


From f7680fbf683f3b3c8776527d2de70bce349fa0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 45/55] fix: do not expand a response file within itself

---
 iwyu_driver.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index 0d9f4a6..58ad778 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -102,13 +102,17 @@ const char *SaveStringInSet(std::set<std::string> &SavedStrings, StringRef S) {
 
 void ExpandArgsFromBuf(const char *Arg,
                        SmallVectorImpl<const char*> &ArgVector,
-                       set<std::string> &SavedStrings) {
-  const char *FName = Arg + 1;
+                       set<std::string> &SavedStrings,
+                       SmallVectorImpl<std::string> &OpenFiles) {
+  std::string FName = Arg + 1;
   ErrorOr<unique_ptr<MemoryBuffer>> MemBufOrErr = MemoryBuffer::getFile(FName);
-  if (!MemBufOrErr) {
+  // Leave the argument alone if there is no such file, or if we are already
+  // expanding it.
+  if (!MemBufOrErr || llvm::is_contained(OpenFiles, FName)) {
     ArgVector.push_back(SaveStringInSet(SavedStrings, Arg));
     return;
   }
+  OpenFiles.push_back(FName);
 
   const char *Buf = MemBufOrErr.get()->getBufferStart();
   char InQuote = ' ';
@@ -121,7 +125,8 @@ void ExpandArgsFromBuf(const char *Arg,
         if (CurArg[0] != '@') {
           ArgVector.push_back(SaveStringInSet(SavedStrings, CurArg));
         } else {
-          ExpandArgsFromBuf(CurArg.c_str(), ArgVector, SavedStrings);
+          ExpandArgsFromBuf(CurArg.c_str(), ArgVector, SavedStrings,
+                            OpenFiles);
         }
 
         CurArg = "";
@@ -156,6 +161,7 @@ void ExpandArgsFromBuf(const char *Arg,
     }
     CurArg.push_back(*P);
   }
+  OpenFiles.pop_back();
 }
 
 void ExpandArgv(int argc, const char **argv,
@@ -168,7 +174,8 @@ void ExpandArgv(int argc, const char **argv,
       continue;
     }
 
-    ExpandArgsFromBuf(Arg, ArgVector, SavedStrings);
+    SmallVector<std::string, 4> OpenFiles;
+    ExpandArgsFromBuf(Arg, ArgVector, SavedStrings, OpenFiles);
   }
 }
 
-- 
2.43.0


From 65dd6d6bb46968aa827162f12bb20c065ee806d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 46/55] fix: refuse -Xiwyu without an argument

---
 iwyu_globals.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index 5aa4ebb..8d86aaa 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -184,9 +184,13 @@ OptionsParser::OptionsParser(int argc, char** argv) {
   clang_argv_[0] = argv[0];
   clang_argc_ = 1;
   for (int i = 1; i < argc; ++i) {
-    if (i < argc - 1 && strcmp(argv[i], "-Xiwyu") == 0)
+    if (strcmp(argv[i], "-Xiwyu") == 0) {
+      if (i == argc - 1) {
+        PrintHelp("FATAL ERROR: -Xiwyu needs an argument.");
+        exit(EXIT_FAILURE);
+      }
       iwyu_argv[iwyu_argc++] = argv[++i];   // the word after -Xiwyu
-    else if (strcmp(argv[i], "--help") == 0)
+    } else if (strcmp(argv[i], "--help") == 0)
       intercepted_argv[intercepted_argc++] = argv[i];     // intercept --help
     else if (strcmp(argv[i], "--version") == 0)
       intercepted_argv[intercepted_argc++] = argv[i];     // intercept --version
-- 
2.43.0


From 75d3730116cc70d6d3113297563fe37234d7db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:25 +0000
Subject: [PATCH 47/55] fix: look up mapping refs next to the referring file
 first

---
 iwyu_include_picker.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 9c4adf5..0062c27 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1331,22 +1331,18 @@ vector<string> GetSequenceValue(Node* node) {
   return result;
 }
 
-// If new_path doesn't already exist in search_path, makes a copy of search_path
-// and adds new_path to it.
-// Returns the original or extended search path.
+// Returns a copy of search_path with new_path as its first element.
 vector<string> ExtendMappingFileSearchPath(const vector<string>& search_path,
                                            const string& new_path) {
   CHECK_(IsAbsolutePath(new_path));
 
-  if (std::find(search_path.begin(),
-                search_path.end(),
-                new_path) == search_path.end()) {
-    vector<string> extended(search_path);
-    extended.push_back(new_path);
-    return extended;
+  vector<string> extended{new_path};
+  for (const string& path : search_path) {
+    if (path != new_path)
+      extended.push_back(path);
   }
 
-  return search_path;
+  return extended;
 }
 
 // Scans search_path for existing files with filename.
-- 
2.43.0


From 592758a47f34c41fc40c5ed3eb9da45d62f6aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 48/55] fix: require the element type of a reversed subscript

---
 iwyu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index 1d62a94..c07bd4c 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -2050,7 +2050,8 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (CanIgnoreCurrentASTNode())
       return true;
 
-    ReportTypeUse(CurrentLoc(), GetTypeOf(expr->getLHS()),
+    // The pointer may also be written inside the brackets: 4[a].
+    ReportTypeUse(CurrentLoc(), GetTypeOf(expr->getBase()),
                   DerefKind::RemoveRefsAndPtr);
     return true;
   }
-- 
2.43.0


From 65050a0a589fb6d02dad106dc8f25b80232fe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 49/55] fix: require the source type of __builtin_bit_cast

---
 iwyu.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index c07bd4c..fdbb0a9 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1969,10 +1969,15 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       // Kinds for reinterpret_cast and const_cast, which need no full types.
       case clang::CK_BitCast:                // used for reinterpret_cast
       case clang::CK_LValueBitCast:          // used for reinterpret_cast
-      case clang::CK_LValueToRValueBitCast:  // used for reinterpret_cast
       case clang::CK_NoOp:                   // used for const_cast, etc
         break;
 
+      // Need the full from-type for __builtin_bit_cast. The to-type is written
+      // in the source.
+      case clang::CK_LValueToRValueBitCast:
+        required_full_types.push_back(from_type);
+        break;
+
       // Need the full to-type so we can call its constructor.
       case clang::CK_ConstructorConversion:
         // 'Autocast' in function calls is handled in VisitCXXConstructExpr.
-- 
2.43.0


From d1f5d13aba5c942cfb6853af336dc133a47e62f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 50/55] fix: require the derived class of a member pointer
 conversion

---
 iwyu.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index fdbb0a9..9b20157 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1990,14 +1990,22 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
         break;
 
       // Kinds that cast up or down an inheritance hierarchy.
-      case clang::CK_BaseToDerived:
       case clang::CK_BaseToDerivedMemberPointer:
+        required_full_types.push_back(
+            expr->getType()->castAs<MemberPointerType>()->getClass());
+        break;
+      case clang::CK_DerivedToBaseMemberPointer:
+        required_full_types.push_back(expr->getSubExpr()
+                                          ->getType()
+                                          ->castAs<MemberPointerType>()
+                                          ->getClass());
+        break;
+      case clang::CK_BaseToDerived:
         // Just 'to' type is enough: full type for derived gets base type too.
         required_full_types.push_back(to_type);
         break;
       case clang::CK_DerivedToBase:
       case clang::CK_UncheckedDerivedToBase:
-      case clang::CK_DerivedToBaseMemberPointer:
         // Just 'from' type is enough: full type for derived gets base type too.
         required_full_types.push_back(from_type);
 
-- 
2.43.0


From 9a425f54e47b008073bf5de0bdccc2685d87e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 51/55] fix: report the concept of a constrained placeholder
 type

---
 iwyu.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 9b20157..6db72f9 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -177,6 +177,7 @@ using clang::ASTFrontendAction;
 using clang::ArraySubscriptExpr;
 using clang::ArrayType;
 using clang::Attr;
+using clang::AutoTypeLoc;
 using clang::BinaryOperator;
 using clang::CXXBaseSpecifier;
 using clang::CXXBindTemporaryExpr;
@@ -4624,6 +4625,15 @@ class IwyuAstConsumer
     return Base::VisitTemplateSpecializationType(type);
   }
 
+  // The concept of a constrained placeholder: 'Concept auto x = ...'.
+  bool VisitAutoTypeLoc(AutoTypeLoc type_loc) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+    if (type_loc.isConstrained())
+      ReportDeclUse(CurrentLoc(), type_loc.getNamedConcept());
+    return Base::VisitAutoTypeLoc(type_loc);
+  }
+
   bool VisitElaboratedTypeLoc(ElaboratedTypeLoc type_loc) {
     if (type_loc.getTypePtr()->getKeyword() != ElaboratedTypeKeyword::None) {
       preprocessor_info()
-- 
2.43.0


From 1ad24d33de6cd2e5390d4b742de050abfca8fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 52/55] fix: report what the condition of an explicit specifier
 uses

---
 iwyu.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 6db72f9..f5ada83 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -213,6 +213,7 @@ using clang::ElaboratedTypeLoc;
 using clang::EnumConstantDecl;
 using clang::EnumDecl;
 using clang::EnumType;
+using clang::ExplicitSpecifier;
 using clang::Expr;
 using clang::FriendDecl;
 using clang::FriendTemplateDecl;
@@ -1724,6 +1725,10 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       if (const FunctionTemplateDecl* primary = decl->getPrimaryTemplate())
         ReportDeclUse(CurrentLoc(), primary);
     }
+
+    // RecursiveASTVisitor does not visit the condition of 'explicit(...)'.
+    if (Expr* condition = ExplicitSpecifier::getFromDecl(decl).getExpr())
+      return this->getDerived().TraverseStmt(condition);
     return true;
   }
 
-- 
2.43.0


From 68ccd4905f677c769174903e5732023e5c98e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 53/55] fix: do not take declared specializations for forward
 declarations

---
 iwyu_ast_util.cc      | 4 +++-
 iwyu_location_util.cc | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 71cd113..85e9125 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -1228,7 +1228,9 @@ bool IsForwardDecl(const NamedDecl* decl) {
             !tag_decl->isCompleteDefinition() &&
             !tag_decl->isEmbeddedInDeclarator() &&
             !IsFriendDecl(tag_decl) &&
-            !IsExplicitInstantiation(tag_decl));
+            // Neither an explicit instantiation nor an explicit specialization
+            // is just a declaration of the class template.
+            !isa<ClassTemplateSpecializationDecl>(tag_decl));
   }  // clang-format on
 
   return false;
diff --git a/iwyu_location_util.cc b/iwyu_location_util.cc
index cc4831a..b5b966b 100644
--- a/iwyu_location_util.cc
+++ b/iwyu_location_util.cc
@@ -85,8 +85,8 @@ SourceLocation GetLocation(const Decl* decl) {
   }
   if (const ClassTemplateSpecializationDecl* spec = DynCastFrom(decl)) {
     const TemplateSpecializationKind kind = spec->getSpecializationKind();
-    if (kind != clang::TSK_ExplicitInstantiationDeclaration &&
-        kind != clang::TSK_ExplicitInstantiationDefinition)
+    if (kind == clang::TSK_Undeclared ||
+        kind == clang::TSK_ImplicitInstantiation)
       decl = GetDefinitionAsWritten(spec);  // templated class
   } else if (const FunctionDecl* fn_decl = DynCastFrom(decl)) {
     if (fn_decl->getTemplateInstantiationPattern())  // templated function
-- 
2.43.0


From 9cabf295fe12bad22d44f912e5a66532e59cd7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:47 +0000
Subject: [PATCH 54/55] fix: require the header of a using declaration that
 names a class template

---
 iwyu.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index f5ada83..93dae3a 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4655,6 +4655,23 @@ class IwyuAstConsumer
       return true;
     if (!Base::VisitTemplateName(template_name))
       return false;
+
+    // If we found the template via a using declaration, make sure we #include
+    // the file with that.
+    if (const UsingShadowDecl* shadow_decl =
+            template_name.getAsUsingShadowDecl()) {
+      if (const auto* using_decl =
+              dyn_cast<UsingDecl>(shadow_decl->getIntroducer())) {
+        const SourceLocation used_loc =
+            GetCanonicalUseLocation(CurrentLoc(), shadow_decl->getTargetDecl());
+        preprocessor_info()
+            .FileInfoFor(GetFileEntry(used_loc))
+            ->ReportUsingDeclUse(used_loc, using_decl,
+                                 ComputeUseFlags(current_ast_node()),
+                                 "(for using decl)");
+      }
+    }
+
     // We can see TemplateName outside the context of a
     // TemplateSpecializationType when it's either the default argument of a
     // template template arg:
-- 
2.43.0


From c9cbd95bd714378c1d464d346270a6baddb13c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 55/55] fix: name the class of a member pointer independently
 of the Clang version

---
 iwyu.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 93dae3a..d9c8b4e 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1869,6 +1869,12 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     ReportDeclUse(CurrentLoc(), function);
   }
 
+  static const Type* GetClassOfMemberPointer(QualType type) {
+    return type->castAs<MemberPointerType>()
+        ->getMostRecentCXXRecordDecl()
+        ->getTypeForDecl();
+  }
+
   // When casting non-pointers, iwyu will do the right thing
   // automatically, but sometimes when casting from one pointer to
   // another, you still need the full type information of both types:
@@ -1996,15 +2002,13 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
         break;
 
       // Kinds that cast up or down an inheritance hierarchy.
+      // For member pointers, it is the derived of the two classes, too.
       case clang::CK_BaseToDerivedMemberPointer:
-        required_full_types.push_back(
-            expr->getType()->castAs<MemberPointerType>()->getClass());
+        required_full_types.push_back(GetClassOfMemberPointer(expr->getType()));
         break;
       case clang::CK_DerivedToBaseMemberPointer:
-        required_full_types.push_back(expr->getSubExpr()
-                                          ->getType()
-                                          ->castAs<MemberPointerType>()
-                                          ->getClass());
+        required_full_types.push_back(
+            GetClassOfMemberPointer(expr->getSubExpr()->getType()));
         break;
       case clang::CK_BaseToDerived:
         // Just 'to' type is enough: full type for derived gets base type too.
-- 
2.43.0

