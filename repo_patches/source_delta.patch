From 9d21c5266a3a1c64eed76200c4db5f13cd5690c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 01/11] fix: keep a trailing argument made of backslashes when
 splitting Windows command lines

---
 iwyu_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18cf5ff..105834e 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -197,8 +197,9 @@ def win_split(cmdline):
                 arg += c
                 backslashes = 0
 
+        # Flush any buffered backslashes and yield last arg, unless empty.
+        arg += '\\' * backslashes
         if arg:
-            arg += '\\' * backslashes
             yield arg
 
     return list(split_iter(cmdline))
-- 
2.43.0


From 34023870192fcec896e0c3a6bd733dd77df857ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 02/11] fix: clang formatter must not fail on a removal without
 line numbers

---
 iwyu_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 105834e..9369158 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -94,9 +94,10 @@ def clang_formatter(output, style):
                                  (state[1], style, line))
         elif state[0] == REMOVE:
             match = LINES_RE.match(line)
+            include = match.group(1) if match else line
             line_no = match.group(2) if match else '1'
             formatted.append("%s:%s:1: %s: superfluous '%s'" %
-                             (state[1], line_no, style, match.group(1)))
+                             (state[1], line_no, style, include))
 
     return os.linesep.join(formatted)
 
-- 
2.43.0


From 6df29348879f6000e963afec59f10f7832ceefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 03/11] fix: do not destroy a file whose new contents cannot be
 encoded

_WriteFile truncated the file before encoding, so adding a line that the
file's encoding cannot express left an empty file behind and aborted the
run with a UnicodeEncodeError.
---
 fix_includes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..14645c2 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -602,12 +602,14 @@ def _ReadFile(filename, fileinfo):
 def _WriteFile(filename, fileinfo, file_lines):
   """Write the given file-lines to the file."""
   try:
+    # file_lines already have line endings, so join with ''.
+    # Encode before opening the file, so that a line which cannot be
+    # encoded does not leave a truncated file behind.
+    content = ''.join(file_lines)
+    content = content.encode(fileinfo.encoding)
     with open(filename, 'wb') as f:
-      # file_lines already have line endings, so join with ''.
-      content = ''.join(file_lines)
-      content = content.encode(fileinfo.encoding)
       f.write(content)
-  except (IOError, OSError) as why:
+  except (IOError, OSError, UnicodeError) as why:
     print("Error writing '%s': %s" % (filename, why))
 
 
-- 
2.43.0


From 5c9a37df754d17574ebdc3b48a13dbe5d1d5d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 04/11] fix: number the lines of a file as the compiler does

str.splitlines() also ends a line at form feeds, vertical tabs and several
Unicode characters, so after one of them every line number reported by iwyu
named a different line and unrelated lines were deleted or moved.
---
 fix_includes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 14645c2..37049ad 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -60,6 +60,7 @@ up.  Then we're done!
 __author__ = 'csilvers@google.com (Craig Silverstein)'
 
 import difflib
+import io
 import argparse
 import os
 import re
@@ -588,12 +589,15 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
-      # endings.  Later in WriteFile, they will be used as-is.
+      # Keep the original line endings.  Later in WriteFile, they will be used as-is.
       # This will reduce spurious changes to the original files.
       # The lines we add will have the linesep determined by
       # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # Do not use str.splitlines(): it also splits at form feeds, vertical
+      # tabs and Unicode separators, which do not end a line for the compiler,
+      # and then our line numbers would differ from those iwyu reports.
+      text = content.decode(fileinfo.encoding)
+      return list(io.StringIO(text, newline=''))
   except (IOError, OSError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From 4a6821715a7a4f8a83f8cc241e0166bfc73a966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 05/11] fix: an unreadable file must not stop the other files
 from being fixed

Detecting the encoding opens the file first, and its IOError was not
handled, so one missing file aborted the whole run.
---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 37049ad..3bd3642 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2276,6 +2276,8 @@ def FixManyFiles(iwyu_records, flags):
       files_fixed += 1
     except FixIncludesError as why:
       print('ERROR: %s - skipping file %s' % (why, iwyu_record.filename))
+    except (IOError, OSError) as why:
+      print("Skipping '%s': %s" % (iwyu_record.filename, why))
 
   print('IWYU edited %d files on your behalf.\n' % files_fixed)
   return files_fixed
-- 
2.43.0


From fd834037e243a74b1526e463c83230adbd49f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 06/11] fix: accept any file contents when guessing the
 encoding

A file with bytes that none of the candidate encodings can decode was
given as UTF-8, and decoding it aborted the run. latin-1 maps every byte
and loses nothing.
---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 3bd3642..7f48058 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -576,7 +576,7 @@ class FileInfo(object):
       if try_decode(bytebuf, 'utf-8-sig'):
         return 'utf-8-sig'
 
-    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252']
+    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252', 'latin-1']
     for encoding in encodings:
       if try_decode(bytebuf, encoding):
         return encoding
-- 
2.43.0


From 8a9ce1614e9eb8388844a9413b604e799f223671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 07/11] fix: spell a friend's private header by its own path,
 not the includer's

The candidate for a friend paired the includee's name with the includer's
path, so a private header outside the search paths was suggested as the
includer itself.
---
 iwyu_include_picker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..ffc883c 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1887,7 +1887,7 @@ vector<string> IncludePicker::GetCandidateHeadersForFilepathIncludedFrom(
   if (headers_with_includer_as_friend != nullptr &&
       ContainsKey(*headers_with_includer_as_friend, included_filepath)) {
     mapped_includes.push_back(
-        MappedInclude(quoted_includee, including_filepath));
+        MappedInclude(quoted_includee, included_filepath));
   } else {
     mapped_includes =
         GetCandidateHeadersForFilepath(included_filepath, including_filepath);
-- 
2.43.0


From 06a9462590b7c4c63db91e87cbe69e8a41418d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 08/11] fix: close include mappings transitively across cycles

A header on a mapping cycle was expanded while the values of its children
were still incomplete, so it did not map to everything reachable from it.
---
 iwyu_include_picker.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index ffc883c..0f069b8 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1338,6 +1338,19 @@ void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
   vector<string> node_stack;
   for (const IncludePicker::IncludeMap::value_type& includes : *filename_map)
     MakeNodeTransitive(filename_map, &seen_nodes, &node_stack, includes.first);
+
+  // A node on a cycle may have been expanded before the values of its children
+  // were complete.  Keep expanding until there is nothing left to add.
+  bool changed = true;
+  while (changed) {
+    changed = false;
+    for (IncludePicker::IncludeMap::value_type& includes : *filename_map) {
+      const size_t old_size = includes.second.size();
+      ExpandOnce(*filename_map, &includes.second);
+      if (includes.second.size() != old_size)
+        changed = true;
+    }
+  }
 }
 
 // Get a scalar value from a YAML node.
-- 
2.43.0


From 5bbb94c3c8fadc5183c9a67a097c171486b5a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 09/11] fix: do not match an already deleted #if with the
 #endif of an enclosing one

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 7f48058..5a20852 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1103,7 +1103,8 @@ def _DeleteEmptyIfdefs(file_lines):
   num_ifdefs_deleted = 0
   start_line = 0
   while start_line < len(file_lines):
-    if file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE):
+    if (file_lines[start_line].deleted or
+        file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE)):
       start_line += 1
       continue
     end_line = start_line + 1
-- 
2.43.0


From 0b1b7c2a4bb95474165e94e1f2ff46b9bb22e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 10/11] fix: do not delete the closing brace of an enclosing
 scope with an empty namespace

---
 fix_includes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 5a20852..34b874b 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1057,8 +1057,11 @@ def _DeleteEmptyNamespaces(file_lines):
         end_line += 1
       elif line_info.type == _NAMESPACE_END_RE:
         namespace_depth -= max(line_info.line.count('}'), 1)
+        if namespace_depth < 0:    # bail: this also closes an outer scope
+          end_line = start_line + 1
+          break
         end_line += 1
-        if namespace_depth <= 0:
+        if namespace_depth == 0:
           # Delete any comments preceding this namespace as well.
           start_line = _LineNumberStartingPrecedingComments(file_lines,
                                                             start_line)
-- 
2.43.0


From 4f01bbd0be5fc627b31393b11fc60eab5a75b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 11/11] fix: reject a report whose include lines are past the
 end of the file

---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 34b874b..bb0483c 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -771,6 +771,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
-- 
2.43.0

