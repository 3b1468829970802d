From 6df827b5b55996ba6734421d70c1541ec9516054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 01/27] fix: don't use the error count as the exit status

Exit statuses are truncated to 8 bits, so 256 errors (e.g. 256 html pages
which can't be written) were reported as success.
---
 src/quickbook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index cc8fe0d..d0dc3db 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -755,7 +755,9 @@ int main(int argc, char* argv[])
                 return !error_count;
             }
             else {
-                return error_count;
+                // The number of errors can't be used as the exit status, as
+                // only the low 8 bits are available on many systems.
+                return error_count ? 1 : 0;
             }
         }
         else {
-- 
2.43.0


From 6d94773e25be8a7299ef60645c20b3f5af3da228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 02/27] fix: report errors when the end of an output file can't
 be written

The stream was checked before its buffer had been written, so e.g. a full
disk went unnoticed.
---
 src/bb2html.cpp   | 1 +
 src/quickbook.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 44c8e75..ceb00bb 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -724,6 +724,7 @@ namespace quickbook
             }
 
             fileout << html;
+            fileout.close();
 
             if (fileout.fail()) {
                 ::quickbook::detail::outerr(path)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index d0dc3db..164b1d1 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -240,6 +240,7 @@ namespace quickbook
                 }
 
                 fileout << stage2;
+                fileout.close();
 
                 if (fileout.fail()) {
                     ::quickbook::detail::outerr()
-- 
2.43.0


From d9a0873eaff416848af00e43527a1c7d7b59cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 03/27] fix: make --output-dir usable

A missing break made it always fail, and it didn't allow a directory in
the current directory.
---
 src/quickbook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 164b1d1..7a0d070 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -618,12 +618,14 @@ int main(int argc, char* argv[])
                         quickbook::detail::command_line_to_path(
                             vm["output-dir"].as<command_line_string>());
 
-                    if (!fs::is_directory(options.output_path.parent_path())) {
+                    fs::path parent = options.output_path.parent_path();
+                    if (!parent.empty() && !fs::is_directory(parent)) {
                         quickbook::detail::outerr()
                             << "parent directory not found for output directory"
                             << std::endl;
                         ++error_count;
                     }
+                    break;
                 }
                 case quickbook::parse_document_options::output_file:
                     quickbook::detail::outerr()
-- 
2.43.0


From 8c1de65fecf1bfff653c00a89619e2f7b7fb4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 04/27] fix: don't assert that the chunked output directory
 already exists

---
 src/quickbook.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 7a0d070..5fecbb2 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -705,7 +705,12 @@ int main(int argc, char* argv[])
                 // should be in filein's directory.
                 // If output_path was explicitly specified, then it's already
                 // been checked.
-                assert(error_count || fs::is_directory(options.xinclude_base));
+                // The directory for chunked output is created when it's
+                // needed, so it might not exist yet.
+                assert(
+                    error_count ||
+                    options.style == parse_document_options::output_chunked ||
+                    fs::is_directory(options.xinclude_base));
             }
 
             if (vm.count("image-location")) {
-- 
2.43.0


From 93683ad3d09eb99a23c8e083cec2cf498f9b8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 05/27] fix: implement the --no-output option

It was documented and accepted, but ignored.
---
 src/quickbook.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 5fecbb2..97b1ad7 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -643,7 +643,8 @@ int main(int argc, char* argv[])
             }
 
             if (!vm.count("output-file") && !vm.count("output-dir")) {
-                if (!output_specified && alt_output_specified) {
+                if (vm.count("no-output") ||
+                    (!output_specified && alt_output_specified)) {
                     options.style =
                         quickbook::parse_document_options::output_none;
                 }
-- 
2.43.0


From df6f3632ac9a137778faf5bd59081770cb8352c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 06/27] fix: don't loop forever on a tag split over lines when
 linking a title

---
 src/id_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id_xml.cpp b/src/id_xml.cpp
index 8209f64..56f8aae 100644
--- a/src/id_xml.cpp
+++ b/src/id_xml.cpp
@@ -147,7 +147,7 @@ namespace quickbook
                         }
 
                         for (;;) {
-                            read_to_one_of(it, end, "\"'\n\r>");
+                            read_to_one_of(it, end, "\"'>");
                             if (it == end || *it == '>') break;
                             if (*it == '"' || *it == '\'') {
                                 char delim = *it;
-- 
2.43.0


From ecad98f8d1940b03254e003c8e06c64d254c9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 07/27] fix: handle all link elements in the HTML output

---
 src/bb2html.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index ceb00bb..3bda07b 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -968,8 +968,14 @@ namespace quickbook
         NODE_MAP(blockquote, blockquote)
         NODE_MAP(quote, q)
         NODE_MAP(code, code)
-        NODE_MAP(macronname, code)
+        NODE_MAP(functionname, code)
         NODE_MAP(classname, code)
+        NODE_MAP(methodname, code)
+        NODE_MAP(enumname, code)
+        NODE_MAP(macroname, code)
+        NODE_MAP(headername, code)
+        NODE_MAP(conceptname, code)
+        NODE_MAP(globalname, code)
         NODE_MAP_CLASS(programlisting, pre, programlisting)
         NODE_MAP(literal, tt)
         NODE_MAP(subscript, sub)
-- 
2.43.0


From 16cb89ac327fa995a5f4964ad29c4a6a19e0a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 08/27] fix: don't overwrite the input file with the output

---
 src/quickbook.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 97b1ad7..146f3dd 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -679,6 +679,16 @@ int main(int argc, char* argv[])
                 }
             }
 
+            if (!error_count &&
+                options.style == parse_document_options::output_file &&
+                fs::exists(options.output_path) &&
+                fs::equivalent(filein, options.output_path)) {
+                quickbook::detail::outerr()
+                    << "output file is the input file: "
+                    << options.output_path << std::endl;
+                ++error_count;
+            }
+
             if (vm.count("xinclude-base")) {
                 options.xinclude_base = quickbook::detail::command_line_to_path(
                     vm["xinclude-base"].as<command_line_string>());
-- 
2.43.0


From bf3dcf43a2f0e9786989ad80381c3e125d2a02d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 09/27] fix: escape non-ASCII bytes in URLs correctly

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3a6b058..49c4577 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -195,8 +195,8 @@ namespace quickbook
                      !(n + 2 < uri_param.size() &&
                        std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
-                    char escape[] = {'%', hex[uri_param[n] / 16],
-                                     hex[uri_param[n] % 16], '\0'};
+                    unsigned char c = static_cast<unsigned char>(uri_param[n]);
+                    char escape[] = {'%', hex[c / 16], hex[c % 16], '\0'};
                     uri += escape;
                 }
                 else {
-- 
2.43.0


From c0392113dbe8969c5da997abc177ae343d6ac523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 10/27] fix: don't pass negative values to character
 classification functions

---
 src/actions.cpp       | 2 +-
 src/id_generation.cpp | 9 ++++++---
 src/post_process.cpp  | 6 +++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index e53bbde..212bb3f 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -100,7 +100,7 @@ namespace quickbook
                 char const* allowed_punctuation = "_.-";
 
                 QUICKBOOK_FOR (char c, id) {
-                    if (!std::isalnum(c) &&
+                    if (!std::isalnum(static_cast<unsigned char>(c)) &&
                         !std::strchr(allowed_punctuation, c))
                         valid = false;
                 }
diff --git a/src/id_generation.cpp b/src/id_generation.cpp
index 15c5e39..e30cb4c 100644
--- a/src/id_generation.cpp
+++ b/src/id_generation.cpp
@@ -231,13 +231,15 @@ namespace quickbook
 
         std::string::size_type length = base_id.size();
 
-        if (length > 0 && std::isdigit(base_id[length - 1])) {
+        if (length > 0 &&
+            std::isdigit(static_cast<unsigned char>(base_id[length - 1]))) {
             if (length < max_size - 1) {
                 base_id += '_';
                 ++length;
             }
             else {
-                while (length > 0 && std::isdigit(base_id[length - 1]))
+                while (length > 0 && std::isdigit(static_cast<unsigned char>(
+                                         base_id[length - 1])))
                     --length;
                 base_id.erase(length);
             }
@@ -259,7 +261,8 @@ namespace quickbook
                 --length;
 
                 // Trim any trailing digits.
-                while (length > 0 && std::isdigit(base_id[length - 1]))
+                while (length > 0 && std::isdigit(static_cast<unsigned char>(
+                                         base_id[length - 1])))
                     --length;
 
                 base_id.erase(length);
diff --git a/src/post_process.cpp b/src/post_process.cpp
index 1ee02bc..11d2939 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -331,10 +331,10 @@ namespace quickbook
 
         void do_escape(iter_type f, iter_type l) const
         {
-            while (f != l && std::isspace(*f)) {
+            while (f != l && std::isspace(static_cast<unsigned char>(*f))) {
                 ++f;
             }
-            while (f != l && std::isspace(*(l - 1))) {
+            while (f != l && std::isspace(static_cast<unsigned char>(*(l - 1)))) {
                 --l;
             }
             for (iter_type i = f; i != l; ++i) {
@@ -348,7 +348,7 @@ namespace quickbook
             if (state.out[state.out.size() - 1] != '\n') state.out += '\n';
 
             // trim trailing space from after closing tag
-            while (f != l && std::isspace(*(l - 1))) {
+            while (f != l && std::isspace(static_cast<unsigned char>(*(l - 1)))) {
                 --l;
             }
 
-- 
2.43.0


From fdaab52dee9ea38d3e16862e149418604d1375ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 11/27] fix: match non-ASCII bytes in glob brackets

---
 src/glob.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index 70089fb..78082de 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -22,7 +22,9 @@ namespace quickbook
         glob_iterator& filename_begin,
         glob_iterator& filename_end);
     bool match_range(
-        glob_iterator& pattern_begin, glob_iterator pattern_end, char x);
+        glob_iterator& pattern_begin,
+        glob_iterator pattern_end,
+        unsigned char x);
 
     // Is pattern a glob or a plain file name?
     // Throws glob_error if pattern is an invalid glob.
@@ -221,7 +223,9 @@ namespace quickbook
     }
 
     bool match_range(
-        glob_iterator& pattern_begin, glob_iterator pattern_end, char x)
+        glob_iterator& pattern_begin,
+        glob_iterator pattern_end,
+        unsigned char x)
     {
         assert(pattern_begin != pattern_end && *pattern_begin == '[');
         ++pattern_begin;
-- 
2.43.0


From 94b6b08ad035af85c4187d2ef1bae5c28587ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:21 +0000
Subject: [PATCH 12/27] fix: initialise still_in_block before it is saved

---
 src/main_grammar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 6d9368f..e18161d 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -153,6 +153,7 @@ namespace quickbook
             , no_eols(true)
             , context(element_info::in_top_level)
             , mark('\0')
+            , still_in_block(false)
             , state_(state)
         {
         }
-- 
2.43.0


From 1c656ff7ed3ed3cefdc5a6898da685b5535815d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 13/27] fix: do not dereference the callout number of a callout
 that has none

---
 src/bb2html.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 3bda07b..4a8cac9 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1334,13 +1334,16 @@ namespace quickbook
                                              link->second.path(), gen.path));
                 tag_end(gen.printer);
             }
-            graphics_tag(
-                gen,
-                "/callouts/" +
-                    boost::lexical_cast<std::string>(data->second.number) +
-                    ".png",
-                "(" + boost::lexical_cast<std::string>(data->second.number) +
-                    ")");
+            if (data != gen.chunk.callout_numbers.end()) {
+                graphics_tag(
+                    gen,
+                    "/callouts/" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ".png",
+                    "(" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ")");
+            }
             if (link != gen.state.ids.end()) {
                 close_tag(gen.printer, "a");
             }
-- 
2.43.0


From fb0c7e23f4c32b73633dabc723a1bb811cc60abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 14/27] fix: ignore an SVG attribute value that is never closed

---
 src/actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 212bb3f..ec4b55e 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1009,7 +1009,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentwidth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
@@ -1019,7 +1019,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentdepth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
-- 
2.43.0


From 842f78b3436e092fbc96c342f3689be31d7c966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 15/27] fix: report files that include each other instead of
 overflowing the stack

---
 src/actions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index ec4b55e..c4c8d2b 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1815,6 +1815,12 @@ namespace quickbook
                     : qbk_version_n >= 106u ? state_save::scope_callables
                                             : state_save::scope_macros);
 
+            // Files that include each other never end.
+            ++state.template_depth;
+            if (state.template_depth > state.max_template_depth) {
+                throw load_error("Infinite loop detected");
+            }
+
             state.current_file = load(path.file_path); // Throws load_error
             state.current_path = path;
             state.imported = (load_type == block_tags::import);
-- 
2.43.0


From 298257f9d27856e113497ed104b517a201ce68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:05 +0000
Subject: [PATCH 16/27] fix: test for the end of the text before reading a
 character

A glob ending in '[', the link 'boost:' and a truncated attribute were read one character past their end.
---
 src/bb2html.cpp   | 2 +-
 src/glob.cpp      | 2 +-
 src/xml_parse.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 4a8cac9..c0b7eb7 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -743,7 +743,7 @@ namespace quickbook
                 // TODO: Parameterize the boost location, so that it can use
                 // relative paths.
                 string_iterator it = link.begin() + strlen("boost:");
-                if (*it == '/') {
+                if (it != link.end() && *it == '/') {
                     ++it;
                 }
                 if (!gen.state.options.boost_root_path) {
diff --git a/src/glob.cpp b/src/glob.cpp
index 78082de..c5c90f9 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -82,7 +82,7 @@ namespace quickbook
         assert(begin != end && *begin == '[');
         ++begin;
 
-        if (*begin == ']') throw glob_error("empty range");
+        if (begin != end && *begin == ']') throw glob_error("empty range");
 
         while (begin != end) {
             switch (*begin) {
diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 4a043bb..65f16e4 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -275,7 +275,7 @@ namespace quickbook
             string_iterator& it, string_iterator start, string_iterator end)
         {
             read_some_of(it, end, " \t\n\r");
-            if (*it == '"' || *it == '\'') {
+            if (it != end && (*it == '"' || *it == '\'')) {
                 return read_string(it, end);
             }
             else {
-- 
2.43.0


From 4d7dbd6f35b5814e53ab18a788cff201c382af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:07 +0000
Subject: [PATCH 17/27] fix: do not look at the last character of empty output

---
 src/post_process.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 11d2939..167d021 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -345,7 +345,8 @@ namespace quickbook
         void do_code(iter_type f, iter_type l) const
         {
             state.printer.trim_spaces();
-            if (state.out[state.out.size() - 1] != '\n') state.out += '\n';
+            if (state.out.empty() || state.out[state.out.size() - 1] != '\n')
+                state.out += '\n';
 
             // trim trailing space from after closing tag
             while (f != l && std::isspace(static_cast<unsigned char>(*(l - 1)))) {
-- 
2.43.0


From 0cef0fa607f809973f4d2b0d7d7c09ad577dc6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 18/27] fix: record the glob in the directory that is searched

---
 src/include_paths.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index 80cd5e3..0bf6646 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -196,7 +196,7 @@ namespace quickbook
             // If the path has some glob match characters
             // we do a discovery of all the matches..
             {
-                fs::path current = state.current_file->path.parent_path();
+                fs::path current = state.current_path.file_path.parent_path();
 
                 // Search for the current dir accumulating to the result.
                 state.dependencies.add_glob(current / parameter.value);
-- 
2.43.0


From a1dba060e568e541f133520852b9b89a64739caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 19/27] fix: only mark the next nested block as a list item
 when there is one

An explicit list ([ordered_list ...]) left the explicit_list flag set after
its last item, so the next nested block (a note, a table cell, ...) was
treated as part of a list and any list in it was wrapped in a paragraph.
---
 src/block_element_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index baba339..38c7121 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -259,7 +259,7 @@ namespace quickbook
             ;
 
         local.list =
-            *(  cl::eps_p                       [explicit_list]
+            *(  cl::eps_p(space >> '[')         [explicit_list]
             >>  local.cell
             )
             ;
-- 
2.43.0


From 4727a2a057949ec8f97d80e5b043476505123859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 20/27] fix: only store the document type once the whole name
 has matched

The type was stored before checking that the name ends there, so for
something like "[articlefoo Title]" the document info had a type without a
title, and the conversion stopped with "Attempt to read past end of value
list."
---
 src/doc_info_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_info_grammar.cpp b/src/doc_info_grammar.cpp
index b3ca44a..ff83db2 100644
--- a/src/doc_info_grammar.cpp
+++ b/src/doc_info_grammar.cpp
@@ -135,7 +135,7 @@ namespace quickbook
         local.doc_info_block =
                 '['
             >>  space
-            >>  (local.doc_types >> cl::eps_p)
+            >>  (local.doc_types >> cl::eps_p(hard_space))
                                             [state.values.entry(ph::arg1, ph::arg2, doc_info_tags::type)]
             >>  hard_space
             >>  to_value(doc_info_tags::title)
-- 
2.43.0


From e3ba59f33869d1ebcecafef139e3f47b5d2fa5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 21/27] fix: sort the document attributes when there is no
 document info block

The attributes are taken in the order of their tags, but they were only
sorted at the end of a document info block. In a file without one,
"[source-mode c++]" or "[compatibility-mode 1.5]" before "[quickbook 1.6]"
stopped the conversion with "Not all values handled."
---
 src/doc_info_grammar.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/doc_info_grammar.cpp b/src/doc_info_grammar.cpp
index ff83db2..6c2a525 100644
--- a/src/doc_info_grammar.cpp
+++ b/src/doc_info_grammar.cpp
@@ -129,6 +129,7 @@ namespace quickbook
             >>  !(  space
                 >>  local.doc_info_block
                 )
+            >>  cl::eps_p                   [state.values.sort()]
             >>  *eol
             ;
 
@@ -150,12 +151,11 @@ namespace quickbook
             >>  !(qbk_ver(106u) >> cl::eps_p(ph::var(local.source_mode_unset))
                                             [default_source_mode]
                 )
-            >>  (   *(  (  local.doc_info_attribute
-                        |  local.doc_info_escaped_attributes
-                        )
-                        >>  space
+            >>  *(  (  local.doc_info_attribute
+                    |  local.doc_info_escaped_attributes
                     )
-                )                           [state.values.sort()]
+                    >>  space
+                )
             >>  (   ']'
                 >>  (eol | cl::end_p)
                 |   cl::eps_p               [error]
-- 
2.43.0


From 1db289c2d4ed9c2f6c2d29e57c4d46af6e57c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:15 +0000
Subject: [PATCH 22/27] fix: drop the parameters when a template has no
 parameter list

When the text after the name of a template starts with a bracket, but is not
a list of parameters (such as "[template x[role red [*b]]]"), the names up to
the point where parsing the list failed were still used as parameters.
---
 src/block_element_grammar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index 38c7121..9c39d2d 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -149,16 +149,16 @@ namespace quickbook
         local.template_ =
                space
             >> local.template_id                [state.values.entry(ph::arg1, ph::arg2)]
-            >> state.values.list()[
-            !(
+            >> (state.values.list()[
                 space >> '['
                 >> *(
                         space
                     >>  local.template_id       [state.values.entry(ph::arg1, ph::arg2)]
                     )
                 >> space >> ']'
-            )
             ]
+            |   state.values.list()[cl::eps_p]
+            )
             >>  (   cl::eps_p(*cl::blank_p >> cl::eol_p)
                 >>  local.template_body         [state.values.entry(ph::arg1, ph::arg2, template_tags::block)]
                 |   local.template_body         [state.values.entry(ph::arg1, ph::arg2, template_tags::phrase)]
-- 
2.43.0


From 65001e4207e087ee2581af3403bb33bce7bd5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:15 +0000
Subject: [PATCH 23/27] fix: only keep document attributes that are complete

An attribute was stored before its closing bracket was found, so in an
included file that starts with "[quickbook 1.4 or later]" the text was used
as text and also changed the language version.
---
 src/doc_info_grammar.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/doc_info_grammar.cpp b/src/doc_info_grammar.cpp
index 6c2a525..ec6d982 100644
--- a/src/doc_info_grammar.cpp
+++ b/src/doc_info_grammar.cpp
@@ -170,9 +170,9 @@ namespace quickbook
             >>  state.values.list(ph::var(local.attribute_tag))
                 [   cl::eps_p               [state.values.entry(ph::arg1, ph::arg2, doc_info_tags::before_docinfo)]
                 >>  local.attribute_rule
+                >>  space
+                >>  ']'
                 ]
-            >>  space
-            >>  ']'
             ;
 
         local.doc_info_attribute =
@@ -186,9 +186,10 @@ namespace quickbook
                 )
             >>  hard_space
             >>  state.values.list(ph::var(local.attribute_tag))
-                [local.attribute_rule]
-            >>  space
-            >>  ']'
+                [   local.attribute_rule
+                >>  space
+                >>  ']'
+                ]
             ;
 
         local.doc_fallback = to_value() [
-- 
2.43.0


From e2d2086a0379e3c5ebcd330710f55c34a192bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:05 +0000
Subject: [PATCH 24/27] fix: restore the list indentation after a nested block

A list in a nested block or template left its own indentation behind, so
that the next item of the enclosing list started a new list.
---
 src/main_grammar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index e18161d..72fa3ef 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -130,6 +130,7 @@ namespace quickbook
 
         // state
         std::stack<list_stack_item> list_stack;
+        std::stack<unsigned int> list_indent_save;
         unsigned int list_indent;
         bool no_eols;
         element_info::context context;
@@ -1132,6 +1133,7 @@ namespace quickbook
 
     void main_grammar_local::start_blocks_impl(parse_iterator, parse_iterator)
     {
+        list_indent_save.push(list_indent);
         list_stack.push(list_stack_item(list_stack_item::top_level));
     }
 
@@ -1143,6 +1145,7 @@ namespace quickbook
         state_.in_list = state_.explicit_list;
         state_.explicit_list = false;
 
+        list_indent_save.push(list_indent);
         list_stack.push(list_stack_item(list_stack_item::nested_block));
     }
 
@@ -1150,6 +1153,8 @@ namespace quickbook
     {
         clear_stack();
         list_stack.pop();
+        list_indent = list_indent_save.top();
+        list_indent_save.pop();
     }
 
     void main_grammar_local::check_indentation_impl(
-- 
2.43.0


From cb5d9f205a76f0f3b01fce1907dc2375e6fd9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:35 +0000
Subject: [PATCH 25/27] fix: encode ids when they are written to the document

---
 src/id_generation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/id_generation.cpp b/src/id_generation.cpp
index e30cb4c..8e8c474 100644
--- a/src/id_generation.cpp
+++ b/src/id_generation.cpp
@@ -13,6 +13,7 @@
 #include <boost/unordered_map.hpp>
 #include "document_state_impl.hpp"
 #include "for.hpp"
+#include "utils.hpp"
 
 namespace quickbook
 {
@@ -309,7 +310,8 @@ namespace quickbook
                     ids ? (*ids)[p->index] : p->unresolved_id;
 
                 result.append(source_pos, value.begin());
-                result.append(id.begin(), id.end());
+                // Explicit ids can contain any character.
+                result.append(detail::encode_string(id));
                 source_pos = value.end();
             }
         }
-- 
2.43.0


From 24ff4e498b5df5011c73be32d97b7fee9605fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:47 +0000
Subject: [PATCH 26/27] fix: encode the id when it's used as the dirname

---
 src/doc_info_actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 1472eed..4b2cf69 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -403,10 +403,10 @@ namespace quickbook
                 state.out << doc_info_output(info.dirname, 106);
             }
             else if (!info.id_.empty()) {
-                state.out << info.id_;
+                detail::print_string(info.id_, state.out.get());
             }
             else if (!info.include_doc_id_.empty()) {
-                state.out << info.include_doc_id_;
+                detail::print_string(info.include_doc_id_, state.out.get());
             }
             else if (!info.doc_title.empty()) {
                 state.out << detail::make_identifier(
-- 
2.43.0


From 7db4e999bcd9f0f534cdba48ac32e810d1c47c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:11 +0000
Subject: [PATCH 27/27] fix: encode the class of an author in the HTML output

---
 src/bb2html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index c0b7eb7..1a4e661 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1615,7 +1615,7 @@ namespace quickbook
 
             string_view class_ = x->get_attribute("class");
             if (!class_.empty()) {
-                text = class_.to_s() + ": " + text;
+                text = encode_string(class_) + ": " + text;
             }
 
             d.authors.push_back(text);
@@ -1627,7 +1627,7 @@ namespace quickbook
 
             string_view class_ = x->get_attribute("class");
             if (!class_.empty()) {
-                text = class_.to_s() + ": " + text;
+                text = encode_string(class_) + ": " + text;
             }
 
             d.authors.push_back(text);
-- 
2.43.0

