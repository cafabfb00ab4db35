From 707e9ff418343faca1b74242a1e0bd12d1d66cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 01/25] fix: short flags after -- are positional arguments

flag_is_set(char) searched all arguments, so `app -- -v` set the flag -v.
---
 include/sharg/detail/format_parse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..53cfb79 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -258,8 +258,10 @@ private:
     bool flag_is_set(char const short_id)
     {
         // short flags need special attention, since they could be grouped (-rGv <=> -r -G -v)
-        for (std::string & arg : arguments)
+        for (auto it = arguments.begin(); it != end_of_options_it; ++it)
         {
+            std::string & arg = *it;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From a92e81128958ad399875e57d10967f435342963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/25] fix: do not interpret built-in keywords after --

`app -- -h` printed the help page instead of passing -h as a positional argument.
---
 include/sharg/parser.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..21e2d10 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -875,15 +875,21 @@ private:
                 format_arguments.emplace_back(arg);
 
                 // Consume the next argument (the option value) if possible.
-                if (read_next_arg())
+                if (!read_next_arg()) // Too few arguments. This is handled by format_parse.
+                    break;
+
+                if (arg != option_end_identifier || !subcommands.empty())
                 {
                     format_arguments.emplace_back(arg);
                     continue;
                 }
-                else // Too few arguments. This is handled by format_parse.
-                {
-                    break;
-                }
+            }
+
+            // Everything after "--" is positional and must not be interpreted.
+            if (arg == option_end_identifier && subcommands.empty())
+            {
+                format_arguments.insert(format_arguments.end(), it, arguments.end());
+                break;
             }
 
             // If we have a subcommand, all further arguments are passed to the subparser.
-- 
2.43.0


From b0be53f362ad984cf0a6297fd2caff773d0897b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/25] fix: reject out-of-range values of list options

An overflowing value of a list option was dropped silently (or hit an assertion in debug mode).
---
 include/sharg/detail/format_parse.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 53cfb79..c2e7305 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -452,6 +452,10 @@ private:
                               std::string const & option_name,
                               std::string const & input_value)
     {
+        // The result refers to an element of the container.
+        if constexpr (detail::is_container_option<option_type>)
+            return throw_on_input_error<typename option_type::value_type>(res, option_name, input_value);
+
         std::string msg{"Value parse failed for " + option_name + ": "};
 
         if (res == option_parse_result::error)
-- 
2.43.0


From b49e8ad4515b0f6295a6812d73e83354f1828cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 04/25] fix: take std::filesystem::path values verbatim

Paths containing whitespace or starting with a quote were rejected or altered.
---
 include/sharg/detail/format_parse.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index c2e7305..aa2baad 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -354,6 +354,13 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    // operator>> of std::filesystem::path expects a quoted string and splits at whitespace.
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From e743961794dc6f4ba5d9822ad87311892c316c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/25] fix: compare whole file extensions

A file named foo.xsam was accepted for the extension sam.
---
 include/sharg/validators.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..e68cf82 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -392,7 +392,9 @@ protected:
         // Compares the extensions in lower case.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            // The extension must be preceded by a dot; "x.bam" does not have the extension "am".
+            bool const needs_dot{!ext.empty() && ext.front() != '.'};
+            return case_insensitive_string_ends_with(file_path, needs_dot ? "." + ext : ext);
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From 314040b41f7d54ec5305e578d82b724b3032b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 06/25] fix: do not touch an output file whose name is rejected

An existing file with an invalid extension was truncated and removed before it was rejected.
---
 include/sharg/validators.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index e68cf82..8cec1b7 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -730,10 +730,11 @@ public:
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
+            // Check the name first: checking for write permissions touches the file.
+            validate_filename(file);
+
             // Check if file has any write permissions.
             validate_writeability(file);
-
-            validate_filename(file);
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From cf701134355672d56cc430c13fec4435023134bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 07/25] fix: do not remove an existing file that is not
 writable

Rejecting a write-protected output file removed it if its directory was writable.
---
 include/sharg/validators.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 8cec1b7..00c17b6 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -448,13 +448,16 @@ protected:
         // LCOV_EXCL_STOP
 
         std::ofstream file{path};
+
+        if (!file.is_open()) // Nothing was created, so there is nothing to clean up.
+            throw validation_error{"Cannot write \"" + path.string() + "\"!"};
+
         sharg::detail::safe_filesystem_entry file_guard{path};
 
-        bool is_open = file.is_open();
         bool is_good = file.good();
         file.close();
 
-        if (!is_good || !is_open)
+        if (!is_good)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
         file_guard.remove();
-- 
2.43.0


From 65dbbac4fe942c629ce5173f572dba4225b335c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 08/25] fix: probing an output directory must not remove a
 user's file

An existing dummy.txt in the directory was truncated and removed.
---
 include/sharg/validators.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 00c17b6..ad97bb1 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -931,7 +931,10 @@ public:
             }
             else
             {
-                validate_writeability(dir / "dummy.txt");
+                std::filesystem::path dummy{dir / "dummy.txt"};
+                while (std::filesystem::exists(dummy)) // Never touch a file of the user.
+                    dummy += "_";
+                validate_writeability(dummy);
             }
         }
         // LCOV_EXCL_START
-- 
2.43.0


From ec219ed8e68bafac241d4c25816a9be465fb8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 09/25] fix: escape special characters in the HTML export

to_html computed the escaped text but emitted the unescaped one.
---
 include/sharg/detail/format_html.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..18bc798 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -176,13 +176,13 @@ private:
         std::string result;
         std::vector<std::string> open_tags; // acts as a stack of html tags
 
-        for (auto it = input.begin(); it != input.end(); ++it)
+        for (auto it = buffer.begin(); it != buffer.end(); ++it)
         {
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(!(it == input.end()));
+                assert(!(it == buffer.end()));
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -190,7 +190,7 @@ private:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(!(it == input.end()));
+                    assert(!(it == buffer.end()));
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
@@ -236,7 +236,7 @@ private:
      */
     std::string in_bold(std::string const & str)
     {
-        return "<strong>" + str + "</strong>";
+        return "\\fB" + str + "\\fP"; // converted by to_html
     }
 
     //!\brief Current state is either inside a html \<dl\> tag (true) or not (false).
-- 
2.43.0


From 5eead97ef09f77d3c1131ca9b2433bf7c0a69d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 10/25] fix: malformed markup must not break the HTML export

A trailing backslash read past the end of the text, a stray \fP popped from an empty stack and
an unclosed tag was never closed.
---
 include/sharg/detail/format_html.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index 18bc798..21f3168 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -182,7 +182,11 @@ private:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(!(it == buffer.end()));
+                if (it == buffer.end()) // trailing backslash
+                {
+                    result.push_back('\\');
+                    break;
+                }
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -190,7 +194,11 @@ private:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(!(it == buffer.end()));
+                    if (it == buffer.end()) // trailing "\f"
+                    {
+                        result.append("\\f");
+                        break;
+                    }
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
@@ -203,7 +211,8 @@ private:
                     }
                     else if (*it == 'P')
                     {
-                        assert(!open_tags.empty());
+                        if (open_tags.empty()) // nothing to close
+                            continue;
                         result.append("</");
                         result.append(open_tags.back());
                         result.append(">");
@@ -227,6 +236,9 @@ private:
             }
         }
 
+        for (; !open_tags.empty(); open_tags.pop_back()) // close remaining tags
+            result.append("</" + open_tags.back() + ">");
+
         return result;
     }
 
-- 
2.43.0


From bf0f44462af841e70c8d77583122ef566427eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 11/25] fix: text ending in a backslash on the help page

to_text read past the end of the text (or hit an assertion in debug mode).
---
 include/sharg/detail/format_help.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..62318e6 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -227,7 +227,11 @@ protected:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(it != str.end());
+                if (it == str.end()) // trailing backslash
+                {
+                    result.push_back('\\');
+                    break;
+                }
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -235,7 +239,11 @@ protected:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(it != str.end());
+                    if (it == str.end()) // trailing "\f"
+                    {
+                        result.append("\\f");
+                        break;
+                    }
                     if (*it == 'I')
                     {
                         if (stdout_is_terminal())
-- 
2.43.0


From b2bffb8293cee9689794172e43ccdec5b6a00fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 12/25] fix: compute the printed width of escape sequences

text_width disagreed with to_text for "\\\\" and for a backslash before an ordinary character.
---
 include/sharg/detail/format_help.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 62318e6..c4c2d26 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -302,27 +302,24 @@ protected:
                 continue;
             }
 
-            if (text[i + 1] == '\\' || text[i + 1] == '-')
+            if (text[i + 1] == '-')
             {
                 i += 1;
                 result += 1;
-                continue; // Will print '\\' or '-'.
+                continue; // Will print '-'.
             }
 
-            if (i + 2 == text.size())
+            if (text[i + 1] != 'f' || i + 2 == text.size())
             {
                 i += 1;
                 result += 2; // Will print two chars.
                 continue;
             }
 
-            if (text[i + 1] == 'f')
-            {
-                if (text[i + 2] == 'B' || text[i + 2] == 'I' || text[i + 2] == 'P')
-                    i += 2; // Skip f and {B, I, P}.
-                else
-                    result += 1;
-            }
+            if (text[i + 2] != 'B' && text[i + 2] != 'I' && text[i + 2] != 'P')
+                result += 3; // Will print three chars.
+
+            i += 2; // Skip f and the character behind it.
         }
 
         return result;
-- 
2.43.0


From 6f6882c9eeae93aae50610674146cb8e373b5842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 13/25] fix: synopsis without whitespace

std::string::insert threw std::out_of_range, which aborted the help page.
---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..d2a37c2 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -527,7 +527,7 @@ protected:
         {
             std::string text = "\\fB";
             text.append(meta.synopsis[i]);
-            text.insert(text.find_first_of(" \t"), "\\fP");
+            text.insert(std::min(text.find_first_of(" \t"), text.size()), "\\fP");
 
             derived_t().print_line(text, false);
         }
-- 
2.43.0


From 27cada92396759d1a5962cc6984db15ec02ba499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 14/25] fix: reserve the identifier version-check

An option or flag with this identifier was accepted but could never be set.
---
 include/sharg/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 21e2d10..be8d68f 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -761,7 +761,14 @@ private:
         format{detail::format_short_help{}};
 
     //!\brief List of option/flag identifiers (excluding -/--) that are already used.
-    std::unordered_set<std::string> used_ids{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright"};
+    std::unordered_set<std::string> used_ids{"h",
+                                             "hh",
+                                             "help",
+                                             "advanced-help",
+                                             "export-help",
+                                             "version",
+                                             "version-check",
+                                             "copyright"};
 
     //!\brief The command line arguments that will be passed to the format.
     std::vector<std::string> format_arguments{};
-- 
2.43.0


From 76e4523810364801cc3f5f9d4e28304f13efad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 15/25] fix: list options given by both identifiers keep all
 values

---
 include/sharg/detail/format_parse.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index aa2baad..3fe7a49 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -593,9 +593,6 @@ private:
         auto it = find_option_id(arguments.begin(), end_of_options_it, id);
         bool seen_at_least_once{it != end_of_options_it};
 
-        if (seen_at_least_once)
-            value.clear();
-
         while (it != end_of_options_it)
         {
             identify_and_retrieve_option_value(value, it, id);
@@ -690,6 +687,14 @@ private:
     template <typename option_type, typename validator_t>
     void get_option(option_type & value, config<validator_t> const & config)
     {
+        // The default of a list option is replaced once, also if both identifiers are used.
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            if (find_option_id(arguments.begin(), end_of_options_it, config.short_id) != end_of_options_it
+                || find_option_id(arguments.begin(), end_of_options_it, config.long_id) != end_of_options_it)
+                value.clear();
+        }
+
         bool short_id_is_set{get_option_by_id(value, config.short_id)};
         bool long_id_is_set{get_option_by_id(value, config.long_id)};
 
-- 
2.43.0


From c9f40f2bcd7780f7d41d6cfc72d5b7481104e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 16/25] fix: flags without long identifier are not set by a
 reduced group

---
 include/sharg/detail/format_parse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 3fe7a49..bb8479a 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -244,6 +244,9 @@ private:
      */
     bool flag_is_set(std::string const & long_id)
     {
+        if (is_empty_id(long_id)) // a group of short flags may have been reduced to "--"
+            return false;
+
         auto it = std::find(arguments.begin(), end_of_options_it, prepend_dash(long_id));
 
         if (it != end_of_options_it)
-- 
2.43.0


From 0bf91413f22acc75f6bbf366d9c3904c039c495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 17/25] fix: reject add_subcommands after parse

---
 include/sharg/parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index be8d68f..36d07e2 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -640,6 +640,7 @@ public:
 
     /*!\brief Adds subcommands to the parser.
      * \param[in] subcommands A list of subcommands.
+     * \throws sharg::design_error if sharg::parser::parse was already called.
      * \details
      * Adds subcommands to the current parser. The list of subcommands is sorted and duplicates are removed.
      *
@@ -651,6 +652,8 @@ public:
      */
     void add_subcommands(std::vector<std::string> const & subcommands)
     {
+        check_parse_not_called("add_subcommands");
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
-- 
2.43.0


From 92ba2079f839ab2855c75246383a40d6375c48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:31 +0000
Subject: [PATCH 18/25] fix: a group of flags containing a dash is not reduced
 to a long flag

---
 include/sharg/detail/format_parse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index bb8479a..2b70131 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -265,7 +265,9 @@ private:
         {
             std::string & arg = *it;
 
-            if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
+            // is option && not dash && no long option (a further dash is no flag; removing the flags before it would turn
+            // the remainder into a long option)
+            if (arg[0] == '-' && arg.size() > 1 && arg.find('-', 1) == std::string::npos)
             {
                 auto pos = arg.find(short_id);
 
-- 
2.43.0


From 452e1173ad5a7fddc81015c1101b7e412358260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:57 +0000
Subject: [PATCH 19/25] fix: range and list validators do not narrow the value
 to the type of the range or list

---
 include/sharg/validators.hpp | 54 ++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index ad97bb1..0a1132c 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <ranges>
 #include <regex>
+#include <utility>
 
 #include <sharg/detail/safe_filesystem_entry.hpp>
 #include <sharg/detail/to_string.hpp>
@@ -56,6 +57,29 @@ concept validator = std::copyable<std::remove_cvref_t<validator_type>> &&
                     };
 // clang-format on
 
+namespace detail
+{
+
+/*!\brief Compares two numbers of any arithmetic type by their value; no fraction or leading digit is cut off.
+ * \ingroup validators
+ * \param[in] lhs The left number.
+ * \param[in] rhs The right number.
+ */
+template <typename lhs_t, typename rhs_t>
+    requires std::is_arithmetic_v<lhs_t> && std::is_arithmetic_v<rhs_t>
+constexpr bool numeric_less_equal(lhs_t const lhs, rhs_t const rhs)
+{
+    if constexpr (std::integral<lhs_t> && std::integral<rhs_t>)
+        return std::cmp_less_equal(+lhs, +rhs); // `+` promotes bool and character types, which std::cmp_* rejects.
+    else
+    {
+        using common_t = std::common_type_t<lhs_t, rhs_t, double>;
+        return static_cast<common_t>(lhs) <= static_cast<common_t>(rhs);
+    }
+}
+
+} // namespace detail
+
 /*!\brief A validator that checks whether a number is inside a given range.
  * \ingroup validators
  * \implements sharg::validator
@@ -107,6 +131,18 @@ public:
             throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
     }
 
+    /*!\overload
+     * \details
+     * The option may have another arithmetic type than the range. The value is not narrowed to the type of the range.
+     */
+    template <typename number_t>
+        requires std::is_arithmetic_v<number_t> && (!std::same_as<number_t, option_value_type>)
+    void operator()(number_t const & cmp) const
+    {
+        if (!(detail::numeric_less_equal(cmp, max) && detail::numeric_less_equal(min, cmp)))
+            throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside [`min`, `max`].
      * \tparam range_type The type of range to check; must model std::ranges::forward_range. The value type must model
      *                    std::is_arithmetic_v.
@@ -231,6 +267,24 @@ public:
             throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
     }
 
+    /*!\overload
+     * \details
+     * The option may have another arithmetic type than the list. The value is not narrowed to the type of the list.
+     */
+    template <typename number_t>
+        requires std::is_arithmetic_v<number_t> && std::is_arithmetic_v<option_value_type>
+              && (!std::same_as<number_t, option_value_type>)
+    void operator()(number_t const & cmp) const
+    {
+        auto equals = [&cmp](option_value_type const value)
+        {
+            return detail::numeric_less_equal(cmp, value) && detail::numeric_less_equal(value, cmp);
+        };
+
+        if (std::find_if(values.begin(), values.end(), equals) == values.end())
+            throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside values.
      * \tparam range_type The type of range to check; must model std::ranges::forward_range.
      * \param  range      The input range to iterate over and check every element.
-- 
2.43.0


From 36b32bf6af5f191ebdd33f88d74ae96310d67ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 20/25] fix: file system errors of output validators are
 reported as validation errors

---
 include/sharg/validators.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 0a1132c..bf3b451 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -779,11 +779,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
@@ -967,16 +967,16 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
-        // Make sure the created dir is deleted after we are done.
-        std::error_code ec;
-        std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
-        // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
-        if (static_cast<bool>(ec))
-            throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
-
         try
         {
+            bool dir_exists = std::filesystem::exists(dir);
+            // Make sure the created dir is deleted after we are done.
+            std::error_code ec;
+            std::filesystem::create_directory(dir, ec); // does nothing and is no error if path already exists.
+            // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
+            if (static_cast<bool>(ec))
+                throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
+
             if (!dir_exists)
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
-- 
2.43.0


From f8ede9b1b9dc6d49b7da1c89b3d5b09c51d8b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 21/25] fix: a directory is not a valid input file

---
 include/sharg/validators.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index bf3b451..1db097f 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -626,6 +626,9 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From be5304bdc19b5303a1ce1b9cd334675e99efd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:10 +0000
Subject: [PATCH 22/25] fix: a version file without second line does not
 announce a Sharg update

---
 include/sharg/detail/version_check.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..aca5478 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -143,6 +143,7 @@ public:
                 std::cerr << message_unregistered_app;
 #endif // !defined(NDEBUG)
 
+            line.clear();                     // there may be no second line
             std::getline(version_file, line); // get second line which should only contain the version number of sharg
             srv_sharg_version = get_numbers_from_version_string(line);
 
-- 
2.43.0


From 0eed67bdbe317180a2b94d7bae439757abaacbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 23/25] fix: an unset HOME or missing temporary directory does
 not make parse fail

---
 include/sharg/detail/version_check.hpp | 33 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index aca5478..785983d 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -226,24 +226,37 @@ public:
         using namespace std::filesystem;
 
         path tmp_path;
-
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
-
-        // First, create .config if it does not already exist.
         std::error_code err;
-        create_directory(tmp_path, err);
 
-        // If this did not fail we, create the seqan subdirectory.
-        if (!err)
+        // The home directory may be unknown, e.g., in restricted environments.
+        if (char const * const home = getenv(home_env_name); home != nullptr)
         {
-            tmp_path /= "seqan"; // sharg is part of seqan, so the naming is fine.
+            tmp_path = std::string{home};
+            tmp_path /= ".config";
+
+            // First, create .config if it does not already exist.
             create_directory(tmp_path, err);
+
+            // If this did not fail we, create the seqan subdirectory.
+            if (!err)
+            {
+                tmp_path /= "seqan"; // sharg is part of seqan, so the naming is fine.
+                create_directory(tmp_path, err);
+            }
+        }
+        else
+        {
+            err = std::make_error_code(std::errc::no_such_file_or_directory);
         }
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+        {
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+            if (err)
+                return path{}; // empty path signals no available directory to write to
+        }
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
-- 
2.43.0


From c7a21278bda603ceab940cf453150b5ff79ea916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:25 +0000
Subject: [PATCH 24/25] fix: lists of 8-bit integers are printed as numbers

---
 include/sharg/detail/to_string.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index a8e90a6..e6dbd89 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -41,7 +41,17 @@ std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
 
-    auto print = [&stream](auto && val)
+    auto print_value = [&stream](auto && val)
+    {
+        using value_t = std::remove_cvref_t<decltype(val)>;
+
+        if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
+            stream << static_cast<int16_t>(val);
+        else
+            stream << val;
+    };
+
+    auto print = [&stream, &print_value](auto && val)
     {
         using value_t = std::remove_cvref_t<decltype(val)>;
 
@@ -57,19 +67,18 @@ std::string to_string(value_types &&... values)
             {
                 stream << '[';
                 auto it = val.begin();
-                stream << *it++;
+                print_value(*it++);
                 for (; it != val.end(); ++it)
-                    stream << ", " << *it;
+                {
+                    stream << ", ";
+                    print_value(*it);
+                }
                 stream << ']';
             }
         }
-        else if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
-        {
-            stream << static_cast<int16_t>(val);
-        }
         else
         {
-            stream << val;
+            print_value(val);
         }
     };
 
-- 
2.43.0


From 6deec3f1a5bc12ee2e1bc00c198dc488d6184346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 25/25] fix: the list of unknown flags lacked a space before
 the last one

---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index d2a37c2..2f34ff9 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -176,7 +176,7 @@ protected:
             tmp.append({'-', *it, ',', ' '});
 
         tmp.erase(tmp.find_last_of(',')); // remove last ', '
-        tmp.append({'a', 'n', 'd', ' ', '-', flag_cluster[flag_cluster.size() - 1]});
+        tmp.append({' ', 'a', 'n', 'd', ' ', '-', flag_cluster[flag_cluster.size() - 1]});
 
         return tmp;
     }
-- 
2.43.0

