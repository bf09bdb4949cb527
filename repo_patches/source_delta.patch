From 9affe40063d75506b649863b69515fb377b7f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 01/52] fix: do not search for short flags behind the
 end-of-options marker '--'

---
 include/sharg/detail/format_parse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..53cfb79 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -258,8 +258,10 @@ private:
     bool flag_is_set(char const short_id)
     {
         // short flags need special attention, since they could be grouped (-rGv <=> -r -G -v)
-        for (std::string & arg : arguments)
+        for (auto it = arguments.begin(); it != end_of_options_it; ++it)
         {
+            std::string & arg = *it;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From cdbe99067f1a0047d155942f5899b0f85844d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:16 +0000
Subject: [PATCH 02/52] fix: arguments behind '--' are never special requests
 (help, version, ...)

---
 include/sharg/parser.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..ba4e689 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -865,11 +865,14 @@ private:
             return false;
         };
 
+        // Everything behind `--` is no option and no special format request.
+        bool end_of_options{false};
+
         // Process the arguments.
         for (; read_next_arg();)
         {
             // The argument is a known option.
-            if (options.contains(std::string{arg}))
+            if (!end_of_options && options.contains(std::string{arg}))
             {
                 // No futher checks are needed.
                 format_arguments.emplace_back(arg);
@@ -890,7 +893,12 @@ private:
             if (found_subcommand())
                 break;
 
-            if (arg == "-h" || arg == "--help")
+            if (end_of_options || arg == option_end_identifier)
+            {
+                end_of_options = true;
+                format_arguments.emplace_back(arg);
+            }
+            else if (arg == "-h" || arg == "--help")
             {
                 format = detail::format_help{subcommands, version_check_dev_decision, false};
             }
-- 
2.43.0


From 1259326457eeb197d34618fb41e5079174c9eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:16 +0000
Subject: [PATCH 03/52] fix: an option value is never interpreted as an
 identifier of another option

---
 include/sharg/parser.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index ba4e689..8edc99b 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -875,12 +875,16 @@ private:
             if (!end_of_options && options.contains(std::string{arg}))
             {
                 // No futher checks are needed.
-                format_arguments.emplace_back(arg);
+                std::string & option = format_arguments.emplace_back(arg);
 
                 // Consume the next argument (the option value) if possible.
                 if (read_next_arg())
                 {
-                    format_arguments.emplace_back(arg);
+                    if (arg.empty())
+                        format_arguments.emplace_back(arg);
+                    else // `-o value` is `-o=value`: The value must not be mistaken for another identifier or `--`.
+                        option.append("=").append(arg);
+
                     continue;
                 }
                 else // Too few arguments. This is handled by format_parse.
-- 
2.43.0


From 54d40796d07ad9f3ff414c17e67fbe59f21ad330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 04/52] fix: keep all values of a list option when short and
 long identifier are mixed

---
 include/sharg/detail/format_parse.hpp | 57 ++++++++++++++++++---------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 53cfb79..fa74965 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -567,28 +567,38 @@ private:
 
     /*!\brief Handles value retrieval (container type) options.
      *
-     * \param[out] value Stores all values found in arguments, parsed by parse_option_value.
-     * \param[in]  id    The option identifier supplied on the command line.
+     * \param[out] value    Stores all values found in arguments, parsed by parse_option_value.
+     * \param[in]  short_id The short option identifier.
+     * \param[in]  long_id  The long option identifier.
      *
      * \details
      *
-     * Since option_type is a container, the option is a list and can be parsed
-     * multiple times.
+     * Since option_type is a container, the option is a list and can be parsed multiple times.
+     * The short and long identifier may be mixed; the values are stored in command line order.
      *
      */
-    template <detail::is_container_option option_type, typename id_type>
-    bool get_option_by_id(option_type & value, id_type const & id)
+    template <detail::is_container_option option_type>
+    bool get_option_by_ids(option_type & value, char const short_id, std::string const & long_id)
     {
-        auto it = find_option_id(arguments.begin(), end_of_options_it, id);
-        bool seen_at_least_once{it != end_of_options_it};
+        auto short_it = find_option_id(arguments.begin(), end_of_options_it, short_id);
+        auto long_it = find_option_id(arguments.begin(), end_of_options_it, long_id);
+        bool seen_at_least_once{short_it != end_of_options_it || long_it != end_of_options_it};
 
         if (seen_at_least_once)
             value.clear();
 
-        while (it != end_of_options_it)
+        while (short_it != end_of_options_it || long_it != end_of_options_it)
         {
-            identify_and_retrieve_option_value(value, it, id);
-            it = find_option_id(it, end_of_options_it, id);
+            if (short_it < long_it)
+            {
+                identify_and_retrieve_option_value(value, short_it, short_id);
+                short_it = find_option_id(short_it, end_of_options_it, short_id);
+            }
+            else
+            {
+                identify_and_retrieve_option_value(value, long_it, long_id);
+                long_it = find_option_id(long_it, end_of_options_it, long_id);
+            }
         }
 
         return seen_at_least_once;
@@ -679,15 +689,26 @@ private:
     template <typename option_type, typename validator_t>
     void get_option(option_type & value, config<validator_t> const & config)
     {
-        bool short_id_is_set{get_option_by_id(value, config.short_id)};
-        bool long_id_is_set{get_option_by_id(value, config.long_id)};
+        bool is_set{};
 
-        // if value is no container we need to check for multiple declarations
-        if (short_id_is_set && long_id_is_set && !detail::is_container_option<option_type>)
-            throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
-                                                 + " is no list/container but specified multiple times");
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            is_set = get_option_by_ids(value, config.short_id, config.long_id);
+        }
+        else
+        {
+            bool short_id_is_set{get_option_by_id(value, config.short_id)};
+            bool long_id_is_set{get_option_by_id(value, config.long_id)};
+
+            // if value is no container we need to check for multiple declarations
+            if (short_id_is_set && long_id_is_set)
+                throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
+                                                     + " is no list/container but specified multiple times");
+
+            is_set = short_id_is_set || long_id_is_set;
+        }
 
-        if (short_id_is_set || long_id_is_set)
+        if (is_set)
         {
             try
             {
-- 
2.43.0


From 58da9f5b91913f0a3f238afaa5cd1da428410c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 05/52] fix: report numeric overflow of list elements

---
 include/sharg/detail/format_parse.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index fa74965..97fce11 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -460,7 +460,11 @@ private:
                                    + get_type_name_as_string(option_type{}) + "."};
         }
 
-        if constexpr (std::is_arithmetic_v<option_type>)
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            throw_on_input_error<typename option_type::value_type>(res, option_name, input_value);
+        }
+        else if constexpr (std::is_arithmetic_v<option_type>)
         {
             if (res == option_parse_result::overflow_error)
             {
-- 
2.43.0


From 21cfff5c7371c23bfdc37c6bd815c8f3c92e60dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 06/52] fix: accept paths that contain whitespace or quotes

---
 include/sharg/detail/format_parse.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 97fce11..e9e6903 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -354,6 +354,13 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    // `operator>>` of std::filesystem::path stops at the first whitespace.
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From 30c05ff773428dd1cc66fdee49966097e6418f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:30 +0000
Subject: [PATCH 07/52] fix: options added before moving a parser are not lost

---
 include/sharg/parser.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 8edc99b..5c2c431 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -243,14 +243,14 @@ public:
         check_parse_not_called("add_option");
         verify_option_config(config);
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -279,14 +279,14 @@ public:
         if (value)
             throw design_error("A flag's default value must be false.");
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_flag(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -330,14 +330,14 @@ public:
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_positional_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -426,7 +426,7 @@ public:
 
         // Apply all defered operations to the parser, e.g., `add_option`, `add_flag`, `add_positional_option`.
         for (auto & operation : operations)
-            operation();
+            operation(*this);
 
         // The version check, which might exit the program, must be called before calling parse on the format.
         run_version_check();
@@ -533,14 +533,14 @@ public:
     {
         check_parse_not_called("add_section");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_section(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -560,14 +560,14 @@ public:
     {
         check_parse_not_called("add_subsection");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_subsection(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -588,14 +588,14 @@ public:
     {
         check_parse_not_called("add_line");
 
-        auto operation = [this, text, is_paragraph, advanced_only]()
+        auto operation = [text, is_paragraph, advanced_only](parser & self)
         {
             auto visit_fn = [&text, is_paragraph, advanced_only](auto & f)
             {
                 f.add_line(text, is_paragraph, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -625,14 +625,14 @@ public:
     {
         check_parse_not_called("add_list_item");
 
-        auto operation = [this, key, desc, advanced_only]()
+        auto operation = [key, desc, advanced_only](parser & self)
         {
             auto visit_fn = [&key, &desc, advanced_only](auto & f)
             {
                 f.add_list_item(key, desc, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -776,7 +776,7 @@ private:
     std::unordered_set<std::string> options{};
 
     //!\brief Vector of functions that stores all calls.
-    std::vector<std::function<void()>> operations;
+    std::vector<std::function<void(parser &)>> operations;
 
     /*!\brief Handles format and subcommand detection.
      * \throws sharg::too_few_arguments if option --export-help was specified without a value
-- 
2.43.0


From 729371b438a153a66e97efd3bb396ba174241348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 08/52] fix: output_file_validator does not delete or truncate
 files that it rejects

Also handles devices, symlinks and existing files in read-only directories.
---
 include/sharg/validators.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..eab7cc2 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -446,16 +446,19 @@ protected:
         // LCOV_EXCL_STOP
 
         std::ofstream file{path};
-        sharg::detail::safe_filesystem_entry file_guard{path};
 
         bool is_open = file.is_open();
         bool is_good = file.good();
         file.close();
 
-        if (!is_good || !is_open)
+        if (!is_good || !is_open) // Nothing was created.
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
-        file_guard.remove();
+        // Only files are removed; devices, etc. can be written to as they are.
+        // If path is a symlink, the file behind it was created and not the symlink.
+        // Removing fails for an existing, writable file inside of a read-only directory, which is not an error.
+        if (std::error_code ec{}; std::filesystem::is_regular_file(path, ec))
+            std::filesystem::remove(std::filesystem::canonical(path, ec), ec);
     }
 
     //!\brief Returns the information of valid file extensions.
@@ -728,10 +731,11 @@ public:
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
-            // Check if file has any write permissions.
-            validate_writeability(file);
-
+            // Check extension.
             validate_filename(file);
+
+            // Check if file has any write permissions. Must come last because it touches the file.
+            validate_writeability(file);
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From c067b219c3e59d3c6f6ef930c2806e9db9228f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 09/52] fix: output_directory_validator does not delete an
 existing dummy.txt

---
 include/sharg/validators.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index eab7cc2..55867d2 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -921,15 +921,20 @@ public:
 
         try
         {
+            // Must not be a file of the user because it will be removed.
+            std::filesystem::path dummy{dir / "dummy.txt"};
+            while (std::filesystem::exists(std::filesystem::symlink_status(dummy)))
+                dummy.replace_extension(".tmp" + dummy.extension().string());
+
             if (!dir_exists)
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
-                validate_writeability(dir / "dummy.txt");
+                validate_writeability(dummy);
                 dir_guard.remove_all();
             }
             else
             {
-                validate_writeability(dir / "dummy.txt");
+                validate_writeability(dummy);
             }
         }
         // LCOV_EXCL_START
-- 
2.43.0


From e88647a5e03388800b3401ec67bf5bdcd1d5d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 10/52] fix: version check does not delete an existing
 dummy.txt

---
 include/sharg/detail/version_check.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..484bf72 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -246,13 +246,17 @@ public:
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
+        while (exists(symlink_status(dummy, err))) // must not be a file of the user because it will be removed
+            dummy.replace_extension(".tmp" + dummy.extension().string());
+
         std::ofstream file{dummy};
-        sharg::detail::safe_filesystem_entry file_guard{dummy};
 
         bool is_open = file.is_open();
         bool is_good = file.good();
         file.close();
-        file_guard.remove_no_throw();
+
+        if (is_open)
+            remove(dummy, err);
 
         if (!is_good || !is_open) // no write permissions
         {
-- 
2.43.0


From 0d1f82a763c6ea764f0ae115c69ac3c2db0410c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 11/52] fix: version check copes with unset HOME and missing
 temporary directory

---
 include/sharg/detail/version_check.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 484bf72..a141d0a 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -226,12 +226,20 @@ public:
 
         path tmp_path;
 
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
-
-        // First, create .config if it does not already exist.
         std::error_code err;
-        create_directory(tmp_path, err);
+
+        if (char const * const home = getenv(home_env_name); home != nullptr)
+        {
+            tmp_path = std::string{home};
+            tmp_path /= ".config";
+
+            // First, create .config if it does not already exist.
+            create_directory(tmp_path, err);
+        }
+        else
+        {
+            err = std::make_error_code(std::errc::no_such_file_or_directory);
+        }
 
         // If this did not fail we, create the seqan subdirectory.
         if (!err)
@@ -242,7 +250,10 @@ public:
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+        if (err)
+            return path{}; // no directory to write to
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
-- 
2.43.0


From 2d599c04a4bf5070dae48bcd4eb0f4d6e6d7ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 12/52] fix: no version check and no files in the current
 directory if there is no cookie path

---
 include/sharg/detail/version_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index a141d0a..da98004 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -310,6 +310,9 @@ public:
         if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set
             return false;
 
+        if (cookie_path.empty()) // there is no directory to write cookie and version file to
+            return false;
+
         if (user_approval.has_value())
             return user_approval.value();
 
-- 
2.43.0


From 6025729afa30ef18746543df38d38d95b80eb3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 13/52] fix: quote path of version file in server call

---
 include/sharg/detail/version_check.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index da98004..a3acc4c 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -182,12 +182,16 @@ public:
             return;
         }
 
-        // 'cookie_path' is no user input and `name` is escaped on construction of the parser.
-        std::filesystem::path out_file = cookie_path / (name + ".version");
+        // `name` is escaped on construction of the parser, but 'cookie_path' depends on the environment.
+        std::string out_file = (cookie_path / (name + ".version")).string();
+
+        // quote for the shell
+        for (size_t pos = out_file.find('\''); pos != std::string::npos; pos = out_file.find('\'', pos + 4u))
+            out_file.replace(pos, 1u, "'\\''");
 
         // build up command for server call
         std::string command = program + // no user defined input
-                              " " + out_file.string() + " "
+                              " '" + out_file + "' "
                             + std::string{"https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_"} +
 #ifdef __linux
                               "Linux" +
-- 
2.43.0


From 21cc0ff855e671883015f57c358bd7d581a2a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 14/52] fix: failure to launch the version check thread does
 not affect the app

---
 include/sharg/detail/version_check.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index a3acc4c..8b2d59f 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -220,7 +220,12 @@ public:
 #endif
 
         // launch a separate thread to not defer runtime.
-        std::thread(call_server, command, std::move(prom)).detach();
+        try
+        {
+            std::thread(call_server, command, std::move(prom)).detach();
+        }
+        catch (std::system_error const &) // The application must not fail because no thread could be created.
+        {}
     }
 
     //!\brief Returns a writable path to store timestamp and version files or an empty path if none exists.
-- 
2.43.0


From 552431628614db272bea907ce36ea7f5b53a9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 15/52] fix: file validators only accept whole extensions

---
 include/sharg/validators.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 55867d2..2751111 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -392,7 +392,9 @@ protected:
         // Compares the extensions in lower case.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            // An extension starts at a dot, i.e., `file.notfa` does not have the extension `fa`.
+            bool const needs_dot = !ext.empty() && ext.front() != '.';
+            return case_insensitive_string_ends_with(file_path, needs_dot ? "." + ext : ext);
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From 9d7c0506207caf5a2d60d7023672ea9799c34190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 16/52] fix: trailing backslashes in help page texts

---
 include/sharg/detail/format_help.hpp | 16 ++++++++++++----
 include/sharg/detail/format_html.hpp | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..434ed37 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -226,16 +226,24 @@ protected:
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
-                ++it;
-                assert(it != str.end());
+                if (++it == str.end()) // A trailing backslash is no escape sequence.
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
-                    ++it;
-                    assert(it != str.end());
+                    if (++it == str.end()) // A trailing "\f" is no escape sequence.
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         if (stdout_is_terminal())
diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..cb0dd97 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -181,16 +181,24 @@ private:
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
-                ++it;
-                assert(!(it == input.end()));
+                if (++it == input.end()) // A trailing backslash is no escape sequence.
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
-                    ++it;
-                    assert(!(it == input.end()));
+                    if (++it == input.end()) // A trailing "\f" is no escape sequence.
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
-- 
2.43.0


From 92828445e2b37d437f44dc0fb928f0e3e8f9c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 17/52] fix: unbalanced formatting in texts of the HTML page

---
 include/sharg/detail/format_html.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cb0dd97..573fcf1 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -211,11 +211,13 @@ private:
                     }
                     else if (*it == 'P')
                     {
-                        assert(!open_tags.empty());
-                        result.append("</");
-                        result.append(open_tags.back());
-                        result.append(">");
-                        open_tags.pop_back();
+                        if (!open_tags.empty()) // Otherwise, there is nothing to end.
+                        {
+                            result.append("</");
+                            result.append(open_tags.back());
+                            result.append(">");
+                            open_tags.pop_back();
+                        }
                     }
                     else
                     {
@@ -235,6 +237,10 @@ private:
             }
         }
 
+        // Close remaining tags.
+        for (; !open_tags.empty(); open_tags.pop_back())
+            result.append("</").append(open_tags.back()).append(">");
+
         return result;
     }
 
-- 
2.43.0


From ad62d065454f0c018bb177eaf87e2fce85d5221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 18/52] fix: escape special characters on the HTML page

---
 include/sharg/detail/format_html.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index 573fcf1..0a7dc34 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -176,12 +176,12 @@ private:
         std::string result;
         std::vector<std::string> open_tags; // acts as a stack of html tags
 
-        for (auto it = input.begin(); it != input.end(); ++it)
+        for (auto it = buffer.begin(); it != buffer.end(); ++it)
         {
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
-                if (++it == input.end()) // A trailing backslash is no escape sequence.
+                if (++it == buffer.end()) // A trailing backslash is no escape sequence.
                 {
                     result.push_back('\\');
                     break;
@@ -193,7 +193,7 @@ private:
                 }
                 else if (*it == 'f')
                 {
-                    if (++it == input.end()) // A trailing "\f" is no escape sequence.
+                    if (++it == buffer.end()) // A trailing "\f" is no escape sequence.
                     {
                         result.append("\\f");
                         break;
@@ -250,7 +250,7 @@ private:
      */
     std::string in_bold(std::string const & str)
     {
-        return "<strong>" + str + "</strong>";
+        return "\\fB" + str + "\\fP"; // will be converted by to_html
     }
 
     //!\brief Current state is either inside a html \<dl\> tag (true) or not (false).
-- 
2.43.0


From f8a0761f8ded58bc900545af884d978f3d4e256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 19/52] fix: synopsis without whitespace

---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..d2a37c2 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -527,7 +527,7 @@ protected:
         {
             std::string text = "\\fB";
             text.append(meta.synopsis[i]);
-            text.insert(text.find_first_of(" \t"), "\\fP");
+            text.insert(std::min(text.find_first_of(" \t"), text.size()), "\\fP");
 
             derived_t().print_line(text, false);
         }
-- 
2.43.0


From a4bd3cc6283727791c4930eeee976ddfde1b016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 20/52] fix: always show advanced options on exported help
 pages

---
 include/sharg/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 5c2c431..5e9dce1 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -934,9 +934,9 @@ private:
                 }
 
                 if (arg == "html")
-                    format = detail::format_html{subcommands, version_check_dev_decision};
+                    format = detail::format_html{subcommands, version_check_dev_decision, true};
                 else if (arg == "man")
-                    format = detail::format_man{subcommands, version_check_dev_decision};
+                    format = detail::format_man{subcommands, version_check_dev_decision, true};
                 else if (arg == "ctd")
                     format = detail::format_tdl{detail::format_tdl::FileFormat::CTD};
                 else if (arg == "cwl")
-- 
2.43.0


From 6af976fdba7b85336d4e25ece53dbb520a6d1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 21/52] fix: end the line of a help page item without
 description

---
 include/sharg/detail/format_help.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 434ed37..5adcea2 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -377,8 +377,8 @@ protected:
                 }
             }
         }
-        if (!empty(tokens))
-            std::cout << '\n';
+
+        std::cout << '\n'; // Also if there is no text, e.g., a flag without description.
     }
 
     /*!\brief Format string in bold.
-- 
2.43.0


From 39e3f013a23e7c2e52c22d556230290e8691bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 22/52] fix: lines starting with '.' or ''' on the man page

---
 include/sharg/detail/format_man.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 96843c2..247b1f7 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -122,7 +122,7 @@ private:
         else if (!is_first_in_section && !line_is_paragraph)
             std::cout << ".br\n";
 
-        std::cout << text << "\n";
+        std::cout << escape_control_lines(text) << "\n";
         is_first_in_section = false;
     }
 
@@ -137,7 +137,7 @@ private:
      */
     void print_list_item(std::string const & term, std::string const & desc)
     {
-        std::cout << ".TP\n" << term << "\n" << desc << "\n";
+        std::cout << ".TP\n" << escape_control_lines(term) << "\n" << escape_control_lines(desc) << "\n";
         is_first_in_section = false;
     }
 
@@ -147,6 +147,24 @@ private:
         // no footer
     }
 
+    /*!\brief Prevents lines from being interpreted as a request by the man page formatter.
+     * \param[in] text The text to print.
+     * \returns The text with `\&` in front of every line that starts with a control character (`.` or `'`).
+     */
+    static std::string escape_control_lines(std::string const & text)
+    {
+        std::string result;
+
+        for (size_t i = 0; i < text.size(); ++i)
+        {
+            if ((i == 0 || text[i - 1] == '\n') && (text[i] == '.' || text[i] == '\''))
+                result.append("\\&");
+            result.push_back(text[i]);
+        }
+
+        return result;
+    }
+
     /*!\brief Format string as in_bold.
      * \param[in] str The input string to format in bold.
      * \returns The string `str` wrapped in bold formatting.
-- 
2.43.0


From 369565fe2130132c1975cf43b67b0a90b50c084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 23/52] fix: is_option_set rejects identifiers that do not
 belong to an option

---
 include/sharg/parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 5e9dce1..0072a4b 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -507,7 +507,8 @@ public:
             }
         }
 
-        if (!used_ids.contains(std::string{id}))
+        // Note: used_ids also contains flags and the identifiers of special options, e.g., "help".
+        if (!options.contains((std::same_as<id_type, char> ? "-" : "--") + std::string{id}))
             throw design_error{"You can only ask for option identifiers that you added with add_option() before."};
 
         // we only need to search for an option before the `option_end_identifier` (`--`)
-- 
2.43.0


From 764cc7600322b5e1a2affa77c834fa265f2f53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 24/52] fix: empty positional arguments are not dropped

---
 include/sharg/detail/format_parse.hpp | 30 ++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index e9e6903..805a6b9 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -118,7 +118,7 @@ public:
         check_for_unknown_ids();
 
         if (end_of_options_it != arguments.end())
-            *end_of_options_it = ""; // remove -- before parsing positional arguments
+            *end_of_options_it = consumed_argument; // remove -- before parsing positional arguments
 
         for (auto && f : positional_option_calls)
             f();
@@ -247,7 +247,7 @@ private:
         auto it = std::find(arguments.begin(), end_of_options_it, prepend_dash(long_id));
 
         if (it != end_of_options_it)
-            *it = ""; // remove seen flag
+            *it = consumed_argument; // remove seen flag
 
         return (it != end_of_options_it);
     }
@@ -271,7 +271,7 @@ private:
                     arg.erase(pos, 1); // remove seen bool
 
                     if (arg == "-") // if flag is empty now
-                        arg = "";
+                        arg = consumed_argument;
 
                     return true;
                 }
@@ -524,16 +524,16 @@ private:
                     input_value = (*option_it).substr(id_size);
                 }
 
-                *option_it = ""; // remove used identifier-value pair
+                *option_it = consumed_argument; // remove used identifier-value pair
             }
             else // -key value
             {
-                *option_it = ""; // remove used identifier
+                *option_it = consumed_argument; // remove used identifier
                 ++option_it;
                 if (option_it == end_of_options_it) // should not happen
                     throw too_few_arguments("Missing value for option " + prepend_dash(id));
                 input_value = *option_it;
-                *option_it = ""; // remove value
+                *option_it = consumed_argument; // remove value
             }
 
             auto res = parse_option_value(value, input_value);
@@ -666,7 +666,7 @@ private:
      * This function is used by format_parse::parse() AFTER all flags, options
      * and positional options specified by the developer were parsed and
      * therefore removed from arguments.
-     * Thus, all remaining non-empty arguments are too much.
+     * Thus, all remaining arguments that have not been consumed are too much.
      */
     void check_for_left_over_args()
     {
@@ -674,7 +674,7 @@ private:
                          arguments.end(),
                          [](std::string const & s)
                          {
-                             return (s != "");
+                             return (s != consumed_argument);
                          })
             != arguments.end())
             throw too_many_arguments("Too many arguments provided. Please see -h/--help for more information.");
@@ -770,11 +770,11 @@ private:
      * -#) arguments has been stripped from all known options and flags
      * -#) arguments has been checked for unknown options
      * -#) arguments does not contain "--" anymore
-     *  Thus we can simply iterate over non empty entries of arguments.
+     *  Thus we can simply iterate over entries of arguments that have not been consumed.
      *
      * This function
      * - checks if the user did not provide enough arguments,
-     * - retrieves the next (no container type) or all (container type) remaining non empty value/s in arguments
+     * - retrieves the next (no container type) or all (container type) remaining value/s in arguments
      */
     template <typename option_type, typename validator_type>
     void get_positional_option(option_type & value, validator_type && validator)
@@ -784,7 +784,7 @@ private:
                                arguments.end(),
                                [](std::string const & s)
                                {
-                                   return (s != "");
+                                   return (s != consumed_argument);
                                });
 
         if (it == arguments.end())
@@ -805,12 +805,12 @@ private:
                 std::string id = "positional option" + std::to_string(positional_option_count);
                 throw_on_input_error<option_type>(res, id, *it);
 
-                *it = ""; // remove arg from arguments
+                *it = consumed_argument; // remove arg from arguments
                 it = std::find_if(it,
                                   arguments.end(),
                                   [](std::string const & s)
                                   {
-                                      return (s != "");
+                                      return (s != consumed_argument);
                                   });
                 ++positional_option_count;
             }
@@ -821,7 +821,7 @@ private:
             std::string id = "positional option" + std::to_string(positional_option_count);
             throw_on_input_error<option_type>(res, id, *it);
 
-            *it = ""; // remove arg from arguments
+            *it = consumed_argument; // remove arg from arguments
         }
 
         try
@@ -835,6 +835,8 @@ private:
         }
     }
 
+    //!\brief Replaces consumed arguments. Cannot be part of a command line, while an empty argument can be.
+    static inline std::string const consumed_argument{'\0'};
     //!\brief Stores get_option calls to be evaluated when calling format_parse::parse().
     std::vector<std::function<void()>> option_calls;
     //!\brief Stores get_flag calls to be evaluated when calling format_parse::parse().
-- 
2.43.0


From d9715ae59037f12cceee1d91efd3ad59883dd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 25/52] fix: a flag in front of a dash is not removed from a
 group of short flags

`-f-foo` was accepted as `-f --foo` if the flag `-f` was added before the flag `--foo`.
---
 include/sharg/detail/format_parse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 805a6b9..40f007b 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -266,7 +266,8 @@ private:
             {
                 auto pos = arg.find(short_id);
 
-                if (pos != std::string::npos)
+                // Do not remove a flag in front of a dash: The remainder, e.g., `-f-foo`, is no long identifier `--foo`.
+                if (pos != std::string::npos && !(pos == 1 && arg.size() > 2 && arg[2] == '-'))
                 {
                     arg.erase(pos, 1); // remove seen bool
 
-- 
2.43.0


From cb246cec3dcd3d019b5a53dc930a818f5975e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 26/52] fix: validators do not convert values before comparing
 them

`arithmetic_range_validator{0, 1}` and `value_list_validator{0, 1}` accepted `1.5` for an option of type double.
---
 include/sharg/validators.hpp | 63 ++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 2751111..688ac65 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -56,6 +56,21 @@ concept validator = std::copyable<std::remove_cvref_t<validator_type>> &&
                     };
 // clang-format on
 
+namespace detail
+{
+
+/*!\brief The type in which a validator compares arithmetic values of different types.
+ * \ingroup validators
+ * \details
+ * The common type of signed and unsigned integers cannot represent negative values. Therefore, integers are compared as
+ * `long double`.
+ */
+template <typename type1, typename type2>
+using comparison_type_t =
+    std::conditional_t<std::integral<type1> && std::integral<type2>, long double, std::common_type_t<type1, type2>>;
+
+} // namespace detail
+
 /*!\brief A validator that checks whether a number is inside a given range.
  * \ingroup validators
  * \implements sharg::validator
@@ -107,6 +122,28 @@ public:
             throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
     }
 
+    /*!\brief Tests whether cmp lies inside [`min`, `max`]; for values whose type differs from `option_value_type`.
+     * \tparam value_type The type of the value to check; must model std::is_arithmetic_v.
+     * \param[in] cmp The input value to check.
+     * \throws sharg::validation_error
+     *
+     * \details
+     *
+     * The value must not be converted to `option_value_type`, e.g., `1.5` is not in the range `[0,1]`.
+     *
+     * \experimentalapi{Experimental since version 1.1.}
+     */
+    template <typename value_type>
+        requires std::is_arithmetic_v<value_type> && (!std::same_as<value_type, option_value_t>)
+    void operator()(value_type const & cmp) const
+    {
+        using common_t = detail::comparison_type_t<value_type, option_value_type>;
+        auto const value = static_cast<common_t>(cmp);
+
+        if (!((value <= static_cast<common_t>(max)) && (value >= static_cast<common_t>(min))))
+            throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside [`min`, `max`].
      * \tparam range_type The type of range to check; must model std::ranges::forward_range. The value type must model
      *                    std::is_arithmetic_v.
@@ -231,6 +268,32 @@ public:
             throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
     }
 
+    /*!\brief Tests whether cmp lies inside values; for arithmetic values whose type differs from `option_value_type`.
+     * \tparam value_type The type of the value to check; must model std::is_arithmetic_v.
+     * \param cmp The input value to check.
+     * \throws sharg::validation_error
+     *
+     * \details
+     *
+     * The value must not be converted to `option_value_type`, e.g., `1.5` is not one of `[0,1]`.
+     *
+     * \experimentalapi{Experimental since version 1.1.}
+     */
+    template <typename value_type>
+        requires std::is_arithmetic_v<value_type> && std::is_arithmetic_v<option_value_t>
+              && (!std::same_as<value_type, option_value_t>)
+    void operator()(value_type const & cmp) const
+    {
+        using common_t = detail::comparison_type_t<value_type, option_value_type>;
+        auto is_equal = [&cmp](option_value_type const & value)
+        {
+            return static_cast<common_t>(value) == static_cast<common_t>(cmp);
+        };
+
+        if (std::find_if(values.begin(), values.end(), is_equal) == values.end())
+            throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside values.
      * \tparam range_type The type of range to check; must model std::ranges::forward_range.
      * \param  range      The input range to iterate over and check every element.
-- 
2.43.0


From 35402010300f82332b51273bf1467cc8cf124bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 27/52] fix: input_file_validator rejects directories

---
 include/sharg/validators.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 688ac65..c45f760 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -635,6 +635,9 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From 0de1cc5878999f97a5a4e3a46702c0aa47092b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 28/52] fix: file validators report inaccessible parent
 directories as validation_error

---
 include/sharg/validators.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index c45f760..cf8c305 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -791,11 +791,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
@@ -979,16 +979,16 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
-        // Make sure the created dir is deleted after we are done.
-        std::error_code ec;
-        std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
-        // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
-        if (static_cast<bool>(ec))
-            throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
-
         try
         {
+            bool dir_exists = std::filesystem::exists(dir);
+            // Make sure the created dir is deleted after we are done.
+            std::error_code ec;
+            std::filesystem::create_directory(dir, ec); // does nothing and is no error if path already exists.
+            // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
+            if (static_cast<bool>(ec))
+                throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
+
             // Must not be a file of the user because it will be removed.
             std::filesystem::path dummy{dir / "dummy.txt"};
             while (std::filesystem::exists(std::filesystem::symlink_status(dummy)))
-- 
2.43.0


From c28fe2e21462a437e91d84b0eafd22f6f51b3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 29/52] fix: rejected options and flags do not use up their
 identifiers

---
 include/sharg/parser.hpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 0072a4b..04a2f2b 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -274,11 +274,12 @@ public:
     void add_flag(bool & value, config<validator_type> const & config)
     {
         check_parse_not_called("add_flag");
-        verify_flag_config(config);
 
         if (value)
             throw design_error("A flag's default value must be false.");
 
+        verify_flag_config(config);
+
         auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
@@ -982,11 +983,24 @@ private:
     *          otherwise.
     */
     template <typename id_type>
-    bool id_exists(id_type const & id)
+    bool id_exists(id_type const & id) const
     {
         if (detail::format_parse::is_empty_id(id))
             return false;
-        return (!(used_ids.insert(std::string({id}))).second);
+        return used_ids.contains(std::string({id}));
+    }
+
+    /*!\brief Stores the identifiers such that they cannot be used again.
+     * \param[in] short_id The short identifier of the command line option/flag.
+     * \param[in] long_id  The long identifier of the command line option/flag.
+     * \details Must only be called after all checks succeeded: A rejected option/flag does not use any identifier.
+     */
+    void register_identifiers(char const short_id, std::string const & long_id)
+    {
+        if (short_id != '\0')
+            used_ids.emplace(1u, short_id);
+        if (!long_id.empty())
+            used_ids.emplace(long_id);
     }
 
     /*!\brief Verifies that the short and the long identifiers are correctly formatted.
@@ -998,7 +1012,7 @@ private:
      *          the characters used in the identifiers are all valid,
      *          and at least one of short_id or long_id is given.
      */
-    void verify_identifiers(char const short_id, std::string const & long_id)
+    void verify_identifiers(char const short_id, std::string const & long_id) const
     {
         auto is_valid = [](char const c) -> bool
         {
@@ -1036,13 +1050,15 @@ private:
     {
         verify_identifiers(config.short_id, config.long_id);
 
+        if (config.required && !config.default_message.empty())
+            throw design_error{"A required option cannot have a default message."};
+
+        register_identifiers(config.short_id, config.long_id);
+
         if (config.short_id != '\0')
             options.emplace(std::string{"-"} + config.short_id);
         if (!config.long_id.empty())
             options.emplace(std::string{"--"} + config.long_id);
-
-        if (config.required && !config.default_message.empty())
-            throw design_error{"A required option cannot have a default message."};
     }
 
     //!brief Verify the configuration given to a sharg::parser::add_flag call.
@@ -1053,6 +1069,8 @@ private:
 
         if (!config.default_message.empty())
             throw design_error{"A flag may not have a default message because the default is always `false`."};
+
+        register_identifiers(config.short_id, config.long_id);
     }
 
     //!brief Verify the configuration given to a sharg::parser::add_positional_option call.
-- 
2.43.0


From a8543cc75bab2c760fd5b1629f4200ffcbfdad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 30/52] fix: --version-check is a reserved identifier

---
 include/sharg/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 04a2f2b..fbd087d 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -763,7 +763,14 @@ private:
         format{detail::format_short_help{}};
 
     //!\brief List of option/flag identifiers (excluding -/--) that are already used.
-    std::unordered_set<std::string> used_ids{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright"};
+    std::unordered_set<std::string> used_ids{"h",
+                                             "hh",
+                                             "help",
+                                             "advanced-help",
+                                             "export-help",
+                                             "version",
+                                             "copyright",
+                                             "version-check"};
 
     //!\brief The command line arguments that will be passed to the format.
     std::vector<std::string> format_arguments{};
-- 
2.43.0


From cd7e2a464f561622184018cdcac04dd65ff50e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 31/52] fix: add_subcommands is rejected after parse() and if
 there are positional options

---
 include/sharg/parser.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index fbd087d..ffcb355 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -328,6 +328,8 @@ public:
         check_parse_not_called("add_positional_option");
         verify_positional_option_config(config);
 
+        has_positional_option = true;
+
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
@@ -645,6 +647,9 @@ public:
      * \details
      * Adds subcommands to the current parser. The list of subcommands is sorted and duplicates are removed.
      *
+     * \throws sharg::design_error if sharg::parser::parse was already called.
+     * \throws sharg::design_error if there are positional options.
+     *
      * ### Example
      *
      * \include test/snippet/add_subcommands.cpp
@@ -653,6 +658,11 @@ public:
      */
     void add_subcommands(std::vector<std::string> const & subcommands)
     {
+        check_parse_not_called("add_subcommands");
+
+        if (has_positional_option && !subcommands.empty())
+            throw design_error{"You may only specify flags and options for the top-level parser."};
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
@@ -718,6 +728,9 @@ private:
     //!\brief Keeps track of whether the parse function has been called already.
     bool parse_was_called{false};
 
+    //!\brief Keeps track of whether the user has added a positional option because there must not be subcommands.
+    bool has_positional_option{false};
+
     //!\brief Keeps track of whether the user has added a positional list option to check if this was the very last.
     bool has_positional_list_option{false};
 
-- 
2.43.0


From fc82bf0fa59b9dd810700127de2211a4e8adb7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:47 +0000
Subject: [PATCH 32/52] fix: print lists of eight bit integers as numbers

---
 include/sharg/detail/to_string.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index a8e90a6..9316235 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -41,7 +41,18 @@ std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
 
-    auto print = [&stream](auto && val)
+    // Eight bit integers are numbers, not characters.
+    auto print_value = [&stream](auto && val)
+    {
+        using value_t = std::remove_cvref_t<decltype(val)>;
+
+        if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
+            stream << static_cast<int16_t>(val);
+        else
+            stream << val;
+    };
+
+    auto print = [&stream, &print_value](auto && val)
     {
         using value_t = std::remove_cvref_t<decltype(val)>;
 
@@ -57,19 +68,18 @@ std::string to_string(value_types &&... values)
             {
                 stream << '[';
                 auto it = val.begin();
-                stream << *it++;
+                print_value(*it++);
                 for (; it != val.end(); ++it)
-                    stream << ", " << *it;
+                {
+                    stream << ", ";
+                    print_value(*it);
+                }
                 stream << ']';
             }
         }
-        else if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
-        {
-            stream << static_cast<int16_t>(val);
-        }
         else
         {
-            stream << val;
+            print_value(val);
         }
     };
 
-- 
2.43.0


From 4a0fd2baa6e952f620a34e22dbd08b0c68b3a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:10 +0000
Subject: [PATCH 33/52] fix: titles and the short description of help pages
 resolve markup

---
 include/sharg/detail/format_base.hpp | 28 ++++++++++++++++++++++++++++
 include/sharg/detail/format_help.hpp | 15 +++------------
 include/sharg/detail/format_man.hpp  | 11 +----------
 3 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index d2a37c2..ee01e07 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -158,6 +158,34 @@ protected:
         return escaped;
     }
 
+    /*!\brief Converts text to upper case and keeps the markup (`\\fB`, `\\fI` and `\\fP`).
+     * \param[in] text The text to convert.
+     * \returns The text in upper case.
+     */
+    static std::string to_upper_case(std::string const & text)
+    {
+        std::string result;
+        result.reserve(text.size());
+
+        for (size_t i = 0; i < text.size(); ++i)
+        {
+            if (text[i] == '\\' && i + 1 < text.size())
+            {
+                result.push_back(text[i++]);
+
+                if (text[i] == 'f' && i + 1 < text.size()
+                    && (text[i + 1] == 'B' || text[i + 1] == 'I' || text[i + 1] == 'P'))
+                {
+                    result.push_back(text[i++]);
+                }
+            }
+
+            result.push_back(std::toupper(static_cast<unsigned char>(text[i])));
+        }
+
+        return result;
+    }
+
     /*!\brief Expands multiple one character flag identifiers for pretty help output.
      * \param[in] flag_cluster The string of one character flags.
      * \returns A string that lists all flags as a comma separated list.
diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 5adcea2..57b8574 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -117,7 +117,7 @@ protected:
 
         std::cout << meta.app_name;
         if (!empty(meta.short_description))
-            std::cout << " - " << meta.short_description;
+            std::cout << " - " << to_text(meta.short_description);
 
         std::cout << "\n";
         unsigned len =
@@ -131,16 +131,7 @@ protected:
      */
     void print_section(std::string const & title)
     {
-        std::ostream_iterator<char> out(std::cout);
-        std::cout << '\n' << to_text("\\fB");
-        std::transform(title.begin(),
-                       title.end(),
-                       out,
-                       [](unsigned char c)
-                       {
-                           return std::toupper(c);
-                       });
-        std::cout << to_text("\\fP") << '\n';
+        std::cout << '\n' << in_bold(to_text(to_upper_case(title))) << '\n';
         prev_was_paragraph = false;
     }
 
@@ -152,7 +143,7 @@ protected:
         std::ostream_iterator<char> out(std::cout);
         std::cout << '\n';
         std::fill_n(out, layout.leftPadding / 2, ' ');
-        std::cout << in_bold(title) << '\n';
+        std::cout << in_bold(to_text(title)) << '\n';
         prev_was_paragraph = false;
     }
 
diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 247b1f7..1350664 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -87,16 +87,7 @@ private:
      */
     void print_section(std::string const & title)
     {
-        std::ostream_iterator<char> out(std::cout);
-        std::cout << ".SH ";
-        std::transform(title.begin(),
-                       title.end(),
-                       out,
-                       [](unsigned char c)
-                       {
-                           return std::toupper(c);
-                       });
-        std::cout << "\n";
+        std::cout << ".SH " << to_upper_case(title) << "\n";
         is_first_in_section = true;
     }
 
-- 
2.43.0


From 3c6e24a8de18351f70b32dd72df754b01d946ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:10 +0000
Subject: [PATCH 34/52] fix: man pages show backslashes and quotes of the text

---
 include/sharg/detail/format_man.hpp | 70 ++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 1350664..85398f1 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -68,7 +68,7 @@ private:
                        {
                            return std::toupper(c);
                        });
-        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << meta.date << "\" \"";
+        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << to_man_argument(meta.date) << "\" \"";
         std::transform(meta.app_name.begin(),
                        meta.app_name.end(),
                        out,
@@ -76,10 +76,10 @@ private:
                        {
                            return std::tolower(c);
                        });
-        std::cout << " " << meta.version << "\" \"" << meta.man_page_title << "\"\n";
+        std::cout << " " << to_man_argument(meta.version) << "\" \"" << to_man_argument(meta.man_page_title) << "\"\n";
 
         // Print NAME section.
-        std::cout << ".SH NAME\n" << meta.app_name << " \\- " << meta.short_description << std::endl;
+        std::cout << ".SH NAME\n" << meta.app_name << " \\- " << to_man(meta.short_description) << std::endl;
     }
 
     /*!\brief Prints a section title in man page format to std::cout.
@@ -87,7 +87,7 @@ private:
      */
     void print_section(std::string const & title)
     {
-        std::cout << ".SH " << to_upper_case(title) << "\n";
+        std::cout << ".SH " << to_man_argument(to_upper_case(title)) << "\n";
         is_first_in_section = true;
     }
 
@@ -96,7 +96,7 @@ private:
      */
     void print_subsection(std::string const & title)
     {
-        std::cout << ".SS " << title << "\n";
+        std::cout << ".SS " << to_man_argument(title) << "\n";
         is_first_in_section = true;
     }
 
@@ -113,7 +113,7 @@ private:
         else if (!is_first_in_section && !line_is_paragraph)
             std::cout << ".br\n";
 
-        std::cout << escape_control_lines(text) << "\n";
+        std::cout << to_man(text) << "\n";
         is_first_in_section = false;
     }
 
@@ -128,7 +128,7 @@ private:
      */
     void print_list_item(std::string const & term, std::string const & desc)
     {
-        std::cout << ".TP\n" << escape_control_lines(term) << "\n" << escape_control_lines(desc) << "\n";
+        std::cout << ".TP\n" << to_man(term) << "\n" << to_man(desc) << "\n";
         is_first_in_section = false;
     }
 
@@ -138,11 +138,12 @@ private:
         // no footer
     }
 
-    /*!\brief Prevents lines from being interpreted as a request by the man page formatter.
+    /*!\brief Converts text such that the man page formatter only interprets the markup.
      * \param[in] text The text to print.
-     * \returns The text with `\&` in front of every line that starts with a control character (`.` or `'`).
+     * \returns The text with `\\&` in front of every line that starts with a control character (`.` or `'`), and `\\e`
+     *          instead of every backslash that does not belong to `\\-`, `\\fB`, `\\fI`, `\\fP` or `\\fR`.
      */
-    static std::string escape_control_lines(std::string const & text)
+    static std::string to_man(std::string const & text)
     {
         std::string result;
 
@@ -150,7 +151,54 @@ private:
         {
             if ((i == 0 || text[i - 1] == '\n') && (text[i] == '.' || text[i] == '\''))
                 result.append("\\&");
-            result.push_back(text[i]);
+
+            if (text[i] != '\\')
+            {
+                result.push_back(text[i]);
+            }
+            else if (text.compare(i, 2, "\\-") == 0)
+            {
+                result.append("\\-");
+                ++i;
+            }
+            else if (text.compare(i, 2, "\\f") == 0 && i + 2 < text.size()
+                     && std::string_view{"BIPR"}.find(text[i + 2]) != std::string_view::npos)
+            {
+                result.append("\\f");
+                result.push_back(text[i + 2]);
+                i += 2;
+            }
+            else
+            {
+                result.append("\\e");
+
+                if (text.compare(i, 2, "\\\\") == 0) // The second backslash does not start an escape sequence.
+                {
+                    result.append("\\e");
+                    ++i;
+                }
+            }
+        }
+
+        return result;
+    }
+
+    /*!\brief Converts text such that it can be used within an argument of a request.
+     * \param[in] text The text to print.
+     * \returns The converted text (see to_man) without quotes and line breaks.
+     */
+    static std::string to_man_argument(std::string text)
+    {
+        std::replace(text.begin(), text.end(), '\n', ' ');
+
+        std::string result;
+
+        for (char const c : to_man(text))
+        {
+            if (c == '"')
+                result.append("\\(dq");
+            else
+                result.push_back(c);
         }
 
         return result;
-- 
2.43.0


From 2bb5461fa013123759484d6e51a00e232daf1db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:07 +0000
Subject: [PATCH 35/52] fix: an incomplete escape sequence does not hide the
 next one

---
 include/sharg/detail/format_help.hpp | 2 +-
 include/sharg/detail/format_html.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 57b8574..e27f6ef 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -253,7 +253,7 @@ protected:
                     else
                     {
                         result.append("\\f");
-                        result.push_back(*it);
+                        --it; // The character is not part of an escape sequence, but might start one.
                     }
                 }
                 else
diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index 0a7dc34..ccf4337 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -222,7 +222,7 @@ private:
                     else
                     {
                         result.append("\\f");
-                        result.push_back(*it);
+                        --it; // The character is not part of an escape sequence, but might start one.
                     }
                 }
                 else
-- 
2.43.0


From 3b795f08e8bf6fe94f493de8e945e7de31472627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:07 +0000
Subject: [PATCH 36/52] fix: compute the width of backslashes like they are
 printed

---
 include/sharg/detail/format_help.hpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index e27f6ef..9b55d56 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -293,26 +293,24 @@ protected:
                 continue;
             }
 
-            if (text[i + 1] == '\\' || text[i + 1] == '-')
+            if (text[i + 1] == '-')
             {
                 i += 1;
-                result += 1;
-                continue; // Will print '\\' or '-'.
+                result += 1; // Will print '-'.
             }
-
-            if (i + 2 == text.size())
+            else if (text[i + 1] == '\\')
             {
                 i += 1;
-                result += 2; // Will print two chars.
-                continue;
+                result += 2; // Will print two backslashes.
             }
-
-            if (text[i + 1] == 'f')
+            else if (text[i + 1] == 'f' && i + 2 < text.size()
+                     && (text[i + 2] == 'B' || text[i + 2] == 'I' || text[i + 2] == 'P'))
             {
-                if (text[i + 2] == 'B' || text[i + 2] == 'I' || text[i + 2] == 'P')
-                    i += 2; // Skip f and {B, I, P}.
-                else
-                    result += 1;
+                i += 2; // Skip f and {B, I, P}.
+            }
+            else
+            {
+                result += 1; // No escape sequence, will print "\\".
             }
         }
 
-- 
2.43.0


From e32173327fd496e16e3276b89366bece25600ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:35 +0000
Subject: [PATCH 37/52] fix: with remembered decision ALWAYS the version check
 is performed at most once a day

---
 include/sharg/detail/version_check.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 8b2d59f..539f7ae 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -304,7 +304,7 @@ public:
      *
      * If none of the above apply, version check was not explicitly handled so cookie content is checked:
      * * NEVER: Do not perform the version check and do not change the cookie.
-     * * ALWAYS: Do perform the version check once a day and do not change the cookie.
+     * * ALWAYS: Do perform the version check once a day, only the timestamp of the cookie is changed.
      * * ASK: Ask the user or default the decision once a day.
      *
      * If the cookie content is "ASK" and the timestamp is older than a day we ask the user,
@@ -340,7 +340,9 @@ public:
                     return false;
                 }
 
-                std::getline(timestamp_file, cookie_line); // second line contains the last user decision
+                // second line contains the last user decision
+                bool const is_complete = static_cast<bool>(std::getline(timestamp_file, cookie_line));
+                timestamp_file.close();
 
                 if (cookie_line == "NEVER")
                 {
@@ -348,11 +350,12 @@ public:
                 }
                 else if (cookie_line == "ALWAYS")
                 {
+                    if (is_complete)
+                        write_cookie(cookie_line); // The next check is performed in one day.
+
                     return true;
                 }
                 // else we do not return but continue to ask the user
-
-                timestamp_file.close();
             }
         }
 
-- 
2.43.0


From c780f023b76fcf827ca4e5ad024dca790ac1b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:35 +0000
Subject: [PATCH 38/52] fix: no version check files in the current directory if
 HOME is empty

---
 include/sharg/detail/version_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 539f7ae..cfed88a 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -237,7 +237,7 @@ public:
 
         std::error_code err;
 
-        if (char const * const home = getenv(home_env_name); home != nullptr)
+        if (char const * const home = getenv(home_env_name); home != nullptr && *home != '\0')
         {
             tmp_path = std::string{home};
             tmp_path /= ".config";
-- 
2.43.0


From 5809e7191b08c7164d048cbf7738e6d78f4e6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 39/52] fix: long lines in the version record do not crash the
 application

---
 include/sharg/detail/version_check.hpp | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index cfed88a..55ed56d 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -457,8 +457,6 @@ public:
     std::string name;
     //!\brief The version of the application.
     std::string version{"0.0.0"};
-    //!\brief The regex to verify a valid version string.
-    std::regex version_regex{"^[[:digit:]]+\\.[[:digit:]]+\\.[[:digit:]]+$"};
     //!\brief The path to store timestamp and version files (either ~/.config/seqan or the tmp directory).
     std::filesystem::path cookie_path = get_path();
     //!\brief The timestamp filename.
@@ -501,18 +499,34 @@ private:
     }
 
     /*!\brief Parses a version string into an array of length 3.
-     * \param[in] str The version string that must match sharg::detail::version_regex.
+     * \param[in] str The version string that must consist of three numbers separated by `.`.
+     * \returns The numbers, or zeros if the string is no version.
      */
     std::array<int, 3> get_numbers_from_version_string(std::string const & str) const
     {
         std::array<int, 3> result{};
 
-        if (!std::regex_match(str, version_regex))
-            return result;
+        char const * ptr = str.data();
+        char const * const end = str.data() + str.size();
 
-        auto res = std::from_chars(str.data(), str.data() + str.size(), result[0]); // stops and sets res.ptr at '.'
-        res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[1]);
-        res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[2]);
+        for (size_t i = 0; i < result.size(); ++i)
+        {
+            if (i > 0 && (ptr == end || *ptr++ != '.'))
+                return {};
+
+            if (ptr == end || *ptr == '-') // from_chars accepts a sign
+                return {};
+
+            auto const res = std::from_chars(ptr, end, result[i]);
+
+            if (res.ec != std::errc{})
+                return {};
+
+            ptr = res.ptr;
+        }
+
+        if (ptr != end)
+            return {};
 
         return result;
     }
-- 
2.43.0


From 9b75aa12b9cee20806aa95a32de756847c359920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 40/52] fix: an incomplete version record says nothing about
 the sharg version

---
 include/sharg/detail/version_check.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 55ed56d..307270a 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -143,8 +143,8 @@ public:
                 std::cerr << message_unregistered_app;
 #endif // !defined(NDEBUG)
 
-            std::getline(version_file, line); // get second line which should only contain the version number of sharg
-            srv_sharg_version = get_numbers_from_version_string(line);
+            if (std::getline(version_file, line)) // second line which should only contain the version number of sharg
+                srv_sharg_version = get_numbers_from_version_string(line);
 
             version_file.close();
         }
-- 
2.43.0


From 9d1c2f620f23900458c710446559f65adf4bb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 41/52] fix: names of enumerations need not be null-terminated

---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 40f007b..be2b291 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -334,7 +334,7 @@ private:
 
                 std::string result{'['};
                 for (auto const & [key, value] : key_value_pairs)
-                    result += std::string{key.data()} + ", ";
+                    result += std::string{key} + ", ";
                 result.replace(result.size() - 2, 2, "]"); // replace last ", " by "]"
                 return result;
             }();
-- 
2.43.0


From 9e54b4e380ae2cb0db278b0aba615cc6d4851a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 42/52] fix: an enumeration without names does not cause
 std::out_of_range

---
 include/sharg/detail/format_parse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index be2b291..a24d976 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -335,6 +335,8 @@ private:
                 std::string result{'['};
                 for (auto const & [key, value] : key_value_pairs)
                     result += std::string{key} + ", ";
+                if (key_value_pairs.empty())
+                    return result + ']';
                 result.replace(result.size() - 2, 2, "]"); // replace last ", " by "]"
                 return result;
             }();
-- 
2.43.0


From 6fdba52d737604c4c39ea160c2fea8c560b8123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:12 +0000
Subject: [PATCH 43/52] fix: the valid range of floating point options in
 messages contains negative numbers

---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index a24d976..acbaf43 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -479,7 +479,7 @@ private:
             if (res == option_parse_result::overflow_error)
             {
                 throw user_input_error{msg + "Numeric argument " + input_value + " is not in the valid range ["
-                                       + std::to_string(std::numeric_limits<option_type>::min()) + ","
+                                       + std::to_string(std::numeric_limits<option_type>::lowest()) + ","
                                        + std::to_string(std::numeric_limits<option_type>::max()) + "]."};
             }
         }
-- 
2.43.0


From 2230338c289df53935a615454d37f1117b512250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:49 +0000
Subject: [PATCH 44/52] fix: missing blank in the message for groups of unknown
 flags

---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index ee01e07..4ce3b58 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -204,7 +204,7 @@ protected:
             tmp.append({'-', *it, ',', ' '});
 
         tmp.erase(tmp.find_last_of(',')); // remove last ', '
-        tmp.append({'a', 'n', 'd', ' ', '-', flag_cluster[flag_cluster.size() - 1]});
+        tmp.append({' ', 'a', 'n', 'd', ' ', '-', flag_cluster[flag_cluster.size() - 1]});
 
         return tmp;
     }
-- 
2.43.0


From 4e1d9d6d8a445adbc6110b3687e6e5d4289501d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 45/52] fix: validation errors of positional lists name the
 positional option

---
 include/sharg/detail/format_parse.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index acbaf43..768041c 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -782,7 +782,8 @@ private:
     template <typename option_type, typename validator_type>
     void get_positional_option(option_type & value, validator_type && validator)
     {
-        ++positional_option_count;
+        // A list increases the count for each of its values.
+        unsigned const option_number = ++positional_option_count;
         auto it = std::find_if(arguments.begin(),
                                arguments.end(),
                                [](std::string const & s)
@@ -833,7 +834,7 @@ private:
         }
         catch (std::exception & ex)
         {
-            throw validation_error("Validation failed for positional option " + std::to_string(positional_option_count)
+            throw validation_error("Validation failed for positional option " + std::to_string(option_number)
                                    + ": " + ex.what());
         }
     }
-- 
2.43.0


From 355de1ef2cc6ebea16cdf790dae01b4bbd39778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:20 +0000
Subject: [PATCH 46/52] fix: output_directory_validator leaves no directory
 behind if the umask denies access to it

---
 include/sharg/detail/safe_filesystem_entry.hpp | 3 +++
 include/sharg/validators.hpp                   | 9 +++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/safe_filesystem_entry.hpp b/include/sharg/detail/safe_filesystem_entry.hpp
index 2c7104f..f03e132 100644
--- a/include/sharg/detail/safe_filesystem_entry.hpp
+++ b/include/sharg/detail/safe_filesystem_entry.hpp
@@ -55,6 +55,9 @@ public:
         std::error_code ec;
         std::filesystem::remove_all(entry, ec);
 
+        if (static_cast<bool>(ec)) // The content of a new directory cannot be listed if the umask denies it.
+            std::filesystem::remove(entry, ec);
+
         assert(!static_cast<bool>(ec));
     }
     //!\}
diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index cf8c305..dce32a9 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -989,19 +989,20 @@ public:
             if (static_cast<bool>(ec))
                 throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
 
-            // Must not be a file of the user because it will be removed.
             std::filesystem::path dummy{dir / "dummy.txt"};
-            while (std::filesystem::exists(std::filesystem::symlink_status(dummy)))
-                dummy.replace_extension(".tmp" + dummy.extension().string());
 
             if (!dir_exists)
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
                 validate_writeability(dummy);
-                dir_guard.remove_all();
+                dir_guard.remove();
             }
             else
             {
+                // Must not be a file of the user because it will be removed.
+                while (std::filesystem::exists(std::filesystem::symlink_status(dummy)))
+                    dummy.replace_extension(".tmp" + dummy.extension().string());
+
                 validate_writeability(dummy);
             }
         }
-- 
2.43.0


From 28e8ab7a3ca11147cec0165c8c91c530e79f8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:22 +0000
Subject: [PATCH 47/52] fix: arithmetic_range_validator compares integers and
 floating point numbers exactly

`arithmetic_range_validator{0.f, 16777216.f}` accepted `16777217` for an option of type int.
---
 include/sharg/validators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index dce32a9..82c6338 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -137,7 +137,8 @@ public:
         requires std::is_arithmetic_v<value_type> && (!std::same_as<value_type, option_value_t>)
     void operator()(value_type const & cmp) const
     {
-        using common_t = detail::comparison_type_t<value_type, option_value_type>;
+        // The common type of an integer and a floating point number cannot represent all integers.
+        using common_t = long double;
         auto const value = static_cast<common_t>(cmp);
 
         if (!((value <= static_cast<common_t>(max)) && (value >= static_cast<common_t>(min))))
-- 
2.43.0


From cc96cee287b3402933c4f3565f30845c2c36168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:26 +0000
Subject: [PATCH 48/52] fix: tool descriptions hold the path itself as default
 of a path option, not the quoted path

---
 include/sharg/detail/format_tdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 418ae3a..8a1af42 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -187,7 +187,7 @@ public:
         }
         if constexpr (std::same_as<std::filesystem::path, option_type>)
         {
-            auto valueAsStr = to_string(value);
+            auto valueAsStr = value.string();
             store_help_page_element(
                 [this, config, description, valueAsStr, _tags = tags](std::string_view)
                 {
-- 
2.43.0


From b6fffe818881a46d50e92452d78d404f3837a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:26 +0000
Subject: [PATCH 49/52] fix: tool descriptions describe an enumeration option
 by its name, not as the boolean false

---
 include/sharg/detail/format_tdl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 8a1af42..4e34972 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -88,6 +88,14 @@ inline auto to_tdl(std::string const & v)
     return tdl::StringValue(v);
 }
 
+//!\copydetails sharg::detail::to_tdl
+template <typename value_t>
+    requires (named_enumeration<value_t> && !std::integral<value_t> && !std::floating_point<value_t>)
+auto to_tdl(value_t v)
+{
+    return tdl::StringValue(to_string(v));
+}
+
 //!\copydetails sharg::detail::to_tdl
 auto to_tdl(auto SHARG_DOXYGEN_ONLY(v))
 {
-- 
2.43.0


From 9aee92f24acbde8ac574c723e866a36375aa1271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:26 +0000
Subject: [PATCH 50/52] fix: tool descriptions tag advanced flags as advanced,
 like options

---
 include/sharg/detail/format_tdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 4e34972..8003194 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -261,7 +261,7 @@ public:
                 parameters.push_back(tdl::Node{
                     .name = config.long_id,
                     .description = config.description,
-                    .tags = {},
+                    .tags = config.advanced ? std::set<std::string>{"advanced"} : std::set<std::string>{},
                     .value = to_tdl(value),
                 });
             },
-- 
2.43.0


From d11865440b0284409ca2b243917fa46d56ce8154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:42 +0000
Subject: [PATCH 51/52] fix: tool descriptions name options without a long
 identifier by their short identifier

---
 include/sharg/detail/format_tdl.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 8003194..e85ef6c 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -223,12 +223,12 @@ public:
                     }
 
                     parameters.push_back(tdl::Node{
-                        .name = config.long_id,
+                        .name = option_name(config),
                         .description = description,
                         .tags = std::move(tags),
                         .value = tdl::StringValue{valueAsStr},
                     });
-                    info.cliMapping.emplace_back("--" + config.long_id, config.long_id);
+                    info.cliMapping.emplace_back(option_identifier(config), option_name(config));
                 },
                 config);
         }
@@ -238,12 +238,12 @@ public:
                 [this, config, value, description, tags](std::string_view)
                 {
                     parameters.push_back(tdl::Node{
-                        .name = config.long_id,
+                        .name = option_name(config),
                         .description = description,
                         .tags = std::move(tags),
                         .value = to_tdl(value),
                     });
-                    info.cliMapping.emplace_back("--" + config.long_id, config.long_id);
+                    info.cliMapping.emplace_back(option_identifier(config), option_name(config));
                 },
                 config);
         }
@@ -259,7 +259,7 @@ public:
             [this, config, value](std::string_view)
             {
                 parameters.push_back(tdl::Node{
-                    .name = config.long_id,
+                    .name = option_name(config),
                     .description = config.description,
                     .tags = config.advanced ? std::set<std::string>{"advanced"} : std::set<std::string>{},
                     .value = to_tdl(value),
@@ -411,6 +411,24 @@ public:
     {}
 
 private:
+    /*!\brief The name of an option: the long identifier or, if there is none, the short identifier.
+     * \param[in] config The option specification.
+     */
+    template <typename validator_t>
+    static std::string option_name(config<validator_t> const & config)
+    {
+        return config.long_id.empty() ? std::string{config.short_id} : config.long_id;
+    }
+
+    /*!\brief How an option is given on the command line: `--long_id` or, if there is no long identifier, `-s`.
+     * \param[in] config The option specification.
+     */
+    template <typename validator_t>
+    static std::string option_identifier(config<validator_t> const & config)
+    {
+        return (config.long_id.empty() ? "-" : "--") + option_name(config);
+    }
+
     /*!\brief Adds a function object to parser_set_up_calls **if** the annotation in `spec` does not prevent it.
      * \param[in] printer The invokable that, if added to `parser_set_up_calls`, prints information to the help page.
      * \param[in] config The option specification deciding whether to add the information to the help page.
-- 
2.43.0


From 79b6731857ab835fbd8533e535bcb07cb869f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:44 +0000
Subject: [PATCH 52/52] fix: the time of the last update check is written
 independently of the global locale

---
 include/sharg/detail/version_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 307270a..1185546 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -546,7 +546,7 @@ private:
 
         if (timestamp_file.is_open())
         {
-            timestamp_file << curr << '\n' << msg;
+            timestamp_file << std::to_string(curr) << '\n' << msg;
             timestamp_file.close();
         }
     }
-- 
2.43.0

