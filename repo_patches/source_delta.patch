From dc2a93d041427c1fb2b3df80dfed346fb692bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 01/24] fix: const parse() keeps the version of the parser

make_copy() left ParserData::version behind, so a const ArgumentParser lost
its --version option.
---
 single_src/Argos/Argos.cpp   | 1 +
 src/Argos/ArgumentParser.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 071cdaa..2b246b4 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1784,6 +1784,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 61ab47d..e5ca061 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -26,6 +26,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
-- 
2.43.0


From b60057ab7ada0c3d41d750054a0c601a1ea46eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 02/24] fix: copying or moving a command keeps its visibility

The copy and move operations of CommandData omitted the visibility member, so
hidden commands became visible in copies (const parse(), copy_from(), Command
copies).
---
 single_src/Argos/Argos.cpp | 4 ++++
 src/Argos/CommandData.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 2b246b4..34845f8 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3024,6 +3024,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -3049,6 +3050,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -3067,6 +3069,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -3100,6 +3103,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 16523d0..3d150d4 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -24,6 +24,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -49,6 +50,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -67,6 +69,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -100,6 +103,7 @@ namespace argos
         name = std::move(rhs.name);
         full_name = std::move(rhs.full_name);
         texts = std::move(rhs.texts);
+        visibility = rhs.visibility;
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
-- 
2.43.0


From a74d5794ed043b46b7bcc0869418611e1e0cdd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 03/24] fix: moved-from objects throw instead of dereferencing
 a null pointer

ArgumentParser::parse(argc, argv), Command::copy_from and
ArgumentValues::arguments/error used their data without checking it first.
---
 single_src/Argos/Argos.cpp   | 7 ++++++-
 src/Argos/ArgumentParser.cpp | 1 +
 src/Argos/ArgumentValues.cpp | 5 +++++
 src/Argos/Command.cpp        | 2 +-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 34845f8..1a2dd5a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1878,6 +1878,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
@@ -2601,11 +2602,15 @@ namespace argos
     std::vector<std::unique_ptr<IArgumentView>>
     ArgumentValues::arguments() const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         return m_args->get_argument_views(m_value_id);
     }
 
     void ArgumentValues::error(const std::string& message) const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         m_args->error(message, get_argument_id(m_values));
     }
 
@@ -2983,7 +2988,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index e5ca061..7e3a65e 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -120,6 +120,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
diff --git a/src/Argos/ArgumentValues.cpp b/src/Argos/ArgumentValues.cpp
index cea150c..1c63edd 100644
--- a/src/Argos/ArgumentValues.cpp
+++ b/src/Argos/ArgumentValues.cpp
@@ -8,6 +8,7 @@
 #include "Argos/ArgumentValues.hpp"
 
 #include "Argos/ArgumentValue.hpp"
+#include "ArgosThrow.hpp"
 #include "ParseValue.hpp"
 #include "ParsedArgumentsImpl.hpp"
 #include "StringUtilities.hpp"
@@ -110,11 +111,15 @@ namespace argos
     std::vector<std::unique_ptr<IArgumentView>>
     ArgumentValues::arguments() const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         return m_args->get_argument_views(m_value_id);
     }
 
     void ArgumentValues::error(const std::string& message) const
     {
+        if (!m_args)
+            ARGOS_THROW("ArgumentValues has not been initialized.");
         m_args->error(message, get_argument_id(m_values));
     }
 
diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index e5993f4..1402b12 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -167,7 +167,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
-- 
2.43.0


From 2b71c06c006296d5c0db35a2430eb33b8b0165e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 04/24] fix: OptionIterator::next_value doesn't return a
 spurious empty value

After stepping to a new argument the position must say that the whole argument
has been consumed; with SLASH and DASH options every value after a LAST_OPTION
option was followed by an empty one.
---
 single_src/Argos/Argos.cpp   | 2 +-
 src/Argos/OptionIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 1a2dd5a..4e62ed2 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4532,7 +4532,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
diff --git a/src/Argos/OptionIterator.cpp b/src/Argos/OptionIterator.cpp
index 27b0d71..2866430 100644
--- a/src/Argos/OptionIterator.cpp
+++ b/src/Argos/OptionIterator.cpp
@@ -78,7 +78,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
-- 
2.43.0


From 25e33c469037769b8da9b9619dfb5cc10199b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 05/24] fix: case insensitive comparison is a strict weak
 ordering

compare_ci only folded the case of both characters when the first one was a
letter, which made options such as --a_b impossible to find when --aab was
defined too.
---
 single_src/Argos/Argos.cpp    | 8 +-------
 src/Argos/StringUtilities.cpp | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 4e62ed2..6d18bba 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5664,13 +5664,7 @@ namespace argos
 
     int compare_ci(int c1, int c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return to_lower(char(c1)) - to_lower(char(c2));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index d992c99..b5657f5 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -63,13 +63,7 @@ namespace argos
 
     int compare_ci(int c1, int c2)
     {
-        if (c1 == c2)
-            return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        return to_lower(char(c1)) - to_lower(char(c2));
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
-- 
2.43.0


From ae5d559fc1119017da3e94b3d2ece37afa3e1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 06/24] fix: CommandView::help returns the help text

It returned the ABOUT text.
---
 single_src/Argos/Argos.cpp | 2 +-
 src/Argos/CommandView.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 6d18bba..1e0a9de 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3473,7 +3473,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
diff --git a/src/Argos/CommandView.cpp b/src/Argos/CommandView.cpp
index d1f9cef..087a2d1 100644
--- a/src/Argos/CommandView.cpp
+++ b/src/Argos/CommandView.cpp
@@ -18,7 +18,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
-- 
2.43.0


From cc63d665f9bb65b9bb111aefaacfe22d4b55582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:01 +0000
Subject: [PATCH 07/24] fix: ArgumentValues::value reports an index that is too
 great

It threw std::out_of_range instead of the documented error.
---
 single_src/Argos/Argos.cpp   | 5 ++++-
 src/Argos/ArgumentValues.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 1e0a9de..604404a 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -2647,7 +2647,10 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
-        const auto& [value, arg_id] = m_values.at(index);
+        if (index >= m_values.size())
+            error("Invalid value index: " + std::to_string(index) + ".");
+
+        const auto& [value, arg_id] = m_values[index];
         return {value, m_args, m_value_id, arg_id};
     }
 
diff --git a/src/Argos/ArgumentValues.cpp b/src/Argos/ArgumentValues.cpp
index 1c63edd..1925c8d 100644
--- a/src/Argos/ArgumentValues.cpp
+++ b/src/Argos/ArgumentValues.cpp
@@ -156,7 +156,10 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
-        const auto& [value, arg_id] = m_values.at(index);
+        if (index >= m_values.size())
+            error("Invalid value index: " + std::to_string(index) + ".");
+
+        const auto& [value, arg_id] = m_values[index];
         return {value, m_args, m_value_id, arg_id};
     }
 
-- 
2.43.0


From 5adc98b9d060adc0795c71212a680fc63e36f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 08/24] fix: ArgumentCounter::is_complete ignores counters that
 are zero

Arguments such as [<a>] <b> [<c>] could never be completed by a single value
because the counter of the unused optional argument at the end was never
passed.
---
 single_src/Argos/Argos.cpp    | 9 ++++++---
 src/Argos/ArgumentCounter.cpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 604404a..ee9e87d 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -506,9 +506,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (size_t i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index de1616c..10fc6c4 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -121,9 +121,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (size_t i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
-- 
2.43.0


From 44c472b5928965acc41ce378f6cb51169a80c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 09/24] fix: apply initial values to the options of subcommands

---
 single_src/Argos/Argos.cpp         | 29 +++++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.cpp | 27 +++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index ee9e87d..d780777 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1047,6 +1047,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void add_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
@@ -1290,16 +1292,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        add_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -1561,6 +1554,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        add_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -1574,6 +1568,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::add_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1034c88..1809ea5 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -51,16 +51,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        add_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -322,6 +313,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        add_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -335,6 +327,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::add_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e81b04c..2e7c8eb 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -74,6 +74,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void add_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
-- 
2.43.0


From ee632b5089d1f1405a71a4fa9899ff400f588882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 10/24] fix: check the mandatory options of all active commands

Only the innermost command's options were checked, and those of a command
followed by a sibling weren't checked at all.
---
 single_src/Argos/Argos.cpp         | 16 +++++++++++++++-
 src/Argos/ArgumentIteratorImpl.cpp | 14 +++++++++++++-
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d780777..dfa658f 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1067,6 +1067,8 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        bool has_all_mandatory_options();
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
@@ -1517,6 +1519,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options())
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -1654,7 +1658,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options())
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -1755,6 +1759,16 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options()
+    {
+        for (const auto& parsed_args : m_parsed_args)
+        {
+            if (!has_all_mandatory_options(*parsed_args, *parsed_args->command()))
+                return false;
+        }
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1809ea5..cca8e88 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -276,6 +276,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options())
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -413,7 +415,7 @@ namespace argos
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
         auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options())
             return false;
 
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
@@ -514,6 +516,16 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options()
+    {
+        for (const auto& parsed_args : m_parsed_args)
+        {
+            if (!has_all_mandatory_options(*parsed_args, *parsed_args->command()))
+                return false;
+        }
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 2e7c8eb..77b4cef 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -94,6 +94,8 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        bool has_all_mandatory_options();
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
-- 
2.43.0


From bd81792fdb693a027e033533cceca6dd1655ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:56 +0000
Subject: [PATCH 11/24] fix: set the result code of parent commands when
 parsing stops

STOP, EXIT and HELP options given to a subcommand left the result code of the
top-level arguments at NONE.
---
 single_src/Argos/Argos.cpp         | 6 ++++--
 src/Argos/ArgumentIteratorImpl.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index dfa658f..c9ca839 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1446,11 +1446,13 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index cca8e88..3507764 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -203,11 +203,13 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
-- 
2.43.0


From db610b39d9ff3529f2532d778aeb773107c23197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 12/24] fix: count arguments the same way as they are processed

The look-ahead didn't stop at EXIT options, skipped a value after NONE and
CLEAR options that never consume one, looked up non-options as abbreviated
options, and parsed options even when only arguments are accepted.
---
 single_src/Argos/Argos.cpp         | 33 +++++++++++++++++++++---------
 src/Argos/ArgumentIteratorImpl.cpp | 33 +++++++++++++++++++++---------
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index c9ca839..38c3ecc 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1268,6 +1268,13 @@ namespace argos
             return s[0] == (style == OptionStyle::SLASH ? '/' : '-');
         }
 
+        bool takes_value(const OptionData& option)
+        {
+            return (option.operation == OptionOperation::ASSIGN
+                    || option.operation == OptionOperation::APPEND)
+                   && option.constant.empty();
+        }
+
         std::variant<OptionIterator, StandardOptionIterator>
         make_option_iterator(OptionStyle style,
                              std::vector<std::string_view> args)
@@ -1560,6 +1567,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         add_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -1570,7 +1578,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -1602,16 +1609,21 @@ namespace argos
         size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        std::optional<std::string> arg;
+        if (m_state == State::ARGUMENTS_AND_OPTIONS)
+            arg = it.next();
+        for (; arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
-
-            if (option)
+            if (is_option(*arg, m_data->parser_settings.option_style))
             {
-                if (!option->argument.empty())
+                const OptionData* option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+                if (!option)
+                    continue;
+
+                if (takes_value(*option))
                     it.next_value();
 
                 bool arguments_only = false;
@@ -1621,6 +1633,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
@@ -1632,7 +1645,7 @@ namespace argos
                 if (arguments_only)
                     break;
             }
-            else if (!is_option(*arg, m_data->parser_settings.option_style))
+            else
             {
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 3507764..05ae404 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -25,6 +25,13 @@ namespace argos
             return s[0] == (style == OptionStyle::SLASH ? '/' : '-');
         }
 
+        bool takes_value(const OptionData& option)
+        {
+            return (option.operation == OptionOperation::ASSIGN
+                    || option.operation == OptionOperation::APPEND)
+                   && option.constant.empty();
+        }
+
         std::variant<OptionIterator, StandardOptionIterator>
         make_option_iterator(OptionStyle style,
                              std::vector<std::string_view> args)
@@ -317,6 +324,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         add_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -327,7 +335,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -359,16 +366,21 @@ namespace argos
         size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        std::optional<std::string> arg;
+        if (m_state == State::ARGUMENTS_AND_OPTIONS)
+            arg = it.next();
+        for (; arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
-
-            if (option)
+            if (is_option(*arg, m_data->parser_settings.option_style))
             {
-                if (!option->argument.empty())
+                const OptionData* option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+                if (!option)
+                    continue;
+
+                if (takes_value(*option))
                     it.next_value();
 
                 bool arguments_only = false;
@@ -378,6 +390,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
@@ -389,7 +402,7 @@ namespace argos
                 if (arguments_only)
                     break;
             }
-            else if (!is_option(*arg, m_data->parser_settings.option_style))
+            else
             {
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
-- 
2.43.0


From 7b5926e19b09f072210cbc8aca1818a4af09280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:09 +0000
Subject: [PATCH 13/24] fix: uninitialized ParsedArguments throw instead of
 dereferencing null

---
 include/Argos/ParsedArguments.hpp |  3 ++
 single_src/Argos/Argos.cpp        | 57 +++++++++++++++++--------------
 single_src/Argos/Argos.hpp        |  3 ++
 src/Argos/ParsedArguments.cpp     | 57 +++++++++++++++++--------------
 4 files changed, 70 insertions(+), 50 deletions(-)

diff --git a/include/Argos/ParsedArguments.hpp b/include/Argos/ParsedArguments.hpp
index 89f2a16..b427214 100644
--- a/include/Argos/ParsedArguments.hpp
+++ b/include/Argos/ParsedArguments.hpp
@@ -216,6 +216,9 @@ namespace argos
         [[noreturn]]
         void error(const std::string& msg) const;
     private:
+        [[nodiscard]]
+        const std::shared_ptr<ParsedArgumentsImpl>& impl() const;
+
         std::shared_ptr<ParsedArgumentsImpl> m_impl;
     };
 
diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 38c3ecc..d5dc148 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4879,67 +4879,67 @@ namespace argos
 
     CommandView ParsedArguments::command() const
     {
-        return CommandView(m_impl->command());
+        return CommandView(impl()->command());
     }
 
     std::string_view ParsedArguments::name() const
     {
-        return m_impl->command()->name;
+        return impl()->command()->name;
     }
 
     bool ParsedArguments::has(const std::string& name) const
     {
-        return m_impl->has(m_impl->get_value_id(name));
+        return impl()->has(impl()->get_value_id(name));
     }
 
     bool ParsedArguments::has(const IArgumentView& arg) const
     {
-        return m_impl->has(arg.value_id());
+        return impl()->has(arg.value_id());
     }
 
     std::vector<ParsedArguments> ParsedArguments::subcommands() const
     {
         std::vector<ParsedArguments> result;
-        for (const auto& subcommand : m_impl->subcommands())
+        for (const auto& subcommand : impl()->subcommands())
             result.emplace_back(subcommand);
         return result;
     }
 
     ArgumentValue ParsedArguments::value(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        if (auto value = m_impl->get_value(id))
-            return {value->first, m_impl, id, value->second};
+        auto id = impl()->get_value_id(name);
+        if (auto value = impl()->get_value(id))
+            return {value->first, impl(), id, value->second};
         else
-            return {{}, m_impl, id, {}};
+            return {{}, impl(), id, {}};
     }
 
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
-        if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+        if (auto value = impl()->get_value(arg.value_id()))
+            return {value->first, impl(), arg.value_id(), arg.argument_id()};
         else
-            return {{}, m_impl, arg.value_id(), arg.argument_id()};
+            return {{}, impl(), arg.value_id(), arg.argument_id()};
     }
 
     ArgumentValues ParsedArguments::values(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        auto values = m_impl->get_values(id);
-        return {values, m_impl, id};
+        auto id = impl()->get_value_id(name);
+        auto values = impl()->get_values(id);
+        return {values, impl(), id};
     }
 
     ArgumentValues ParsedArguments::values(const IArgumentView& arg) const
     {
-        auto values = m_impl->get_values(arg.value_id());
-        return {values, m_impl, arg.value_id()};
+        auto values = impl()->get_values(arg.value_id());
+        return {values, impl(), arg.value_id()};
     }
 
     std::vector<std::unique_ptr<ArgumentView>>
     ParsedArguments::all_arguments() const
     {
         std::vector<std::unique_ptr<ArgumentView>> result;
-        for (auto& a : m_impl->command()->arguments)
+        for (auto& a : impl()->command()->arguments)
             result.emplace_back(std::make_unique<ArgumentView>(a.get()));
         return result;
     }
@@ -4948,7 +4948,7 @@ namespace argos
     ParsedArguments::all_options() const
     {
         std::vector<std::unique_ptr<OptionView>> result;
-        for (auto& o : m_impl->command()->options)
+        for (auto& o : impl()->command()->options)
             result.emplace_back(std::make_unique<OptionView>(o.get()));
         return result;
     }
@@ -4957,19 +4957,19 @@ namespace argos
     ParsedArguments::all_subcommands() const
     {
         std::vector<std::unique_ptr<CommandView>> result;
-        for (auto& c : m_impl->command()->commands)
+        for (auto& c : impl()->command()->commands)
             result.emplace_back(std::make_unique<CommandView>(c.get()));
         return result;
     }
 
     ParserResultCode ParsedArguments::result_code() const
     {
-        return m_impl->result_code();
+        return impl()->result_code();
     }
 
     OptionView ParsedArguments::stop_option() const
     {
-        const auto* option = m_impl->stop_option();
+        const auto* option = impl()->stop_option();
         if (!option)
             ARGOS_THROW("There is no special option.");
         return OptionView(option);
@@ -4978,14 +4978,14 @@ namespace argos
     const std::vector<std::string>&
     ParsedArguments::unprocessed_arguments() const
     {
-        return m_impl->unprocessed_arguments();
+        return impl()->unprocessed_arguments();
     }
 
     void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
+        const auto& unprocessed = impl()->unprocessed_arguments();
         auto it = unprocessed.begin();
         int out = 1;
         if (!unprocessed.empty())
@@ -5005,7 +5005,14 @@ namespace argos
 
     void ParsedArguments::error(const std::string& msg) const
     {
-        m_impl->error(msg);
+        impl()->error(msg);
+    }
+
+    const std::shared_ptr<ParsedArgumentsImpl>& ParsedArguments::impl() const
+    {
+        if (!m_impl)
+            ARGOS_THROW("ParsedArguments has not been initialized.");
+        return m_impl;
     }
 
     namespace
diff --git a/single_src/Argos/Argos.hpp b/single_src/Argos/Argos.hpp
index a689e11..ed9a9a1 100644
--- a/single_src/Argos/Argos.hpp
+++ b/single_src/Argos/Argos.hpp
@@ -1675,6 +1675,9 @@ namespace argos
         [[noreturn]]
         void error(const std::string& msg) const;
     private:
+        [[nodiscard]]
+        const std::shared_ptr<ParsedArgumentsImpl>& impl() const;
+
         std::shared_ptr<ParsedArgumentsImpl> m_impl;
     };
 
diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index dc9881c..9c69223 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -32,67 +32,67 @@ namespace argos
 
     CommandView ParsedArguments::command() const
     {
-        return CommandView(m_impl->command());
+        return CommandView(impl()->command());
     }
 
     std::string_view ParsedArguments::name() const
     {
-        return m_impl->command()->name;
+        return impl()->command()->name;
     }
 
     bool ParsedArguments::has(const std::string& name) const
     {
-        return m_impl->has(m_impl->get_value_id(name));
+        return impl()->has(impl()->get_value_id(name));
     }
 
     bool ParsedArguments::has(const IArgumentView& arg) const
     {
-        return m_impl->has(arg.value_id());
+        return impl()->has(arg.value_id());
     }
 
     std::vector<ParsedArguments> ParsedArguments::subcommands() const
     {
         std::vector<ParsedArguments> result;
-        for (const auto& subcommand : m_impl->subcommands())
+        for (const auto& subcommand : impl()->subcommands())
             result.emplace_back(subcommand);
         return result;
     }
 
     ArgumentValue ParsedArguments::value(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        if (auto value = m_impl->get_value(id))
-            return {value->first, m_impl, id, value->second};
+        auto id = impl()->get_value_id(name);
+        if (auto value = impl()->get_value(id))
+            return {value->first, impl(), id, value->second};
         else
-            return {{}, m_impl, id, {}};
+            return {{}, impl(), id, {}};
     }
 
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
-        if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+        if (auto value = impl()->get_value(arg.value_id()))
+            return {value->first, impl(), arg.value_id(), arg.argument_id()};
         else
-            return {{}, m_impl, arg.value_id(), arg.argument_id()};
+            return {{}, impl(), arg.value_id(), arg.argument_id()};
     }
 
     ArgumentValues ParsedArguments::values(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        auto values = m_impl->get_values(id);
-        return {values, m_impl, id};
+        auto id = impl()->get_value_id(name);
+        auto values = impl()->get_values(id);
+        return {values, impl(), id};
     }
 
     ArgumentValues ParsedArguments::values(const IArgumentView& arg) const
     {
-        auto values = m_impl->get_values(arg.value_id());
-        return {values, m_impl, arg.value_id()};
+        auto values = impl()->get_values(arg.value_id());
+        return {values, impl(), arg.value_id()};
     }
 
     std::vector<std::unique_ptr<ArgumentView>>
     ParsedArguments::all_arguments() const
     {
         std::vector<std::unique_ptr<ArgumentView>> result;
-        for (auto& a : m_impl->command()->arguments)
+        for (auto& a : impl()->command()->arguments)
             result.emplace_back(std::make_unique<ArgumentView>(a.get()));
         return result;
     }
@@ -101,7 +101,7 @@ namespace argos
     ParsedArguments::all_options() const
     {
         std::vector<std::unique_ptr<OptionView>> result;
-        for (auto& o : m_impl->command()->options)
+        for (auto& o : impl()->command()->options)
             result.emplace_back(std::make_unique<OptionView>(o.get()));
         return result;
     }
@@ -110,19 +110,19 @@ namespace argos
     ParsedArguments::all_subcommands() const
     {
         std::vector<std::unique_ptr<CommandView>> result;
-        for (auto& c : m_impl->command()->commands)
+        for (auto& c : impl()->command()->commands)
             result.emplace_back(std::make_unique<CommandView>(c.get()));
         return result;
     }
 
     ParserResultCode ParsedArguments::result_code() const
     {
-        return m_impl->result_code();
+        return impl()->result_code();
     }
 
     OptionView ParsedArguments::stop_option() const
     {
-        const auto* option = m_impl->stop_option();
+        const auto* option = impl()->stop_option();
         if (!option)
             ARGOS_THROW("There is no special option.");
         return OptionView(option);
@@ -131,14 +131,14 @@ namespace argos
     const std::vector<std::string>&
     ParsedArguments::unprocessed_arguments() const
     {
-        return m_impl->unprocessed_arguments();
+        return impl()->unprocessed_arguments();
     }
 
     void ParsedArguments::filter_parsed_arguments(int& argc, char**& argv) const
     {
         if (argc <= 1)
             return;
-        const auto& unprocessed = m_impl->unprocessed_arguments();
+        const auto& unprocessed = impl()->unprocessed_arguments();
         auto it = unprocessed.begin();
         int out = 1;
         if (!unprocessed.empty())
@@ -158,7 +158,14 @@ namespace argos
 
     void ParsedArguments::error(const std::string& msg) const
     {
-        m_impl->error(msg);
+        impl()->error(msg);
+    }
+
+    const std::shared_ptr<ParsedArgumentsImpl>& ParsedArguments::impl() const
+    {
+        if (!m_impl)
+            ARGOS_THROW("ParsedArguments has not been initialized.");
+        return m_impl;
     }
 
     namespace
-- 
2.43.0


From 118ed21b079f91286d31fda782787b29ffae59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 14/24] fix: blanks at the start of a line only indent the text
 once

A space followed by a tab pushed two indentations, of which only one was
popped, and all the following text was indented.
---
 single_src/Argos/Argos.cpp  | 14 ++++++++++++--
 src/Argos/TextFormatter.cpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d5dc148..28bd293 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6111,8 +6111,18 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_state == State::ALIGNMENT)
+        {
+            if (m_writer.is_current_line_empty())
+            {
+                const auto column = m_writer.current_width();
+                m_writer.set_spaces(0);
+                pop_indentation();
+                push_indentation(column);
+            }
+        }
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ff39e22..f9846c0 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -246,8 +246,18 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_state == State::ALIGNMENT)
+        {
+            if (m_writer.is_current_line_empty())
+            {
+                const auto column = m_writer.current_width();
+                m_writer.set_spaces(0);
+                pop_indentation();
+                push_indentation(column);
+            }
+        }
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
-- 
2.43.0


From 0b8e23811b2f745ccfc206e741e189c16020af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 15/24] fix: do not convert negative numbers to unsigned values

strtoul and strtoull accept a minus sign and return the negated value, so
as_ulong() returned 18446744073709551615 for "-1", and as_uint() returned 1
for "-18446744073709551615", although the value is out of range.
---
 single_src/Argos/Argos.cpp | 3 +++
 src/Argos/ParseValue.cpp   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 28bd293..1724920 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -4740,6 +4740,9 @@ namespace argos
         {
             if (str.empty())
                 return {};
+            // strtoul and strtoull accept negative numbers and wrap them.
+            if (std::is_unsigned_v<T> && str.find('-') != std::string::npos)
+                return {};
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
diff --git a/src/Argos/ParseValue.cpp b/src/Argos/ParseValue.cpp
index 6a58cff..e85b0b0 100644
--- a/src/Argos/ParseValue.cpp
+++ b/src/Argos/ParseValue.cpp
@@ -11,6 +11,7 @@
 #include <cerrno>
 #include <climits>
 #include <cstdlib>
+#include <type_traits>
 #include "StringUtilities.hpp"
 
 namespace argos
@@ -51,6 +52,9 @@ namespace argos
         {
             if (str.empty())
                 return {};
+            // strtoul and strtoull accept negative numbers and wrap them.
+            if (std::is_unsigned_v<T> && str.find('-') != std::string::npos)
+                return {};
             char* endp = nullptr;
             errno = 0;
             auto value = str_to_int<T>(str.c_str(), &endp, base);
-- 
2.43.0


From f0af1049ceabc4ee2a8527974b2f3e4165b3133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:09 +0000
Subject: [PATCH 16/24] fix: the argument iterator gives the arguments of all
 commands

---
 single_src/Argos/Argos.cpp     | 2 +-
 src/Argos/ArgumentIterator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 1724920..e2150b9 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1155,7 +1155,7 @@ namespace argos
 
     ParsedArguments ArgumentIterator::parsed_arguments() const
     {
-        return ParsedArguments(impl().parsed_arguments());
+        return ParsedArguments(impl().toplevel_parsed_arguments());
     }
 
     ArgumentIteratorImpl& ArgumentIterator::impl()
diff --git a/src/Argos/ArgumentIterator.cpp b/src/Argos/ArgumentIterator.cpp
index d6c8d09..cd1f59a 100644
--- a/src/Argos/ArgumentIterator.cpp
+++ b/src/Argos/ArgumentIterator.cpp
@@ -67,7 +67,7 @@ namespace argos
 
     ParsedArguments ArgumentIterator::parsed_arguments() const
     {
-        return ParsedArguments(impl().parsed_arguments());
+        return ParsedArguments(impl().toplevel_parsed_arguments());
     }
 
     ArgumentIteratorImpl& ArgumentIterator::impl()
-- 
2.43.0


From 1471cd636442ded431b35ee8474d2a09336fb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:30 +0000
Subject: [PATCH 17/24] fix: moved-from ParsedArgumentsBuilder throws instead
 of dereferencing null

---
 include/Argos/ParsedArgumentsBuilder.hpp |  3 ++
 single_src/Argos/Argos.cpp               | 56 +++++++++++++----------
 single_src/Argos/Argos.hpp               |  3 ++
 src/Argos/ParsedArgumentsBuilder.cpp     | 57 ++++++++++++++----------
 4 files changed, 71 insertions(+), 48 deletions(-)

diff --git a/include/Argos/ParsedArgumentsBuilder.hpp b/include/Argos/ParsedArgumentsBuilder.hpp
index 9285c90..d0c6ac8 100644
--- a/include/Argos/ParsedArgumentsBuilder.hpp
+++ b/include/Argos/ParsedArgumentsBuilder.hpp
@@ -195,6 +195,9 @@ namespace argos
          */
         [[nodiscard]] const std::string& program_name() const;
     private:
+        [[nodiscard]]
+        const std::shared_ptr<ParsedArgumentsImpl>& impl() const;
+
         std::shared_ptr<ParsedArgumentsImpl> m_impl;
     };
 }
diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index e2150b9..76469a7 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5114,7 +5114,7 @@ namespace argos
     ParsedArgumentsBuilder::append(const std::string& name,
                                    const std::string& value)
     {
-        m_impl->append_value(m_impl->get_value_id(name), value, {});
+        impl()->append_value(impl()->get_value_id(name), value, {});
         return *this;
     }
 
@@ -5122,7 +5122,7 @@ namespace argos
     ParsedArgumentsBuilder::append(const IArgumentView& arg,
                                    const std::string& value)
     {
-        m_impl->append_value(arg.value_id(), value, arg.argument_id());
+        impl()->append_value(arg.value_id(), value, arg.argument_id());
         return *this;
     }
 
@@ -5130,7 +5130,7 @@ namespace argos
     ParsedArgumentsBuilder::assign(const std::string& name,
                                    const std::string& value)
     {
-        m_impl->assign_value(m_impl->get_value_id(name), value, {});
+        impl()->assign_value(impl()->get_value_id(name), value, {});
         return *this;
     }
 
@@ -5138,87 +5138,95 @@ namespace argos
     ParsedArgumentsBuilder::assign(const IArgumentView& arg,
                                    const std::string& value)
     {
-        m_impl->assign_value(arg.value_id(), value, arg.argument_id());
+        impl()->assign_value(arg.value_id(), value, arg.argument_id());
         return *this;
     }
 
     ParsedArgumentsBuilder&
     ParsedArgumentsBuilder::clear(const std::string& name)
     {
-        m_impl->clear_value(m_impl->get_value_id(name));
+        impl()->clear_value(impl()->get_value_id(name));
         return *this;
     }
 
     ParsedArgumentsBuilder&
     ParsedArgumentsBuilder::clear(const IArgumentView& arg)
     {
-        m_impl->clear_value(arg.value_id());
+        impl()->clear_value(arg.value_id());
         return *this;
     }
 
     ArgumentValue ParsedArgumentsBuilder::value(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        if (auto value = m_impl->get_value(id))
-            return {value->first, m_impl, id, value->second};
+        auto id = impl()->get_value_id(name);
+        if (auto value = impl()->get_value(id))
+            return {value->first, impl(), id, value->second};
         else
-            return {{}, m_impl, id, {}};
+            return {{}, impl(), id, {}};
     }
 
     ArgumentValue
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
-        if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+        if (auto value = impl()->get_value(arg.value_id()))
+            return {value->first, impl(), arg.value_id(), arg.argument_id()};
         else
-            return {{}, m_impl, arg.value_id(), arg.argument_id()};
+            return {{}, impl(), arg.value_id(), arg.argument_id()};
     }
 
     ArgumentValues
     ParsedArgumentsBuilder::values(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        auto values = m_impl->get_values(id);
-        return {std::move(values), m_impl, id};
+        auto id = impl()->get_value_id(name);
+        auto values = impl()->get_values(id);
+        return {std::move(values), impl(), id};
     }
 
     ArgumentValues
     ParsedArgumentsBuilder::values(const IArgumentView& arg) const
     {
-        auto values = m_impl->get_values(arg.value_id());
-        return {std::move(values), m_impl, arg.value_id()};
+        auto values = impl()->get_values(arg.value_id());
+        return {std::move(values), impl(), arg.value_id()};
     }
 
     bool ParsedArgumentsBuilder::has(const std::string& name) const
     {
-        return m_impl->has(m_impl->get_value_id(name));
+        return impl()->has(impl()->get_value_id(name));
     }
 
     bool ParsedArgumentsBuilder::has(const IArgumentView& arg) const
     {
-        return m_impl->has(arg.value_id());
+        return impl()->has(arg.value_id());
     }
 
     void ParsedArgumentsBuilder::error(const std::string& msg) const
     {
-         m_impl->error(msg);
+         impl()->error(msg);
     }
 
     void ParsedArgumentsBuilder::error(const std::string& msg,
                                        const IArgumentView& arg) const
     {
-        m_impl->error(msg, arg.argument_id());
+        impl()->error(msg, arg.argument_id());
     }
 
     std::ostream& ParsedArgumentsBuilder::stream() const
     {
-        const auto custom_stream = m_impl->parser_data()->help_settings.output_stream;
+        const auto custom_stream = impl()->parser_data()->help_settings.output_stream;
         return custom_stream ? *custom_stream : std::cout;
     }
 
     const std::string& ParsedArgumentsBuilder::program_name() const
     {
-      return m_impl->parser_data()->command.name;
+      return impl()->parser_data()->command.name;
+    }
+
+    const std::shared_ptr<ParsedArgumentsImpl>&
+    ParsedArgumentsBuilder::impl() const
+    {
+        if (!m_impl)
+            ARGOS_THROW("ParsedArgumentsBuilder has not been initialized.");
+        return m_impl;
     }
 }
 
diff --git a/single_src/Argos/Argos.hpp b/single_src/Argos/Argos.hpp
index ed9a9a1..7b32c8c 100644
--- a/single_src/Argos/Argos.hpp
+++ b/single_src/Argos/Argos.hpp
@@ -1992,6 +1992,9 @@ namespace argos
          */
         [[nodiscard]] const std::string& program_name() const;
     private:
+        [[nodiscard]]
+        const std::shared_ptr<ParsedArgumentsImpl>& impl() const;
+
         std::shared_ptr<ParsedArgumentsImpl> m_impl;
     };
 }
diff --git a/src/Argos/ParsedArgumentsBuilder.cpp b/src/Argos/ParsedArgumentsBuilder.cpp
index c189735..8f73632 100644
--- a/src/Argos/ParsedArgumentsBuilder.cpp
+++ b/src/Argos/ParsedArgumentsBuilder.cpp
@@ -8,6 +8,7 @@
 #include "Argos/ParsedArgumentsBuilder.hpp"
 
 #include <iostream>
+#include "ArgosThrow.hpp"
 #include "ParsedArgumentsImpl.hpp"
 
 namespace argos
@@ -21,7 +22,7 @@ namespace argos
     ParsedArgumentsBuilder::append(const std::string& name,
                                    const std::string& value)
     {
-        m_impl->append_value(m_impl->get_value_id(name), value, {});
+        impl()->append_value(impl()->get_value_id(name), value, {});
         return *this;
     }
 
@@ -29,7 +30,7 @@ namespace argos
     ParsedArgumentsBuilder::append(const IArgumentView& arg,
                                    const std::string& value)
     {
-        m_impl->append_value(arg.value_id(), value, arg.argument_id());
+        impl()->append_value(arg.value_id(), value, arg.argument_id());
         return *this;
     }
 
@@ -37,7 +38,7 @@ namespace argos
     ParsedArgumentsBuilder::assign(const std::string& name,
                                    const std::string& value)
     {
-        m_impl->assign_value(m_impl->get_value_id(name), value, {});
+        impl()->assign_value(impl()->get_value_id(name), value, {});
         return *this;
     }
 
@@ -45,86 +46,94 @@ namespace argos
     ParsedArgumentsBuilder::assign(const IArgumentView& arg,
                                    const std::string& value)
     {
-        m_impl->assign_value(arg.value_id(), value, arg.argument_id());
+        impl()->assign_value(arg.value_id(), value, arg.argument_id());
         return *this;
     }
 
     ParsedArgumentsBuilder&
     ParsedArgumentsBuilder::clear(const std::string& name)
     {
-        m_impl->clear_value(m_impl->get_value_id(name));
+        impl()->clear_value(impl()->get_value_id(name));
         return *this;
     }
 
     ParsedArgumentsBuilder&
     ParsedArgumentsBuilder::clear(const IArgumentView& arg)
     {
-        m_impl->clear_value(arg.value_id());
+        impl()->clear_value(arg.value_id());
         return *this;
     }
 
     ArgumentValue ParsedArgumentsBuilder::value(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        if (auto value = m_impl->get_value(id))
-            return {value->first, m_impl, id, value->second};
+        auto id = impl()->get_value_id(name);
+        if (auto value = impl()->get_value(id))
+            return {value->first, impl(), id, value->second};
         else
-            return {{}, m_impl, id, {}};
+            return {{}, impl(), id, {}};
     }
 
     ArgumentValue
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
-        if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+        if (auto value = impl()->get_value(arg.value_id()))
+            return {value->first, impl(), arg.value_id(), arg.argument_id()};
         else
-            return {{}, m_impl, arg.value_id(), arg.argument_id()};
+            return {{}, impl(), arg.value_id(), arg.argument_id()};
     }
 
     ArgumentValues
     ParsedArgumentsBuilder::values(const std::string& name) const
     {
-        auto id = m_impl->get_value_id(name);
-        auto values = m_impl->get_values(id);
-        return {std::move(values), m_impl, id};
+        auto id = impl()->get_value_id(name);
+        auto values = impl()->get_values(id);
+        return {std::move(values), impl(), id};
     }
 
     ArgumentValues
     ParsedArgumentsBuilder::values(const IArgumentView& arg) const
     {
-        auto values = m_impl->get_values(arg.value_id());
-        return {std::move(values), m_impl, arg.value_id()};
+        auto values = impl()->get_values(arg.value_id());
+        return {std::move(values), impl(), arg.value_id()};
     }
 
     bool ParsedArgumentsBuilder::has(const std::string& name) const
     {
-        return m_impl->has(m_impl->get_value_id(name));
+        return impl()->has(impl()->get_value_id(name));
     }
 
     bool ParsedArgumentsBuilder::has(const IArgumentView& arg) const
     {
-        return m_impl->has(arg.value_id());
+        return impl()->has(arg.value_id());
     }
 
     void ParsedArgumentsBuilder::error(const std::string& msg) const
     {
-         m_impl->error(msg);
+         impl()->error(msg);
     }
 
     void ParsedArgumentsBuilder::error(const std::string& msg,
                                        const IArgumentView& arg) const
     {
-        m_impl->error(msg, arg.argument_id());
+        impl()->error(msg, arg.argument_id());
     }
 
     std::ostream& ParsedArgumentsBuilder::stream() const
     {
-        const auto custom_stream = m_impl->parser_data()->help_settings.output_stream;
+        const auto custom_stream = impl()->parser_data()->help_settings.output_stream;
         return custom_stream ? *custom_stream : std::cout;
     }
 
     const std::string& ParsedArgumentsBuilder::program_name() const
     {
-      return m_impl->parser_data()->command.name;
+      return impl()->parser_data()->command.name;
+    }
+
+    const std::shared_ptr<ParsedArgumentsImpl>&
+    ParsedArgumentsBuilder::impl() const
+    {
+        if (!m_impl)
+            ARGOS_THROW("ParsedArgumentsBuilder has not been initialized.");
+        return m_impl;
     }
 }
-- 
2.43.0


From 2bcb0f8a1b9fa2d8a185bd32d34994c0ce17eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:15 +0000
Subject: [PATCH 18/24] fix: an empty help text callback gives an empty text
 instead of throwing bad_function_call

---
 single_src/Argos/Argos.cpp | 3 ++-
 src/Argos/TextSource.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 76469a7..0f82153 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -33,7 +33,8 @@ namespace argos
     {
         if (auto str = std::get_if<std::string>(&source))
             return *str;
-        return std::get<TextCallback>(source)();
+        const auto& callback = std::get<TextCallback>(source);
+        return callback ? callback() : std::string();
     }
 }
 
diff --git a/src/Argos/TextSource.hpp b/src/Argos/TextSource.hpp
index 6b4b481..62a5a3f 100644
--- a/src/Argos/TextSource.hpp
+++ b/src/Argos/TextSource.hpp
@@ -17,6 +17,7 @@ namespace argos
     {
         if (auto str = std::get_if<std::string>(&source))
             return *str;
-        return std::get<TextCallback>(source)();
+        const auto& callback = std::get<TextCallback>(source);
+        return callback ? callback() : std::string();
     }
 }
-- 
2.43.0


From 95dca41e578111f004188a00b20e54cf9e0b2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 19/24] fix: a text that ends with a list marker does not
 indent the next text

---
 single_src/Argos/Argos.cpp  | 4 +---
 src/Argos/TextFormatter.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 0f82153..8d07096 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6160,10 +6160,8 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
 
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index f9846c0..b2b4030 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -283,9 +283,7 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
-- 
2.43.0


From f44f6959c782296dde738194fcbe9cdbb463bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 20/24] fix: all options and arguments that are linked through
 aliases share their value

Whether they did depended on the order they were added in: only the alias of
a linked option was looked up, and flags of an option that found an existing
id were not registered.
---
 single_src/Argos/Argos.cpp | 63 ++++++++++++++++++++------------------
 src/Argos/CommandData.cpp  | 63 ++++++++++++++++++++------------------
 2 files changed, 66 insertions(+), 60 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 8d07096..25a3dbc 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -3402,26 +3402,32 @@ namespace argos
                     return it->second;
                 }
 
-                ValueId get_value_id(std::string_view name)
+                // Gives all the names the same id. Names that already have
+                // ids, share it with all the names they were linked with.
+                void link(const std::vector<std::string_view>& names)
                 {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> value_id;
+                    for (const auto& name : names)
+                    {
+                        const auto name_id = find_value_id(name);
+                        if (!value_id)
+                            value_id = name_id;
+                        else if (name_id && *name_id != *value_id)
+                            replace_value_id(*name_id, *value_id);
+                    }
+                    if (!value_id)
+                        value_id = ValueId(++id);
+                    for (const auto& name : names)
+                        explicit_ids[name] = *value_id;
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace_value_id(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& entry : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (entry.second == old_id)
+                            entry.second = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
@@ -3431,30 +3437,27 @@ namespace argos
             {
                 a->argument_id = ArgumentId(++argument_id);
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
+                    id_maker.link({a->name, a->alias});
                 else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    id_maker.link({a->name});
             }
             for (const auto& o : cmd.options)
             {
                 o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                id_maker.link(names);
+            }
+            for (const auto& a : cmd.arguments)
+                a->value_id = *id_maker.find_value_id(a->name);
+            for (const auto& o : cmd.options)
+            {
+                if (o->operation != OptionOperation::NONE)
+                    o->value_id = *id_maker.find_value_id(o->flags.front());
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 3d150d4..c09c323 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -352,26 +352,32 @@ namespace argos
                     return it->second;
                 }
 
-                ValueId get_value_id(std::string_view name)
+                // Gives all the names the same id. Names that already have
+                // ids, share it with all the names they were linked with.
+                void link(const std::vector<std::string_view>& names)
                 {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> value_id;
+                    for (const auto& name : names)
+                    {
+                        const auto name_id = find_value_id(name);
+                        if (!value_id)
+                            value_id = name_id;
+                        else if (name_id && *name_id != *value_id)
+                            replace_value_id(*name_id, *value_id);
+                    }
+                    if (!value_id)
+                        value_id = ValueId(++id);
+                    for (const auto& name : names)
+                        explicit_ids[name] = *value_id;
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace_value_id(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& entry : explicit_ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (entry.second == old_id)
+                            entry.second = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
@@ -381,30 +387,27 @@ namespace argos
             {
                 a->argument_id = ArgumentId(++argument_id);
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
+                    id_maker.link({a->name, a->alias});
                 else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    id_maker.link({a->name});
             }
             for (const auto& o : cmd.options)
             {
                 o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                id_maker.link(names);
+            }
+            for (const auto& a : cmd.arguments)
+                a->value_id = *id_maker.find_value_id(a->name);
+            for (const auto& o : cmd.options)
+            {
+                if (o->operation != OptionOperation::NONE)
+                    o->value_id = *id_maker.find_value_id(o->flags.front());
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
-- 
2.43.0


From 6b25ab9a06f9195f2c00d1ab60ebfde47a49b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:31 +0000
Subject: [PATCH 21/24] fix: reading a value after arguments were inserted into
 concatenated flags skips the flag

---
 single_src/Argos/Argos.cpp           | 1 +
 src/Argos/StandardOptionIterator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 25a3dbc..554a12c 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5663,6 +5663,7 @@ namespace argos
         m_all_args.insert(m_all_args.begin() + index + 1,
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
+        m_pos = std::string::npos;
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
     }
 }
diff --git a/src/Argos/StandardOptionIterator.cpp b/src/Argos/StandardOptionIterator.cpp
index e950414..cd1a500 100644
--- a/src/Argos/StandardOptionIterator.cpp
+++ b/src/Argos/StandardOptionIterator.cpp
@@ -125,6 +125,7 @@ namespace argos
         m_all_args.insert(m_all_args.begin() + index + 1,
                           "-" + m_args[0].substr(m_pos));
         m_all_args[index].resize(m_pos);
+        m_pos = std::string::npos;
         m_args = std::span(m_all_args.begin() + index, m_all_args.end());
     }
 }
-- 
2.43.0


From 60ce5eff7b32bd75cd1c2bef774b0bf5f1613312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:59 +0000
Subject: [PATCH 22/24] fix: arguments that callbacks insert do not hide the
 next subcommand from the look-ahead

---
 single_src/Argos/Argos.cpp         | 21 ++++++++++++++++-----
 src/Argos/ArgumentIteratorImpl.cpp | 16 ++++++++++++----
 src/Argos/ArgumentIteratorImpl.hpp |  5 ++++-
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 554a12c..d66d0a8 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -1052,13 +1052,16 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t initial_count = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command_sibling(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
@@ -1605,7 +1608,7 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t initial_count) const
     {
         size_t result = 0;
         auto it = m_iterator;
@@ -1651,7 +1654,8 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (initial_count + result >= min_count
+                    && find_multi_command_sibling(*arg).first)
                     return result;
 
                 ++result;
@@ -1663,7 +1667,8 @@ namespace argos
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (initial_count + result >= min_count
+                    && find_multi_command_sibling(*arg).first)
                 return result;
 
             ++result;
@@ -1725,6 +1730,12 @@ namespace argos
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
 
+        return find_multi_command_sibling(name);
+    }
+
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command_sibling(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -1756,7 +1767,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = current_count + count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              current_count);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 05ae404..ab311e4 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -361,7 +361,7 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t initial_count) const
     {
         size_t result = 0;
         auto it = m_iterator;
@@ -407,7 +407,8 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (initial_count + result >= min_count
+                    && find_multi_command_sibling(*arg).first)
                     return result;
 
                 ++result;
@@ -419,7 +420,8 @@ namespace argos
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (initial_count + result >= min_count
+                    && find_multi_command_sibling(*arg).first)
                 return result;
 
             ++result;
@@ -481,6 +483,12 @@ namespace argos
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
 
+        return find_multi_command_sibling(name);
+    }
+
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command_sibling(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -512,7 +520,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = current_count + count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              current_count);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 77b4cef..29d5c34 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -78,13 +78,16 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        [[nodiscard]] size_t count_arguments(size_t initial_count = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command_sibling(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
-- 
2.43.0


From 6104f8e0bf55339c7517a6d3350e9d63735a069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:20 +0000
Subject: [PATCH 23/24] fix: a name ending in a carriage return made the help
 text throw std::out_of_range

---
 single_src/Argos/Argos.cpp  | 2 +-
 src/Argos/TextFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index d66d0a8..de61b13 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -5914,7 +5914,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index b2b4030..94bade5 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -22,7 +22,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
-- 
2.43.0


From 7cc02177c8e16e1cda98aaf53f94b6222ba08831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:09 +0000
Subject: [PATCH 24/24] fix: a word after a tab that reached the line width was
 glued to the word before it

---
 single_src/Argos/Argos.cpp  | 3 ++-
 src/Argos/TextFormatter.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index de61b13..a4ac8e4 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -6002,7 +6002,8 @@ namespace argos
         if (indent == CURRENT_COLUMN)
         {
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
         }
         m_indents.push_back(indent);
         m_writer.set_indentation(indent);
diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index 94bade5..4ea47e2 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -110,7 +110,8 @@ namespace argos
         if (indent == CURRENT_COLUMN)
         {
             indent = m_writer.current_width();
-            m_writer.set_spaces(0);
+            if (indent < m_writer.line_width())
+                m_writer.set_spaces(0);
         }
         m_indents.push_back(indent);
         m_writer.set_indentation(indent);
-- 
2.43.0

