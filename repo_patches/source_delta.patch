From 0b6851d3061ebf68f8d092bd894edcaa4fb31369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 01/26] fix: a paragraph needs at least one line of text

Lines like ':name' or '<<toc:' left tokens that no processor accepts and
the paragraph processor crashed with IndexError instead of failing.
---
 mau/parsers/document_processors/paragraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..fd5e2be 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -22,7 +22,8 @@ def paragraph_processor(parser: DocumentParser):
     # is EOL we know that the paragraph is ended, otherwise
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
-    line_tokens: list[Token] = []
+    # A paragraph contains at least one line of text.
+    line_tokens: list[Token] = [parser.tm.get_token(TokenType.TEXT)]
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From 6dbd0c3fd4065f4f2ca0351f4d586b2ab54e62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 02/26] fix: report an empty condition instead of crashing

'@if' and '[if:](x)' failed with AttributeError.
---
 mau/parsers/condition_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/condition_parser.py b/mau/parsers/condition_parser.py
index 49dc6c2..f41f029 100644
--- a/mau/parsers/condition_parser.py
+++ b/mau/parsers/condition_parser.py
@@ -5,7 +5,7 @@ from mau.lexers.condition_lexer import ConditionLexer
 from mau.message import BaseMessageHandler
 from mau.nodes.condition import ConditionNode
 from mau.nodes.node import NodeInfo
-from mau.parsers.base_parser import BaseParser
+from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
 from mau.text_buffer import Context
 from mau.token import Token, TokenType
@@ -61,6 +61,13 @@ class ConditionParser(BaseParser):
 
         return True
 
+    def finalise(self):
+        super().finalise()
+
+        # An empty text doesn't contain any condition.
+        if self.condition_node is None:
+            raise create_parser_exception("The condition is empty.")
+
 
 def process_condition_with_variables(
     condition_token: Token,
-- 
2.43.0


From 6cf67224382a09cb5b4c042de8b16d4f5c44db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 03/26] fix: headers whose text produces no nodes

'= [if:a==1](x)' crashed with IndexError when the condition was false.
---
 mau/parsers/document_processors/header.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..03f958d 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -64,9 +64,12 @@ def header_processor(parser: DocumentParser):
     node.name = arguments.named_args.pop("name", None)
 
     # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
+    # The text might produce no nodes at all.
+    text_context = text_token.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
 
     # Find the context of the whole node.
     node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
-- 
2.43.0


From 80167438c2537f147c458b3d70eeddbc8360ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 04/26] fix: list items whose text produces no nodes

'* [if:a==1](x)' crashed with IndexError when the condition was false.
---
 mau/parsers/document_processors/list.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..e7ffb0c 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -30,7 +30,10 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    # The text might produce no nodes at all.
+    context = Context.merge_contexts(
+        header.context, content[-1].info.context if content else text.context
+    )
 
     nodes: list[Node] = []
     nodes.append(
@@ -71,7 +74,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            context = Context.merge_contexts(
+                header.context, content[-1].info.context if content else text.context
+            )
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From 9336c71501cb3be0455147efb2b305258b4076b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 05/26] fix: report a list start that is not a number

'[start=abc]' crashed with ValueError.
---
 mau/parsers/document_processors/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index e7ffb0c..00451d6 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -167,7 +167,14 @@ def list_processor(parser: DocumentParser):
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"The list start '{start}' is not a number.",
+                context=nodes[0].info.context,
+            ) from exc
+
         parser.latest_ordered_list_index = len(nodes) + start
 
     # Find the final context.
-- 
2.43.0


From 0c0c0f8eadac188896f272e4c67140b35bd5b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 06/26] fix: report a block group include without a group

'<< blockgroup' crashed with KeyError.
---
 mau/parsers/document_processors/include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..50caed9 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -351,7 +351,13 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a group.",
+            context,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From 06f6f08aedda0a0611f383b4834ab81f88f3ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 07/26] fix: report included files that exist but cannot be
 read

Directories, unreadable files, and files that are not UTF-8 made the
parser crash.
---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 50caed9..9c83728 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -220,7 +220,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -293,7 +293,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 28b50ccd15fd70f474dceebf96b218879603ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 08/26] fix: copy environments without nesting them

Nesting cannot represent both 'a' and 'a.b': cloning such an environment
(as done by '<< mau:FILE') crashed with TypeError or lost a variable.
---
 mau/environment/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..53530ba 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -25,7 +25,9 @@ class Environment:
 
     @classmethod
     def from_environment(cls, other: Environment, namespace: str | None = None):
-        return cls().from_dict(other.asdict(), namespace)
+        env = cls()
+        env.update(other, namespace)
+        return env
 
     def update(self, other: Environment, namespace: str | None = None, overwrite=True):
         # Create an environment, to get all
-- 
2.43.0


From e185a665dc518d462ca091030abec821c071bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 09/26] fix: conditions on footnote bodies and grouped blocks

The condition was ignored and stayed in the buffer, so it was applied to
the next element of the document.
---
 mau/parsers/document_processors/block.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..d05c339 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -86,6 +86,14 @@ def block_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here and return without
+        # saving any node.
+        if not control.process(parser.environment):
+            return True
+
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
@@ -104,14 +112,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From 8ed270b2e03cbe87f93fe0d88684182ebbfcd67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 10/26] fix: detect include loops that pass through a block

The list of forbidden files was not passed to the parser of the block
content, so such a loop ended in RecursionError.
---
 mau/parsers/document_processors/block_engines/default.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..efb848b 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,6 +34,7 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        forbidden_includes=parser.forbidden_includes,
     )
 
     if update:
-- 
2.43.0


From ab9156279466425df7bb9c2483ff7663bfbf1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 11/26] fix: duplicate footnotes in blocks that are not
 isolated

The second definition silently replaced the first one.
---
 mau/parsers/managers/footnotes_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..3457265 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -75,7 +75,8 @@ class FootnotesManager:
         with those contained in another
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
-        self.bodies.update(other.bodies)
+        for name, body in other.bodies.items():
+            self.add_body(name, body)
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From 6a82c32887a5495830352296df0512579ecede8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 12/26] fix: headers of blocks that are not isolated can be
 linked

The header links manager of the block was not merged into the one of the
document.
---
 mau/parsers/document_processors/block_engines/default.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index efb848b..7f8d3f7 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -47,6 +47,7 @@ def parse_block_content(
         # found in this block are part of the
         # main document. Import them.
         parser.toc_manager.update(content_parser.toc_manager)
+        parser.header_links_manager.update(content_parser.header_links_manager)
 
     return content_parser.nodes
 
-- 
2.43.0


From 72466ffbc0266aa5e7c641e136e3fceaf59f879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 13/26] fix: ifeval with namespaces and values that are not
 text

'[ifeval:a==1](mau)' and numeric variables crashed with AttributeError.
---
 mau/parsers/text_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..60fa861 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -905,9 +905,10 @@ class TextParser(BaseParser):
                 )
 
             # Find the value of the variable.
-            variable_value = self.environment.get(
-                result.value,
-            )
+            try:
+                variable_value = self.environment[result.value]
+            except KeyError:
+                variable_value = None
 
             # If the variable wasn't defined yell at the user.
             if variable_value is None:
@@ -916,7 +917,7 @@ class TextParser(BaseParser):
                     context=context,
                 )
 
-            result.value = variable_value
+            result.value = str(variable_value)
 
         nodes = []
         if result is not None:
-- 
2.43.0


From 43a210ef9b7de16909474d679ceafe6f5eb4c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 14/26] fix: environment variables whose value contains an
 equal sign

'-v key=a=b' crashed with ValueError.
---
 mau/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index f4ddacd..6f482f1 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -146,7 +146,7 @@ def load_environment_variables(
         # ENVIRONMENT_VARIABLES_NAMESPACE.KEY
 
         # Parse the environment variable syntax.
-        key, value = variable.split("=")
+        key, value = variable.split("=", 1)
 
         # Store the value.
         flat_environment_variables[key] = value
-- 
2.43.0


From 23770144fc38cbc4f917a64b4d4e7883d3825e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 15/26] fix: source markers with delimiters longer than one
 character

The code assumed that the marker delimiter and the highlight prefix are
a single character, and kept part of them in the line.
---
 mau/parsers/document_processors/block_engines/source.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..55599dc 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -113,7 +113,7 @@ def parse_source_engine(
             continue
 
         # Split without the final delimiter
-        splits = line_content[:-1].split(marker_delimiter)
+        splits = line_content[: -len(marker_delimiter)].split(marker_delimiter)
 
         if len(splits) < 2:
             # It's a trap! There are no separators left.
@@ -132,7 +132,7 @@ def parse_source_engine(
         line_content = marker_delimiter.join(splits[:-1])
 
         if marker.startswith(highlight_prefix):
-            highlight_style = marker[1:] or highlight_default_style
+            highlight_style = marker[len(highlight_prefix) :] or highlight_default_style
 
             # Replace the highlight style
             # if it is an alias.
@@ -145,8 +145,8 @@ def parse_source_engine(
         # If there is a marker, change the line
         # context to remove the marker.
         if marker:
-            # Take into account the two colons.
-            marker_length = len(marker) + 2
+            # Take into account the two delimiters.
+            marker_length = len(marker) + 2 * len(marker_delimiter)
 
             # Calculate the line length.
             line_length = len(line_content)
-- 
2.43.0


From 76959c37f370ccf049a1d3f526e47a22b10a46f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 16/26] fix: nest dictionaries where a key extends another key

With variables 'a' and 'a.b' the Jinja visitor crashed with TypeError or
lost 'a.b'.
---
 mau/environment/helpers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index d06c48f..572f893 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -70,6 +70,14 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
     result: dict = {}
 
     for key, value in flat.items():
+        # If the key goes through another key (e.g. "a" and
+        # "a.b") that part of the hierarchy is already taken
+        # by a value, so the key can only be stored as it is.
+        parts = key.split(separator)
+        if any(separator.join(parts[:i]) in flat for i in range(1, len(parts))):
+            result[key] = value
+            continue
+
         _split(key, value, separator, result)
 
     return result
-- 
2.43.0


From 6e481fc7afe990cdbbe5a8aa12e7189ebc2bfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 17/26] fix: empty marker delimiter in source blocks

'[@source, marker_delimiter=]' crashed with ValueError.
---
 mau/parsers/document_processors/block_engines/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 55599dc..d396662 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -65,7 +65,8 @@ def parse_source_engine(
         return SourceNode()
 
     # Get the delimiter for markers
-    marker_delimiter = arguments.named_args.pop("marker_delimiter", ":")
+    # An empty delimiter is no delimiter at all.
+    marker_delimiter = arguments.named_args.pop("marker_delimiter", "") or ":"
 
     # Get the highlight prefix
     highlight_prefix = arguments.named_args.pop("highlight_marker", "@")
-- 
2.43.0


From a812de170f088c10e73835e7d22f99d9e7af5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 18/26] fix: variable definitions do not consume the following
 line

---
 mau/parsers/document_processors/variable_definition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 513638f..7e7aa3d 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -38,8 +38,13 @@ def variable_definition_processor(parser: DocumentParser):
     context = Context.merge_contexts(opening_colon.context, closing_colon.context)
 
     # Get the optional variable value.
+    # Text on the following lines is not part of the definition.
     value: str = ""
-    if parser.tm.peek_token().type == TokenType.TEXT:
+    next_token = parser.tm.peek_token()
+    if (
+        next_token.type == TokenType.TEXT
+        and next_token.context.start_line == closing_colon.context.start_line
+    ):
         value_token = parser.tm.get_token()
         value = value_token.value
         context = Context.merge_contexts(context, value_token.context)
-- 
2.43.0


From e2221ef1b0d48566225b4e85ce9ae6e332f7e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 19/26] fix: start=auto continues the numbers of the previous
 ordered list

Nested lists, unordered lists, and lists dropped by a condition were
counted as if they had used numbers.
---
 mau/parsers/document_processors/list.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 00451d6..ae69359 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -165,7 +165,6 @@ def list_processor(parser: DocumentParser):
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(nodes)
     else:
         try:
             start = int(start)
@@ -175,8 +174,6 @@ def list_processor(parser: DocumentParser):
                 context=nodes[0].info.context,
             ) from exc
 
-        parser.latest_ordered_list_index = len(nodes) + start
-
     # Find the final context.
     context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
 
@@ -197,6 +194,12 @@ def list_processor(parser: DocumentParser):
         if not control.process(parser.environment):
             return True
 
+    # The next ordered list might continue this one. Only the items
+    # of the list itself are numbered, nested lists are not.
+    if ordered:
+        items = [i for i in nodes if isinstance(i, ListItemNode)]
+        parser.latest_ordered_list_index = start + len(items)
+
     parser._save(node)
 
     return True
-- 
2.43.0


From 7c7a51f6d9d8947da25f3d2469b103452fb481d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 20/26] fix: keep the lines of raw content separate in Jinja
 visitors

No node has the type 'raw-content', so the lines of raw blocks and of
included raw files were joined without any separator.
---
 mau/visitors/jinja_visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..7c491af 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -331,7 +331,8 @@ class JinjaVisitor(BaseVisitor):
 
     join_with = {
         "document": "\n",
-        "raw-content": "\n",
+        "raw": "\n",
+        "include-raw": "\n",
         "source": "\n",
         "paragraph": " ",
     }
-- 
2.43.0


From 15378f8f1c3e5e2aebad765bd89cf0a8a92b5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 21/26] fix: accept an empty configuration file

---
 mau/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..9681109 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -190,7 +190,7 @@ def main():
     config = {}
     if args.config_file:
         with open(args.config_file, "r", encoding="utf-8") as config_file:
-            config = yaml.safe_load(config_file)
+            config = yaml.safe_load(config_file) or {}
 
     # Build the initial environment.
     environment = Environment.from_dict(config, BASE_NAMESPACE)
-- 
2.43.0


From b2025c0627aa0c7307d74ea1dd5850d639f80ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 22/26] fix: the default output file never replaces the input
 file

An input file whose name does not contain '.mau' was overwritten, and
'.mau' was replaced anywhere in the path.
---
 mau/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 9681109..391e4c7 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -284,8 +284,10 @@ def main():
         sys.exit(1)
 
     # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
+    # The default name must never be that of the input file.
+    output_file = (
+        args.output_file
+        or f"{args.input_file.removesuffix('.mau')}.{visitor_class.extension}"
     )
 
     # Write the rendered text to
-- 
2.43.0


From 78f12b081d7be79c651f9ed4cbb5f66414c9786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:06 +0000
Subject: [PATCH 23/26] fix: an argument is classified by its first prefix only

The prefix was removed before the other prefixes were looked for, so the
tag '#*x' became a tag and a subtype, and '#@x' failed as an unknown alias.
---
 mau/parsers/arguments_parser.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..33cf3ab 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -183,13 +183,18 @@ class ArgumentsParser(BaseParser):
         # Isolate all tags.
         self.tag_nodes = self._isolate_by_prefix("#", self.unnamed_argument_nodes)
 
+        # Each argument has one role only. The prefix has been
+        # removed from the value of the isolated nodes, and what
+        # is left must not be interpreted as another prefix.
+        nodes = [i for i in self.unnamed_argument_nodes if i not in self.tag_nodes]
+
         # Isolate all subtypes.
-        subtypes = self._isolate_by_prefix(
-            "*", self.unnamed_argument_nodes, unique=True
-        )
+        subtypes = self._isolate_by_prefix("*", nodes, unique=True)
+
+        nodes = [i for i in nodes if i not in subtypes]
 
         # Isolate all aliases.
-        aliases = self._isolate_by_prefix("@", self.unnamed_argument_nodes, unique=True)
+        aliases = self._isolate_by_prefix("@", nodes, unique=True)
 
         # Extract the subtype if present.
         self.subtype = next(iter(subtypes), None)
@@ -198,11 +203,7 @@ class ArgumentsParser(BaseParser):
         self.alias = next(iter(aliases), None)
 
         # Remove tags and subtype from unnamed arguments.
-        self.unnamed_argument_nodes = [
-            i
-            for i in self.unnamed_argument_nodes
-            if i not in self.tag_nodes + subtypes + aliases
-        ]
+        self.unnamed_argument_nodes = [i for i in nodes if i not in aliases]
 
         if self.alias:
             # Get all aliases.
-- 
2.43.0


From 85630c219ef29d16f92d2e2fb93011856085b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 24/26] fix: keep a backslash at the end of the text

The end token was taken for the escaped character and the backslash
was dropped, e.g. in ':path:C:\\dir\\' or at the end of a line.
---
 mau/parsers/preprocess_variables_parser.py | 5 +++--
 mau/parsers/text_parser.py                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/preprocess_variables_parser.py b/mau/parsers/preprocess_variables_parser.py
index caa598c..cae3261 100644
--- a/mau/parsers/preprocess_variables_parser.py
+++ b/mau/parsers/preprocess_variables_parser.py
@@ -24,8 +24,9 @@ class PreprocessVariablesParser(BaseParser):
         # Check is the token is an escape backslash.
         backslash = self.tm.get_token(TokenType.LITERAL, "\\")
 
-        # Get the following character.
-        char = self.tm.get_token()
+        # Get the following character. A backslash at
+        # the end of the text doesn't escape anything.
+        char = self.tm.get_token(value_check_function=bool)
 
         # If the character is not a curly brace
         # restore the escape backslash.
diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 60fa861..9b8564e 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -259,8 +259,9 @@ class TextParser(BaseParser):
         # Drop the backslash.
         backslash = self.tm.get_token(TokenType.LITERAL, "\\")
 
-        # Get the text.
-        text = self.tm.get_token()
+        # Get the text. A backslash at the end
+        # of the text doesn't escape anything.
+        text = self.tm.get_token(value_check_function=bool)
 
         # Merge the two contexts.
         context = Context.merge_contexts(backslash.context, text.context)
-- 
2.43.0


From 4f5220acea93052b3ba1dc4848e62037e64263e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:06 +0000
Subject: [PATCH 25/26] fix: keep an escape before the end when collecting
 tokens

The end token was taken for an escaped stop token: the escape was dropped
and the end token was collected, so the argument 'C:\\dir\\' lost its
last character.
---
 mau/parsers/managers/tokens_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/managers/tokens_manager.py b/mau/parsers/managers/tokens_manager.py
index 4a52559..5c19f38 100644
--- a/mau/parsers/managers/tokens_manager.py
+++ b/mau/parsers/managers/tokens_manager.py
@@ -231,6 +231,11 @@ class TokensManager:
                 # Store the literal escape.
                 escape = self.get_token()
 
+                # At the end there is nothing to escape.
+                if self.peek_token() == stop_tokens[-1]:
+                    tokens.append(escape)
+                    break
+
                 # We keep the escaped token if it is not
                 # a stop one, or if the preserve flag is on.
                 if self.peek_token() not in stop_tokens or preserve_escaped_stop_tokens:
-- 
2.43.0


From 679ab451889a91f1771d9869a169bf472105c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:50 +0000
Subject: [PATCH 26/26] fix: raw and source blocks keep a single empty line

A token whose text is empty is false, so a block made of one empty line
was treated as a block without content.
---
 mau/parsers/document_processors/block_engines/raw.py    | 2 +-
 mau/parsers/document_processors/block_engines/source.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/raw.py b/mau/parsers/document_processors/block_engines/raw.py
index 9c06d76..d29b24f 100644
--- a/mau/parsers/document_processors/block_engines/raw.py
+++ b/mau/parsers/document_processors/block_engines/raw.py
@@ -19,7 +19,7 @@ def parse_raw_engine(
     # so we just pass it untouched in the form of
     # a RawNode per line.
 
-    if not content:
+    if content is None:
         return RawNode()
 
     # A list of content lines (raw).
diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index d396662..6447c91 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -61,7 +61,7 @@ def parse_source_engine(
     # Since Mau uses Pygments, the attribute language
     # is one of the languages supported by that tool.
 
-    if not content:
+    if content is None:
         return SourceNode()
 
     # Get the delimiter for markers
-- 
2.43.0

