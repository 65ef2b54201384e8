From 64b19bb939460eecd823bf13e465c7482494ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 01/54] fix: reload mode raised for every load once a cached
 template was deleted

os.stat raises when the file is gone; treat a deleted file as a changed one.
---
 tonnikala/loader.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 825ad9f..89b49b4 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -240,20 +240,20 @@ class FileLoader(Loader):
     def _maybe_purge_cache(self):
         """
         If enough time since last check has elapsed, check if any
-        of the cached templates has changed. If any of the template
-        files were deleted, remove that file only. If any were
-        changed, then purge the entire cache.
+        of the cached templates has changed or been deleted. If any
+        were, then purge the entire cache.
         """
 
         if self._last_reload_check + MIN_CHECK_INTERVAL > time.time():
             return
 
         for name, tmpl in list(self.cache.items()):
-            if not os.stat(tmpl.path):
-                self.cache.pop(name)
-                continue
+            try:
+                changed = os.stat(tmpl.path).st_mtime > tmpl.mtime
+            except OSError:
+                changed = True
 
-            if os.stat(tmpl.path).st_mtime > tmpl.mtime:
+            if changed:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From a34e9ff2ea42b2b9cf8ddb143fd9f5613c9cd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 02/54] fix: a template modified while it was being loaded was
 cached as current

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 89b49b4..37c8de7 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -279,8 +279,9 @@ class FileLoader(Loader):
             raise OSError(errno.ENOENT, "File not found: %s" % name)
 
         with codecs.open(path, "r", encoding="UTF-8") as f:
-            contents = f.read()
+            # before reading, so that a change made during it is noticed
             mtime = os.fstat(f.fileno()).st_mtime
+            contents = f.read()
 
         template = self.load_string(contents, filename=path)
         template.mtime = mtime
-- 
2.43.0


From b35f10eeef293909d3bc6e97f94d4fb06205a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 03/54] fix: reload mode missed files replaced by ones with an
 older mtime

---
 tonnikala/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 37c8de7..88103e3 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -249,7 +249,7 @@ class FileLoader(Loader):
 
         for name, tmpl in list(self.cache.items()):
             try:
-                changed = os.stat(tmpl.path).st_mtime > tmpl.mtime
+                changed = os.stat(tmpl.path).st_mtime != tmpl.mtime
             except OSError:
                 changed = True
 
-- 
2.43.0


From 871ae68863a3f19a9bc77fb75523ff9e12db065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 04/54] fix: a load overlapping a cache purge could cache a
 template with a stale parent

---
 tonnikala/loader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 88103e3..67f51a3 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -254,7 +254,9 @@ class FileLoader(Loader):
                 changed = True
 
             if changed:
-                self.cache.clear()
+                # a new dict, so that loads in progress in other threads
+                # do not add templates with outdated parents to the cache
+                self.cache = {}
                 break
 
         self._last_reload_check = time.time()
@@ -270,7 +272,8 @@ class FileLoader(Loader):
         if self.reload:
             self._maybe_purge_cache()
 
-        template = self.cache.get(name)
+        cache = self.cache
+        template = cache.get(name)
         if template:
             return template
 
@@ -287,7 +290,7 @@ class FileLoader(Loader):
         template.mtime = mtime
         template.path = path
 
-        self.cache[name] = template
+        cache[name] = template
         return template
 
 
-- 
2.43.0


From b49fd985716fde8dc901c3c76124b200ddac1f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 05/54] fix: Loader with an unknown syntax raised TypeError
 instead of ValueError

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 67f51a3..855b5a7 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -158,7 +158,8 @@ class Loader(object):
         parser_func = parsers.get(self.syntax)
         if not parser_func:
             raise ValueError(
-                "Invalid parser syntax %s: valid syntaxes: %r" % sorted(parsers.keys())
+                "Invalid parser syntax %s: valid syntaxes: %r"
+                % (self.syntax, sorted(parsers.keys()))
             )
 
         try:
-- 
2.43.0


From 1357da0df54abd6bfaad4df18e91ae522e99c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 06/54] fix: a surplus end tag raised AttributeError instead of
 TemplateSyntaxError

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index acbec61..2d04d30 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -272,6 +272,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
     def handle_endtag(self, name):
         self.flush_character_data()
+        if len(self.elements) == 1:
+            self.syntax_error("Unexpected end tag </%s>" % name)
+
         popped = self.elements.pop()
 
         if name.lower() != popped.name.lower():
-- 
2.43.0


From c939002d81b021e7e685319b3e5e03a4b4e5d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 07/54] fix: a second root element raised a DOM error instead
 of TemplateSyntaxError

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 2d04d30..75079f4 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -252,6 +252,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_starttag(self, name, attrs, self_closing=False):
         self.flush_character_data()
 
+        if len(self.elements) == 1 and self.doc.documentElement is not None:
+            self.syntax_error("Multiple root elements")
+
         attr_pos = self.find_attr_positions(attrs)
         el = self.doc.createElement(name)
         el.name = name
-- 
2.43.0


From 4395702df850e289dfc6719427c5cccf9559e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 08/54] fix: <!doctype html> in lower case, and malformed or
 misplaced declarations, raised ExpatError or a DOM error

The keyword is case-insensitive; what is malformed is a TemplateSyntaxError.
---
 tonnikala/syntaxes/docparser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 75079f4..9fa951f 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -6,6 +6,7 @@ from html.entities import entitydefs as html_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
 from xml.dom import minidom as dom
+from xml.parsers.expat import ExpatError
 
 from ..helpers import StringWithLocation
 from ..runtime.exceptions import TemplateSyntaxError
@@ -350,8 +351,19 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             self.elements[-1].appendChild(node)
 
     def handle_decl(self, decl):
-        dt = dom.parseString("<!%s><html/>" % decl).doctype
-        self.elements[-1].appendChild(dt)
+        if len(self.elements) > 1:
+            self.syntax_error("Misplaced document type declaration")
+
+        # the keyword is case-insensitive in HTML but not in XML
+        if decl[:7].upper() == "DOCTYPE":
+            decl = "DOCTYPE" + decl[7:]
+
+        try:
+            dt = dom.parseString("<!%s><html/>" % decl).doctype
+        except ExpatError:
+            self.syntax_error("Invalid declaration <!%s>" % decl)
+
+        self.doc.appendChild(dt)
 
     def unknown_decl(self, decl):
         self.syntax_error("Unknown declaration: %s" % decl)
-- 
2.43.0


From ca8d95a11cb4a6f2a51cbc5e1cc3916d64458a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 09/54] fix: hexadecimal character references with an upper
 case X were rejected

---
 tonnikala/syntaxes/docparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 9fa951f..7451ee8 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -331,7 +331,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_charref(self, code):
         # Encoding?
         try:
-            if code.startswith("x"):
+            if code.startswith(("x", "X")):
                 cp = int(code[1:], 16)
             else:
                 cp = int(code, 10)
-- 
2.43.0


From 1abea7df95529c5820b6201a4b4dc067ce582b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 10/54] fix: control elements and markup in title, textarea and
 other RCDATA/CDATA elements were not processed

Newer versions of html.parser treat their content as text.
---
 tonnikala/syntaxes/docparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 7451ee8..ed201cb 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -159,6 +159,11 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         "wbr",
     }
 
+    # the content of other elements is always parsed, as it can contain
+    # control elements, even if HTML does not allow markup there
+    CDATA_CONTENT_ELEMENTS = ("script", "style")
+    RCDATA_CONTENT_ELEMENTS = ()
+
     def __init__(self, filename, source):
         super(TonnikalaHTMLParser, self).__init__(**html_parser_extra_kw)
         self.filename = filename
-- 
2.43.0


From ace8f079cb6fc676b4105476b3daaed7fe7a0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 11/54] fix: text outside the root was reported at the line
 where the white space before it starts

---
 tonnikala/syntaxes/docparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index ed201cb..04a5c9f 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -190,9 +190,10 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 # Special case: just skip adding whitespace to document root,
                 # but raise hell, if trying to add other characters
                 if len(text.strip()) > 0:
+                    leading_ws = text[:-len(text.lstrip())]
                     self.syntax_error(
                         "Text data outside of root element",
-                        lineno=self.characters_start[0],
+                        lineno=self.characters_start[0] + leading_ws.count("\n"),
                     )
 
                 else:
-- 
2.43.0


From ae5397b9b3da77fe8b3714ec7aa32f6f7c40ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 12/54] fix: an unknown control attribute with an empty or no
 value was reported at line 0

---
 tonnikala/syntaxes/tonnikala.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 102a7f6..521a95e 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -52,7 +52,10 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
-                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+                self.syntax_error(
+                    "Unknown control attribute {}".format(k),
+                    node=v if v is not None else dom_node,
+                )
 
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
@@ -96,7 +99,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
     def syntax_error(self, message, node=None, lineno=None):
         if lineno is None:
-            if node:
+            if node is not None:
                 lineno = getattr(node, "position", (0, 0))[0]
             else:
                 lineno = 0
-- 
2.43.0


From 022a59da798fba8d1ed5baca56f4388ce67db77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 13/54] fix: some unterminated expressions raised
 UnboundLocalError or IndentationError instead of TemplateSyntaxError

---
 tonnikala/languages/python/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index b02a079..d60644a 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -45,6 +45,7 @@ def gen_tokens(text, pos):
     io = TokenReadLine(text, pos)
     readline = io.get_readline()
     tokens = generate_tokens(readline)
+    end_pos = pos
 
     try:
         for t_type, content, start, end, line in tokens:
@@ -53,7 +54,7 @@ def gen_tokens(text, pos):
 
     # tokenize will *throw* an exception at the end instead
     # of returning an error token under certain circumstances
-    except TokenError as e:
+    except (TokenError, IndentationError) as e:
         pos = len(text[:end_pos].rstrip())
         s = text[pos:]
         raise TemplateSyntaxError(e.args[0], node=s)
-- 
2.43.0


From 79c6c9d74f5606077953d72b6c9a5eb52715087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 14/54] fix: unknown control attributes of control or replaced
 elements, and unknown elements with py:replace, were accepted

---
 tonnikala/syntaxes/tonnikala.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 521a95e..1d5a02b 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -44,11 +44,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
     def get_guard_expression(self, dom_node):
         return self.grab_and_remove_control_attr(dom_node, "strip")
 
-    def generate_attributes_for_node(self, dom_node, ir_node):
-        attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
-        if dom_node.hasAttribute(self.xmlns):
-            dom_node.removeAttribute(self.xmlns)
-
+    def check_control_attributes(self, dom_node):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
@@ -57,6 +53,13 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
                     node=v if v is not None else dom_node,
                 )
 
+    def generate_attributes_for_node(self, dom_node, ir_node):
+        attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
+        if dom_node.hasAttribute(self.xmlns):
+            dom_node.removeAttribute(self.xmlns)
+
+        self.check_control_attributes(dom_node)
+
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
             if v is not None:
@@ -142,6 +145,12 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # TODO: add all node types in order
         generate_element = not bool(ir_node_stack)
 
+        # raise syntax error for unknown control node names
+        if generate_element and self.control_name(name) not in (None, "replace"):
+            self.syntax_error(
+                "Unknown control element <{}>".format(name), node=dom_node
+            )
+
         def make_control_node_of_attr(irtype, name):
             attr = self.grab_and_remove_control_attr(dom_node, name)
             if attr is not None:
@@ -204,6 +213,10 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         if generate_element:
             el_ir_node = Element(dom_node.tagName, guard_expression=guard_expression)
             self.generate_attributes_for_node(dom_node, el_ir_node)
+        else:
+            # an element that is not output does not have any attributes
+            self.grab_and_remove_control_attr(dom_node, "attrs")
+            self.check_control_attributes(dom_node)
 
         if not topmost:
             topmost = el_ir_node
@@ -220,12 +233,6 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             else:
                 self.add_children(self.child_iter(dom_node), bottom)
 
-        # raise syntax error for unknown control node names
-        if generate_element and self.control_name(dom_node.tagName):
-            self.syntax_error(
-                "Unknown control element <{}>".format(dom_node.tagName), node=dom_node
-            )
-
         return topmost
 
     def generate_ir_node(self, dom_node):
-- 
2.43.0


From 129b10cad874f047f8b79f9924cc567ad7f2ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 15/54] fix: content not allowed in py:extends was reported
 without a line number

---
 tonnikala/ir/generate.py        | 3 +++
 tonnikala/syntaxes/tonnikala.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 258045b..986a7f3 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -188,6 +188,9 @@ class BaseDOMIRGenerator(BaseIRGenerator):
         for dom_node in children:
             node = self.generate_ir_node(dom_node)
             if node:
+                if node.position[0] is None:
+                    node.position = getattr(dom_node, "position", node.position)
+
                 ir_node.add_child(node)
 
         self.exit_node(ir_node)
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 1d5a02b..88d7c71 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -16,6 +16,7 @@ from tonnikala.ir.nodes import (
     EmptyAttrVal,
 )
 from ..expr import handle_text_node  # TODO: move this elsewhere.
+from ..helpers import calculate_position
 from ..ir.generate import BaseDOMIRGenerator
 from .docparser import TonnikalaHTMLParser
 
@@ -247,6 +248,11 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
                 is_cdata=self.state["is_cdata"],
                 translatable=self.is_translatable(),
             )
+            # where the text proper starts
+            text = dom_node.nodeValue
+            ir_node.position = calculate_position(
+                text, len(text) - len(text.lstrip()), dom_node.position
+            )
             return ir_node
 
         if node_t == Node.COMMENT_NODE:
-- 
2.43.0


From 0c41852232d544c8a3cbdbbc19df6ff98b5e431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 16/54] fix: comments within py:extends were rejected instead
 of discarded

---
 tonnikala/ir/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index c92eacf..3047c5b 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -336,6 +336,10 @@ class Extends(ContainerNode):
         if isinstance(child, Comment):
             return
 
+        # comments that are output verbatim
+        if isinstance(child, EscapedText) and child.text.startswith("<!--"):
+            return
+
         # ignore Text nodes with whitespace-only content
         if isinstance(child, Text) and not child.text.strip():
             return
-- 
2.43.0


From 667f17557dee7091d34b1f187d55bdecbce372ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 17/54] fix: invalid block names raised SyntaxError without a
 location instead of TemplateSyntaxError

---
 tonnikala/languages/python/generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 90a65a4..0a42f3e 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -6,6 +6,7 @@ from ast import (
     Str, Name, Load, Store, Not, arg, Raise, Return
 )
 from collections.abc import Iterable
+from keyword import iskeyword
 
 from .astalyzer import FreeVarFinder
 from ..base import LanguageNode, ComplexNode, BaseGenerator
@@ -488,6 +489,11 @@ class PyBlockNode(PyComplexNode):
         name = self.name
         blockfunc_name = f"__TK__block__{name}"
         position = getattr(name, "position", (1, 0))
+        if not name.isidentifier() or iskeyword(name):
+            raise TemplateSyntaxError(
+                "Invalid block name %r" % str(name), lineno=position[0]
+            )
+
         body = get_fragment_ast(
             StringWithLocation(
                 "def %s():pass" % blockfunc_name, position[0], position[1] - 4
-- 
2.43.0


From 6c52a73793161fd5f789ffbc212e7fe3ab8c2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 18/54] fix: expressions rejected only by the compiler raised
 SyntaxError instead of TemplateSyntaxError

---
 tonnikala/loader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 855b5a7..9a501f0 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -166,6 +166,13 @@ class Loader(object):
             tree = parser_func(filename, string, translatable=self.translatable)
             gen = PythonGenerator(tree)
             code = gen.generate_ast()
+
+            try:
+                compiled = compile(code, filename, "exec")
+            except SyntaxError as e:
+                # valid by itself, but not where it is
+                raise exceptions.TemplateSyntaxError(e.msg, lineno=e.lineno)
+
             exc_info = None
         except exceptions.TemplateSyntaxError as e:
             if e.source is None:
@@ -194,8 +201,6 @@ class Loader(object):
         runtime = self.runtime()
         runtime.loader = self
         glob = _new_globals(runtime)
-
-        compiled = compile(code, filename, "exec")
         glob["__TK_template_info__"] = TemplateInfo(filename, gen.lnotab_info())
 
         exec(compiled, glob, glob)
-- 
2.43.0


From d30d08433d66f2fb0999bfdca300f217393ffd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 19/54] fix: errors in processing instructions were reported at
 wrong lines, ones without content raised ValueError

---
 tonnikala/syntaxes/docparser.py | 14 ++++++++++++--
 tonnikala/syntaxes/tonnikala.py |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 04a5c9f..4b609bc 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -8,7 +8,7 @@ from xml import sax
 from xml.dom import minidom as dom
 from xml.parsers.expat import ExpatError
 
-from ..helpers import StringWithLocation
+from ..helpers import StringWithLocation, calculate_position
 from ..runtime.exceptions import TemplateSyntaxError
 
 impl = dom.getDOMImplementation(" ")
@@ -307,12 +307,22 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
-        type_, data = data.split(None, 1)
+        pi = data
+        try:
+            type_, data = data.split(None, 1)
+        except ValueError:
+            self.syntax_error("Invalid processing instruction <?%s>" % data)
+
+        # the position of the content is needed, too
+        start = calculate_position(
+            "<?" + pi, 2 + len(pi) - len(data), self.getpos()
+        )
 
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
+        data = StringWithLocation(data.rstrip(), *start)
         node = self.doc.createProcessingInstruction(type_, data)
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 88d7c71..3368c95 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -260,7 +260,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-            ir_node = Code(dom_node.nodeValue.strip())
+            ir_node = Code(dom_node.nodeValue)
             return ir_node
 
         if node_t == Node.DOCUMENT_TYPE_NODE:
-- 
2.43.0


From 94142ab641e6e6d5be25feb514e236ed409040db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 20/54] fix: the void elements embed, track and wbr were output
 with an end tag

---
 tonnikala/ir/generate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 986a7f3..c8b83a2 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -33,6 +33,9 @@ html5_empty_tags = frozenset(
     command
     keygen
     source
+    embed
+    track
+    wbr
 """.split()
 )
 
-- 
2.43.0


From 43aa88659ef327570ad5ad64900008f75094abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 21/54] fix: py:unless was documented but rejected as unknown

---
 tonnikala/syntaxes/tonnikala.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 3368c95..3c676b7 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -4,6 +4,7 @@ from xml.dom.minidom import Node
 from tonnikala.ir.nodes import (
     Element,
     If,
+    Unless,
     For,
     Define,
     Import,
@@ -137,6 +138,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         make_control_node("extends", Extends, "href")
         make_control_node("block", Block, "name")
         make_control_node("if", If, "test")
+        make_control_node("unless", Unless, "test")
         make_control_node("for", For, "each")
         make_control_node("def", Define, "function")
         make_control_node("import", Import, "href", "alias")
@@ -161,6 +163,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         make_control_node_of_attr(Block, "block")
         make_control_node_of_attr(If, "if")
+        make_control_node_of_attr(Unless, "unless")
         make_control_node_of_attr(For, "for")
         make_control_node_of_attr(Define, "def")
         make_control_node_of_attr(With, "with")
-- 
2.43.0


From b7f9b6edadbd27693411f50997c74d3e4e8c1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 22/54] fix: js:strip and js:unless negated only the first
 operand of their expression

---
 tonnikala/languages/javascript/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 51cf064..cd8318f 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -353,6 +353,8 @@ class JsIfNode(JsComplexNode):
 
 def JsUnlessNode(self, expression):
     expression = get_fragment_ast(expression)
+    # ! binds tighter than most operators
+    expression._parens = True
     expression = UnaryOp(op="!", value=expression)
     return JsIfNode(expression)
 
-- 
2.43.0


From 533304fbd35eba11da19b9e2763c0ea746cd5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 23/54] fix: variables of js:with leaked out of it and
 overwrote outer ones

---
 tonnikala/languages/javascript/generator.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index cd8318f..c8e15e0 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -500,6 +500,17 @@ class JsWithNode(JsComplexNode):
                     "Only assignment statements allowed in With; not %s" % self.vars
                 )
 
+        # the variables are local to the scope
+        names = [
+            i.expr.left.value
+            for i in var_defs
+            if isinstance(i.expr, JSAssign)
+            and i.expr.op == "="
+            and isinstance(i.expr.left, Identifier)
+        ]
+        if names:
+            var_defs.insert(0, VarStatement([VarDecl(NameX(i)) for i in names]))
+
         body = var_defs + self.generate_child_ast(generator, self)
         return self.generate_varscope(body)
 
-- 
2.43.0


From 4ed350946acc69cccbd8aacf5f4e109643991538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 24/54] fix: js:attrs ignored attributes given as an object

---
 tonnikala/runtime/javascript.js | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index c3b6026..fe9dc7a 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -135,10 +135,16 @@ define([], function () {
     function outputAttrs(values) {
         var rv, i, vn, key, value;
 
-        if (!values || !values.length) {
+        if (!values) {
             return '';
         }
 
+        if (!Array.isArray(values)) {
+            values = Object.keys(values).map(function (name) {
+                return [name, this[name]];
+            }, values);
+        }
+
         rv = new Buffer();
         for (i = 0, vn = values.length; i < vn; i++) {
             key = values[i][0];
-- 
2.43.0


From 1a63445008092505c15cc49e6e3aee7c65053ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 25/54] fix: literal() had no effect in attributes and within
 larger expressions

---
 tonnikala/loader.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 9a501f0..0660597 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -5,6 +5,8 @@ import sys
 import time
 from typing import Iterable, Optional
 
+from markupsafe import Markup
+
 from .helpers import reraise
 from .languages.javascript.generator import Generator as JavascriptGenerator
 from .languages.python.generator import Generator as PythonGenerator
@@ -28,8 +30,20 @@ class Helpers:
 
 escape = python.escape
 
+
+def literal(value):
+    """
+    Mark the string form of the value as not to be escaped. None and
+    booleans are left alone for they have a meaning in attributes.
+    """
+    if value is None or isinstance(value, bool):
+        return value
+
+    return Markup(str(value))
+
+
 helpers = Helpers()
-helpers.literal = lambda x: x
+helpers.literal = literal
 helpers.gettext = lambda x: x
 helpers.egettext = lambda x: escape(x)
 
-- 
2.43.0


From 692fb3b68dcec7e626a280f811547f957ff354c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 26/54] fix: a comprehension variable hid the variable of the
 same name elsewhere in the template

---
 tonnikala/languages/python/astalyzer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 05382d5..7dca335 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -43,6 +43,16 @@ class FreeVarFinder(ast.NodeVisitor):
     def visit_Lambda(self, node):
         self.do_visit_function(node)
 
+    def do_visit_comprehension(self, node):
+        # a scope of its own, except for the outermost iterable
+        self.visit(node.generators[0].iter)
+        subscoper = FreeVarFinder()
+        subscoper.generic_visit(node)
+        self.vars = self.vars.union(subscoper.get_free_variables())
+
+    visit_ListComp = visit_SetComp = do_visit_comprehension
+    visit_DictComp = visit_GeneratorExp = do_visit_comprehension
+
     def visit_FunctionDef(self, node):
         self.generated.add(node.name)
         self.do_visit_function(node)
-- 
2.43.0


From 59618b45ceeff5c8c3a5c645d734dd9fe3dcadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 27/54] fix: template functions and blocks named like a Python
 builtin were replaced by it

---
 tonnikala/runtime/python.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 9716492..fb9653d 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -1,3 +1,4 @@
+import builtins
 from collections.abc import Mapping
 from markupsafe import escape
 
@@ -77,14 +78,20 @@ def bind(context, block=False):
     Given the context, returns a decorator wrapper;
     the binder replaces the wrapped func with the
     value from the context OR puts this function in
-    the context with the name.
+    the context with the name. The python builtins
+    in the context do not count.
     """
 
+    def is_unbound(name):
+        return name not in context or (
+            context[name] is getattr(builtins, name, context)
+        )
+
     if block:
 
         def decorate(func):
             name = func.__name__.replace("__TK__block__", "")
-            if name not in context:
+            if is_unbound(name):
                 context[name] = func
             return context[name]
 
@@ -92,7 +99,7 @@ def bind(context, block=False):
 
     def decorate(func):
         name = func.__name__
-        if name not in context:
+        if is_unbound(name):
             context[name] = func
         return context[name]
 
-- 
2.43.0


From 9f55b3d06d7ab599c04288b7e3649dcacc41cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 28/54] fix: expressions with leading white space, as in ${ x
 }, were rejected

---
 tonnikala/languages/python/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 0a42f3e..814506a 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -103,6 +103,8 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     if not isinstance(expression, str):
         return expression
 
+    # leading white space would be taken for indentation
+    expression = expression[len(expression) - len(expression.lstrip()):]
     position = getattr(expression, "position", (1, 0))
     position = position[0] + adjust[0], position[1] + adjust[1]
 
-- 
2.43.0


From d99fbcc2940b5b2d2af373d2aa8c4f128601074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 29/54] fix: an expression was rejected if its closing brace
 was indented on a line of its own

---
 tonnikala/languages/python/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index d60644a..1457394 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -70,15 +70,16 @@ def parse_brace_enclosed_expression(text, start_pos, position):
     n_braces = 0
     valid = False
 
-    tokens = gen_tokens(text, start_pos + 2)
+    # the opening brace is included, for line ends and indentation
+    # are not significant within braces
+    tokens = gen_tokens(text, start_pos + 1)
     for t_type, content, end_pos in tokens:
         if content == "}":
+            n_braces -= 1
             if n_braces <= 0:
                 valid = True
                 break
 
-            n_braces -= 1
-
         elif content == "{":
             n_braces += 1
 
-- 
2.43.0


From 7a8611691c669581119c761140181104cdc4178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 30/54] fix: doubled braces and brackets in f-strings were
 taken for the end or nesting of an interpolation

---
 tonnikala/languages/python/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 1457394..70576c3 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -74,6 +74,9 @@ def parse_brace_enclosed_expression(text, start_pos, position):
     # are not significant within braces
     tokens = gen_tokens(text, start_pos + 1)
     for t_type, content, end_pos in tokens:
+        if t_type != token.OP:
+            continue
+
         if content == "}":
             n_braces -= 1
             if n_braces <= 0:
@@ -110,10 +113,10 @@ def parse_unenclosed_expression(text, start_pos, position):
 
         # a braced expression is started, consume it
         for t_type, content, end_pos in gen_tokens(text, pos):
-            if content in braces:
+            if t_type == token.OP and content in braces:
                 pars.append(content)
 
-            elif content in braces.values():
+            elif t_type == token.OP and content in braces.values():
                 last = pars.pop()
                 if braces[last] != content:
                     raise TemplateSyntaxError(
-- 
2.43.0


From ab006087df07c400bd52067e39e520412874ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 31/54] fix: the pure-Python buffer output a part of an
 attribute that failed, and rejected names the C one accepts

---
 tonnikala/runtime/python.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index fb9653d..e47998b 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -2,8 +2,6 @@ import builtins
 from collections.abc import Mapping
 from markupsafe import escape
 
-NoneType = type(None)
-
 
 class _TKPythonBufferImpl(object):
     def __init__(self):
@@ -21,16 +19,12 @@ class _TKPythonBufferImpl(object):
         self.output = do_output
 
         def output_boolean_attr(name, value):
-            t = type(value)
-            if t in (bool, NoneType):
-                value and do_output(" " + name + '="' + name + '"')
-
-                # skip on false, None
+            # skip on false, None
+            if value is None or value is False:
                 return
 
-            do_output(" " + name + '="')
-            do_output(escape(value))
-            do_output('"')
+            value = name if value is True else escape(value)
+            do_output(" ", name, '="', value, '"')
 
         self.output_boolean_attr = output_boolean_attr
 
-- 
2.43.0


From 255cb23c6eeb4277f48ee3091b267ba9b9d97be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 32/54] fix: the C buffer kept values that failed to be escaped
 alive and rejected an empty ** mapping

---
 tonnikala/runtime/_buffer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index f2e4627..9582fd7 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -87,6 +87,7 @@ _do_append(Buffer *self, PyObject *args) {
                     return NULL;
                 }
                 if (PyList_Append(self->buffer_list, obj) != 0) {
+                    Py_DECREF(obj);
                     return NULL;
                 }
                 // it is a new reference
@@ -107,7 +108,7 @@ _do_append(Buffer *self, PyObject *args) {
 static PyObject *
 Buffer_call(PyObject *self, PyObject *args, PyObject *other)
 {
-    if (other != NULL) {
+    if (other != NULL && PyDict_GET_SIZE(other) != 0) {
         PyErr_SetString(PyExc_TypeError,
             "__call__ does not take keyword arguments");
 
@@ -150,19 +151,23 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         if (call == NULL) {
             PyErr_SetString(PyExc_TypeError,
                 "escape function is not callable");
-            return NULL;
+            goto error;
         }
 
         PyObject *escape_args = PyTuple_New(1);
+        if (escape_args == NULL) {
+            goto error;
+        }
+
         Py_INCREF(value);
         PyTuple_SET_ITEM(escape_args, 0, value);
 
         PyObject *result = (*call)(self->escape_func, escape_args, NULL);
+        Py_DECREF(escape_args);
         if (result == NULL) {
             goto error;
         }
 
-        Py_DECREF(escape_args);
         value = result;
     }
 
@@ -185,6 +190,7 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
 
     return rv;
 error:
+    Py_XDECREF(tmp);
     return NULL;
 }
 
-- 
2.43.0


From d84cc3243f49634c0391df943dbfa3f7e43bb091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 33/54] fix: failures converting or escaping values, or
 negating conditions, were reported at wrong lines

---
 tonnikala/languages/python/generator.py | 35 ++++++++++++-------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 814506a..a50d332 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -1,7 +1,7 @@
 import ast
 import sys
 from ast import (
-    Call, FunctionDef, Pass, UnaryOp, iter_child_nodes, literal_eval,
+    Call, FunctionDef, Pass, UnaryOp, copy_location, iter_child_nodes, literal_eval,
     NodeVisitor, If, Expr, Assign, Attribute,
     Str, Name, Load, Store, Not, arg, Raise, Return
 )
@@ -257,7 +257,10 @@ class PyExpressionNode(PythonNode):
         return [self.get_expression()]
 
     def get_expression(self):
-        return simple_call(NameX("__TK__escape"), [self.get_unescaped_expression()])
+        expression = self.get_unescaped_expression()
+        return copy_location(
+            simple_call(NameX("__TK__escape"), [expression]), expression
+        )
 
     def get_unescaped_expression(self):
         return get_fragment_ast(self.expr)
@@ -325,7 +328,7 @@ class PyIfNode(PyComplexNode):
 
 def PyUnlessNode(self, expression):
     expression = get_fragment_ast(expression)
-    expression = UnaryOp(op=Not(), operand=expression)
+    expression = copy_location(UnaryOp(op=Not(), operand=expression), expression)
     return PyIfNode(expression)
 
 
@@ -373,21 +376,16 @@ class PyAttributeNode(PyComplexNode):
             # expression, these are handled by
             # __TK__output.output_boolean_attr,
             # given the name, and unescaped expression!
-            return [
-                Expr(
-                    simple_call(
-                        func=Attribute(
-                            value=NameX("__TK__output"),
-                            attr="output_boolean_attr",
-                            ctx=Load(),
-                        ),
-                        args=[
-                            Str(s=self.name),
-                            self.children[0].get_unescaped_expression(),
-                        ],
-                    )
-                )
-            ]
+            expression = self.children[0].get_unescaped_expression()
+            output = simple_call(
+                func=Attribute(
+                    value=NameX("__TK__output"),
+                    attr="output_boolean_attr",
+                    ctx=Load(),
+                ),
+                args=[Str(s=self.name), expression],
+            )
+            return [Expr(copy_location(output, expression))]
 
         # otherwise just return the output for the attribute code
         # like before
@@ -407,6 +405,7 @@ class PyAttrsNode(PythonNode):
         expression = get_fragment_ast(self.expression)
 
         output = simple_call(NameX("__TK__output_attrs"), args=[expression])
+        copy_location(output, expression)
         return self.generate_output_ast([output], generator, parent)
 
 
-- 
2.43.0


From d301bd509ad3671022ea2b575ce90f1b1cf1077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 34/54] fix: failures converting the argument of literal() were
 reported at the line of an earlier output

---
 tonnikala/languages/python/generator.py | 41 -------------------------
 1 file changed, 41 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index a50d332..4c8d7dc 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -542,12 +542,6 @@ class PyExtendsNode(PyComplexNode):
         return self.generate_child_ast(generator, self)
 
 
-def ast_equals(tree1, tree2):
-    x1 = ast.dump(tree1)
-    x2 = ast.dump(tree2)
-    return x1 == x2
-
-
 def coalesce_outputs(tree):
     """
     Coalesce the constant output expressions
@@ -607,41 +601,6 @@ def coalesce_outputs(tree):
 
             NodeVisitor.visit(self, node)
 
-        def check(self, node):
-            """
-            Coalesce __TK__output(__TK__escape(literal(x))) into
-            __TK__output(x).
-            """
-            if not ast_equals(node.func, NameX("__TK__output")):
-                return
-
-            for i in range(len(node.args)):
-                arg1 = node.args[i]
-                if not arg1.__class__.__name__ == "Call":
-                    continue
-
-                if not ast_equals(arg1.func, NameX("__TK__escape")):
-                    continue
-
-                if len(arg1.args) != 1:
-                    continue
-
-                arg2 = arg1.args[0]
-                if not arg2.__class__.__name__ == "Call":
-                    continue
-
-                if not ast_equals(arg2.func, NameX("literal")):
-                    continue
-
-                if len(arg2.args) != 1:
-                    continue
-
-                node.args[i] = arg2.args[0]
-
-        def visit_Call(self, node):
-            self.check(node)
-            self.generic_visit(node)
-
     OutputCoalescer().visit(tree)
 
 
-- 
2.43.0


From 23db0f8a015fa0aadfecbd4d76e3168112acedef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 35/54] fix: chameleon templates with a doctype or attributes
 without a value were rejected

---
 tonnikala/syntaxes/chameleon.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 0e0d1a4..68433b7 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -1,6 +1,8 @@
 """XML parser"""
 
-from tonnikala.ir.nodes import Element, If, For, EscapedText, Expression
+from tonnikala.ir.nodes import (
+    Element, If, For, EscapedText, Expression, EmptyAttrVal
+)
 from xml.dom.minidom import Node
 
 from tonnikala.expr import handle_text_node  # TODO: move this elsewhere.
@@ -17,7 +19,10 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
 
     def generate_attributes_for_node(self, dom_node, ir_node):
         attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
-        attrs = [(k, handle_text_node(v)) for (k, v) in dom_node.attributes.items()]
+        attrs = [
+            (k, handle_text_node(v) if v is not None else EmptyAttrVal())
+            for (k, v) in dom_node.attributes.items()
+        ]
         self.generate_attributes(ir_node, attrs=attrs, dynamic_attrs=attrs_node)
 
     def is_control_name(self, name, to_match):
@@ -135,6 +140,10 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
+        if node_t == Node.DOCUMENT_TYPE_NODE:
+            ir_node = EscapedText(dom_node.toxml())
+            return ir_node
+
         raise ValueError("Unhandled node type %d" % node_t)
 
 
-- 
2.43.0


From 4dda897eebde0fe0c05d001a72c0573090abea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 36/54] fix: functions of a derived template hid those of
 templates imported by its ancestors

---
 tonnikala/languages/python/generator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 4c8d7dc..bab8235 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -663,8 +663,9 @@ class PyRootNode(PyComplexNode):
         if extended:
             code += "__TK__parent_template = __TK__runtime.load(%r)\n" % extended
 
-        code += "def __TK__binder(__TK__context):\n"
-        code += "    __TK__original_context = __TK__context.copy()\n"
+        code += "def __TK__binder(__TK__context, __TK__original_context=None):\n"
+        code += "    if __TK__original_context is None:\n"
+        code += "        __TK__original_context = __TK__context.copy()\n"
         code += "    __TK__bind = __TK__runtime.bind(__TK__context)\n"
         code += (
             "    __TK__bindblock = __TK__runtime.bind(__TK__context, " "block=True)\n"
@@ -686,7 +687,9 @@ class PyRootNode(PyComplexNode):
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
-            code += "    __TK__parent_template.binder_func(__TK__context)\n"
+            code += "    __TK__parent_template.binder_func(\n"
+            code += "        __TK__context, __TK__original_context\n"
+            code += "    )\n"
 
         for i in free_variables:
             code += '    if "%s" in __TK__context:\n' % i
-- 
2.43.0


From 5dff5da20aa044e821050e267578248587b3c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 37/54] fix: default values of a top-level function's arguments
 could not use variables of the context

---
 tonnikala/languages/python/generator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index bab8235..f7c2d20 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -683,6 +683,14 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
+        # the default values of arguments need these; those that are functions
+        # of the template or its parents only exist afterwards
+        bind_free_variables = ""
+        for i in free_variables:
+            bind_free_variables += '    if "%s" in __TK__context:\n' % i
+            bind_free_variables += '        %s = __TK__context["%s"]\n' % (i, i)
+
+        code += bind_free_variables
         code += "    raise\n"  # a placeholder
 
         if extended:
@@ -691,9 +699,7 @@ class PyRootNode(PyComplexNode):
             code += "        __TK__context, __TK__original_context\n"
             code += "    )\n"
 
-        for i in free_variables:
-            code += '    if "%s" in __TK__context:\n' % i
-            code += '        %s = __TK__context["%s"]\n' % (i, i)
+        code += bind_free_variables
 
         code += "    return __TK__context\n"
 
-- 
2.43.0


From 6ef6557a2a174a84054ab790f97525e40dcdfb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 38/54] fix: py:with and py:import were at a wrong line in
 tracebacks

---
 tonnikala/languages/python/generator.py | 31 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index f7c2d20..f0d3a6f 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -202,13 +202,13 @@ class PythonNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
+    def generate_varscope(self, body, position):
         name = gen_name("variable_scope")
+        call = simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
+        call.lineno, call.col_offset = position
         rv = [
             self.make_function(name, body, arguments=["__TK__output", "__TK__escape"]),
-            Expr(
-                simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
-            ),
+            Expr(call),
         ]
         return rv
 
@@ -335,20 +335,24 @@ def PyUnlessNode(self, expression):
 class PyImportNode(PythonNode):
     def __init__(self, href, alias):
         super(PyImportNode, self).__init__()
+        self.position = getattr(href, "position", (1, 0))
         self.href = str(href)
         self.alias = str(alias)
 
     def generate_ast(self, generator, parent):
+        value = simple_call(
+            func=Attribute(
+                value=NameX("__TK__runtime", store=False),
+                attr="import_defs",
+                ctx=Load(),
+            ),
+            args=[NameX("__TK__original_context"), Str(s=self.href)],
+        )
+        value.lineno, value.col_offset = self.position
+        value.end_lineno, value.end_col_offset = self.position
         node = Assign(
             targets=[NameX(str(self.alias), store=True)],
-            value=simple_call(
-                func=Attribute(
-                    value=NameX("__TK__runtime", store=False),
-                    attr="import_defs",
-                    ctx=Load(),
-                ),
-                args=[NameX("__TK__original_context"), Str(s=self.href)],
-            ),
+            value=value,
         )
 
         if parent.is_top_level:
@@ -527,7 +531,8 @@ class PyWithNode(PyComplexNode):
     def generate_ast(self, generator, parent=None):
         var_defs = get_fragment_ast(self.vars, "exec")
         body = var_defs + self.generate_child_ast(generator, self)
-        return self.generate_varscope(body)
+        position = getattr(self.vars, "position", (1, 0))
+        return self.generate_varscope(body, position)
 
 
 class PyExtendsNode(PyComplexNode):
-- 
2.43.0


From 4350b17da1efa924a5c36f5abde11f43d8b11cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 39/54] fix: loading failed when a generated call was located
 after the end of its parent

---
 tonnikala/languages/python/generator.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index f0d3a6f..b3336da 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -99,6 +99,16 @@ def adjust_locations(ast_node, first_lineno, first_offset):
     _fix(ast_node)
 
 
+def set_location(node, position):
+    """
+    Locate a generated node; the end needs to be set too as it must not
+    be before the start
+    """
+
+    node.lineno, node.col_offset = position
+    node.end_lineno, node.end_col_offset = position
+
+
 def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     if not isinstance(expression, str):
         return expression
@@ -163,7 +173,7 @@ class PythonNode(LanguageNode):
         rv = []
         for i in code:
             if position is not None:
-                i.lineno, i.col_offset = position
+                set_location(i, position)
 
             e = Expr(simple_call(func, [i]))
             e.output_args = [i]
@@ -205,7 +215,7 @@ class PythonNode(LanguageNode):
     def generate_varscope(self, body, position):
         name = gen_name("variable_scope")
         call = simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
-        call.lineno, call.col_offset = position
+        set_location(call, position)
         rv = [
             self.make_function(name, body, arguments=["__TK__output", "__TK__escape"]),
             Expr(call),
@@ -348,8 +358,7 @@ class PyImportNode(PythonNode):
             ),
             args=[NameX("__TK__original_context"), Str(s=self.href)],
         )
-        value.lineno, value.col_offset = self.position
-        value.end_lineno, value.end_col_offset = self.position
+        set_location(value, self.position)
         node = Assign(
             targets=[NameX(str(self.alias), store=True)],
             value=value,
-- 
2.43.0


From bfa906e507ffdc04f18013095a1d4e0c0f9ce72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 40/54] fix: loops and conditions without content could not be
 compiled

---
 tonnikala/languages/python/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index b3336da..41436b5 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -332,7 +332,8 @@ class PyIfNode(PyComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(test=test, body=self.generate_child_ast(generator, self), orelse=[])
+        body = self.generate_child_ast(generator, self) or [Pass()]
+        node = If(test=test, body=body, orelse=[])
         return [node]
 
 
@@ -437,7 +438,7 @@ class PyForNode(PyComplexNode):
             "exec",
         )
         for_node = body[0]
-        for_node.body = self.generate_child_ast(generator, self)
+        for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From 63586f471282ab5428e63a9b90057e6a940f0ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 41/54] fix: a block was not rendered where a local variable
 had its name

---
 tonnikala/languages/python/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 41436b5..21bc563 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -521,9 +521,9 @@ class PyBlockNode(PyComplexNode):
         generator.add_block(str(name), def_node, blockfunc_name)
 
         if not is_extended:
-            # call the block in place
+            # call the block in place, even where a local variable hides its name
             return self.generate_output_ast(
-                [simple_call(NameX(str(self.name)), [])],
+                [simple_call(NameX(blockfunc_name), [])],
                 self,
                 parent,
                 position=position,
-- 
2.43.0


From c5e26b6a081ae9eec2725a926cbdd62bb182cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 42/54] fix: literal() was not available in JavaScript
 templates

---
 tonnikala/languages/javascript/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index c8e15e0..136beab 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -703,6 +703,10 @@ class JsRootNode(JsComplexNode):
             if i.startswith("__TK__") or i in ALWAYS_BUILTINS:
                 free_variables.discard(i)
 
+        # provided by the runtime
+        if "literal" not in generator.top_level_names:
+            free_variables.discard("literal")
+
         # discard the names of toplevel funcs from free variables
         # free_variables.difference_update(generator.top_level_names)
 
-- 
2.43.0


From 5d973dca30343b46c3790b2f931d56b4cd53d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 43/54] fix: JavaScript expressions starting with an object or
 a function were not parsed as expressions

---
 tonnikala/languages/javascript/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 136beab..ba05300 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -1,4 +1,5 @@
 import json
+import re
 
 from slimit import ast
 from slimit.ast import (
@@ -156,6 +157,10 @@ class FreeVarFinder(object):
 
 def parse(expression, mode="eval"):
     if mode == "eval":
+        # not a block or a function declaration
+        if re.match(r"\s*(\{|function\b)", expression):
+            expression = "(%s)" % expression
+
         return Parser().parse(expression).children()[0].expr
     elif mode == "exec":
         return Parser().parse(expression).children()
-- 
2.43.0


From e50118756eb87ac0fd6fcbdeb379240351148d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 44/54] fix: an extending JavaScript template without
 definitions could not be compiled

---
 tonnikala/languages/javascript/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index ba05300..9fccb88 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -738,7 +738,8 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
-        code += "        var %s;\n" % ",\n            ".join(free_variables)
+        if free_variables:
+            code += "        var %s;\n" % ",\n            ".join(free_variables)
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
-- 
2.43.0


From a30b76c4d031e8267467510b5dbcdedafd3da20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 45/54] fix: &apos; and the other entities of HTML5 were
 rejected in text

---
 tonnikala/syntaxes/docparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 4b609bc..76634bf 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -2,7 +2,7 @@
 
 import sys
 from html import parser as html_parser
-from html.entities import entitydefs as html_entity_defs
+from html.entities import entitydefs as html_entity_defs, html5 as html5_entities
 from io import StringIO, BytesIO
 from xml import sax
 from xml.dom import minidom as dom
@@ -338,7 +338,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_entityref(self, name):
         # Encoding?
         try:
-            content = str(html_entity_defs[name])
+            content = html_entity_defs.get(name) or html5_entities[name + ";"]
         except KeyError:
             self.syntax_error("Unknown HTML entity &%s;" % name)
 
-- 
2.43.0


From 5ee8e2b3b1edde8e7a8712b5aed1cd9195b340dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 46/54] fix: the contents of constantly false conditions were
 neither checked nor their blocks defined

---
 tonnikala/languages/python/generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 21bc563..c4dd1b2 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -326,12 +326,11 @@ class PyIfNode(PyComplexNode):
         test = get_fragment_ast(self.expression)
         boolean = static_expr_to_bool(test)
 
-        if boolean is False:
-            return []
-
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
+        # if known to be false, the contents are still to be checked, and
+        # the blocks in them defined; the Python compiler omits the rest
         body = self.generate_child_ast(generator, self) or [Pass()]
         node = If(test=test, body=body, orelse=[])
         return [node]
-- 
2.43.0


From ae2f4e0c10ed5ac9fff15eb2aeb6dea26998c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 47/54] fix: concurrent loads of a template could return
 different template objects

---
 tonnikala/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 0660597..aa874a0 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -310,8 +310,8 @@ class FileLoader(Loader):
         template.mtime = mtime
         template.path = path
 
-        cache[name] = template
-        return template
+        # another thread may have been faster
+        return cache.setdefault(name, template)
 
 
 class JSLoader(object):
-- 
2.43.0


From 94bc162c90eb2274d37c09aaaa2bb8609f782929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 48/54] fix: extraction aborted at or missed messages in all
 but the simplest expressions

---
 tonnikala/i18n/__init__.py | 48 ++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 68d1e08..1e80f66 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -1,3 +1,4 @@
+import ast
 import io
 
 from lingua.extractors import Extractor
@@ -7,6 +8,35 @@ from tonnikala.ir.nodes import TranslatableText, Expression
 from tonnikala.loader import parsers
 
 
+def constant_call(node):
+    """
+    The source of the given call with anything but its constant string
+    arguments replaced by a name, or None for other nodes. Lingua understands
+    only simple calls: with any other expression within its arguments it
+    misses messages or aborts.
+    """
+    if not isinstance(node, ast.Call):
+        return None
+
+    name = getattr(node.func, "id", None) or getattr(node.func, "attr", None)
+    if name is None:
+        return None
+
+    def argument(value):
+        try:
+            value = ast.literal_eval(value)
+        except (ValueError, TypeError):
+            return "dynamic"
+
+        return repr(value) if isinstance(value, str) else "dynamic"
+
+    arguments = [argument(i) for i in node.args]
+    arguments += [
+        "%s=%s" % (i.arg, argument(i.value)) for i in node.keywords if i.arg
+    ]
+    return "%s(%s)" % (name, ", ".join(arguments))
+
+
 class TonnikalaExtractor(Extractor):
     "Extract strings from tonnikala templates, defaulting to Python expressions"
 
@@ -15,10 +45,20 @@ class TonnikalaExtractor(Extractor):
 
     def parse_python(self, node, filename, lineno, options):
         start_line = (node.position[0] or 1) + lineno
-        for message in _extract_python(filename, node.expression, options, start_line):
-            yield Message(
-                *message[:6], location=(filename, lineno + message.location[1])
-            )
+        try:
+            tree = ast.parse("(%s\n)" % node.expression, mode="eval")
+        except SyntaxError:
+            # not a template that could be rendered
+            return
+
+        for call in ast.walk(tree):
+            source = constant_call(call)
+            if source is None:
+                continue
+
+            call_line = start_line + call.lineno - 1
+            for message in _extract_python(filename, source, options):
+                yield Message(*message[:6], location=(filename, call_line))
 
     def __call__(self, filename, options, fileobj=None, lineno=0):
         self.filename = filename
-- 
2.43.0


From c5318a4d6807b2a3dfa1e9b080b8a2483dc0d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 49/54] fix: messages with CRLF line endings were extracted
 from files as other messages

---
 tonnikala/i18n/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 1e80f66..d52c029 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -63,7 +63,7 @@ class TonnikalaExtractor(Extractor):
     def __call__(self, filename, options, fileobj=None, lineno=0):
         self.filename = filename
         if fileobj is None:
-            fileobj = io.open(filename, encoding="utf-8")
+            fileobj = io.open(filename, encoding="utf-8", newline="")
 
         parser_func = parsers.get(self.syntax)
         source = fileobj.read()
-- 
2.43.0


From 1bc7d9437ed60601f8c6a2c05a3d8a96f3bb8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 50/54] fix: names assigned in a class body in template code
 hid context variables

---
 tonnikala/languages/python/astalyzer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 7dca335..c109129 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -57,6 +57,17 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    def visit_ClassDef(self, node):
+        # the names assigned in its body are its attributes
+        self.generated.add(node.name)
+        for i in node.decorator_list + node.bases + node.keywords:
+            self.visit(i)
+
+        for i in node.body:
+            subscoper = FreeVarFinder()
+            subscoper.visit(i)
+            self.vars = self.vars.union(subscoper.vars)
+
     def visit_arguments(self, node):
         pass
 
-- 
2.43.0


From 691c724b6505bca328ef8ef649eeb96c1e7ed621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 51/54] fix: names assigned in an async function in template
 code hid context variables

---
 tonnikala/languages/python/astalyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index c109129..70d6f6f 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -57,6 +57,8 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+
     def visit_ClassDef(self, node):
         # the names assigned in its body are its attributes
         self.generated.add(node.name)
-- 
2.43.0


From 13183098b5f34f4bcd7536ea25a258d5da1980ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:51 +0000
Subject: [PATCH 52/54] fix: the plural form of a message was given to Babel
 before its singular form

---
 tonnikala/i18n/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index d52c029..ab100d2 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -114,7 +114,7 @@ def extract_tonnikala(fileobj, keywords, comment_tags, options):
 
         prefix = ""
         if msg.msgid_plural:
-            msgid = (msg.msgid_plural,) + msgid
+            msgid += (msg.msgid_plural,)
             prefix = "n"
 
         if msg.msgctxt:
-- 
2.43.0


From f22e6182bf22e7cc4e860e9f589bc1310c829b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 53/54] fix: of attributes that differ in the prefix only, such
 as lang and xml:lang, all but the last were lost

---
 tonnikala/syntaxes/docparser.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 76634bf..4a4f4c4 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -18,6 +18,22 @@ if sys.version_info >= (3, 4):
     html_parser_extra_kw["convert_charrefs"] = False
 
 
+def set_attribute(el, name, value):
+    """
+    Set the attribute of the DOM element. Unlike `el.setAttribute`, does not
+    take attributes that differ in the prefix only for the same attribute
+    """
+
+    if el.hasAttribute(name):
+        el.setAttribute(name, value)
+        return
+
+    attr = dom.Attr(name, localName=name)
+    attr.value = value
+    attr.ownerDocument = el.ownerDocument
+    el.setAttributeNode(attr)
+
+
 class TonnikalaXMLParser(sax.ContentHandler):
     def __init__(self, filename, source):
         super(TonnikalaXMLParser, self).__init__()
@@ -64,7 +80,7 @@ class TonnikalaXMLParser(sax.ContentHandler):
         el = self.doc.createElement(name)
         el.lineno = self._parser.getLineNumber()
         for k, v in attrs.items():
-            el.setAttribute(k, v)
+            set_attribute(el, k, v)
 
         self.elements[-1].appendChild(el)
         self.elements.append(el)
@@ -272,7 +288,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 l, o = attr_pos[k]
                 v = StringWithLocation(v, l, o)
 
-            el.setAttribute(k, v)
+            set_attribute(el, k, v)
 
         self.elements[-1].appendChild(el)
         self.elements.append(el)
-- 
2.43.0


From b5da79387666bb1d8b6db67ab0634e865db9a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 54/54] fix: character references that HTML gives another
 meaning, such as &#128;, were taken literally in text

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 4a4f4c4..094b2d8 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -1,5 +1,6 @@
 """XML parser"""
 
+import html
 import sys
 from html import parser as html_parser
 from html.entities import entitydefs as html_entity_defs, html5 as html5_entities
@@ -369,6 +370,8 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 cp = int(code, 10)
 
             content = chr(cp)
+            # HTML gives some of these another meaning; &#128; is the euro sign
+            content = html.unescape("&#%d;" % cp) or content
             return self.handle_data(content)
         except Exception as e:
             self.syntax_error("Invalid HTML charref &#%s;: %s" % (code, e))
-- 
2.43.0

