From 46bb72dcf251c8e5d33adfed13ea00d4b962c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 01/57] fix: give generated block calls and for/def headers
 valid AST locations

Blocks nested in another scope, and for/def/block values near the start of
a line, made compile() raise ValueError (invalid line range, or negative
column) instead of compiling the template.
---
 tonnikala/languages/python/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 90a65a4..aca388e 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -84,8 +84,10 @@ def adjust_locations(ast_node, first_lineno, first_offset):
                 col = getattr(node, col_offset_attr)
 
                 # adjust the offset on the first line
+                # (synthetic prefixes such as `for ` can move it
+                # before the beginning of the line)
                 if lineno == 1:
-                    col += first_offset
+                    col = max(col + first_offset, 0)
 
                 lineno += line_delta
 
@@ -161,6 +163,7 @@ class PythonNode(LanguageNode):
         for i in code:
             if position is not None:
                 i.lineno, i.col_offset = position
+                i.end_lineno, i.end_col_offset = position
 
             e = Expr(simple_call(func, [i]))
             e.output_args = [i]
-- 
2.43.0


From 95d4791cde251d4d983f9cad6a9c484990418cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 02/57] fix: parse markup and control elements inside title and
 textarea

Newer html.parser treats title, textarea, iframe and others as raw text,
so control elements within them were written out escaped.
---
 tonnikala/syntaxes/docparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index acbec61..216796e 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -158,6 +158,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         "wbr",
     }
 
+    # templates can have markup and control elements within all other
+    # elements; only these two have a raw text content model here,
+    # no matter which ones the html.parser at hand knows of.
+    CDATA_CONTENT_ELEMENTS = ("script", "style")
+    RCDATA_CONTENT_ELEMENTS = ()
+
     def __init__(self, filename, source):
         super(TonnikalaHTMLParser, self).__init__(**html_parser_extra_kw)
         self.filename = filename
-- 
2.43.0


From 92feb50cfbf1790f4059c964f16d4b063c532275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 03/57] fix: negate the whole js:strip expression

js:strip="a || b" was generated as `!a || b`.
---
 tonnikala/languages/javascript/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 51cf064..6bde8d9 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -353,6 +353,7 @@ class JsIfNode(JsComplexNode):
 
 def JsUnlessNode(self, expression):
     expression = get_fragment_ast(expression)
+    expression._parens = True
     expression = UnaryOp(op="!", value=expression)
     return JsIfNode(expression)
 
-- 
2.43.0


From 6e456a5cdebf784bb14473442da524a0bfa6a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 04/57] fix: allow empty py:if and py:for elements

An if or for without contents raised ValueError (empty body).
---
 tonnikala/languages/python/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index aca388e..38cace8 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -319,7 +319,8 @@ class PyIfNode(PyComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(test=test, body=self.generate_child_ast(generator, self), orelse=[])
+        body = self.generate_child_ast(generator, self) or [Pass()]
+        node = If(test=test, body=body, orelse=[])
         return [node]
 
 
@@ -425,7 +426,7 @@ class PyForNode(PyComplexNode):
             "exec",
         )
         for_node = body[0]
-        for_node.body = self.generate_child_ast(generator, self)
+        for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From bf4ba65b6150a333249a453f530187370d6dc101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 05/57] fix: implement py:unless and js:unless

The README documents them, but the element and the attribute were rejected
as unknown.
---
 tonnikala/syntaxes/tonnikala.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 102a7f6..373e346 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -4,6 +4,7 @@ from xml.dom.minidom import Node
 from tonnikala.ir.nodes import (
     Element,
     If,
+    Unless,
     For,
     Define,
     Import,
@@ -130,6 +131,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         make_control_node("extends", Extends, "href")
         make_control_node("block", Block, "name")
         make_control_node("if", If, "test")
+        make_control_node("unless", Unless, "test")
         make_control_node("for", For, "each")
         make_control_node("def", Define, "function")
         make_control_node("import", Import, "href", "alias")
@@ -148,6 +150,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         make_control_node_of_attr(Block, "block")
         make_control_node_of_attr(If, "if")
+        make_control_node_of_attr(Unless, "unless")
         make_control_node_of_attr(For, "for")
         make_control_node_of_attr(Define, "def")
         make_control_node_of_attr(With, "with")
-- 
2.43.0


From a7277f6c5615ddd7b628dae6ee9c1e04d977aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 06/57] fix: let a py:def or py:block have the name of a Python
 builtin

The builtin of the template context took its place, so the README's own
$copyright() example printed site's copyright notice.
---
 tonnikala/runtime/python.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 9716492..6063a28 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -1,3 +1,4 @@
+import builtins
 from collections.abc import Mapping
 from markupsafe import escape
 
@@ -72,6 +73,19 @@ def output_attrs(values):
     return rv
 
 
+_MISSING = object()
+
+
+def _is_bound(context, name):
+    """
+    Tell whether the context has another value for the name than
+    the Python builtin that every template context starts out with.
+    """
+
+    value = context.get(name, _MISSING)
+    return value is not _MISSING and value is not getattr(builtins, name, _MISSING)
+
+
 def bind(context, block=False):
     """
     Given the context, returns a decorator wrapper;
@@ -84,7 +98,7 @@ def bind(context, block=False):
 
         def decorate(func):
             name = func.__name__.replace("__TK__block__", "")
-            if name not in context:
+            if not _is_bound(context, name):
                 context[name] = func
             return context[name]
 
@@ -92,7 +106,7 @@ def bind(context, block=False):
 
     def decorate(func):
         name = func.__name__
-        if name not in context:
+        if not _is_bound(context, name):
             context[name] = func
         return context[name]
 
-- 
2.43.0


From c7aa4901e4e34f2c8c0a6014c6c1782837b96a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 07/57] fix: find the end of interpolations from operator
 tokens only

A brace in the text of an f-string ended the expression too early or never,
and an expression whose first token is invalid raised UnboundLocalError.
---
 tonnikala/languages/python/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index b02a079..ecb04bf 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -45,6 +45,7 @@ def gen_tokens(text, pos):
     io = TokenReadLine(text, pos)
     readline = io.get_readline()
     tokens = generate_tokens(readline)
+    end_pos = pos
 
     try:
         for t_type, content, start, end, line in tokens:
@@ -71,6 +72,10 @@ def parse_brace_enclosed_expression(text, start_pos, position):
 
     tokens = gen_tokens(text, start_pos + 2)
     for t_type, content, end_pos in tokens:
+        # the pieces of an f-string can look like braces too
+        if t_type != token.OP:
+            continue
+
         if content == "}":
             if n_braces <= 0:
                 valid = True
@@ -108,10 +113,10 @@ def parse_unenclosed_expression(text, start_pos, position):
 
         # a braced expression is started, consume it
         for t_type, content, end_pos in gen_tokens(text, pos):
-            if content in braces:
+            if t_type == token.OP and content in braces:
                 pars.append(content)
 
-            elif content in braces.values():
+            elif t_type == token.OP and content in braces.values():
                 last = pars.pop()
                 if braces[last] != content:
                     raise TemplateSyntaxError(
-- 
2.43.0


From 6dc2a240a210bb19ad4cc5b5a2a0587e67750a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 08/57] fix: accept blanks before an expression

${ a } and py:if=" a" were an unexpected indent.
---
 tonnikala/languages/python/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 38cace8..7990375 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -107,6 +107,11 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     position = getattr(expression, "position", (1, 0))
     position = position[0] + adjust[0], position[1] + adjust[1]
 
+    # blanks before the first token are not indentation
+    stripped = expression.lstrip(" \t")
+    position = position[0], position[1] + len(expression) - len(stripped)
+    expression = stripped
+
     tree = None
     t = None
     try:
-- 
2.43.0


From 7644ed6500b3c2faa786d3d6a99a4e40d8c70f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 09/57] fix: report an end tag after the root element as a
 syntax error

It raised AttributeError from the parser.
---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 216796e..648bbd4 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -278,6 +278,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
     def handle_endtag(self, name):
         self.flush_character_data()
+        if isinstance(self.elements[-1], dom.Document):
+            self.syntax_error("End tag </%s> without a start tag" % name)
+
         popped = self.elements.pop()
 
         if name.lower() != popped.name.lower():
-- 
2.43.0


From e5938e77f2c4058c03f223952b839e341b84d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 10/57] fix: accept doctypes case-insensitively, report bad
 ones as syntax errors

<!doctype html> raised ExpatError, one within an element
HierarchyRequestErr.
---
 tonnikala/syntaxes/docparser.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 648bbd4..17969b9 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -6,6 +6,7 @@ from html.entities import entitydefs as html_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
 from xml.dom import minidom as dom
+from xml.parsers.expat import ExpatError
 
 from ..helpers import StringWithLocation
 from ..runtime.exceptions import TemplateSyntaxError
@@ -353,7 +354,18 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             self.elements[-1].appendChild(node)
 
     def handle_decl(self, decl):
-        dt = dom.parseString("<!%s><html/>" % decl).doctype
+        if not isinstance(self.elements[-1], dom.Document):
+            self.syntax_error("Declaration <!%s> within an element" % decl)
+
+        # unlike in XML, the keyword is case-insensitive in HTML
+        if decl[:7].lower() == "doctype":
+            decl = "DOCTYPE" + decl[7:]
+
+        try:
+            dt = dom.parseString("<!%s><html/>" % decl).doctype
+        except ExpatError as e:
+            self.syntax_error("Invalid declaration <!%s>: %s" % (decl, e))
+
         self.elements[-1].appendChild(dt)
 
     def unknown_decl(self, decl):
-- 
2.43.0


From 1e7867d0bc3d482d76972714ba3d9e17afdb59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 11/57] fix: know all HTML5 entities and uppercase &#X charrefs
 in text

&apos; was unknown, though in attribute values both already worked.
---
 tonnikala/syntaxes/docparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 17969b9..ba67e44 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -3,6 +3,7 @@
 import sys
 from html import parser as html_parser
 from html.entities import entitydefs as html_entity_defs
+from html.entities import html5 as html5_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
 from xml.dom import minidom as dom
@@ -325,7 +326,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_entityref(self, name):
         # Encoding?
         try:
-            content = str(html_entity_defs[name])
+            content = str(html5_entity_defs[name + ";"])
         except KeyError:
             self.syntax_error("Unknown HTML entity &%s;" % name)
 
@@ -334,7 +335,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_charref(self, code):
         # Encoding?
         try:
-            if code.startswith("x"):
+            if code.startswith(("x", "X")):
                 cp = int(code[1:], 16)
             else:
                 cp = int(code, 10)
-- 
2.43.0


From 6d20c3b4e35a72e95157296c6b70e4bc059a241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 12/57] fix: report a processing instruction without data as a
 syntax error

<?python?> raised ValueError from the parser.
---
 tonnikala/syntaxes/docparser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index ba67e44..7debff0 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -305,12 +305,16 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
-        type_, data = data.split(None, 1)
-
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
+        parts = data.split(None, 1)
+        if len(parts) != 2:
+            self.syntax_error("Processing instruction <?%s?> without data" % data)
+
+        type_, data = parts
+
         node = self.doc.createProcessingInstruction(type_, data)
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
-- 
2.43.0


From 63410c8b20b147a7839565401aea193041b04559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 13/57] fix: accept doctypes and attributes without value in
 Chameleon templates

They raised ValueError and TypeError.
---
 tonnikala/syntaxes/chameleon.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 0e0d1a4..da0d323 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -1,6 +1,13 @@
 """XML parser"""
 
-from tonnikala.ir.nodes import Element, If, For, EscapedText, Expression
+from tonnikala.ir.nodes import (
+    Element,
+    If,
+    For,
+    EscapedText,
+    Expression,
+    EmptyAttrVal,
+)
 from xml.dom.minidom import Node
 
 from tonnikala.expr import handle_text_node  # TODO: move this elsewhere.
@@ -17,7 +24,10 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
 
     def generate_attributes_for_node(self, dom_node, ir_node):
         attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
-        attrs = [(k, handle_text_node(v)) for (k, v) in dom_node.attributes.items()]
+        attrs = [
+            (k, handle_text_node(v) if v is not None else EmptyAttrVal())
+            for (k, v) in dom_node.attributes.items()
+        ]
         self.generate_attributes(ir_node, attrs=attrs, dynamic_attrs=attrs_node)
 
     def is_control_name(self, name, to_match):
@@ -135,6 +145,10 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
+        if node_t == Node.DOCUMENT_TYPE_NODE:
+            ir_node = EscapedText(dom_node.toxml())
+            return ir_node
+
         raise ValueError("Unhandled node type %d" % node_t)
 
 
-- 
2.43.0


From 1a3b7cf38e9631dc6e306db53bf43bc1be0c463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 14/57] fix: report an unknown template syntax as the intended
 ValueError

Formatting the message raised TypeError instead.
---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 825ad9f..f7ba819 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -158,7 +158,8 @@ class Loader(object):
         parser_func = parsers.get(self.syntax)
         if not parser_func:
             raise ValueError(
-                "Invalid parser syntax %s: valid syntaxes: %r" % sorted(parsers.keys())
+                "Invalid parser syntax %s: valid syntaxes: %r"
+                % (self.syntax, sorted(parsers.keys()))
             )
 
         try:
-- 
2.43.0


From 9ebbac82e67fa2a05ee26bc8358c1b0b71c8b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 15/57] fix: give the line number in all syntax errors of the
 front ends

Errors about the contents of py:extends and some others had none, and
formatting such an error raised TypeError.
---
 tonnikala/ir/generate.py        | 3 +++
 tonnikala/syntaxes/chameleon.py | 5 ++++-
 tonnikala/syntaxes/tonnikala.py | 4 +++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 258045b..986a7f3 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -188,6 +188,9 @@ class BaseDOMIRGenerator(BaseIRGenerator):
         for dom_node in children:
             node = self.generate_ir_node(dom_node)
             if node:
+                if node.position[0] is None:
+                    node.position = getattr(dom_node, "position", node.position)
+
                 ir_node.add_child(node)
 
         self.exit_node(ir_node)
diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index da0d323..b3e4dba 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -61,6 +61,9 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
         if attr is not None:
             ir_node_stack.append(For(attr))
 
+        for ir_node in ir_node_stack:
+            ir_node.position = dom_node.position
+
         # TODO: add all control attrs in order
         if not ir_node_stack:
             return True, None, None
@@ -149,7 +152,7 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(dom_node.toxml())
             return ir_node
 
-        raise ValueError("Unhandled node type %d" % node_t)
+        self.syntax_error("Unhandled node type %d" % node_t, dom_node.position[0])
 
 
 def parse(filename, string, translatable=False):
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 373e346..a63bd93 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -53,7 +53,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
-                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+                self.syntax_error(
+                    "Unknown control attribute {}".format(k), node=v or dom_node
+                )
 
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
-- 
2.43.0


From 66d2295e7aefa25077177ca8364b6d7df8f7b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 16/57] fix: discard comments within py:extends

They were taken for text and rejected, contrary to the intent of
Extends.add_child.
---
 tonnikala/ir/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index c92eacf..9679741 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -336,6 +336,10 @@ class Extends(ContainerNode):
         if isinstance(child, Comment):
             return
 
+        # the front ends produce comments as ready-made text
+        if isinstance(child, EscapedText) and child.text.startswith("<!--"):
+            return
+
         # ignore Text nodes with whitespace-only content
         if isinstance(child, Text) and not child.text.strip():
             return
-- 
2.43.0


From 55cda35ddc153550788e7b063a93003bb9a3f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 17/57] fix: render embed, track and wbr as void elements

The parser knows them as void, but they were written with end tags.
---
 tonnikala/ir/generate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 986a7f3..c8b83a2 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -33,6 +33,9 @@ html5_empty_tags = frozenset(
     command
     keygen
     source
+    embed
+    track
+    wbr
 """.split()
 )
 
-- 
2.43.0


From 86d1eba58a6dfaa12a1fb9f6f0df0e6035929e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 18/57] fix: keep literal() values unescaped wherever they are
 interpolated

literal() was the identity and relied on being optimized away, which does
not happen for attribute values or within a larger expression.
---
 tonnikala/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index f7ba819..6d966af 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -5,6 +5,8 @@ import sys
 import time
 from typing import Iterable, Optional
 
+from markupsafe import Markup
+
 from .helpers import reraise
 from .languages.javascript.generator import Generator as JavascriptGenerator
 from .languages.python.generator import Generator as PythonGenerator
@@ -29,7 +31,7 @@ class Helpers:
 escape = python.escape
 
 helpers = Helpers()
-helpers.literal = lambda x: x
+helpers.literal = lambda x: Markup(str(x))
 helpers.gettext = lambda x: x
 helpers.egettext = lambda x: escape(x)
 
-- 
2.43.0


From 0e0b3e629b69752c92be898a1b6fe0db6778e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 19/57] fix: do not mask context variables with comprehension
 variables

$x next to ${[x for x in xs]} raised NameError, because the latter x was
taken for a local variable of the whole template.
---
 tonnikala/languages/python/astalyzer.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 05382d5..316cb22 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -63,6 +63,26 @@ class FreeVarFinder(ast.NodeVisitor):
             elif isinstance(value, ast.AST):
                 self.visit(value)
 
+    def do_visit_comprehension(self, node):
+        # the outermost iterable is evaluated in the enclosing scope
+        self.visit(node.generators[0].iter)
+
+        targets = FreeVarFinder()
+        for generator in node.generators:
+            targets.visit(generator.target)
+
+        subscoper = FreeVarFinder(targets.masked)
+        subscoper.generic_visit(node)
+        self.vars |= subscoper.vars - targets.masked
+
+        # the targets of assignment expressions are not local to it
+        self.masked |= subscoper.masked - targets.masked
+
+    visit_ListComp = do_visit_comprehension
+    visit_SetComp = do_visit_comprehension
+    visit_DictComp = do_visit_comprehension
+    visit_GeneratorExp = do_visit_comprehension
+
     def visit_Name(self, node):
         if isinstance(node.ctx, ast.Store):
             self.masked.add(node.id)
-- 
2.43.0


From b1f64c7e0a9e86eb3f97ffea28dd74c48c6b7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 20/57] fix: import into an extended template without the
 overriding functions

The functions of the extending template took the place of the ones of the
same name in the imported template.
---
 tonnikala/languages/python/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 7990375..97d6e0f 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -707,7 +707,10 @@ class PyRootNode(PyComplexNode):
             code += "__TK__parent_template = __TK__runtime.load(%r)\n" % extended
 
         code += "def __TK__binder(__TK__context):\n"
-        code += "    __TK__original_context = __TK__context.copy()\n"
+        # a template that is extended shares the context with the extending
+        # one, which has already put its own functions there.
+        code += "    __TK__original_context = __TK__context.setdefault(\n"
+        code += "        '__TK__original_context', __TK__context.copy())\n"
         code += "    __TK__bind = __TK__runtime.bind(__TK__context)\n"
         code += (
             "    __TK__bindblock = __TK__runtime.bind(__TK__context, " "block=True)\n"
-- 
2.43.0


From 582b17fc79ce3fd659665e5b4f6a04312d2ac70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 21/57] fix: reload templates that were deleted, replaced or
 changed while read

A deleted template file made every later load raise FileNotFoundError, an
older replacement file and a change made during the read went unnoticed.
---
 tonnikala/loader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 6d966af..7e041e7 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -252,11 +252,13 @@ class FileLoader(Loader):
             return
 
         for name, tmpl in list(self.cache.items()):
-            if not os.stat(tmpl.path):
-                self.cache.pop(name)
+            try:
+                mtime = os.stat(tmpl.path).st_mtime
+            except FileNotFoundError:
+                self.cache.pop(name, None)
                 continue
 
-            if os.stat(tmpl.path).st_mtime > tmpl.mtime:
+            if mtime != tmpl.mtime:
                 self.cache.clear()
                 break
 
@@ -282,8 +284,9 @@ class FileLoader(Loader):
             raise OSError(errno.ENOENT, "File not found: %s" % name)
 
         with codecs.open(path, "r", encoding="UTF-8") as f:
-            contents = f.read()
+            # taken first, so that a change during the read is noticed later
             mtime = os.fstat(f.fileno()).st_mtime
+            contents = f.read()
 
         template = self.load_string(contents, filename=path)
         template.mtime = mtime
-- 
2.43.0


From 79cc65d4f375ed3fce16db348d4c46c5db3775be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 22/57] fix: release all references of C buffers

Every buffer leaked its escape function and three strings, and failing
output calls leaked their temporaries.
---
 tonnikala/runtime/_buffer.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index f2e4627..db1a910 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -26,6 +26,10 @@ static void
 Buffer_dealloc(Buffer* self)
 {
     Py_XDECREF(self->buffer_list);
+    Py_XDECREF(self->escape_func);
+    Py_XDECREF(self->equals_quot);
+    Py_XDECREF(self->quot);
+    Py_XDECREF(self->space);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -87,6 +91,7 @@ _do_append(Buffer *self, PyObject *args) {
                     return NULL;
                 }
                 if (PyList_Append(self->buffer_list, obj) != 0) {
+                    Py_DECREF(obj);
                     return NULL;
                 }
                 // it is a new reference
@@ -150,19 +155,23 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         if (call == NULL) {
             PyErr_SetString(PyExc_TypeError,
                 "escape function is not callable");
-            return NULL;
+            goto error;
         }
 
         PyObject *escape_args = PyTuple_New(1);
+        if (! escape_args) {
+            goto error;
+        }
+
         Py_INCREF(value);
         PyTuple_SET_ITEM(escape_args, 0, value);
 
         PyObject *result = (*call)(self->escape_func, escape_args, NULL);
+        Py_DECREF(escape_args);
         if (result == NULL) {
             goto error;
         }
 
-        Py_DECREF(escape_args);
         value = result;
     }
 
@@ -185,6 +194,7 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
 
     return rv;
 error:
+    Py_XDECREF(tmp);
     return NULL;
 }
 
-- 
2.43.0


From 72fb2c9c7bfbc84e0a26aeec59d04751dbb493a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 23/57] fix: do not crash on a replaced buffer list or missing
 escape function

Assigning or deleting Buffer().buffer made later calls use something that
is no list, and _set_escape_method() without an argument a null pointer.
---
 tonnikala/runtime/_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index db1a910..2ce984c 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -225,7 +225,7 @@ _set_escape_method(PyObject *self, PyObject *args, PyObject *kwargs) {
 
     PyObject *escape = NULL;
     if (!PyArg_ParseTupleAndKeywords(args, kwargs,
-        "|O:_set_escape_method", _keywords,
+        "O:_set_escape_method", _keywords,
         &escape))
         goto exit;
 
@@ -244,7 +244,7 @@ exit:
 }
 
 static PyMemberDef Buffer_members[] = {
-    {"buffer", T_OBJECT_EX, offsetof(Buffer, buffer_list), 0,
+    {"buffer", T_OBJECT_EX, offsetof(Buffer, buffer_list), READONLY,
      "The buffer list"},
     {NULL}  /* Sentinel */
 };
-- 
2.43.0


From b4541dde34a30ffff56c9b7072d8b8ea376db24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 24/57] fix: make the Python buffer write attributes like the C
 one

Attribute names that are not strings failed, those that are Markup had
their equals sign escaped.
---
 tonnikala/runtime/python.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 6063a28..e830003 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -23,14 +23,13 @@ class _TKPythonBufferImpl(object):
         def output_boolean_attr(name, value):
             t = type(value)
             if t in (bool, NoneType):
-                value and do_output(" " + name + '="' + name + '"')
+                value and do_output(" ", name, '="', name, '"')
 
                 # skip on false, None
                 return
 
-            do_output(" " + name + '="')
-            do_output(escape(value))
-            do_output('"')
+            # escape before anything is output, like the C buffer
+            do_output(" ", name, '="', escape(value), '"')
 
         self.output_boolean_attr = output_boolean_attr
 
-- 
2.43.0


From c8f1aaf9036766c39905a0c4e11915e49e92d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 25/57] fix: generate valid code for js:extends without blocks
 or functions

An empty variable list was written as `var ;`.
---
 tonnikala/languages/javascript/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 6bde8d9..b272437 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -717,7 +717,8 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
-        code += "        var %s;\n" % ",\n            ".join(free_variables)
+        if free_variables:
+            code += "        var %s;\n" % ",\n            ".join(free_variables)
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
-- 
2.43.0


From 7d57e02f107e7ed8a6b4bc44587277a7b0346b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 26/57] fix: keep js:with variables local to the element

They were assigned to variables shared by the whole template and stayed
changed after the element.
---
 tonnikala/languages/javascript/generator.py | 43 +++++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index b272437..bbbb858 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -135,6 +135,30 @@ def NameX(id, store=False):
     return Name(id=id, ctx=Load() if not store else Store())
 
 
+def VariableName(id):
+    """
+    The name of an user variable, subject to the free variable analysis
+    """
+
+    rv = Name(id)
+    rv._mangle_candidate = True
+    return rv
+
+
+def get_assigned_names(node):
+    """
+    Yield the names of the variables assigned by the given expression
+    """
+
+    if isinstance(node, ast.Comma):
+        yield from get_assigned_names(node.left)
+        yield from get_assigned_names(node.right)
+
+    elif isinstance(node, JSAssign) and isinstance(node.left, Identifier):
+        yield node.left.value
+        yield from get_assigned_names(node.right)
+
+
 class FreeVarFinder(object):
     def __init__(self, tree):
         self.tree = tree
@@ -230,9 +254,16 @@ class JavascriptNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
+    def generate_varscope(self, body, variables=()):
+        # the variables are parameters to make them local to the scope;
+        # they start out with the values they have in the enclosing one.
         name = gen_name()
-        rv = [self.make_function(name, body), Expr(SimpleCall(NameX(name), []))]
+        parameters = [VariableName(i) for i in variables]
+        arguments = [VariableName(i) for i in variables]
+        rv = [
+            self.make_function(name, body, arguments=parameters),
+            Expr(SimpleCall(NameX(name), arguments)),
+        ]
         return rv
 
 
@@ -499,8 +530,14 @@ class JsWithNode(JsComplexNode):
                     "Only assignment statements allowed in With; not %s" % self.vars
                 )
 
+        variables = []
+        for i in var_defs:
+            for name in get_assigned_names(i.expr):
+                if name not in variables:
+                    variables.append(name)
+
         body = var_defs + self.generate_child_ast(generator, self)
-        return self.generate_varscope(body)
+        return self.generate_varscope(body, variables)
 
 
 class JsComplexExprNode(JsComplexNode):
-- 
2.43.0


From b094a7f3c1d05b1b73ac17e0ccf5f05d17fa4b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 27/57] fix: locate the code of processing instructions in the
 template

Errors in <?python ?> code were always attributed to the first lines.
---
 tonnikala/syntaxes/docparser.py | 10 ++++++++--
 tonnikala/syntaxes/tonnikala.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 7debff0..0fae896 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -9,7 +9,7 @@ from xml import sax
 from xml.dom import minidom as dom
 from xml.parsers.expat import ExpatError
 
-from ..helpers import StringWithLocation
+from ..helpers import StringWithLocation, calculate_position
 from ..runtime.exceptions import TemplateSyntaxError
 
 impl = dom.getDOMImplementation(" ")
@@ -313,7 +313,13 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         if len(parts) != 2:
             self.syntax_error("Processing instruction <?%s?> without data" % data)
 
-        type_, data = parts
+        type_, code = parts
+
+        # keep the location of the code, it is to be compiled
+        lineno, offset = calculate_position(
+            "<?" + data, 2 + len(data) - len(code), self.getpos()
+        )
+        data = StringWithLocation(code.rstrip(), lineno, offset)
 
         node = self.doc.createProcessingInstruction(type_, data)
         node.position = self.getpos()
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index a63bd93..f6a03a8 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -249,7 +249,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-            ir_node = Code(dom_node.nodeValue.strip())
+            ir_node = Code(dom_node.nodeValue)
             return ir_node
 
         if node_t == Node.DOCUMENT_TYPE_NODE:
-- 
2.43.0


From e9de0c98c45128ea6dfbd3901835ea84f48b54c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 28/57] fix: report invalid block and alias names as template
 syntax errors

They led to SyntaxError or ValueError about generated code, or were
accepted and unusable.
---
 tonnikala/languages/python/generator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 97d6e0f..4fdf3ad 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -6,6 +6,7 @@ from ast import (
     Str, Name, Load, Store, Not, arg, Raise, Return
 )
 from collections.abc import Iterable
+from keyword import iskeyword
 
 from .astalyzer import FreeVarFinder
 from ..base import LanguageNode, ComplexNode, BaseGenerator
@@ -131,6 +132,15 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     return tree.body
 
 
+def check_identifier(name):
+    """
+    Ensure that the given block or alias name can be a name of a variable
+    """
+
+    if not name.isidentifier() or iskeyword(name):
+        raise TemplateSyntaxError("Invalid name %r" % str(name), node=name)
+
+
 def gen_name(typename=None):
     global name_counter
     name_counter += 1
@@ -338,6 +348,7 @@ def PyUnlessNode(self, expression):
 class PyImportNode(PythonNode):
     def __init__(self, href, alias):
         super(PyImportNode, self).__init__()
+        check_identifier(alias)
         self.href = str(href)
         self.alias = str(alias)
 
@@ -489,6 +500,7 @@ class PyComplexExprNode(PyComplexNode):
 class PyBlockNode(PyComplexNode):
     def __init__(self, name):
         super(PyBlockNode, self).__init__()
+        check_identifier(name)
         self.name = name
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From de916eb2dcd82f808b028e5021635c5785cb793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 29/57] fix: report errors of the final compilation as template
 syntax errors

Duplicate argument names or a break outside of a loop raised a plain
SyntaxError.
---
 tonnikala/loader.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 7e041e7..a31e3f8 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -197,7 +197,19 @@ class Loader(object):
         runtime.loader = self
         glob = _new_globals(runtime)
 
-        compiled = compile(code, filename, "exec")
+        try:
+            compiled = compile(code, filename, "exec")
+        except SyntaxError as e:
+            exc_info = sys.exc_info()
+            syntax_error = exceptions.TemplateSyntaxError(
+                e.msg, lineno=e.lineno, source=string, filename=filename
+            )
+
+        if exc_info:
+            exc_info = (type(syntax_error), syntax_error, exc_info[2])
+            self.handle_exception(exc_info, string, tb_override=None)
+            return
+
         glob["__TK_template_info__"] = TemplateInfo(filename, gen.lnotab_info())
 
         exec(compiled, glob, glob)
-- 
2.43.0


From 49f05e50fdbe2a27e8096ea0811c8ca980999370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 30/57] fix: do not fill the context object given to a JS
 template

Rendering two templates with the same object gave the output of the first
one twice, because its functions stayed in the object.
---
 tonnikala/languages/javascript/generator.py |  5 +++--
 tonnikala/runtime/javascript.js             | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index bbbb858..3bac232 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -754,6 +754,7 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
+        code += "        __TK__context = __TK__.ownContext(__TK__context);\n"
         if free_variables:
             code += "        var %s;\n" % ",\n            ".join(free_variables)
 
@@ -791,8 +792,8 @@ class JsRootNode(JsComplexNode):
 
         # inject the other top level funcs in the binder
         binder = locator.binder
-        get_body(binder)[1:1] = toplevel_funcs
-        get_body(binder)[1:1] = generator.imports
+        get_body(binder)[2:2] = toplevel_funcs
+        get_body(binder)[2:2] = generator.imports
 
         coalesce_outputs(tree)
         return tree.to_ecma()
diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index c3b6026..b31dcf2 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -1,7 +1,8 @@
 define([], function () {
     'use strict';
     var globals = typeof window == 'undefined' ? global : window,
-        map = Array.prototype.map;
+        map = Array.prototype.map,
+        hasOwn = Object.prototype.hasOwnProperty;
 
     function Markup(s) {
         this.s = s;
@@ -153,6 +154,22 @@ define([], function () {
         list.forEach(fn);
     }
 
+    // The context is filled with the functions of the template, thus
+    // the one given by the caller is copied. The binders of the extended
+    // templates get the copy and share it.
+    function OwnContext(values) {
+        var key;
+        for (key in values) {
+            if (hasOwn.call(values, key)) {
+                this[key] = values[key];
+            }
+        }
+    }
+
+    function ownContext(ctx) {
+        return ctx instanceof OwnContext ? ctx : new OwnContext(ctx);
+    }
+
     function addToContext(ctx, name, value) {
         if (!ctx.hasOwnProperty(name)) {
             ctx[name] = value;
@@ -192,6 +209,8 @@ define([], function () {
 
         literal: function (val) { return new Markup(String(val)); },
 
+        ownContext: ownContext,
+
         addToContext: addToContext,
 
         bindFromContext: bindFromContext,
-- 
2.43.0


From daf0046880567200589725c6f0a39956e3684f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 31/57] fix: let default arguments of functions use context
 variables and builtins

---
 tonnikala/languages/python/generator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 4fdf3ad..2f09a9b 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -740,16 +740,20 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
+        bind_free_variables = ""
+        for i in free_variables:
+            bind_free_variables += '    if "%s" in __TK__context:\n' % i
+            bind_free_variables += '        %s = __TK__context["%s"]\n' % (i, i)
+
+        # the default arguments of the functions need these already
+        code += bind_free_variables
         code += "    raise\n"  # a placeholder
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
             code += "    __TK__parent_template.binder_func(__TK__context)\n"
 
-        for i in free_variables:
-            code += '    if "%s" in __TK__context:\n' % i
-            code += '        %s = __TK__context["%s"]\n' % (i, i)
-
+        code += bind_free_variables
         code += "    return __TK__context\n"
 
         tree = ast.parse(code)
-- 
2.43.0


From c27fe772dd98c57f3e4aea04219e932d01302955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 32/57] fix: keep attributes that have the same local name as
 another one

---
 tonnikala/syntaxes/docparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 0fae896..aa2dbda 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -270,7 +270,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 l, o = attr_pos[k]
                 v = StringWithLocation(v, l, o)
 
-            el.setAttribute(k, v)
+            # the prefix stands for the namespace, so that attributes with
+            # the same local name do not replace each other
+            el.setAttributeNS(k.partition(":")[0] if ":" in k else None, k, v)
 
         self.elements[-1].appendChild(el)
         self.elements.append(el)
-- 
2.43.0


From f3f6547d82c1e511b5d05a72fb7e325d747d0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 33/57] fix: report a second root element as a syntax error

---
 tonnikala/syntaxes/docparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index aa2dbda..a2d196a 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -260,6 +260,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_starttag(self, name, attrs, self_closing=False):
         self.flush_character_data()
 
+        if (
+            isinstance(self.elements[-1], dom.Document)
+            and self.doc.documentElement is not None
+        ):
+            self.syntax_error("Element <%s> outside of the root element" % name)
+
         attr_pos = self.find_attr_positions(attrs)
         el = self.doc.createElement(name)
         el.name = name
-- 
2.43.0


From 982de6dd742d5b29c2b627c849e0e77c9d65b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 34/57] fix: serialize loading and reloading in the file loader

---
 tonnikala/loader.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index a31e3f8..93ea976 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -2,6 +2,7 @@ import codecs
 import errno
 import os
 import sys
+import threading
 import time
 from typing import Iterable, Optional
 
@@ -232,6 +233,8 @@ class FileLoader(Loader):
         self.cache = {}
         self.paths = list(paths)
         self.reload = False
+        # reentrant: loading a template also loads those that it extends
+        self._lock = threading.RLock()
         self._last_reload_check = time.time()
 
     def add_path(self, *a: str) -> None:
@@ -284,28 +287,31 @@ class FileLoader(Loader):
         If in cache, return the cached template.
         """
 
-        if self.reload:
-            self._maybe_purge_cache()
+        # templates that are being loaded are not in the cache, so another
+        # thread that clears it would not make them be loaded again.
+        with self._lock:
+            if self.reload:
+                self._maybe_purge_cache()
 
-        template = self.cache.get(name)
-        if template:
-            return template
+            template = self.cache.get(name)
+            if template:
+                return template
 
-        path = self.resolve(name)
-        if not path:
-            raise OSError(errno.ENOENT, "File not found: %s" % name)
+            path = self.resolve(name)
+            if not path:
+                raise OSError(errno.ENOENT, "File not found: %s" % name)
 
-        with codecs.open(path, "r", encoding="UTF-8") as f:
-            # taken first, so that a change during the read is noticed later
-            mtime = os.fstat(f.fileno()).st_mtime
-            contents = f.read()
+            with codecs.open(path, "r", encoding="UTF-8") as f:
+                # taken first, so that a change during the read is noticed later
+                mtime = os.fstat(f.fileno()).st_mtime
+                contents = f.read()
 
-        template = self.load_string(contents, filename=path)
-        template.mtime = mtime
-        template.path = path
+            template = self.load_string(contents, filename=path)
+            template.mtime = mtime
+            template.path = path
 
-        self.cache[name] = template
-        return template
+            self.cache[name] = template
+            return template
 
 
 class JSLoader(object):
-- 
2.43.0


From 2f0225e78db90f65b3399f9290eb5a775c288793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 35/57] fix: locate a Chameleon replace element without a value

---
 tonnikala/syntaxes/chameleon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index b3e4dba..1dd83b0 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -98,9 +98,12 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             overridden_children = [Expression(content)]
 
         if self.is_control_name(dom_node.tagName, "replace"):
+            if not dom_node.hasAttribute("value"):
+                self.syntax_error(
+                    "No value attribute specified for replace tag",
+                    dom_node.position[0],
+                )
             replace = dom_node.getAttribute("value")
-            if replace is None:
-                raise ValueError("No value attribute specified for replace tag")
         else:
             replace = self.grab_and_remove_control_attr(dom_node, "replace")
 
-- 
2.43.0


From 89b05fd583212d991005fd3366b3bf22553d2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 36/57] fix: report every tokenizer error in an expression as a
 syntax error

---
 tonnikala/languages/python/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index ecb04bf..55cfebb 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -54,11 +54,17 @@ def gen_tokens(text, pos):
 
     # tokenize will *throw* an exception at the end instead
     # of returning an error token under certain circumstances
-    except TokenError as e:
+    except (TokenError, SyntaxError) as e:
         pos = len(text[:end_pos].rstrip())
         s = text[pos:]
         raise TemplateSyntaxError(e.args[0], node=s)
 
+    # some lines with separators that are not line terminators in Python
+    except UnicodeError:
+        pos = len(text[:end_pos].rstrip())
+        s = text[pos:]
+        raise TemplateSyntaxError("Invalid character in expression", node=s)
+
 
 braces = {
     "(": ")",
-- 
2.43.0


From e9671b46fe2469134b67bca5683fd508734dbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 37/57] fix: report null bytes in code as a syntax error

---
 tonnikala/languages/python/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 2f09a9b..f8fceaa 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -121,7 +121,8 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
             exp = expression + "\n"
         tree = ast.parse(exp, mode=mode)
     except SyntaxError as e:
-        lineno = e.lineno
+        # there is no line for null bytes
+        lineno = e.lineno or 1
         lineno += position[0] - 1
         t = TemplateSyntaxError(e.msg, lineno=lineno)
 
-- 
2.43.0


From a87ecfd0dd87ef0fcae957ad1396d60404243e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 38/57] fix: report required attributes without a value as a
 syntax error

---
 tonnikala/syntaxes/tonnikala.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index f6a03a8..d9eb6bd 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -107,7 +107,8 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         BaseDOMIRGenerator.syntax_error(self, message=message, lineno=lineno)
 
     def grab_mandatory_attribute(self, dom_node, name):
-        if not dom_node.hasAttribute(name):
+        # an attribute without a value does not do
+        if not dom_node.hasAttribute(name) or dom_node.getAttribute(name) is None:
             self.syntax_error(
                 message="<{}> does not have the required attribute '{}'".format(
                     dom_node.name, name
-- 
2.43.0


From 0d670ebceca451d48431cbd95e4132a24ce910b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 39/57] fix: report contents of py:import as a syntax error

---
 tonnikala/ir/nodes.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index 9679741..35c5768 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -263,7 +263,7 @@ class Define(ContainerNode):
         return ", ".join([self.funcspec, str(self.children)])
 
 
-class Import(BaseNode):
+class Import(ContainerNode):
     def __init__(self, href, alias):
         super(Import, self).__init__()
 
@@ -273,6 +273,17 @@ class Import(BaseNode):
     def __str__(self):  # pragma: no cover
         return ", ".join([self.href, self.alias])
 
+    def add_child(self, child):
+        # ignore Text nodes with whitespace-only content
+        if isinstance(child, Text) and not child.text.strip():
+            return
+
+        super(Import, self).add_child(child)
+
+    def validate(self, validator):
+        if self.children:
+            validator.syntax_error("No content allowed within an Import", node=self)
+
 
 class If(ContainerNode):
     def __init__(self, expression):
-- 
2.43.0


From 26d9a49bb70dc0c72ff356ac3d30657b542c27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 40/57] fix: locate errors in converting values and calling
 variable scopes

---
 tonnikala/languages/python/generator.py | 42 +++++++++++++++----------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index f8fceaa..0999303 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -33,6 +33,14 @@ def simple_call(func, args=None):
     return Call(func=func, args=args or [], keywords=[], starargs=None, kwargs=None)
 
 
+def located_call(func, args, located):
+    """
+    A call that fails at the location of the given expression
+    """
+
+    return ast.copy_location(simple_call(func, args), located)
+
+
 def create_argument_list(arguments):
     return [arg(arg=id, annotation=None) for id in arguments]
 
@@ -181,7 +189,7 @@ class PythonNode(LanguageNode):
                 i.lineno, i.col_offset = position
                 i.end_lineno, i.end_col_offset = position
 
-            e = Expr(simple_call(func, [i]))
+            e = Expr(located_call(func, [i], i))
             e.output_args = [i]
             rv.append(e)
 
@@ -220,11 +228,13 @@ class PythonNode(LanguageNode):
 
     def generate_varscope(self, body):
         name = gen_name("variable_scope")
+        call = simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
+        if body:
+            ast.copy_location(call, body[0])
+
         rv = [
             self.make_function(name, body, arguments=["__TK__output", "__TK__escape"]),
-            Expr(
-                simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
-            ),
+            Expr(call),
         ]
         return rv
 
@@ -273,7 +283,8 @@ class PyExpressionNode(PythonNode):
         return [self.get_expression()]
 
     def get_expression(self):
-        return simple_call(NameX("__TK__escape"), [self.get_unescaped_expression()])
+        expression = self.get_unescaped_expression()
+        return located_call(NameX("__TK__escape"), [expression], expression)
 
     def get_unescaped_expression(self):
         return get_fragment_ast(self.expr)
@@ -391,19 +402,16 @@ class PyAttributeNode(PyComplexNode):
             # expression, these are handled by
             # __TK__output.output_boolean_attr,
             # given the name, and unescaped expression!
+            expression = self.children[0].get_unescaped_expression()
+            func = Attribute(
+                value=NameX("__TK__output"),
+                attr="output_boolean_attr",
+                ctx=Load(),
+            )
+            args = [Str(s=self.name), expression]
             return [
                 Expr(
-                    simple_call(
-                        func=Attribute(
-                            value=NameX("__TK__output"),
-                            attr="output_boolean_attr",
-                            ctx=Load(),
-                        ),
-                        args=[
-                            Str(s=self.name),
-                            self.children[0].get_unescaped_expression(),
-                        ],
-                    )
+                    located_call(ast.copy_location(func, expression), args, expression)
                 )
             ]
 
@@ -424,7 +432,7 @@ class PyAttrsNode(PythonNode):
     def generate_ast(self, generator, parent):
         expression = get_fragment_ast(self.expression)
 
-        output = simple_call(NameX("__TK__output_attrs"), args=[expression])
+        output = located_call(NameX("__TK__output_attrs"), [expression], expression)
         return self.generate_output_ast([output], generator, parent)
 
 
-- 
2.43.0


From cb8bd9712b2338682656fc408008111cedf5c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 41/57] fix: literal() is available in JavaScript templates

---
 tonnikala/runtime/javascript.js | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index b31dcf2..5776698 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -176,11 +176,24 @@ define([], function () {
         }
     }
 
+    function literal(val) {
+        return new Markup(String(val));
+    }
+
+    // available in every template
+    var builtins = {
+        literal: literal
+    };
+
     function bindFromContext(ctx, name) {
         if (ctx.hasOwnProperty(name)) {
             return ctx[name];
         }
 
+        if (hasOwn.call(builtins, name)) {
+            return builtins[name];
+        }
+
         return globals[name];
     }
 
@@ -207,7 +220,7 @@ define([], function () {
 
         BoundTemplate: BoundTemplate,
 
-        literal: function (val) { return new Markup(String(val)); },
+        literal: literal,
 
         ownContext: ownContext,
 
-- 
2.43.0


From c1fdf254ed31257a8143009ff7b8d20ef78a0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 42/57] fix: a comma expression in a JavaScript template is one
 value

---
 tonnikala/languages/javascript/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 3bac232..0abb753 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -180,7 +180,13 @@ class FreeVarFinder(object):
 
 def parse(expression, mode="eval"):
     if mode == "eval":
-        return Parser().parse(expression).children()[0].expr
+        expr = Parser().parse(expression).children()[0].expr
+        if isinstance(expr, ast.Comma):
+            # would otherwise become several arguments of a call
+            expr._parens = True
+
+        return expr
+
     elif mode == "exec":
         return Parser().parse(expression).children()
 
-- 
2.43.0


From 946b58b4469a6326a7cb99a8920802290c9167b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 43/57] fix: order of singular and plural in messages for Babel

---
 tonnikala/i18n/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 68d1e08..36704e3 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -74,11 +74,12 @@ def extract_tonnikala(fileobj, keywords, comment_tags, options):
 
         prefix = ""
         if msg.msgid_plural:
-            msgid = (msg.msgid_plural,) + msgid
+            msgid = msgid + (msg.msgid_plural,)
             prefix = "n"
 
         if msg.msgctxt:
             msgid = (msg.msgctxt,) + msgid
             prefix += "p"
 
-        yield msg.location[1], prefix + "gettext", msgid, msg.comment
+        comments = [msg.comment] if msg.comment else []
+        yield msg.location[1], prefix + "gettext", msgid, comments
-- 
2.43.0


From 69a7d740dead68beac84074ad5c072917ebf7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 44/57] fix: free variables of annotations, decorators and
 return annotations

---
 tonnikala/languages/python/astalyzer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 316cb22..13761f9 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -38,6 +38,14 @@ class FreeVarFinder(ast.NodeVisitor):
         subscoper.generic_visit(node)
         self.vars = self.vars.union(subscoper.get_free_variables())
         self.do_visit_lambda_defaults(node.args)
+
+        # those of a def are evaluated in the enclosing scope, too
+        for i in getattr(node, "decorator_list", []):
+            self.visit(i)
+
+        if getattr(node, "returns", None) is not None:
+            self.visit(node.returns)
+
         self.newly_masked = set(masked)
 
     def visit_Lambda(self, node):
@@ -52,9 +60,6 @@ class FreeVarFinder(ast.NodeVisitor):
 
     def do_visit_lambda_defaults(self, node):
         for field, value in ast.iter_fields(node):
-            if field == "args":
-                continue
-
             if isinstance(value, list):
                 for item in value:
                     if isinstance(item, ast.AST):
-- 
2.43.0


From 38b51a363f6dcdd091d8c9af446c2fcf57f29449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 45/57] fix: literal() with other than one argument

---
 tonnikala/languages/python/generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 0999303..6b39064 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -3,7 +3,7 @@ import sys
 from ast import (
     Call, FunctionDef, Pass, UnaryOp, iter_child_nodes, literal_eval,
     NodeVisitor, If, Expr, Assign, Attribute,
-    Str, Name, Load, Store, Not, arg, Raise, Return
+    Str, Name, Load, Store, Not, arg, Raise, Return, Starred
 )
 from collections.abc import Iterable
 from keyword import iskeyword
@@ -656,7 +656,11 @@ def coalesce_outputs(tree):
                 if not ast_equals(arg2.func, NameX("literal")):
                     continue
 
-                if len(arg2.args) != 1:
+                # leave it to Python to complain about the arguments
+                if len(arg2.args) != 1 or arg2.keywords:
+                    continue
+
+                if isinstance(arg2.args[0], Starred):
                     continue
 
                 node.args[i] = arg2.args[0]
-- 
2.43.0


From 496fd0613934543dcbad8830e3557a8db7b2d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 46/57] fix: __debug__ is not a variable of the context

---
 tonnikala/languages/python/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 6b39064..3106497 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -26,6 +26,7 @@ ALWAYS_BUILTINS = """
     False
     True
     None
+    __debug__
 """.split()
 
 
-- 
2.43.0


From c34ce96109564c569538f93c1cf928d688ed370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 47/57] fix: absolute search paths with a colon in Pyramid
 applications

---
 tonnikala/pyramid/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tonnikala/pyramid/__init__.py b/tonnikala/pyramid/__init__.py
index 7d81b72..9090530 100644
--- a/tonnikala/pyramid/__init__.py
+++ b/tonnikala/pyramid/__init__.py
@@ -125,7 +125,12 @@ def add_tonnikala_extensions(config, *extensions):
 def add_tonnikala_search_paths(config, *paths):
     for path in paths:
         module_name, dummy, base_dir = path.partition(":")
-        if not base_dir:
+        if os.path.isabs(path):
+            # not an asset spec, even if there is a colon
+            base_dir = path
+            module_name = None
+
+        elif not base_dir:
             base_dir = module_name
             module_name = None
 
-- 
2.43.0


From 0d5a83fbae12a60db40fa8070957eefc4317125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 48/57] fix: names of templates with a colon after the name of
 a package in Pyramid

---
 tonnikala/pyramid/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tonnikala/pyramid/__init__.py b/tonnikala/pyramid/__init__.py
index 9090530..0e2e035 100644
--- a/tonnikala/pyramid/__init__.py
+++ b/tonnikala/pyramid/__init__.py
@@ -36,9 +36,9 @@ class PyramidTonnikalaLoader(tonnikala.loader.FileLoader):
         if ":" in name:
             try:
                 module, path = name.split(":", 1)
-                name = pkg_resources.resource_filename(module, path)
-                if name and os.path.exists(name):
-                    return name
+                filename = pkg_resources.resource_filename(module, path)
+                if filename and os.path.exists(filename):
+                    return filename
 
             except Exception:
                 pass
-- 
2.43.0


From 7ce308ec98167303e4ffe34b679bfc0b9bdb1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 49/57] fix: number the names of scopes by template, so that
 repeated loading does not use ever more names

---
 tonnikala/languages/python/generator.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 3106497..034211b 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -21,7 +21,6 @@ try:  # pragma: no cover
 except ImportError:  # pragma: no cover
     HAS_ASSERT = False
 
-name_counter = 0
 ALWAYS_BUILTINS = """
     False
     True
@@ -151,15 +150,6 @@ def check_identifier(name):
         raise TemplateSyntaxError("Invalid name %r" % str(name), node=name)
 
 
-def gen_name(typename=None):
-    global name_counter
-    name_counter += 1
-    if typename:
-        return "__TK__typed__%s__%d__" % (typename, name_counter)
-    else:
-        return "__TK_%d__" % (name_counter)
-
-
 def static_eval(expr):
     if isinstance(expr, UnaryOp) and isinstance(expr.op, Not):
         # bogus error from PyCharm
@@ -227,8 +217,8 @@ class PythonNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
-        name = gen_name("variable_scope")
+    def generate_varscope(self, generator, body):
+        name = generator.gen_name("variable_scope")
         call = simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
         if body:
             ast.copy_location(call, body[0])
@@ -551,7 +541,7 @@ class PyWithNode(PyComplexNode):
     def generate_ast(self, generator, parent=None):
         var_defs = get_fragment_ast(self.vars, "exec")
         body = var_defs + self.generate_child_ast(generator, self)
-        return self.generate_varscope(body)
+        return self.generate_varscope(generator, body)
 
 
 class PyExtendsNode(PyComplexNode):
@@ -848,6 +838,9 @@ class Generator(BaseGenerator):
 
     def __init__(self, ir_tree):
         super(Generator, self).__init__(ir_tree)
+        # numbered by template, as some versions of CPython keep the names of
+        # all variables in memory until the process ends.
+        self.name_counter = 0
         self.blocks = []
         self.top_defs = []
         self.top_level_names = set()
@@ -860,6 +853,10 @@ class Generator(BaseGenerator):
         decors = [binder_call]
         func.decorator_list = decors
 
+    def gen_name(self, typename):
+        self.name_counter += 1
+        return "__TK__typed__%s__%d__" % (typename, self.name_counter)
+
     def add_block(self, name, blockfunc, blockfunc_name):
         self.top_level_names.add(blockfunc_name)
         self.add_bind_decorator(blockfunc, block=True)
-- 
2.43.0


From 9ccb4ec95c15535d5104297aff877c8b9d851cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 50/57] fix: names like hasOwnProperty in the context or as
 functions of JavaScript templates

---
 tonnikala/runtime/javascript.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index 5776698..575064f 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -171,7 +171,7 @@ define([], function () {
     }
 
     function addToContext(ctx, name, value) {
-        if (!ctx.hasOwnProperty(name)) {
+        if (!hasOwn.call(ctx, name)) {
             ctx[name] = value;
         }
     }
@@ -186,7 +186,7 @@ define([], function () {
     };
 
     function bindFromContext(ctx, name) {
-        if (ctx.hasOwnProperty(name)) {
+        if (hasOwn.call(ctx, name)) {
             return ctx[name];
         }
 
-- 
2.43.0


From 0f84fcaaced5f6c0f895cff1075f2d6a09034d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:01 +0000
Subject: [PATCH 51/57] fix: read and write UTF-8 in the command line compiler
 whatever the locale

---
 bin/tonnikala-compile-jstemplate | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/tonnikala-compile-jstemplate b/bin/tonnikala-compile-jstemplate
index 5a7f7de..2c79589 100755
--- a/bin/tonnikala-compile-jstemplate
+++ b/bin/tonnikala-compile-jstemplate
@@ -4,8 +4,8 @@ from tonnikala.loader import JSLoader
 import argparse
 
 parser = argparse.ArgumentParser(description='Compile a Tonnikala Javascript template into JavaScript')
-parser.add_argument('source', help='Source file', type=argparse.FileType('r'))
-parser.add_argument('target', help='Target file', type=argparse.FileType('w'))
+parser.add_argument('source', help='Source file', type=argparse.FileType('r', encoding='UTF-8'))
+parser.add_argument('target', help='Target file', type=argparse.FileType('w', encoding='UTF-8'))
 
 args = parser.parse_args()
 
-- 
2.43.0


From 6f23c71e939bd91eed8ee087a2ab2f746c28eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 52/57] fix: do not count line feeds written as character
 references as lines of the source

---
 tonnikala/helpers/__init__.py   | 16 +++++++++--
 tonnikala/syntaxes/docparser.py | 51 +++++++++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/tonnikala/helpers/__init__.py b/tonnikala/helpers/__init__.py
index c6ba372..963ebd0 100644
--- a/tonnikala/helpers/__init__.py
+++ b/tonnikala/helpers/__init__.py
@@ -18,9 +18,15 @@ def internalcode(f):
 
 
 class StringWithLocation(str):
-    def __new__(cls, value: str, lineno, offset):
+    """
+    :param references: the offsets of the line feeds that are not line ends
+        of the source, as they are written as character references.
+    """
+
+    def __new__(cls, value: str, lineno, offset, references=()):
         val = str.__new__(cls, value)
         val.position = lineno, offset
+        val.references = references
         return val
 
     def __getslice__(self, start, end):
@@ -31,7 +37,13 @@ class StringWithLocation(str):
         if isinstance(i, slice):
             start = i.indices(len(self))[0]
             position = calculate_position(s, start, self.position)
-            return StringWithLocation(s[i], position[0], position[1])
+            before = sum(offset < start for offset in self.references)
+            return StringWithLocation(
+                s[i],
+                position[0] - before,
+                position[1],
+                tuple(offset - start for offset in self.references[before:]),
+            )
 
         return s[i]
 
diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index a2d196a..3dbaba2 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -1,8 +1,10 @@
 """XML parser"""
 
+import re
 import sys
 from html import parser as html_parser
 from html.entities import entitydefs as html_entity_defs
+from html import unescape
 from html.entities import html5 as html5_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
@@ -140,6 +142,21 @@ else:
     tagfind = html_parser.tagfind
 
 
+reference = re.compile(r"&(?:#[0-9]+;?|#[xX][0-9a-fA-F]+;?|NewLine;)")
+
+
+def find_references(value):
+    """
+    Find the offsets of the line feeds in the text of an attribute value
+    that are written as references.
+    """
+    return tuple(
+        len(unescape(value[: m.start()]))
+        for m in reference.finditer(value)
+        if unescape(m.group()) == "\n"
+    )
+
+
 # object to force a new-style class!
 class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     void_elements = {
@@ -174,6 +191,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         self.elements = []
         self.characters = None
         self.characters_start = None
+        self.references = set()
 
     def parse(self):
         self.doc = dom.Document()
@@ -202,13 +220,27 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                     return
 
             line, offset = self.characters_start
-            text = StringWithLocation(text, line, offset)
+            text = StringWithLocation(text, line, offset, self.find_references())
             node = self.doc.createTextNode(text)
             node.position = line, offset
             self.elements[-1].appendChild(node)
 
         self.characters = None
 
+    def find_references(self):
+        """
+        Find the offsets of the line feeds in the character data
+        that are written as references.
+        """
+        references = []
+        offset = 0
+        for i, characters in enumerate(self.characters):
+            if i in self.references:
+                references.append(offset)
+            offset += len(characters)
+
+        return tuple(references)
+
     def delta(self, row, col):
         orow, ocol = self.getpos()
         if row:
@@ -249,7 +281,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             lineoffset += linedelta
 
             attrname = m.group(1).lower()
-            attr_pos[attrname] = self.delta(lineoffset, colpos)
+            attr_pos[attrname] = self.delta(lineoffset, colpos) + (
+                find_references(source[attrstart : m.end(3)]),
+            )
             start = attrstart
 
         return attr_pos
@@ -273,8 +307,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         for k, v in attrs:
             if k in attr_pos:
-                l, o = attr_pos[k]
-                v = StringWithLocation(v, l, o)
+                v = StringWithLocation(v, *attr_pos[k])
 
             # the prefix stands for the namespace, so that attributes with
             # the same local name do not replace each other
@@ -305,9 +338,15 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         if not self.characters:
             self.characters = []
             self.characters_start = self.getpos()
+            self.references = set()
 
         self.characters.append(content)
 
+    def handle_reference(self, content):
+        self.handle_data(content)
+        if content == "\n":
+            self.references.add(len(self.characters) - 1)
+
     def handle_pi(self, data):
         self.flush_character_data()
 
@@ -348,7 +387,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         except KeyError:
             self.syntax_error("Unknown HTML entity &%s;" % name)
 
-        self.handle_data(content)
+        self.handle_reference(content)
 
     def handle_charref(self, code):
         # Encoding?
@@ -359,7 +398,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 cp = int(code, 10)
 
             content = chr(cp)
-            return self.handle_data(content)
+            return self.handle_reference(content)
         except Exception as e:
             self.syntax_error("Invalid HTML charref &#%s;: %s" % (code, e))
 
-- 
2.43.0


From f4134b0eda1dd8dd38179e4b979de080c7b872e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 53/57] fix: locate extracted messages at the line they are
 written in

---
 tonnikala/expr.py          | 35 +++++++++++++++++++++++++++++------
 tonnikala/i18n/__init__.py |  8 ++++----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/tonnikala/expr.py b/tonnikala/expr.py
index 9a099a1..bb19924 100644
--- a/tonnikala/expr.py
+++ b/tonnikala/expr.py
@@ -55,7 +55,10 @@ def partition_translatable_text(text):
     return m.groups()
 
 
-def create_text_nodes(text, is_cdata=False, translatable=False):
+def create_text_nodes(text, is_cdata=False, translatable=False, source=""):
+    """
+    :param source: what the text was written as, with its location
+    """
     if not translatable:
         rv = Text(text)
         rv.is_cdata = is_cdata
@@ -68,7 +71,9 @@ def create_text_nodes(text, is_cdata=False, translatable=False):
         rv.append(Text(prefix, is_cdata=is_cdata))
 
     if this:
-        rv.append(TranslatableText(this, is_cdata=is_cdata))
+        node = TranslatableText(this, is_cdata=is_cdata)
+        node.position = getattr(source[len(prefix) :], "position", node.position)
+        rv.append(node)
 
     if suffix:
         rv.append(Text(suffix, is_cdata=is_cdata))
@@ -91,8 +96,12 @@ def handle_text_node(
     whole_translatable=False,
 ):
     try:
-        text = _strip_dollars_fast(text)
-        return create_text_nodes(text, is_cdata=is_cdata, translatable=translatable)
+        return create_text_nodes(
+            _strip_dollars_fast(text),
+            is_cdata=is_cdata,
+            translatable=translatable,
+            source=text,
+        )
 
     except HasExprException:
         pass
@@ -101,8 +110,12 @@ def handle_text_node(
     string_run = []
     max_index = len(text)
     pos = 0
+    run_start = 0
 
     while pos < len(text):
+        if not string_run:
+            run_start = pos
+
         m = _expr_find_code.match(text, pos)
         pos = m.end()
 
@@ -115,7 +128,11 @@ def handle_text_node(
         elif m.group(3):
             if string_run:
                 nodes.append(
-                    create_text_nodes("".join(string_run), translatable=translatable)
+                    create_text_nodes(
+                        "".join(string_run),
+                        translatable=translatable,
+                        source=text[run_start:],
+                    )
                 )
 
             string_run = []
@@ -127,7 +144,13 @@ def handle_text_node(
             string_run.append("$")
 
     if string_run:
-        nodes.append(create_text_nodes("".join(string_run), translatable=translatable))
+        nodes.append(
+            create_text_nodes(
+                "".join(string_run),
+                translatable=translatable,
+                source=text[run_start:],
+            )
+        )
 
     if len(nodes) == 1:
         return nodes[0]
diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 36704e3..1d4c6c4 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -14,11 +14,11 @@ class TonnikalaExtractor(Extractor):
     syntax = "tonnikala"
 
     def parse_python(self, node, filename, lineno, options):
-        start_line = (node.position[0] or 1) + lineno
+        # the lines of the messages within an expression start from 1
+        position = getattr(node.expression, "position", node.position)
+        start_line = (position[0] or 1) - 1 + lineno
         for message in _extract_python(filename, node.expression, options, start_line):
-            yield Message(
-                *message[:6], location=(filename, lineno + message.location[1])
-            )
+            yield message
 
     def __call__(self, filename, options, fileobj=None, lineno=0):
         self.filename = filename
-- 
2.43.0


From 3feaf20eeddce557b89431337eb5683d68de746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:09 +0000
Subject: [PATCH 54/57] fix: a folder replaced by a file made the reloading
 loader fail for all templates

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 93ea976..66a1219 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -269,7 +269,8 @@ class FileLoader(Loader):
         for name, tmpl in list(self.cache.items()):
             try:
                 mtime = os.stat(tmpl.path).st_mtime
-            except FileNotFoundError:
+            except OSError:
+                # like resolve, with any reason for it not being there
                 self.cache.pop(name, None)
                 continue
 
-- 
2.43.0


From 6b781c504fe3c7bd08868bccd8c59cd45adf3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:29 +0000
Subject: [PATCH 55/57] fix: report expressions that are too long for the
 parser as template syntax errors

---
 tonnikala/languages/python/generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 034211b..889e186 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -133,6 +133,12 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
         lineno = e.lineno or 1
         lineno += position[0] - 1
         t = TemplateSyntaxError(e.msg, lineno=lineno)
+    except MemoryError as e:
+        # the parser gives up on too many tokens with a message
+        if not e.args:
+            raise
+
+        t = TemplateSyntaxError(e.args[0], lineno=position[0])
 
     if tree is None:
         raise t
-- 
2.43.0


From b7d542f1d2642a693d0d715e75ff2e06810897ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 56/57] fix: creating a buffer while the interpreter is going
 down crashes it

---
 tonnikala/runtime/_buffer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index 2ce984c..568ee83 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -43,6 +43,14 @@ Buffer_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     self = (Buffer *)type->tp_alloc(type, 0);
     if (self != NULL) {
         PyObject* module = PyState_FindModule(&buffermodule);
+        if (module == NULL) {
+            // no module any more while the interpreter is going down
+            Py_DECREF(self);
+            PyErr_SetString(PyExc_RuntimeError,
+                "the buffer module has been finalized");
+            return NULL;
+        }
+
         self->buffer_list = PyList_New(0);
         if (self->buffer_list == NULL) {
             Py_DECREF(self);
-- 
2.43.0


From 2710a23d8bff875a18beaabe583ae9db7d35f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:48 +0000
Subject: [PATCH 57/57] fix: the escape function is freed while it is still the
 one of new buffers

---
 tonnikala/runtime/_buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index 568ee83..7676b3b 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -239,11 +239,12 @@ _set_escape_method(PyObject *self, PyObject *args, PyObject *kwargs) {
 
     PyObject *old = GETSTATE(self)->escape;
 
-    Py_DECREF(old);
     Py_INCREF(escape);
-
     GETSTATE(self)->escape = escape;
 
+    // last, since it can run any code, which may create buffers
+    Py_DECREF(old);
+
     Py_INCREF(Py_None);
     return Py_None;
 
-- 
2.43.0

