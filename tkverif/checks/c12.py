import ast
import os
import random
import shutil
import tempfile
import traceback

from ..harness import Check, Violation
from .. import env, gen, model
from ..model import C, Cm, E, El, T

#: not an expression, on one line and with its braces and quotes closed
BAD = ["a b", "a +", "a ++", "1a", "a..b", "a if b", "not", "x = 1", "*a", "a; b", "for", "class",
       "del a", "a ? b", "$a", "a b c", "0x", "print 'x'", "a!", "import os", "", "  ", "lambda",
       "f(x y)", "f(1, =2)", "f(a=1, 2)", "[1 2]", "{1: }", "{1: 2, 3}", "(a b)", "a[", "a b[0]",
       "x := 1", "await q", "return 1", "pass", "a.1", "a,,b", "'a' 'b' c", "True = 1", "f(**)",
       "f() = 1", "0777", "1__0", "a\\b", "\u20ac", "x y" * 20, "else", "None = 1", "a =", "=",
       "x y " * 4000, "f(a for a in b, c)", "f(x=1, x=2)", "[*]", "a..", "u'a' b'c'", "@a"]
#: with something unclosed
OPEN = ["(a", "[1, 2", "'a", '"a', "f(x", "{1: 2", "a)", "a]", "(a]", "f'{", "f(')", "'''a"]

BAD_TARGET = ["1 in x", "a+1 in x", "f() in x", "None in x", "a b in x", " in x", "'a' in x",
              "a in x y", "a in ", "a in", "a", "a of x", "in x", "a,, b in x", "(a in x", "a in x)"]
BAD_DEF = ["1a()", "a(", "a)", "a(b", "a(b c)", "a(b=)", "a(*)", "a(1)", "a b", "a(b, b)", "a-b()",
           "a(b=1, c)", "a.b()", "", "a(**k, b)", "class()", "None", "a()()", "a(x): pass"]
BAD_WITH = ["a =", "= 1", "1 = 2", "a = b c", "None = 1", "f() = 1", "a = 1; b =", "a = (", "a b",
            "a = 1;; b = 2", "a = b = ", "for = 1"]
BAD_NAME = ["a b", "1a", "a-b", "a.b", "", "class", "None", "a()", "\u20ac", "a,b", "if"]
BAD_CODE = ["a b", "x = ", "if x:", "for a in b:", "def f(:", "1 = 2", "x = (", "'a", "return)",
            "nonlocal q", "from os import *", "else: pass", "x = 1\n  y = 2",
            "from __future__ import nope", "import", "a b\nc = 1", "f(x=1, x=2)", "del f()"]
BAD_REFERENCE = ["&nosuch;", "&foobar;", "&#99999999;", "&#x110000;", "&Nbsp;", "&eacutE;",
                 "&#1114112;", "&quott;", "&nope;text"]
BAD_DECL = ["<![CDATA[ x ]]>", "<![if x]>", "<!DOCTYPE html>", "<!doctype x>",
            "<![foo[ a ]]>"]

MARK = "\x01MARK"


class Attrs:
    """Writes an element with the attribute in question at a known line"""

    def __init__(self, rng, tag, name, value, rest=()):
        def nl():
            return rng.choice([" ", " ", "\n", "\n  ", "\n\n ", "\t"])

        text = "<" + tag
        before = list(rest)[:rng.randint(0, len(rest))]
        for n, v in before:
            text += nl() + "%s=%s" % (n, v)
        text += nl()
        lo = text.count("\n")
        quote = "'" if '"' in value or (rng.random() < 0.2 and "'" not in value) else '"'
        value = value.replace("&", "&amp;")
        if quote in value:
            value = value.replace(quote, "&#39;" if quote == "'" else "&quot;")
        if rng.random() < 0.5:
            value = value.replace("<", "&lt;")
        text += name + rng.choice(["=", "=", " = "]) + quote + value + quote
        self.lo, self.hi = lo, text.count("\n")
        for n, v in list(rest)[len(before):]:
            text += nl() + "%s=%s" % (n, v)
        self.start = text + rng.choice(["", "", " ", "\n"])


def constant(expression):
    """no names at all"""
    try:
        tree = ast.parse(getattr(expression, "code", expression).strip(), mode="eval")
    except SyntaxError:
        return True
    return not any(isinstance(n, ast.Name) for n in ast.walk(tree))


def element(rng, tag, name, value, body="t"):
    rest = [("class", '"x"'), ("title", "'a b'"), ("id", "i"), ("data-x", '"1\n2"'),
            ("alt", '"${1}"'), ("lang", '"&amp;&#10;"')]
    rest = rng.sample(rest, rng.choice([0, 1, 2, 3]))
    a = Attrs(rng, tag, name, value, rest)
    return "%s>%s</%s>" % (a.start, body, tag), a.lo, a.hi


def long_text(rng):
    return rng.choice(["\n", "x\n", "\n  ", "$$\n", "x y "]) * rng.choice([70, 260, 1030, 4100])


def in_text(rng, defect):
    """within text that starts on another line; in an element of its own"""
    before = rng.choice(["", "text ", "\n", "a\n\nb ", "&amp;\n", "$$ ${1}\n", "x\r\ny\n ",
                         "${(1,\n 2)}\n"])
    if rng.random() < 0.05:
        before = long_text(rng) + before
    after = rng.choice(["", " text", "\nmore\ntext", " ${1}", "\n${2}\n"])
    tag = rng.choice(["p", "b", "title", "py:if test='yes'", "span py:strip=''"])
    text = "<%s>%s" % (tag, before)
    lo = text.count("\n")
    return text, lo, after + "</%s>" % tag.split()[0]


def defect(rng, tal):
    """-> name, text, first and last line of the construct within it"""
    r = rng
    p = "tal:" if tal else "py:"
    kinds = ["interp", "interp", "dollar", "attr", "attr2", "if", "for", "strip", "content",
             "replace", "attrs", "endtag", "endtag2", "reference", "decl", "open", "multiline", "raw",
             "replace el", "endtag3"]
    if not tal:
        kinds += ["unless", "def", "with", "vars", "block", "unknown attr", "unknown el", "missing",
                  "el", "code", "code", "pi", "import", "nested extends"]
    k = r.choice(kinds)
    bad = r.choice(BAD)
    if k in ("interp", "open"):
        if k == "open":
            bad = r.choice(OPEN)
        text, lo, after = in_text(r, None)
        text += "${%s}" % bad.replace("&", "&amp;") + after
        hi = lo if k == "interp" else text.count("\n")
        return k, text, lo, hi
    if k == "multiline":
        text, lo, after = in_text(r, None)
        text += r.choice(["${f(1,\n2 3)}", "${[\n1,\n2 3\n]}", "${(a\nb)}", "${{1:\n 2,\n 3}}"])
        return k, text + after, lo, text.count("\n")
    if k == "raw":
        text = "<script>\nvar a;\n"
        return k, text + "${%s};\n</script>" % r.choice(["a b", "a +", "f(x y)"]), 2, 2
    if k == "dollar":
        text, lo, after = in_text(r, None)
        text += r.choice(["$a(", "$a.b[1", "$a(b c)", "$a[)]", "$a(b]", "$a('", "$class", "$a.if",
                          "$f(x=)", "$a[]"])
        text += after
        return k, text, lo, text.count("\n")
    if k in ("attr", "attr2"):
        value = "${%s}" % bad
        if k == "attr2":
            value = r.choice(["a ", "${1} ", "$$", "" if r.random() < 0.95 else long_text(r)]) + value + r.choice([" b", "${2}", ""])
        return (k,) + element(r, r.choice(["p", "a", "script"]), "href", value)
    if k == "if":
        return (k,) + element(r, "p", p + ("condition" if tal else "if"), bad)
    if k == "unless":
        return (k,) + element(r, "p", p + "unless", bad)
    if k == "for":
        text, lo, hi = element(r, "p", p + ("repeat" if tal else "for"), r.choice(BAD_TARGET))
        return k, text, 0 if tal else lo, hi
    if k == "def":
        return (k,) + element(r, "p", p + "def", r.choice(BAD_DEF))
    if k in ("with", "vars"):
        return (k,) + element(r, "p", p + k, r.choice(BAD_WITH))
    if k == "block":
        return (k,) + element(r, "p", p + "block", r.choice(BAD_NAME))
    if k == "strip":
        return (k,) + element(r, "p", p + ("omit-tag" if tal else "strip"), bad.strip() or "a b")
    if k == "content":
        return (k,) + element(r, "p", p + "content", bad if bad else "a b")
    if k == "replace":
        return (k,) + element(r, "p", p + "replace", bad)
    if k == "replace el":
        if r.random() < 0.4:
            nl = r.choice(["", "\n", "\n\n"])
            return k, "<%sreplace%s>t</%sreplace>" % (p, nl, p), 0, nl.count("\n")
        return (k,) + element(r, p + "replace", "value", bad)
    if k == "attrs":
        return (k,) + element(r, "p", p + "attrs", bad.strip() or "a b")
    if k == "unknown attr":
        # the ones with a value are located by it, others by the element
        value = r.choice(["x", "", "a b", "1"])
        text, lo, hi = element(r, "p", p + r.choice(
            ["foo", "iff", "else", "elif", "contents", "condition", "repeat", "omit-tag", "test",
             "each", "i18n", "import", "extends", "function"]), value)
        return k, text, lo if value else 0, hi
    if k == "unknown el":
        tag = p + r.choice(["foo", "else", "iff", "elif", "strip", "content", "attrs", "defs", "x"])
        nl = r.choice(["", "\n", "\n\n"])
        return k, "<%s%s>t</%s>" % (tag, nl, tag), 0, nl.count("\n")
    if k == "missing":
        tag, attrs = r.choice([("if", ""), ("if", "each='x in y'"), ("unless", ""), ("for", ""),
                               ("for", "test='1'"), ("def", "name='x'"), ("with", ""), ("with", "names='a=1'"),
                               ("vars", "vars='a=1'"), ("block", ""), ("import", "href='a'"),
                               ("import", "alias='a'"), ("import", ""), ("if", "test"), ("unless", "test"),
                               ("for", "each"), ("def", "function"), ("with", "vars"), ("vars", "names"),
                               ("block", "name"), ("import", "href alias='x'"),
                               ("import", "href='x' alias")])
        nl = r.choice([" ", "\n", "\n\n"])
        return k, "<py:%s%s%s>t</py:%s>" % (tag, nl, attrs, tag), 0, nl.count("\n")
    if k == "el":
        tag, attr, value = r.choice([
            ("if", "test", bad), ("unless", "test", bad), ("for", "each", r.choice(BAD_TARGET)),
            ("def", "function", r.choice(BAD_DEF)), ("with", "vars", r.choice(BAD_WITH)),
            ("vars", "names", r.choice(BAD_WITH)), ("block", "name", r.choice(BAD_NAME))])
        a = Attrs(r, "py:" + tag, attr, value)
        return k, "%s>t</py:%s>" % (a.start, tag), 0 if tag == "for" else a.lo, a.hi
    if k == "import" and r.random() < 0.3:
        text = "<py:import\n\nhref='x' alias='y'"
        return k, text + r.choice([">x</py:import>", "><p>x</p></py:import>", " py:if='a'/>",
                                   " py:replace='a'>t</py:import>"]), 0, 2
    if k == "import":
        a = Attrs(r, "py:import", "alias", r.choice(BAD_NAME), [("href", "'x'")])
        return k, a.start.rstrip() + "/>", a.lo, a.hi
    if k == "endtag":
        nl = r.choice(["", "\n", "\n\n"])
        return k, "<b>x%s</i>" % nl, nl.count("\n"), nl.count("\n")
    if k == "endtag2":
        return k, r.choice(["</nosuch>", "</py:nosuch>", "</br>", "</input>", "<p></p></q>"]), 0, 0
    if k == "endtag3":
        return k, r.choice(["<br></br>", "<p>\n<b></p>", "<py:if test='1'>\n</py:for>"]
                           if not tal else ["<br></br>", "<p>\n<b></p>"]), 0, 1
    if k == "reference":
        text, lo, after = in_text(r, None)
        return k, text + r.choice(BAD_REFERENCE) + after, lo, lo
    if k == "decl":
        text, lo, after = in_text(r, None)
        return k, text + r.choice(BAD_DECL) + after, lo, lo
    if k == "code":
        code = r.choice(BAD_CODE)
        lead = r.choice([" ", "\n", "\n\n", " x = 1\n"])
        if lead == "\n" and r.random() < 0.5:
            lead += "y = 2\n"
        text = "<?python" + lead
        return k, text + code + r.choice(["?>", "\n?>", " ?>"]), text.count("\n"), (
            text + code + "\n").count("\n")
    if k == "pi":
        return k, r.choice(["<?python?>", "<?python ?>", "<??>", "<? ?>", "<?x?>"]), 0, 0
    if k == "nested extends":
        return k, "<py:extends>t</py:extends>", 0, 0
    raise AssertionError(k)


def root_defect(rng):
    """at the level of the document: text around of the valid template"""
    k = rng.choice(["text after", "second", "end", "text before", "doctype", "expr after", "decl"])
    if k == "text after":
        return k, "", "\n\nxyz\n", 2, None
    if k == "second":
        return k, "", "\n<p>second</p>", 1, None
    if k == "end":
        return k, "", "\n\n\n</p>", 3, None
    if k == "text before":
        return k, "\nxyz\n", "", None, 1
    if k == "doctype":
        return k, "\n<!DOCTYPE a b c>\n", "", None, 1
    if k == "expr after":
        return k, "", "\n${1}", 1, None
    return k, "\n\n<![if x]>", "", None, 2


def extends_defect(rng):
    bad = rng.choice(["text", "<p>x</p>", "${1}", "<py:if test='1'>x</py:if>", "<br/>",
                      "<?python x = 1?>", "<py:for each='a in b'/>", "<py:with vars='a=1'/>", "&lt;"])
    fine = ["<py:block name='b%d'>x\ny</py:block>", "<!-- c\nd -->", "\n", "<py:def function='f%d'>\n</py:def>",
            "<p py:block='c%d'>x\n</p>", "<py:import href='x' \nalias='a%d'/>"]
    text = "<py:extends href='base.html'>"
    for i in range(rng.randint(0, 4)):
        f = rng.choice(fine)
        text += f % i if "%d" in f else f
    text += rng.choice(["", "\n", "<!-- x -->\n"]) if bad not in ("text", "${1}", "&lt;") else "<!-- x\n -->"
    nested = rng.random() < 0.4
    if nested:
        # something allowed that has a defect inside of it
        head, tail = rng.choice([
            ("<py:block name='n'>x\n", "</py:block>"), ("<py:def function='n()'>", "</py:def>"),
            ("<p py:block='n'>\n", "</p>"), ("<i py:def='n(a)'>", "\n</i>"),
            ("<py:block name='n'><b>\n", "</b></py:block>")])
        bad, source, lo, hi = defect(rng, False)
        bad = "nested " + bad
        start = text.count("\n") + head.count("\n")
        lo, hi = lo + start, hi + start
        text += head + source + tail
    else:
        lo = hi = text.count("\n")
        text += bad
    for i in range(rng.randint(0, 2)):
        text += rng.choice(["\n", "<!--x-->"]) if bad == "text" else fine[0] % (9 + i)
    return bad, text + "</py:extends>", lo, hi


SOUP = """<p> </p> <py:if test=" "> </py:if> <div py:for=" " py:def=" " py:with=" " py:strip=" "
py:content=" " py:replace=" " py:attrs=" " py:block=" " <py:extends href="x"> </py:extends>
<py:import href="x" alias="y"/> ${ $ $$ $a $a( $a[ } { ' " ''' \""" ( ) [ ] & &# &#x &amp; &lt; &#39; &bogus;
<!-- --> <!DOCTYPE html> <! <![CDATA[ ]]> <? <?python ?> x=1 </ < > /> = in a b f(x) : ; # \\ \\n
<script> </script> <style> </style> <br> <br/> </br> <title> <textarea> lambda if else for not def
\x00 \r \n \t é \u2028 \ufeff \xa0 \U0001f600 <P CLASS=x> <a b=c d e='f'> 0x 1e 'a' "b" f'{x}' f"{ b'x'
1_ 0b2 .5. ... := -> @ ~ ! ? ` ^ != <> \\u1234 \\N{x} r'\\' <tal:block <x:y z:w="1"> xmlns:py="x" py:foo="1"
None True await yield return import * ** // async class global nonlocal del pass""".split(" ") + [
    " ", "\n", "\n  ", " in ", "a in b", "  x", '="', "='", '" ', "${a b}", "${x}", "${{", "}}", "((", "a = 1"]


class CHECK(Check):
    id = "C12"
    quick = 24000
    thorough = 400000
    case_timeout = 30
    rule = ("a defect of one of 35 kinds at a known place of a random valid template, also in templates "
            "that are extended or imported, must raise TemplateSyntaxError with the file name and the "
            "line of the defect; every second case is a damaged or random text, which must load or "
            "raise a TemplateSyntaxError with a line of the text. Non-trivial: the error was raised")
    floors = {"located": 5000, "fuzzed": 5000, "fuzz_errors": 2000, "fuzz_loaded": 500, "linked": 200}

    def worker_setup(self):
        from tonnikala.loader import FileLoader
        from tonnikala.runtime.exceptions import TemplateSyntaxError
        self.FileLoader = FileLoader
        self.loaders = {
            (s, t): FileLoader(syntax=s, translatable=t)
            for s, t in [("tonnikala", False), ("tonnikala", True), ("chameleon", False)]}
        self.TSE = TemplateSyntaxError

    def case(self, rng, index, tier):
        tal = rng.random() < 0.15
        if rng.random() < 0.12 and not tal:
            k, source, lo, hi = extends_defect(rng)
            planted = "extends " + k, source, lo, hi
        else:
            g = gen.TemplateGen(
                rng, gen.ExprGen(rng, newlines=False, angle=not tal), tal=tal,
                controls=("if", "for") if tal else ("if", "unless", "for", "def", "with", "block"),
                budget=rng.choice([4, 10, 20]), depth=3, code=not tal and rng.random() < 0.2, large=0.1)
            nodes = g.template()
            holders = []

            def visit(node):
                # a branch that can not be taken is left out unseen
                if isinstance(node, C) and node.kind in ("if", "unless") and constant(node.arg):
                    return
                if isinstance(node, El) and node.tag not in model.VOID and node.tag not in model.RAW \
                        and node.content is None or isinstance(node, C):
                    holders.append(node)
                for c in node.children:
                    visit(c)

            visit(nodes[-1])
            mark = Cm(MARK)
            holder = rng.choice(holders)
            holder.children.insert(rng.randint(0, len(holder.children)), mark)
            source = model.serialize(nodes, rng, dialect="tal" if tal else "py",
                                     junk=False)
            marker = "<!--%s-->" % MARK
            if rng.random() < 0.03:
                # far from the start of the text
                source = source.replace(marker, long_text(rng) + marker)
            at = source.index(marker)
            if index % 2 == 0 and rng.random() < 0.12:
                k, before, after, down, up = root_defect(rng)
                source = source.replace(marker, "")
                start = len(before) + len(source.rstrip())
                source = before + source + after
                if up is not None:
                    lo = hi = up
                else:
                    lo = hi = source.count("\n") - after.count("\n") + down
                if k.startswith(("text", "expr")):
                    # the text includes the blanks around of it
                    lo = 0 if up is not None else source.count("\n", 0, start)
                planted = k, source, lo, hi
            else:
                k, text, lo, hi = defect(rng, tal)
                line = source.count("\n", 0, at)
                planted = k, source.replace(marker, text), line + lo, line + hi
        if index % 2:
            return "fuzz", self.damage(rng, planted[1]), rng.choice(sorted(self.keys)), None
        mode = rng.choice(["string"] * 8 + ["file", "parent", "grandparent", "import"])
        if tal:
            mode = "string"
        return "planted", planted, "chameleon" if tal else "tonnikala", mode

    keys = [("tonnikala", False), ("tonnikala", True), ("chameleon", False)]

    def damage(self, rng, source):
        if rng.random() < 0.25:
            source = "".join(rng.choice(SOUP) for _ in range(rng.randint(1, 40)))
            if rng.random() < 0.7:
                source = "<div>%s</div>" % source
            return source
        for _ in range(rng.choice([1, 1, 2, 3, 8])):
            a = rng.randint(0, len(source))
            b = min(len(source), a + rng.choice([0, 0, 1, 1, 2, 5, 20]))
            k = rng.randrange(6)
            if k == 0:
                source = source[:a] + source[b:]
            elif k in (1, 2):
                source = source[:a] + rng.choice(SOUP) + source[a:]
            elif k == 3:
                source = source[:a] + rng.choice(SOUP) + source[b:]
            elif k == 4:
                c = rng.randint(0, len(source))
                source = source[:c] + source[a:b] + source[c:]
            else:
                source = source[:a] if rng.random() < 0.3 else source[:a] + chr(
                    rng.choice([0, 1, 9, 10, 13, 32, 34, 36, 38, 39, 60, 62, 123, 125, 127, 133, 160,
                                0x2028, 0xfeff, 0x10ffff])) + source[b:]
        return source

    def describe(self, case):
        return repr(case[:1] + case[2:]) + "\n" + (case[1] if case[0] == "fuzz" else "%s, lines %d-%d\n%s" % (
            case[1][0], case[1][2] + 1, case[1][3] + 1, case[1][1]))

    def run(self, case, obs):
        if case[0] == "fuzz":
            self.fuzz(case, obs)
        else:
            self.planted(case, obs)

    def fuzz(self, case, obs):
        _, source, key, _ = case
        obs.count("fuzzed")
        try:
            self.loaders[key].load_string(source, filename="dir/F.html")
            obs.count("fuzz_loaded")
            return
        except self.TSE as e:
            obs.count("fuzz_errors")
            self.well_formed(e, source, "dir/F.html", case)
            obs.state("fuzz_messages", str(e.message)[:25])
        except RecursionError:
            obs.count("fuzz_recursion")
        except OSError:
            # of the template to extend
            if "extends" not in source.lower():
                raise
            obs.count("fuzz_not_found")
        except Exception as e:
            if isinstance(e, UnicodeEncodeError):
                obs.count("fuzz_surrogates")
                return
            if isinstance(e, SystemError) and "\0" in source:
                # the tokenizer of CPython 3.12 itself fails on some null bytes
                obs.count("fuzz_interpreter")
                return
            raise Violation("loading a text raises %s instead of TemplateSyntaxError: %s" % (
                type(e).__name__, e), source=source, syntax=key)

    def well_formed(self, e, source, filename, case):
        lines = source.count("\n") + 1
        if e.filename != filename:
            raise Violation("the error has the file name %r instead of %r" % (e.filename, filename),
                            source=source, error=repr(e))
        if not isinstance(e.lineno, int) or not 1 <= e.lineno <= max(lines, len(source.splitlines())) + 1:
            raise Violation("the error has the line number %r, of %d" % (e.lineno, lines),
                            source=source, error=repr(e.message))
        try:
            text = str(e)
            message = str(e.message)
        except Exception as e2:
            raise Violation("the error cannot be formatted: %r" % e2, source=source)
        if not message.strip() or message not in text:
            raise Violation("the error is formatted without its message: %r" % text, source=source)

    def planted(self, case, obs):
        _, (kind, source, lo, hi), syntax, mode = case
        folder = None
        filename = "dir/t %s.html" % kind[:3]
        try:
            try:
                if mode == "string":
                    self.loaders[syntax, False].load_string(source, filename=filename)
                else:
                    folder = tempfile.mkdtemp(dir=env.scratch_dir())
                    filename = os.path.join(folder, "bad.html")
                    with open(filename, "w", encoding="utf-8", newline="") as f:
                        f.write(source)
                    obs.count("linked")
                    self.linked(folder, mode)
            except self.TSE as e:
                self.well_formed(e, source, filename, case)
                if not lo + 1 <= e.lineno <= hi + 1:
                    raise Violation("a defect (%s) in line %d%s is reported in line %d" % (
                        kind, lo + 1, "" if lo == hi else " to %d" % (hi + 1), e.lineno),
                        source=source, error=repr(e.message))
                text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
                if 'File "%s", line %d' % (filename, e.lineno) not in text or \
                        str(e.message) not in text:
                    raise Violation("the formatted error does not show the place in the template",
                                    source=source, error=text)
                obs.count("located")
                obs.count("kind." + kind)
                obs.distinct(source)
                obs.sample("%s: line %d: %s\n%s" % (kind, e.lineno, e.message, source[:300]))
                return
            except Exception as e:
                raise Violation("a defect (%s) raises %s instead of TemplateSyntaxError: %s" % (
                    kind, type(e).__name__, e), source=source)
            raise Violation("a template with a defect (%s) in line %d loads" % (kind, lo + 1),
                            source=source)
        finally:
            if folder:
                shutil.rmtree(folder, ignore_errors=True)

    def linked(self, folder, mode):
        loader = self.FileLoader([folder])
        if mode == "file":
            loader.load("bad.html")
            return
        for name, text in [
                ("child.html", "\n\n<py:extends href='bad.html'><py:block name='x'/></py:extends>"),
                ("grandchild.html", "\n<py:extends href='child.html'>\n</py:extends>"),
                ("importer.html", "<p><py:import href='bad.html' alias='a'/>\n\n\n${a}</p>")]:
            with open(os.path.join(folder, name), "w") as f:
                f.write(text)
        if mode == "parent":
            loader.load("child.html")
        elif mode == "grandparent":
            loader.load("grandchild.html")
        else:
            loader.load("importer.html").render({})
