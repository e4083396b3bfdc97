import html
import io
import os
import random
import re
import shutil
import tempfile

from markupsafe import Markup

from ..harness import Check, Violation
from .. import env, gen, model
from ..model import C, Cm, Code, E, El, I, T
from . import c08
from .common import compare, outcome

TEXTS = ["Hello", "Hello, world!", "a < b & c", "\"quoted\" 'text'", "é ñ 中", "100 %", "$5", "$",
         "two\nlines", "  inner   spaces ", "tab\tseparated", "x", "{}", "%s items", "&amp;",
         "\xa0hard\xa0", "Click here", "one", "one two", "value", "...", "-", "0", "😀",
         "gettext", "}", "${x}", "a\u2028b", "\u3000wide\u3000"]
_function = re.compile(r"(?<!\w)(_|[np]?gettext)(?!\w)")
SPACE = ["", "", " ", "\n", "  \n ", "\t", " \t", "\xa0"]


class Lazy:
    """a lazily translated string"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return "<Lazy>"


class MsgExprGen(gen.ExprGen):
    """some of the strings are calls of the translation functions"""

    def __init__(self, rng, messages, **kw):
        super().__init__(rng, **kw)
        self.messages = messages

    def message(self):
        r = self.rng
        text = r.choice(TEXTS + ["m%d" % r.randrange(50)] * 8)
        lit = gen.pystr(r, text)
        if "\\n" not in lit and "\n" not in lit and r.random() < 0.2 and len(text) > 1:
            lit = gen.pystr(r, text[:1]) + " " + gen.pystr(r, text[1:])
        k = r.randrange(10)
        if k < 5:
            self.messages.add((None, text, None))
            return E("gettext(%s)" % lit)
        if k < 7:
            self.messages.add((None, text, None))
            return E("_(%s)" % lit)
        if k == 7:
            plural = "many " + text
            self.messages.add((None, text, plural))
            return E("ngettext(%s, %s, %s)" % (lit, gen.pystr(r, plural), r.choice(["1", "2", "i1"])))
        if k == 8:
            self.messages.add(("ctx", text, None))
            return E("pgettext('ctx', %s)" % lit)
        self.messages.add((None, text, None))
        return E("gettext(%s%s)" % (lit, r.choice([" ", ",", ""])))

    def str_(self, env, d):
        if self.rng.random() < 0.12:
            return self.message()
        return super().str_(env, d)


class I18nGen(gen.TemplateGen):
    def static_text(self):
        r = self.rng
        if r.random() < 0.3:
            return super().static_text()
        return r.choice(SPACE) + r.choice(TEXTS) + r.choice(SPACE)

    def attributes(self, env):
        r = self.rng
        rv = super().attributes(env)
        names = {n for n, _ in rv}
        for n in sorted(model.TRANSLATABLE_ATTRS):
            if n not in names and r.random() < 0.1:
                rv.append((n, self.attribute(env)))
        return rv


def static_messages(nodes):
    """every static text that is translated if it is rendered"""
    found = set()

    def text(s):
        s = s.strip()
        if s:
            found.add(s)

    def visit(node, raw):
        if isinstance(node, T):
            if not raw:
                text(node.text)
            return
        if isinstance(node, El):
            for name, parts in node.attrs:
                if name in model.TRANSLATABLE_ATTRS and parts:
                    for p in parts:
                        if not isinstance(p, I):
                            text(p)
            raw = raw or node.tag in model.RAW
            if node.content is not None:
                return
        for c in node.children:
            visit(c, raw)

    for n in nodes:
        visit(n, False)
    return found


class Recording(model.Reference):
    """notes the static texts looked up"""

    def __init__(self, nodes, context, gettext, seen):
        def recorded(message):
            seen.append(message)
            return gettext(message)

        super().__init__(nodes, context, gettext=recorded, translatable=True)


class Linking(c08.World):
    """several templates with translation"""

    class part(c08.Part):
        def __init__(self, nodes, context):
            def recorded(message):
                self.world.seen.append(message)
                return context["gettext"](message)

            model.Reference.__init__(self, nodes, context, gettext=recorded, translatable=True)

    seen = ()


def merged_parts(nodes):
    """attribute values with their neighbouring static parts joined"""
    for n in nodes:
        if isinstance(n, El):
            for i, (name, parts) in enumerate(n.attrs):
                if parts:
                    rv = []
                    for p in parts:
                        if not isinstance(p, I) and rv and not isinstance(rv[-1], I):
                            rv[-1] += p
                        else:
                            rv.append(p)
                    n.attrs[i] = (name, rv)
        merged_parts(n.children)


def joined(nodes):
    """a tree with its neighbouring texts joined"""
    nodes = gen.merge(nodes)
    for n in nodes:
        if getattr(n, "children", None):
            n.children = joined(n.children)
    return nodes


class CHECK(Check):
    id = "C17"
    quick = 9000
    thorough = 120000
    rule = ("templates full of texts, attributes and calls of translation functions, rendered "
            "with and without translation over several catalogues (with markup, safe and lazy "
            "results, by the loader and after switching it), compared with a model and its "
            "lookups, and put through the extractors, whose messages must be those of the tree, in the lines they are written in. "
            "Non-trivial: three messages looked up")
    floors = {"lookups": 30000, "extracted": 30000, "function_messages": 4000, "chained": 2000,
              "located": 60000}

    def worker_setup(self):
        from tonnikala.loader import FileLoader, Loader
        from tonnikala.i18n import TonnikalaExtractor, extract_tonnikala, Options
        self.on = Loader(translatable=True)
        self.off = Loader()
        self.FileLoader = FileLoader
        self.Extractor, self.extract, self.Options = (
            TonnikalaExtractor, extract_tonnikala, Options)

    def case(self, rng, index, tier):
        if index % 8 == 5:
            chain = c08.CHECK.case(c08.CHECK(), rng, index, tier)
            for t in chain[0].values():
                t.nodes = joined(t.nodes)
            return chain, None, None, rng.randrange(7), rng.randrange(10 ** 6)
        messages = set()
        x = MsgExprGen(rng, messages)
        g = I18nGen(rng, x, depth=rng.choice([2, 3, 4]), budget=rng.choice([8, 20, 35]), large=0.05)
        nodes = g.template()
        merged_parts(nodes)
        source = model.serialize(nodes, rng, plain=rng.random() < 0.3,
                                 charrefs=rng.random() < 0.5)
        if rng.random() < 0.2:
            source = "<?python unused = gettext ?>" + source
        return nodes, source, gen.make_context(rng), rng.randrange(7), rng.randrange(10 ** 6)

    def describe(self, case):
        if case[1] is None:
            return c08.CHECK.describe(self, case[0])
        return case[1] + "\n" + repr(case[2])

    def catalogue(self, kind, salt):
        def pick(m):
            return random.Random("%s %s" % (salt, m))

        def translate(m):
            if kind == 0:
                return m
            if kind == 1:
                return m.upper()
            if kind == 2:
                return "<b>%s</b> & \"'" % m
            if kind == 3:
                return Markup("<i>%s</i>") % m
            if kind == 4:
                return Lazy("<lazy & " + m)
            r = pick(m)
            return r.choice([m, "", " ", gen.hostile(r), Markup("<u>&amp;</u>"), Lazy("<l>"),
                             gen.Html("<i>"), 7, "$s1", "${s1}", gen.StrSub("<s>")])

        return translate

    def functions(self, translate):
        return {
            "gettext": translate,
            "_": lambda m: "U" + str(translate(m)),
            "ngettext": lambda a, b, n: translate(a if n == 1 else b),
            "pgettext": lambda c, m: "%s:%s" % (c, m),
        }

    def run(self, case, obs):
        nodes, source, ctx, kind, salt = case
        translate = self.catalogue(kind, salt)
        if source is None:
            self.chain(nodes, translate, obs, self.describe(case))
            return
        seen, got_seen = [], []

        def recorded(m):
            got_seen.append(m)
            return translate(m)

        fns = self.functions(translate)
        expected = outcome(lambda: Recording(nodes, dict(ctx, **fns), translate, seen).render())
        # those that expressions look up are in both
        direct = []

        def noted(m):
            direct.append(m)
            return translate(m)

        outcome(lambda: model.Reference(nodes, dict(ctx, **self.functions(noted)),
                                        gettext=translate, translatable=True).render())
        template = outcome(lambda: self.on.load_string(source))
        if template[0] == "error":
            raise Violation("the template is rejected", source=source, got=template)
        got = outcome(lambda: template[1].render(dict(ctx, **self.functions(recorded))))
        compare(expected, got, source, what="the translated output differs", catalogue=kind)
        if expected[0] == "ok" and set(got_seen) != set(seen) | set(direct):
            raise Violation("other messages are looked up", source=source,
                            expected=sorted(set(seen) | set(direct)), got=sorted(set(got_seen)))
        obs.count("renders")
        obs.count("lookups", len(seen))

        # without a catalogue
        rest = {k: v for k, v in fns.items() if k != "gettext"}
        expected = outcome(lambda: model.Reference(
            nodes, dict(ctx, **rest), gettext=lambda m: m, translatable=True).render())
        got = outcome(lambda: template[1].render(dict(ctx, **rest)))
        compare(expected, got, source, what="the output without a catalogue differs")

        # translation switched off
        expected = outcome(lambda: model.Reference(nodes, dict(ctx, **fns)).render())
        got_seen.clear()
        got = outcome(lambda: self.off.load_string(source).render(
            dict(ctx, **self.functions(recorded))))
        compare(expected, got, source, what="the untranslated output differs", catalogue=kind)
        if expected[0] == "ok" and set(got_seen) != set(direct):
            raise Violation("messages are looked up with translation off", source=source,
                            expected=sorted(set(direct)), got=sorted(set(got_seen)))

        static = static_messages(nodes)
        self.extraction(source, nodes, static, set(seen), obs, salt)
        if len(seen) >= 3:
            obs.distinct(source)
            obs.sample(source)

    def chain(self, case, translate, obs, text):
        """templates that extend and import each other"""
        templates, order, ctx = case
        folder = tempfile.mkdtemp(dir=env.scratch_dir())
        try:
            for name in order:
                path = os.path.join(folder, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(templates[name].source)
            loader = self.FileLoader([folder], translatable=True)
            for name in order:
                seen, got_seen = [], []
                world = Linking(templates, dict(ctx, gettext=translate))
                world.seen = seen

                def recorded(m):
                    got_seen.append(m)
                    return translate(m)

                expected = outcome(lambda: world.render(name))
                got = outcome(lambda: loader.load(name).render(dict(ctx, gettext=recorded)))
                compare(expected, got, text, what="%s is translated wrong" % name)
                if expected[0] == "ok" and set(seen) != set(got_seen):
                    raise Violation("other messages are looked up for %s" % name, source=text,
                                    expected=sorted(set(seen)), got=sorted(set(got_seen)))
                obs.count("chained")
                obs.count("lookups", len(seen))
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    def extraction(self, source, nodes, static, looked_up, obs, salt):
        if not looked_up <= static:
            raise AssertionError("the model is wrong: %r" % (looked_up - static))
        functions = set()
        for e in expressions(nodes):
            functions |= calls(e)
        expected = {(None, s, None) for s in static} | functions
        path = os.path.join(env.scratch_dir(), "t%d.tk" % os.getpid())
        way = salt % 4
        stream, name = None, path
        if way == 0:
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(source)
        elif way == 1:
            stream, name = io.StringIO(source), "f.tk"
        else:
            stream, name = io.BytesIO(source.encode("utf-8")), "f.tk"
        try:
            found = list(self.Extractor()(name, self.Options(), stream))
        except Exception as e:
            raise Violation("the extractor fails: %r" % e, source=source)
        finally:
            if way == 0:
                os.unlink(path)
        got = {(m.msgctxt or None, m.msgid, m.msgid_plural or None) for m in found}
        self.agree("TonnikalaExtractor", expected, got, source)
        for m in found:
            if m.location[0] != name:
                raise Violation("a message is located in %r" % (m.location,), source=source)
            self.located(m.location[1], (m.msgctxt or None, m.msgid, m.msgid_plural or None),
                         static, functions, source, obs)
        babel = set()
        for line, function, msgid, comments in self.extract(
                io.BytesIO(source.encode("utf-8")), ["gettext"], [], {}):
            msgid = list(msgid)
            ctx = msgid.pop(0) if function in ("pgettext", "npgettext") else None
            one = msgid.pop(0)
            many = msgid.pop(0) if function in ("ngettext", "npgettext") else None
            if msgid or not isinstance(line, int):
                raise Violation("Babel cannot use %r" % ((line, function, msgid),), source=source)
            babel.add((ctx, one, many))
            self.located(line, (ctx, one, many), static, functions, source, obs)
        self.agree("extract_tonnikala", expected, babel, source)
        obs.count("extracted", len(got))
        obs.count("function_messages", len(functions))

    @staticmethod
    def located(line, message, static, functions, source, obs):
        """is the message, or the call with it, in the line?"""
        lines = source.split("\n")
        text = html.unescape(lines[line - 1]) if 1 <= line <= len(lines) else None
        msgid = message[1]
        if text is None:
            found = False
        elif message not in functions:
            found = re.split(r"[\s$]", msgid)[0] in text
        elif message != (None, msgid, None) or msgid not in static:
            found = _function.search(text)
        else:
            return
        if not found:
            raise Violation("the message %r is located in line %d" % (msgid, line), source=source)
        obs.count("located")

    @staticmethod
    def agree(what, expected, got, source):
        if expected != got:
            raise Violation(
                "%s: missing %r, unexpected %r" % (what, sorted(expected - got, key=str)[:5],
                                                   sorted(got - expected, key=str)[:5]),
                source=source)


def expressions(nodes):
    """those of interpolations, content and replace"""
    for n in nodes:
        if isinstance(n, I):
            yield n.expr
        elif isinstance(n, El):
            for _, parts in n.attrs:
                for p in parts or ():
                    if isinstance(p, I):
                        yield p.expr
            if n.content is not None:
                yield n.content
                continue
        yield from expressions(n.children)


def calls(e):
    """the messages of the calls in an expression"""
    import ast
    rv = set()
    for node in ast.walk(ast.parse(e.strip(" \t"), mode="eval")):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            args = [a.value for a in node.args if isinstance(a, ast.Constant)]
            f = node.func.id
            if f in ("gettext", "_"):
                rv.add((None, args[0], None))
            elif f == "ngettext":
                rv.add((None, args[0], args[1]))
            elif f == "pgettext":
                rv.add((args[0], args[1], None))
    return rv
