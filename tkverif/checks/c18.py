import os
import shutil
import tempfile

from ..harness import Check, Violation
from .. import env, gen, model
from ..model import C, Cm, Doc, El, I
from .common import compare, outcome

MUTATIONS = ["<", ">", "/", "\"", "'", "=", "&", "$", "${", "}", "</b>", "<b>", "</", "<!--", "-->",
             " ", "\n", "a", ":", "&amp;", "&#60;", "&#x26;", "<br/>", "<p/>", "<script>", "\x00",
             "<!DOCTYPE html>", "$$", "é"]


class CHECK(Check):
    id = "C18"
    quick = 9000
    thorough = 120000
    rule = ("random trees with conditions, loops, conditional tags, contents, replacements and "
            "attributes are written as Chameleon and as Tonnikala templates, which must both render "
            "like the model; damaged templates without controls must be treated alike. "
            "Non-trivial: two control attributes and an output of more than ten characters")
    floors = {"renders": 6000, "damaged": 1500, "refused": 500, "files": 500}

    def worker_setup(self):
        from tonnikala.loader import FileLoader, Loader
        self.Loader, self.FileLoader = Loader, FileLoader
        self.tal = Loader(syntax="chameleon")
        self.py = Loader()
        self.folder = tempfile.mkdtemp(dir=env.scratch_dir())

    def worker_teardown(self):
        shutil.rmtree(self.folder, ignore_errors=True)

    def case(self, rng, index, tier):
        damaged = index % 4 == 3
        x = gen.ExprGen(rng, tick=rng.random() < 0.4)
        g = gen.TemplateGen(rng, x, tal=True, controls=() if damaged else ("if", "for"), dyn=not damaged,
                 strip=not damaged, depth=rng.choice([2, 3, 4, 5]),
                 budget=rng.choice([6, 12]) if damaged else rng.choice([10, 25, 50]), large=0.05)
        nodes = g.template()
        if not damaged:
            for _ in range(rng.choice([0, 0, 1, 3])):
                self.stack(rng, g, nodes)
        if rng.random() < 0.1:
            nodes.insert(0, Doc(rng.choice(["<!DOCTYPE html>", "<!DOCTYPE html  SYSTEM 'about:legacy-compat'>"])))
        ctx = gen.make_context(rng)
        if not damaged:
            return ("pair", nodes, model.serialize(nodes, rng, "tal", plain=rng.random() < 0.2),
                    model.serialize(nodes, rng, plain=rng.random() < 0.2), ctx, g.used,
                    rng.random() < 0.1)
        source = model.serialize(nodes, rng, "tal", plain=rng.random() < 0.4)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randint(0, len(source))
            k = rng.randrange(3)
            if k == 0:
                source = source[:i] + source[i + rng.choice([1, 1, 2, 5]):]
            elif k == 1:
                source = source[:i] + rng.choice(MUTATIONS) + source[i:]
            else:
                j = rng.randint(0, len(source))
                source = source[:i] + source[j:j + rng.choice([1, 3, 8])] + source[i:]
        return "damaged", None, source, source, ctx, None, False

    def stack(self, rng, g, nodes):
        """all control attributes on one element"""
        e = gen.Env()
        node = rng.choice([I(g.value(e)), El(rng.choice(["b", "td", "br"]), g.attributes(e)),
                           El("i", g.attributes(e), [I(g.value(e))])])
        if isinstance(node, El):
            if rng.random() < 0.5:
                node.strip = g.condition(e, 1)
            if rng.random() < 0.5:
                node.dyn = g.dyn_attrs(e)
        node = C("for", model.E("zz in " + rng.choice(["ls", "li", "(1, 2)", "range(3)", "()"])),
                 [node])
        node = C("if", g.condition(e, 1), [node])
        root = nodes[-1]
        root.children.insert(rng.randint(0, len(root.children)), node)
        root.children = gen.merge(root.children)

    def describe(self, case):
        return "%s\n%s\n%r" % (case[2], case[3], case[4])

    def run(self, case, obs):
        kind, nodes, source, other, ctx, used, file = case

        def with_tick():
            n = [0]

            def tick():
                n[0] += 1
                return n[0]

            return dict(ctx, tick=tick)

        if kind == "damaged":
            self.damaged(source, ctx, obs)
            return
        expected = outcome(lambda: model.Reference(nodes, with_tick()).render())
        if file:
            with open(os.path.join(self.folder, "t.pt"), "w", encoding="utf-8", newline="") as f:
                f.write(source)
            loader = self.FileLoader([self.folder], syntax="chameleon")
            got = outcome(lambda: loader.load("t.pt").render(with_tick()))
            obs.count("files")
        else:
            got = outcome(lambda: self.tal.load_string(source).render(with_tick()))
        compare(expected, got, source)
        got = outcome(lambda: self.py.load_string(other).render(with_tick()))
        compare(expected, got, other, what="the Tonnikala template differs")
        obs.count("renders")
        obs.count("errors" if got[0] == "error" else "rendered_ok")
        for k, n in used.items():
            obs.count("used." + k, n)
        if file:
            self.refusals(source, ctx, obs)
        if got[0] == "ok":
            obs.count("output_chars", len(got[1]))
            if len(got[1]) > 10 and source.lower().count("tal:") >= 2:
                obs.distinct(source)
                obs.sample(source)

    def refusals(self, source, ctx, obs):
        def tried(what, function):
            obs.count("refused")
            got = outcome(function)
            if got[0] == "ok" or type(got[2]) is not ValueError:
                raise Violation("%s does not raise ValueError" % what, source=source,
                                got=repr(got))

        tried("translation", lambda: self.Loader(
            syntax="chameleon", translatable=True).load_string(source))
        tried("translation of a file", lambda: self.FileLoader(
            [self.folder], syntax="chameleon", translatable=True).load("t.pt"))
        for name in ("Chameleon", "tal", "", "chameleon ", None, 0, "jinja2", "tonnikala_js"):
            tried("syntax %r" % (name,), lambda: self.Loader(syntax=name).load_string(source))

    def damaged(self, source, ctx, obs):
        text = source.lower()
        if "<!--!" in text or "<?" in text or "py:" in text or "tal:" in text:
            obs.count("skipped")
            return
        a = outcome(lambda: self.tal.load_string(source))
        b = outcome(lambda: self.py.load_string(source))
        obs.count("damaged")
        if a[0] != b[0]:
            raise Violation("accepted in one syntax only", source=source, tal=repr(a), py=repr(b))
        if a[0] == "error":
            obs.count("damaged_rejected")
            for got in a, b:
                if got[1] != "TemplateSyntaxError":
                    raise Violation("%s instead of a template syntax error" % got[1],
                                    source=source, got=repr(got))
            if a[2].lineno != b[2].lineno or str(a[2]) != str(b[2]):
                raise Violation("other errors", source=source, tal=str(a[2]), py=str(b[2]))
            return
        compare(outcome(lambda: b[1].render(dict(ctx))), outcome(lambda: a[1].render(dict(ctx))),
                source, what="the syntaxes differ")
        obs.count("damaged_rendered")
