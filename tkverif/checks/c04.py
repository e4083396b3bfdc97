import os
import re

from ..harness import Check
from .. import gen, model
from ..model import E, El, I, T
from .common import outcome, compare

# expressions whose end is hard to see; <E> stands for another expression
TRICKY = open(os.path.join(os.path.dirname(__file__), "c04_expressions.txt"), encoding="utf-8").read()

FOLLOW = ["", " ", ".", "..", ". x", ".5", " (x)", " [0]", "{", "}", "}}", ")", "]", "'s", '"', "-", ":", ";", ",",
          "$", "$$", "$ ", "$5", "$.", "${", "$x", "\n", "\n.x", "!", "/", "\\", "é", "(", "[", ".x", "x", "_", "1",
          "()", "[0]", ".x()", "&", "<", "%s", "#", "=", "+ 1", "@", "~", "`", "\u2028", "·"]

DOLLAR = ["s1", "o1", "o1.name", "o1.sub.name", "o1.m(s1)", "o1.m('}')", "o1.m(')')", "f1(f1(s1))", "f1((s1))",
          "d1['a']", 'd1["c d"]', "d1['a'].upper()", "ls", "o1['x'][0]", "o1.items[0]", "f1([s1, ']'])",
          "f1({'a': '}'})", "o1.me().me().name", "f1(f'{s1})')", "f1('''\n)''')", "f1(\n s1\n)", "f1(x='(')",
          "o1.m(s1)[1:3]", "ident(f1)(s1)", "f1((lambda: (1))())", "f1(\"\\\")\")", "éa", "o1.é", "aé", "_x",
          "f1()", "o1.m()", "i1", "f1(')' if i1 < 2 else ']')", "o1[[1, 2]]", "o1[{'a': 1}['a']]",
          "f1(s1)(1)" , "o1.me().sub.n", "f1(*ls)", "o1.m(**{'x': ')'})", "x_1", "f1( s1 )", "o1[ 'a' ]"]

TEXTS = ["$", "$$", "$$$", "$$$$", "$ ", "$5", "$.", "${", "${s1}", "$s1", "a$", "$a$b", "{s1}", "}{", "{", "}", "$-",
         "5$", "$é", "$(x)", "$[", "$\n", "$'", "$\"", "$<", "$&", "costs $5.00", "$_", "$$s1", "$${s1}", "a}b", "\\${s1}",
         "\\$s1", "plain", " ", "\n", "<b>", "&", "$1$2"]


def deep(rng):
    """an expression of many braces, tokens or characters"""
    n = rng.choice([3, 6, 9, 17, 33])
    wide = rng.choice([100, 300, 1100])
    return rng.choice([
        "{'a': " * n + "s1" + "}" * n + "['a']" * n,
        "f1(" * n + "s1" + ")" * n,
        "[" * n + "'}'" + "]" * n + "[0]" * n,
        "(lambda: {'k': " * n + "s2" + "}.get('k'))()" * n,
        "o1" + ".me()" * n + ".name",
        "[%s][%d]" % (", ".join("'}%d'" % i for i in range(wide)), wide - 1),
        "'%s'" % ("}{x" * wide),
        "s1" + " " * wide + "+ '}'",
        "(%s)" % " + ".join(["s1"] * 100),
        "f1(\n" * n + "'}'" + ")" * n])


def deep_dollar(rng):
    n = rng.choice([3, 5, 7, 9, 17, 33])
    return rng.choice([
        "o1" + ".me()" * n + ".name",
        "o1.m(%s)" % ("(" * n + "s1" + ")" * n),
        "ident(%ss1%s)%s" % ("[" * n, "]" * n, "[0]" * n),
        "f1(" * n + "')'" + ")" * n,
        "f1('%s')" % (")x" * n * 40),
        "s1" + ".lower()" * n,
        "f1(\n" * n + "s1" + "\n)" * n,
        "ident({'a': '%s'})['a']%s" % ("}" * n, "[:]" * n)])


class CHECK(Check):
    id = "C04"
    quick = 20000
    thorough = 300000
    rule = ("texts, attribute values and script contents of alternating static parts full of dollars, "
            "braces, quotes and markup, and expressions full of nested braces, quotes, f-strings and "
            "line breaks, in all spellings of an interpolation; the output must be the static parts "
            "around the values of eval. Non-trivial: at least two interpolations")
    floors = {"interpolations": 20000}

    def worker_setup(self):
        from tonnikala.loader import Loader
        self.loader = Loader()
        self.tricky = TRICKY.rstrip("\n").split("\n%%\n")
        for t in self.tricky:
            compile(t.replace("<E>", "s1").strip(" "), "x", "eval")

    def case(self, rng, index, tier):
        ctx = gen.make_context(rng)
        o1 = ctx["o1"]
        o1.é = "attr-é"
        ctx.update({"ééé": "name<é", "éa": "x", "aé": 5, "_x": "under", "x_1": "x1"})
        if not ctx["ls"]:
            ctx["ls"] = ["q"]
        env = gen.Env()
        x = gen.ExprGen(rng, newlines=True)
        place = rng.choice(["text", "text", "attr", "attr", "script", "title"])

        def expr():
            k = rng.random()
            if rng.random() < 0.03:
                return I(E(deep(rng)), "{")
            if k < 0.6:
                t = rng.choice(self.tricky)
                inner = rng.choice(["s1", "'}'", "i1", "f1('{')", "mk"])
                if k < 0.1:
                    inner = rng.choice(self.tricky).replace("<E>", "s2")
                    if "\n" in inner or inner.lstrip() != inner:
                        inner = "s2"
                    else:
                        inner = "(%s)" % inner
                e = t.replace("<E>", inner)
                try:
                    compile(e.strip(" "), "x", "eval")
                except SyntaxError:
                    e = "s1"
            else:
                e = str(x.any_(env, 3))
            return I(E(e), "{")

        def dollar():
            if rng.random() < 0.05:
                return I(E(deep_dollar(rng)), "$")
            e = rng.choice(DOLLAR)
            return I(E(e), "$" if e not in ("éa",) else "{")

        parts = []
        n = rng.choice([1, 1, 2, 3, 5, 8])
        for _ in range(n):
            if rng.random() < 0.5:
                parts.append(T(rng.choice(TEXTS) + (rng.choice(TEXTS) if rng.random() < 0.3 else "")))
            parts.append(expr() if rng.random() < 0.6 else dollar())
            if rng.random() < 0.7:
                parts.append(T(rng.choice(FOLLOW)))
        parts = gen.merge(parts)
        if place == "script":
            # the source of raw elements cannot have all of these
            parts = [p for p in parts if "</" not in (p.text if isinstance(p, T) else p.expr)]
        layout = rng.random() < 0.5
        if place == "attr":
            src = [p.text if isinstance(p, T) else p for p in parts]
            root = El("p", [("a", ["x&"]), ("t", src or ["q"])], [T("x")])
        elif place == "script":
            root = El("div", [], [T("a"), El("script", [], parts), T("b")])
        else:
            root = El("p" if place == "text" else "title", [], parts)
        s = model.Serializer(model.Layout(rng, layout), "py", junk=False)
        s.elementary = lambda node: False
        source = s.nodes([root], root=True)
        return [root], source, ctx, sum(isinstance(p, I) for p in parts), place

    def describe(self, case):
        return case[1]

    def run(self, case, obs):
        nodes, source, ctx, n, place = case
        expected = outcome(lambda: model.Reference(nodes, ctx).render())
        got = outcome(lambda: self.loader.load_string(source).render(ctx))
        compare(expected, got, source)
        obs.count("templates")
        obs.count("interpolations", n)
        obs.count("place." + place)
        obs.count("errors", got[0] == "error")
        if n >= 2:
            obs.distinct(source)
            obs.sample(source)
