import copy
import re
import warnings

from markupsafe import Markup

from ..harness import Check, Violation
from .. import gen, model
from ..model import C, E, El, I, T
from .common import compare, outcome

#: constants of Python and such expressions as look like it
CONSTANTS = [
    "1", "0", "-1", "+0", "1.5", "0.0", "-0.0", "0j", "1 + 2j", "0x10", "1_000", "1e400", "''", '""',
    "'x'", "'' ''", "'a' 'b'", "b''", "b'x'", "'''t'''", "r'\\d'", "'<b>'", "'&'", "None", "True", "False",
    "...", "()", "(0,)", "[]", "[0]", "{}", "{'a': 1}", "{0}", "set()", "(())", "((0))", "[[]]", "not 1",
    "not 0", "not ''", "not not ''", "not not not 'x'", "not None", "not []", "not (0,)", "not {}",
    "(not True)", "not -1", "not 0.0", "not ...", "'False'", "'0'", "' '",
    # no constants to the compiler (yet)
    "1 and 0", "0 or 1", "1 and 2 and 0", "'' or []", "not (1 and 0)", "1 < 2", "2 < 1", "1 == 1.0",
    "1 + 1", "1 - 1", "2 * 0", "~-1", "-True", "--1", "-(1)", "- -0", "not 1 == 2", "1 if 0 else 0",
    "0 if 0 else 1", "f''", "f'x'", "f'{0}'", "[1][0:0]", "(1, 2)[0]", "{**{}}", "[*()]", "(*[],)",
    "lambda: 0", "1 is None", "None is None", "1 in ()", "0 in (0,)", "''.join(())", "''.upper()",
    "bool(0)", "bool('x')", "int('0')", "str()", "list()", "dict(a=1)", "frozenset()", "complex()",
    "(x := 0)", "(x := 'y')", "[x for x in ()]", "{x for x in (1,)}", "not [x for x in ()]",
    "__debug__", "not __debug__", "not not __debug__", "1 and None", "None or 0", "0 and boom()", "1 or boom()",
    "() and boom()", "not (0 and boom())", "'x' and 'y' and ''", "[] or {} or ''", "(1 and 0,)",
    "1 < 2 < 1", "1 < 2 > 1", "not not (1 and 0)", "'a' in 'abc'", "'' in ''", "not 'a' in 'abc'",
    "-0", "not -0", "- - 1", "+-0", "~0", "not ~0", "1 + 0j", "0 - 0j", "'a' + ''", "'' + ''", "'' * 3", "'x' * 0",
    "[] + []", "[] == []", "() is ()" , "1 / 2", "0 // 1", "1 % 1", "2 ** 0", "1 << 1", "0 | 0", "1 ^ 1", "1 & 0",
    # fail
    "{[]}", "{[]: 1}", "not {[]}", "1 / 0", "not 1 / 0", "-''", "-'x'", "+[]", "1 + ''", "~''", "not -''",
    "boom()", "0 or boom()", "1 and boom()", "[][0]", "{}['k']", "''.nope", "None()",
]

VALUES = ["None", "True", "5", "1.5", "b'<'", "['<']", "ht", "hm", "mk", "ss", "isub", "fm", "by", "'<&>'", "''",
          "s1", "s2", "o1", "li", "d1", "f1('<')", "s1 + '<'", "'<' '&'", "mk + '<'", "('<' if b1 else mk)",
          "literal('<i>')", "literal(s1)", "empty", "()", "'%s' % s1", "f'<{s1}>'", "zero", "-1"]
LITERALS = ["literal({0})"] * 6 + [
    "literal(literal({0}))", "literal({0}) + {1}", "{1} + literal('<u>')", "literal({0}, {1})", "literal()",
    "literal(*[{0}])", "literal(*[{0}, {1}])", "literal(*[])", "literal(x={0})", "literal({0}, x={1})",
    "literal(**{{'x': {0}}})", "literal({0}, **{{}})", "literal({0}).lower()", "(literal({0}))", "[literal({0})][0]",
    "literal({0}) if b1 else {1}", "(literal)({0})", "literal({0},)", "o1.m(literal({0}))", "str(literal({0}))",
    "literal(str({0}))", "literal({0} or {1})", "literal(boom())",
    "literal(y := {0})", "literal('')", "literal({0})[:2]", "ident(literal({0}))", "literal.__name__"]
SIZES = [1, 2, 3, 5, 10, 100, 120, 126, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 260, 300, 375, 499, 500, 501,
         502, 510, 512, 750, 751, 1000, 1030]


class Mark(E):
    """an expression that is written as a constant or as a name"""


def hidden(text):
    """
    The same expression where the compiler cannot see what it is
    """
    return E(re.sub(r"\bliteral\b", "lit_", "now(lambda: (%s))" % text))


def hide(nodes):
    """the tree with all its marked expressions hidden"""
    rv = []
    for n in nodes:
        n = copy.copy(n)
        for f in getattr(n, "fields", ()):
            v = getattr(n, f)
            if isinstance(v, Mark):
                setattr(n, f, hidden(v))
        if isinstance(n, El):
            n.attrs = [(k, None if ps is None else [
                I(hidden(p.expr), "{") if isinstance(p, I) and isinstance(p.expr, Mark) else p for p in ps])
                for k, ps in n.attrs]
        n.children = hide(n.children)
        rv.append(n)
    return rv


class Tree(gen.TemplateGen):
    literals = 0.3
    constants = 0.6

    def constant(self):
        self.note("constant")
        e = self.rng.choice(CONSTANTS)
        if self.rng.random() < 0.15:
            e = "not (%s)" % e
        return Mark(e)

    def condition(self, env, d):
        if self.rng.random() < self.constants:
            return self.constant()
        return super().condition(env, d)

    def value(self, env, d=None):
        r = self.rng
        if r.random() < self.literals:
            self.note("literal")
            e = r.choice(LITERALS).format(
                *(r.choice(VALUES) if r.random() < 0.8 else self.x.any_(env, 1) for _ in "ab"))
            return Mark(gen.bare(E(e)))
        if r.random() < 0.05:
            e = self.constant()
            if "lambda" not in e and "not" not in e:
                return e
        return super().value(env, d)


class CHECK(Check):
    id = "C21"
    quick = 9000
    thorough = 100000
    rule = ("random trees whose conditions are constants and lookalikes, whose interpolations use "
            "literal() in all ways, or with runs of up to 1030 outputs in one function or attribute; "
            "rendered as they are, with everything hidden from the compiler in calls, and by "
            "a model without optimisations. Non-trivial: a constant, literal or long run and an "
            "output of more than ten characters")
    floors = {"renders": 16000, "used.constant": 10000, "used.literal": 10000, "runs": 1000}

    def worker_setup(self):
        from tonnikala.loader import Loader
        self.loader = Loader()
        warnings.simplefilter("ignore")

    def case(self, rng, index, tier):
        x = gen.ExprGen(rng, tick=rng.random() < 0.3)
        kind = index % 6
        g = Tree(rng, x, code=rng.random() < 0.2, depth=rng.choice([2, 3, 4]),
                 budget=rng.choice([10, 25, 50]), large=0.05)
        g.literals, g.constants = [(0.3, 0.6), (0, 0.9), (0.8, 0), (0.3, 0.6), (0.1, 0.9),
                                   (0.1, 0.1)][kind]
        size = 0
        if kind == 5:
            g.budget = 6
            nodes = g.template()
            size = self.run_of(rng, g, nodes[-1])
        else:
            nodes = g.template()
        other = hide(nodes)
        return (nodes, model.serialize(nodes, rng, plain=rng.random() < 0.3),
                model.serialize(other, rng, plain=True), gen.make_context(rng), g.used, size)

    def run_of(self, rng, g, root):
        """adds many outputs"""
        size = rng.choice(SIZES)
        mix = rng.choice([1, 1, 0.9, 0.5])
        env = gen.Env()
        pool = [g.value(env, 1) for _ in range(5)] + [E("s1"), E("i1"), E("s2"), E("mk"), E("'c'")]
        parts = []
        for i in range(size):
            if rng.random() < mix:
                parts.append(I(rng.choice(pool)))
            elif rng.random() < 0.05:
                parts.append(El("br", [("alt", [I(rng.choice(pool))])] if rng.random() < 0.5 else []))
            elif rng.random() < 0.02:
                parts.append(C("if", rng.choice([Mark("1"), Mark("0"), E("b1")]),
                               [I(rng.choice(pool)), T("z")]))
            else:
                parts.append(T("t%d<" % i))
        parts = gen.merge(parts)
        k = rng.randrange(7)
        if k == 0 and not any(isinstance(p, (El, C)) for p in parts):
            node = El("p", [("title", [p.text if isinstance(p, T) else p for p in parts] + ["x"])])
        elif k == 1:
            node = El("p", [], parts)
            if rng.random() < 0.5:
                node.strip = g.condition(env, 1)
        elif k == 2:
            node = C("block", E("blk_many"), parts)
        elif k == 3:
            node = C("for", E("zz in (1, 2)"), parts)
        elif k == 4:
            node = C("with", E("zz = 1"), parts)
        elif k == 5:
            node = C("if", E("yes"), [C("def", E("many(zz=1)"), parts), I(E("many()"))])
        else:
            root.children = gen.merge(root.children + parts)
            return size
        root.children.insert(rng.randint(0, len(root.children)), node)
        return size

    def describe(self, case):
        return case[1] + "\n" + repr(case[3])

    def run(self, case, obs):
        nodes, source, other, ctx, used, size = case

        def context(**kw):
            n = [0]

            def tick():
                n[0] += 1
                return n[0]

            return dict(ctx, tick=tick, boom=gen.boom, now=lambda f: f(), **kw)

        def lit(x):
            return Markup(str(x))

        lit.__name__ = "<lambda>"
        expected = outcome(lambda: model.Reference(nodes, context(literal=lit)).render())
        got = outcome(lambda: self.loader.load_string(source).render(context()))
        compare(expected, got, source)
        got = outcome(lambda: self.loader.load_string(other).render(context(lit_=lit)))
        compare(expected, got, other, what="without optimisations, the output differs",
                optimised=source)
        obs.count("renders", 2)
        obs.count("errors" if got[0] == "error" else "rendered_ok")
        if size:
            obs.count("runs")
            obs.count("run_outputs", size)
            obs.state("sizes", size)
        for k, n in used.items():
            obs.count("used." + k, n)
        if got[0] == "ok" and len(got[1]) > 10 and (
                size > 100 or used.get("constant") or used.get("literal")):
            obs.distinct(source)
            obs.sample(source)
