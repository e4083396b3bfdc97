import decimal
import fractions

from markupsafe import Markup

from ..harness import Check, Violation
from .. import gen, model
from ..model import C, E, El, I, T
from .common import outcome, compare


class MarkupSub(Markup):
    pass


class DynHtml:
    """__html__ found through __getattr__"""

    def __init__(self, s):
        self.s = s

    def __getattr__(self, name):
        if name == "__html__":
            return lambda: self.s
        raise AttributeError(name)

    def __str__(self):
        return "<no>"


class StrHtml(str):
    """a safe string without markupsafe"""

    def __html__(self):
        return str.__str__(self)


class HtmlOdd:
    def __init__(self, value):
        self.value = value

    def __html__(self):
        return self.value


class ReprOnly:
    def __repr__(self):
        return "<ReprOnly '&\">"


class Lazy:
    """like a lazy translation"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __len__(self):
        return len(self.s)

    def __bool__(self):
        return bool(self.s)


def values(rng):
    h = lambda: gen.hostile(rng)
    kinds = [
        ("str", lambda: h()), ("str", lambda: h()), ("str", lambda: h()),
        ("str", lambda: "".join(rng.choice("&<>\"'x") for _ in range(rng.randint(1, 30)))),
        ("str", lambda: h() * rng.choice([1, 5, 50])),
        ("strsub", lambda: gen.StrSub(h())),
        ("int", lambda: rng.choice([0, 1, -7, 10 ** 30])),
        ("intsub", lambda: gen.IntSub(3)),
        ("float", lambda: rng.choice([0.0, -1.5, float("nan"), float("-inf")])),
        ("bool", lambda: rng.random() < 0.5),
        ("none", lambda: None),
        ("bytes", lambda: b"<&'\">"),
        ("list", lambda: [h(), None, Markup("<b>")]),
        ("tuple", lambda: (h(),)),
        ("dict", lambda: {h(): h()}),
        ("decimal", lambda: decimal.Decimal("1.50")),
        ("fraction", lambda: fractions.Fraction(1, 3)),
        ("exception", lambda: ValueError(h())),
        ("class", lambda: gen.Obj),
        ("repronly", lambda: ReprOnly()),
        ("lazy", lambda: Lazy(h())),
        ("function", lambda: gen.f1),
        ("ellipsis", lambda: ...),
        ("set", lambda: {h()}),
        ("markup", lambda: Markup("<b title=\"&amp;'\">%s</b>") % h()),
        ("markup", lambda: Markup(h())),
        ("markup", lambda: Markup("<i>") + h()),
        ("markup", lambda: Markup.escape(h())),
        ("markupsub", lambda: MarkupSub("<sub>&")),
        ("html", lambda: gen.Html(h())),
        ("html", lambda: gen.HtmlMarkup(h())),
        ("html", lambda: DynHtml(h())),
        ("html", lambda: StrHtml(h())),
        ("html", lambda: HtmlOdd(gen.StrSub(h()))),
        ("html", lambda: HtmlOdd(MarkupSub("<a&>"))),
    ]
    return rng.choice(kinds)


EXPRS = ["{v}"] * 6 + [
    "ident({v})", "[{v}][0]", "({v})", "{v} if yes else 1", "none or {v}",
    "literal({v})", "literal(str({v}))", "literal(literal({v}))", "str({v})",
    "'%s' % ({v},)", "'<' + str({v}) + '>'", "f'{{{v}}}'", "fn_out({v})", "str(fn_out({v}))",
    "fn_out(fn_out({v}))", "literal(fn_out({v}))", "fn_attr({v})", "fn_out(literal({v}))",
    "'{{}}'.format(fn_out({v}))", "mk + {v}" , "{v} and {v}",
    "fn_out({v}).join()", "(lambda q: q)({v})", "d1.get('nope', {v})",
]


class CHECK(Check):
    id = "C01"
    quick = 12000
    thorough = 150000
    rule = ("values of 30 kinds (hostile strings, numbers, containers, exceptions, objects, safe "
            "ones) put through every kind of output position, in nestings of control structures "
            "and runs of up to 700 outputs, compared with the text obtained by escaping each once. "
            "Non-trivial: a value whose text has at least one of & < > \" '")
    floors = {"outputs": 20000}

    def worker_setup(self):
        from tonnikala.loader import Loader
        self.loader = Loader()

    def case(self, rng, index, tier):
        ctx = gen.make_context(rng)
        self_values = []
        many = rng.random() < (0.04 if tier == "quick" else 0.06)
        n = rng.choice([130, 249, 250, 251, 300, 500, 700]) if many else rng.randint(1, 8)
        names = []
        for i in range(min(n, 12)):
            kind, make = values(rng)
            name = "v%d" % i
            ctx[name] = make()
            names.append(name)
            self_values.append(kind)

        def expr():
            e = rng.choice(EXPRS)
            return E(e.format(v=rng.choice(names)))

        def output():
            k = rng.randrange(10)
            if k < 4:
                return I(expr())
            if k == 4:
                return El("p", [(rng.choice(gen.ATTR_NAMES), [I(expr())])])
            if k == 5:
                parts = [I(expr()), rng.choice(["a<", " & ", "$", "'"]), I(expr())]
                if rng.random() < 0.5:
                    parts = parts[:2] if rng.random() < 0.5 else parts[1:]
                return El("a", [("href", parts), ("id", ["x&"])])
            if k == 6:
                return El("div", [], [], content=expr())
            if k == 7:
                e = expr()
                d = rng.choice(["{'a': %s, 'b': %s}", "[('a', %s), ('b', %s)]"])
                return El("i", [], [T("x")], dyn=E(d % (e, expr())))
            if k == 8:
                return El("script", [], [T("a<b"), I(E(rng.choice(names)), "{")])
            return T(gen.words(rng) + rng.choice("&<>'\"$ "))

        kids = []
        for _ in range(n):
            node = output()
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]) if not many else 0):
                k = rng.randrange(6)
                if k == 0:
                    node = C("if", E("yes"), [node])
                elif k == 1:
                    node = C("for", E("q_ in [1%s]" % rng.choice(["", ", 2"])), [node])
                elif k == 2:
                    node = C("with", E("q__ = 1"), [node])
                elif k == 3:
                    node = C("unless", E("no"), [node])
                elif k == 4:
                    node = El("span", [], [node], strip=E(rng.choice(["yes", "no", ""])))
                else:
                    self_values.append("block")
                    name = E("blk%d" % rng.randrange(10 ** 9))
                    node = C("block", name, [node])
            kids.append(node)
        fn_out = C("def", E("fn_out(x)"), [El("b", [("title", [I(E("x"))])], [I(E("x"))])])
        fn_attr = C("def", E("fn_attr(x)"), [T("<"), I(E("x")), T("'")])
        root = El("div", [], gen.merge([fn_out] + kids + [fn_attr]))
        source = model.serialize([root], rng, plain=rng.random() < 0.5, variety=0.5)
        return [root], source, ctx, n, self_values

    def describe(self, case):
        return case[1] + "\n" + repr({k: v for k, v in case[2].items() if k[0] == "v"})

    def run(self, case, obs):
        nodes, source, ctx, n, kinds = case
        expected = outcome(lambda: model.Reference(nodes, ctx).render())
        before = {k: repr(v) for k, v in ctx.items()}
        got = outcome(lambda: self.loader.load_string(source).render(ctx))
        compare(expected, got, source, what="a value is not escaped exactly once",
                values=repr({k: v for k, v in ctx.items() if k[0] == "v"}))
        obs.count("renders")
        obs.count("outputs", n)
        if got[0] == "error":
            obs.count("errors")
            return
        for k in kinds:
            obs.state("value_kinds", k)
        if any(c in before[k] for k in before if k[0] == "v" for c in "&<>'\""):
            obs.distinct(source, [before[k] for k in sorted(before) if k[0] == "v"])
            obs.sample(source + "   with   " + str({k: v for k, v in before.items()
                                                      if k[0] == "v"})[:300])
