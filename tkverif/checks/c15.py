from .. import gen, js, model
from ..model import C, E, El, I, T
from .c14 import JsCheck


def values(rng):
    h = lambda: js.string(gen.hostile(rng))
    kinds = [
        ("string", h), ("string", h), ("string", h),
        ("string", lambda: js.string("".join(
            rng.choice("&<>\"'x") for _ in range(rng.randint(1, 30))))),
        ("string", lambda: "Array(%d).join(%s)" % (rng.choice([2, 6, 60]), h())),
        ("string", lambda: js.string(rng.choice(
            js.INHERITED + ["__proto__", "length", "prototype", "html", "undefined", "null"]))),
        ("String object", lambda: "new String(%s)" % h()),
        ("number", lambda: rng.choice(["0", "-0", "1", "-7.5", "1e300", "NaN", "-Infinity"])),
        ("Number object", lambda: "new Number(0)"),
        ("boolean", lambda: rng.choice(["true", "false"])),
        ("Boolean object", lambda: "new Boolean(false)"),
        ("null", lambda: "null"), ("undefined", lambda: "undefined"),
        ("bigint", lambda: "10n"),
        ("array", lambda: "[%s, null, literal('<b>')]" % h()),
        ("nested array", lambda: "[[%s], ['&']]" % h()),
        ("object", lambda: "({a: %s})" % h()),
        ("toString", lambda: "({toString: function () { return %s; }})" % h()),
        ("toString and valueOf", lambda: "({toString: function () { return %s; }, "
                                         "valueOf: function () { return '<valueOf>'; }})" % h()),
        ("toPrimitive", lambda: "({[Symbol.toPrimitive]: function (hint) { "
                                "return '<&' + hint; }})"),
        ("bare object", lambda: "Object.assign(Object.create(null), "
                                "{toString: function () { return %s; }})" % h()),
        ("typed array", lambda: "new Uint8Array([60, 38])"),
        ("buffer property", lambda: "({buffer: [%s], toString: function () { return '<'; }})" % h()),
        ("date", lambda: "new Date(0)"), ("regexp", lambda: "/<[&\"']>/g"),
        ("error", lambda: "new Error(%s)" % h()),
        ("function", lambda: "function f(a) { return a < '&'; }"),
        ("class", lambda: "class { m() { return '<'; } }"),
        ("map", lambda: "new Map([[1, '<']])"),
        ("falsy html", lambda: "({html: null, toString: function () { return '<'; }})"),
        ("array with html", lambda: "(function () { var rv = ['<']; rv.html = 0; return rv; })()"),
        ("markup", lambda: "literal(%s)" % h()), ("markup", lambda: "literal(literal(%s))" % h()),
        ("html", lambda: "({html: function () { return %s; }})" % h()),
        ("html", lambda: "({s: %s, html: function () { return literal(this.s); }})" % h()),
        ("html getter", lambda: "({get html() { return function () { return '<i>'; }; }})"),
        ("html of an array", lambda: "(function () { var rv = ['<']; rv.html = function () "
                                     "{ return '<b>'; }; return rv; })()"),
        ("inherited html", lambda: "Object.create({html: function () { return '<u>'; }})"),
        ("html function", lambda: "(function () { var rv = function () {}; rv.html = function () "
                                  "{ return '<b>'; }; return rv; })()"),
    ]
    return rng.choice(kinds)


EXPRS = ["{v}"] * 6 + [
    "ident({v})", "[{v}][0]", "({v})", "(yes ? {v} : 1)", "(none || {v})",
    "literal({v})", "literal(String({v}))", "literal(literal({v}))", "String({v})",
    "'<' + String({v}) + '>'", "fn_out({v})", "String(fn_out({v}))",
    "fn_out(fn_out({v}))", "literal(fn_out({v}))", "fn_attr({v})", "fn_out(literal({v}))",
    "('' + fn_out({v}))", "String(mk) + String({v})", "({v} && {v})", "[{v}].concat('<')[0]",
    "String(fn_out({v}).html())", "(function (q) {{ return q; }})({v})", "(d1.nope || {v})",
    "literal(literal({v}).html())", "[fn_out({v})]", "{v}",
]


class CHECK(JsCheck):
    id = "C15"
    quick = 5000
    thorough = 80000
    rule = ("values of 35 kinds of JavaScript (hostile strings, wrappers, numbers, containers, "
            "functions, objects that convert themselves, safe ones) put through every kind of "
            "output position, in nestings of control structures, in node, compared with the "
            "text obtained by escaping each once. Non-trivial: a value is other than a number")
    floors = {"outputs": 10000}

    def case(self, rng, index, tier):
        n = rng.choice([60, 255, 300]) if rng.random() < 0.02 else rng.randint(1, 8)
        names, kinds, extra = [], [], []
        for i in range(min(n, 12)):
            kind, make = values(rng)
            kinds.append(kind)
            names.append("v%d" % i)
            extra.append("v%d: %s" % (i, make()))

        def x(text, **kw):
            text = text.format(**kw)
            return E(text, text)

        def expr():
            return x(rng.choice(EXPRS), v=rng.choice(names))

        def output():
            k = rng.randrange(10)
            if k < 4:
                return I(expr())
            if k == 4:
                return El("p", [(rng.choice(gen.ATTR_NAMES), [I(expr())])])
            if k == 5:
                parts = [I(expr()), rng.choice(["a<", " & ", "$", "'"]), I(expr())]
                if rng.random() < 0.5:
                    parts = parts[:2] if rng.random() < 0.5 else parts[1:]
                return El("a", [("href", parts), ("id", ["x&"])])
            if k == 6:
                return El("div", [], [], content=expr())
            if k == 7:
                return El("i", [], [T("x")], dyn=x("[['a', {a}], ['b', {b}]]", a=expr(), b=expr()))
            if k == 8:
                return El("script", [], [T("a<b"), I(x(rng.choice(names)), "{")])
            return T(gen.words(rng) + rng.choice("&<>'\"$ "))

        kids = []
        for _ in range(n):
            node = output()
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]) if n < 20 else 0):
                k = rng.randrange(6)
                if k == 0:
                    node = C("if", x("yes"), [node])
                elif k == 1:
                    node = C("for", x("q_ in [1%s]" % rng.choice(["", ", 2"])), [node])
                elif k == 2:
                    arg = x("q__ = 1")
                    arg.pairs = [("q__", x("1"))]
                    node = C("with", arg, [node])
                elif k == 3:
                    node = C("unless", x("no"), [node])
                elif k == 4:
                    node = El("span", [], [node], strip=x(rng.choice(["yes", "no", ""])))
                else:
                    kinds.append("block")
                    node = C("block", x("blk%d" % rng.randrange(10 ** 9)), [node])
            kids.append(node)
        fn_out = C("def", x("fn_out(x)"), [El("b", [("title", [I(x("x"))])], [I(x("x"))])])
        fn_attr = C("def", x("fn_attr(x)"), [T("<"), I(x("x")), T("'")])
        root = El("div", [], gen.merge([fn_out] + kids + [fn_attr]))
        source = model.serialize([root], rng, "js", plain=rng.random() < 0.5, variety=0.5)
        context = "{%s, %s" % (", ".join(extra), js.make_context(rng)[1:])
        return source, {"chains": {"t": [js.tree([root])]}, "context": context, "rounds": 1,
                        "freeze": False, "counters": True}, n, kinds, extra

    def describe(self, case):
        return case[0] + "\n" + "\n".join(case[4])

    def run(self, case, obs):
        source, request, n, kinds, extra = case
        answer = self.node.call(dict(request, modules=self.modules({"t": source})))
        self.judge(answer, self.describe(case), obs, "a value is not escaped exactly once")
        obs.count("outputs", n)
        for k in kinds:
            obs.state("value_kinds", k)
        if any(k not in ("number", "boolean") for k in kinds):
            obs.distinct(source, extra)
            obs.sample(self.describe(case))
