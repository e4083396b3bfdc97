from ..harness import Check, Violation
from .. import gen, js, model
from ..model import C, Cm, E, El, Ext, I, T
from .common import where

NAMES = [("bk0", None), ("fa", ()), ("bk1", None), ("fb", ("str",)), ("fc", ("str", "int")),
         ("bk2", None), ("ff", ())]


class JsCheck(Check):
    """shared by the checks of the JavaScript target"""

    buffers = "c"

    def worker_setup(self):
        from tonnikala.loader import JSLoader
        self.JSLoader = JSLoader
        self.loader = JSLoader()
        self.node = js.Node()

    def worker_teardown(self):
        self.node.stop()

    def modules(self, sources, loader=None):
        loader = loader or self.loader
        return {name: loader.load_string(source, name) for name, source in sources.items()}

    def judge(self, answer, describe, obs, what="the output differs", **detail):
        for name, r in answer["results"].items():
            expected = r["expected"]
            for n, got in enumerate(r["got"]):
                obs.count("renders")
                if got[0] == expected[0] and got[1] == expected[1]:
                    obs.count("errors", got[0] == "error")
                    continue
                message = "%s (%s, rendering %d)" % (what, name, n)
                if expected[0] == got[0] == "ok":
                    message += " " + where(expected[1], got[1])
                raise Violation(message, source=describe, expected=expected, got=got, **detail)
            if r.get("expectedAgain", [0, 0])[:2] != r.get("gotAgain", [0, 0])[:2]:
                raise Violation("rendering a bound template (%s) again differs" % name,
                                source=describe, expected=r["expectedAgain"],
                                got=r["gotAgain"], **detail)
        for note in answer["notes"]:
            raise Violation(note, source=describe, **detail)


class CHECK(JsCheck):
    id = "C14"
    quick = 4500
    thorough = 90000
    rule = ("random trees with JavaScript expressions, and chains of up to four templates that "
            "extend each other, written in random layouts, compiled, and run in node with the "
            "runtime: every module is bound and rendered several times over a (often frozen) "
            "context, compared with an independent interpreter. Non-trivial: two control "
            "structures and an output of more than ten characters")
    floors = {"renders": 15000, "extended": 500}

    def case(self, rng, index, tier):
        counters = rng.random() < 0.3
        chains = rng.random() < 0.3
        if rng.random() < 0.004:
            return self.large(rng)
        if chains:
            parts, order = self.chain(rng)
        else:
            x = js.JsExprGen(rng, tick=counters)
            g = gen.TemplateGen(rng, x, dual=True, code=rng.random() < 0.2,
                                depth=rng.choice([2, 3, 4, 5]), budget=rng.choice([10, 25, 50]), large=0.03)
            parts, order = {"t0": (None, g.template(), g.used)}, ["t0"]
        sources = {
            n: model.serialize([Ext(parts[n][0], parts[n][1])] if parts[n][0] else parts[n][1],
                               rng, "js", plain=rng.random() < 0.2)
            for n in order}
        used = {}
        for n in order:
            for k, v in parts[n][2].items():
                used[k] = used.get(k, 0) + v
        context = js.make_context(rng, counters)
        if rng.random() < 0.1 and chains:
            # one of the names is given by the caller
            context = "{%s: function () { return 'CTX<'; }, %s" % (
                rng.choice(["fa", "fb", "ff"]), context[1:])
        request = {
            "chains": {n: self.trees(parts, n) for n in order},
            "context": context, "freeze": not counters and rng.random() < 0.5,
            "rounds": 1 if counters else rng.choice([1, 2]), "counters": counters,
        }
        return sources, request, used, counters

    def large(self, rng):
        """functions, blocks and loops of many outputs"""
        n = rng.choice([3000, 20000, 70000])
        x = lambda text: E(text, text)
        size = x("fill(%d)" % n)
        row = lambda var: El("b", [("id", [I(x(var))])], [I(x(var)), T(" x ")])
        kids = []
        for kind in rng.sample(["def", "block", "for", "if", "strip"], 2):
            loop = C("for", x("i in " + size.js), [row("i")])
            kids += {
                "def": lambda: [C("def", x("rows(n)"), [C("for", x("i in n"), [row("i")])]),
                                I(x("rows(%s)" % size.js))],
                "block": lambda: [C("block", x("many"), [loop])],
                "for": lambda: [loop],
                "if": lambda: [C("if", x("yes"), [loop])],
                "strip": lambda: [El("p", [], [loop], strip=x("yes"))],
            }[kind]()
        nodes = [El("div", [], kids)]
        context = ("{fill: function (n) { var rv = []; while (n--) { rv.push(n %% 7); } "
                   "return rv; }, %s" % js.make_context(rng)[1:])
        request = {"chains": {"t0": [js.tree(nodes)]}, "context": context, "freeze": False,
                   "rounds": 1, "counters": False}
        return ({"t0": model.serialize(nodes, rng, "js")}, request,
                {"large": 1, "for": 2}, False)

    @staticmethod
    def trees(parts, name):
        rv = []
        while name:
            parent, nodes = parts[name][:2]
            rv.append(js.tree([n for n in nodes if not (parent and isinstance(n, Cm))]))
            name = parent
        return rv

    def chain(self, rng):
        n = rng.choice([2, 2, 3, 4])
        order = ["%s%d%s" % (rng.choice(["t", "dir/t", "é "]), i, rng.choice(["", ".js", "'"]))
                 for i in range(n)]
        parts = {}
        RANK, ARGS = {}, {}
        for i, (x, args) in enumerate(NAMES):
            if rng.random() < 0.06:
                x = rng.choice([y for y in js.INHERITED if y not in RANK])
            RANK[x], ARGS[x] = i, args

        inherited = [x for x in js.INHERITED if x not in RANK]

        def type_names(name):
            return list(ARGS[name] or ())

        for i, name in enumerate(order):
            parent = order[i - 1] if i else None
            if i > 1 and rng.random() < 0.2:
                parent = order[0]
            seen = []
            p = parent
            while p:
                seen += parts[p][3]
                p = parts[p][0]
            names = sorted(rng.sample(list(RANK), rng.choice([1, 2, 3, 5])),
                           key=RANK.get)
            visible = sorted(set(names + seen), key=RANK.get)
            used = {}

            def body(rank, label, params=()):
                e = gen.Env()
                for v in visible:
                    if RANK[v] > rank:
                        e.functions.append((v, type_names(v)))
                for p, ty in params:
                    e.add(p, ty)
                x = js.JsExprGen(rng)
                x.inherited = inherited
                g = gen.TemplateGen(rng, x, dual=True,
                                    controls=("if", "for", "with", "unless", "def"),
                                    budget=5, depth=2, shadow=rng.random() < 0.3)
                g.counter = rng.randrange(10 ** 6)
                nodes = [T("[%d:%s " % (i, label))]
                for _ in range(rng.choice([0, 1, 1, 2])):
                    if e.functions:
                        call = I(g.x.call(e, 2))
                        k = rng.randrange(5)
                        nodes.append(El("i", [("title", [call])]) if k == 0 else
                                     El("u", [], [call]) if k == 1 else
                                     C("if", E("yes", "yes"), [call]) if k == 2 else call)
                nodes += g.many(e, 1, nest=True)
                nodes.append(T("]"))
                for k, v in g.used.items():
                    used[k] = used.get(k, 0) + v
                return gen.merge(nodes)

            functions = {}
            for x in reversed(names):
                if ARGS[x] is None:
                    node = C("block", E(x, x), body(RANK[x], x))
                else:
                    params = [("p%d" % k, ty) for k, ty in enumerate(ARGS[x])]
                    spec = "%s(%s)" % (x, ", ".join(p for p, _ in params))
                    node = C("def", E(spec, spec), body(RANK[x], x, params))
                nest = [y for y in functions if ARGS[y] is None]
                if nest and rng.random() < 0.3:
                    y = rng.choice(nest)
                    node.children.insert(rng.randint(0, len(node.children)), functions.pop(y))
                functions[x] = node
            items = list(functions.values())
            rng.shuffle(items)
            if parent:
                if rng.random() < 0.2:
                    items.insert(0, Cm(" comment "))
                nodes = items
            else:
                kids = body(-1, "root")
                for item in items:
                    kids.insert(rng.randint(0, len(kids)), item)
                nodes = [El("html", [], gen.merge(kids))]
            parts[name] = (parent, nodes, used, names)
        return parts, order

    def describe(self, case):
        return "\n".join("=== %s\n%s" % x for x in case[0].items()) + "\n" + case[1]["context"]

    def run(self, case, obs):
        sources, request, used, counters = case
        answer = self.node.call(dict(request, modules=self.modules(sources)))
        self.judge(answer, self.describe(case), obs)
        obs.count("modules", len(sources))
        obs.count("extended", len(sources) - 1)
        obs.count("frozen", request["freeze"])
        for k, n in used.items():
            obs.count("used." + k, n)
        if "large" in used:
            return
        outs = [r["expected"] for r in answer["results"].values()]
        if any(len(o[1]) > 10 and o[0] == "ok" for o in outs) and sum(
                used.get(k, 0) for k in model.ORDER) >= 2:
            obs.distinct(self.describe(case))
            obs.sample(self.describe(case))
