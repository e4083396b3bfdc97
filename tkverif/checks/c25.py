import ast
import warnings
from collections import Counter
from collections.abc import Mapping


from ..harness import Violation
from .. import gen, js, model
from ..model import C, E, El, I
from .c14 import JsCheck
from .common import compare, outcome

LIMIT = 200000
UNUSED = ["unused", "_unused", "Unused9", "ünused", "memoryview", "compile", "TypeError", "__unused__",
          "context", "self", "buffer", "template", "loader", "output"]


class Log(list):
    """what has happened, in order"""

    def add(self, *event):
        if len(self) < LIMIT:
            self.append(event)


class Value:
    """a value that records its conversions"""

    def __init__(self, log, n, value):
        self.log, self.n, self.value = log, n, value

    def __str__(self):
        self.log.add("str", self.n)
        return str(self.value)


class Html(Value):
    def __html__(self):
        self.log.add("html", self.n)
        return self.value.__html__()


class Truth:
    """a condition that records when it is decided"""

    def __init__(self, log, n, value):
        self.log, self.n, self.value = log, n, value

    def __bool__(self):
        self.log.add("bool", self.n)
        return bool(self.value)


class Items:
    """an iterable that records when its items are taken"""

    def __init__(self, log, n, value):
        self.log, self.n, self.value = log, n, value

    def __iter__(self):
        self.log.add("iter", self.n)
        for i, item in enumerate(self.value):
            self.log.add("next", self.n, i)
            yield item
        self.log.add("stop", self.n)


class Pairs(Mapping):
    """attributes that record when they are taken"""

    def __init__(self, log, n, value):
        self.log, self.n, self.value = log, n, value

    def __len__(self):
        return len(self.value)

    def __iter__(self):
        return iter(self.value)

    def __getitem__(self, key):
        return self.value[key]

    def items(self):
        self.log.add("items", self.n)
        return self.value.items()


class Untouchable:
    """a value that no template uses"""

    def __init__(self, log):
        object.__setattr__(self, "log", log)

    def touched(name):
        def method(self, *args):
            object.__getattribute__(self, "log").append(("touched", name))
            raise RuntimeError("%s of an unused value" % name)
        return method

    for _name in ("getattribute str repr html bool len iter eq ne hash call copy deepcopy lt "
                  "contains getitem next int index format reduce_ex").split():
        locals()["__%s__" % _name] = touched("__%s__" % _name)
    del _name, touched


def functions(log):
    """the functions that the expressions are wrapped in"""

    def seen(n, value):
        log.add("eval", n)
        return value

    def shown(n, value):
        log.add("eval", n)
        if isinstance(value, (bool, type(None), model.Out)) or not isinstance(
                value, (int, float, str, gen.Obj)):
            return value
        return (Html if hasattr(value, "__html__") else Value)(log, n, value)

    def decided(n, value):
        log.add("eval", n)
        return Truth(log, n, value)

    def taken(n, value):
        log.add("eval", n)
        return Items(log, n, value)

    def pairs(n, value):
        log.add("eval", n)
        if isinstance(value, dict):
            return Pairs(log, n, value)
        if isinstance(value, (list, tuple)) and value:
            return Items(log, n, value)
        return value

    return dict(seen_=seen, shown_=shown, decided_=decided, taken_=taken, pairs_=pairs)


#: the same in JavaScript
FUNCTIONS = """
    seen_: function (n, value) { log_.push(['eval', n]); return value; },
    shown_: function (n, value) {
        log_.push(['eval', n]);
        if (value === null || value === undefined) {
            return value;
        }
        var rv = {toString: function () { log_.push(['str', n]); return String(value); }};
        if (value.html) {
            rv.html = function () { log_.push(['html', n]); return value.html(); };
        }
        return typeof value === 'string' || typeof value === 'number' || value.html ? rv : value;
    },
    boom_: function () { throw new Error('boom'); },
"""


class Wrapper:
    """puts calls of the recording functions around the expressions of a tree"""

    def __init__(self, rng, share, dual=False):
        self.rng, self.share, self.dual = rng, share, dual
        self.count = 0
        self.done = set()

    def wrap(self, name, e):
        if e is None or not str(e).strip() or self.rng.random() > self.share:
            return e
        self.count += 1
        py = "%s(%d, (%s))" % (name, self.count, str(e).strip())
        if not self.dual:
            return E(py)
        name = name if name == "shown_" else "seen_"
        return E(py, "%s(%d, (%s))" % (name, self.count, e.js.strip()))

    def value(self, node):
        if not str(node.expr).strip():
            return
        node.expr = self.wrap(self.rng.choice(["seen_", "shown_", "shown_"]), node.expr)
        if node.form == "$":
            node.form = None

    def assignments(self, source):
        if self.dual:
            pairs = [(n, self.wrap("seen_", e)) for n, e in source.pairs]
            rv = E("; ".join("%s = %s" % p for p in pairs),
                   "; ".join("%s = %s" % (n, e.js) for n, e in pairs))
            rv.pairs = pairs
            return rv
        tree = ast.parse(source.strip())
        for s in tree.body:
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                s.value = ast.parse(self.wrap("seen_", E(ast.unparse(s.value))), mode="eval").body
        return E("; ".join(ast.unparse(s) for s in tree.body))

    def nodes(self, nodes):
        for n in nodes:
            if id(n) in self.done:
                continue
            self.done.add(id(n))
            if isinstance(n, I):
                self.value(n)
            elif isinstance(n, El):
                for _, parts in n.attrs:
                    for p in parts or ():
                        if isinstance(p, I) and id(p) not in self.done:
                            self.done.add(id(p))
                            self.value(p)
                n.dyn = self.wrap("pairs_", n.dyn)
                n.content = self.wrap("shown_", n.content)
            elif isinstance(n, C):
                if n.kind in ("if", "unless"):
                    n.arg = self.wrap("decided_", n.arg)
                elif n.kind == "for":
                    target, e = model.split_for(n.arg)
                    if self.dual:
                        target, _, text = n.arg.js.partition(" in ")
                        e = self.wrap("taken_", E(e, text))
                        n.arg = E("%s in %s" % (target, e), "%s in %s" % (target, e.js))
                    else:
                        n.arg = E("%s in %s" % (target, self.wrap("taken_", e)))
                elif n.kind == "with":
                    n.arg = self.assignments(n.arg)
                if n.kind in ("with", "for", "if", "unless") and self.rng.random() < 0.06:
                    n.children = []
            self.nodes(n.children)


class CHECK(JsCheck):
    id = "C25"
    quick = 12000
    thorough = 150000
    rule = ("random trees whose expressions record their evaluation and return values that record "
            "their conversions, decisions and iteration; the log must be that of an interpreter of "
            "the tree, in two renders (in Python and in node); contexts also have values that must not be touched. "
            "Non-trivial: twenty different events")
    floors = {"renders": 12000, "events": 80000, "conversions": 15000, "failed": 500,
              "chameleon": 1000, "javascript": 1000, "javascript_events": 10000, "unused": 5000}

    def worker_setup(self):
        super().worker_setup()
        self.js = self.loader
        from tonnikala.loader import Loader
        self.loader = Loader()
        self.tal = Loader(syntax="chameleon")
        warnings.simplefilter("ignore")

    def case(self, rng, index, tier):
        if index % 6 == 1:
            return self.javascript(rng)
        tal = index % 6 == 0
        x = gen.ExprGen(rng, tick=rng.random() < 0.2)
        kw = dict(tal=True, controls=("if", "for")) if tal else dict(code=rng.random() < 0.2)
        g = gen.TemplateGen(rng, x, strip=rng.random() < 0.3, depth=rng.choice([2, 3, 4, 5]),
                            budget=rng.choice([25, 50, 80]), large=0.05, **kw)
        nodes = g.template()
        w = Wrapper(rng, rng.choice([1, 1, 0.7]))
        w.nodes(nodes)
        if rng.random() < 0.15:
            self.failure(rng, nodes)
        source = model.serialize(nodes, rng, "tal" if tal else "py", plain=rng.random() < 0.4)
        unused = rng.sample(UNUSED, rng.choice([0, 1, 3]))
        return nodes, source, gen.make_context(rng), tal, [n for n in unused if n not in source]

    def javascript(self, rng):
        g = gen.TemplateGen(rng, js.JsExprGen(rng), dual=True, code=False, strip=rng.random() < 0.3,
                            depth=rng.choice([2, 3, 4, 5]), budget=rng.choice([25, 50, 80]), large=0.05)
        nodes = g.template()
        Wrapper(rng, rng.choice([1, 1, 0.7]), dual=True).nodes(nodes)
        if rng.random() < 0.15:
            self.failure(rng, nodes)
        source = model.serialize(nodes, rng, "js", plain=rng.random() < 0.4)
        context = "{%s %s" % (FUNCTIONS, js.make_context(rng)[1:])
        return js.tree(nodes), source, context, "js", []

    def failure(self, rng, nodes):
        """one expression raises"""
        found = []

        def visit(n):
            if isinstance(n, I) and str(n.expr).strip():
                found.append(n)
            elif isinstance(n, C) and n.kind in ("if", "unless"):
                found.append(n)
            if isinstance(n, El):
                for _, parts in n.attrs:
                    found.extend(p for p in parts or () if isinstance(p, I))
            for c in n.children:
                visit(c)

        for n in nodes:
            visit(n)
        if found:
            n = rng.choice(found)
            if isinstance(n, I):
                n.expr = E("boom_()", "boom_()")
                n.form = None
            else:
                n.arg = E("boom_()", "boom_()")

    def describe(self, case):
        return case[1] + "\n" + repr(case[2])

    def run(self, case, obs):
        nodes, source, ctx, tal, unused = case
        if tal == "js":
            return self.run_javascript(case, obs)

        def context(log):
            n = [0]

            def tick():
                n[0] += 1
                log.add("tick", n[0])
                return n[0]

            rv = dict(ctx, tick=tick, boom_=gen.boom, **functions(log))
            return rv

        model_log = Log()
        expected = outcome(lambda: model.Reference(nodes, context(model_log)).render())
        loader = self.tal if tal else self.loader
        template = loader.load_string(source)
        for again in range(2):
            log = Log()
            given = context(log)
            for name in unused:
                given[name] = Untouchable(log)
            got = outcome(lambda: template.render(given))
            compare(expected, got, source)
            self.compare(source, model_log, log, expected[0] == "ok")
            obs.count("renders")
        obs.count("events", len(log))
        obs.count("conversions", sum(e[0] in ("str", "html") for e in log))
        obs.count("failed" if expected[0] == "error" else "rendered_ok")
        obs.count("unused", len(unused))
        if tal:
            obs.count("chameleon")
        if len(set(log)) >= 20:
            obs.distinct(source)
            obs.sample(source)

    def run_javascript(self, case, obs):
        nodes, source, context, _, _ = case
        answer = self.node.call({
            "modules": self.modules({"t": source}, self.js), "chains": {"t": [nodes]},
            "context": context, "freeze": False, "rounds": 1, "counters": True, "logged": True})
        self.judge(answer, self.describe(case), obs)
        r = answer["results"]["t"]
        expected, *rest = [[tuple(e) for e in log] for log in r.get("logs", [[]])]
        for log in rest:
            self.compare(source, expected, log, r["expected"][0] == "ok")
        obs.count("javascript")
        obs.count("javascript_events", len(expected))
        obs.count("failed" if r["expected"][0] == "error" else "rendered_ok")
        if len(set(expected)) >= 20:
            obs.distinct(source)
            obs.sample(source)

    def compare(self, source, expected, got, finished):
        touched = [e for e in got if e[0] == "touched"]
        if touched:
            raise Violation("a value that the template does not use is touched: %s" % touched[0][1],
                            source=source)

        def split(log):
            steps = [e for e in log if e[0] not in ("str", "html")]
            return steps, [e for e in log if e[0] in ("str", "html")]

        a, x = split(expected)
        b, y = split(got)
        for i in range(max(len(a), len(b))):
            if a[i:i + 1] != b[i:i + 1]:
                raise Violation(
                    "step %d is %s instead of %s" % (i, b[i:i + 1] or "missing", a[i:i + 1] or "none"),
                    source=source, expected=repr(a[max(0, i - 10):i + 5]),
                    got=repr(b[max(0, i - 10):i + 5]))
        if not finished:
            return
        if "literal" in source:
            # such values may be converted later than others
            x, y = sorted(x), sorted(y)
        if x != y:
            m, n = Counter(x), Counter(y)
            diff = [(k, m[k], n[k]) for k in {**m, **n} if m[k] != n[k]]
            raise Violation(
                "the conversions differ: " + (
                    "%s of value %s happens %d times instead of %d" % (*diff[0][0], diff[0][2], diff[0][1])
                    if diff else "they happen in another order"),
                source=source, expected=repr(x[:30]), got=repr(y[:30]))
