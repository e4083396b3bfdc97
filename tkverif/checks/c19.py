import builtins
import re
import warnings

from ..harness import Check, Violation
from .. import gen, model
from ..model import C, Code, E, El, I, T, esc, esc_str
from .common import compare, outcome

STRINGS = ["a", "b", "c", "d", "é"]
BUILTINS = ["max", "id", "format", "input", "type", "copyright"]
LOCAL = ["x", "g2"]
TOP = ["f", "g", "h"]


class Probe:
    """reads names: `q(lambda: name)`"""

    def __init__(self):
        self.depth = 0
        self.calls = 0
        self.seen = {}

    def __repr__(self):
        return "<q>"

    def note(self, what):
        self.seen[what] = self.seen.get(what, 0) + 1
        return what

    def __call__(self, thunk):
        self.calls += 1
        if self.calls > 400:
            return "cap"
        try:
            v = thunk()
        except NameError:
            return self.note("unbound")
        if v is max or v is id or v is format or v is input or v is type or v is copyright:
            return self.note("builtin") + v.__class__.__name__
        if not callable(v):
            self.note("value")
            return str(v)
        if self.depth > 3:
            return "deep"
        self.depth += 1
        try:
            self.note("function")
            return "F" + str(v())
        except TypeError:
            return "TE"
        except NameError:
            return "NE"
        finally:
            self.depth -= 1


class Names:
    """random expressions full of bindings of a few names"""

    def __init__(self, rng, probing, inlined):
        self.rng = rng
        self.probing = probing
        self.inlined = inlined
        self.n = 0

    def literal(self):
        self.n += 1
        return "'%s%d'" % (self.rng.choice(["t", "t", "<", "&"]), self.n)

    def name(self):
        return self.rng.choice(STRINGS)

    def any_name(self):
        r = self.rng.random()
        if r < 0.6:
            return self.rng.choice(STRINGS)
        return self.rng.choice(BUILTINS + LOCAL + TOP * 2 if r < 0.95 else ["nowhere"])

    def read(self):
        """reads a name"""
        if self.rng.random() < self.probing:
            return "q(lambda: %s)" % self.any_name()
        if self.rng.random() < 0.1 and not self.inlined:
            return "q(lambda: [%s][0])" % self.any_name()
        return self.name()

    def values(self, d=0):
        k = self.rng.randrange(4)
        if k == 0:
            return "(%s, %s)" % (self.literal(), self.read())
        if k == 1:
            return "[%s]" % self.expr(d - 1)
        return "(%s, %s)" % (self.literal(), self.literal())

    def params(self, d, lam=False):
        """-> (parameters, arguments)"""
        r = self.rng
        names = r.sample(STRINGS, r.choice([1, 1, 2, 3]))
        rv, args = [], []
        kind = "pos"
        for i, n in enumerate(names):
            note = ""
            if not lam and r.random() < 0.15:
                note = ": q(lambda: %s)" % self.any_name() if r.random() < 0.5 else (
                    ": " + self.name())
            k = r.randrange(10)
            if k == 0 and kind == "pos":
                rv.append("*" + n + note)
                kind = "kw"
            elif k == 1 and i == len(names) - 1:
                rv.append("**" + n + note)
            elif k == 2 and kind == "pos":
                rv += ["*", "%s%s=%s" % (n, note, self.expr(d - 1))]
                kind = "kw"
            elif k <= 5 or kind == "kw" or any("=" in p for p in rv):
                rv.append("%s%s=%s" % (n, note, self.expr(d - 1)))
                if k == 5 and kind == "pos" and all(p[0] != "*" and p != "/" for p in rv):
                    rv.append("/")
            else:
                rv.append(n + note)
                args.append(self.expr(d - 1))
                if r.random() < 0.1 and "/" not in rv:
                    rv.append("/")
        return ", ".join(rv), args

    def expr(self, d=2):
        r = self.rng
        if d <= 0:
            return self.read() if r.random() < 0.8 else self.literal()
        e = lambda: self.expr(d - 1)
        n = self.name
        v, w = n(), n()
        if self.inlined:
            return self.inline(d, e, v, w)
        k = r.randrange(20)
        if k < 4:
            return "(%s + %s)" % (e(), e())
        if k < 7:
            params, args = self.params(d, True)
            return "str((lambda %s: %s)(%s))" % (params, e(), ", ".join(args))
        if k == 7:
            return "(lambda: %s)()" % e()
        if k < 10:
            body = r.choice(["{e}", "{v} + {e}", "{v}"]).format(e=e(), v=v)
            test = r.choice(["", "", " if %s" % e()])
            if r.random() < 0.3:
                return "'-'.join(%s for %s in %s%s for %s in %s)" % (
                    body, v, self.values(d), test, w, r.choice(["(%s,)" % e(), self.values(d)]))
            return "'+'.join(%s for %s in %s%s)" % (body, v, self.values(d), test)
        if k == 10:
            return "''.join(list(%s for %s in %s))" % (e(), v, self.values(d))
        if k == 11:
            return "''.join(dict((%s, %s) for %s in [%s]).values())" % (e(), e(), v, e())
        if k == 12:
            return "'/'.join(w() for w in list((lambda: %s + %s) for %s in %s))" % (
                v, e(), v, self.values(d))
        if k == 13:
            return "''.join(%s for %s, *%s in [(%s, %s)])" % (e(), v, w, e(), e())
        if k == 14:
            return "(%s := %s)" % (n(), e())
        if k == 15:
            return "(%s if %s else %s)" % (e(), r.choice(["yes", "no", self.name()]), e())
        if k == 16:
            return "f'{%s}'" % e().replace("'", '"') if r.random() < 0.5 else "f'<{%s}>'" % n()
        if k == 17:
            return "''.join(%s for %s in [%s] if (%s := %s))" % (
                n(), r.choice(["z", "y"]), e(), n(), e())
        if k == 18:
            z = self.fresh()
            return "''.join(%s)" % r.choice([
                "[{z} + {e} for {z} in {v}]", "{{{z}: {e} for {z} in {v}}}", "{{{z} for {z} in [{e}]}}",
                "[{e} for {z} in {v} if ({n} := {e})]"]).format(
                    z=z, e=e(), v=self.values(d), n=n())
        return "str(%s)" % e()

    def fresh(self):
        self.n += 1
        return "z%d" % self.n

    def inline(self, d, e, v, w):
        """comprehensions that CPython 3.12 makes part of the function"""
        r = self.rng
        values = self.values(d)
        return r.choice([
            "({e} + {e2})", "''.join([{e} for {v} in {l}])", "''.join([{v} for {v} in {l}])",
            "''.join({{{v} for {v} in [{e}]}})", "''.join({{{e}: {v} for {v} in [{e2}]}}.values())",
            "''.join([{e} for {v} in {l} if {e2}])", "''.join([{v} for {v} in [{v}]])",
            "''.join([{w} + {e} for {v}, *{w} in [({e2}, 't')] for {w} in {w}])",
            "''.join([{e} for {v} in {l} for {w} in [{e2}, {v}]])",
            "({v} := {e})", "''.join([{e} for {v} in {l} if ({w} := {e2})])",
            "({e} if {v} else {w})", "f'<{{{v}}}>'",
        ]).format(e=e(), e2=e(), v=v, w=w, l=values)


class Tree:
    def __init__(self, rng):
        self.rng = rng
        # CPython 3.12 confuses variables of comprehensions that it makes part of a
        # function with those of functions around it that inner ones use, so that
        # there are either such comprehensions or inner functions (see DESIGN.md)
        self.inlined = rng.random() < 0.25
        self.x = Names(rng, 0 if self.inlined else rng.choice([0.3, 0.8, 1]), self.inlined)
        self.budget = rng.choice([6, 12, 25])
        self.used = {}
        self.counter = 0

    def note(self, what):
        self.used[what] = self.used.get(what, 0) + 1

    def expr(self, d=None):
        while True:
            e = self.x.expr(self.rng.choice([0, 1, 1, 2, 3]) if d is None else d)
            try:
                compile(e, "", "eval")
            except SyntaxError:
                # an assignment expression that cannot be there
                continue
            return E(e)

    def statement(self):
        """of code and of with"""
        r = self.rng
        n = r.choice(STRINGS + LOCAL[:1])
        while True:
            k = r.randrange(9)
            if k < 4:
                s = "%s = %s" % (n, self.expr(1))
            elif k == 4:
                m = self.x.name()
                s = "%s, %s = %s, %s" % (n, m, self.expr(1), self.expr(1))
            elif k == 5:
                s = "%s = %s = %s" % (n, self.x.name(), self.expr(1))
            elif k == 6:
                s = "%s: %s = %s" % (n, "str", self.expr(1))
            elif k == 7 and not self.inlined:
                s = "%s = lambda %s=%s: %s" % (LOCAL[0], self.x.name(), self.expr(1), self.expr(1))
            else:
                s = "from string import digits as %s" % n
            if self.ok(s):
                return s

    @staticmethod
    def ok(s):
        try:
            compile(s, "", "exec")
        except SyntaxError:
            return False
        return True

    def code(self):
        r = self.rng
        while True:
            k = r.randrange(8)
            if k < 3:
                s = self.statement()
            elif k == 3:
                s = "; ".join(self.statement() for _ in range(2))
            elif k < 6 and not self.inlined:
                params, args = self.x.params(2)
                s = "def %s(%s):\n  return %s\n" % (r.choice(LOCAL), params, self.expr(1))
                if r.random() < 0.3:
                    s = "@(lambda w, %s=%s: w)\n%s" % (self.x.name(), self.expr(1), s)
            elif k == 6:
                s = "try:\n  raise KeyError(%s)\nexcept KeyError as %s:\n  %s = str(%s)\n" % (
                    self.expr(1), r.choice(["e1", self.x.name()]), r.choice(STRINGS + ["x"]),
                    self.expr(0))
            else:
                n = self.x.name()
                s = "for %s in %s:\n  %s\n" % (n, self.x.values(), self.statement())
            if self.ok(s) and ">" not in s:
                self.note("code")
                return Code(s)

    def template(self):
        r = self.rng
        root = El("div")
        self.tops = r.sample(TOP, r.choice([0, 1, 2, 2, 3]))
        self.blocks = []
        defs = [self.define(name) for name in self.tops]
        children = self.many(3, True)
        for d in defs:
            children.insert(r.randint(0, len(children)), d)
        root.children = gen.merge(children)
        return [root]

    def define(self, name=None):
        r = self.rng
        self.note("def")
        while True:
            params, args = self.x.params(2)
            if r.random() < 0.4:
                params = ""
            returns = " -> " + self.x.read() if r.random() < 0.1 else ""
            if name and any(w in params + returns for w in TOP):
                # the defaults of these are evaluated before there are functions
                continue
            s = "%s(%s)%s" % (name or r.choice(LOCAL + LOCAL + STRINGS[:2]), params, returns)
            if self.ok("def %s: pass" % s) and ":=" not in s:
                break
        saved, self.budget = self.budget, min(self.budget, 4)
        body = self.many(2) or [T("f")]
        self.budget = saved - 3
        return C("def", E(s), body)

    def many(self, depth, top=False):
        r = self.rng
        rv = []
        for _ in range(r.choice([1, 2, 3, 4])):
            self.budget -= 1
            if self.budget < 0:
                break
            k = r.randrange(20)
            if k < 7 or depth <= 0:
                rv.append(I(self.expr()))
                rv.append(T(r.choice([" ", ";", ", "])))
            elif k < 9:
                el = El(r.choice(["p", "b", "i"]), [], self.many(depth - 1, top))
                if r.random() < 0.4:
                    el.attrs.append(("title", [I(self.expr())]))
                if r.random() < 0.3:
                    el.attrs.append(("class", ["x", I(self.expr()), "y"]))
                if r.random() < 0.2:
                    el.dyn = E("{'k': %s}" % self.expr())
                if r.random() < 0.2:
                    el.strip = E("str(%s) %s 'x'" % (self.expr(1), r.choice(["==", "!="])))
                rv.append(el)
            elif k < 11:
                self.note("for")
                targets = [self.x.name(), "%s, %s" % tuple(r.sample(STRINGS, 2)),
                           "%s, *%s" % tuple(r.sample(STRINGS, 2))]
                t = r.choice(targets)
                v = self.x.values(2) if "," not in t else "[(%s, %s)]" % (self.expr(1), self.expr(1))
                if not self.ok("for %s in %s: pass" % (t, v)):
                    continue
                rv.append(C("for", E("%s in %s" % (t, v)), self.many(depth - 1)))
            elif k < 14 and not self.inlined:
                self.note("with")
                rv.append(C("with", E("; ".join(
                    self.statement() for _ in range(r.choice([1, 1, 2])))), self.many(depth - 1)))
            elif k == 14:
                rv.append(C(r.choice(["if", "unless"]),
                            E("%s == %s" % (self.expr(1), self.expr(1))), self.many(depth - 1)))
            elif k == 15:
                self.counter += 1
                self.note("block")
                rv.append(C("block", E("blk%d" % self.counter), self.many(depth - 1)))
            elif k < 18 and not self.inlined:
                node = self.define()
                name = node.arg.partition("(")[0]
                rv.append(C("if", E("yes"), gen.merge(
                    [node, I(E("q(lambda: %s)" % name))] + self.many(depth - 1))))
            else:
                rv.append(self.code())
        if not rv:
            rv = [I(self.expr())]
        return gen.merge(rv)

    def context(self):
        r = self.rng
        missing = 0 if self.inlined else r.choice([0, 0, 0, 0.15])
        ctx = {"yes": True, "no": ""}
        for n in STRINGS + LOCAL[:1]:
            if r.random() >= missing:
                ctx[n] = "%s<ctx" % n
        for n in BUILTINS:
            if r.random() < 0.4:
                ctx[n] = "%s<ctx" % n
        return ctx


class Naive:
    """
    The template as ordinary Python functions within one whose variables are
    those of the context. (They could be global variables as well if CPython
    3.12 did not confuse them with those of comprehensions, see DESIGN.md.)
    """

    def __init__(self, nodes, names):
        self.lines = []
        self.n = 0
        self.later = []
        self.top_defs, self.blocks = [], []
        model.Reference.collect(self, nodes)
        self.hoisted = {id(n) for n in self.top_defs}
        self.line(0, "def __outer(__c):")
        for n in sorted(names):
            self.line(1, "%s = __c[%r]" % (n, n))
        for b in self.blocks:
            self.line(1, "def %s():" % b.arg)
            self.function(b.children, 2)
        for d in self.top_defs:
            self.line(1, "def %s:" % d.arg)
            self.function(d.children, 2)
        self.line(1, "def __main():")
        self.function(nodes, 2)
        self.line(1, "return __main()")
        self.source = "\n".join(self.lines) + "\n"

    def line(self, ind, text):
        for t in text.split("\n"):
            self.lines.append(" " * ind + t)

    def function(self, nodes, ind):
        self.line(ind, "__o = []")
        self.many(nodes, ind)
        self.line(ind, "return __Out(''.join(__o))")

    def many(self, nodes, ind):
        self.line(ind, "pass")
        for n in nodes:
            self.node(n, ind)

    def put(self, ind, text):
        self.line(ind, "__o.append(%r)" % text)

    def node(self, n, ind):
        if isinstance(n, T):
            self.put(ind, esc_str(n.text))
        elif isinstance(n, I):
            self.line(ind, "__o.append(__esc(%s))" % n.expr)
        elif isinstance(n, Code):
            self.line(ind, n.source)
        elif isinstance(n, El):
            deeper = ind
            if n.strip is not None:
                self.line(ind, "if not (%s):" % n.strip)
                deeper = ind + 1
            self.put(deeper, "<" + n.tag)
            for name, parts in n.attrs:
                if len(parts) == 1:
                    self.line(deeper, "__bool(%r, %s, __o)" % (name, parts[0].expr))
                    continue
                self.put(deeper, ' %s="' % name)
                for p in parts:
                    if isinstance(p, I):
                        self.node(p, deeper)
                    else:
                        self.put(deeper, esc_str(p))
                self.put(deeper, '"')
            if n.dyn is not None:
                self.line(deeper, "for __k in (%s).items(): __bool(*__k, __o)" % n.dyn)
            self.put(deeper, ">")
            self.many(n.children, ind)
            if n.strip is not None:
                self.line(ind, "if not (%s):" % n.strip)
            self.put(deeper, "</%s>" % n.tag)
        elif n.kind == "if":
            self.line(ind, "if %s:" % n.arg)
            self.many(n.children, ind + 1)
        elif n.kind == "unless":
            self.line(ind, "if not (%s):" % n.arg)
            self.many(n.children, ind + 1)
        elif n.kind == "for":
            self.line(ind, "for %s:" % n.arg)
            self.many(n.children, ind + 1)
        elif n.kind == "def":
            if id(n) not in self.hoisted:
                self.line(ind, "def %s:" % n.arg)
                self.function(n.children, ind + 1)
        elif n.kind == "with":
            self.n += 1
            self.line(ind, "def __with%d(__o):" % self.n)
            name = self.n
            self.line(ind + 1, n.arg)
            self.many(n.children, ind + 1)
            self.line(ind, "__with%d(__o)" % name)
        elif n.kind == "block":
            self.line(ind, "__o.append(__esc(%s()))" % n.arg)

    def render(self, context):
        module = dict(__Out=model.Out, __esc=esc, __bool=self.boolean, __name__="module")
        exec(compile(self.source, "<naive>", "exec"), module)
        variables = dict(vars(builtins))
        variables.update(context)
        return str(module["__outer"](variables))

    @staticmethod
    def boolean(name, value, out):
        model.Reference.bool_attr(model.Reference, name, value, out)


_address = re.compile(r"(?i)(function|object) \S+ at 0x[0-9a-f]+|<?\w+ object at 0x[0-9a-f]+")


def anonymous(o):
    """functions are called differently in both"""
    if o[0] == "ok":
        return "ok", _address.sub("function", o[1])
    return o


class CHECK(Check):
    id = "C19"
    quick = 16000
    thorough = 200000
    rule = ("random trees in which a dozen names (five strings, six builtins, functions) are bound "
            "again and again by parameters, with, for, code, lambdas, comprehensions and assignment "
            "expressions and read everywhere, compared with the same structure written as plain "
            "Python functions in a module whose globals are the context. Non-trivial: three "
            "kinds of bindings")
    floors = {"renders": 14000, "read.value": 20000, "read.builtin": 2000, "read.unbound": 2000,
              "read.function": 2000}

    def worker_setup(self):
        from tonnikala.loader import Loader
        self.loader = Loader()
        warnings.simplefilter("ignore")

    def case(self, rng, index, tier):
        while True:
            t = Tree(rng)
            nodes = t.template()
            try:
                ctx = t.context()
                naive = Naive(nodes, set(BUILTINS) | {"q", "str", "sorted"} | set(ctx))
                compile(naive.source, "", "exec")
            except SyntaxError:
                # e.g. a parameter that an assignment expression rebinds
                continue
            break
        source = model.serialize(nodes, rng, plain=rng.random() < 0.5, junk=False)
        return nodes, naive, source, ctx, t.used

    def describe(self, case):
        return "%s\n%r\n%s" % (case[2], case[3], case[1].source)

    def run(self, case, obs):
        nodes, naive, source, ctx, used = case
        q = Probe()
        expected = outcome(lambda: naive.render(dict(ctx, q=q)))
        seen = q.seen
        template = outcome(lambda: self.loader.load_string(source))
        if template[0] == "error":
            raise Violation("the template is rejected", source=source, got=repr(template))
        for _ in range(2):
            q2 = Probe()
            got = outcome(lambda: template[1].render(dict(ctx, q=q2)))
            compare(anonymous(expected), anonymous(got), source,
                    what="names are resolved wrong", context=repr(ctx))
            if expected[0] == "ok" and q2.seen != seen:
                raise Violation("names are read as %r instead of %r" % (q2.seen, seen),
                                source=source)
        obs.count("renders")
        obs.count("errors" if got[0] == "error" else "rendered_ok")
        for k, v in seen.items():
            obs.count("read." + k, v)
        for k, v in used.items():
            obs.count("used." + k, v)
        if got[0] == "ok" and len(used) >= 3:
            obs.distinct(source)
            obs.sample(source)
