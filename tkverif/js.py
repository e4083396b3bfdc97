"""
JavaScript templates: a node process that runs the generated modules with
the runtime library and an independent interpreter of the trees (jsref/), and
the generators of contexts and expressions.
"""
import json
import os
import random
import re
import subprocess

from . import env, gen
from .harness import Inconclusive
from .model import RAW, C, Cm, Code, E, El, Ext, I, T

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsref")
RUNTIME = os.path.join(env.REPO, "tonnikala", "runtime", "javascript.js")


class Node:
    """node running driver.js"""

    def __init__(self):
        self.process = None

    def start(self):
        self.process = subprocess.Popen(
            ["node", "--stack-size=1500", os.path.join(HERE, "driver.js"), RUNTIME],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def stop(self):
        if self.process:
            self.process.kill()
            self.process.wait()
            self.process.stdin.close()
            self.process.stdout.close()
            self.process = None

    def call(self, request):
        data = (json.dumps(request) + "\n").encode()
        for attempt in (0, 1):
            if self.process is None:
                self.start()
            try:
                self.process.stdin.write(data)
                self.process.stdin.flush()
                line = self.process.stdout.readline()
            except (BrokenPipeError, OSError):
                line = b""
            except BaseException:
                self.stop()
                raise
            if line:
                answer = json.loads(line)
                if "failure" in answer:
                    raise Inconclusive("driver.js: " + answer["failure"])
                return answer
            self.stop()
        raise Inconclusive("node does not answer")


# ------------------------------------------------------------------ trees

def tree(nodes, raw=False):
    """the nodes for ref.js"""
    rv = []
    for n in nodes:
        if isinstance(n, T):
            rv.append(["R" if raw else "T", n.text])
        elif isinstance(n, I):
            rv.append(["I", n.expr.js])
        elif isinstance(n, Cm):
            if not n.removed:
                rv.append(["R", "<!--%s-->" % n.text])
        elif isinstance(n, Code):
            rv.append(["Code", n.source.js, [n.source.js.split()[1]]])
        elif isinstance(n, El):
            empty = n.content is None and not any(
                not (isinstance(c, Cm) and c.removed) for c in n.children)
            rv.append([
                "El", n.tag,
                [[name, None if parts is None else [
                    {"js": p.expr.js} if isinstance(p, I) else p for p in parts]]
                 for name, parts in n.attrs],
                tree(n.children, n.tag in RAW),
                None if n.strip is None else n.strip.js,
                None if n.dyn is None else n.dyn.js,
                None if n.content is None else n.content.js, empty])
        elif isinstance(n, C):
            rv.append(["C", n.kind, argument(n.kind, n.arg), tree(n.children)])
        else:
            raise TypeError(n)
    return rv


def argument(kind, arg):
    if kind == "for":
        names, _, expr = arg.js.partition(" in ")
        return [[x.strip() for x in names.split(",")], expr]
    if kind == "with":
        return [[n, e.js] for n, e in arg.pairs]
    if kind == "def":
        name, _, params = arg.js.partition("(")
        params = params.rstrip(") ")
        return [name.strip(), [p.strip() for p in params.split(",") if p.strip()]]
    return arg.js


# ----------------------------------------------------------------- values

#: names that all objects have a property of
INHERITED = ["constructor", "toString", "valueOf", "hasOwnProperty", "isPrototypeOf",
             "toLocaleString", "propertyIsEnumerable"]


def string(s):
    """a JavaScript literal"""
    return re.sub("[\u2028\u2029]", lambda m: "\\u%04x" % ord(m.group()), json.dumps(s))


def make_context(rng, counters=False):
    """
    -> source of an object with the names of gen.CONTEXT_TYPES (given
    `literal` of the runtime)
    """
    h = lambda: string(gen.hostile(rng))
    items = {
        "s1": h(), "s2": h(), "s3": string(gen.words(rng)), "empty": "''",
        "i1": str(rng.choice([0, 1, 2, 3, 7, -1])), "i2": str(rng.randint(-3, 12)),
        "zero": "0",
        "b1": rng.choice(["true", "false"]), "b2": rng.choice(["true", "false"]),
        "yes": "true", "no": "false", "none": rng.choice(["null", "null", "undefined"]),
        "fl": rng.choice(["0.5", "-0", "NaN", "1e21", "Infinity"]),
        "li": "[%s]" % ", ".join(str(rng.randint(-2, 9)) for _ in range(rng.randint(0, 4))),
        "ls": "[%s]" % ", ".join(h() for _ in range(rng.randint(0, 4))),
        "lp": "[]", "nothing": "[]",
        "d1": "{a: %s, b: 'x', 'c d': 'x<y'}" % h(),
        "o1": "{name: %s, n: %d, sub: {name: 'sub&', n: 1}, items: ['<i>', 'j'], "
              "m: function (x) { return 'm<' + x + '>'; }, me: function () { return this; }, "
              "toString: function () { return '<Obj&\"' + this.name; }}" % (h(), rng.randint(0, 5)),
        "mk": "literal('<b>%s</b>')" % rng.choice(["x", "&amp;", "\\'"]),
        "ht": "{html: function () { return \"<i title='%s'>&nbsp;</i>\"; }}" % rng.choice("xy"),
        "hm": "{html: function () { return literal('<u>&amp;</u>'); }}",
        "ss": "Object('<s>')", "isub": "Object(5)",
        "fm": "{toString: function () { return 'str<>'; }, valueOf: function () { return 7; }}",
        "by": "[1, '<', [null, '&']]",
        "f1": "function (x) { return 'f1<' + x + '>'; }",
        "add": "function (a, b) { return a + b; }",
        "ident": "function (x) { return x; }",
    }
    if counters:
        items["tick"] = "(function () { var n = 0; return function () { return ++n; }; })()"
    for name in INHERITED:
        if rng.random() < 0.05:
            items[name] = h()
    order = list(items)
    rng.shuffle(order)
    return "{%s}" % ", ".join("%s: %s" % (k, items[k]) for k in order)


# ------------------------------------------------------------ expressions

class JsExprGen(gen.ExprGen):
    """adds expressions that only JavaScript has; the Python text is the same"""

    #: names to use as they are, none of them one of a template function
    inherited = INHERITED

    js_only = True

    def __init__(self, rng, **kw):
        kw["dual"] = True
        super().__init__(rng, **kw)

    def js(self, text, **parts):
        text = text.format(**{k: v.js for k, v in parts.items()})
        return E(text, text)

    def str_(self, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.55:
            return super().str_(env, d)
        k = r.randrange(14)
        s = lambda: self.str_(env, d - 1)
        js = self.js
        if k == 0:
            return js("String({a})", a=self.any_(env, d - 1))
        if k == 1:
            return js("({a} === {b} ? {c} : {e})", a=s(), b=s(), c=s(), e=s())
        if k == 2:
            return js("{a}.concat({b}, {c})", a=self.patom(s()), b=s(), c=s())
        if k == 3:
            return js("[{a}, {b}].join({c})", a=s(), b=s(), c=s())
        if k == 4:
            return js("(function (q) {{ return q + {b}; }})({a})", a=s(), b=s())
        if k == 5:
            return js("{a}.toUpperCase()", a=self.patom(s()))
        if k == 6:
            return js("(typeof {a})", a=self.patom(self.unsafe(env, d - 1)))
        if k == 7 and self.angle:
            return js("{a}.replace(/[&x]/g, {b})", a=self.patom(s()), b=s())
        if k == 8:
            return js("{a}.split('').reverse().join('')", a=self.patom(s()))
        if k == 9:
            return js("({a} && {b})", a=self.bool_(env, d - 1), b=s())
        if k == 10:
            return js("({a}, {b})", a=s(), b=s())
        if k == 11:
            return js("ident({{a: {a}, 'b}}': {b}}})['b}}']", a=s(), b=s())
        if k == 12:
            return js("{a}.slice(0, {b})", a=self.patom(s()), b=self.int_(env, 0))
        return js("[{a}, {b}][{c} ? 0 : 1]", a=s(), b=s(), c=self.bool_(env, d - 1))

    def patom(self, e):
        if re.match(r"[A-Za-z_]\w*\Z", e.js) or e.js[0] == "(":
            return e
        return self.js("({a})", a=e)

    def dotted(self, env):
        e = self.rng.choice([
            "o1.name", "o1.me().name", "o1.sub.name", "o1.m(s1)", "o1['name']", "d1['a']",
            "f1(s1)", "f1((s1))", "o1.items[0]", "s1", "i1", "s1.toUpperCase()", "f1('}')",
            'd1["c d"]', "o1.me().me().m(')')", "ident([s1, ')'])[0]", "f1(f1(s1))",
            "ident({'a': s1})['a']", "o1.nope", "ls[0]", "ls.length"])
        return E(e, e)

    def unsafe(self, env, d):
        """of a type that is the same in the model"""
        return self.typed(self.rng.choice(["str", "int", "bool", "ls"]), env, d)

    def bool_(self, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.7:
            return super().bool_(env, d)
        js = self.js
        return r.choice([
            lambda: js("({a} in d1)", a=self.str_(env, d - 1)),
            lambda: js("({a} instanceof Array)", a=self.patom(self.any_(env, d - 1))),
            lambda: js("(typeof {a} === 'string')", a=self.patom(self.unsafe(env, d - 1))),
            lambda: js("(!!{a})", a=self.patom(self.any_(env, d - 1))),
            lambda: js("({a}.indexOf({b}) >= 0)" if self.angle else "({a}.indexOf({b}) === -1)",
                       a=self.patom(self.str_(env, d - 1)), b=self.str_(env, d - 1)),
            lambda: js("(none == null)"),
        ])()

    def ls(self, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.6:
            return super().ls(env, d)
        js = self.js
        ls = lambda: self.patom(super(JsExprGen, self).ls(env, d - 1))
        return r.choice([
            lambda: js("{a}.concat({b})", a=ls(), b=ls()),
            lambda: js("{a}.map(function (q) {{ return q + {b}; }})", a=ls(),
                       b=self.str_(env, d - 1)),
            lambda: js("{a}.filter(function (q, w) {{ return w % 2; }})", a=ls()),
            lambda: js("Object.keys(d1)"),
            lambda: js("{a}.slice(1)", a=ls()),
        ])()

    def any_(self, env, d):
        r = self.rng
        if r.random() < 0.12:
            n = self.name(env, "odd")
            if n:
                return n
        if r.random() < 0.04:
            t = r.choice(["d1", "ls", "li", "o1", "undefined", "null", "NaN", "o1.nope",
                          "not_in_the_context", "f1('a').length", "new Date(0).getTime()",
                          "Math.max(1, 2)", r.choice(self.inherited), "JSON.stringify(d1)", "parseInt('12', 10)"])
            return E(t, t)
        return super().any_(env, d)
