"""
Random values, expressions and templates. Everything is drawn from the given
random.Random, the expressions are typed so that most evaluate.
"""
import ast
import re

from markupsafe import Markup

from .model import C, Cm, Code, E, El, I, T, VOID_SOURCE

# ----------------------------------------------------------------- values

HOSTILE = [
    "<script>alert(1)</script>", "\"><img src=x onerror='a'>", "' onclick='x",
    "&amp;", "&lt;b&gt;", "&", "<", ">", '"', "'", "&#39;", "a&b<c>d\"e'f",
    "$s1", "${s1}", "$$", "$${s1}", "{}", "{0}", "%s", "%", "}", "{", "}}",
    "]]>", "-->", "<!--", "</p>", "</title>", "<br/>", "<?python x ?>", "\\", "\\n",
    "", " ", "  x  ", "\n", "a\nb", "\t", "plain", "é", "\xa0", "日本語", "\U0001f600",
    "x" * 300, "<" * 40, "\u2028", "\x0b", "None", "False", "0", "__TK__output",
    "py:if", "&nbsp;", "&copy", "'''", '"""', "a" + "'\"" * 5,
]

WORDS = """alpha beta gamma delta hello world foo bar lorem ipsum item value
Click here to see more one two three 42 -1 ( ) : ; , . ! ? % # @ * + = | ~ ^ _
é ñ 中 … € \xa0""".split(" ")


def words(rng, n=None):
    n = n or rng.randint(1, 4)
    return " ".join(rng.choice(WORDS).strip() or "w" for _ in range(n))


def hostile(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(HOSTILE)
    if r < 0.8:
        return rng.choice(HOSTILE) + words(rng) + rng.choice(HOSTILE)
    return "".join(rng.choice("ab<>&\"'${}/ =!-\n\\é") for _ in range(rng.randint(1, 12)))


class Obj:
    """An object with attributes and methods"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def m(self, x="dflt", *a, **kw):
        return "m<%s>" % (x,)

    def me(self):
        return self

    def __getitem__(self, k):
        return "item[%r]" % (k,)

    def __str__(self):
        return "<Obj & \"%s\">" % self.__dict__.get("name")

    __repr__ = __str__


class Html:
    """an object that renders itself"""

    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return "STR" + self.s

    def __repr__(self):
        return "<Html>"


class HtmlMarkup(Html):
    def __html__(self):
        return Markup(self.s)


class StrSub(str):
    """a string subclass whose str() is something else"""

    def __str__(self):
        return "sub<" + str.__str__(self)


class IntSub(int):
    def __str__(self):
        return "<int&>"

    __repr__ = __str__


class Fmt:
    def __str__(self):
        return "str<>"

    def __repr__(self):
        return "repr<&>"

    def __format__(self, spec):
        return "fmt<%s>" % spec


class Error(Exception):
    pass


def f1(x="d", *a, **kw):
    return "f1<%s>" % (x,)


def add(a, b):
    return a + b


def ident(x):
    return x


def boom(*a):
    raise Error("boom", *a)


def make_context(rng):
    """-> context; the types of its names are in CONTEXT_TYPES"""
    ctx = {
        "s1": hostile(rng), "s2": hostile(rng), "s3": words(rng),
        "empty": "",
        "i1": rng.choice([0, 1, 2, 3, 7, -1]), "i2": rng.randint(-3, 12),
        "zero": 0,
        "b1": rng.random() < 0.5, "b2": rng.random() < 0.5,
        "yes": True, "no": False, "none": None,
        "fl": rng.choice([0.0, 1.5, -2.25, 1e100, float("inf")]),
        "li": [rng.randint(-2, 9) for _ in range(rng.randint(0, 4))],
        "ls": [hostile(rng) for _ in range(rng.randint(0, 4))],
        "lp": [(hostile(rng), rng.randint(0, 5)) for _ in range(rng.randint(0, 3))],
        "nothing": [],
        "d1": {"a": hostile(rng), "b": words(rng), "c d": "x<y"},
        "o1": Obj(name=hostile(rng), n=rng.randint(0, 5), sub=Obj(name="sub&", n=1),
                  items=["<i>", "j"]),
        "mk": Markup("<b>%s</b>" % rng.choice(["x", "&amp;", "'"])),
        "ht": Html("<i title='%s'>&nbsp;</i>" % rng.choice("xy")),
        "hm": HtmlMarkup("<u>&amp;</u>"),
        "ss": StrSub(hostile(rng)),
        "isub": IntSub(5),
        "fm": Fmt(),
        "by": rng.choice([b"<bytes>", b"'\"&"]),
        "f1": f1, "add": add, "ident": ident,
    }
    return ctx


CONTEXT_TYPES = {
    "str": ["s1", "s2", "s3", "empty"],
    "int": ["i1", "i2", "zero"],
    "bool": ["b1", "b2", "yes", "no"],
    "none": ["none"],
    "li": ["li"], "ls": ["ls"], "lp": ["lp"], "nothing": ["nothing"],
    "dict": ["d1"], "obj": ["o1"],
    "safe": ["mk", "ht", "hm"],
    "odd": ["ss", "isub", "fm", "by", "fl"],
}


# ------------------------------------------------------------ expressions

class Env:
    """visible names by type"""

    def __init__(self, types=None):
        self.types = {k: list(v) for k, v in (types or CONTEXT_TYPES).items()}
        self.functions = []         # (name, [argument types])

    def copy(self):
        e = Env(self.types)
        e.functions = list(self.functions)
        return e

    def add(self, name, type_):
        self.hide(name)
        self.types.setdefault(type_, []).append(name)

    def hide(self, name):
        for v in self.types.values():
            if name in v:
                v.remove(name)
        self.functions = [f for f in self.functions if f[0] != name]


def pystr(rng, s):
    """a Python literal of s in one of its spellings"""
    forms = [repr(s)]
    if "'" not in s and "\\" not in s and "\n" not in s:
        forms.append("'%s'" % s)
    if '"' not in s and "\\" not in s and "\n" not in s:
        forms.append('"%s"' % s)
        if '"""' not in s:
            forms.append('"""%s"""' % s)
    forms.append('"%s"' % "".join(
        c if c.isalnum() and ord(c) < 128 or c in " {}$" else
        "\\u%04x" % ord(c) if ord(c) < 0x10000 else "\\U%08x" % ord(c) for c in s))
    return rng.choice(forms)


LITERALS = ["", "x", "<", "&", "}", "{", "{}", "${s1}", "$", "'", '"', "a}b{c", "#",
            "\\", "\n", "lit", "]", ")", "(", "<b>", "&amp;", "é", "}}", "in", "\U0001f600"]


class ExprGen:
    """
    Generates expressions of a type. With `dual`, only such that mean the same
    in Python and in JavaScript (then with both texts).
    """

    def __init__(self, rng, dual=False, newlines=False, tick=False, simple=False,
                 angle=True, buffers=True):
        self.rng = rng
        self.dual = dual
        self.newlines = newlines
        self.tick = tick
        self.simple = simple
        self.angle = angle
        self.buffers = buffers

    def name(self, env, type_):
        names = env.types.get(type_)
        if not names:
            return None
        n = self.rng.choice(names)
        return E(n, n)

    def mk(self, py, js=None, **parts):
        """substitute the parts in both languages"""
        nl = " "
        if self.newlines and self.rng.random() < 0.3:
            nl = "\n"
        e = E(py.format(nl=nl, **parts))
        if self.dual:
            e.js = (js or py).format(
                nl=" ", **{k: v.js if isinstance(v, E) else v for k, v in parts.items()})
        return e

    def literal_str(self):
        s = self.rng.choice(LITERALS)
        if not self.angle and re.search("[<>&]", s):
            s = "lit"
        if self.dual:
            import json
            return E(pystr(self.rng, s), json.dumps(s))
        return E(pystr(self.rng, s))

    def str_(self, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.25:
            n = self.name(env, "str") if r.random() < 0.75 else None
            return n or self.literal_str()
        k = r.randrange(7 if self.dual else 20)
        mk = self.mk
        if k == 0:
            return mk("({a} + {b})", a=self.str_(env, d - 1), b=self.str_(env, d - 1))
        if k == 1:
            return mk("({a} if {c} else{nl}{b})", "({c} ? {a} : {b})", c=self.bool_(env, d - 1),
                      a=self.str_(env, d - 1), b=self.str_(env, d - 1))
        if k == 2:
            return mk("({a} or {b})", "({a} || {b})",
                      a=self.str_(env, d - 1), b=self.str_(env, d - 1))
        if k == 3:
            return mk("f1({a})", a=self.str_(env, d - 1))
        if k == 4:
            return mk("o1.name")
        if k == 5:
            return mk("d1['a']")
        if k == 6:
            return mk("ident({a})", a=self.str_(env, d - 1))
        if k == 7:
            return mk("{a}.upper()", a=self.atom(self.str_(env, d - 1)))
        if k == 8:
            return mk("'%s:%s' % ({a},{nl}{b})", a=self.any_(env, d - 1), b=self.any_(env, d - 1))
        if k == 9:
            return mk("'{{}}|{{x}}'.format({a}, x={b})", a=self.any_(env, d - 1),
                      b=self.any_(env, d - 1))
        if k == 10:
            n = self.name(env, "str") or E("s1")
            return mk(r.choice(["f'{{{a}}}'", "f'{{{{{{{a}}}}}}}'", "f\"a{{{a}!r}}b\"",
                                "f'{{{a}:>5}}'" if self.angle else "f'{{{a}:^5}}'", "rf'{{{a}}}\\d'", "f'''{{{a}}}'''"]), a=n)
        if k == 11:
            return mk("', '.join({a})", a=self.ls(env, d - 1))
        if k == 12:
            return mk("{{'k': {a}, {b}: '}}'}}['k']", a=self.str_(env, d - 1),
                      b=self.str_(env, 0))
        if k == 13:
            return mk("(lambda q, w={b}: q + w)({a})", a=self.str_(env, d - 1),
                      b=self.str_(env, d - 1))
        if k == 14:
            return mk("[{a},{nl}{b}][{c}]", a=self.str_(env, d - 1), b=self.str_(env, d - 1),
                      c=r.choice(["0", "1", "-1"]))
        if k == 15:
            return mk("str({a})", a=self.any_(env, d - 1))
        if k == 16:
            return mk("{a}[:{b}]", a=self.atom(self.str_(env, d - 1)), b=self.int_(env, 0))
        if k == 17:
            return mk("''.join(q for q in {a} if q != '}}')", a=self.ls(env, d - 1))
        if k == 18:
            return mk("o1.m({a},{nl}k={b})", a=self.str_(env, d - 1), b=self.any_(env, 0))
        return mk("dict(k={a})['k']", a=self.str_(env, d - 1))

    def atom(self, e):
        if re.match(r"\w+\Z", e) or e[0] == "(":
            return e
        return self.mk("({a})", a=e)

    def int_(self, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.35:
            n = self.name(env, "int") if r.random() < 0.7 else None
            v = str(r.randint(0, 9))
            return n or E(v, v)
        mk = self.mk
        k = r.randrange(5 if self.dual else 10)
        if k == 0:
            return mk("({a} %s {b})" % r.choice("+-*"), a=self.int_(env, d - 1),
                      b=self.int_(env, d - 1))
        if k == 1:
            return mk("len({a})", "({a}).length", a=self.ls(env, d - 1))
        if k == 2:
            return mk("({a} if {c} else {b})", "({c} ? {a} : {b})", c=self.bool_(env, d - 1),
                      a=self.int_(env, d - 1), b=self.int_(env, d - 1))
        if k == 3:
            return mk("add({a}, {b})", a=self.int_(env, d - 1), b=self.int_(env, d - 1))
        if k == 4:
            return mk("o1.n")
        if k == 5:
            return mk("sum(q for q in {a})", a=self.li(env, d - 1))
        if k == 6:
            return mk("max([{a},{nl}{b}])", a=self.int_(env, d - 1), b=self.int_(env, d - 1))
        if k == 7:
            return mk("-{a}", a=self.atom(self.int_(env, d - 1)))
        if k == 8:
            return mk("{{1: {a}}}.get({b}, 0)", a=self.int_(env, d - 1), b=self.int_(env, d - 1))
        return mk("(lambda: {a})()", a=self.int_(env, d - 1))

    def bool_(self, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.25:
            n = self.name(env, "bool")
            return n or E("yes", "yes")
        mk = self.mk
        k = r.randrange(6 if self.dual else 11)
        if k == 0:
            op = r.choice(["<", ">", "<=", ">=", "==", "!="] if self.angle else ["==", "!="])
            return mk("({a} %s {b})" % op,
                      "({a} %s {b})" % {"==": "===", "!=": "!=="}.get(op, op),
                      a=self.int_(env, d - 1), b=self.int_(env, d - 1))
        if k == 1:
            return mk("(not {a})", "(!{a})", a=self.atom(self.bool_(env, d - 1)))
        if k == 2:
            op = r.choice(["and", "or"])
            return mk("({a} %s {b})" % op,
                      "({a} %s {b})" % {"and": "&&", "or": "||"}[op],
                      a=self.bool_(env, d - 1), b=self.bool_(env, d - 1))
        if k == 3:
            return mk("({a} == {b})", "({a} === {b})", a=self.str_(env, d - 1),
                      b=self.str_(env, d - 1))
        if k == 4:
            return E("yes", "yes") if r.random() < 0.5 else E("no", "no")
        if k == 5:
            return mk("({a} if {c} else {b})", "({c} ? {a} : {b})", c=self.bool_(env, d - 1),
                      a=self.bool_(env, d - 1), b=self.bool_(env, d - 1))
        if k == 6:
            return mk("({a} in {b})", a=self.str_(env, d - 1), b=self.ls(env, d - 1))
        if k == 7:
            return mk("(none is %s)" % r.choice(["None", "not None", "none"]))
        if k == 8:
            return mk("any({a})", a=self.ls(env, d - 1))
        if k == 9:
            return mk("isinstance({a}, str)", a=self.any_(env, d - 1))
        return mk("bool({a})", a=self.any_(env, d - 1))

    def truthy(self, env, d):
        """a condition: any type"""
        r = self.rng.random()
        if r < 0.6:
            return self.bool_(env, d)
        if r < 0.75:
            return self.str_(env, d)
        if r < 0.9:
            return self.int_(env, d)
        if self.dual:
            return E("none", "none")
        return self.any_(env, d)

    def ls(self, env, d):
        r = self.rng
        n = self.name(env, "ls")
        if d <= 0 or (r.random() < 0.4 and n):
            return n or E("['x']", "['x']")
        mk = self.mk
        k = r.randrange(2 if self.dual else 7)
        if k == 0:
            return mk("[{a},{nl}{b}]", a=self.str_(env, d - 1), b=self.str_(env, d - 1))
        if k == 1:
            return mk("[]") if r.random() < 0.2 else mk("[{a}]", a=self.str_(env, d - 1))
        if k == 2:
            return mk("[q + {b} for q in {a}]", a=self.ls(env, d - 1), b=self.str_(env, d - 1))
        if k == 3:
            return mk("sorted({a})", a=self.ls(env, d - 1))
        if k == 4:
            return mk("list(map(f1, {a}))", a=self.ls(env, d - 1))
        if k == 5:
            return mk("[q for w in [{a}, ['z']] for q in w]", a=self.ls(env, d - 1))
        return mk("{a}[:2]", a=self.atom(self.ls(env, d - 1)))

    def li(self, env, d):
        r = self.rng
        n = self.name(env, "li")
        if d <= 0 or (r.random() < 0.4 and n):
            return n or E("[1, 2]", "[1, 2]")
        mk = self.mk
        k = r.randrange(2 if self.dual else 5)
        if k == 0:
            return mk("[{a}, {b}]", a=self.int_(env, d - 1), b=self.int_(env, d - 1))
        if k == 1:
            return mk("[{a}]", a=self.int_(env, d - 1))
        if k == 2:
            return mk("[q * 2 for q in {a}]", a=self.li(env, d - 1))
        if k == 3:
            return mk("list(range(%d))" % r.randint(0, 4))
        return mk("[q for q in {a} if q != {b}]", a=self.li(env, d - 1), b=self.int_(env, d - 1))

    def safe(self, env, d):
        r = self.rng
        mk = self.mk
        if env.functions and r.random() < 0.5:
            return self.call(env, d)
        if r.random() < 0.4:
            return mk("literal({a})", a=self.str_(env, d - 1))
        return self.name(env, "safe") or mk("literal({a})", a=self.str_(env, d - 1))

    def call(self, env, d):
        name, types = self.rng.choice(env.functions)
        args = [self.typed(t, env, d - 1) for t in types]
        e = E("%s(%s)" % (name, ", ".join(args)))
        if self.dual:
            e.js = "%s(%s)" % (name, ", ".join(a.js for a in args))
        return e

    def typed(self, type_, env, d):
        return {"str": self.str_, "int": self.int_, "bool": self.bool_, "ls": self.ls,
                "li": self.li, "any": self.any_}[type_](env, d)

    def any_(self, env, d):
        """anything that can be output"""
        r = self.rng
        k = r.randrange(100)
        if self.tick and k < 8:
            return E("tick()", "tick()")
        if k < 45:
            return self.str_(env, d)
        if k < 60:
            return self.int_(env, d)
        if k < 66:
            return self.bool_(env, d)
        if k < 70:
            return E("none", "none")
        if k < 85:
            return self.safe(env, d)
        if self.dual:
            return self.str_(env, d)
        if k < 92:
            return self.name(env, "odd") or self.str_(env, d)
        return E(r.choice(["o1", "o1.sub", "d1", "ls", "li", "[s1, mk]", "(s1, None)",
                           "{'k': s1}", "{s1}", "1.5", "...", "1j", "b'<'", "f1", "type(s1)",
                           "range(3)", "d1.keys()"])
                 if self.angle else "o1")

    def dotted(self, env):
        """of the form $name.attr(...)[...]"""
        r = self.rng
        base = r.choice(["o1.name", "o1.me().name", "o1.sub.name", "o1.m(s1)", "o1['k']",
                         "d1['a']", "f1(s1)", "f1((s1))", "o1.items[0]", "s1", "i1", "s1.upper()",
                         "f1('}')", "d1[\"c d\"]", "o1.me().me().m(x='(')", "ident([s1, ')'])[0]",
                         "ident({'a': s1})['a']", "f1(f1(s1))"])
        return E(base)


def parenthesised(text):
    """does the first parenthesis end at the end?"""
    depth, quote, i = 0, None, 0
    while i < len(text):
        c = text[i]
        if quote:
            if c == "\\":
                i += 1
            elif c == quote:
                quote = None
        elif c in "'\"":
            quote = c
        elif c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0 and i + 1 < len(text):
                return False
        i += 1
    return text[:1] == "(" and depth == 0


def bare(e):
    """the expression without the parentheses around it, if it has some"""
    if not isinstance(e, E) or e[:1] != "(" or "\n" in e or e.js and "\n" in e.js:
        return e
    inner = E(e[1:-1])
    if e.js is not None:
        if not parenthesised(e.js):
            return e
        inner.js = e.js[1:-1]
    if e.js is None or e.js != e:
        try:
            if ast.dump(ast.parse(str(inner), mode="eval")) != ast.dump(
                    ast.parse(str(e), mode="eval")):
                return e
        except SyntaxError:
            return e
    return inner


# -------------------------------------------------------------- templates

PLAIN_TAGS = ["p", "div", "span", "b", "ul", "li", "a", "table", "td", "h1", "x-y", "section",
              "title", "textarea", "select", "option"]
VOID_TAGS = ["br", "hr", "img", "input", "meta", "link", "wbr", "embed"]
#: and the others ones that need no end tag
RARE_VOID_TAGS = sorted(VOID_SOURCE - set(VOID_TAGS))
ATTR_NAMES = ["class", "id", "href", "title", "alt", "value", "data-x", "style", "name",
              "placeholder", "aria-label", "on-click", "xml:lang", "checked", "disabled", "lang",
              "xlink:href", "for", "if", "content", "vars", "strip"]


class TemplateGen:
    def __init__(self, rng, exprs=None, dual=False, controls=("if", "unless", "for", "def",
                 "with", "block"), comments=True, code=False, raw=True, depth=4,
                 budget=40, elements=True, attrs=True, strip=True, tal=False, text=None,
                 shadow=True, weird_text=True, edepth=2, content_ok=True, dyn=True, large=0.0):
        self.rng = rng
        self.large = large
        self.x = exprs or ExprGen(rng, dual=dual)
        self.dual = dual
        self.controls = controls
        self.comments = comments
        self.code = code
        self.raw = raw
        self.depth = depth
        self.budget = budget
        self.elements = elements
        self.attrs_on = attrs
        self.strip = strip
        self.tal = tal
        self.shadow = shadow
        self.weird_text = weird_text
        self.edepth = edepth
        self.dyn = dyn
        self.counter = 0
        self.used = {}

    def fresh(self, prefix):
        self.counter += 1
        return "%s%d" % (prefix, self.counter)

    def note(self, what):
        self.used[what] = self.used.get(what, 0) + 1

    def template(self, env=None):
        """-> [nodes], exactly one root element with functions and blocks"""
        env = env or Env()
        self.base_env = env
        r = self.rng
        root = El(r.choice(["html", "div", "body"]), self.attributes(env))
        defs = []
        if "def" in self.controls:
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                defs.append(self.define(env, top=True))
        env = env.copy()
        for d in defs:
            env.functions.append((d.name_, d.types_))
        self.base_env = env.copy()
        children = self.many(env, self.depth, top=True)
        for d in defs:
            children.insert(r.randint(0, len(children)), d)
        root.children = merge(children)
        if self.large and r.random() < self.large:
            enlarge(self, root)
        nodes = [root]
        if self.comments and r.random() < 0.1:
            nodes.insert(0, self.comment())
        return nodes

    def define(self, env, top):
        r = self.rng
        name = self.fresh("fn_")
        inner = env.copy()
        # functions defined before are known to it
        types, params, jsparams = [], [], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            t = r.choice(["str", "str", "int", "ls", "bool"])
            p = self.fresh("a")
            if self.shadow and r.random() < 0.25 and env.types.get(t):
                p = r.choice(env.types[t])
                if p in params:
                    p = self.fresh("a")
            params.append(p)
            types.append(t)
        sig = list(params)
        if not self.dual:
            first_default = r.randint(0, len(params)) if r.random() < 0.4 else len(params)
            for i in range(first_default, len(params)):
                sig[i] = "%s=%s" % (params[i], self.x.typed(types[i], self.default_env(env, top), 1))
            ncall = r.randint(first_default, len(params)) if params else 0
            if r.random() < 0.15:
                extra = self.fresh("k")
                sig.append("*, %s=%s" % (extra, self.x.str_(self.default_env(env, top), 0)))
                inner.add(extra, "str")
            elif r.random() < 0.1:
                sig.append("*" + self.fresh("va"))
        else:
            ncall = len(params)
        for p, t in zip(params, types):
            inner.add(p, t)
        spec = "%s(%s)" % (name, ", ".join(sig))
        if not sig and r.random() < 0.3:
            spec = name
        saved = self.budget
        self.budget = min(self.budget, 6)
        body = self.many(inner, min(2, self.depth), nest=True) or [T("f")]
        self.budget = saved - 3
        node = C("def", E(spec, spec), body)
        node.name_ = name
        node.types_ = types[:ncall]
        node.line = None
        self.note("def")
        return node

    def default_env(self, env, top):
        if not top:
            return env
        # functions are not defined in an order to be relied upon
        e = Env()
        return e

    def comment(self):
        return Cm(self.rng.choice([" c ", "plain", "! removed", " !removed ${x}", " <b>&amp;$x ${",
                                   "[if IE]><p>x</p><![endif]", "a > b", "", " é "]))

    def static_text(self):
        r = self.rng
        if not self.weird_text:
            return words(r)
        k = r.random()
        if k < 0.45:
            return words(r)
        if k < 0.6:
            return r.choice([" ", "\n", "\n  ", "\t"])
        if k < 0.9:
            return words(r) + r.choice(["", " ", "&", "<", ">", '"', "'", "$", "$ ", "$$", "$5",
                                        "{", "}", "${", "$x", "&amp;", "()", ".x", "[0]"])
        return r.choice(["<b>", "&lt;", "$", "$$", "$$$", "${s1}", "$s1", "}", "a\nb", "]]>", "--"])

    def text(self, env):
        """T and I nodes"""
        r = self.rng
        rv = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            if r.random() < 0.45:
                rv.append(T(self.static_text()))
            else:
                rv.append(self.interp(env))
        return rv

    def interp(self, env):
        self.note("interp")
        if ((not self.dual or getattr(self.x, "js_only", False))
                and self.rng.random() < 0.08 and not env_changed(env)):
            return I(self.x.dotted(env), "$")
        return I(self.value(env))

    def value(self, env, d=None):
        e = self.x.any_(env, self.edepth if d is None else d)
        return bare(e) if self.rng.random() < 0.4 else e

    def condition(self, env, d):
        e = self.x.truthy(env, d)
        return bare(e) if self.rng.random() < 0.4 else e

    def attributes(self, env):
        r = self.rng
        if not self.attrs_on:
            return []
        names = r.sample(ATTR_NAMES, r.choice([0, 0, 0, 1, 1, 2, 3]))
        return [(n, self.attribute(env)) for n in names]

    def attribute(self, env):
        r = self.rng
        k = r.random()
        if k < 0.08:
            return None
        if k < 0.35:
            t = self.static_text() if self.weird_text else words(r)
            return [t] if r.random() < 0.93 else []
        if k < 0.75:
            self.note("single_attr")
            return [I(self.value(env))]
        self.note("mixed_attr")
        parts = []
        for _ in range(r.randint(2, 4)):
            if parts and not isinstance(parts[-1], I) or r.random() < 0.5:
                parts.append(I(self.value(env)))
            else:
                parts.append(self.static_text() or "x")
        if not any(isinstance(p, I) for p in parts):
            parts.append(I(self.value(env, 1)))
        if len(parts) == 1:
            parts.append("t")
        return parts

    def dyn_attrs(self, env):
        r = self.rng
        self.note("dyn_attrs")
        x = self.x

        def pair():
            n = r.choice(["data-d", "class", "title", "checked", "k"])
            v = x.any_(env, 1)
            return n, v

        pairs = [pair() for _ in range(r.randint(0, 3))]
        if self.dual:
            e = E("[%s]" % ", ".join("('%s', %s)" % p for p in pairs))
            e.js = "[%s]" % ", ".join("['%s', %s]" % (n, v.js) for n, v in pairs)
            if r.random() < 0.1:
                return E("none", "none")
            return e
        k = r.random()
        if k < 0.15:
            return E(r.choice(["none", "nothing", "''", "{}", "()", "False", "0"]))
        if k < 0.6:
            return E("{%s}" % ", ".join("'%s': %s" % p for p in pairs))
        if k < 0.8:
            return E("[%s]" % ", ".join("('%s', %s)" % p for p in pairs))
        if k < 0.9:
            return E("dict([%s])" % ", ".join("('%s', %s)" % p for p in pairs))
        return E("iter([%s])" % ", ".join("['%s', %s]" % p for p in pairs))

    def element(self, env, depth, top=False, nest=False):
        r = self.rng
        self.note("element")
        k = r.random()
        if k < 0.08:
            el = El(r.choice(VOID_TAGS if r.random() < 0.6 else RARE_VOID_TAGS), self.attributes(env))
        elif k < 0.13 and self.raw:
            el = El(r.choice(["script", "style"]), self.attributes(env), self.raw_children(env))
            return el
        else:
            el = El(r.choice(PLAIN_TAGS), self.attributes(env))
            # before the children, whose code can add names
            if self.dyn and self.attrs_on and r.random() < 0.08:
                el.dyn = self.dyn_attrs(env)
            if depth > 0 and r.random() < 0.85:
                el.children = self.many(env, depth - 1, top, nest)
        if self.strip and r.random() < 0.12:
            self.note("strip")
            if r.random() < 0.25:
                blank = r.choice(["", "", " ", "\n "])
                el.strip = E(blank, blank)
            else:
                el.strip = self.condition(env, 1)
        if el.tag in VOID_SOURCE and self.dyn and self.attrs_on and r.random() < 0.08:
            el.dyn = self.dyn_attrs(env)
        if el.tag in VOID_SOURCE and r.random() < 0.1 and not el.children:
            el.content = self.value(env, 1)
        return el

    def raw_children(self, env):
        r = self.rng
        rv = []
        for _ in range(r.randint(0, 3)):
            rv.append(T(r.choice(["var a = 1 < 2 && b > 3;", "if (a) { b('<p>'); }", "\n",
                                  "a { color: red }", "/* & &amp; */", "$5 $$", "x = \"</b>\";",
                                  "<!-- c -->", "'<br/>'"])))
            if r.random() < 0.4:
                x = (type(self.x) if self.dual else ExprGen)(r, dual=self.dual, angle=False)
                rv.append(I(x.str_(env, 0) if self.dual else x.str_(env, 1), "{"))
        return merge(rv)

    def many(self, env, depth, top=False, nest=False):
        r = self.rng
        rv = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            if self.budget <= 0:
                break
            k = r.random()
            self.budget -= 1
            if k < 0.4 or depth <= 0:
                rv.extend(self.text(env))
            elif k < 0.65 or not self.controls:
                rv.append(self.element(env, depth, top, nest))
            elif k < 0.69 and self.comments:
                rv.append(self.comment())
            elif k < 0.71 and self.code:
                rv.append(self.code_node(env))
            else:
                rv.extend(self.control(env, depth, nest))
        return merge(rv)

    def code_node(self, env):
        name = self.fresh("pi")
        if self.dual:
            e = type(self.x)(self.rng, dual=True, angle=False).str_(env, 1)
            node = Code(E("%s = %s" % (name, e), "var %s = %s" % (name, e.js)))
        else:
            node = Code("%s = %s" % (name, ExprGen(self.rng, angle=False).str_(env, 1).replace(
                "\n", " ")))
        env.add(name, "str")
        self.note("code")
        return node

    def control(self, env, depth, nest=False):
        """a control structure, as a list of nodes"""
        r = self.rng
        kinds = [k for k in self.controls]
        kind = r.choice(kinds)
        if kind == "block" and nest:
            kind = "if"
        self.note(kind)
        x = self.x
        if kind in ("if", "unless"):
            return [C(kind, self.condition(env, self.edepth), self.body(env.copy(), depth, nest))]
        if kind == "for":
            return [self.loop(env, depth)]
        if kind == "with":
            return [self.with_(env, depth, nest)]
        if kind == "block":
            name = self.fresh("blk_")
            return [C("block", E(name, name), self.body(self.base_env.copy(), depth, nest=True))]
        # a local function, called afterwards
        node = self.define(env, top=False)
        inner = env.copy()
        inner.functions.append((node.name_, node.types_))
        before = self.text(env) if r.random() < 0.5 else []
        children = merge(before + [node] + self.many(inner, depth - 1, nest=True)
                         + [I(self.x.call(with_only(inner, node), 1))])
        wrapper = C("if", E("yes", "yes"), children)
        if r.random() < 0.3:
            name = self.fresh("w")
            arg = E("%s = 1" % name, "%s = 1" % name)
            arg.pairs = [(name, E("1", "1"))]
            wrapper = C("with", arg, children)
        return [wrapper]

    def body(self, env, depth, nest=False):
        r = self.rng
        if self.tal or r.random() < 0.5:
            el = self.element(env, depth - 1, nest=nest)
            return [el]
        return self.many(env, depth - 1, nest=nest) or [T("t")]

    def loop(self, env, depth):
        r = self.rng
        x = self.x
        inner = env.copy()
        v = self.fresh("v")
        if self.dual:
            lst = r.choice([("ls", "str"), ("li", "int")])
            e = x.typed(lst[0], env, 1)
            inner.add(v, lst[1])
            if r.random() < 0.3:
                i = self.fresh("v")
                inner.add(i, "int")
                arg = E("%s, %s in enumerate(%s)" % (i, v, e), "%s, %s in %s" % (v, i, e.js))
            else:
                # whatever has forEach
                js = "new Set(%s)" % e.js if r.random() < 0.08 else e.js
                arg = E("%s in %s" % (v, e), "%s in %s" % (v, js))
        else:
            k = r.randrange(8)
            if k < 3:
                e = x.ls(env, 1)
                inner.add(v, "str")
                arg = "%s in %s" % (v, e)
            elif k < 5:
                e = x.li(env, 1)
                inner.add(v, "int")
                arg = "%s in %s" % (v, e)
            elif k == 5:
                i = self.fresh("v")
                inner.add(i, "int")
                inner.add(v, "str")
                arg = "%s, %s in enumerate(%s)" % (i, v, x.ls(env, 1))
            elif k == 6:
                i = self.fresh("v")
                inner.add(i, "int")
                inner.add(v, "str")
                arg = r.choice(["%s, %s in lp", "(%s, %s) in lp"]) % (v, i)
            else:
                arg = r.choice(["%s in d1", "%s in sorted(d1.values())", "%s in 'a<b'"]) % v
                inner.add(v, "str")
            if r.random() < 0.1:
                arg = arg.replace(" in ", "  in  ", 1)
            arg = E(arg)
        saved = self.budget
        self.budget = min(self.budget, 8)
        node = C("for", arg, self.body(inner, depth))
        self.budget = saved - 3
        return node

    def with_(self, env, depth, nest):
        r = self.rng
        inner = env.copy()
        avail = env.copy()
        pys, jss, pairs = [], [], []
        names = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.choice(["str", "str", "int", "ls"])
            name = self.fresh("w")
            if self.shadow and r.random() < 0.3 and env.types.get(t):
                name = r.choice(env.types[t])
            if name in names:
                continue
            names.append(name)
        order = []
        reserved = {"s1", "o1", "d1", "lp", "ls", "li", "mk", "none"}
        for name in names:
            t = "str"
            for k in ("str", "int", "ls", "li"):
                if name in env.types.get(k, ()):
                    t = k
            order.append((name, t))
        # only names that the fixed expressions do not use can be rebound
        order = [(n, t) for n, t in order if n not in reserved] or [(self.fresh("w"), "str")]
        for name, t in order:
            # in JavaScript, they start with the outer values
            if not getattr(self.x, "js_only", False):
                avail.hide(name)
        for name, t in order:
            e = self.x.typed(t, avail, 1)
            pys.append("%s = %s" % (name, e))
            pairs.append((name, e))
            if self.dual:
                jss.append("%s = %s" % (name, e.js))
            avail.add(name, t)
            inner.add(name, t)
        saved = pys, jss, pairs
        if len(pairs) > 1 and r.random() < 0.2:
            # one value for all of them
            name, e = pairs[-1]
            same = [n for n, t in order if t == order[-1][1]]
            if len(same) == len(order):
                pys = [" = ".join(same) + " = " + e]
                if self.dual:
                    jss = [" = ".join(same) + " = " + e.js]
                    pairs = [(name, e)] + [(n, E(name, name)) for n in same[-2::-1]]
                if any(re.search(r"\b%s\b" % n, e) for n in same):
                    pys, jss, pairs = saved
        sep = r.choice(["; ", ";", " ; "])
        arg = E(sep.join(pys), r.choice(["; ", ", ", ";"]).join(jss) if self.dual else None)
        arg.pairs = pairs
        return C("with", arg, self.body(inner, depth, nest=True))


def enlarge(g, root):
    """
    Adds to the root something that there is a lot of: depth, siblings,
    attributes, items, characters, lines, functions, parameters or names.
    """
    r, dual, tal = g.rng, g.dual, g.tal
    x = lambda py, js=None: E(py, js or py)
    e = Env()
    leaf = lambda: El(r.choice(PLAIN_TAGS), g.attributes(e), merge(g.text(e)))
    name = g.fresh("big")
    kinds = ["deep", "wide", "attrs", "dynamic", "loop", "text", "lines", "line", "outputs", "nested",
             "conditions"]
    if not tal and "def" in g.controls and "with" in g.controls and "block" in g.controls:
        kinds += ["withs", "with", "functions", "parameters", "blocks", "recursion"]
    if not g.dyn or not g.attrs_on:
        kinds.remove("dynamic")
    kind = r.choice(kinds)
    n = r.choice([9, 17, 33, 65, 70, 129, 260])
    body, kids = None, []
    if kind == "deep":
        body = leaf()
        for _ in range(min(n, 70)):
            body = El(r.choice(PLAIN_TAGS), g.attributes(e) if r.random() < 0.2 else [],
                      merge([T(words(r, 1)), body, T(words(r, 1))]))
        kids = [body]
    elif kind in ("wide", "outputs"):
        for _ in range(n):
            kids += [leaf()] if kind == "wide" else [T(words(r, 1)), g.interp(e)]
    elif kind == "attrs":
        kids = [El("p", [("data-%s%d" % (name, i), r.choice([None, ["v%d" % i], [I(g.value(e, 0))],
                          ["a", I(g.value(e, 0)), "b"]])) for i in range(n)], [T("x")])]
    elif kind == "dynamic":
        pairs = [("data-%d" % i, g.x.any_(e, 0)) for i in range(n)]
        kids = [El("p", [], [T("x")], dyn=E(
            "[%s]" % ", ".join("('%s', %s)" % p for p in pairs),
            "[%s]" % ", ".join("['%s', %s]" % (k, v.js) for k, v in pairs) if dual else None))]
    elif kind == "loop":
        n = r.choice([n, 1001, 3000])
        kids = [C("for", x("%s in [%s]" % (name, ", ".join(str(i % 10) for i in range(n)))),
                  [El("b", [("id", [I(x(name))])], [I(x(name)), T(r.choice(["", ",", "&"]))])])]
        if r.random() < 0.5:
            kids = [C("if", x("yes"), [El("p", [], kids)])]
    elif kind == "nested":
        # as many loops as fit in a Python function
        body = leaf()
        for i in range(min(n, 17)):
            if r.random() < 0.3:
                body = C("if", x("yes"), [El("p", [], [body])])
            else:
                body = C("for", x("%s_%d in [%d]" % (name, i, i)),
                         [El("i", [], [I(x("%s_%d" % (name, i))), body])])
        kids = [body]
    elif kind == "conditions":
        for i in range(n):
            kids += [C("if", x("%d %s i1" % (i % 3, r.choice(["<", ">"]))),
                       [El("b", [], [T(str(i)), I(x("s1"))] if r.random() < 0.5 else [])])]
    elif kind == "text":
        n = r.choice([n, 1025, 4097, 20000, 70000])
        t = (words(r, 5) + r.choice([" ", "\n", "<", "&amp;", "$ "])) * n
        kids = [T(t[:n]), g.interp(e), El("p", [("title", [t[:n]])], [T(t[:n])])]
    elif kind == "lines":
        n = r.choice([n, 1100])
        kids = [T("\n" * n), g.interp(e), T("\n" * n), leaf()]
    elif kind == "line":
        # one long line of expressions
        kids = [I(x("[%s][%d]" % (", ".join("'%s%d'" % (r.choice("}{$)(<&"), i) for i in range(n)),
                                  n - 1)), "{"), leaf()]
    elif kind == "withs":
        body = El("p", [], [I(x("%s_%d" % (name, i))) for i in range(n) if i < 18])
        for i in reversed(range(min(n, 18))):
            arg = x("%s_%d = %d" % (name, i, i) if i % 2 or not i else
                    "%s_%d = %s_%d + 1" % (name, i, name, i - 1))
            arg.pairs = [tuple(x(p) for p in arg.split(" = "))]
            body = C("with", arg, [body])
        kids = [body]
    elif kind == "with":
        names = ["%s_%d" % (name, i) for i in range(n)]
        arg = x("; ".join("%s = %d" % (v, i) for i, v in enumerate(names)))
        arg.pairs = [(v, x(str(i))) for i, v in enumerate(names)]
        kids = [C("with", arg, [El("p", [], [I(x(v)) for v in names])])]
    elif kind in ("functions", "blocks"):
        calls = []
        for i in range(n):
            f = "%s_%d" % (name, i)
            if kind == "blocks":
                kids.append(C("block", x(f), [El("b", [], [I(x(r.choice(["s1", "i1", "mk"])))])]))
            else:
                kids.append(C("def", x(f + "(a)"), [El("b", [], [I(x("a")), T(str(i))])]))
                calls.append(I(x("%s(%s)" % (f, r.choice(["s1", "i1", "mk"])))))
        r.shuffle(calls)
        kids += calls
    elif kind == "parameters":
        names = ["%s_%d" % (name, i) for i in range(n)]
        kids = [C("def", x("%s(%s)" % (name, ", ".join(names))),
                  [El("b", [], [I(x(v)) for v in names])]),
                I(x("%s(%s)" % (name, ", ".join(r.choice(["s1", "i1", "mk", "'<'"]) for _ in names))))]
    elif kind == "recursion":
        depth = min(n, 65)
        kids = [C("def", x(name + "(a)"), [El("b", [("id", [I(x("a"))])], [
            T("["), C("if", x("a > 0"), [I(x(name + "(a - 1)"))]), T("]")])]),
            I(x("%s(%d)" % (name, depth)))]
    g.note("large." + kind)
    at = r.randint(0, len(root.children))
    root.children[at:at] = kids
    root.children = merge(root.children)


def env_changed(env):
    return env.types != CONTEXT_TYPES


def with_only(env, node):
    e = env.copy()
    e.functions = [f for f in e.functions if f[0] == node.name_]
    return e


def merge(nodes):
    """join neighbouring texts, drop empty ones"""
    rv = []
    for n in nodes:
        if isinstance(n, T):
            if not n.text:
                continue
            if rv and isinstance(rv[-1], T):
                rv[-1] = T(rv[-1].text + n.text)
                continue
        rv.append(n)
    return rv
