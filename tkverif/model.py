"""
Templates as trees, with
 - an independent reference interpreter (`Reference`), written from the
   documentation, which walks the tree and evaluates expressions with eval, and
 - a serializer (`Serializer`) that writes a tree as template source in one of
   many equivalent layouts.
"""
import ast
import re

VOID = set("""area base br col command embed hr img input keygen link meta
param source track wbr""".split())
#: elements that need no end tag in the source (`command` does)
VOID_SOURCE = VOID - {"command"}
RAW = {"script", "style"}
ORDER = ["block", "if", "unless", "for", "def", "with"]
TRANSLATABLE_ATTRS = {"title", "alt", "placeholder", "value", "caption"}


class E(str):
    """An expression in Python; `js` is the same one in JavaScript."""

    js = None

    def __new__(cls, py, js=None):
        self = str.__new__(cls, py)
        self.js = js
        return self

    def lang(self, dialect):
        if dialect == "js":
            assert self.js is not None, self
            return self.js
        return str(self)


class Node:
    __slots__ = ("children", "line", "name_", "types_")
    fields = ()

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(
            repr(getattr(self, f)) for f in self.fields))


class T(Node):
    """Text with these characters"""

    __slots__ = ("text",)
    fields = ("text",)

    def __init__(self, text):
        self.text = text
        self.children = ()


class I(Node):
    """An interpolated expression"""

    __slots__ = ("expr", "form")
    fields = ("expr",)

    def __init__(self, expr, form=None):
        self.expr = expr
        self.form = form
        self.children = ()


class El(Node):
    """
    An element. attrs: [(name, None | [str or I, ...])];
    strip: None or an expression, dyn: expression of attrs or None
    """

    __slots__ = ("tag", "attrs", "strip", "dyn", "content")
    fields = ("tag", "attrs", "strip", "dyn", "content", "children")

    def __init__(self, tag, attrs=(), children=(), strip=None, dyn=None, content=None):
        self.tag = tag
        self.attrs = list(attrs)
        self.children = list(children)
        self.strip = strip
        self.dyn = dyn
        self.content = content


class C(Node):
    """A control structure: block if unless for def with"""

    __slots__ = ("kind", "arg", "form")
    fields = ("kind", "arg", "children")

    def __init__(self, kind, arg, children=()):
        self.kind = kind
        self.arg = arg
        self.children = list(children)
        self.form = None


class Cm(Node):
    __slots__ = ("text",)
    fields = ("text",)

    def __init__(self, text):
        self.text = text
        self.children = ()

    @property
    def removed(self):
        return self.text.strip().startswith("!")


class Code(Node):
    __slots__ = ("source",)
    fields = ("source",)

    def __init__(self, source):
        self.source = source
        self.children = ()


class Imp(Node):
    __slots__ = ("href", "alias")
    fields = ("href", "alias")

    def __init__(self, href, alias):
        self.href = href
        self.alias = alias
        self.children = ()


class Ext(Node):
    __slots__ = ("href",)
    fields = ("href", "children")

    def __init__(self, href, children=()):
        self.href = href
        self.children = list(children)


class Doc(Node):
    __slots__ = ("text",)
    fields = ("text",)

    def __init__(self, text):
        self.text = text
        self.children = ()


# -------------------------------------------------------------- reference

ENTITIES = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}
_special = re.compile("[&<>\"']")


def esc_str(s):
    return _special.sub(lambda m: ENTITIES[m.group()], s)


class Out:
    """The result of a template function"""

    def __init__(self, text):
        self._text = text

    def __html__(self):
        return self._text

    def __str__(self):
        return self._text

    join = __str__


class Safe(str):
    """literal() in the reference"""

    __slots__ = ()

    def __html__(self):
        return str.__str__(self)


def esc(value):
    if hasattr(value, "__html__"):
        return str(value.__html__())
    return esc_str(str(value))


_compiled = {}


def compiled(source, mode):
    key = source, mode
    code = _compiled.get(key)
    if code is None:
        if len(_compiled) > 5000:
            _compiled.clear()
        text = source.strip(" \t") if mode == "eval" else source
        code = _compiled[key] = compile(text, "<reference>", mode)
    return code


def stored_names(source, mode="exec"):
    key = source, "stored"
    names = _compiled.get(key)
    if names is None:
        names = set()

        def visit(node):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
                names.add(node.id)
            elif isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                names.add(node.name)
                return
            elif isinstance(node, (ast.Import, ast.ImportFrom)):
                for a in node.names:
                    names.add((a.asname or a.name).split(".")[0])
            elif isinstance(node, (ast.Lambda, ast.ListComp, ast.SetComp,
                                   ast.DictComp, ast.GeneratorExp)):
                return
            for c in ast.iter_child_nodes(node):
                visit(c)

        visit(ast.parse(source, mode=mode))
        _compiled[key] = names
    return names


def split_for(arg):
    target, _, expr = arg.partition(" in ")
    return target, expr


class Scope:
    __slots__ = ("parent", "vars", "locals")

    def __init__(self, parent, locals=()):
        self.parent = parent
        self.vars = {}
        self.locals = frozenset(locals)

    def flat(self):
        chain = []
        s = self
        while s is not None:
            chain.append(s)
            s = s.parent
        rv = {}
        for s in reversed(chain):
            for n in s.locals:
                if n not in s.vars:
                    rv.pop(n, None)
            rv.update(s.vars)
        return rv


def local_names(children, hoisted=()):
    """The names local to the function with this body"""
    names = set()

    def visit(node):
        if isinstance(node, C):
            if node.kind == "for":
                names.update(stored_names(split_for(node.arg)[0] + " = 0"))
            elif node.kind == "def":
                if id(node) not in hoisted:
                    names.add(node.arg.partition("(")[0])
                return
            elif node.kind in ("with", "block"):
                return
        elif isinstance(node, Code):
            names.update(stored_names(node.source))
        elif isinstance(node, Imp):
            if id(node) not in hoisted:
                names.add(node.alias)
        for c in node.children:
            visit(c)

    for c in children:
        visit(c)
    return names


class Reference:
    """
    Interprets one template (without inheritance). The functions found are
    in `functions`; `overrides` replaces them (see checks/c08).
    """

    def __init__(self, nodes, context, gettext=None, translatable=False,
                 on_output=None):
        self.nodes = nodes
        self.gettext = gettext or context.get("gettext") or (lambda x: x)
        self.translatable = translatable
        self.base = Scope(None)
        self.base.vars.update({
            "literal": lambda x: Safe(str(x)),
            "gettext": lambda x: x,
            "egettext": lambda x: Safe(esc_str(str(self.gettext(x)))),
        })
        self.context = context
        self.functions = {}
        self.collect(nodes)
        self.top = {id(n) for n in self.top_defs}
        # bound in this order: blocks, functions
        self.base.vars.update(context)
        for n in self.blocks:
            if n.arg not in context:
                self.base.vars[n.arg] = self.make_block(n)
        for n in self.top_defs:
            name = n.arg.partition("(")[0]
            if name not in context:
                self.base.vars[name] = self.make_def(n, self.base)

    esc = staticmethod(esc)
    truth = staticmethod(bool)

    # -- structure
    def collect(self, nodes):
        self.blocks, self.top_defs = [], []

        def visit(node, top):
            if isinstance(node, C):
                if node.kind == "block":
                    self.blocks.append(node)
                elif node.kind == "def" and top:
                    self.top_defs.append(node)
                top = False
            for c in node.children:
                visit(c, top)

        for n in nodes:
            visit(n, True)

    # -- functions
    def make_block(self, node):
        def block():
            scope = Scope(self.base, local_names(node.children))
            out = []
            self.children(node.children, scope, out, Mode())
            return Out("".join(out))

        block.__name__ = node.arg
        return block

    def make_def(self, node, scope):
        spec = node.arg if "(" in node.arg else node.arg + "()"
        name = spec.partition("(")[0]
        env = scope.flat()
        self.at(node.arg)
        exec(compiled("def %s: return locals()" % spec, "exec"), env)
        bindargs = env[name]

        def function(*args, **kw):
            params = bindargs(*args, **kw)
            inner = Scope(scope, local_names(node.children))
            inner.vars.update(params)
            out = []
            self.children(node.children, inner, out, Mode())
            return Out("".join(out))

        function.__name__ = name
        return function

    # -- evaluation
    def at(self, expr):
        """the expression about to be evaluated (see checks/c13)"""

    def iterate(self, values, expr):
        return values

    def unpack(self, target, env):
        exec(compiled("%s = __item" % target, "exec"), env)

    def eval(self, expr, scope):
        self.at(expr)
        return eval(compiled(str(expr), "eval"), scope.flat())

    def exec(self, source, scope, names=None):
        self.at(source)
        env = scope.flat()
        exec(compiled(source, "exec"), env)
        for n in stored_names(source):
            if n in env:
                scope.vars[n] = env[n]

    def render(self):
        out = []
        scope = Scope(self.base, local_names(self.nodes, self.top))
        self.children(self.nodes, scope, out, Mode(root=True))
        return "".join(out)

    def children(self, nodes, scope, out, mode):
        if mode.translate and self.translatable:
            nodes = list(nodes)
        for node in nodes:
            self.node(node, scope, out, mode)

    def text(self, text, mode):
        plain = (lambda s: s) if mode.raw else esc_str
        if not (self.translatable and mode.translate):
            return plain(text)
        core = text.strip()
        if not core:
            return plain(text)
        start = text.index(core)
        translated = self.gettext(core)
        return (plain(text[:start]) + self.esc(translated)
                + plain(text[start + len(core):]))

    def attr_text(self, text, name):
        if self.translatable and name in TRANSLATABLE_ATTRS:
            return self.text(text, Mode())
        return esc_str(text)

    def bool_attr(self, name, value, out):
        if value is None or value is False:
            return
        if value is True:
            out.append(' %s="%s"' % (name, name))
        else:
            out.append(' %s="%s"' % (name, self.esc(value)))

    def start_tag(self, node, scope, out, mode):
        out.append("<" + node.tag)
        late = []
        for name, parts in node.attrs:
            if parts is None:
                out.append(" " + name)
            elif any(isinstance(p, I) for p in parts) or (
                    self.translatable and mode.translate and name in TRANSLATABLE_ATTRS
                    and ("".join(parts).strip() or not "".join(parts))):
                late.append((name, parts))
            else:
                out.append(' %s="%s"' % (name, esc_str("".join(parts))))
        trans = self.translatable and mode.translate
        for name, parts in late:
            if len(parts) == 1 and isinstance(parts[0], I):
                self.bool_attr(name, self.eval(parts[0].expr, scope), out)
                continue
            out.append(' %s="' % name)
            for p in parts:
                if isinstance(p, I):
                    out.append(self.esc(self.eval(p.expr, scope)))
                else:
                    out.append(self.attr_text(p, name) if trans else esc_str(p))
            out.append('"')
        if node.dyn is not None:
            pairs = self.eval(node.dyn, scope)
            if pairs:
                if hasattr(pairs, "items"):
                    pairs = pairs.items()
                for name, value in pairs:
                    self.bool_attr(name, value, out)

    def node(self, node, scope, out, mode):
        if isinstance(node, T):
            out.append(self.text(node.text, mode))
        elif isinstance(node, I):
            out.append(self.esc(self.eval(node.expr, scope)))
        elif isinstance(node, El):
            inner = mode.into(node.tag)
            empty = node.content is None and not any(
                not (isinstance(c, Cm) and c.removed) for c in node.children)
            guarded = node.strip is not None

            def stripped():
                return guarded and (
                    not node.strip.strip() or self.truth(self.eval(node.strip, scope)))

            if not stripped():
                self.start_tag(node, scope, out, mode)
                if empty:
                    out.append(" />" if node.tag in VOID else "></%s>" % node.tag)
                else:
                    out.append(">")
            if node.content is not None:
                out.append(self.esc(self.eval(node.content, scope)))
            else:
                self.children(node.children, scope, out, inner)
            if not empty and not stripped():
                out.append("</%s>" % node.tag)
        elif isinstance(node, C):
            getattr(self, "do_" + node.kind)(node, scope, out, mode.nonroot())
        elif isinstance(node, Cm):
            if not node.removed:
                out.append("<!--%s-->" % node.text)
        elif isinstance(node, Code):
            self.exec(node.source, scope)
        elif isinstance(node, Doc):
            out.append(node.text)
        else:
            raise TypeError(node)

    def do_if(self, node, scope, out, mode):
        if self.truth(self.eval(node.arg, scope)):
            self.children(node.children, scope, out, mode)

    def do_unless(self, node, scope, out, mode):
        if not self.truth(self.eval(node.arg, scope)):
            self.children(node.children, scope, out, mode)

    def do_for(self, node, scope, out, mode):
        target, expr = split_for(node.arg)
        self.at(node.arg)
        for item in self.iterate(self.eval(expr, scope), node.arg):
            env = {"__item": item}
            self.unpack(target, env)
            for n in stored_names("%s = __item" % target):
                scope.vars[n] = env[n]
            self.children(node.children, scope, out, mode)

    def do_def(self, node, scope, out, mode):
        if id(node) in self.top:
            return
        function = self.make_def(node, scope)
        scope.vars[function.__name__] = function

    def do_with(self, node, scope, out, mode):
        inner = Scope(scope, stored_names(node.arg) | local_names(node.children))
        self.exec(node.arg, inner)
        self.children(node.children, inner, out, mode)

    def do_block(self, node, scope, out, mode):
        self.at(node.arg)
        out.append(self.esc(scope.flat()[node.arg]()))


class Mode:
    """Inherited properties of a position in the document"""

    __slots__ = ("raw", "translate", "root")

    def __init__(self, raw=False, translate=True, root=False):
        self.raw = raw
        self.translate = translate
        self.root = root

    def into(self, tag):
        if tag in RAW:
            return Mode(True, False)
        return self.nonroot()

    def nonroot(self):
        if self.root:
            return Mode(self.raw, self.translate)
        return self


# ------------------------------------------------------------- serializer

_simple = re.compile(r"[A-Za-z_]\w*(\.[^\W\d]\w*)*\Z", re.A)
_interp_start = re.compile(r"[A-Za-z_{$]")
_continues = re.compile(r"\w|[(\[]|\.[^\W\d]")
_unquoted = re.compile(r"[^\s\"'=<>`/&$]+\Z")


class Layout:
    """The choices of the serializer; `plain` takes the most usual ones"""

    def __init__(self, rng, plain=False, variety=1.0):
        self.rng = rng
        self.plain = plain
        self.variety = variety

    def chance(self, p):
        return not self.plain and self.rng.random() < p * self.variety

    def pick(self, options):
        return options[0] if self.plain else self.rng.choice(options)


class Serializer:
    NAMES = {
        "py": {"prefix": "py:", "strip": "strip", "if": "if"},
        "js": {"prefix": "js:", "strip": "strip", "if": "if"},
        "tal": {"prefix": "tal:", "strip": "omit-tag", "if": "condition",
                "for": "repeat"},
    }

    def __init__(self, layout, dialect="py", charrefs=True, newlines=True,
                 elements=True, attributes=True, junk=True):
        self.l = layout
        self.dialect = dialect
        self.names = self.NAMES[dialect]
        self.prefix = self.names["prefix"]
        self.charrefs = charrefs
        self.newlines = newlines
        self.elements = elements and dialect != "tal"
        self.attributes = attributes
        self.junk = junk
        self.out = []

    # -- expressions
    def mark(self, expr, text):
        """the text of an expression as written (see checks/c13)"""
        return text

    def expression(self, expr):
        return self.mark(expr, E.lang(expr, self.dialect) if isinstance(expr, E) else expr)

    # -- characters
    def chars(self, s, special, raw=False):
        if raw:
            return s
        rv = []
        for c in s:
            if c in special:
                rv.append(self.charref(c))
            elif self.charrefs and c not in "$\n\r" and self.l.chance(0.02):
                rv.append(self.charref(c))
            elif self.charrefs and c == "\n" and self.l.chance(0.04):
                rv.append(self.l.pick(["&#10;", "&#xA;", "&#010;", "&NewLine;"]))
            else:
                rv.append(c)
        return "".join(rv)

    NAMED = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;",
             "\xa0": "&nbsp;", "é": "&eacute;", "…": "&hellip;"}

    def charref(self, c):
        forms = ["&#%d;" % ord(c), "&#x%x;" % ord(c), "&#X%X;" % ord(c),
                 "&#0%d;" % ord(c)]
        if c in self.NAMED:
            forms = [self.NAMED[c]] * 3 + forms
        if not 32 <= ord(c) < 0xD800 or 127 <= ord(c) < 160:
            return c
        return self.l.pick(forms)

    def static(self, text, following):
        """double the dollars that would start an interpolation"""
        rv = []
        n = len(text)
        for i, c in enumerate(text):
            if c == "$":
                nxt = text[i + 1] if i + 1 < n else following
                if nxt and not _interp_start.match(nxt) and not self.l.chance(0.3):
                    rv.append("$")
                elif i + 1 == n and following is None and not self.l.chance(0.5):
                    rv.append("$")
                else:
                    rv.append("$$")
            else:
                rv.append(c)
        return "".join(rv)

    def interp(self, node, following):
        """source of an interpolation (before character encoding)"""
        expr = node.expr.lang(self.dialect)
        simple = _simple.match(expr) or getattr(node, "form", None) == "$"
        if simple and not (following and _continues.match(following)):
            if node.form != "{" and (node.form == "$" or self.l.chance(0.5)):
                return "$" + self.mark(node.expr, expr)
        pad = self.l.pick(["", "", "", " ", "  ", "\t"])
        pad2 = self.l.pick(["", "", "", " "])
        if expr.endswith("\\"):
            pad2 = " "
        return "${" + pad + self.mark(node.expr, expr) + pad2 + "}"

    def inline(self, parts, special, raw=False):
        """
        Encode a run of str and I that the parser sees as one text
        """
        rv = []
        for i, p in enumerate(parts):
            nxt = parts[i + 1] if i + 1 < len(parts) else None
            if isinstance(p, I):
                following = None if nxt is None else (
                    "$" if isinstance(nxt, I) else nxt)
                src = self.interp(p, following)
                rv.append(self.encode_expr(src, special, raw))
            else:
                following = None if nxt is None else (
                    "${" if isinstance(nxt, I) else nxt)
                if p:
                    rv.append(self.chars(self.static(
                        p, following[0] if following else None), special, raw))
        return "".join(rv)

    def encode_expr(self, src, special, raw=False):
        if raw:
            return src
        return "".join(
            self.NAMED.get(c) or "&#%d;" % ord(c) if c in special else c for c in src)

    # -- attributes
    def quote(self, parts):
        """an attribute value from str/I parts"""
        if not parts:
            parts = [""]
        if len(parts) == 1 and isinstance(parts[0], str) and not isinstance(parts[0], I):
            if _unquoted.match(parts[0]) and self.l.chance(0.25):
                return parts[0]
        q = self.l.pick(['"', '"', "'"])
        special = "&" + q + self.l.pick(["", "<", "<>"])
        return q + self.inline(parts, special) + q

    def expr_attr(self, value):
        """a control attribute: a plain expression, no dollars handled"""
        q = self.l.pick(['"', '"', "'"])
        if q in value and self.l.chance(0.8):
            q = "'" if q == '"' else '"'
        special = "&" + q + self.l.pick(["", "<", "<>"])
        return q + self.encode_expr(value, special) + q

    def ws(self):
        if self.newlines:
            return self.l.pick([" ", " ", " ", "\n", "  ", "\n  ", "\t", " \n"])
        return self.l.pick([" ", " ", "  ", "\t"])

    def case(self, name):
        if self.l.chance(0.07):
            return self.l.pick([name.upper(), name.capitalize()])
        return name

    def tag(self, name, attrs, controls, children, self_closing_ok=True):
        """attrs: sources of the plain ones in order; children: source"""
        l = self.l
        items = list(attrs)
        for c in controls:
            items.insert(l.rng.randint(0, len(items)) if not l.plain else 0, c)
        src = "<" + self.case(name)
        for n, v in items:
            src += self.ws() + self.case(n)
            if v is not None:
                src += l.pick(["=", "=", "=", "=", " = ", "= ", " ="]) + v
        unquoted = bool(items) and items[-1][1] is not None \
            and items[-1][1][-1] not in "\"'"
        bare = bool(items) and items[-1][1] is None
        if not children and (name in VOID_SOURCE or self_closing_ok):
            if name in VOID_SOURCE:
                return src + (l.pick([" />", "/>", ">", ">"])
                              if not unquoted else l.pick([" />", ">"]))
            if l.chance(0.3):
                return src + (" />" if unquoted or bare else l.pick(["/>", " />"]))
        src += l.pick(["", "", "", " ", "\n" if self.newlines else ""]) + ">"
        if name in VOID_SOURCE:
            # cannot have children in the source
            assert not children, name
            return src
        end = "</" + self.case(name) + l.pick(["", "", "", " "]) + ">"
        return src + children + end

    # -- nodes
    def nodes(self, nodes, raw=False, root=False):
        rv = []
        nodes = list(nodes)
        i = 0
        while i < len(nodes):
            node = nodes[i]
            if isinstance(node, (T, I)):
                run = []
                while i < len(nodes) and isinstance(nodes[i], (T, I)):
                    n = nodes[i]
                    if isinstance(n, I) and (root or self.elementary(n)) and not raw:
                        if run:
                            rv.append(self.inline(run, "<&" + self.l.pick(["", ">"]), raw))
                            run = []
                        rv.append(self.replace(n, []))
                    elif isinstance(n, T):
                        if run and not isinstance(run[-1], I):
                            run[-1] += n.text
                        else:
                            run.append(n.text)
                    else:
                        run.append(n)
                    i += 1
                if run:
                    rv.append(self.inline(run, "<&" + self.l.pick(["", ">"]), raw))
                continue
            rv.append(self.node(node, raw, root))
            if root and self.l.chance(0.3):
                rv.append(self.l.pick(["\n", " ", "\n\n"]) if self.newlines else " ")
            i += 1
        return "".join(rv)

    def elementary(self, node):
        return node.form is None and self.l.chance(0.12)

    JUNK = ["", "", "junk", "<b>junk</b>", "${undefined_name}", "<br>"]

    def junk_children(self):
        return self.l.pick(self.JUNK) if self.junk else ""

    def replace(self, node, controls):
        expr = self.expression(node.expr)
        if (self.elements or self.dialect == "tal") and self.l.chance(0.4) and not any(
                c[0] == "value" for c in controls):
            return self.tag(self.prefix + "replace", [("value", self.expr_attr(expr))],
                            controls, self.junk_children())
        tag = self.l.pick(["p", "span", "div"])
        attrs = []
        if self.junk and self.l.chance(0.2):
            # nothing of the element is rendered
            attrs = [("class", self.l.pick(['"x"', '"${undefined_name}"']))]
            others = ["content", "attrs", "omit-tag" if self.dialect == "tal" else "strip"]
            controls = controls + [(self.prefix + x, '"undefined_name"')
                                   for x in others if self.l.chance(0.3)]
        return self.tag(tag, attrs, controls + [
            (self.prefix + "replace", self.expr_attr(expr))], self.junk_children())

    def control_attr(self, node):
        name = node.kind
        if name == "with" and self.l.chance(0.3):
            name = "vars"
        name = self.names.get(name, name)
        return (self.prefix + name, self.expr_attr(self.arg(node)))

    def arg(self, node):
        arg = node.arg
        if self.dialect == "js" and isinstance(arg, E) and arg.js is not None:
            return self.mark(arg, self.blanks(node.kind, arg.js))
        return self.mark(arg, self.blanks(node.kind, str(arg)))

    def blanks(self, kind, text):
        """blanks around the parts of the argument of a control structure"""
        if kind == "for" and self.l.chance(0.15):
            text = text.replace(" in ", self.l.pick(["\tin\t", "  in ", " in   ", "\tin "]), 1)
        if kind != "block" and self.l.chance(0.08):
            text = self.l.pick(["", " ", "  "]) + text + self.l.pick([" ", "\t", "  "])
        return text

    ELEMENT_ATTR = {"block": "name", "if": "test", "unless": "test", "for": "each",
                    "def": "function", "with": "vars"}

    def control(self, node, raw=False):
        # the chain of control structures that are the only child of another
        chain = [node]
        while (len(chain[-1].children) == 1 and isinstance(chain[-1].children[0], C)):
            chain.append(chain[-1].children[0])

        # the longest prefix that nests in the order of the attributes
        fold = 1
        while fold < len(chain) and (
                ORDER.index(chain[fold].kind) > ORDER.index(chain[fold - 1].kind)):
            fold += 1
        end = chain[fold - 1].children
        sole = end[0] if len(end) == 1 else None
        may_fold = self.attributes and fold == len(chain) and isinstance(sole, (El, I))
        form = node.form
        if may_fold and not raw and (form == "attr" or (form is None and (
                not self.elements or not self.l.chance(0.35)))):
            return self.folded(chain, sole)
        if (not self.elements or self.l.chance(0.1)) and form != "element":
            # an element that is not rendered itself
            k = 1
            while k < fold and self.l.chance(0.5):
                k += 1
            return self.tag(
                self.l.pick(["div", "span", "p"]), [],
                [self.control_attr(c) for c in chain[:k]]
                + [(self.prefix + self.names["strip"], '""')],
                self.nodes(chain[k - 1].children, raw), self_closing_ok=False)

        name, attr = node.kind, self.ELEMENT_ATTR[node.kind]
        if name == "with" and self.l.chance(0.3):
            name, attr = "vars", "names"
        attrs = [(attr, self.expr_attr(self.arg(node)))]
        # the attribute form of the inner ones, on the element
        k, last = 1, -1
        while k < len(chain) and form is None and self.attributes and self.l.chance(0.3):
            order = ORDER.index(chain[k].kind)
            if order <= last:
                break
            last = order
            k += 1
        extra = [self.control_attr(c) for c in chain[1:k]]
        children = chain[k - 1].children
        if (len(children) == 1 and isinstance(children[0], I) and not raw
                and children[0].form is None and self.attributes and self.l.chance(0.2)):
            if str(children[0].expr).strip():
                expr = self.expression(children[0].expr)
                extra.append((self.prefix + "content", self.expr_attr(expr)))
                return self.tag(self.prefix + name, attrs, extra, self.junk_children())
        return self.tag(self.prefix + name, attrs, extra, self.nodes(children, raw))

    def folded(self, chain, sole):
        controls = [self.control_attr(c) for c in chain]
        if isinstance(sole, I):
            return self.replace(sole, controls)
        return self.element(sole, controls)

    def element(self, node, controls=()):
        controls = list(controls)
        attrs = []
        for name, parts in node.attrs:
            attrs.append((name, None if parts is None else self.quote(parts)))
        if node.dyn is not None:
            controls.append((self.prefix + "attrs",
                             self.expr_attr(self.expression(node.dyn))))
        if node.strip is not None:
            controls.append((self.prefix + self.names["strip"],
                             self.expr_attr(self.expression(node.strip))))
        raw = node.tag in RAW
        content = node.content
        children = node.children
        if (content is None and not raw and len(children) == 1
                and isinstance(children[0], I) and children[0].form is None
                and str(children[0].expr).strip() and self.l.chance(0.2)):
            content = children[0].expr
        if content is not None:
            controls.append((self.prefix + "content",
                             self.expr_attr(self.expression(content))))
            src = self.junk_children() if node.tag not in VOID and not raw else ""
        else:
            src = self.nodes(children, raw)
        return self.tag(node.tag, attrs, controls, src,
                        self_closing_ok=True)

    def node(self, node, raw=False, root=False):
        if isinstance(node, El):
            return self.element(node)
        if isinstance(node, C):
            return self.control(node, raw)
        if isinstance(node, Cm):
            return "<!--%s-->" % node.text
        if isinstance(node, Code):
            end = self.l.pick(["?>", "?>", " ?>", ">"]) if ">" not in node.source else "?>"
            if self.dialect == "js":
                return "<?js " + node.source.js + ";" + end
            return "<?python " + self.mark(node.source, node.source) + end
        if isinstance(node, Imp):
            attrs = [("href", self.expr_attr(node.href)), ("alias", self.expr_attr(node.alias))]
            if self.l.chance(0.5):
                attrs.reverse()
            return self.tag(self.prefix + "import", attrs, [], "")
        if isinstance(node, Ext):
            return self.tag(self.prefix + "extends", [("href", self.expr_attr(node.href))],
                            [], self.nodes(node.children), self_closing_ok=True)
        if isinstance(node, Doc):
            return node.text
        raise TypeError(node)


def serialize(nodes, rng, dialect="py", plain=False, **kw):
    variety = kw.pop("variety", 1.0)
    s = Serializer(Layout(rng, plain, variety), dialect, **kw)
    return s.nodes(nodes, root=True)
