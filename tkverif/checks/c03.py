import html.entities
import re
from html.parser import HTMLParser

from ..harness import Check, Violation
from .. import gen, model
from ..model import Cm, El, T, RAW, VOID
from .common import outcome, show

NAMED = {}
for _name, _value in html.entities.html5.items():
    if _name.endswith(";") and len(_value) == 1:
        NAMED.setdefault(_value, []).append("&%s" % _name)
NAMED_CHARS = sorted(NAMED)


class Events(HTMLParser):
    """The document as a list of events"""

    CDATA_CONTENT_ELEMENTS = ("script", "style")
    RCDATA_CONTENT_ELEMENTS = ()

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.events = []
        self.feed(text)
        self.close()
        self.joined = []
        for e in self.events:
            if e[0] == "data" and self.joined and self.joined[-1][0] == "data":
                self.joined[-1] = ("data", self.joined[-1][1] + e[1])
            else:
                self.joined.append(e)

    def handle_starttag(self, tag, attrs):
        self.events.append(("start", tag, tuple(sorted(attrs, key=repr))))

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.events.append(("selfclosed", tag))

    def handle_endtag(self, tag):
        if tag not in VOID:
            self.events.append(("end", tag))

    def handle_data(self, data):
        self.events.append(("data", data))

    def handle_comment(self, data):
        self.events.append(("comment", data))

    def handle_decl(self, decl):
        self.events.append(("decl", doctype(decl)))

    def handle_pi(self, data):
        self.events.append(("pi", data))

    def unknown_decl(self, data):
        self.events.append(("unknown", data))


def doctype(decl):
    """the name and the identifiers"""
    return ("doctype",) + tuple(
        a or b or c for a, b, c in re.findall(r'"([^"]*)"|\'([^\']*)\'|([^\s"\']+)', decl)[1:])


def events(nodes):
    rv = []

    def visit(node):
        if isinstance(node, T):
            rv.append(("data", node.text))
        elif isinstance(node, Cm):
            if not node.removed:
                rv.append(("comment", node.text))
        elif isinstance(node, model.Doc):
            rv.append(("decl", doctype(node.text[2:-1])))
        else:
            attrs = [(n, None if p is None else "".join(p)) for n, p in node.attrs]
            rv.append(("start", node.tag, tuple(sorted(attrs, key=repr))))
            for c in node.children:
                visit(c)
            if node.tag not in VOID:
                rv.append(("end", node.tag))

    for n in nodes:
        visit(n)
    joined = []
    for e in rv:
        if e[0] == "data" and joined and joined[-1][0] == "data":
            joined[-1] = ("data", joined[-1][1] + e[1])
        elif e != ("data", ""):
            joined.append(e)
    return joined


class Serializer(model.Serializer):
    """with more character references and bare ampersands"""

    def chars(self, s, special, raw=False):
        if raw:
            return s
        rv = []
        for i, c in enumerate(s):
            if c == "&" and "<" in special and s[i + 1:i + 2] in (" ", "=") \
                    and self.l.chance(0.3):
                rv.append("&")
            elif c in special or (c not in "$\r" and self.l.chance(0.06)):
                rv.append(self.charref(c))
            else:
                rv.append(c)
        return "".join(rv)

    def charref(self, c):
        o = ord(c)
        forms = ["&#%d;" % o, "&#x%x;" % o, "&#X%X;" % o, "&#00%d;" % o, "&#x00%x;" % o]
        forms += NAMED.get(c, []) * 2
        if 128 <= o < 160 or o < 9 or o in (11, 12, 13, 127) or 13 < o < 32:
            return c
        return self.l.pick(forms)


DOCTYPES = [
    "<!DOCTYPE html>", "<!doctype html>", "<!DocType HTML>", "<!DOCTYPE  html >",
    '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
    '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">',
    "<!DOCTYPE html SYSTEM 'about:legacy-compat'>",
    '<!DOCTYPE html\n  PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN"\n  "http://x/y.dtd">',
]
COMMENTS = [" c ", "plain", "! gone", " !gone <b>", "\n!gone\n", "a&b<c>d\"e'", "${x} $y $$", "[if IE]> <p> <![endif]",
            " é ", "&amp; &lt;", "x - y", "py:if", ">x", "!", "a!b", "?python x?"]
RAWS = ["var a = 1 < 2 && b > 3;", "if (a) { b('<p class=\"x\">y</p>'); }", "\n", "&amp; &lt; &#60;",
        "a > b { color: red; content: '\"' }", "/* </b> </scrip */", "<!-- x -->", "x = $$;", "é\u2028",
        "<![CDATA[ x ]]>", "// ' \" \\ `", "]]>", "$ 5", "<scr", "{ }", "'</' + 'p>'", "<br>", "a &b;"]
TEXTS = ["&", "&&", "& b", "<", ">", "<b>", "&lt;", "&amp;", "\"", "'", "$", "$ ", "$$", "$5", "5$",
         "{x}", "\n", "  ", "\t", "a\nb", "é", "\xa0", "日本", "\U0001f600", "]]>", "--", "->", "/>",
         "x=y", "a & b", "=&=", "\u2028", "\u200b", "&nope;", "&#60;", "`", "\\", "\r\n", "-->", "%s"]
TAGS = gen.PLAIN_TAGS + ["html", "body", "svg", "my-el", "h6", "i", "em", "button", "form", "label", "pre",
                         "iframe", "noscript", "xmp", "noembed", "ns:tag", "video", "object", "plaintextx"]
ATTRS = gen.ATTR_NAMES + ["xml:space", "ns:a", "a", "b", "@click", ":bind", "v-on:x", "data-é", "_x", "[p]", "#r",
                          "a.b", "(e)", "tal:x", "js:y"]


class CHECK(Check):
    id = "C03"
    quick = 60000
    thorough = 200000
    rule = ("random HTML documents without control elements and interpolations, written in random "
            "spellings (quotes, references, case, white space, void and empty forms); an independent "
            "HTML tokenizer must find in the output the elements, attributes, texts, comments, raw "
            "contents and doctype of the tree. Non-trivial: at least three elements")
    floors = {"events": 50000}

    def worker_setup(self):
        from tonnikala.loader import Loader
        self.loader = Loader()

    def case(self, rng, index, tier):
        budget = [rng.choice([5, 20, 60, 200 if rng.random() < 0.1 else 30])]
        max_depth = rng.choice([3, 5, 8, 40])
        nul = rng.random() < 0.03

        def text():
            k = rng.random()
            if k < 0.3:
                return gen.words(rng)
            if k < 0.75:
                return "".join(rng.choice(TEXTS) for _ in range(rng.randint(1, 4)))
            if k < 0.9:
                return gen.words(rng) + "".join(rng.choice(NAMED_CHARS)
                                                for _ in range(rng.randint(1, 3)))
            c = chr(rng.choice([rng.randint(0xa0, 0x2fff), rng.randint(0x10000, 0x10ffff),
                                rng.randint(0x20, 0x7e)]))
            return "t" + c + ("\0" if nul else "")

        def attrs():
            names = rng.sample(ATTRS, rng.choice([0, 0, 1, 1, 2, 3, 6]))
            rv = []
            for n in names:
                k = rng.random()
                if k < 0.12:
                    rv.append((n, None))
                elif k < 0.2:
                    rv.append((n, []))
                else:
                    rv.append((n, [text()]))
            return rv

        def element(depth):
            budget[0] -= 1
            k = rng.random()
            if k < 0.12:
                return El(rng.choice(sorted(VOID)), attrs())
            if k < 0.2:
                tag = rng.choice(sorted(RAW))
                return El(tag, attrs(), gen.merge(
                    [T(rng.choice(RAWS)) for _ in range(rng.randint(0, 3))]))
            el = El(rng.choice(TAGS), attrs())
            if depth < max_depth:
                el.children = children(depth)
            return el

        def children(depth):
            rv = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                if budget[0] <= 0:
                    break
                k = rng.random()
                if k < 0.4:
                    rv.append(T(text()))
                elif k < 0.48:
                    rv.append(Cm(rng.choice(COMMENTS)))
                else:
                    rv.append(element(depth + 1))
            return gen.merge(rv)

        nodes = []
        if rng.random() < 0.3:
            nodes.append(model.Doc(rng.choice(DOCTYPES)))
        if rng.random() < 0.15:
            nodes.append(Cm(rng.choice(COMMENTS)))
        for _ in range(1):
            root = element(0)
            while root.tag in VOID or root.tag in RAW:
                root = element(0)
            root.children = root.children or children(0)
            nodes.append(root)
        if rng.random() < 0.15:
            nodes.append(Cm(rng.choice(COMMENTS)))
        s = Serializer(model.Layout(rng, rng.random() < 0.1, rng.choice([0.5, 1, 2])), junk=False)
        source = s.nodes(nodes, root=True)
        return nodes, source

    def describe(self, case):
        return case[1]

    def run(self, case, obs):
        nodes, source = case
        got = outcome(lambda: self.loader.load_string(source).render({}))
        if got[0] == "error":
            raise Violation("a static document fails: " + show(got), source=source)
        want = events(nodes)
        have = Events(got[1]).joined
        if want != have:
            diff = next((i for i, (a, b) in enumerate(zip(want, have)) if a != b),
                        min(len(want), len(have)))
            raise Violation("the document changed at event %d: expected %r, got %r" % (
                diff, want[diff:diff + 3], have[diff:diff + 3]), source=source, got=got[1])
        if isinstance(nodes[0], model.Doc) and not got[1].startswith("<!"):
            raise Violation("the doctype is not in front", source=source, got=got[1])
        obs.count("documents")
        obs.count("events", len(want))
        for e in want:
            if e[0] == "start":
                obs.state("tags", e[1])
            else:
                obs.count("event." + e[0])
        if sum(e[0] == "start" for e in want) >= 3:
            obs.distinct(source)
            obs.sample(source)
