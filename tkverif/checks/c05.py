import collections
import types

from markupsafe import Markup

from ..harness import Check
from .. import gen, model
from ..model import C, E, El, I, T
from .common import outcome, compare
from . import c01


class EqTrue:
    """equal to everything, but not True"""

    def __eq__(self, other):
        return True

    __hash__ = None

    def __str__(self):
        return "eq<true>"


class Falsy:
    def __init__(self, s):
        self.s = s

    def __bool__(self):
        return False

    def __str__(self):
        return self.s


class NoBool:
    def __bool__(self):
        raise gen.Error("no truth value")

    def __str__(self):
        return "nobool&"


class EmptyLen:
    def __len__(self):
        return 0

    def __str__(self):
        return "<emptylen>"


class FalsyHtml(Falsy):
    def __html__(self):
        return "<i>%s</i>" % self.s


class BadStr:
    def __str__(self):
        raise gen.Error("bad str")


class BadHtml:
    def __html__(self):
        raise gen.Error("bad html")


class Mapping_(collections.abc.Mapping):
    def __init__(self, pairs):
        self.d = dict(pairs)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Pairs:
    """iterable without length"""

    def __init__(self, pairs):
        self.pairs = pairs

    def __iter__(self):
        return iter(self.pairs)


def value(rng):
    k = rng.randrange(6)
    if k < 2:
        return rng.choice([True, False, None])
    if k == 2:
        return rng.choice([
            0, 1, -1, 0.0, 1.0, "", "x", (), [], {}, set(), b"", Markup(""), Markup("&amp;"),
            gen.IntSub(0), gen.IntSub(1), gen.StrSub(""), "True", "False", "None", "checked",
            Falsy("<f>"), FalsyHtml("&"), EqTrue(), NoBool(), EmptyLen(), gen.Html(""),
            0j, float("nan"), range(0), type(None), NotImplemented, ...])
    if k == 3 and rng.random() < 0.06:
        return rng.choice([BadStr(), BadHtml()])
    return c01.values(rng)[1]()


NAMES = sorted(set(gen.ATTR_NAMES) | {"checked", "selected", "disabled", "xml:lang", "data-a.b", "a_b", "x-y",
                          "aria-label", "@click", ":bind", "v-on:x", "é"})


def pairs_value(rng, seq):
    k = rng.randrange(10)
    as_lists = [list(p) for p in seq]
    if k < 2:
        return dict(seq)
    if k == 2:
        return collections.OrderedDict(seq)
    if k == 3:
        return Mapping_(seq)
    if k == 4:
        return tuple(seq)
    if k == 5:
        return rng.choice([as_lists, [tuple(p) for p in seq]])
    if k == 6:
        return Pairs(seq)
    if k == 7:
        return types.MappingProxyType(dict(seq))
    if k == 8:
        return collections.ChainMap(dict(seq[:1]), dict(seq[1:]))
    return list(seq)


class CHECK(Check):
    id = "C05"
    quick = 30000
    thorough = 400000
    rule = ("elements with up to eight static, single-expression and mixed attributes and py:attrs "
            "of ten kinds of mappings and iterables, with values of 60 kinds (falsy non-booleans, "
            "equal to everything, no truth value, raising), rendered twice with different values by "
            "one template and compared with the rules. Non-trivial: two dynamic attributes or py:attrs")
    floors = {"attributes": 40000}

    def worker_setup(self):
        from tonnikala.loader import Loader
        self.loader = Loader()

    def case(self, rng, index, tier):
        names = ["v%d" % i for i in range(8)]
        dyns = ["p%d" % i for i in range(3)]
        contexts = []
        for _ in range(2):
            ctx = gen.make_context(rng)
            for n in names:
                ctx[n] = value(rng)
            for n in dyns:
                seq = [(rng.choice(NAMES), value(rng)) for _ in range(rng.choice(
                    [0, 1, 1, 2, 4] if rng.random() < 0.98 else [17, 33, 70, 300]))]
                if rng.random() < 0.15:
                    # falsy ones write nothing
                    ctx[n] = rng.choice([None, {}, [], (), "", False, 0, Mapping_([]), EmptyLen()])
                else:
                    ctx[n] = pairs_value(rng, seq)
            contexts.append(ctx)

        def expr():
            v = rng.choice(names)
            return I(E(rng.choice(["{v}"] * 8 + [
                "({v})", "none or {v}", "ident({v})", "{v} if b1 else none", "{v} if b2 else yes",
                "literal({v})", "[{v}][0]", "not i1", "i1 == 1", "True", "False", "None", "''", "0",
                "'a' 'b'", "'lit<'", "literal('<')", "1", "(lambda: {v})()"]).format(v=v)))

        used = [0]

        def attribute():
            k = rng.random()
            if k < 0.08:
                return None
            if k < 0.25:
                return [rng.choice(["", "a", "  ", " a b ", "a\nb", "&<>\"'", "$", "$$x", "é", "{x}",
                                    "&amp;", "'", '"', "`", "=", "/", "a=b", "\xa0"])]
            used[0] += 1
            if k < 0.7:
                return [expr()]
            parts = []
            for _ in range(rng.randint(1, 4)):
                if parts and not isinstance(parts[-1], I) or rng.random() < 0.6:
                    parts.append(expr())
                else:
                    parts.append(rng.choice([" ", "a", "-", "&", "<", "'", "x y", "\n", ".", "$ "]))
            if not any(isinstance(p, I) for p in parts):
                parts.append(expr())
            if len(parts) == 1:
                parts.append(rng.choice([" ", "x", ""][:2]))
            return parts

        kids = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            attrs = [(n, attribute()) for n in rng.sample(NAMES, rng.choice([0, 1, 2, 3, 5, 8]))]
            tag = rng.choice(gen.PLAIN_TAGS + gen.VOID_TAGS + ["script", "option", "select"])
            el = El(tag, attrs)
            if rng.random() < 0.4:
                used[0] += 2
                el.dyn = E(rng.choice(["{p}"] * 6 + [
                    "{p} or none", "dict({v}=1, **{{'x-y': {v}}})", "iter([('n', {v})])",
                    "(q for q in [('a', {v}), ('b', 'x')])", "{{'a': {v}}}.items()",
                    "zip(['a', 'b'], [{v}, {v}])"]).format(p=rng.choice(dyns), v=rng.choice(names)))
            if tag not in gen.VOID_TAGS and tag != "script" and rng.random() < 0.5:
                el.children = [T("x")]
            if rng.random() < 0.15:
                el.strip = E(rng.choice(["b1", "no", "yes"]))
            node = el
            if rng.random() < 0.15:
                node = C("for", E("q_ in [1, 2]"), [node])
            if rng.random() < 0.1:
                node = C("if", E("yes"), [node])
            kids.append(node)
        root = El("div", [], kids)
        source = model.serialize([root], rng, plain=rng.random() < 0.3)
        return [root], source, contexts, used[0]

    def describe(self, case):
        return case[1]

    def run(self, case, obs):
        nodes, source, contexts, used = case
        template = self.loader.load_string(source)
        for ctx in contexts:
            expected = outcome(lambda: model.Reference(nodes, ctx).render())
            got = outcome(lambda: template.render(ctx))
            compare(expected, got, source, what="an attribute is not written by the rules",
                    values=repr({k: type(v).__name__ + " " + safe_repr(v) for k, v in ctx.items()
                                 if k[0] in "vp" and k[1:].isdigit()}))
            obs.count("renders")
            obs.count("errors", got[0] == "error")
            obs.count("attributes", used)
            for k, v in ctx.items():
                if k[0] == "v" and k[1:].isdigit():
                    obs.state("value_types", type(v).__name__, bool_(v))
        if used >= 2:
            obs.distinct(source)
            obs.sample(source)


def safe_repr(v):
    try:
        return repr(v)[:100]
    except Exception as e:
        return "<%s>" % type(e).__name__


def bool_(v):
    try:
        return bool(v)
    except Exception:
        return None
