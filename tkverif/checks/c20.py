from ..harness import Check, Violation
from .. import gen, model
from ..model import C, E, El, I, T
from . import c17, c19
from .common import compare, outcome

CONSTANTS = ["1", "0", "not 1", "''", "'x'", "None", "True", "False", "()", "not ''", "not not 2", "-1"]


class Stacks(gen.TemplateGen):
    """elements with many control attributes at once"""

    def stack(self, env):
        r = self.rng
        self.note("stack")
        kinds = [k for k in model.ORDER if r.random() < 0.5]
        r.shuffle(kinds) if r.random() < 0.3 else None
        inner = env.copy()
        # what encloses the element, outermost first
        chain = []
        for kind in kinds:
            if kind == "block":
                if any(c.kind == "block" for c in chain):
                    continue
                name = self.fresh("blk_")
                chain.append(C("block", E(name, name)))
                inner = self.base_env.copy()
            elif kind in ("if", "unless"):
                arg = (E(r.choice(CONSTANTS)) if r.random() < 0.3
                       else self.condition(inner, self.edepth))
                chain.append(C(kind, arg))
            elif kind == "for":
                v = self.fresh("v")
                chain.append(C("for", E("%s in %s" % (v, self.x.ls(inner, 1)))))
                inner.add(v, "str")
            elif kind == "def":
                name = self.fresh("fn_")
                p = self.fresh("a")
                sig = "%s(%s=%s)" % (name, p, self.x.str_(gen.Env(), 1))
                chain.append(C("def", E(sig)))
                chain[-1].name_ = name
                inner.add(p, "str")
            else:
                name = self.fresh("w")
                chain.append(C("with", E("%s = %s" % (name, self.x.str_(inner, 1)))))
                inner.add(name, "str")
        k = r.random()
        if k < 0.3:
            node = I(self.value(inner))
        else:
            node = El(r.choice(["b", "td", "br", "x-y"]), self.attributes(inner))
            if r.random() < 0.6:
                node.children = [] if node.tag == "br" else self.many(inner, 1, nest=True)
            if r.random() < 0.4:
                node.strip = E(r.choice(["", " "] + CONSTANTS)) if r.random() < 0.5 else (
                    self.condition(inner, 1))
            if r.random() < 0.4:
                node.dyn = self.dyn_attrs(inner)
            if node.tag == "br" and r.random() < 0.5:
                node.content = self.value(inner, 1)
        rv = [node]
        calls = []
        for c in reversed(chain):
            c.children = rv
            rv = [c]
            if c.kind == "def":
                # called after it where it is known
                calls.append(I(E(c.name_ + "()")))
                rv = [c, I(E(c.name_ + "()"))] if r.random() < 0.7 else rv
        return rv


class CHECK(Check):
    id = "C20"
    quick = 4000
    thorough = 60000
    rule = ("random trees, many with several control structures on one element, each written in "
            "eight layouts (elements only, attributes only, plain, six random ones) whose "
            "outputs, errors and looked up messages must be the same. Non-trivial: six "
            "different sources with the same non-empty output")
    floors = {"layouts": 25000, "stacks": 3500, "translated": 3000}

    def worker_setup(self):
        import warnings
        from tonnikala.loader import Loader
        self.loader = Loader()
        self.on = Loader(translatable=True)
        warnings.simplefilter("ignore")

    def case(self, rng, index, tier):
        kind = index % 4
        if kind == 3:
            t = c19.Tree(rng)
            nodes, ctx, used = t.template(), dict(t.context(), q=None), t.used
        else:
            x = gen.ExprGen(rng, tick=rng.random() < 0.4)
            g = Stacks(rng, x, code=rng.random() < 0.2, depth=rng.choice([2, 3, 4]),
                       budget=rng.choice([5, 10, 25]), large=0.05)
            nodes = g.template()
            for _ in range(rng.choice([1, 1, 2, 4])):
                root = nodes[-1]
                i = rng.randint(0, len(root.children))
                root.children[i:i] = g.stack(g.base_env)
                root.children = gen.merge(root.children)
            ctx, used = gen.make_context(rng), g.used
        c17.merged_parts(nodes)
        sources = [
            model.serialize(nodes, rng, plain=True, attributes=False, junk=False),
            model.serialize(nodes, rng, plain=True, elements=False, junk=False),
            model.serialize(nodes, rng, elements=False),
            model.serialize(nodes, rng, attributes=False),
        ] + [model.serialize(nodes, rng) for _ in range(4)]
        return nodes, sources, ctx, used

    def describe(self, case):
        return "\n\n".join(case[1]) + "\n%r" % (case[2],)

    def run(self, case, obs):
        nodes, sources, ctx, used = case
        first = translated = None
        for source in sources:
            obs.count("layouts")
            got = self.render(self.loader, source, ctx)
            if first is None:
                first = got
            self.agree(first[0], got[0], sources[0], source)
        if used.get("stack"):
            obs.count("stacks", used["stack"])
        for source in sources[:2] + sources[4:5]:
            got = self.render(self.on, source, ctx)
            obs.count("translated")
            if translated is None:
                translated = got
            self.agree(translated[0], got[0], sources[0], source)
            if translated[0][0] == "ok" and got[1] != translated[1]:
                raise Violation("other messages are looked up", source=source,
                                other=sources[0], expected=sorted(translated[1]),
                                got=sorted(got[1]))
        obs.count("errors" if first[0][0] == "error" else "rendered_ok")
        if first[0][0] == "ok" and len(first[0][1]) > 10 and len(set(sources)) >= 6:
            obs.distinct(sources[0])
            obs.sample(sources[1])

    def agree(self, a, b, first, source):
        compare(c19.anonymous(a), c19.anonymous(b), source, what="the layouts differ", other=first)

    def render(self, loader, source, ctx):
        n = [0]
        seen = set()

        def tick():
            n[0] += 1
            return n[0]

        def gettext(m):
            seen.add(m)
            return "<%s>" % m

        ctx = dict(ctx, tick=tick)
        if "q" in ctx:
            ctx["q"] = c19.Probe()
        if loader.translatable:
            ctx["gettext"] = gettext
        return outcome(lambda: loader.load_string(source).render(ctx)), seen
