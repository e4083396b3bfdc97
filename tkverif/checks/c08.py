import builtins
import os
import shutil
import tempfile

from ..harness import Check
from .. import env, gen, model
from ..model import C, Cm, E, El, Ext, I, Imp, T
from .c25 import Untouchable
from .common import compare, outcome

#: rank, name, argument types (with how many required)
NAMES = [("bk0", None), ("fa", ()), ("bk1", None), ("fb", ("str",)), ("fc", ("str", "int")),
         ("_bk", None), ("id", ()), ("format", None), ("filter", ("str",)), ("_ff", ())]
RANK = {n: i for i, (n, _) in enumerate(NAMES)}
ARGS = dict(NAMES)


class Namespace:
    """an imported template in the model"""

    def __init__(self, table):
        self.__dict__.update(table)


class Part(model.Reference):
    """one template of a chain"""

    world = None

    def node(self, node, scope, out, mode):
        if isinstance(node, Imp):
            if id(node) not in self.top_imports:
                scope.vars[node.alias] = self.world.imported(node.href)
            return
        super().node(node, scope, out, mode)


class World:
    """the linking model"""

    def __init__(self, templates, ctx):
        self.templates = templates
        self.ctx = ctx
        self.links = 0
        self.depth = 0

    part = Part

    def link(self, name):
        """-> (table of functions, main) of the template as rendered"""
        self.links += 1
        chain = [name]
        while self.templates[chain[-1]].extends:
            chain.append(self.templates[chain[-1]].extends)
        self.depth = max(self.depth, len(chain))
        parts = []
        table = {}
        for n in chain:
            t = self.templates[n]
            part = self.part.__new__(self.part)
            part.file = n
            part.world = self
            part.top_imports = {id(i) for i in t.top_imports}
            part.__init__(t.nodes, self.ctx)
            part.top |= part.top_imports
            parts.append((part, t))
            for block in part.blocks:
                table.setdefault(str(block.arg), part.make_block(block))
            for d in part.top_defs:
                table.setdefault(d.arg.partition("(")[0], part.make_def(d, part.base))
        for part, t in parts:
            part.base.vars.update(table)
            for imp in t.top_imports:
                part.base.vars[imp.alias] = self.imported(imp.href)
        base = parts[-1][0]
        return table, base.render

    def imported(self, name):
        return Namespace(self.link(name)[0])

    def render(self, name, funcname=None):
        table, main = self.link(name)
        if funcname is None:
            return main()
        if funcname not in table and hasattr(builtins, funcname):
            return str(getattr(builtins, funcname)())
        return str(table[funcname]())


class Template:
    def __init__(self):
        self.extends = None
        self.nodes = []
        self.top_imports = []
        self.names = []
        self.source = ""


class CHECK(Check):
    id = "C08"
    quick = 3000
    thorough = 40000
    rule = ("sets of 2 to 7 template files that extend and import each other, defining random subsets "
            "of ten names (some of them those of builtins) as functions or blocks which call each other and imported ones, each rendered "
            "whole and by function through a file loader and compared with a linking model. "
            "Non-trivial: a chain of three templates or an overridden name and an import")
    floors = {"renders": 15000, "overrides": 2000, "imports": 2000}

    def worker_setup(self):
        from tonnikala.loader import FileLoader
        self.FileLoader = FileLoader

    def case(self, rng, index, tier):
        templates, order, ctx = self.chains(rng)
        for t in templates.values():
            t.source = model.serialize(t.written, rng, plain=rng.random() < 0.5, variety=0.4,
                                       junk=False)
        return templates, order, ctx

    def chains(self, rng):
        n = rng.choice([2, 3, 3, 4, 5, 7])
        if rng.random() < 0.03:
            n = rng.choice([9, 12, 20])
        templates = {}
        style = rng.choice(["t%d.html", "sub/t%d.html", "t %d.tk", "é%d.html"])
        order = [style % i for i in range(n)]
        deep = rng.random() < 0.4
        for i, name in enumerate(order):
            t = Template()
            if i and (deep or rng.random() < 0.6):
                t.extends = order[i - 1] if deep else rng.choice(order[:i])
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                if i:
                    alias = rng.choice(["imp%d" % len(t.top_imports), "imp0", "lib"])
                    if alias not in [x.alias for x in t.top_imports]:
                        t.top_imports.append(Imp(rng.choice(order[:i]), alias))
            templates[name] = t

        def chain_names(name):
            rv = []
            while name:
                rv += templates[name].names
                name = templates[name].extends
            return rv

        for i, name in enumerate(order):
            t = templates[name]
            count = rng.choice([1, 2, 3, 5])
            t.names = sorted(rng.sample([x for x, _ in NAMES], count), key=RANK.get)
            visible = sorted(set(chain_names(name)), key=RANK.get)
            kinds = {}
            for x in t.names:
                kinds[x] = "block" if ARGS[x] is None else "def"
                if not ARGS[x] and rng.random() < 0.15:
                    kinds[x] = "def" if kinds[x] == "block" else "block"

            def environment(rank, local_imports=()):
                e = gen.Env()
                for v in visible:
                    if RANK[v] > rank:
                        e.functions.append((v, self.types(v)))
                for imp in list(t.top_imports) + list(local_imports):
                    for v in sorted(set(chain_names(imp.href))):
                        if RANK[v] > rank:
                            e.functions.append(("%s.%s" % (imp.alias, v), self.types(v)))
                # may be defined by a template that extends this one, or not at all
                if rng.random() < 0.05:
                    v = rng.choice(NAMES)[0]
                    if RANK[v] > rank:
                        e.functions.append((v, self.types(v)))
                return e

            def body(rank, label, params=()):
                local = []
                if i and rng.random() < 0.08:
                    local.append(Imp(rng.choice(order[:i]), "loc"))
                e = environment(rank, local)
                for p, ty in params:
                    e.add(p, ty)
                g = gen.TemplateGen(rng, gen.ExprGen(rng), controls=("if", "for", "with", "unless"),
                                    budget=4, depth=2, weird_text=False, comments=False, raw=False,
                                    shadow=False)
                nodes = [T("[%s:%s " % (name.replace("é", "e"), label))]
                nodes += local
                for _ in range(rng.choice([0, 1, 1, 2])):
                    if e.functions:
                        call = I(g.x.call(e, 2))
                        k = rng.randrange(6)
                        nodes.append(El("i", [("title", [call])]) if k == 0 else
                                     El("u", [], [call]) if k == 1 else
                                     C("if", E("yes"), [call]) if k == 2 else call)
                nodes += g.many(e, 1, nest=True)
                nodes.append(T("]"))
                return nodes

            # later names may nest within the body of earlier ones as blocks
            functions = {}
            for x in reversed(t.names):
                params = []
                if kinds[x] == "def" and ARGS[x]:
                    params = [("p%d" % k, ty) for k, ty in enumerate(ARGS[x])]
                children = body(RANK[x], x, params)
                if kinds[x] == "block":
                    node = C("block", E(x), children)
                else:
                    sig = ", ".join(p if k < 1 else p + "='5'" if ty == "str" else p + "=5"
                                    for k, (p, ty) in enumerate(params))
                    node = C("def", E("%s(%s)" % (x, sig) if sig or rng.random() < 0.5 else x),
                             children)
                nest = [y for y in functions if kinds[y] == "block"]
                if nest and rng.random() < 0.3:
                    y = rng.choice(nest)
                    children.insert(rng.randrange(1, len(children)), functions.pop(y))
                functions[x] = node
            items = list(functions.values()) + list(t.top_imports)
            rng.shuffle(items)
            if t.extends:
                if rng.random() < 0.3:
                    items.insert(rng.randint(0, len(items)), Cm(" a comment "))
                t.nodes = [Ext(t.extends, items)]
            else:
                kids = body(-1, "root")
                for item in items:
                    kids.insert(rng.randrange(1, len(kids)), item)
                t.nodes = [El("html", [], gen.merge(kids))]
            if t.extends:
                # comments are dropped there
                t.nodes = [Ext(t.extends, [x for x in items if not isinstance(x, Cm)])]
            t.written = [Ext(t.extends, items)] if t.extends else t.nodes
        return templates, order, gen.make_context(rng)

    @staticmethod
    def types(name):
        return list((ARGS[name] or ())[:1])

    def describe(self, case):
        return "\n".join("=== %s\n%s" % (n, case[0][n].source) for n in case[1])

    def run(self, case, obs):
        templates, order, ctx = case
        folder = tempfile.mkdtemp(dir=env.scratch_dir())
        try:
            for name in order:
                path = os.path.join(folder, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(templates[name].source)
            loader = self.FileLoader([folder])
            world = World(templates, ctx)
            # values that no template uses must not matter, whatever they are
            ctx = dict(ctx, **{n: Untouchable([]) for n in ("unused", "_unused", "memoryview")})
            for name in order:
                targets = [None]
                for n, args in NAMES:
                    if n in self.chain(templates, name) and not args:
                        targets.append(n)
                for target in targets:
                    expected = outcome(lambda: world.render(name, target))
                    got = outcome(lambda: loader.load(name).render(ctx) if target is None
                                  else loader.load(name).render(ctx, target))
                    compare(expected, got, self.describe(case),
                            what="%s of %s is rendered wrong" % (target or "the whole", name))
                    obs.count("renders")
                    obs.count("errors", got[0] == "error")
            overrides = 0
            for name in order:
                t = templates[name]
                if t.extends:
                    overrides += len(set(t.names) & set(self.chain(templates, t.extends)))
            imports = sum(len(t.top_imports) for t in templates.values())
            obs.count("overrides", overrides)
            obs.count("imports", imports)
            obs.state("chain_depths", world.depth)
            if world.depth >= 3 or overrides and imports:
                obs.distinct(self.describe(case))
                obs.sample(self.describe(case))
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    @staticmethod
    def chain(templates, name):
        rv = []
        while name:
            rv += templates[name].names
            name = templates[name].extends
        return rv
