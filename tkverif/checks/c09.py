import builtins
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time
import types
import collections

from markupsafe import Markup

from ..harness import Check, Violation
from .. import env, gen, model
from ..model import C, Code, E, El, I, T
from .common import in_fork, outcome
from . import c08

_address = re.compile(r"(?i)0x[0-9a-f]{6,}")

OWN_NAMES = ["literal", "gettext", "egettext", "len", "str", "list", "max", "sorted", "print", "dict",
             "range", "isinstance", "sum", "True", "None", "repr", "type", "bool", "map", "any"]


class Exploding:
    """fails when it is output"""

    def __str__(self):
        raise gen.Error("exploding")


class Strange(dict):
    """a context of another type"""


class CHECK(Check):
    id = "C09"
    quick = 320
    thorough = 4000
    case_timeout = 60
    rule = ("sets of templates (single, inheriting and importing, redefining builtins) and contexts; "
            "each pair is rendered alone in a process of its own, then all in random sequences, nested "
            "within each other and in up to 8 threads with forced switches, and compared; contexts and "
            "builtins are compared before and after. Non-trivial: a threaded run with at least three "
            "changes between threads")
    floors = {"sequential": 3000, "threaded": 5000, "nested": 300, "solitary": 1000, "reused": 3000, "repeated": 4000}

    def worker_setup(self):
        from tonnikala.loader import FileLoader
        self.FileLoader = FileLoader
        self.c08 = c08.CHECK()

    def case(self, rng, index, tier):
        sources = {}
        defined = set()
        targets = []
        if rng.random() < 0.4:
            templates, order, _ = self.c08.case(rng, index, tier)
            for n in order:
                sources[n] = templates[n].source
                targets += [n + "#" + f for f in self.c08.chain(templates, n)
                            if not c08.ARGS[f] and rng.random() < 0.3]
                defined.update(templates[n].names)
                defined.update(i.alias for i in templates[n].top_imports)
        for i in range(rng.choice([1, 2, 3])):
            g = gen.TemplateGen(rng, gen.ExprGen(rng, tick=True), code=True,
                                depth=rng.choice([2, 3]), budget=rng.choice([8, 20]))
            nodes = g.template()
            kids = nodes[-1].children
            for _ in range(rng.choice([0, 1, 1, 2])):
                kids.insert(rng.randint(0, len(kids)), I(E("tick()")))
            # redefinitions of names of the language, last: their users come before
            if rng.random() < 0.4:
                name = rng.choice(["len", "str", "max", "print", "repr", "abs", "sorted"])
                if "%s(" % name not in str(nodes) and name not in str(nodes):
                    kids.append(rng.choice([
                        C("def", E("%s(q)" % name), [T("own "), I(E("q"))]),
                        C("block", E(name), [T("own block")]),
                        C("with", E("%s = s1" % name), [I(E(name))]),
                        C("for", E("%s in ls" % name), [I(E(name))]),
                        Code("%s = 5" % name), El("p", [], [I(E("gettext('a'), literal('<')"))])]))
                    defined.add("fn_own")
            root = nodes[-1]
            root.children = gen.merge(kids)
            sources["s%d.html" % i] = model.serialize(nodes, rng, plain=rng.random() < 0.5)
            for c in range(1, g.counter + 1):
                defined.update(["w%d" % c, "v%d" % c, "fn_%d" % c, "blk_%d" % c, "pi%d" % c, "a%d" % c])
        contexts = []
        for _ in range(rng.choice([2, 3])):
            ctx = gen.make_context(rng)
            k = rng.random()
            if k < 0.15:
                ctx["s1"] = Exploding()
            elif k < 0.3:
                del ctx[rng.choice(["s2", "ls", "o1"])]
            elif k < 0.4:
                ctx["gettext"] = lambda s: "[" + s + "]"
            elif k < 0.6:
                # the helpers, as other frameworks put them there
                ctx["gettext"] = lambda s: "[" + s + "]"
                ctx["literal"] = lambda s: Markup(str(s))
                ctx["egettext"] = lambda s: Markup.escape("[" + s + "]")
            elif k < 0.7:
                ctx["len"] = lambda v: 7
            if rng.random() < 0.2:
                ctx = rng.choice([Strange, collections.OrderedDict, types.MappingProxyType,
                                  collections.ChainMap])(ctx)
            contexts.append(ctx)
        return sources, contexts, sorted(defined), rng.getrandbits(40), targets[:6]

    def describe(self, case):
        return "\n".join("=== %s\n%s" % x for x in case[0].items())

    # -- what is run in the forked processes
    def render(self, loader, name, ctx):
        try:
            # of just a block or function, if one is named
            name, _, function = name.partition("#")
            return "ok", _address.sub("0x", loader.load(name).render(
                ctx, *([function] if function else [])))
        except Exception as e:
            return "error", type(e).__name__

    def with_tick(self, contexts, tick):
        rv = []
        for c in contexts:
            if isinstance(c, (types.MappingProxyType, collections.ChainMap)):
                d = dict(c)
                d["tick"] = tick
                rv.append(type(c)(d))
            else:
                c = type(c)(c)
                c["tick"] = tick
                rv.append(c)
        return rv

    def run(self, case, obs):
        sources, contexts, defined, salt, targets = case
        folder = tempfile.mkdtemp(dir=env.scratch_dir())
        try:
            for name, source in sources.items():
                path = os.path.join(folder, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(source)
            pairs = [(n, c) for n in list(sources) + targets for c in range(len(contexts))]
            expected = {}
            for n, c in pairs:
                def alone():
                    ctx = self.with_tick(contexts, lambda: "<tick>")[c]
                    return self.render(self.FileLoader([folder]), n, ctx)
                expected[n, c] = in_fork(alone)
                obs.count("solitary")
            stats = in_fork(lambda: self.workload(case, folder, pairs, expected))
            for k, n in stats["counts"].items():
                obs.count(k, n)
            for s in stats["interleavings"]:
                obs.state("interleavings", s)
            obs.count("switches", stats["switches"])
            if stats["switches"] >= 3:
                obs.distinct(case[0], salt)
                obs.sample("%d switches between threads in %s" % (
                    stats["switches"], self.describe(case)[:1000]))
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    def workload(self, case, folder, pairs, expected):
        sources, contexts, defined, salt, targets = case
        rng = random.Random(salt)
        counts = collections.Counter()
        local = threading.local()
        log = []
        wrong = []
        loader = self.FileLoader([folder])
        nesting = rng.random() < 0.6
        deepest = rng.choice([2, 2, 2, 5, 8])

        def check(pair, how):
            got = self.render(loader, pair[0], ctxs[pair[1]])
            counts[how] += 1
            if got != expected[pair]:
                wrong.append((how, pair, expected[pair], got))

        def tick():
            log.append(threading.get_ident())
            r = rng.random()
            if r < 0.3:
                time.sleep(0)
            elif r < 0.33:
                time.sleep(0.0005)
            depth = getattr(local, "depth", 0)
            if nesting and depth < deepest and r > 0.85:
                local.depth = depth + 1
                try:
                    check(rng.choice(pairs), "nested")
                finally:
                    local.depth = depth
            return "<tick>"

        ctxs = self.with_tick(contexts, tick)
        before = [snapshot(c) for c in ctxs]
        names_before = dict(vars(builtins))

        # or else the first renders of the process are those in the threads
        cold = rng.random() < 0.5
        for pair in [rng.choice(pairs) for _ in range(0 if cold else 20)]:
            check(pair, "sequential")

        def again():
            nonlocal nesting
            # one dictionary with other values in it each time
            reused = {}
            for pair in [rng.choice(pairs) for _ in range(12)]:
                reused.clear()
                reused.update(ctxs[pair[1]])
                got = self.render(loader, pair[0], reused)
                counts["reused"] += 1
                if got != expected[pair]:
                    wrong.append(("of a reused context", pair, expected[pair], got))
            if rng.random() < 0.08:
                # again and again
                nesting, was = False, nesting
                few = [rng.choice(pairs) for _ in range(2)]
                for i in range(600):
                    check(few[i // 7 % 2], "repeated")
                    if wrong:
                        break
                nesting = was

        if not cold:
            again()
        interleavings = []
        switches = 0
        old = sys.getswitchinterval()
        for round_ in range(2):
            del log[:]
            sys.setswitchinterval(1e-6)
            n = rng.choice([2, 4, 8])
            barrier = threading.Barrier(n)
            delays = rng.random() < 0.5 or cold
            if rng.random() < 0.5:
                # every thread loads everything itself
                loader = self.FileLoader([folder])

            def tracer(frame, event, arg):
                name = frame.f_code.co_filename
                if folder not in name and "tonnikala" not in name:
                    return None
                if rng.random() < 0.02:
                    log.append(threading.get_ident())
                    time.sleep(0)
                return tracer

            def work(mine):
                barrier.wait()
                if delays:
                    sys.settrace(tracer)
                try:
                    for pair in mine:
                        check(pair, "threaded")
                finally:
                    sys.settrace(None)

            threads = [threading.Thread(target=work, args=([rng.choice(pairs) for _ in range(8)],))
                       for _ in range(n)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            sys.setswitchinterval(old)
            order = {}
            seq = [order.setdefault(i, len(order)) for i in log[:2000]]
            switches += sum(a != b for a, b in zip(seq, seq[1:]))
            interleavings.append(tuple(seq))

        for pair in [rng.choice(pairs) for _ in range(30 if cold else 10)]:
            check(pair, "sequential")
        if cold:
            again()

        if wrong:
            how, pair, want, got = wrong[0]
            raise Violation("a %s render of %s with context %d gives %r instead of %r (%d wrong)" % (
                how, pair[0], pair[1], got[1][:300], want[1][:300], len(wrong)),
                source=self.describe(case))
        for c, b in zip(ctxs, before):
            if snapshot(c) != b:
                raise Violation("rendering changes the context of the caller: %s" % difference(
                    b, snapshot(c)), source=self.describe(case))
        if dict(vars(builtins)) != names_before:
            raise Violation("rendering changes the builtins", source=self.describe(case))
        # nothing is visible to other templates
        from tonnikala.loader import Loader
        other = Loader()
        for name in defined:
            if hasattr(builtins, name):
                got = outcome(lambda: other.load_string("<p>${x is %s}</p>" % name).render(
                    {"x": getattr(builtins, name)}))
                if got != ("ok", "<p>True</p>"):
                    raise Violation("another template sees another %s" % name,
                                    source=self.describe(case))
                continue
            got = outcome(lambda: other.load_string("<p>${%s}</p>" % name).render({}))
            counts["probes"] += 1
            if got[0] != "error" or got[1] != "NameError":
                raise Violation("the name %s is visible to another template: %s" % (name, got[1]),
                                source=self.describe(case))
        got = outcome(lambda: other.load_string(
            "<p>${len('abc')} ${str(1)} ${max(1, 2)} ${sorted('ba')} ${repr('x')} ${abs(-1)} "
            "${literal('&lt;')} ${gettext('a')} ${egettext('<')} ${print is None}</p>").render({}))
        if got != ("ok", "<p>3 1 2 [&#39;a&#39;, &#39;b&#39;] &#39;x&#39; 1 < a &lt; False</p>"):
            raise Violation("the names of the language have changed: %s" % (got[1],),
                            source=self.describe(case))
        return {"counts": dict(counts), "interleavings": interleavings, "switches": switches}


def snapshot(ctx):
    rv = {}
    for k, v in dict(ctx).items():
        try:
            text = repr(vars(v)) if hasattr(v, "__dict__") else repr(v)
        except Exception as e:
            text = type(e).__name__
        rv[k] = id(v), text
    return type(ctx).__name__, rv


def difference(a, b):
    a, b = a[1], b[1]
    return sorted(set(a) ^ set(b)) or [k for k in a if a[k] != b[k]]
