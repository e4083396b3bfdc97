import contextlib
import gc
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import tracemalloc
import weakref

from ..harness import Check, Violation
from .. import env, gen, js, model
from ..model import E, El, I
from . import c08, c12
from .common import inserted

_time, _monotonic = time.time, time.monotonic


def collect():
    gc.collect()
    # that of the interpreter refers to the names looked up
    sys._clear_type_cache()


class TStr(str):
    """strings, lists and dicts that can be watched"""


class TList(list):
    pass


class TDict(dict):
    pass


class Explosive:
    """fails when it is output, with an exception that refers to it"""

    def __str__(self):
        e = gen.Error("explosive")
        e.owner = self
        raise e


class Kill(BaseException):
    """like an interruption by the user"""


class Again:
    """renders a template while one is rendered"""

    def __init__(self, render, ctx):
        self.render, self.ctx, self.busy = render, ctx, False

    def __str__(self):
        if self.busy:
            return "busy"
        self.busy = True
        try:
            return str(self.render(self.ctx))
        finally:
            self.busy = False


class Watch:
    """Values and whether they still exist"""

    def __init__(self):
        self.refs = []
        self.lock = threading.Lock()

    def add(self, value, what):
        with self.lock:
            self.refs.append((what, weakref.ref(value)))
        return value

    def convert(self, value, name, rng):
        """the same value, watched as far as possible"""
        if type(value) is str and rng.random() < 0.6:
            return self.add(TStr(value), name)
        if type(value) is list:
            return self.add(TList(self.convert(x, name + "[]", rng) for x in value), name)
        if type(value) is dict:
            return self.add(TDict((k, self.convert(x, name + "[k]", rng)) for k, x in value.items()), name)
        if isinstance(value, gen.Obj):
            for k, x in list(vars(value).items()):
                setattr(value, k, self.convert(x, name + "." + k, rng))
            return self.add(value, name)
        if type(value).__module__ == gen.__name__ and not isinstance(value, (int, type)):
            return self.add(value, name)
        return value

    def context(self, rng):
        """a context of watched values, whose functions give further ones"""
        rv = {k: self.convert(v, k, rng) for k, v in gen.make_context(rng).items()}

        def f1(x="d", *a, **kw):
            return self.add(TStr(gen.f1(x, *a, **kw)), "a result of f1")

        def ident(x):
            return x

        def tick():
            return self.add(TStr("tick"), "a result of tick")

        def boom(*a):
            raise self.add(gen.Error("boom", *a), "the exception")

        def kill(*a):
            raise self.add(Kill(*a), "the exception")

        for f in (f1, ident, tick, boom, kill):
            rv[f.__name__] = self.add(f, "the function " + f.__name__)
        # shows that an output was put together
        rv["token"] = self.add(TStr("token-%08x" % rng.getrandbits(32)), "token")
        rv["explosive"] = self.add(Explosive(), "explosive")
        return rv

    def render_again(self, ctx, render):
        """some value renders when it is output"""
        ctx["s2"] = self.add(Again(render, ctx), "a value that renders")

    def alive(self):
        return [(what, r()) for what, r in self.refs if r() is not None]


class Clock:
    """Lets time pass"""

    offset = 0.0

    def __enter__(self):
        Clock.offset = 0.0
        time.time = lambda: _time() + Clock.offset
        time.monotonic = lambda: _monotonic() + Clock.offset
        return self

    def __exit__(self, *a):
        time.time, time.monotonic = _time, _monotonic


def referrers(value, skip):
    rv = []
    for r in gc.get_referrers(value):
        if r is skip or type(r).__name__ == "frame":
            continue
        text = type(r).__name__
        if isinstance(r, dict):
            text += " with " + repr([k for k, v in r.items() if v is value][:3])
        else:
            text += " " + repr(r)[:150]
        rv.append(text)
    return "; ".join(rv[:4])


FAILING = ["${1/0}", "${nosuch}", "\n${boom(s1, o1)}", "${explosive}", "<b title='$explosive'/>", "${f1(boom())}",
           "<b py:for='i in [o1, explosive]'>$i</b>", "<b py:with='a = o1; b = explosive'>${b}</b>",
           "<b py:attrs=\"{'a': explosive}\"/>", "<b py:if='boom(o1)'/>", "${(lambda: boom(o1))()}",
           "<py:def function='fx(x)'>${x}${explosive}</py:def>${fx(o1)}", "${[boom(x) for x in ls + [o1]]}",
           "${kill(o1)}", "<b py:for='i in [o1]' title='${kill(i)}'/>"]


class CHECK(Check):
    id = "C24"
    quick = 1600
    thorough = 24000
    case_timeout = 90
    rule = ("templates, sets of files and failing ones are loaded and rendered with values that are watched by "
            "weak references: each must be gone when the render has returned or its exception was dropped, while "
            "the templates and the loader live on; templates must be gone when they are replaced or dropped. "
            "Every sixth case repeats loads, renders, failures, rejections, reloads or JavaScript "
            "compilations with other values until the memory used stays as it is. Non-trivial: at least "
            "20 watched values")
    floors = {"watched": 20000, "renders": 1500, "failures": 500, "dropped": 300, "replaced": 100, "growth": 100,
              "iterations": 6000, "in_threads": 100,
              "nested": 100, "killed": 20, "views": 50, "outputs": 200}

    def worker_setup(self):
        from tonnikala.loader import FileLoader, JSLoader, Loader
        self.Loader, self.FileLoader, self.JSLoader = Loader, FileLoader, JSLoader
        self.tal = lambda: Loader(syntax="chameleon")
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import tonnikala.pyramid
        self.factory = tonnikala.pyramid.TonnikalaRendererFactory
        import tonnikala.i18n
        self.extract, self.Extractor = tonnikala.i18n.extract_tonnikala, tonnikala.i18n.TonnikalaExtractor
        self.options = tonnikala.i18n.Options()
        self.c08 = c08.CHECK()
        self.base = tempfile.mkdtemp(dir=env.scratch_dir())
        # whatever is imported or filled at the first use
        rng = random.Random(1)
        for _ in range(30):
            source = self.page(rng, rng.random() < 0.5)
            for name in ("alone", "growth_fail"):
                with contextlib.suppress(Exception, Kill):
                    Loader().load_string(source).render(Watch().context(rng))
        for _ in range(60):
            JSLoader().load_string("<p>$a</p>")

    def worker_teardown(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def chameleon_page(self, rng, failing):
        g = gen.TemplateGen(rng, gen.ExprGen(rng, tick=rng.random() < 0.5), tal=True,
                            depth=rng.choice([2, 3, 4]), budget=rng.choice([8, 20, 40]), large=0.05)
        source = model.serialize(g.template(), rng, "tal", plain=rng.random() < 0.5)
        if failing:
            source = inserted(source, rng.choice([x for x in FAILING if "py:" not in x]))
        return source

    def pyramid(self, folder):
        factory = self.factory()
        factory.add_search_path(None, folder)
        return factory.loader, factory(None)

    def page(self, rng, failing):
        g = gen.TemplateGen(rng, gen.ExprGen(rng, tick=rng.random() < 0.5), code=rng.random() < 0.2,
                            depth=rng.choice([2, 3, 4]), budget=rng.choice([8, 20, 40]), large=0.05)
        source = model.serialize(g.template(), rng, plain=rng.random() < 0.5)
        if rng.random() < 0.5:
            source = inserted(source, "<u>${token}</u>")
        if failing:
            source = inserted(source, rng.choice(FAILING))
        return source

    def case(self, rng, index, tier):
        kind = "growth" if index // 8 % 6 == 5 else rng.choice([
            "alone", "alone", "alone", "set", "set", "reload", "reload", "chameleon", "pyramid"])
        sources = {}
        if kind == "set":
            templates, order, _ = self.c08.case(rng, index, tier)
            for n in order:
                sources[n] = templates[n].source
                if rng.random() < 0.2:
                    if not templates[n].extends:
                        sources[n] = inserted(sources[n], rng.choice(FAILING))
        elif kind == "growth":
            kind = rng.choice(["renders", "renders", "loads", "loads", "failures", "rejections", "reloads", "reloads",
                               "loaders", "javascript", "chameleons", "views", "extraction"])
            sources["a.html"] = self.page(rng, kind == "failures")
            if kind == "rejections":
                s = sources["a.html"]
                sources["a.html"] = inserted(s, c12.defect(rng, False)[1])
            elif kind == "chameleons":
                sources["a.html"] = self.chameleon_page(rng, rng.random() < 0.2)
            elif kind == "extraction":
                if rng.random() < 0.2:
                    sources["a.html"] += "</p>"
            elif kind == "javascript":
                g = gen.TemplateGen(rng, js.JsExprGen(rng), dual=True, depth=2, budget=4)
                sources["a.html"] = model.serialize(g.template(), rng, "js")
                if rng.random() < 0.3:
                    sources["a.html"] += "</p>"
        elif kind == "chameleon":
            sources["a.html"] = self.chameleon_page(rng, rng.random() < 0.4)
        else:
            sources["a.html"] = self.page(rng, rng.random() < 0.4)
        return kind, sources, rng.getrandbits(40)

    def describe(self, case):
        return case[0] + "\n" + "\n".join("=== %s\n%s" % x for x in case[1].items())

    def run(self, case, obs):
        kind, sources, salt = case
        rng = random.Random(salt)
        folder = tempfile.mkdtemp(dir=self.base)
        fds = len(os.listdir("/proc/self/fd"))
        try:
            for n, s in sources.items():
                path = os.path.join(folder, n)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(s)
            if kind in ("alone", "set", "reload", "pyramid", "chameleon"):
                self.watch(kind, sources, folder, rng, obs, case)
            else:
                self.growth(kind, sources["a.html"], folder, rng, obs, case)
            gc.collect()
            left = len(os.listdir("/proc/self/fd")) - fds
            if left > 0:
                raise Violation("%d files stay open" % left, source=self.describe(case))
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    # ------------------------------------------------------------- watched values
    def watch(self, kind, sources, folder, rng, obs, case):
        loader, renderer = self.FileLoader([folder]), None
        if kind == "pyramid":
            loader, renderer = self.pyramid(folder)
        loader.set_reload(kind in ("reload", "pyramid"))
        watch = Watch()
        templates = {}

        def get(name):
            if kind in ("alone", "chameleon"):
                if name not in templates:
                    templates[name] = (self.tal if kind == "chameleon" else self.Loader)().load_string(sources[name], filename=name)
                return templates[name]
            return loader.load(name)

        outputs = []

        def render(name):
            ctx = watch.context(rng)
            if rng.random() < 0.2:
                watch.render_again(ctx, lambda c: get(name).render(c))
                obs.count("nested")
            how = rng.randrange(8)
            system = {"renderer_name": name, "view": None, "request": watch.add(gen.Obj(), "the request")}
            try:
                if renderer is not None:
                    if how == 0:
                        outputs.append(renderer.fragment(name, ctx, system))
                    else:
                        outputs.append(renderer(ctx, system))
                    obs.count("views")
                elif how == 0:
                    outputs.append(get(name).render_to_buffer(ctx))
                elif how == 1:
                    get(name).render(ctx, rng.choice(["fa", "bk0", "fn_1", "blk_1", "nope"]))
                else:
                    outputs.append(get(name).render(ctx))
                obs.count("renders")
            except Exception:
                obs.count("failures")
            except Kill:
                obs.count("killed")

        def in_thread(name):
            t = threading.Thread(target=render, args=(name,))
            t.start()
            t.join()
            obs.count("in_threads")

        names = sorted(sources)
        for _ in range(rng.choice([1, 2, 4])):
            (in_thread if rng.random() < 0.2 else render)(rng.choice(names))
        gc.collect()
        while outputs:
            output = outputs.pop()
            if type(output) is not str and not hasattr(output, "buffer"):
                # the pure Python buffer refers to itself
                continue
            if type(output) is str and "<u>token-" not in output:
                # may be some constant
                continue
            obs.count("outputs")
            if sys.getrefcount(output) > 2:
                raise Violation("after rendering, the output (a %s) is still referenced: %s" % (
                    type(output).__name__, str(output)[:200]), source=self.describe(case))
        alive = watch.alive()
        obs.count("watched", len(watch.refs))
        if alive:
            what, value = alive[0]
            raise Violation("after rendering, %s (of type %s) and %d others are still referenced, by %s" % (
                what, type(value).__name__, len(alive) - 1, referrers(value, alive[0])),
                source=self.describe(case))
        del alive
        if len(watch.refs) >= 20:
            obs.distinct(self.describe(case))
            obs.sample("%d values watched: %s" % (len(watch.refs), self.describe(case)[:1000]))

        # the templates
        if kind in ("alone", "chameleon"):
            gone = [weakref.ref(t) for t in templates.values()]
            templates.clear()
            what = "a template that was dropped"
            obs.count("dropped", len(gone))
        elif kind in ("reload", "pyramid"):
            name = "a.html"
            gone = [weakref.ref(loader.load(name))]
            path = os.path.join(folder, name)
            with Clock():
                for i in range(3):
                    with open(path, "w", encoding="utf-8") as f:
                        f.write(sources[name] if rng.random() < 0.7 else "<p>${</p>")
                    os.utime(path, (1e9 + i, 1e9 + i))
                    Clock.offset += 10
                    try:
                        gone.append(weakref.ref(loader.load(name)))
                    except Exception:
                        pass
                    render(name)
                os.unlink(path)
                Clock.offset += 10
                try:
                    loader.load(name)
                    return
                except OSError:
                    pass
            what = "a template whose file was replaced"
            obs.count("replaced", len(gone))
        else:
            gone = [weakref.ref(loader)]
            for n in names:
                with contextlib.suppress(Exception):
                    gone.append(weakref.ref(loader.load(n)))
            loader = renderer = None
            what = "a loader that was dropped, or its template,"
            obs.count("dropped", len(gone))
        gc.collect()
        alive = [r() for r in gone if r() is not None]
        if alive:
            raise Violation("%s is still referenced, by %s" % (what, referrers(alive[0], alive)),
                            source=self.describe(case))

    # ------------------------------------------------------------- growth
    def growth(self, kind, source, folder, rng, obs, case):
        path = os.path.join(folder, "a.html")
        loader = self.Loader()
        n = 0
        template = None
        if kind in ("renders", "failures"):
            try:
                template = loader.load_string(source)
            except Exception:
                return
        files = self.FileLoader([folder])
        renderer = None
        if kind == "views":
            files, renderer = self.pyramid(folder)
        files.set_reload(True)
        javascript, tal = self.JSLoader(), self.tal()
        seed = rng.getrandbits(40)

        def step():
            nonlocal n
            n += 1
            # other texts of the same sizes
            mark = "%08d" % n
            if kind in ("renders", "failures"):
                ctx = Watch().context(random.Random(seed))
                ctx["s1"], ctx["s3"] = "<%s>" % mark, mark * 90
                ctx["o1"].name = mark
                with contextlib.suppress(Exception, Kill):
                    template.render(ctx)
                return
            text = inserted(source, "<i title='" + mark + "'>" + mark + "</i>")
            with contextlib.suppress(Exception, Kill):
                if kind == "javascript":
                    javascript.load_string(text)
                elif kind == "chameleons":
                    tal.load_string(text).render(Watch().context(random.Random(seed)))
                elif kind == "extraction":
                    if n % 2:
                        list(self.extract(io.BytesIO(text.encode()), (), (), {}))
                    else:
                        with open(path, "w", encoding="utf-8") as f:
                            f.write(text)
                        list(self.Extractor()(path, self.options))
                elif kind in ("loads", "rejections"):
                    loader.load_string(text).render(Watch().context(random.Random(seed)))
                elif kind == "loaders":
                    with open(path, "w", encoding="utf-8") as f:
                        f.write(text)
                    self.FileLoader([folder]).load("a.html").render(Watch().context(random.Random(seed)))
                else:
                    with open(path, "w", encoding="utf-8") as f:
                        f.write(text)
                    os.utime(path, (1e9 + n, 1e9 + n))
                    Clock.offset += 10
                    if renderer is not None:
                        renderer(Watch().context(random.Random(seed)), {"renderer_name": "a.html"})
                        return
                    files.load("a.html").render(Watch().context(random.Random(seed)))

        t0 = _monotonic()
        step()
        step()
        cost = max((_monotonic() - t0) / 2, 1e-5)
        size = max(8, min(60, int(0.15 / cost)))
        with Clock():
            tracemalloc.start(1)
            try:
                grown = self.windows(step, size, 3, obs)
                # a cache that fills is no leak
                limit = 3000 if self.tier == "quick" else 6000
                t1 = _monotonic()
                while grown and n < limit and _monotonic() - t1 < 40:
                    grown = self.windows(step, size * 4, 3, obs)
                    obs.count("suspicious")
                if not grown:
                    obs.count("growth")
                    obs.count("growth." + kind)
                    obs.distinct(kind, source)
                    return
                before = tracemalloc.take_snapshot()
                for _ in range(size):
                    step()
                collect()
                diff = tracemalloc.take_snapshot().compare_to(before, "lineno")[:3]
            finally:
                tracemalloc.stop()
        raise Violation("the memory in use grows with each of the %s, by %d bytes each after %d: %s" % (
            kind, grown, n, "; ".join(map(str, diff))), source=source)

    def windows(self, step, size, count, obs):
        """-> the growth by step if all of the windows have grown, else 0"""
        rv = []
        collect()
        last = tracemalloc.get_traced_memory()[0]
        for _ in range(count):
            for _ in range(size):
                step()
            collect()
            obs.count("iterations", size)
            now = tracemalloc.get_traced_memory()[0]
            rv.append((now - last) / size)
            if rv[-1] < 20:
                return 0
            last = now
        return sum(rv) / len(rv)
