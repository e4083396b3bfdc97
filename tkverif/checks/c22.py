import collections
import importlib
import itertools
import os
import shutil
import sys
import tempfile
import threading
import time
import types

from ..harness import Check, Violation
from .. import env, gen, model
from ..model import El, E, Ext, I, Imp, T
from . import c08
from .common import compare, outcome

EXTENSIONS = [".html", ".tk", ".pt", ".x"]
SYSTEM = [E("renderer_name"), E("request.path"), E("req is request"), E("view is None"),
          E("context.title"), E("renderer_info.name"), E("glob"), E("request.method")]
_uid = itertools.count()


class Context:
    """the root factory's"""

    title = "root & co"

    def __init__(self, request):
        pass


class Linking(c08.World):
    """as the loader has the templates"""

    def __init__(self, app, ctx):
        super().__init__(app, ctx)
        self.app = app

    class part(c08.Part):
        def __init__(self, nodes, context):
            model.Reference.__init__(self, nodes, context, translatable=self.world.app.l10n)


class File:
    def __init__(self, template, version):
        self.template = template
        self.version = version
        self.mtime = 1_500_000_000 + version


class App:
    """
    The model of an application: its settings and the templates it has loaded
    """

    def __init__(self, disk):
        self.disk = disk
        self.extensions = set()
        self.paths = []
        self.reload = False
        self.l10n = False
        self.cache = {}
        self.check = True

    def resolve(self, name):
        candidates = []
        package, colon, rest = name.partition(":")
        if colon and package in self.disk.packages:
            candidates.append(os.path.join(self.disk.packages[package], rest))
        for base in self.paths:
            candidates.append(os.path.join(base, name))
        if os.path.isabs(name):
            candidates.append(name)
        for path in candidates:
            path = os.path.normpath(path)
            if path in self.disk.files:
                return path
        raise FileNotFoundError(name)

    def before(self):
        """the check for changes at a load, when there was time since the last one"""
        if not self.reload or not self.check:
            return
        self.check = False
        for name, (path, file) in list(self.cache.items()):
            if path not in self.disk.files:
                del self.cache[name]
            elif self.disk.files[path] is not file:
                self.cache.clear()
                break

    def __getitem__(self, name):
        self.before()
        if name not in self.cache:
            path = self.resolve(name)
            file = self.disk.files[path]
            if file.template.extends:
                # it is bound to it when it is loaded
                self[file.template.extends]
            self.cache[name] = path, file
        return self.cache[name][1].template

    def render(self, name, ctx):
        if os.path.splitext(name)[1] not in self.extensions:
            raise ValueError("No such renderer factory")
        self[name]
        return Linking(self, ctx).render(name)


class Disk:
    def __init__(self):
        self.root = tempfile.mkdtemp(dir=env.scratch_dir())
        self.packages = {}
        self.folders = []
        self.files = {}
        self.modules = []
        self.version = 0

    def package(self, name):
        path = os.path.join(self.root, *name.split("."))
        os.makedirs(path)
        open(os.path.join(path, "__init__.py"), "w").close()
        self.packages[name] = path

    def write(self, path, template):
        self.version += 1
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(template.source)
        self.files[path] = File(template, self.version)
        os.utime(path, (self.files[path].mtime,) * 2)

    def remove(self, path):
        os.unlink(path)
        del self.files[path]

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
        for name in self.packages:
            sys.modules.pop(name, None)
        if self.root in sys.path:
            sys.path.remove(self.root)


class Mapping(collections.abc.Mapping):
    """a dictionary of another class"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


VALUES = [dict, dict, dict, collections.OrderedDict, types.MappingProxyType, Mapping,
          collections.ChainMap]
BAD = [None, 5, "text", object(), ["a"], 1.5, True, [1, 2], b"bytes"]


def gettext(message):
    return "<%s>" % message.swapcase()


class CHECK(Check):
    id = "C22"
    quick = 2000
    thorough = 40000
    rule = ("one or two applications in a process, configured by settings and directives with "
            "search paths in folders and packages made for the case, answering a history of "
            "requests, render() and fragment() calls between changes of the files, compared with "
            "a model of the settings, the resolution, the cache and the templates. Non-trivial: a "
            "name found in several places, or a change of a file between two renders")
    floors = {"requests": 7000, "refused": 200, "changes": 1000, "shadowed": 1500,
              "translated": 700, "missing": 200, "parallel": 300}

    def worker_setup(self):
        import warnings
        warnings.simplefilter("ignore")
        import pyramid.config
        import pyramid.renderers
        import pyramid.request
        import tonnikala.loader
        self.pyramid = pyramid
        self.tonnikala = tonnikala

    # -- the case is drawn while it runs, as it depends on the files that there are
    def case(self, rng, index, tier):
        return rng, rng.getrandbits(32), []

    def describe(self, case):
        return "\n".join(case[2])

    def run(self, case, obs):
        rng, seed, log = case
        del log[:]
        rng.seed(seed)
        disk = Disk()
        cwd = os.getcwd()
        try:
            os.chdir(disk.root)
            self.history(rng, disk, log, obs)
        finally:
            os.chdir(cwd)
            disk.close()

    def history(self, rng, disk, log, obs):
        self.lay_out(rng, disk)
        names = self.names(rng, disk)
        apps = []
        for _ in range(rng.choice([1, 1, 2])):
            apps.append(self.configure(rng, disk, names, log, obs))
        for name, where in names.items():
            for base in where:
                self.put(rng, disk, os.path.normpath(os.path.join(base, name)), names, apps, log)
        sleepy = rng.random() < 0.25
        changed, shadowed = False, obs.counts["shadowed"]
        for step in range(rng.choice([4, 8, 12])):
            app = rng.choice(apps)
            k = rng.random()
            if k < 0.3 and step:
                changed |= self.change(rng, disk, names, apps, log, obs, sleepy)
            elif k < 0.36 and step and (sleepy or not changed):
                app.reload = rng.random() < 0.5
                log.append("app %d: reload %r" % (apps.index(app), app.reload))
                app.config.set_tonnikala_reload(app.reload)
                if app.reload:
                    self.pause(apps)
            elif k < 0.42:
                self.refuse(rng, app, names, log, obs)
            elif k < 0.48:
                self.parallel(rng, disk, app, names, log, obs)
            else:
                self.request(rng, disk, app, apps, names, log, obs)
        if changed or obs.counts["shadowed"] > shadowed:
            obs.distinct(log)
            obs.sample("\n".join(log)[:3000])

    def pause(self, apps):
        time.sleep(0.28)
        for app in apps:
            app.check = True

    # -- files
    def lay_out(self, rng, disk):
        uid = "tkp%d_%d" % (os.getpid(), next(_uid))
        for name in [uid, uid + ".sub", uid + "b"][:rng.choice([1, 2, 3])]:
            disk.package(name)
        sys.path.insert(0, disk.root)
        importlib.invalidate_caches()
        folders = ["plain", "sp ace", "co:lon", "deep/er", "é"]
        if rng.random() < 0.1:
            folders += ["more%d" % i for i in range(12)]
        for f in rng.sample(folders, rng.choice([1, 2, 3, len(folders)])):
            disk.folders.append((os.path.join(disk.root, f), None, None))
        for p, path in disk.packages.items():
            for f in rng.sample(["templates", "t/u", "."], rng.choice([1, 2])):
                disk.folders.append((os.path.join(path, f), p, f))
        rng.shuffle(disk.folders)

    def names(self, rng, disk):
        """names of templates -> the folders they are in"""
        rv = {}
        names = ["a%s", "sub/b%s", "c d%s", "ü.x%s", "e%s", "f/g.y%s"]
        if rng.random() < 0.2:
            # no asset specifications: there is no such package, or no such file in it
            names = names[:3] + ["tkno:a%s", sorted(disk.packages)[0] + ":k%s"]
        for name in rng.sample(names, rng.choice([2, 3, 4])):
            name %= rng.choice(EXTENSIONS)
            n = rng.choice([1, 1, 2, 3])
            rv[name] = [f[0] for f in rng.sample(disk.folders, min(n, len(disk.folders)))]
        return rv

    def spellings(self, disk, name, where):
        """how the file of a name may be named otherwise"""
        rv = []
        for base, package, folder in disk.folders:
            if base == where:
                rv.append(os.path.normpath(os.path.join(base, name)))
                if package:
                    rv.append("%s:%s" % (package, name if folder == "." else
                                         folder + "/" + name))
        return rv

    def put(self, rng, disk, path, names, apps, log):
        t = c08.Template()
        tag = "%s#%d" % (os.path.relpath(path, disk.root), disk.version)
        g = gen.TemplateGen(rng, gen.ExprGen(rng), controls=("if", "for", "with", "unless"),
                            budget=6, depth=2, raw=False, weird_text=False)
        e = gen.Env()

        def body(label):
            nodes = [T("[%s:%s]" % (tag, label)), El("i", [("title", ["Text here"])],
                                                     [T("Some text "), I(rng.choice(SYSTEM))])]
            return nodes + g.many(e, 1)

        block = model.C("block", E("blk"), body("block"))
        define = model.C("def", E("fun"), body("def"))
        # only on those with a name before, so that there is no cycle
        order = sorted(names)
        mine = [n for n in order if path.endswith("/" + n)]
        before = order[:order.index(mine[-1])] if mine else []
        targets = []
        for n in before:
            if names[n]:
                targets += self.spellings(disk, n, rng.choice(names[n]))
                if all(any(b in a.paths for b in names[n]) for a in apps):
                    targets.append(n)
        if targets and rng.random() < 0.5:
            t.top_imports.append(Imp(rng.choice(targets), "imp"))
        if targets and rng.random() < 0.4:
            t.extends = rng.choice(targets)
            t.nodes = [Ext(t.extends, [block, define] + t.top_imports)]
        else:
            kids = body("root") + [block, define] + t.top_imports
            if rng.random() < 0.3:
                kids.append(I(E("boom()")))
            if t.top_imports:
                kids.append(I(E("imp.fun()")))
            t.nodes = [El("html", [], gen.merge(kids))]
        t.source = model.serialize(t.nodes, rng, plain=rng.random() < 0.5, variety=0.4, junk=False)
        disk.write(path, t)
        log.append("=== %s\n%s" % (path, t.source))

    def change(self, rng, disk, names, apps, log, obs, sleepy):
        if any(a.reload for a in apps) and not sleepy:
            return False
        name = rng.choice(sorted(names))
        # a parent or an imported template stays there
        last = name == sorted(names)[-1]
        where = names[name]
        if not where:
            return False
        base = rng.choice(where)
        path = os.path.normpath(os.path.join(base, name))
        if last and rng.random() < 0.4:
            disk.remove(path)
            where.remove(base)
            log.append("removed %s" % path)
        else:
            self.put(rng, disk, path, names, apps, log)
        if any(a.reload for a in apps):
            self.pause(apps)
        obs.count("changes")
        return True

    # -- applications
    def configure(self, rng, disk, names, log, obs):
        app = App(disk)
        settings, later = {}, []
        words = []
        exts = rng.sample(EXTENSIONS, rng.choice([2, 3, 4]))
        app.extensions = set(exts)
        exts = [x[1:] if rng.random() < 0.4 else x for x in exts]
        split = rng.randint(0, len(exts))
        if split:
            settings["tonnikala.extensions"] = rng.choice([
                exts[:split], " ".join(exts[:split]), "\n".join([""] + exts[:split]),
                tuple(exts[:split])])
        others = exts[split:]
        if others:
            later.append(lambda c: c.add_tonnikala_extensions(*others))
            words.append("extensions %r" % others)
        paths = rng.sample(disk.folders, rng.randint(1, len(disk.folders)))
        app.paths = [p[0] for p in paths]
        specs = []
        for base, package, folder in paths:
            if package:
                specs.append("%s:%s" % (package, folder))
            elif ":" not in base and rng.random() < 0.2:
                specs.append(os.path.relpath(base, disk.root))
            else:
                specs.append(base)
        split = rng.randint(0, len(specs))
        first, rest = specs[:split], specs[split:]
        if first:
            text = not any(c.isspace() for p in first for c in p)
            settings["tonnikala.search_paths"] = rng.choice(
                [" ".join(first), "\n".join([""] + first)] if text else [first, tuple(first)])
        if rest:
            later.append(lambda c: c.add_tonnikala_search_paths(*rest))
            words.append("search paths %r" % rest)
        for key, attr in ("reload", "reload"), ("l10n", "l10n"):
            flag = rng.random() < 0.5
            setattr(app, attr, flag)
            spelled = rng.choice([True, "true", "Yes", "1", "on", "t"] if flag else
                                 [False, False, False, "false", "no", "0", "off"])
            k = rng.randrange(4)
            if k == 0:
                later.append(lambda c, flag=flag, key=key:
                             getattr(c, "set_tonnikala_" + key)(flag))
                words.append("%s %r" % (key, flag))
                if rng.random() < 0.5:
                    settings["tonnikala." + key] = not flag
            elif k == 1 and key == "reload":
                settings[rng.choice(["pyramid.reload_templates", "reload_templates"])] = spelled
            elif k == 2 and not flag:
                pass
            else:
                settings["tonnikala." + key] = spelled
                if key == "reload" and rng.random() < 0.5:
                    settings["pyramid.reload_templates"] = not flag
        log.append("app: settings %r, then %s" % (settings, "; ".join(words)))
        config = self.pyramid.config.Configurator(settings=settings, root_factory=Context)
        config.include("tonnikala.pyramid")
        if rng.random() < 0.1:
            config.include("tonnikala.pyramid")
        for f in later:
            f(config)
        app.glob = "glo&bal %d" % rng.randrange(9)
        app.globals = {"glob": app.glob}
        if rng.random() < 0.7:
            app.globals["gettext"] = gettext
        config.add_subscriber(lambda event: event.update(app.globals),
                              "pyramid.events.BeforeRender")
        app.answers = {}
        for i, name in enumerate(sorted(names)):
            spelled = [name]
            for where in names[name]:
                spelled += self.spellings(disk, name, where)
            for j, s in enumerate(spelled[:4]):
                if os.path.splitext(s)[1] not in app.extensions:
                    # configured when the views are
                    continue
                route = "r%d_%d" % (i, j)
                config.add_route(route, "/" + route)
                config.add_view(self.view(app), route_name=route, renderer=s)
                app.answers.setdefault(s, route)
        app.config = config
        app.wsgi = config.make_wsgi_app()
        app.registry = config.registry
        return app

    def view(self, app):
        def view(context, request):
            request.seen = context, view
            return request.environ["tk.value"]
        return view

    # -- requests
    def value(self, rng):
        rv = gen.make_context(rng)
        for k in rng.sample(sorted(rv), rng.choice([0, 0, 1])):
            del rv[k]
        if rng.random() < 0.15:
            rv["glob"] = "mine"
        if rng.random() < 0.1:
            rv["renderer_name"] = "<mine>"
        if rng.random() < 0.1:
            rv["view"] = None
        if rng.random() < 0.3:
            rv["gettext"] = gettext
        return rv

    def pick(self, rng, disk, app, names, obs):
        name = rng.choice(sorted(names))
        spelled = [name] * 3
        for where in names[name]:
            spelled += self.spellings(disk, name, where)
        k = rng.random()
        if k < 0.04:
            return "not" + name
        if k < 0.07:
            return "nopackage:" + name
        if sum(b in app.paths for b in names[name]) > 1:
            obs.count("shadowed")
        return rng.choice(spelled)

    def request(self, rng, disk, app, apps, names, log, obs):
        name = self.pick(rng, disk, app, names, obs)
        values = self.value(rng)
        kind = rng.choice(["view", "view", "render", "response", "fragment", "none"])
        expected, got, value = self.answer(rng, app, name, values, kind)
        if expected[0] == "error" and expected[1] == "FileNotFoundError":
            obs.count("missing")
        log.append("%s of %r in app %d" % (kind, name, apps.index(app)))
        compare(expected, got, "\n".join(log), what="%s of %r is wrong" % (kind, name),
                application="paths %r, reload %r, l10n %r" % (app.paths, app.reload, app.l10n))
        if kind != "none" and got[0] == "ok" and not isinstance(got[1], str):
            raise Violation("gives a %s" % type(got[1]))
        if dict(value) != values or list(value) != list(values):
            raise Violation("the dictionary of the view was changed", source="\n".join(log))
        obs.count("requests")
        obs.count("by_" + kind)
        if got[0] == "ok":
            if app.l10n:
                obs.count("translated", "<sOME TEXT>" in got[1] or "&lt;sOME TEXT&gt;" in got[1])
            obs.count("chars", len(got[1]))
        else:
            obs.count("error." + got[1])
        obs.state("outputs", got[1])

    def answer(self, rng, app, name, values, kind):
        value = rng.choice(VALUES)(values)
        system = {"renderer_name": name, "view": None, "context": None, "request": None, "req": None}
        system.update(app.globals)
        if kind == "view":
            if name not in app.answers:
                kind = "render"
        request = self.pyramid.request.Request.blank("/" + app.answers.get(name, "x"))
        info = types.SimpleNamespace(name=name)
        if kind == "view":
            request.environ["tk.value"] = value
            got = outcome(lambda: self.respond(app, request))
            context, view = getattr(request, "seen", (Context, None))
            system.update(context=context, view=view, request=request, req=request)
        elif kind == "none":
            request = None
            # as in a script: by the registry of the thread
            app.config.begin()
            try:
                got = outcome(lambda: self.pyramid.renderers.render(name, value))
            finally:
                app.config.end()
        else:
            request.registry = app.registry
            request.context = Context(request)
            if kind == "render":
                got = outcome(lambda: self.pyramid.renderers.render(name, value, request))
            elif kind == "response":
                got = outcome(lambda: self.pyramid.renderers.render_to_response(
                    name, value, request).text)
            else:
                # the renderer of another template
                ext = sorted(app.extensions)[0]
                sysvals = dict(app.globals, view=None, context=request.context,
                               request=request, req=request, renderer_info=info)
                if os.path.splitext(name)[1] not in app.extensions:
                    name = "not" + ext
                system["renderer_name"] = name
                got = outcome(lambda: self.pyramid.renderers.get_renderer(
                    "any" + ext, registry=app.registry).fragment(name, value, sysvals))
            system.update(context=request.context, request=request, req=request)
        system["renderer_info"] = info
        system.update(values)
        return outcome(lambda: app.render(name, system)), got, value

    def respond(self, app, request):
        response = app.wsgi.invoke_subrequest(request, use_tweens=bool(hash(request.path) % 2))
        if response.status_int != 200 or not response.content_type.startswith("text/html"):
            raise Violation("answers %s %s" % (response.status, response.content_type))
        return response.text

    def refuse(self, rng, app, names, log, obs):
        name = rng.choice(sorted(names))
        if os.path.splitext(name)[1] not in app.extensions:
            return
        try:
            app[name]
        except FileNotFoundError:
            return
        bad = rng.choice(BAD)
        log.append("refusing %r for %r" % (bad, name))
        request = self.pyramid.request.Request.blank("/")
        request.registry = app.registry
        got = outcome(lambda: self.pyramid.renderers.render(name, bad, request))
        if got[:2] != ("error", "ValueError"):
            raise Violation("%r instead of a dictionary gives %s %s" % (bad, got[0], got[1]),
                            source="\n".join(log))
        obs.count("refused")

    def parallel(self, rng, disk, app, names, log, obs):
        """at once in several threads"""
        log.append("in parallel:")
        # each file is loaded before
        for name in sorted(names):
            self.request(rng, disk, app, [app], {name: names[name]}, log, obs)
        jobs = []
        for _ in range(rng.choice([2, 4])):
            name = rng.choice(sorted(names))
            if not any(b in app.paths for b in names[name]):
                continue
            if os.path.splitext(name)[1] in app.extensions:
                jobs.append((name, self.value(rng), rng.getrandbits(32)))
        results = [None] * len(jobs)
        barrier = threading.Barrier(len(jobs)) if jobs else None

        def run(i):
            import random
            name, values, seed = jobs[i]
            r = random.Random(seed)
            request = self.pyramid.request.Request.blank("/%d" % i)
            request.registry = app.registry
            request.context = Context(request)
            barrier.wait()
            results[i] = request, [outcome(lambda: self.pyramid.renderers.render(
                name, r.choice(VALUES)(values), request)) for _ in range(3)]

        threads = [threading.Thread(target=run, args=(i,)) for i in range(len(jobs))]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(interval)
        for (name, values, _), (request, got) in zip(jobs, results):
            system = {"renderer_name": name, "view": None, "context": request.context,
                      "request": request, "req": request,
                      "renderer_info": types.SimpleNamespace(name=name)}
            system.update(app.globals)
            system.update(values)
            expected = outcome(lambda: app.render(name, system))
            for g in got:
                compare(expected, g, "\n".join(log), what="%r in parallel is wrong" % name)
                obs.count("parallel")
