import collections
import os
import random
import shutil
import tempfile
import time

from ..harness import Check, Violation
from .. import env

#: what a file contains: kind, version, parent, import
File = collections.namedtuple("File", "kind version parent imp mtime")
#: a loaded template: name, path, content, entry of the parent
Entry = collections.namedtuple("Entry", "name path file parent")

NAMES = ["a.html", "sub/b.html", "c d.tk", "\xe9.html", "deep/er/e.html", "f"]
INTERVAL = 0.25
SLEEP = 0.3


class Disk:
    """The files of a history as the model knows them"""

    def __init__(self, root):
        self.root = root
        self.files = {}
        self.mtimes = collections.defaultdict(set)

    def contents(self, path, f):
        tag = os.path.relpath(path, self.root).replace("\\", "/")
        tag += "#%d" % f.version
        head = ""
        body = "[%s]" % tag
        if f.imp:
            head = '<py:import href="%s" alias="imp"/>' % f.imp
            body += "${imp.f()}"
        f_ = '<py:def function="f">(%s)</py:def>' % tag
        if f.kind == "empty":
            return "<p></html>"
        if f.kind == "invalid":
            return "<html>\n<p>${%s</p></html>" % tag
        if f.kind == "utf8":
            return b"<html>\xff</html>"
        if f.parent:
            return '<py:extends href="%s">%s%s<py:block name="b">%s</py:block></py:extends>' % (
                f.parent, head, f_, body)
        return '<html>%s%s<py:block name="b">%s</py:block>|%s</html>' % (head, f_, body, tag)


class Loaders:
    """
    The specification: from a state (what is loaded) and a call to the
    possible results and next states.
    """

    def __init__(self, disk):
        self.disk = disk
        self.paths = []
        self.reload = False

    def resolve(self, name):
        if os.path.isabs(name):
            return name if name in self.disk.files else None
        for p in self.paths:
            path = os.path.abspath(os.path.join(p, name))
            if path in self.disk.files:
                return path
        return None

    def checked(self, state):
        """the states after the files have been checked"""
        cache = dict(state)
        changed, gone = set(), set()
        for name, e in cache.items():
            f = self.disk.files.get(e.path)
            if f is None:
                gone.add(name)
            elif f.mtime != e.file.mtime:
                changed.add(name)
        if not changed and not gone:
            return {state}
        # those that extend a changed one are loaded again as well
        again = True
        stale = set(changed)
        while again:
            again = False
            for name, e in cache.items():
                if name not in stale and e.parent is not None:
                    known = cache.get(e.parent.name)
                    if e.parent.name in stale and known == e.parent:
                        stale.add(name)
                        again = True
        rv = set()
        if not changed:
            # only these files; who extends a deleted one may stay
            rv.add(frozenset((n, e) for n, e in cache.items() if n not in gone))
            deps = {n for n, e in cache.items() if self.depends(e, gone)}
            rv.add(frozenset((n, e) for n, e in cache.items() if n not in gone | deps))
        else:
            rv.add(frozenset())
            for more in ((), [n for n, e in cache.items() if self.depends(e, gone)]):
                rv.add(frozenset((n, e) for n, e in cache.items()
                                 if n not in gone and n not in stale and n not in more))
        return rv

    @staticmethod
    def depends(e, names):
        e = e.parent
        while e is not None:
            if e.name in names:
                return True
            e = e.parent
        return False

    def load(self, state, name, check):
        """
        -> {(outcome, entry or None, state, check)}; check: 'must', 'may' or
        'no' look for changes at first
        """
        states = set()
        if self.reload:
            if check in ("must", "may"):
                states |= {(s, "no") for s in self.checked(state)}
            if check in ("may", "no"):
                states.add((state, check))
        else:
            states.add((state, check))
        rv = set()
        for s, c in states:
            e = dict(s).get(name)
            if e is not None:
                rv.add(("ok", e, s, c))
                continue
            path = self.resolve(name)
            if path is None:
                rv.add(("FileNotFoundError", None, s, c))
                continue
            f = self.disk.files[path]
            if f.kind == "utf8":
                rv.add(("UnicodeDecodeError", None, s, c))
            elif f.kind in ("invalid", "empty"):
                rv.add(("TemplateSyntaxError", None, s, c))
            elif f.parent:
                for out, parent, s2, c2 in self.load(s, f.parent, c):
                    if out != "ok":
                        rv.add((out, None, s2, c2))
                    else:
                        entry = Entry(name, path, f, parent)
                        rv.add(("ok", entry, self.with_(s2, entry), c2))
            else:
                entry = Entry(name, path, f, None)
                rv.add(("ok", entry, self.with_(s, entry), c))
        return rv

    @staticmethod
    def with_(state, entry):
        cache = dict(state)
        cache[entry.name] = entry
        return frozenset(cache.items())

    def bind(self, state, entry, check):
        """
        Binding loads what is imported:
        -> {(outcome, imports as ((entry, its f), ...), state, check)}
        """
        chain = []
        e = entry
        while e is not None:
            chain.append(e)
            e = e.parent
        rv = set()
        for order in (chain, chain[::-1]) if len(chain) > 1 else (chain,):
            states = {("ok", (), state, check)}
            for e in order:
                if not e.file.imp:
                    continue
                following = set()
                for out, imports, s, c in states:
                    if out != "ok":
                        following.add((out, imports, s, c))
                        continue
                    for out2, e2, s2, c2 in self.load(s, e.file.imp, c):
                        if out2 != "ok":
                            following.add((out2, imports, s2, c2))
                            continue
                        for out3, _, s3, c3 in self.bind(s2, e2, c2):
                            following.add((out3, imports + ((e, e2),), s3, c3))
                states = following
            rv |= states
        return rv

    def tag(self, e):
        return "%s#%d" % (os.path.relpath(e.path, self.disk.root), e.file.version)

    def render(self, state, entry, check):
        rv = set()
        for out, imports, s, c in self.bind(state, entry, check):
            if out != "ok":
                rv.add((out, s))
                continue
            imports = dict(imports)
            text = "[%s]" % self.tag(entry)
            if entry.file.imp:
                text += "(%s)" % self.tag(imports[entry])
            root = entry
            while root.parent is not None:
                root = root.parent
            rv.add(("<html>%s|%s</html>" % (text, self.tag(root)), s))
        return rv


class History:
    def __init__(self, check, root, rng):
        self.rng = rng
        self.root = root
        os.makedirs(root)
        self.disk = Disk(root)
        self.model = Loaders(self.disk)
        self.version = 0
        self.log = []
        r = rng
        self.wide = r.random() < 0.06
        self.recent = None
        n = r.choice([1, 2, 2, 3, 4])
        if self.wide:
            n = r.choice([4, 7, 12])
        self.dirs = [os.path.join(root, "p%d" % i) for i in range(n)]
        for d in self.dirs:
            if r.random() < 0.8:
                os.makedirs(d)
        given = [self.spelling(d) for d in self.dirs[:r.randint(1, n)]]
        self.model.paths = list(given)
        self.loader = check.FileLoader(r.choice([list, tuple, iter])(given))
        if r.random() < 0.3:
            self.loader = check.FileLoader()
            for d in given:
                self.loader.add_path(d)
        self.names = r.sample(NAMES, r.choice([2, 3, 4, 5]))
        if self.wide:
            self.names += ["n%d.html" % i for i in range(r.choice([20, 40, 150]))]
        self.states = {frozenset()}
        self.last = time.time()
        self.held = []
        self.counts = collections.Counter()
        self.shapes = set()
        if r.random() < 0.8:
            self.set_reload(True)
        for i, name in enumerate(self.names):
            for d in self.dirs:
                if r.random() < (0.15 if self.wide else 0.55):
                    self.write(os.path.join(d, name), i)
        if self.wide:
            self.load_all()

    def load_all(self):
        """many templates are loaded at once"""
        served = {}
        for i, name in enumerate(self.names):
            served[name] = self.load(name)
        if self.model.reload:
            return
        for name, tmpl in served.items():
            if tmpl is not None and self.loader.load(name) is not tmpl:
                raise Violation("another object is served for %s without reloading, after %d others"
                                % (name, len(served)))
            self.counts["many_loaded"] += tmpl is not None

    def spelling(self, d):
        r = self.rng.random()
        if r < 0.3:
            return os.path.relpath(d)
        if r < 0.4:
            return d + "/"
        if r < 0.5:
            return os.path.join(d, "..", os.path.basename(d))
        return d

    def set_reload(self, flag):
        self.log.append("set_reload(%s)" % flag)
        self.loader.set_reload(flag)
        self.model.reload = flag

    # -- the files
    def request(self, i):
        """a name for the i-th template"""
        name = self.names[i]
        r = self.rng.random()
        if r < 0.12:
            return os.path.join(self.rng.choice(self.dirs), name)
        if r < 0.17:
            return "./" + name
        if r < 0.2 and "/" in name:
            return os.path.dirname(name) + "/../" + name
        return name

    def write(self, path, i):
        r = self.rng
        self.version += 1
        kind = r.choice(["ok"] * 17 + ["invalid", "utf8", "empty"])
        parent = imp = None
        if i and r.random() < (0.1 if self.wide else 0.45):
            parent = self.request(r.randrange(i))
        if i and r.random() < (0.1 if self.wide else 0.3):
            imp = self.request(r.randrange(i))
        old = self.disk.files.get(path)
        base = old.mtime if old else r.choice([1.7e9, time.time(), 1e9])
        while True:
            mtime = base + r.choice([0.001, -0.001, 0.25, -0.25, 1, -1, 3600, -3600, 1e6, -1e6,
                                     -base, 1e8 - base, r.uniform(-10, 10)])
            mtime = float(round(abs(mtime) * 1000)) / 1000
            if mtime not in self.disk.mtimes[path]:
                break
        f = File(kind, self.version, parent, imp, 0)
        data = self.disk.contents(path, f)
        if isinstance(data, str):
            data = data.encode("utf-8")
        folder = os.path.dirname(path)
        while folder != self.root:
            # what is there instead of a dropped folder
            if os.path.lexists(folder) and not os.path.isdir(folder):
                os.unlink(folder)
            folder = os.path.dirname(folder)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        how = r.choice(["inplace", "inplace", "replace", "unlink", "symlink"])
        target = path
        if how == "symlink":
            target = os.path.join(self.root, "data%d" % self.version)
        elif how == "replace":
            target = path + ".new"
        if how == "unlink" and os.path.lexists(path):
            os.unlink(path)
        if how == "inplace" and os.path.islink(path):
            os.unlink(path)
        with open(target, "wb") as fp:
            fp.write(data)
        ns = round(mtime * 1000) * 1000000
        os.utime(target, ns=(ns, ns))
        if how == "symlink":
            os.symlink(target, path + ".new")
        if how in ("symlink", "replace"):
            os.replace(path + ".new", path)
        mtime = os.stat(path).st_mtime
        self.disk.mtimes[path].add(mtime)
        self.disk.files[path] = f._replace(mtime=mtime)
        self.log.append("write %s %s mtime=%s (%s)" % (
            os.path.relpath(path, self.root), data, mtime, how))
        self.counts["writes"] += 1

    def mutate(self):
        r = self.rng
        k = r.random()
        i = r.randrange(len(self.names))
        path = os.path.join(r.choice(self.dirs), self.names[i])
        if k < 0.6:
            existing = [p for p in self.disk.files if p.endswith(self.names[i])
                        and os.path.relpath(p, self.root).partition("/")[2] == self.names[i]]
            if existing and r.random() < 0.7:
                path = r.choice(existing)
            self.write(path, i)
            self.recent = i
        elif k < 0.8:
            if r.random() < 0.08:
                self.drop_folder(os.path.dirname(path))
            elif path in self.disk.files:
                os.unlink(path)
                del self.disk.files[path]
                self.log.append("delete %s" % os.path.relpath(path, self.root))
                self.counts["deletes"] += 1
        elif k < 0.9:
            rest = self.dirs[len(self.model.paths):]
            if rest:
                more = [self.spelling(d) for d in rest[:r.randint(1, len(rest))]]
                self.loader.add_path(*more)
                self.model.paths += more
                self.log.append("add_path(%r)" % (more,))
        elif k < 0.95:
            self.set_reload(not self.model.reload)

    def drop_folder(self, folder):
        """a folder is deleted; something else may come in its place"""
        if not os.path.isdir(folder):
            return
        shutil.rmtree(folder)
        gone = [p for p in self.disk.files if p.startswith(folder + "/")]
        for p in gone:
            del self.disk.files[p]
        place = self.rng.choice(["nothing", "a file", "a link to itself"])
        if place == "a file":
            with open(folder, "w") as fp:
                fp.write("<p></p>")
        elif place == "a link to itself":
            os.symlink(os.path.basename(folder), folder)
        self.log.append("replace the folder %s by %s" % (
            os.path.relpath(folder, self.root), place))
        self.counts["dropped_folders"] += 1
        self.counts["deletes"] += len(gone)

    # -- the calls
    def check_mode(self, before):
        if not self.model.reload:
            return "no"
        return "must" if before - self.last >= INTERVAL + 0.02 else "may"

    def load(self, name=None):
        r = self.rng
        given = name is not None
        if not given:
            i = r.randrange(len(self.names))
            if self.wide and self.recent is not None and r.random() < 0.7:
                i = self.recent
            name = self.request(i)
        if not given and r.random() < 0.05:
            name = r.choice(["missing.html", os.path.join(self.root, "no.html"), "p0/x"])
        mode = self.check_mode(time.time())
        self.log.append("load(%r) %s" % (os.path.relpath(name, self.root)
                                         if os.path.isabs(name) else name, mode))
        tmpl = None
        try:
            tmpl = self.loader.load(name)
            got = "ok"
        except Exception as e:
            got = type(e).__name__
            if got == "TemplateSyntaxError":
                if e.filename not in self.disk.files:
                    raise Violation("a syntax error is reported for %r" % (e.filename,))
        if self.model.reload:
            self.last = time.time()
        self.counts["loads"] += 1
        self.counts["load_errors"] += got != "ok"
        results = set()
        for s in self.states:
            results |= self.model.load(s, name, mode)
        allowed = {x[0] for x in results}
        results = {x for x in results if x[0] == got}
        self.shapes.add((mode, got, len(allowed)))
        if not results:
            raise Violation("loading %s gives %s, expected %s" % (
                name, got, " or ".join(sorted(allowed))))
        if tmpl is None:
            self.states = {x[2] for x in results}
            return None
        # what has been loaded is told by rendering it
        if not self.model.reload and self.loader.load(name) is not tmpl:
            raise Violation("another object is served for %s without reloading" % name)
        before = time.time()
        text = self.rendered(tmpl)
        mode = self.check_mode(before)
        final = {}
        for _, e, s, c in results:
            for out, s2 in self.model.render(s, e, mode if mode == "must" else c):
                final.setdefault(out, []).append((e, s2))
        if self.model.reload:
            self.last = time.time()
        if text not in final:
            raise Violation("%s is served as %s, expected %s" % (
                name, text, " or ".join(sorted(final))))
        self.counts["renders"] += 1
        self.counts["distinguishing"] += len({e for x in final.values() for e, _ in x}) > 1
        self.states = {s for _, s in final[text]}
        entries = {e for e, _ in final[text]}
        if len(entries) == 1 and len(self.held) < 12:
            self.held.append((tmpl, entries.pop()))
        if len(self.states) > 200:
            raise Violation("too many states")
        return tmpl

    def rendered(self, tmpl):
        try:
            return tmpl.render({})
        except Exception as e:
            return type(e).__name__

    def render_held(self):
        """templates that are held stay what they are"""
        tmpl, entry = self.rng.choice(self.held)
        mode = self.check_mode(time.time())
        text = self.rendered(tmpl)
        if self.model.reload:
            self.last = time.time()
        self.log.append("render held %s" % self.model.tag(entry))
        results = set()
        for s in self.states:
            results |= self.model.render(s, entry, mode)
        rest = {s for out, s in results if out == text}
        if not rest:
            raise Violation("the template %s held renders %s, expected %s" % (
                self.model.tag(entry), text, " or ".join(sorted({x[0] for x in results}))))
        self.states = rest
        self.counts["held"] += 1

    def step(self):
        r = self.rng
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            self.mutate()
        for _ in range(r.choice([1, 2, 3, 5])):
            if self.held and r.random() < 0.15:
                self.render_held()
            else:
                self.load()
            if r.random() < 0.1:
                self.mutate()


class CHECK(Check):
    id = "C10"
    quick = 32
    thorough = 480
    batch = 60
    case_timeout = 120
    buffers = "cccccccp"
    rule = ("histories of about 14 steps of writing (in place, by rename, by symlink, with the "
            "modification time going forward or back by 1 ms to years), deleting (one by one or with "
            "their folder) and loading real files with extends and imports below up to four search paths, reload switched on and "
            "off, run against a nondeterministic model of the loader in real time. Non-trivial: a "
            "history with writes, deletions and at least ten renders")
    floors = {"histories": 500, "dropped_folders": 150, "many_loaded": 150, "renders": 20000, "writes": 10000, "deletes": 1000, "must": 5000}

    def worker_setup(self):
        from tonnikala.loader import FileLoader
        self.FileLoader = FileLoader
        self.base = tempfile.mkdtemp(dir=env.scratch_dir())
        os.chdir(self.base)

    def case(self, rng, index, tier):
        return rng.getrandbits(60), rng.choice([12, 14, 18])

    def describe(self, case):
        return getattr(self, "failed", repr(case))

    def run(self, case, obs):
        seed, steps = case
        root = tempfile.mkdtemp(dir=self.base)
        rng = random.Random(seed)
        try:
            histories = [History(self, os.path.join(root, "h%d" % i),
                                 random.Random(rng.getrandbits(60))) for i in range(self.batch)]
            for step in range(steps):
                for h in histories:
                    try:
                        h.step()
                    except Violation as e:
                        self.failed = "\n".join(h.log)
                        e.detail["history"] = "\n".join(h.log[-25:])
                        raise
                time.sleep(SLEEP if rng.random() < 0.7 else 0.05)
            for h in histories:
                obs.counts.update(h.counts)
                obs.count("histories")
                for s in h.shapes:
                    obs.state("load_shapes", s)
                obs.count("must", sum(" must" in x for x in h.log))
                if h.counts["renders"] >= 10 and h.counts["deletes"] and h.counts["writes"]:
                    obs.distinct(h.log)
                    obs.sample("\n".join(h.log[:40]))
        finally:
            shutil.rmtree(root, ignore_errors=True)
