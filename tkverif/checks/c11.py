import bisect
import collections
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time

from ..harness import Check, Violation
from .. import env

INTERVAL = 0.25
SLEEP = 0.3

#: name -> (kind, parent, import); the names only refer to earlier ones
SETS = [
    {"base.html": ("plain", None, None), "mid.html": ("child", "base.html", None),
     "leaf.html": ("child", "mid.html", None), "lib.html": ("plain", None, None),
     "user.html": ("plain", None, "lib.html"), "both.html": ("child", "base.html", "lib.html")},
    {"b.html": ("plain", None, None), "c1.html": ("child", "b.html", None),
     "c2.html": ("child", "b.html", None), "c3.html": ("child", "b.html", "c1.html")},
    {"l1.html": ("plain", None, None), "l2.html": ("plain", None, "l1.html"),
     "l3.html": ("child", "l2.html", "l2.html"), "solo.html": ("plain", None, None)},
    {"x/base.html": ("plain", None, None), "x/page.html": ("child", "x/base.html", None)},
]

_tag = re.compile(r"&lt;(\S+?)#(\d+)&gt;")


def source(name, version, spec):
    kind, parent, imp = spec
    head = '<py:import href="%s" alias="imp"/>' % imp if imp else ""
    call = "${imp.f()}" if imp else ""
    tag = "&lt;%s#%d>" % (name, version)
    f = '<py:def function="f">%s</py:def>' % tag
    # a bit of volume, so that compiling takes a while
    filler = "".join('<p py:if="yes%d" class="${1}">%d</p>' % (i, i) for i in range(6)).replace(
        "yes", "not ")
    filler = filler if kind == "plain" else ""
    if parent:
        return '<py:extends href="%s">%s%s<py:block name="b">{%s%s}</py:block></py:extends>' % (
            parent, head, f, tag, call)
    return '<html>%s%s<py:block name="b">{%s%s}</py:block>%s[%s]</html>' % (
        head, f, tag, call, filler, tag)


def expected_names(specs, name):
    """the files whose versions the output shows, in order"""
    kind, parent, imp = specs[name]
    rv = [name]
    if imp:
        rv.append(imp)
    root = name
    while specs[root][1]:
        root = specs[root][1]
    rv.append(root)
    return rv


class Writer:
    """Changes files atomically and records when"""

    def __init__(self, root, specs, rng):
        self.root = root
        self.specs = specs
        self.rng = rng
        self.versions = collections.defaultdict(list)   # name -> [(start, end, what)]
        self.mtime = 1.7e9
        self.lock = threading.Lock()

    def write(self, name, what="ok"):
        """what: ok, invalid, missing"""
        path = os.path.join(self.root, name)
        r = self.rng
        n = len(self.versions[name])
        self.mtime += r.choice([1, -1]) * r.uniform(1, 1000)
        ns = int(self.mtime * 1000) * 1000000 + n % 1000 * 1000000
        if what != "missing":
            text = source(name, n, self.specs[name]) if what == "ok" else "<html>${</html>"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with _open(path + ".new", "w") as f:
                f.write(text)
            os.utime(path + ".new", ns=(ns, ns))
        start = time.monotonic()
        if what == "missing":
            os.unlink(path)
        else:
            os.replace(path + ".new", path)
        self.versions[name].append((start, time.monotonic(), what))


_open = open
_sleep = time.sleep


class CHECK(Check):
    id = "C11"
    quick = 120
    thorough = 2400
    case_timeout = 120
    buffers = "cccccccp"
    rule = ("3 to 8 threads load and render sets of templates that extend and import each other through "
            "one loader, with delays injected at random lines of the loader and tiny switch intervals, "
            "while another thread replaces, deletes and breaks files; an offline checker compares the "
            "versions seen in the outputs with the recorded times of the changes. Non-trivial: a run "
            "with a change of a file that is in use")
    floors = {"loads": 20000, "changes": 1500, "settled": 1000, "switches": 5000}

    def worker_setup(self):
        import tonnikala.loader
        self.FileLoader = tonnikala.loader.FileLoader
        self.loader_file = tonnikala.loader.__file__
        self.base = tempfile.mkdtemp(dir=env.scratch_dir())

    def case(self, rng, index, tier):
        specs = dict(rng.choice(SETS))
        extra = []
        if rng.random() < 0.5:
            specs["flap.html"] = ("plain", None, None)
            extra.append("flap.html")
        return (specs, extra, rng.choice([3, 4, 6, 8]), rng.random() < 0.8, rng.choice([1, 2, 3]),
                rng.choice([0.001, 0.004, 0.02, 0.1]), rng.choice([0.0, 0.005, 0.03, 0.1]),
                rng.getrandbits(50))

    def describe(self, case):
        return "templates %r, flapping %r, %d threads, reload %s, %d rounds, seed %d" % (
            case[0], case[1], case[2], case[3], case[4], case[7])

    def run(self, case, obs):
        specs, extra, nthreads, reload, rounds, rate, pace, seed = case
        rng = random.Random(seed)
        root = tempfile.mkdtemp(dir=self.base)
        writer = Writer(root, specs, rng)
        steady = [n for n in specs if n not in extra]
        for name in specs:
            writer.write(name)
        loader = self.FileLoader([os.path.join(root, "nothing"), root])
        loader.set_reload(reload)
        log = []            # (thread, start, end of load, end of render, name, text or error)
        schedule = []
        loader_file = self.loader_file

        def make_tracer(r, active):
            def local(frame, event, arg):
                if active[0] and r.random() < rate:
                    _sleep(r.choice([0, 0, 0.0005, 0.002, 0.01]))
                return local

            def tracer(frame, event, arg):
                if frame.f_code.co_filename == loader_file:
                    return local
                return None
            return tracer

        def call(ident, name, keep=None):
            start = time.monotonic()
            loaded = 0
            try:
                tmpl = loader.load(name)
                loaded = time.monotonic()
                if keep is not None:
                    keep.append(tmpl)
                text = tmpl.render({})
            except Exception as e:
                text = e
                tmpl = None
            log.append((ident, start, loaded or time.monotonic(), time.monotonic(), name, text,
                        id(tmpl)))
            schedule.append(ident)

        objects = []
        old = sys.getswitchinterval()
        try:
            for _ in range(rounds):
                stop = threading.Event()
                active = [True]

                def reader(ident, r):
                    sys.settrace(make_tracer(r, active))
                    try:
                        while not stop.is_set():
                            call(ident, r.choice(list(specs)), objects)
                            if r.random() < 0.2:
                                _sleep(r.choice([0, 0.001, 0.01]))
                    finally:
                        sys.settrace(None)

                sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 0.005]))
                threads = [threading.Thread(target=reader, daemon=True,
                                            args=(i, random.Random(rng.getrandbits(40))))
                           for i in range(nthreads)]
                for t in threads:
                    t.start()
                end = time.monotonic() + rng.choice([0.3, 0.6, 1.0])
                burst = rng.random() < 0.4
                while time.monotonic() < end:
                    name = rng.choice(list(specs))
                    what = "ok"
                    if name in extra:
                        what = rng.choice(["ok", "invalid", "missing"])
                        if what == "missing" and writer.versions[name][-1][2] == "missing":
                            what = "ok"
                    writer.write(name, what)
                    obs.count("changes")
                    if burst and rng.random() < 0.7:
                        continue
                    _sleep(pace + rng.choice([0, 0, 0.02, 0.2]))
                for name in extra:
                    writer.write(name)
                stop.set()
                for t in threads:
                    t.join(60)
                    if t.is_alive():
                        raise Violation("a thread does not come back from the loader", key="hang")
                active[0] = False
                sys.setswitchinterval(old)
                # settled: only the latest, all the same object
                _sleep(SLEEP)
                if reload:
                    self.settled(specs, writer, loader, nthreads, rng, rate, make_tracer, call, log,
                                 case, obs)
        finally:
            sys.setswitchinterval(old)
            shutil.rmtree(root, ignore_errors=True)
        self.analyse(specs, extra, writer, log, reload, case, obs)
        switches = sum(a != b for a, b in zip(schedule, schedule[1:]))
        obs.count("switches", switches)
        obs.count("loads", len(log))
        obs.state("schedules", schedule[:3000])
        obs.distinct(seed)
        obs.sample(self.describe(case) + ": %d loads, %d switches" % (len(log), switches))

    def settled(self, specs, writer, loader, nthreads, rng, rate, make_tracer, call, log, case, obs):
        names = list(specs)
        barrier = threading.Barrier(nthreads)
        mark = len(log)
        held = collections.defaultdict(set)
        keep = []

        def first(ident, r, mine):
            sys.settrace(make_tracer(r, [True]))
            try:
                barrier.wait(30)
                for name in mine:
                    call(ident, name, keep)
            finally:
                sys.settrace(None)

        same = rng.random() < 0.5
        order = rng.sample(names, len(names))
        threads = []
        for i in range(nthreads):
            mine = order if same else rng.sample(names, len(names))
            threads.append(threading.Thread(
                target=first, daemon=True, args=(i, random.Random(rng.getrandbits(40)), mine)))
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise Violation("a thread does not come back from the loader", key="hang")
        for rec in log[mark:]:
            self.latest(specs, writer, rec, case)
            obs.count("settled")
        for _ in range(2):
            mark = len(log)
            threads = [threading.Thread(target=lambda i=i: [call(i, n, keep) for n in names], daemon=True)
                       for i in range(nthreads)]
            for t in threads:
                t.start()
            for t in threads:
                t.join(60)
            for rec in log[mark:]:
                self.latest(specs, writer, rec, case)
                held[rec[4]].add(rec[6])
        for name, ids in held.items():
            if len(ids) != 1:
                raise Violation("%d different objects are served for %s after the files stopped "
                                "changing" % (len(ids), name), case=self.describe(case))

    def latest(self, specs, writer, rec, case):
        ident, start, loaded, end, name, text, _ = rec
        if isinstance(text, Exception):
            raise Violation("loading %s fails after the files stopped changing: %s: %s" % (
                name, type(text).__name__, text), case=self.describe(case))
        want = [(n, len(writer.versions[n]) - 1) for n in expected_names(specs, name)]
        got = [(n, int(v)) for n, v in _tag.findall(text)]
        if got != want:
            raise Violation("after the files stopped changing, %s is served with %s instead of %s"
                            % (name, got, want), case=self.describe(case), output=text)

    def analyse(self, specs, extra, writer, log, reload, case, obs):
        durations = [end - start for _, start, _, end, _, _, _ in log]
        # a load in progress may store what it has read before
        slack = INTERVAL + 2 * max(durations) + 0.1
        seen = {}
        for rec in sorted(log, key=lambda r: r[1]):
            ident, start, loaded, end, name, text, obj = rec
            if isinstance(text, Exception):
                kind = {"FileNotFoundError": "missing", "TemplateSyntaxError": "invalid"}.get(
                    type(text).__name__)
                if kind and name in extra and self.current(
                        writer.versions[name], kind, start - slack, end):
                    obs.count("expected_errors")
                    continue
                raise Violation("loading or rendering %s fails: %s: %s" % (
                    name, type(text).__name__, text), case=self.describe(case))
            names = expected_names(specs, name)
            got = _tag.findall(text)
            if [n for n, _ in got] != names or not text.startswith("<html>") \
                    or not text.endswith("]</html>"):
                raise Violation("loading %s gives an unusable template" % name, output=text,
                                case=self.describe(case))
            for n, v in got:
                history = writer.versions[n]
                v = int(v)
                if history[v][0] > end:
                    raise Violation("a version of the future", case=self.describe(case))
                if reload and v + 1 < len(history) and history[v + 1][1] < start - slack:
                    raise Violation(
                        "%s is served with %s, version %d, %.3f s after it was replaced" % (
                            name, n, v, start - history[v + 1][1]), case=self.describe(case))
            obs.count("checked")
            if not reload:
                if name in seen and seen[name][0] < start and seen[name][1] != obj:
                    raise Violation("another object is served for %s without reloading" % name,
                                    case=self.describe(case))
                if name not in seen or loaded < seen[name][0]:
                    seen[name] = loaded, obj

    @staticmethod
    def current(history, what, since, until):
        for i, (start, end, w) in enumerate(history):
            if w == what and start <= until and (
                    i + 1 == len(history) or history[i + 1][1] >= since):
                return True
        return False
