import contextlib
import io
import os
import pickle
import random
import re
import struct
import subprocess
import sys
import threading
import time
import traceback

from ..harness import Check, Inconclusive, Violation
from .. import env, gen, js, model
from .common import in_fork, inserted
from . import c12, c17

_address = re.compile(r"(?i)0x[0-9a-f]{6,}")
_internal = re.compile(r"__TK__\d+__")
_var = re.compile(r"^(\s*var )([^=;]*);$", re.M)
_bind = re.compile(r"^\s*\S+ = __TK__ctxbind\(.*$")

KINDS = ["py"] * 5 + ["tal", "i18n", "fails", "fails", "bad", "bad", "bad", "js", "js", "badjs"]
BAD_JS = ["${a b}", "${a +}", "$", "<p js:if=''>x</p>", "<p js:if='a b'>x</p>", "</b>", "<b>",
          "<js:nope/>", "${(a}", "<p js:for='a b'/>", "<js:for each=''/>", "${var}"]


class Interrupt(BaseException):
    """raised in the middle of a load"""


class Function:
    """a function whose text is without an address"""

    def __init__(self, function):
        self.function = function

    def __call__(self, *a, **kw):
        return self.function(*a, **kw)

    def __repr__(self):
        return "<function %s>" % self.function.__name__


class Entry:
    """what is loaded"""

    def __init__(self, kind, source, salt):
        self.kind, self.source, self.salt = kind, source, salt


def canonical(code):
    """
    A module up to the order of its variables and the numbers of the internal
    ones
    """
    code = _var.sub(lambda m: m.group(1) + ", ".join(
        sorted(x.strip() if not _internal.search(x) else "~" for x in m.group(2).split(","))) + ";", code)
    lines, run = [], []
    for line in code.split("\n") + [""]:
        if _bind.match(line):
            run.append(line)
            continue
        lines += sorted(run)
        run = []
        lines.append(line)
    numbers = {}
    return _internal.sub(lambda m: "__TK__%d__" % numbers.setdefault(m.group(), len(numbers)),
                         "\n".join(lines))


def generate(rng):
    """the entries of a case"""
    rv = []
    for i in range(rng.choice([3, 5, 7])):
        kind = rng.choice(KINDS)
        salt = rng.getrandbits(40)
        if kind in ("js", "badjs"):
            x = js.JsExprGen(rng)
            g = gen.TemplateGen(rng, x, dual=True, depth=rng.choice([2, 3]), budget=rng.choice([5, 12]), large=0.03)
            source = model.serialize(g.template(), rng, "js")
            if kind == "badjs":
                source = inserted(source, rng.choice(BAD_JS))
        else:
            tal = kind == "tal"
            x = gen.ExprGen(rng)
            cls = gen.TemplateGen
            if kind == "i18n":
                x = c17.MsgExprGen(rng, set())
                cls = c17.I18nGen
            g = cls(rng, x, tal=tal, controls=("if", "for") if tal else (
                "if", "unless", "for", "def", "with", "block"), code=not tal and rng.random() < 0.2,
                depth=rng.choice([2, 3, 4]), budget=rng.choice([8, 20, 40]), large=0.03)
            source = model.serialize(g.template(), rng, "tal" if tal else "py")
            if kind == "fails":
                source = inserted(source, rng.choice(["${1/0}", "${nosuch}", "\n${boom()}", "${(\nboom(),\n1)}",
                                                   "<b py:if='yes'>${none.x}</b>"]))
            elif kind == "bad":
                if rng.random() < 0.7:
                    source = inserted(source, c12.defect(rng, False)[1])
                else:
                    source = c12.CHECK().damage(rng, source)
        rv.append(Entry(kind, source, salt))
        if rng.random() < 0.25:
            # the same text, with other options or only under another name
            other = kind if rng.random() < 0.3 else rng.choice(["py", "i18n", "tal", "js"])
            rv.append(Entry(other, source, rng.choice([salt, rng.getrandbits(40)])))
    return rv


class Loaders:
    def __init__(self, debug=False):
        from tonnikala.loader import FileLoader, JSLoader, Loader
        self.py = Loader(debug=debug)
        self.file = FileLoader(debug=debug)
        self.tal = Loader(debug=debug, syntax="chameleon")
        self.i18n = Loader(debug=debug, translatable=True)
        self.js = JSLoader(debug=debug)

    def of(self, entry, pick=0):
        return {"js": self.js, "badjs": self.js, "tal": self.tal, "i18n": self.i18n}.get(
            entry.kind, self.file if pick else self.py)


def load(entry, name, loaders, pick=0):
    """-> template or code, or the description of the failure"""
    try:
        rv = loaders.of(entry, pick).load_string(entry.source, filename=name)
    except Exception as e:
        if type(e).__name__ == "TemplateSyntaxError":
            return None, ("rejected", type(e).__name__, str(e), e.lineno, e.filename)
        return None, ("rejected", type(e).__name__)
    if isinstance(rv, str):
        return None, ("code", canonical(rv))
    return rv, None


def render(template, entry, name, **extra):
    rng = random.Random(entry.salt)
    ctx = dict(gen.make_context(rng), boom=gen.boom, _=lambda s: "_" + s, gettext=lambda s: "T" + s,
               pgettext=lambda c, s: "P" + s, ngettext=lambda a, b, n: a if n == 1 else b,
               egettext=lambda s: "E" + s, **extra)
    for k in ("f1", "add", "ident", "boom"):
        ctx[k] = Function(ctx[k])
    try:
        return "text", _address.sub("0x", template.render(ctx))
    except Exception as e:
        lines = [(f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__) if f.filename == name]
        kind = type(e).__name__
        return "failed", kind, _address.sub("0x", str(e)) if kind != "RecursionError" else "", lines


def result(entry, name, loaders, pick=0, **extra):
    template, rv = load(entry, name, loaders, pick)
    if rv is None:
        rv = render(template, entry, name, **extra)
    return rv


def names(i):
    return os.path.join(env.scratch_dir(), "c23-%d-e%d.html" % (owner or os.getpid(), i))


#: the process the names of templates are for
owner = None


class Solitary:
    """
    A process of another hash seed that loads every template in a fork of its
    own, in which nothing else was ever loaded
    """

    def __init__(self):
        self.process = None

    def start(self):
        # the locale's encoding is ASCII
        e = dict(os.environ, PYTHONHASHSEED=str(random.SystemRandom().randrange(1, 10 ** 6)),
                 LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        self.process = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "tkverif.checks.c23"], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, cwd=env.VERIF, env=e)

    def stop(self):
        if self.process:
            self.process.kill()
            self.process.wait()
            self.process.stdin.close()
            self.process.stdout.close()
            self.process = None

    def call(self, entries):
        if self.process is None:
            self.start()
        data = pickle.dumps(entries)
        try:
            self.process.stdin.write(struct.pack("q", len(data)) + data)
            self.process.stdin.flush()
            size = self.process.stdout.read(8)
            if len(size) < 8:
                raise Inconclusive("the reference process ended")
            return pickle.loads(self.process.stdout.read(struct.unpack("q", size)[0]))
        except BaseException:
            self.stop()
            raise


def serve():
    global owner
    owner = os.getppid()
    env.setup("c")
    import tonnikala.languages.javascript.generator  # noqa: the lexer and its tables are imported
    import slimit.parser  # noqa
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    loaders = Loaders()
    files = FromFiles()
    while True:
        size = sys.stdin.buffer.read(8)
        if len(size) < 8:
            return
        entries = pickle.loads(sys.stdin.buffer.read(struct.unpack("q", size)[0]))
        rv = [in_fork(lambda: result(e, names(i), files if files.suits(e) else loaders))
              for i, e in enumerate(entries)]
        data = pickle.dumps(rv)
        out.write(struct.pack("q", len(data)) + data)
        out.flush()


class FromFiles:
    """loads from a file what is loaded from a string elsewhere"""

    def suits(self, entry):
        return entry.salt % 2 and entry.kind not in ("js", "badjs", "tal", "i18n") \
            and not any("\ud800" <= c < "\ue000" or c == "\r" for c in entry.source)

    def of(self, entry, pick=0):
        return self

    def load_string(self, source, filename):
        from tonnikala.loader import FileLoader
        with open(filename, "wb") as f:
            f.write(source.encode("utf-8"))
        try:
            return FileLoader().load(filename)
        finally:
            os.unlink(filename)


class CHECK(Check):
    id = "C23"
    quick = 500
    thorough = 12000
    case_timeout = 60
    rule = ("3 to 7 templates (both syntaxes, JavaScript, translated, failing, invalid) are loaded and rendered "
            "in processes of their own with another hash seed and an ASCII locale, some of them from files; then all of them in a process that has "
            "loaded all earlier ones: in random order, rendered later, with debug, after loads that were "
            "interrupted at random lines or ran out of stack, while another renders, and in up to 8 threads "
            "with forced switches. Every text, error, line and module must be the same. "
            "Non-trivial: a threaded case with at least three switches between threads")
    floors = {"solitary": 1500, "sequential": 2500, "threaded": 5000, "interrupted": 700, "nested": 500,
              "modules": 1500, "switches": 3000, "rejected": 1500, "exhausted": 50}

    def load(self, w):
        super().load(w)
        sys.setrecursionlimit(1500)

    def worker_setup(self):
        self.solitary = Solitary()
        self.loaders = Loaders()
        self.debug = Loaders(True)
        # generators that are closed while the tracer interrupts
        sys.unraisablehook = lambda a: None
        self.package = os.path.join(env.REPO, "tonnikala") + os.sep

    def worker_teardown(self):
        self.solitary.stop()

    def case(self, rng, index, tier):
        return generate(rng), rng.getrandbits(40)

    def describe(self, case):
        return "\n".join("=== %s\n%s" % (e.kind, e.source) for e in case[0])

    def run(self, case, obs):
        entries, salt = case
        rng = random.Random(salt)
        expected = self.solitary.call(entries)
        obs.count("solitary", len(entries))
        self.wrong = []

        def check(i, got, how, count=True):
            if count:
                obs.count(how)
            obs.count({"code": "modules", "text": "texts"}.get(got[0], got[0]))
            if got != expected[i]:
                self.wrong.append((how, i, expected[i], got))

        def verdict():
            if self.wrong:
                how, i, want, got = self.wrong[0]
                raise Violation("a template of kind %s that is %s gives %s instead of %s" % (
                    entries[i].kind, how, repr(got)[:400], repr(want)[:400]), source=entries[i].source,
                    expected=want, got=got)

        def one(how):
            i = rng.randrange(len(entries))
            loaders = self.debug if rng.random() < 0.15 else self.loaders
            if rng.random() < 0.2:
                loaders = Loaders(rng.random() < 0.2)
            with contextlib.redirect_stdout(io.StringIO()):
                check(i, result(entries[i], names(i), loaders, rng.random() < 0.3), how)

        later = []
        for _ in range(rng.choice([6, 10, 14])):
            k = rng.random()
            if k < 0.3:
                self.interrupt(rng, entries, obs)
            elif k < 0.4:
                self.exhaust(rng, entries, obs)
            elif k < 0.6:
                i = rng.randrange(len(entries))
                template, rv = load(entries[i], names(i), self.loaders)
                if rv is None:
                    later.append((i, template))
                else:
                    check(i, rv, "sequential")
            else:
                one("sequential")
            verdict()
        self.nested(rng, entries, check, obs)
        verdict()
        rng.shuffle(later)
        for i, template in later:
            check(i, render(template, entries[i], names(i)), "rendered later")
        verdict()
        switches = self.threads(rng, entries, check, obs)
        verdict()
        one("sequential")
        verdict()
        obs.count("switches", switches)
        if switches >= 3:
            obs.distinct(self.describe(case))
            obs.sample("%d switches between threads loading\n%s" % (switches, self.describe(case)[:1000]))

    def interrupt(self, rng, entries, obs):
        """a load that ends at a random line"""
        entry = rng.choice(entries)
        left = int(10 ** rng.uniform(0, 4))
        package = self.package

        def tracer(frame, event, arg):
            nonlocal left
            if not frame.f_code.co_filename.startswith(package):
                return None
            left -= 1
            if left < 0:
                raise Interrupt()
            return tracer

        sys.settrace(tracer)
        try:
            load(entry, "interrupted.html", self.loaders)
        except Interrupt:
            obs.count("interrupted")
        finally:
            sys.settrace(None)

    def exhaust(self, rng, entries, obs):
        """a load that has little stack left"""
        entry = rng.choice(entries)

        def deep(n):
            if n:
                return deep(n - 1)
            return load(entry, "exhausted.html", self.loaders)

        try:
            _, rv = deep(1500 - rng.randint(30, 150))
        except RecursionError:
            rv = "rejected", "RecursionError"
        if rv and rv[0] == "rejected" and rv[1] == "RecursionError":
            obs.count("exhausted")

    def nested(self, rng, entries, check, obs):
        """loads while others are being rendered"""
        depth = 0

        def now():
            nonlocal depth
            if depth >= 3:
                return ""
            depth += 1
            try:
                i = rng.randrange(len(entries))
                check(i, result(entries[i], names(i), self.loaders), "nested")
            finally:
                depth -= 1
            return "!"

        source = "<p>${now()}<b py:for='i in (1, 2)' class='$i ${now()}'>${now()}</b>${f()}<i py:def='f()'>${now()}</i></p>"
        text = self.loaders.py.load_string(source).render({"now": now})
        want = "<p>!<b class=\"1 !\">!</b><b class=\"2 !\">!</b><i>!</i></p>"
        if text != want:
            raise Violation("loading during the rendering changes it", source=source, got=text, expected=want)

    def threads(self, rng, entries, check, obs):
        n = rng.choice([2, 4, 8])
        log = []
        plans = [(random.Random(rng.getrandbits(40)), [rng.randrange(len(entries)) for _ in range(
            rng.choice([2, 4]))]) for _ in range(n)]
        barrier = threading.Barrier(n)
        traced = rng.random() < 0.7
        own = rng.random() < 0.5
        package = self.package
        failures = []

        def work(mine, plan):
            def tracer(frame, event, arg):
                if not frame.f_code.co_filename.startswith(package):
                    return None
                if mine.random() < 0.01:
                    log.append(threading.get_ident())
                    time.sleep(0)
                return tracer

            try:
                loaders = Loaders() if own else self.loaders
                barrier.wait()
                if traced:
                    sys.settrace(tracer)
                try:
                    for i in plan:
                        log.append(threading.get_ident())
                        got = result(entries[i], names(i), loaders)
                        check(i, got, "threaded")
                finally:
                    sys.settrace(None)
            except BaseException:
                failures.append(traceback.format_exc())

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            threads = [threading.Thread(target=work, args=p, daemon=True) for p in plans]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if failures:
            raise Inconclusive(failures[0])
        order = {}
        seq = [order.setdefault(i, len(order)) for i in log[:3000]]
        obs.state("interleavings", tuple(seq))
        return sum(a != b for a, b in zip(seq, seq[1:]))


if __name__ == "__main__":
    from tkverif.checks import c23
    c23.serve()
