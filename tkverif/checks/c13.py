import dataclasses
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time

from ..harness import Check, Violation, Watchdog
from .. import env, gen, model
from ..model import C, Code, E, El, I
from . import c08

TOP = "top-level template code"


# ------------------------------------------------------------- exceptions

class Plain(Exception):
    pass


class Needs(Exception):
    """cannot be constructed anew from its args"""

    def __init__(self, a, b):
        super().__init__("needs")
        self.pair = a, b


class Slots(Exception):
    __slots__ = ("x",)


class Rude(Exception):
    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return False

    __hash__ = None


@dataclasses.dataclass(frozen=True)
class Frozen(Exception):
    n: int


class Multi(KeyError, AttributeError):
    pass


MAKERS = [
    lambda n: Plain("p", n), lambda n: Needs(n, [n]), lambda n: Slots(n), lambda n: Rude(n),
    lambda n: Falsy(n), lambda n: Frozen(n), lambda n: Multi(n), lambda n: KeyError(n),
    lambda n: StopIteration(n), lambda n: UnicodeDecodeError("ascii", b"x", 0, 1, "r%d" % n),
    lambda n: OSError(n, "text", "name"), lambda n: SyntaxError("text", ("f", n, 1, "x")),
    lambda n: AssertionError(), lambda n: ExceptionGroup("g", [Plain(n)]), lambda n: RecursionError(n),
    lambda n: KeyboardInterrupt(n), lambda n: SystemExit(n), lambda n: NameError("name", name="x%d" % n)]


class Boom:
    """Raises an exception that it remembers"""

    def __init__(self, maker, how):
        self.maker = maker
        self.how = how
        self.calls = 0
        self.raised = None

    def __call__(self, n):
        self.calls += 1
        e = self.maker(n)
        if not isinstance(e, (Slots, Frozen)):
            e.attribute = [n]
        self.raised = e
        if self.how == "cause":
            raise e from ValueError("cause")
        if self.how == "context":
            try:
                raise ValueError("context")
            except ValueError:
                raise e
        if self.how == "note" and not isinstance(e, (Frozen,)):
            e.add_note("a note")
        raise e

    def state(self):
        e = self.raised
        return (repr(e.args), getattr(e, "__dict__", None), repr(e.__cause__), repr(e.__context__),
                e.__suppress_context__)


class Bad:
    """fails when it is used"""

    def __init__(self, boom, n):
        self.boom, self.n = boom, n

    def fail(self, *args):
        self.boom(self.n)

    __str__ = __repr__ = __bool__ = __iter__ = __format__ = __len__ = fail


class BadHtml(Bad):
    __html__ = Bad.fail


INNER = """<div
><py:def function="inner(x)"><b
 title="$x ${boom(77)}"></b></py:def>

${inner(
 '1')}</div>"""
INNER_FRAMES = [(TOP, 5), ('def "inner"', 3)]

#: fails, on one line, with %d somewhere
FAIL = ["boom(%d)"] * 6 + ["undefined_%d", "none.q_%d", "(1 // (zero * %d))", "d1[%d]", "f1(*%d)",
                           "nest(%d)", "bad(%d)", "bad(%d)", "li[%d]", "o1.nosuch_%d", "bytes(-%d)"]
WRAP = ["%s", "%s", "%s", "(%s)", "[s1,\n %s,\n s2]", "f1(\n  %s)", "(lambda: %s)()", "(lambda:\n %s)()",
        "''.join(%s for q in ls)", "[%s for q in\n [1, 2]]", "[q for q in [1]\n if %s]", "(yes and\n %s)",
        "{'a': 1,\n 'b': %s}", "f'{%s}'", "f'''\n{%s}'''", "(s1 if no else\n %s)", "f1(x=(\n%s\n ))", "(\n%s\n)",
        "ident(ident(\n ident(%s)))", "next(iter(\n[%s]))", "'''\n\n''' + str(%s)", "[(q, w) for q in li\n  for w in\n %s]"]
FLAT = [w for w in WRAP if "\n" not in w]
LAZY = ["(%s for q in [1])", "(q for q in [s1, s2] if\n %s)", "iter(%s, 1)"]


class Tracker:
    """what the reference is evaluating"""

    def __init__(self):
        self.frames = []
        self.known = {}
        self.snapshot = None

    def fail(self):
        if self.snapshot is None:
            self.snapshot = [tuple(f) for f in self.frames]

    def framed(self, function, file, name):
        def call(*args, **kw):
            self.frames.append([file, name, None])
            try:
                return function(*args, **kw)
            finally:
                self.frames.pop()

        call.__name__ = function.__name__
        return call


class Track:
    tracker = None
    file = None

    def at(self, expr):
        if id(expr) in self.tracker.known and self.tracker.frames:
            self.tracker.frames[-1][2] = id(expr)

    def guard(self, function, *args):
        try:
            return function(*args)
        except BaseException:
            self.tracker.fail()
            raise

    def eval(self, expr, scope):
        return self.guard(super().eval, expr, scope)

    def exec(self, source, scope, names=None):
        return self.guard(super().exec, source, scope)

    def unpack(self, target, env):
        self.guard(super().unpack, target, env)

    def iterate(self, values, expr):
        return self.following(self.guard(iter, values), expr)

    def following(self, values, expr):
        while True:
            self.at(expr)
            try:
                item = self.guard(next, values)
            except StopIteration:
                self.tracker.snapshot = None
                return
            yield item

    def make_def(self, node, scope):
        f = self.guard(super().make_def, node, scope)
        return self.tracker.framed(f, self.file, 'def "%s"' % f.__name__)

    def make_block(self, node):
        f = super().make_block(node)
        return self.tracker.framed(f, self.file, 'block "%s"' % node.arg)

    def start_tag(self, node, scope, out, mode):
        self.guard(super().start_tag, node, scope, out, mode)

    def esc(self, value):
        return self.guard(model.esc, value)

    def truth(self, value):
        return self.guard(bool, value)

    def render(self):
        return self.tracker.framed(super().render, self.file, TOP)()


class Writer(model.Serializer):
    """Writes marks around all expressions"""

    def __init__(self, known, *args, **kw):
        super().__init__(*args, **kw)
        self.known = known

    def mark(self, expr, text):
        self.known[id(expr)] = expr
        return "\ue000%d\ue001%s\ue002" % (id(expr), text)


MARK = re.compile("\ue000(\\d+)\ue001|\ue002")


def unmark(text):
    """-> source, {id: (first line, last line)}"""
    places = {}
    line, last, stack, out = 1, 0, [], []
    for m in MARK.finditer(text):
        piece = text[last:m.start()]
        out.append(piece)
        line += piece.count("\n")
        last = m.end()
        if m.group() == "\ue002":
            key, start = stack.pop()
            places[key] = start, line
        else:
            stack.append((int(m.group(1)), line))
    out.append(text[last:])
    return "".join(out), places


def sites(nodes, tal, edges):
    """functions that replace an expression by a failing one, from a maker of it"""
    rv = []

    def setter(obj, name, make=lambda fail: fail, flat=False, lazy=False):
        def put(fail):
            setattr(obj, name, E(make(fail)))
            if isinstance(obj, I):
                obj.form = "{"

        rv.append((put, flat, lazy,
                   name if name != "arg" else obj.kind))

    def visit(node):
        if isinstance(node, I):
            setter(node, "expr")
        elif isinstance(node, El):
            for _, parts in node.attrs:
                for p in parts or ():
                    if isinstance(p, I):
                        setter(p, "expr")
            for n in ("strip", "content"):
                if getattr(node, n) is not None and getattr(node, n).strip():
                    setter(node, n)
            if node.dyn is not None:
                setter(node, "dyn", lazy=True)
        elif isinstance(node, C):
            if node.kind in ("if", "unless"):
                setter(node, "arg")
            elif node.kind == "for":
                target = model.split_for(node.arg)[0]
                setter(node, "arg", lambda fail: target + " in " + fail, lazy=True)
            elif node.kind == "with":
                old = str(node.arg)
                setter(node, "arg", lambda fail: "z0 = 1; z1 = %s; z2 = 3" % fail, flat=True)
                setter(node, "arg", lambda fail: "%s; z1 = %s" % (old, fail), flat=True)
            elif node.kind == "def" and edges:
                old = str(node.arg)
                if old.endswith(")") and "*" not in old:
                    setter(node, "arg", lambda fail: "%s%sz0=%s)" % (
                        old[:-1], "" if old.endswith("()") else ", ", fail))
        elif isinstance(node, Code):
            old = str(node.source)
            setter(node, "source", lambda fail: "\n%s\nz1 = 2\nif z1:\n  z3 = %s\nz4 = 5" % (
                old.strip(), fail))
            setter(node, "source", lambda fail: old + "; z1 = %s" % fail)
        for c in node.children:
            visit(c)

    for n in nodes:
        visit(n)
    return rv


class Prepared:
    """a template that is going to fail"""

    folder = render = got = None

    def go(self):
        try:
            self.render()
        except Watchdog:
            raise
        except BaseException as e:
            self.got = e


class CHECK(Check):
    id = "C13"
    quick = 24000
    thorough = 400000
    rule = ("a failing expression put in place of a random one of a template, or of a set of templates "
            "that extend and import each other, at a known line: the same exception object must arrive, "
            "with template frames named as and in the order of the calls in the model, each at a line of "
            "the expression evaluated there and the last one at the line of the failing call. "
            "Non-trivial: the expression was reached; distinct sources")
    floors = {"failed": 6000, "frames": 8000, "frames_in_other_files": 200, "boom": 2000, "exact": 3000,
              "at_once": 1000, "switches": 1000}

    def worker_setup(self):
        from tonnikala.loader import FileLoader, Loader
        import tonnikala
        self.package = os.path.dirname(tonnikala.__file__)
        self.FileLoader = FileLoader
        self.loaders = {s: Loader(syntax=s) for s in ("tonnikala", "chameleon")}
        self.chains = c08.CHECK.__new__(c08.CHECK)
        self.inner = Loader().load_string(INNER, filename="inner.html")

    def case(self, rng, index, tier):
        # some at the same time, in threads
        n = rng.choice([2, 3, 6]) if rng.random() < 0.05 else 1
        return tuple(rng.getrandbits(64) for _ in range(n))

    def build(self, seed):
        rng = random.Random(seed)
        tal = False
        if rng.random() < 0.35:
            templates, order, ctx = self.chains.chains(rng)
            files = {n: t.written for n, t in templates.items()}
            main = rng.choice(order[-2:])
            target = None
            if rng.random() < 0.2:
                names = [x for x in c08.CHECK.chain(templates, main) if not c08.ARGS[x]]
                if names:
                    target = rng.choice(names)
            single = None
        else:
            tal = rng.random() < 0.15
            g = gen.TemplateGen(
                rng, gen.ExprGen(rng, angle=not tal), tal=tal, code=not tal and rng.random() < 0.3,
                controls=("if", "for") if tal else ("if", "unless", "for", "def", "with", "block"),
                budget=rng.choice([6, 12, 25]), depth=rng.choice([2, 3, 4]), large=0.1)
            single = g.template()
            ctx = gen.make_context(rng)
            main, target, templates = "dir/a b.html", None, None
            files = {main: single}
            order = [main]
        # put the failure in place of an expression
        places = [(f, s) for f in files for s in sites(files[f], tal, single is not None)]
        number = rng.randint(100000, 999999)
        kind = rng.choice(FAIL)
        fail = kind % number
        if places:
            file, (setter, flat, lazy, what) = rng.choice(places)
            wrap = rng.choice(FLAT if flat else WRAP)
            if lazy and rng.random() < 0.3:
                wrap = rng.choice(LAZY[:2] if kind.startswith("bad") else LAZY)
                if wrap.startswith("iter"):
                    fail = "(lambda: %s)" % fail
            setter(wrap % fail)
        else:
            file, what = None, None
        known = {}
        sources, lines = {}, {}
        for f in order:
            layout = model.Layout(rng, rng.random() < 0.2, rng.choice([0.4, 1.0]))
            w = Writer(known, layout, "tal" if tal else "py", junk=False)
            sources[f], lines[f] = unmark(w.nodes(files[f], root=True))
        boom = Boom(rng.choice(MAKERS), rng.choice(["", "", "cause", "context", "note"]))
        return (tal, templates, order, ctx, main, target, single, number, file, what, known,
                sources, lines, boom, kind)

    def describe(self, case):
        return "\n".join(map(self.describe_one, case))

    def describe_one(self, seed):
        b = self.build(seed)
        return "main: %s, function %s, failing: %s in %s\n%s" % (
            b[4], b[5], b[14] % b[7], b[9], "\n".join("=== %s\n%s" % (n, b[11][n]) for n in b[2]))

    def run(self, case, obs):
        prepared = []
        try:
            for seed in case:
                p = Prepared()
                prepared.append(p)
                self.prepare(p, seed, obs)
            ready = [p for p in prepared if p.render]
            if len(ready) > 1:
                self.in_threads(ready, case, obs)
            else:
                for p in ready:
                    p.go()
            for p in ready:
                if p.got is None:
                    raise Violation("rendering does not fail, but should with %r" % (p.expected,),
                                    source=self.describe_one(p.seed))
                self.judge(p, obs)
        finally:
            for p in prepared:
                p.got = None
                if p.folder:
                    shutil.rmtree(p.folder, ignore_errors=True)

    def in_threads(self, ready, case, obs):
        barrier = threading.Barrier(len(ready))
        rng = random.Random(case[0])
        log = []
        rate = rng.choice([0, 0.01, 0.1])

        def tracer(frame, event, arg):
            if self.package not in frame.f_code.co_filename:
                return None
            if rng.random() < rate:
                log.append(threading.get_ident())
                time.sleep(rng.choice([0, 0, 0.0002]))
            return tracer

        def work(p):
            barrier.wait(30)
            if rate:
                sys.settrace(tracer)
            try:
                p.go()
            finally:
                sys.settrace(None)

        threads = [threading.Thread(target=work, args=(p,), daemon=True) for p in ready]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join(40)
        finally:
            sys.setswitchinterval(old)
        obs.count("at_once", len(ready))
        obs.count("switches", sum(a != b for a, b in zip(log, log[1:])))

    def prepare(self, p, seed, obs):
        (tal, templates, order, ctx, main, target, single, number, file, what, known, sources,
         lines, boom, kind) = self.build(seed)
        if file is None:
            return
        ctx = dict(ctx, boom=boom, nest=self.nest(boom),
                   bad=lambda n: (Bad if n % 2 else BadHtml)(boom, n))
        tracker = Tracker()
        tracker.known = known
        expected = self.reference(tracker, templates, single, ctx, main, target)
        model_state = boom.state() if boom.raised is not None else None
        if expected is None:
            obs.count("not_reached")
            return
        # an exception of the model itself, or elsewhere than planned
        snapshot = tracker.snapshot
        calls = boom.calls
        boom.calls, boom.raised = 0, None
        if single is not None:
            template = self.loaders["chameleon" if tal else "tonnikala"].load_string(
                sources[main], filename=main)
            names = {main: main}
        else:
            p.folder = tempfile.mkdtemp(dir=env.scratch_dir())
            names = {}
            for n in order:
                path = os.path.join(p.folder, n)
                names[path] = n
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(sources[n])
            template = self.FileLoader([p.folder]).load(main)
        p.seed, p.expected = seed, expected
        p.details = (snapshot, model_state, calls, boom, names, sources, lines, number, file, what, kind,
                     target)
        p.render = lambda: template.render(ctx) if target is None else template.render(ctx, target)

    def nest(self, boom):
        def nest(n):
            return self.inner.render({"boom": boom})
        return nest

    def reference(self, tracker, templates, single, ctx, main, target):
        attrs = {"tracker": tracker}
        try:
            if single is not None:
                cls = type("Single", (Track, model.Reference), dict(attrs, file=main))
                cls(single, ctx).render()
            else:
                world = c08.World(templates, ctx)
                world.part = type("TrackedPart", (Track, c08.Part), attrs)
                world.render(main, target)
        except Watchdog:
            raise
        except BaseException as e:
            if isinstance(e, (AssertionError, SystemExit, KeyboardInterrupt)) and not e.args and not \
                    getattr(e, "attribute", None):
                raise
            return e
        return None

    def judge(self, p, obs):
        (snapshot, model_state, calls, boom, names, sources, lines, number, file, what, kind,
         target) = p.details
        expected, got = p.expected, p.got

        def bad(message, **detail):
            raise Violation(message, source=self.describe_one(p.seed), expected=snapshot, frames=frames,
                            **detail)

        frames = []
        tb = got.__traceback__
        while tb is not None:
            code = tb.tb_frame.f_code
            if code.co_filename in names or code.co_filename == "inner.html":
                frames.append((names.get(code.co_filename, code.co_filename), code.co_name, tb.tb_lineno))
            tb = tb.tb_next
        obs.count("failed")
        obs.count("conversions", kind.startswith("bad"))
        obs.count("site.%s" % what)
        if type(got) is not type(expected) and not (
                isinstance(got, NameError) and isinstance(expected, NameError)):
            bad("the exception is a %s instead of a %s" % (type(got).__name__, type(expected).__name__),
                error=str(getattr(got, "args", None)))
        if boom.raised is not None:
            obs.count("boom")
            if calls != boom.calls:
                bad("the failing function was called %d times instead of %d" % (boom.calls, calls))
            if got is not boom.raised and not isinstance(boom.raised, StopIteration):
                bad("another exception object arrives")
            if boom.state() != model_state:
                bad("the exception was changed: %r instead of %r" % (boom.state(), model_state))
        if isinstance(boom.raised, StopIteration) and got is not boom.raised:
            # it ends a generator, which Python makes a RuntimeError outside of it
            return
        if not isinstance(got, Exception):
            obs.count("base_exceptions")
            return
        # the last failing place is in the inner template
        if boom.raised is not None and kind.startswith("nest"):
            inner = [f[1:] for f in frames if f[0] == "inner.html"]
            if inner != INNER_FRAMES:
                bad("the frames of the nested template are %r" % (inner,))
            obs.count("nested")
        frames = [f for f in frames if f[0] != "inner.html"]
        if not snapshot or any(f[2] is None for f in snapshot[:-1]):
            # while binding
            snapshot = None
        groups = []
        for f, name, line in frames:
            if name == TOP or name.startswith('block "') or (
                    name.startswith('def "') and not name.startswith('def "<')):
                groups.append([f, name, line])
            elif groups and groups[-1][0] == f:
                groups[-1][2] = line
            else:
                groups.append([f, name, line])
        obs.count("frames", len(groups))
        obs.count("frames_in_other_files", len({g[0] for g in groups}) > 1)
        where = "\n".join("%s:%d %s" % (f, n, l) for f in sources for n, l in enumerate(
            sources[f].split("\n"), 1))
        obs.distinct(where)
        if snapshot is None:
            obs.count("binding")
            if not groups and target is None:
                bad("no frame of a template")
        else:
            want = [(f[0], f[1]) for f in snapshot]
            have = [(g[0], g[1]) for g in groups]
            if have != want:
                bad("the frames are %r instead of %r" % (have, want))
            for (f, name, key), (_, _, line) in zip(snapshot, groups):
                if key is None:
                    continue
                first, last = lines[f][key]
                if not first <= line <= last:
                    bad("the frame of %s is in line %d, its expression in lines %d to %d" % (
                        name, line, first, last), text=sources[f])
        if not groups:
            return
        planned = not kind.startswith("bad") and str(number) in str(getattr(expected, "args", "")) or (
            boom.raised is not None and not kind.startswith("bad"))
        if planned or (snapshot and groups and str(number) in sources[snapshot[-1][0]]
                       and kind == "(1 // (zero * %d))" and isinstance(got, ZeroDivisionError)):
            at = sources[file].index(str(number))
            line = sources[file].count("\n", 0, at) + 1
            if groups[-1][0] != file or groups[-1][2] != line:
                bad("the failing expression is in line %d of %s, the last frame in line %d of %s" % (
                    line, file, groups[-1][2], groups[-1][0]), text=sources[file])
            obs.count("exact")
        obs.sample("%s\n%r in line %d of %s" % (where[:1000], got.args, groups[-1][2], groups[-1][0]))
