"""python -m tkverif.checks.c07_child asan|plain quick|thorough"""
import gc
import json
import os
import subprocess
import sys
import threading
import traceback
import weakref

from tkverif import env, gen, harness, model
from tkverif.checks import c01, c05, c06

try:
    import _testcapi
except ImportError:
    _testcapi = None

MODE, TIER = sys.argv[1:3]
SEED = int(os.environ["VERIF_SEED"])
IDENTITY = ("str", "StrSub", "Obj", "BadStr", "BadHtml", "OddStr", "OddHtml", "EqTrue", "NoBool",
            "Falsy", "FalsyHtml", "EmptyLen", "Lazy", "ReprOnly", "DynHtml", "StrHtml", "HtmlOdd",
            "Html", "HtmlMarkup", "Markup", "MarkupSub", "Reenter", "ReenterHtml", "CountingStr",
            "IntSub", "Fmt", "list", "dict", "set", "Decimal", "Fraction", "ValueError", "float")

op_maker = c06.CHECK()


class Bad(Exception):
    pass


class Fresh:
    """gives fresh strings that are counted while they live"""

    def __init__(self, kind):
        self.kind = kind

    def __str__(self):
        rv = gen.StrSub("fresh<%s>" % self.kind)
        LIVE.append(weakref.ref(rv))
        return str.__str__(rv) if self.kind == 0 else ResultStr("fresh")

    def __html__(self):
        rv = ResultStr("html&")
        LIVE.append(weakref.ref(rv))
        return rv


class ResultStr(str):
    def __str__(self):
        return self


LIVE = []


class Escaper:
    """replacements of the escape function"""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, value):
        if self.kind == 0:
            return "esc"
        if self.kind == 1:
            raise gen.Error("escape")
        if self.kind == 2:
            return None
        if self.kind == 3:
            return ResultStr("x")
        return value


def spec_case(rng, index):
    kinds = ["ops"] * 6 + ["threads", "module", "template"]
    if MODE != "nomem" and rng.random() < 0.006:
        return "exit", index, None
    if MODE == "nomem":
        kinds = ["nomemory"]
    if MODE == "plain":
        kinds = ["growth"] * 3 + ["ops"] * 2 + ["modgrowth", "templategrowth"]
    kind = rng.choice(kinds)
    if kind.startswith("template"):
        x = gen.ExprGen(rng)
        g = gen.TemplateGen(rng, x, depth=2, budget=12)
        return kind, model.serialize(g.template(), rng, plain=True), gen.make_context(rng)
    slots = rng.choice([1, 2, 3])
    n = {"nomemory": rng.choice([2, 4, 8]), "growth": rng.choice([2, 5, 10])}.get(
        kind, rng.choice([3, 8, 15, 40]))
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.72:
            ops.append(op_maker.op(rng, slots))
        elif k < 0.8:
            ops.append(("call", rng.randrange(slots), [("fresh", rng.randrange(2))]))
        elif k < 0.86:
            ops.append(("attr", rng.randrange(slots), [("fresh", 1), ("fresh", rng.randrange(2))]))
        else:
            ops.append((rng.choice(["list", "listappend", "listclear", "listset", "setattr", "delattr",
                                    "newargs", "kwattr", "badjoin", "html1", "repr", "dir", "del",
                                    "vars", "sizeof", "reduce", "liststr", "badself", "badinit"]),
                        rng.randrange(slots), [op_maker.arg(rng, slots)]))
    if "mod" in kind:
        for _ in range(rng.choice([1, 3])):
            ops.insert(rng.randrange(len(ops) + 1), (
                "escape_method", 0, [rng.randrange(10)]))
    return kind, ops, slots


def make_values(ops):
    """fresh objects for the values"""
    rv = []
    for op, b, args in ops:
        rv.append([])
        if op in ("escape_method",):
            continue
        if op == "attrs":
            args = [a for _, a in args[0][1]]
        for a in args:
            v = None
            if a[0] == "value":
                v = a[1]
                if type(v) is str and len(v) > 1:
                    v = "".join([v[:1], v[1:]])
            rv[-1].append(v)
    return rv


def run_ops(ops, nslots, values, errors=None, slots=None):
    """executes a history; returns the number of operations that succeeded"""
    Buffer = python.Buffer
    if slots is None:
        slots = [Buffer() for _ in range(nslots)]
    done = 0
    for (op, b, args), vals in zip(ops, values):
        def make(a, v):
            if a[0] == "value":
                return v
            if a[0] == "slot":
                return slots[a[1]]
            if a[0] == "counting":
                return c06.CountingStr()
            if a[0] == "fresh":
                return Fresh(a[1])
            return {"reenter": c06.Reenter, "reenterhtml": c06.ReenterHtml}[a[0]](a[1], slots, a[2])

        try:
            if slots[b] is None:
                slots[b] = Buffer()
            buf = slots[b]
            if op in ("call", "nest"):
                buf(*[make(a, v) for a, v in zip(args, vals)])
            elif op == "attr":
                buf.output_boolean_attr(*[make(a, v) for a, v in zip(args, vals)])
            elif op == "new":
                slots[b] = Buffer()
            elif op == "join" or op == "html":
                getattr(buf, "join")()
                buf.__html__()
            elif op == "escape_method":
                escape_op(args[0])
            elif op == "attrs":
                pairs = [(n, make(a, v)) for (n, a), v in zip(args[0][1], vals)]
                r = python.output_attrs(dict(pairs) if args[0][0] == 0 else pairs)
                buf(r)
            elif op in ("fmt", "mod", "escape", "markup", "str"):
                str(buf), "%s" % buf, f"{buf}", python.escape(buf)
            elif op == "list":
                buf.buffer
            elif op == "listappend":
                buf.buffer.append(vals[0])
            elif op == "listclear":
                buf.buffer.clear()
            elif op == "listset":
                buf.buffer[:1] = ["set", "two"]
            elif op == "liststr":
                buf.buffer.append(ResultStr("res"))
            elif op == "setattr":
                buf.buffer = []
            elif op == "delattr":
                del buf.buffer
            elif op == "newargs":
                slots[b] = Buffer(make(args[0], vals[0]), x=1)
            elif op == "kwattr":
                buf.output_boolean_attr(name="x", value=1)
            elif op == "kwargs":
                buf("x", y=1)
            elif op == "badjoin":
                buf.join(make(args[0], vals[0]))
            elif op == "html1":
                buf.__html__(make(args[0], vals[0]))
            elif op == "badself":
                Buffer.output_boolean_attr(make(args[0], vals[0]), "a", "b")
            elif op == "badinit":
                buf.__init__()
                Buffer.__new__(Buffer, make(args[0], vals[0]))
                Buffer.__new__(str)
            elif op == "repr":
                repr(buf), hash(buf), buf == buf, buf != 1
            elif op == "dir":
                dir(buf), type(buf).__name__, buf.__doc__
            elif op == "del":
                slots[b] = None
            elif op == "vars":
                vars(buf)
            elif op == "sizeof":
                sys.getsizeof(buf), buf.__sizeof__()
            elif op == "reduce":
                buf.__reduce_ex__(2)
            elif op == "len":
                len(buf)
            elif op == "iter":
                list(buf)
            elif op == "add":
                buf + "x"
            elif op == "item":
                buf[0]
            elif op == "lt":
                buf < buf
            elif op == "callable":
                callable(buf), bool(buf)
            elif op == "joinarg":
                buf.join("x")
            elif op == "bool":
                bool(buf)
            else:
                raise AssertionError(op)
            done += 1
        except AssertionError:
            raise
        except Exception as e:
            if errors is not None:
                errors.append(type(e).__name__)
        if slots[b] is not None and len(slots[b].buffer if hasattr(
                slots[b], "buffer") else ()) > 5000:
            slots[b] = None
    return done


def escape_op(kind):
    set_escape = getattr(ext, "_set_escape_method", None)
    if set_escape is None:
        return
    try:
        if kind < 5:
            set_escape(Escaper(kind))
        elif kind == 5:
            set_escape()
        elif kind == 6:
            set_escape(escape=lambda v: "kw")
        elif kind == 7:
            set_escape(1, 2)
        elif kind == 9:
            # buffers are made and used while the function goes away
            made = []

            def use(_):
                made.append(python.Buffer())
                python.Buffer().output_boolean_attr("a", "b")

            f = eval("lambda value: 'gone'")
            r = weakref.ref(f, use)
            set_escape(f)
            del f
            set_escape(python.escape)
            for x in made:
                x.output_boolean_attr("a", "b")
        else:
            set_escape(5)
        b = python.Buffer()
        set_escape(python.escape)
        b.output_boolean_attr("a", "b")
    finally:
        set_escape(python.escape)


def refs(values):
    return [sys.getrefcount(v) for vs in values for v in vs if tracked(v)]


def tracked(v):
    return type(v).__name__ in IDENTITY and not (type(v) is str and len(v) < 2)


def counted(ops, slots, counts, runner):
    """run, then compare the reference counts"""
    values = make_values(ops)
    gc.collect()
    before = refs(values)
    del LIVE[:]
    probe = python.Buffer()
    probe.output_boolean_attr("a", "b")
    inner = list(probe.buffer) if hasattr(probe, "buffer") else []
    escape_before = sys.getrefcount(python.escape)
    inner_before = [sys.getrefcount(x) for x in inner]

    def check():
        gc.collect()
        after = refs(values)
        if after != before:
            objects = [v for vs in values for v in vs if tracked(v)]
            for n, m, v in zip(before, after, objects):
                if n == m:
                    continue
                try:
                    text = repr(v)[:100]
                except Exception:
                    text = "?"
                return "the references of a %s %s went from %d to %d" % (
                    type(v).__name__, text, n, m)
        if sys.getrefcount(python.escape) != escape_before:
            return "the references of the escape function went from %d to %d" % (
                escape_before, sys.getrefcount(python.escape))
        after = [sys.getrefcount(x) for x in inner]
        for x, m, n in zip(inner, inner_before, after):
            if m != n:
                return "the references of %r of a buffer went from %d to %d" % (x, m, n)
        alive = [r for r in LIVE if r() is not None]
        if alive:
            return "%d results of conversions are never freed" % len(alive)
        return None

    runner(values)
    wrong = check()
    if wrong:
        # a stray reference of the interpreter would have gone by then
        wrong = check()
    counts["tracked_objects"] = counts.get("tracked_objects", 0) + len(before) + len(LIVE)
    if wrong:
        raise Bad(wrong)


def do_ops(case, counts):
    kind, ops, slots = case
    errors = []

    def runner(values):
        counts["succeeded"] = run_ops(ops, slots, values, errors)

    counted(ops, slots, counts, runner)
    counts["operations"] = len(ops)
    counts["failed"] = len(errors)


def do_nomemory(case, counts):
    kind, ops, slots = case
    counts["operations"] = 0
    if _testcapi is not None:
        nomemory(ops, slots, counts)


SIMPLE = ("str", "StrSub", "Markup", "int", "float", "bool", "NoneType", "StrHtml", "Lazy", "Obj",
          "BadStr", "BadHtml", "Html", "OddStr", "OddHtml")


def nomemory(ops, slots, counts):
    """each allocation of the call itself fails once"""
    points = failures = 0

    def runner(values):
        nonlocal points, failures
        # list.extend of CPython 3.12 leaks for an empty list
        buffers = [python.Buffer() for _ in range(slots)]
        for x in buffers:
            x("start")
        python.escape(c05.BadStr), str(5)
        for (op, b, args), vals in zip(ops, values):
            buf = buffers[b]
            if op in ("call", "nest", "attr"):
                actual = [buffers[a[1]] if a[0] == "slot" else v if type(v).__name__ in SIMPLE
                          else "simple" for a, v in zip(args, vals)]
                if op == "attr":
                    actual = (actual + ["", ""])[:2]
                    buf = buf.output_boolean_attr
            elif op == "new":
                buf, actual = type(buf), []
            elif op == "str":
                buf, actual = str, [buf]
            else:
                buf, actual = buf.join, []
            actual = tuple(actual)
            for n in range(0, 12 + 2 * min(len(actual), 10)):
                r = None
                try:
                    set_nomemory(n, n + 1)
                    try:
                        r = buf(*actual)
                    finally:
                        remove()
                except Exception as e:
                    failures += isinstance(e, MemoryError)
                if len(str(buffers[b])) > 2000:
                    # keeps the identity, so that the call is still about it
                    if not hasattr(buffers[b], "buffer"):
                        break
                    buffers[b].buffer[1:] = []
                points += 1

    set_nomemory, remove = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
    counted(ops, slots, counts, runner)
    counts["nomemory_points"] = points
    counts["nomemory_errors"] = failures
    counts["operations"] = points


def do_threads(case, counts):
    kind, ops, slots = case
    shared = [python.Buffer() for _ in range(slots)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def runner(values):
        shared = [python.Buffer() for _ in range(slots)]
        threads = [threading.Thread(target=lambda: run_ops(ops, slots, values, None, shared))
                   for _ in range(4)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    try:
        counted(ops, slots, counts, runner)
    finally:
        sys.setswitchinterval(old)
    counts["operations"] = 4 * len(ops)


def do_growth(case, counts):
    kind, ops, slots = case
    values = make_values(ops)

    def repeat(n):
        for _ in range(n):
            run_ops(ops, slots, values)
        del LIVE[:]
        gc.collect()
        return sys.getallocatedblocks()

    windows(repeat, counts, len(ops))


def do_exit(case, counts):
    """a process that goes down while objects still use buffers"""
    p = subprocess.run([sys.executable, "-m", "tkverif.checks.c07_exit", MODE, str(case[1])],
                       capture_output=True, text=True, errors="replace", timeout=50)
    counts["exits"] = 1
    counts["operations"] = counts["late"] = p.stdout.count(".")
    if p.returncode:
        raise Bad("a process whose finalizers use buffers dies at its exit (status %s): %s" % (
            p.returncode, p.stderr[-1500:]))


def windows(repeat, counts, per):
    n = 60
    repeat(15)
    marks = [repeat(n) for _ in range(4)]
    growth = [b - a for a, b in zip(marks, marks[1:])]
    counts["growth_windows"] = 3
    counts["operations"] = 4 * n * per
    if min(growth) >= n * 0.6:
        # again, with more
        marks = [repeat(4 * n) for _ in range(4)]
        growth = [b - a for a, b in zip(marks, marks[1:])]
        if min(growth) >= 4 * n * 0.6:
            raise Bad("the allocated blocks grow by %s in windows of %d repetitions" % (
                growth, 4 * n))


def do_template(case, counts):
    kind, source, ctx = case
    template = loader.load_string(source)

    def once():
        try:
            template.render(ctx)
        except Exception:
            pass

    if kind == "template":
        for _ in range(3):
            once()
        counts["operations"] = 3
        return

    def repeat(n):
        for _ in range(n):
            once()
        gc.collect()
        return sys.getallocatedblocks()

    windows(repeat, counts, 1)


def main():
    global python, loader, ext
    env.setup("c", env.build_ext(sanitize=MODE != "plain"))
    from tonnikala.loader import Loader
    from tonnikala.runtime import python
    ext = sys.modules[env.EXT_NAME]
    loader = Loader()
    loader.load_string("<p py:for='a in [1]' a='$a'>$a</p>").render({})
    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)

    def send(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    send(hello=MODE)
    for line in sys.stdin:
        index = int(line)
        rng = harness.case_rng("C07", SEED, index)
        counts = {}
        source = ""
        try:
            case = spec_case(rng, index)
            source = repr(case[1])[:3000]
            digest = harness.digest(case[:2]).hex()
            sys.stderr.write("case %d %s\n" % (index, source[:2000]))
            sys.stderr.flush()
            kind = case[0]
            if kind in ("ops", "module"):
                do_ops(case, counts)
            elif kind == "exit":
                do_exit(case, counts)
            elif kind == "nomemory":
                do_nomemory(case, counts)
            elif kind == "threads":
                do_threads(case, counts)
            elif kind.startswith("template"):
                do_template(case, counts)
            else:
                do_growth(case, counts)
            case = None
            send(kind=kind, counts=counts, digest=digest, source=source)
        except Bad as e:
            send(violation=str(e), source=source)
        except Exception:
            send(machinery=traceback.format_exc(), source=source)
        case = None
        gc.collect(1)


if __name__ == "__main__":
    main()
