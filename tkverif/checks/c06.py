import os
import pickle
import re
import struct

from markupsafe import Markup, escape

from ..harness import Check, Violation, case_rng
from .. import env, gen, model
from ..model import E
from .common import where
from . import c01, c05

_address = re.compile(r"(?i)0x[0-9a-f]{6,}")


class Reenter:
    """outputs to a buffer while it is converted"""

    def __init__(self, what, slots, k):
        self.what, self.slots, self.k = what, slots, k

    def act(self):
        b = self.slots[self.k % len(self.slots)]
        if self.what == 0:
            b("<reentered>")
        elif self.what == 1:
            b.output_boolean_attr("re", True)
        elif self.what == 2:
            return "[" + str(b) + "]"
        elif self.what == 3:
            b(b)
        elif self.what == 4:
            b("partial", c05.BadStr())
        else:
            self.slots[self.k % len(self.slots)] = None
        return "reenter"

    def __str__(self):
        return self.act()


class ReenterHtml(Reenter):
    def __html__(self):
        return self.act() + "&html"


class OddStr:
    def __init__(self, value):
        self.value = value

    def __str__(self):
        return self.value


class OddHtml:
    def __init__(self, value):
        self.value = value

    def __html__(self):
        return self.value


class CountingStr:
    def __init__(self):
        self.n = 0

    def __str__(self):
        self.n += 1
        return "<n%d>" % self.n


class CHECK(Check):
    id = "C06"
    quick = 24000
    thorough = 300000
    rule = ("histories of up to 40 operations on up to 6 buffers (any argument types, nested, "
            "self-referential, re-entrant and failing conversions, wrong argument counts), and random "
            "templates, executed in a process with the C buffer and in one with the Python buffer; all "
            "results, contents and exception types are compared. Non-trivial: a history with five "
            "successful operations, or a template with ten outputs")
    floors = {"operations": 50000, "templates": 2000}
    assumptions = ["both processes run the same CPython and markupsafe"]

    # -- the process with the other buffer
    def load(self, w):
        a, b = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                env.setup("py")
                self.prepare()
                with os.fdopen(a[0], "rb") as requests, os.fdopen(b[1], "wb") as results:
                    while True:
                        header = requests.read(16)
                        if len(header) < 16:
                            break
                        index, tier, n = struct.unpack("qii", header)
                        seed = pickle.loads(requests.read(n))
                        case = self.case(case_rng(self.id, seed, index), index,
                                         ("quick", "thorough")[tier])
                        data = pickle.dumps(self.execute(case))
                        results.write(struct.pack("q", len(data)) + data)
                        results.flush()
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.requests = os.fdopen(a[1], "wb")
        self.results = os.fdopen(b[0], "rb")
        self.partner = pid
        env.setup("c")
        self.prepare()

    def prepare(self):
        from tonnikala.loader import Loader
        from tonnikala.runtime import python
        self.python = python
        self.loader = Loader()

    def worker_teardown(self):
        self.requests.close()
        os.waitpid(self.partner, 0)

    def ask(self, index):
        seed = pickle.dumps(self.seed)
        self.requests.write(struct.pack("qii", index, self.tier == "thorough", len(seed)) + seed)
        self.requests.flush()

    def answer(self):
        n = struct.unpack("q", self.results.read(8))[0]
        return pickle.loads(self.results.read(n))

    # -- cases
    def case(self, rng, index, tier):
        if index % 4 == 3:
            x = gen.ExprGen(rng)
            g = gen.TemplateGen(rng, x, code=True, depth=rng.choice([2, 3, 4]),
                                budget=rng.choice([10, 30]), large=0.05)
            nodes = g.template()
            source = model.serialize(nodes, rng, plain=True)
            ctx = gen.make_context(rng)
            for name in ctx:
                if rng.random() < 0.25:
                    ctx[name] = c05.value(rng)
            return "template", index, source, ctx, g.used.get("interp", 0)
        ops = []
        slots = rng.choice([1, 2, 3, 6])
        for _ in range(rng.choice([3, 8, 15, 40])):
            ops.append(self.op(rng, slots))
        return "ops", index, ops, slots, rng.getrandbits(32)

    def op(self, rng, slots):
        k = rng.randrange(14)
        b = rng.randrange(slots)
        if k < 5:
            args = [self.arg(rng, slots) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 10, rng.choice([250, 300, 700])]))]
            # contents may double with each
            for n in [n for n, a in enumerate(args) if a[0] not in ("value", "counting")][3:]:
                args[n] = "value", "x"
            return "call", b, args
        if k < 8:
            return "attr", b, [rng.choice([("value", "name"), ("value", "name"), ("value", "é&"),
                                           self.arg(rng, slots)]), self.arg(rng, slots)]
        if k == 8 and rng.random() < 0.2:
            return "attr", b, [self.arg(rng, slots) for _ in range(rng.choice([0, 1, 3]))]
        if k == 8:
            return "new", b, []
        if k == 9:
            return rng.choice(["join", "str", "html", "fmt", "mod", "escape", "bool", "markup"]), b, []
        if k == 10:
            return rng.choice(["len", "iter", "add", "joinarg", "kwargs", "item", "lt", "callable"]), b, []
        if k == 11:
            return "attrs", b, [(rng.choice([0, 0, 0, 1, 2, 3]),
                                 [(rng.choice(["a", "b", "é"]), self.arg(rng, slots))
                                  for _ in range(rng.choice([0, 1, 2, 4]))])]
        return "nest", b, [("slot", rng.randrange(slots)) for _ in range(rng.choice([1, 2, 3]))]

    def arg(self, rng, slots):
        k = rng.randrange(20)
        if k < 5:
            return "value", gen.hostile(rng)
        if k < 9:
            return "slot", rng.randrange(slots)
        if k < 12:
            return "value", rng.choice([True, False, None])
        if k == 12:
            return "reenter", rng.randrange(6), rng.randrange(slots)
        if k == 13:
            return "reenterhtml", rng.randrange(6), rng.randrange(slots)
        if k == 14:
            return "value", rng.choice([c05.BadStr(), c05.BadHtml(), OddStr(None), OddStr(5),
                                        OddStr(gen.StrSub("x<")), OddStr(Markup("<m>")),
                                        OddStr(b"bytes"), OddHtml(None), OddHtml(7),
                                        OddHtml(gen.Html("<h>")), OddHtml(gen.StrSub("<q>")),
                                        OddHtml(c05.BadStr()), c05.EqTrue(), c05.NoBool()])
        if k == 15:
            return ("counting",)
        return "value", c05.value(rng)

    def describe(self, case):
        return repr(case[2:4])

    # -- execution in either process
    def execute(self, case):
        if case[0] == "template":
            return self.execute_template(case)
        return self.execute_ops(case)

    def execute_template(self, case):
        _, index, source, ctx, n = case
        try:
            template = self.loader.load_string(source)
        except Exception as e:
            return [("load", type(e).__name__)]
        rv = []
        for _ in range(2):
            try:
                rv.append(("ok", template.render(ctx)))
            except Exception as e:
                rv.append(("error", type(e).__name__))
        return [(k, _address.sub("0x", v)) for k, v in rv]

    def execute_ops(self, case):
        _, index, ops, nslots, salt = case
        Buffer = self.python.Buffer
        slots = [Buffer() for _ in range(nslots)]
        log = []

        def make(a):
            if a[0] == "value":
                return a[1]
            if a[0] == "slot":
                return slots[a[1]]
            if a[0] == "counting":
                return CountingStr()
            return {"reenter": Reenter, "reenterhtml": ReenterHtml}[a[0]](a[1], slots, a[2])

        def text(v):
            if v is None or isinstance(v, (bool, int)):
                return repr(v)
            if isinstance(v, Buffer):
                return "buffer:" + str(v)
            return "%s:%s" % (type(v).__name__, v)

        total = 0
        for op, b, args in ops:
            try:
                if slots[b] is None:
                    slots[b] = Buffer()
                buf = slots[b]
                if op == "call" or op == "nest":
                    r = buf(*[make(a) for a in args])
                elif op == "attr":
                    r = buf.output_boolean_attr(*[make(a) for a in args])
                elif op == "new":
                    slots[b] = Buffer()
                    r = None
                elif op == "join":
                    r = buf.join()
                elif op == "str":
                    r = str(buf)
                elif op == "html":
                    r = buf.__html__() is buf
                elif op == "fmt":
                    r = "<%s|{}|%%>".format(buf) + f"{buf}"
                elif op == "mod":
                    r = "a%sb" % buf
                elif op == "escape":
                    r = escape(buf)
                elif op == "markup":
                    r = Markup("<b>%s</b>") % buf
                elif op == "bool":
                    r = bool(buf)
                elif op == "len":
                    r = len(buf)
                elif op == "iter":
                    r = list(buf)
                elif op == "add":
                    r = buf + "x"
                elif op == "joinarg":
                    r = buf.join("x")
                elif op == "kwargs":
                    r = buf("x", y=1)
                elif op == "item":
                    r = buf[0]
                elif op == "lt":
                    r = buf < buf
                elif op == "callable":
                    r = callable(buf)
                else:
                    form, pairs = args[0]
                    pairs = [(n, make(a)) for n, a in pairs]
                    r = self.python.output_attrs(
                        dict(pairs) if form == 0 else pairs if form == 1 else
                        c05.Mapping_(pairs) if form == 2 else c05.Pairs(pairs))
                    t = str(r)
                    buf(r)
                    r = t
                log.append(("ok", op, text(r)))
            except Exception as e:
                log.append(("error", op, type(e).__name__))
            size = sum(len(str(s)) for s in slots if s is not None)
            if size > 20000:
                for i in range(nslots):
                    slots[i] = Buffer()
                log.append(("size", op, size))
        for s in slots:
            log.append(("final", "", text(s)))
        return [(a, b, _address.sub("0x", c) if isinstance(c, str) else c) for a, b, c in log]

    # -- the monitor
    def run(self, case, obs):
        if case[0] == "ops":
            # objects in the case may count their conversions
            case = self.case(case_rng(self.id, self.seed, case[1]), case[1], self.tier)
        self.ask(case[1])
        try:
            mine = self.execute(case)
        finally:
            other = self.answer()
        for n, (a, b) in enumerate(zip(mine, other)):
            if a != b:
                detail = where(str(b[-1]), str(a[-1]))
                raise Violation("the C buffer gives %s, the Python buffer %s at step %d: %s" % (
                    str(a)[:150], str(b)[:150], n, detail), source=str(case[2])[:3000])
        if len(mine) != len(other):
            raise Violation("different numbers of results", source=str(case[2])[:3000])
        if case[0] == "template":
            obs.count("templates")
            obs.count("template_errors", mine[0][0] != "ok")
            if case[4] >= 10:
                obs.distinct(case[2])
                obs.sample(case[2])
        else:
            ok = sum(m[0] == "ok" for m in mine)
            obs.count("operations", len(mine))
            obs.count("operation_errors", sum(m[0] == "error" for m in mine))
            for m in mine:
                obs.state("operation_results", m[0], m[1])
            if ok >= 5:
                obs.distinct(mine)
                obs.sample(str(case[2])[:1500])
