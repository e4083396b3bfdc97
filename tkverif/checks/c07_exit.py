"""
python -m tkverif.checks.c07_exit asan|plain INDEX

A process whose objects use buffers when the interpreter is going down.
"""
import atexit
import codecs
import builtins
import os
import sys
import threading
import types
import weakref

from tkverif import env, harness

MODE, INDEX = sys.argv[1], int(sys.argv[2])


def maker(Buffer, escape, write=os.write):
    """the operations of a finalizer; refers to nothing of the module"""

    def act(ops, old):
        for op in ops:
            try:
                if op == "new":
                    Buffer()("x")
                elif op == "attr":
                    b = Buffer()
                    b.output_boolean_attr("a", "<")
                    b(b, 1)
                    b.join()
                elif op == "keep":
                    old(Buffer())
                elif op == "old":
                    old("text", None, old)
                elif op == "oldattr":
                    old.output_boolean_attr("b", "&")
                elif op == "join":
                    str(old)
                else:
                    Buffer.__new__(Buffer).join()
            except Exception:
                write(2, b"an exception\n")
        write(1, b".")

    return act


class Late:
    def __init__(self, act, ops, old):
        self.act, self.ops, self.old = act, ops, old

    def __del__(self):
        self.act(self.ops, self.old)

    def __call__(self, *args):
        return None


HOLDERS = ("main", "module", "sys", "builtins", "cycle", "local", "codec", "codecerror", "atexit", "thread",
           "weakref", "type", "default", "excepthook", "environment", "profile")


def hold(holder, x):
    if holder == "main":
        globals().setdefault("held", []).append(x)
    elif holder == "module":
        m = types.ModuleType("a_module")
        m.x = x
        sys.modules["a_module_%d" % id(x)] = m
    elif holder == "sys":
        setattr(sys, "x%d" % id(x), x)
    elif holder == "builtins":
        setattr(builtins, "x%d" % id(x), x)
    elif holder == "cycle":
        x.me = x
    elif holder == "local":
        LOCAL.__dict__.setdefault("x", []).append(x)
    elif holder == "codec":
        codecs.register(x)
    elif holder == "codecerror":
        codecs.register_error("x%d" % id(x), x)
    elif holder == "atexit":
        atexit.register(x)
    elif holder == "thread":
        started = threading.Event()
        t = threading.Thread(target=lambda x=x: (started.set(), threading.Event().wait()), daemon=True)
        t.start()
        started.wait()
    elif holder == "weakref":
        o = set()
        KEPT.append((o, weakref.ref(o, x)))
    elif holder == "type":
        KEPT.append(type("T", (int,), {"x": x}))
    elif holder == "default":
        builtins.__dict__["f%d" % id(x)] = lambda a=x: a
    elif holder == "excepthook":
        sys.excepthook = sys.unraisablehook = x
    elif holder == "environment":
        os.environ.x = x
    elif holder == "profile":
        threading.settrace(x)


LOCAL = threading.local()
KEPT = []


def main():
    env.setup("c", env.build_ext(sanitize=MODE != "plain"))
    from tonnikala.runtime import python
    rng = harness.case_rng("C07", int(os.environ["VERIF_SEED"]), INDEX)
    act = maker(python.Buffer, python.escape)
    for _ in range(rng.choice([1, 2, 5])):
        ops = [rng.choice(["new", "attr", "keep", "old", "oldattr", "join", "raw"]) for _ in range(rng.randint(1, 4))]
        old = python.Buffer()
        old("kept")
        hold(rng.choice(HOLDERS), Late(act, ops, old))
    del act, old


if __name__ == "__main__":
    main()
