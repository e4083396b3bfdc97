"""
The cases run in child processes: most with the extension compiled with
AddressSanitizer and UndefinedBehaviorSanitizer, malloc for all objects,
some with the plain one and the memory counters of the interpreter.
"""
import json
import os
import select
import subprocess
import sys
import time

from ..harness import Check, Violation, Inconclusive, Watchdog
from .. import env
from .c06 import CHECK as C06


def gcc_file(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True,
                          text=True).stdout.strip()


class CHECK(Check):
    id = "C07"
    quick = 20000
    thorough = 240000
    cap = {"quick": 150.0, "thorough": 700.0}
    case_timeout = 60
    rule = ("histories of buffer operations (any arguments, re-entrant and failing conversions, "
            "replaced escape functions, shared between threads, with every single allocation made to "
            "fail) and templates, under ASan and UBSan with per-object malloc, with the reference "
            "counts of all arguments compared before and after, and in plain processes with the "
            "number of allocated blocks observed over repetitions; and processes whose objects use buffers "
            "while the interpreter goes down. Non-trivial: five operations")
    floors = {"operations": 20000, "tracked_objects": 10000, "nomemory_points": 2000,
              "growth_windows": 200, "exits": 30, "late": 30}
    assumptions = ["memory errors outside of the extension's own code are seen only where "
                   "AddressSanitizer intercepts (malloc, libc)"]

    def setup(self):
        env.build_ext()
        env.build_ext(sanitize=True)

    def mode(self, w):
        return ["asan", "asan", "asan", "asan", "nomem", "nomem", "plain", "plain"][w % 8]

    def load(self, w):
        self.w = w
        self.child = None

    def start(self):
        mode = self.mode(self.w)
        e = dict(os.environ, TK_SCRATCH=env.scratch_dir(), PYTHONPATH=env.VERIF)
        e["VERIF_SEED"] = str(self.seed)
        self.log = os.path.join(env.scratch_dir(), "child.%d.err" % self.w)
        if mode != "plain":
            e["LD_PRELOAD"] = " ".join([gcc_file("libasan.so"), gcc_file("libubsan.so")])
            e["PYTHONMALLOC"] = "malloc"
            e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:exitcode=99:"
                                 "detect_stack_use_after_return=1:strict_string_checks=1")
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
        self.errors = open(self.log, "wb")
        self.child = subprocess.Popen(
            [sys.executable, "-m", "tkverif.checks.c07_child", mode, self.tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errors, env=e,
            cwd=env.VERIF)
        self.buffer = b""
        hello = self.answer()
        if hello is None or hello.get("hello") != mode:
            raise Inconclusive("the child does not start: " + self.report())

    def report(self):
        self.errors.flush()
        with open(self.log, errors="replace") as f:
            return f.read()[-6000:]

    def answer(self):
        while b"\n" not in self.buffer:
            data = os.read(self.child.stdout.fileno(), 65536)
            if not data:
                return None
            self.buffer += data
        line, _, self.buffer = self.buffer.partition(b"\n")
        return json.loads(line)

    def worker_teardown(self):
        if self.child:
            self.child.stdin.close()
            self.child.wait(30)

    def case(self, rng, index, tier):
        return index

    def describe(self, case):
        return "case %d" % case

    def run(self, case, obs):
        if self.child is None:
            self.start()
        mode = self.mode(self.w)
        try:
            self.child.stdin.write(b"%d\n" % case)
            self.child.stdin.flush()
            a = self.answer()
        except BrokenPipeError:
            a = None
        except Watchdog:
            self.child.kill()
            self.child.wait()
            self.child = None
            raise
        if a is None:
            code = self.child.wait()
            report = self.report()
            self.child = None
            if code == -9:
                raise Inconclusive("the child was killed")
            if mode == "nomem" and "_buffer_san" not in report:
                # CPython itself does not survive all failing allocations
                obs.count("interpreter_crashes_without_memory")
                return
            head = [x for x in report.split("\n") if "ERROR:" in x or "runtime error" in x
                    or "Fatal Python error" in x]
            raise Violation("the interpreter died (status %s): %s" % (
                code, head[0] if head else report[-300:]), key="crash", report=report)
        if a.get("violation"):
            raise Violation(a["violation"], source=a.get("source", ""))
        if a.get("machinery"):
            raise Inconclusive(a["machinery"])
        obs.count("cases." + mode + "." + a["kind"])
        for k, n in a["counts"].items():
            obs.count(k, n)
        if a["counts"].get("operations", 0) >= 5:
            obs.distinct(mode, a["digest"])
            if case < 16:
                obs.sample(a["source"])
