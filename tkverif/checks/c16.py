import os
import shutil
import subprocess
import sys
import tempfile

from ..harness import Inconclusive, Violation
from .. import env, gen, js, model
from ..model import Ext
from .c14 import CHECK as C14, JsCheck

COMPILER = os.path.join(env.REPO, "bin", "tonnikala-compile-jstemplate")


class CHECK(JsCheck):
    id = "C16"
    quick = 1300
    thorough = 40000
    rule = ("the templates of C14, plain, minified and (some of them) compiled by the command line "
            "program in a directory of its own, all run in node: each must give what the "
            "interpreter of the tree gives; the program must write its target and nothing else. "
            "Non-trivial: at least 100 characters of source")
    floors = {"renders": 4000, "minified": 1000, "command_line": 60}

    def case(self, rng, index, tier):
        base = C14()
        sources, request, used, counters = C14.case(base, rng, index, tier)
        # a process for each file
        return sources, request, index % 16 in (0, 9), rng.random()

    def describe(self, case):
        return "\n".join("=== %s\n%s" % x for x in case[0].items()) + "\n" + case[1]["context"]

    def run(self, case, obs):
        sources, request, command, pick = case
        text = self.describe(case)
        plain = self.modules(sources)
        minified = self.modules(sources, self.JSLoader(minify=True))
        for name in sources:
            if len(minified[name]) > len(plain[name]):
                raise Violation("the minified module is longer", source=text,
                                got=minified[name])
        self.judge(self.node.call(dict(request, modules=minified)), text, obs,
                   "the minified module renders something else", code="".join(minified.values()))
        mixed = {n: (plain if (i + int(pick * 2)) % 2 else minified)[n]
                 for i, n in enumerate(sources)}
        self.judge(self.node.call(dict(request, modules=mixed)), text, obs,
                   "the module renders something else", code="".join(mixed.values()))
        obs.count("minified", len(minified))
        obs.count("saved_chars", sum(map(len, plain.values())) - sum(map(len, minified.values())))
        if command:
            compiled = self.compile(sources, obs, text, pick)
            self.judge(self.node.call(dict(request, modules=compiled)), text, obs,
                       "the compiled file renders something else", code="".join(compiled.values()))
        if sum(map(len, sources.values())) >= 100:
            obs.distinct(text)
            obs.sample(text)

    def compile(self, sources, obs, text, pick):
        """by the command line program"""
        rv = {}
        for i, (name, source) in enumerate(sources.items()):
            folder = tempfile.mkdtemp(dir=env.scratch_dir())
            try:
                src, target = "in put.html", "u.js" if pick < 0.4 else "ü.js"
                data = source.encode("utf-8")
                with open(os.path.join(folder, src), "wb") as f:
                    f.write(data)
                existing = pick < 0.5
                if existing:
                    # longer than the new one
                    with open(os.path.join(folder, target), "w") as f:
                        f.write("// old\n" * 20000)
                streams = pick > 0.8
                args = ["-", "-"] if streams else [src, target]
                e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1",
                         LC_ALL="C.UTF-8", PYTHONHASHSEED=str(int(pick * 100)))
                if pick < 0.4:
                    # files are UTF-8 everywhere
                    e.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
                p = subprocess.run([sys.executable, COMPILER] + args, cwd=folder, env=e,
                                   input=data if streams else b"", capture_output=True,
                                   timeout=120)
                obs.count("command_line")
                if p.returncode < 0 and p.returncode in (-9, -15):
                    raise Inconclusive("the compiler was killed")
                if p.returncode:
                    raise Violation("the compiler fails with status %d" % p.returncode,
                                    source=source, stderr=p.stderr.decode(errors="replace")[-1500:])
                expected = {src} | ({target} if not streams or existing else set())
                found = set(os.listdir(folder))
                if found != expected:
                    raise Violation("the compiler wrote %r" % sorted(found - expected or
                                                                      expected - found), source=source)
                with open(os.path.join(folder, src), "rb") as f:
                    if f.read() != data:
                        raise Violation("the compiler changed its source", source=source)
                if streams:
                    output = p.stdout
                else:
                    with open(os.path.join(folder, target), "rb") as f:
                        output = f.read()
                rv[name] = output.decode("utf-8")
                self.same_module(source, rv[name], obs)
            finally:
                shutil.rmtree(folder, ignore_errors=True)
        return rv

    def same_module(self, source, output, obs):
        """up to the order and numbers of internal names, the one of the loader"""
        expected = self.loader.load_string(source)
        if shape(expected) != shape(output):
            raise Violation("the compiler writes something else than the loader generates",
                            source=source, expected=expected, got=output)
        obs.count("compared")


def shape(code):
    import re
    code = re.sub(r"__TK__\d+__", "__TK__N__", code)
    return sorted(x.rstrip(",;") for x in code.split())
