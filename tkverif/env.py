"""
Sets up the interpreter for running the real code of /repo:
imports come from /repo's working tree, bytecode is not written there, and the
C extension is compiled afresh from /repo's source into a scratch directory.
"""
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("TK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXT_NAME = "tonnikala.runtime._buffer"
C_SOURCE = os.path.join(REPO, "tonnikala", "runtime", "_buffer.c")


class SetupError(Exception):
    """The machinery could not be set up: an inconclusive run."""


_scratch = None


def scratch_dir():
    """A directory of this run, removed by the process that created it"""
    global _scratch
    if _scratch is None:
        _scratch = os.environ.get("TK_SCRATCH")
        if not _scratch:
            _scratch = tempfile.mkdtemp(prefix="tkverif-")
            os.environ["TK_SCRATCH"] = _scratch
            owner = os.getpid()
            import atexit

            def cleanup():
                if os.getpid() == owner:
                    shutil.rmtree(_scratch, ignore_errors=True)

            atexit.register(cleanup)
    return _scratch


def build_ext(out_dir=None, sanitize=False):
    out_dir = out_dir or scratch_dir()
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    target = os.path.join(out_dir, ("_buffer_san" if sanitize else "_buffer") + suffix)
    if os.path.exists(target):
        return target
    cmd = ["gcc", "-shared", "-fPIC", "-g", "-I", sysconfig.get_paths()["include"]]
    if sanitize:
        cmd += ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                "-fno-sanitize-recover=all"]
    else:
        cmd += ["-O2"]
    cmd += ["-o", target + ".tmp", C_SOURCE]
    proc = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if proc.returncode:
        raise SetupError("the C extension does not compile:\n" + proc.stderr[-2000:])
    os.rename(target + ".tmp", target)
    return target


def load_ext(path):
    loader = importlib.machinery.ExtensionFileLoader(EXT_NAME, path)
    spec = importlib.util.spec_from_file_location(EXT_NAME, path, loader=loader)
    module = importlib.util.module_from_spec(spec)
    loader.exec_module(module)
    sys.modules[EXT_NAME] = module
    return module


def setup(buffer="c", ext_path=None):
    """
    Make `import tonnikala` load /repo, with the freshly built C extension
    (buffer='c') or without any (buffer='py').
    """
    sys.dont_write_bytecode = True
    for name in list(sys.modules):
        if name == "tonnikala" or name.startswith("tonnikala."):
            raise SetupError("tonnikala was imported before the set-up")
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    # importing the package must not find the stale one of an earlier build
    if buffer == "c":
        load_ext(ext_path or build_ext())
    else:
        sys.modules[EXT_NAME] = None
    import tonnikala.loader

    if not os.path.abspath(tonnikala.__file__).startswith(REPO + os.sep):
        raise SetupError("tonnikala comes from %s" % tonnikala.__file__)
    return tonnikala
