"""Shared by the checks: rendering with the real code and comparing"""
import os
import pickle
import signal
import traceback

from ..harness import Inconclusive, Violation


def outcome(function):
    """('ok', text) or ('error', type name, exception)"""
    try:
        return "ok", function()
    except Exception as e:
        # a name without a value is either, depending on how it is looked up
        name = type(e).__name__
        return "error", "NameError" if name == "UnboundLocalError" else name, e


def same(a, b):
    if a[0] != b[0]:
        return False
    return a[1] == b[1]


def where(a, b):
    n = 0
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            break
    else:
        n = min(len(a), len(b))
    return "at %d: expected %r, got %r" % (n, a[max(0, n - 30):n + 50], b[max(0, n - 30):n + 50])


def show(o):
    return o[1] if o[0] == "ok" else "%s: %s" % (o[1], o[2])


def compare(expected, got, source, key="", what="the output differs", **detail):
    if same(expected, got):
        return
    message = what
    if expected[0] == got[0] == "ok":
        message += " " + where(expected[1], got[1])
    else:
        message += ": expected %s, got %s" % (show(expected)[:200], show(got)[:200])
    raise Violation(message, key, source=source, expected=show(expected), got=show(got),
                    **detail)


def in_fork(function):
    """
    Runs the function in a forked process and returns its (pickled) result:
    the state of this one stays as it is.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                result = True, function()
            except Violation as e:
                result = False, (e.message, e.key, e.detail)
            except BaseException:
                result = None, traceback.format_exc()
            data = pickle.dumps(result)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
            raise Inconclusive("a forked process was killed")
        raise Violation("the process died with status %d" % status, key="crash")
    ok, value = pickle.loads(data)
    if ok is None:
        raise Inconclusive(value)
    if not ok:
        raise Violation(value[0], value[1], **value[2])
    return value


def inserted(source, text):
    """a template with some text before its last end tag"""
    at = source.rfind("</")
    if at < 0:
        return "<div>%s%s</div>" % (source, text)
    return source[:at] + text + source[at:]
