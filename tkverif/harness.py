"""
Runs the cases of a check in forked workers, merges what the monitors
observed, writes the evidence and gives the verdict.

Verdicts: exit 0 - held on everything explored; exit 1 - violated, with a
VIOLATION line and a replay file; exit 2 - inconclusive (the machinery failed
or the monitors observed too little).
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import signal
import struct
import sys
import time
import traceback

from . import env

EVIDENCE = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.txt")


class Violation(Exception):
    """The oracle refuted the property. `key` names the mechanism."""

    def __init__(self, message, key="", **detail):
        super().__init__(message)
        self.message = message
        self.key = key
        self.detail = detail


class Inconclusive(Exception):
    pass


class Skip(Exception):
    """The generated case is outside of the property's domain"""


class Watchdog(BaseException):
    pass


class Observations:
    """What the monitors saw"""

    def __init__(self):
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.sets = collections.defaultdict(set)

    def count(self, key, n=1):
        self.counts[key] += n

    def distinct(self, *what):
        """register a distinct non-trivial case"""
        self.sigs.add(digest(what))

    def state(self, key, *what):
        """register a distinct state/interleaving/shape under `key`"""
        self.sets[key].add(digest(what))

    def sample(self, value, limit=3):
        if len(self.samples) < limit:
            self.samples.append(value)

    def merge(self, other):
        self.counts.update(other.counts)
        self.sigs |= other.sigs
        for k, v in other.sets.items():
            self.sets[k] |= v
        self.samples.extend(other.samples)


def digest(what):
    data = repr(what).encode("utf-8", "surrogatepass")
    return hashlib.blake2b(data, digest_size=8).digest()


class Check:
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    workers = 8
    quick = 1000
    thorough = 10000
    cap = {"quick": 150.0, "thorough": 560.0}
    case_timeout = 30
    #: observation counter -> least number for a conclusive quick run
    floors = {}
    #: the output buffers, by worker: every eighth case uses the one in Python
    buffers = "cccccccp"

    def setup(self):
        """in the parent process, which does not import the code"""
        env.build_ext()

    def load(self, w):
        """in worker w"""
        env.setup({"c": "c", "p": "py"}[self.buffers[w % len(self.buffers)]])

    def worker_setup(self):
        pass

    def case(self, rng, index, tier):
        raise NotImplementedError

    def run(self, case, obs):
        raise NotImplementedError

    def describe(self, case):
        return repr(case)

    def cases(self, tier):
        return getattr(self, tier)

    def finish(self, obs, tier, seed):
        """Checks over all that was observed, in the parent"""


def case_rng(check_id, seed, index):
    return random.Random("%s:%s:%s" % (check_id, seed, index))


def run_one(check, seed, index, tier, obs):
    """Run a case; returns None or a violation as a dict"""

    def on_alarm(signum, frame):
        raise Watchdog()

    rng = case_rng(check.id, seed, index)
    case = check.case(rng, index, tier)
    for attempt, timeout in enumerate((check.case_timeout, 3 * check.case_timeout)):
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(timeout)
        try:
            check.run(case, obs)
            return None
        except Skip:
            obs.count("skipped")
            return None
        except Violation as e:
            signal.alarm(0)
            return {
                "index": index, "message": e.message, "key": e.key,
                "detail": {k: short(v) for k, v in e.detail.items()},
                "case": short(check.describe(case)),
            }
        except Inconclusive:
            raise
        except Exception as e:
            # an error of the code where the check expects none
            signal.alarm(0)
            if not from_repo(e):
                raise
            return {
                "index": index, "key": "error",
                "message": "unexpected %s: %s" % (type(e).__name__, short(str(e), 500)),
                "detail": {"traceback": traceback.format_exc()[-3000:]},
                "case": short(check.describe(case)),
            }
        except Watchdog:
            if attempt == 0:
                obs.count("watchdog")
                continue
            return {
                "index": index, "key": "hang",
                "message": "does not terminate within %d s" % timeout,
                "detail": {}, "case": short(check.describe(case)),
            }
        finally:
            signal.alarm(0)


def from_repo(e):
    """Was the exception raised by the code under test (or what it calls)?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(env.REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def short(value, limit=6000):
    if not isinstance(value, str):
        value = repr(value)
    value = value.encode("utf-8", "backslashreplace").decode()
    return value if len(value) <= limit else value[:limit] + "...(%d)" % len(value)


def worker(check, w, n, total, tier, seed, deadline, progress_fd, out_path):
    obs = Observations()
    violations = []
    error = None
    done = 0
    try:
        check.load(w)
        check.worker_setup()
        for index in range(w, total, n):
            if time.monotonic() > deadline:
                break
            os.pwrite(progress_fd, struct.pack("q", index), w * 8)
            v = run_one(check, seed, index, tier, obs)
            done += 1
            if v:
                violations.append(v)
                if len(violations) >= 3:
                    break
        check.worker_teardown() if hasattr(check, "worker_teardown") else None
    except BaseException:
        error = "case %r: %s" % (locals().get("index"), traceback.format_exc())
    with open(out_path + ".tmp", "wb") as f:
        pickle.dump((done, obs, violations, error), f)
    os.rename(out_path + ".tmp", out_path)


def load_known(check_id):
    rv = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % check_id):
                    # known: property=Cnn key=<mechanism> <what fails>
                    rest = line.split(" ", 2)[2]
                    key, _, what = rest.partition(" ")
                    rv.append((key[len("key="):], what))
    except FileNotFoundError:
        pass
    return rv


def execute(check, tier, seed):
    t0 = time.monotonic()
    check.seed, check.tier = seed, tier
    check.setup()
    scratch = env.scratch_dir()
    total = check.cases(tier)
    n = max(1, min(check.workers, total))
    deadline = t0 + check.cap[tier]
    progress = os.path.join(scratch, "progress")
    pfd = os.open(progress, os.O_RDWR | os.O_CREAT)
    os.pwrite(pfd, b"\xff" * 8 * n, 0)
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    for w in range(n):
        out = os.path.join(scratch, "out.%d" % w)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(check, w, n, total, tier, seed, deadline, pfd, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = w

    obs = Observations()
    violations, errors, evaluations = [], [], 0
    hard = deadline + 4 * check.case_timeout + 30
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.monotonic() > hard:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                errors.append("workers did not finish in time")
                hard = float("inf")
            time.sleep(0.02)
            continue
        w = pids.pop(pid, None)
        if w is None:
            continue
        out = os.path.join(scratch, "out.%d" % w)
        if os.WIFSIGNALED(status) and not errors:
            index = struct.unpack("q", os.pread(pfd, 8, w * 8))[0]
            violations.append(crash_violation(check, seed, index, tier,
                                              os.WTERMSIG(status), errors))
        elif not os.path.exists(out):
            errors.append("worker %d left no result (status %d)" % (w, status))
        if os.path.exists(out):
            with open(out, "rb") as f:
                done, o, vs, error = pickle.load(f)
            evaluations += done
            obs.merge(o)
            violations.extend(vs)
            if error:
                errors.append(error)
    violations = [v for v in violations if v]
    os.close(pfd)

    try:
        check.finish(obs, tier, seed)
    except Violation as e:
        violations.append({"index": -1, "message": e.message, "key": e.key,
                           "detail": {k: short(v) for k, v in e.detail.items()},
                           "case": ""})
    known = load_known(check.id)
    seen_known = [v for v in violations if any(v["key"] == k for k, _ in known)]
    violations = [v for v in violations if v not in seen_known]

    write_evidence(check, tier, seed, obs, evaluations, violations,
                   time.monotonic() - t0)

    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (check.id, what))

    rc = 0
    for i, v in enumerate(sorted(violations, key=lambda v: v["index"])[:5]):
        path = os.path.join(EVIDENCE, "replay-%s-%d.json" % (check.id, i))
        with open(path, "w") as f:
            json.dump(dict(v, property=check.id, tier=tier, seed=seed), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        print("  " + v["message"].replace("\n", "\n  ")[:1500])
        for k, d in v["detail"].items():
            print("    %s: %s" % (k, d[:700]))
        rc = 1
    if rc:
        return rc
    if errors:
        print("INCONCLUSIVE %s: the machinery failed" % check.id)
        for e in errors[:3]:
            print(e)
        return 2
    missing = [
        "%s=%d<%d" % (k, obs.counts[k], least) for k, least in check.floors.items()
        if obs.counts[k] < least
    ]
    if missing:
        print("INCONCLUSIVE %s: observed too little: %s" % (check.id, ", ".join(missing)))
        return 2
    print("HELD %s %s seed=%d: %d cases, %d distinct, %.1f s; %s" % (
        check.id, tier, seed, evaluations, len(obs.sigs), time.monotonic() - t0,
        ", ".join("%s=%d" % kv for kv in sorted(obs.counts.items()))))
    return 0


def crash_violation(check, seed, index, tier, signum, errors):
    name = signal.Signals(signum).name
    if signum == signal.SIGKILL:
        # not a crash: the memory ran out or someone ended the worker
        errors.append("worker was killed at case %d" % index)
        return None
    case = ""
    try:
        case = short(check.describe(check.case(case_rng(check.id, seed, index),
                                               index, tier)))
    except Exception:
        pass
    return {"index": index, "key": "crash", "detail": {}, "case": case,
            "message": "the interpreter died of %s in case %d" % (name, index)}


def write_evidence(check, tier, seed, obs, evaluations, violations, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(obs.sigs),
        "rule": check.rule,
        "samples": [short(s, 1500) for s in obs.samples[:6]],
        "observed": dict(sorted(obs.counts.items())),
        "distinct_states": {k: len(v) for k, v in sorted(obs.sets.items())},
    }
    data = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": coverage, "wall_s": round(wall, 3),
        "violations": len(violations), "assumptions": list(check.assumptions),
    }
    path = os.path.join(EVIDENCE, check.id + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1)
    os.rename(path + ".tmp", path)


def load_check(check_id):
    module = importlib.import_module("tkverif.checks." + check_id.lower())
    return module.CHECK()


def main(argv):
    check_id, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get(
        "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = load_check(check_id)
    if tier == "replay":
        with open(argv[2]) as f:
            data = json.load(f)
        check.seed, check.tier = data["seed"], data["tier"]
        check.setup()
        check.load(data["index"] % check.workers)
        check.worker_setup()
        obs = Observations()
        v = run_one(check, data["seed"], data["index"], data["tier"], obs)
        print(json.dumps(v, indent=1))
        return 1 if v else 0
    try:
        return execute(check, tier, seed)
    except env.SetupError as e:
        print("INCONCLUSIVE %s: %s" % (check_id, e))
        return 2


if __name__ == "__main__":
    from tkverif import harness

    sys.exit(harness.main(sys.argv[1:]))
