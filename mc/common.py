"""Shared machinery: loading the library from /repo, parallel exhaustive evaluation, evidence, replay artefacts."""
import contextlib
import hashlib
import importlib
import importlib.machinery
import io
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"
NPROC = int(os.environ.get("VERIF_NPROC", "8"))

# ---------------------------------------------------------------- loading the library under test


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Compile /repo's sources on every run: bytecode of an earlier state is never reused."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _hook(path):
    if not os.path.abspath(path).startswith(SRC):
        raise ImportError
    return importlib.machinery.FileFinder(path, (_NoCacheLoader, [".py"]))


def setup_import():
    warnings.simplefilter("ignore")
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()


def lib(name):
    """Import cognitivefactory.interactive_clustering.<name> from /repo/src (and nowhere else)."""
    mod = importlib.import_module("cognitivefactory.interactive_clustering." + name)
    if not os.path.abspath(mod.__file__).startswith(SRC):
        raise RuntimeError("library not loaded from /repo/src: " + str(mod.__file__))
    return mod


# ---------------------------------------------------------------- time limit per library call


class CallTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CallTimeout()


CPU_LIMIT_S = 30.0


@contextlib.contextmanager
def time_limit(seconds=CPU_LIMIT_S):
    """CPU-time limit (so that machine load cannot trigger it)."""
    old = signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def call(f, *a, **k):
    """Run a library call: ("ok", value) | ("ValueError", msg) | ("error", description) | ("timeout", ...)."""
    try:
        with time_limit():
            with contextlib.redirect_stdout(io.StringIO()):
                return "ok", f(*a, **k)
    except ValueError as e:
        return "ValueError", str(e)
    except CallTimeout:
        return "timeout", "no result after %g s of CPU time" % CPU_LIMIT_S
    except Exception as e:  # noqa
        return "error", "%s: %s" % (type(e).__name__, str(e)[:300])


# ---------------------------------------------------------------- results


class Res:
    """Accumulated coverage of some part of the exploration."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.problems = []  # list of (case, message)
        self.extra = {}
        self.samples = []

    def add(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def outcome(self, o):
        if len(self.outcomes) < 2000000:
            self.outcomes.add(hash(o))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def problem(self, case, msg):
        self.problems.append((case, msg))

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes |= o.outcomes
        self.problems += o.problems
        self.samples += o.samples[: max(0, 4 - len(self.samples))]
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


_WORK = {}


def _do_chunk(args):
    name, chunk = args
    f, maxp = _WORK[name]
    res = Res()
    for case in chunk:
        try:
            f(case, res)
        except CallTimeout:
            res.problem(case, "no answer within the CPU-time limit")
        except Exception:  # noqa: library misbehaviour that escapes the oracle is reported, not swallowed
            res.problem(case, "unexpected exception:\n" + traceback.format_exc(limit=-6))
        if len(res.problems) >= maxp:
            break
    return res


def parallel(name, f, cases, chunk=None, res=None, maxp=1, stop_on_problem=True):
    """Evaluate f(case, res) for every case, on all cores; deterministic merge order."""
    res = res or Res()
    cases = list(cases)
    if not cases:
        return res
    _WORK[name] = (f, maxp)
    for i in (0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1):
        if len(res.samples) < 4:
            res.samples.append(cases[i])
    if chunk is None:
        chunk = max(1, min(64, len(cases) // (NPROC * 8) or 1))
    k = -(-len(cases) // chunk)
    chunks = [(name, cases[i::k]) for i in range(k)]  # every chunk goes from small cases to large ones
    if NPROC == 1 or len(chunks) == 1:
        for c in chunks:
            res.merge(_do_chunk(c))
            if res.problems and stop_on_problem:
                break
        return res
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(NPROC, len(chunks))) as pool:
        for r in pool.imap(_do_chunk, chunks):
            res.merge(r)
            if res.problems and stop_on_problem:
                pool.terminate()
                break
    return res


# ---------------------------------------------------------------- artefacts


def jdump(x, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(x, f, indent=1, ensure_ascii=True, default=str)
        f.write("\n")
    os.replace(tmp, path)


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {"findings": [], "fixed": []}
    with open(path, encoding="utf-8") as f:
        return json.load(f)


class Clock:
    def __init__(self):
        self.t0 = time.time()

    def s(self):
        return round(time.time() - self.t0, 2)
