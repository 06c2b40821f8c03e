"""Core of the checking machinery: case runner, violation reporting, evidence.

A check module (checks/<ID>.py) defines

    PROPERTY = "U01"
    RULE     = "how cases are made, and what makes one non-trivial"
    ASSUMPTIONS = [...]
    TESTS    = [Test(name, strategy, fn, quick=N, thorough=M), ...]

Each strategy generates a JSON-able *case* (source text, operation list, ...), and
`fn(case, ctx)` decides the property for that one case by raising `Violation`.
All randomness is in the strategy (Hypothesis), so cases shrink, and a case is all
that is needed to replay a failure, bypassing Hypothesis.
"""

import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CASE_CPU_LIMIT = 40.0   # seconds of CPU time for one case; typical cases take milliseconds
CASE_MEMORY = 3 << 30   # bytes of address space for a worker; typical workers use a twentieth
SHRINK_WALL = 45.0      # stop shrinking this long after the first failure
SOFT_WALL = 540.0       # quick tier: stop generating cases this long after the start (typical checks take 10-40 s)
STARTED = time.monotonic()


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class Reject(Exception):
    """The generated case is outside the domain of the property. Counted, not judged."""


class Abort(BaseException):
    """Stop this search now (too long shrinking, or a hang). Not seen by Hypothesis as a failure."""


class Hang(Abort):
    pass


class Test:
    def __init__(self, name, strategy, fn, *, quick, thorough=None, workers=None, fixed=()):
        """`fixed`: cases that are always run first (regression inputs), as JSON-able values."""
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.fixed = list(fixed)


class Ctx:
    """Per-worker collector of what was actually generated and run."""
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.events = {}
        self.evaluations = 0
        self.rejected = 0
        self.nontrivial = set()
        self.samples = []
        self._case_nontrivial = False
        self.known_hits = {}
        self.known = {}

    def event(self, label, n=1):
        self.events[label] = self.events.get(label, 0) + n

    def sample(self, test, case, keep=2, limit=700):
        """Keep a few cases per test: the largest of readable size."""
        mine = [s for s in self.samples if s["test"] == test]
        size = len(json.dumps(case, default=repr))
        if len(mine) < keep:
            self.samples.append({"test": test, "case": case})
        elif size <= limit:
            small = min(mine, key=lambda s: len(json.dumps(s["case"], default=repr)))
            if len(json.dumps(small["case"], default=repr)) < size:
                small["case"] = case

    def nontrivial_case(self, yes=True):
        """The current case is non-trivial by the check's stated rule."""
        if yes:
            self._case_nontrivial = True

    def known_finding(self, kid, detail=""):
        """The current failure is the listed known finding `kid`. Otherwise, it's a violation."""
        if kid not in self.known:
            raise Violation(f"[{kid}] {detail}")
        self.known_hits[kid] = self.known_hits.get(kid, 0) + 1


def case_key(test, case):
    blob = json.dumps([test, case], sort_keys=True, default=repr)
    return hashlib.sha256(blob.encode("utf-8", "surrogatepass")).hexdigest()[:20]


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big")


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["id"]: e for e in data if e.get("property") == prop and e.get("status") == "known"}


def in_repo(exc):
    """Whether the traceback of `exc` (or of what led to it) goes through the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(REPO + os.sep) or fn == REPO:
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def describe(exc, limit=1500):
    s = "".join(traceback.format_exception_only(type(exc), exc)).strip()
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-4:])
    s += "  [at " + where + "]"
    cause = exc.__cause__
    while cause is not None and len(s) < limit:
        s += f"\n  because of {type(cause).__name__}: {str(cause)[:300]} [at {'; '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in traceback.extract_tb(cause.__traceback__)[-4:])}]"
        cause = cause.__cause__
    return s[:limit]


def run_case(test, case, ctx):
    """Run one case. Raise Violation, HarnessError, Reject or Hang."""
    def on_alarm(signum, frame):
        raise Hang(f"case used over {CASE_CPU_LIMIT:g} s of CPU time (typical cases take milliseconds): does not terminate?")
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT, 3.0)   # again and again, in case something swallows the exception
    try:
        try:
            test.fn(case, ctx)
        except (Violation, HarnessError, Reject):
            raise
        except MemoryError as err:
            raise Hang(f"case used over {CASE_MEMORY >> 30} GB of memory: {describe(err)}") from err
        except OSError as err:
            if in_repo(err):
                raise Violation(f"unexpected exception: {describe(err)}") from err
            raise HarnessError(describe(err)) from err
        except Exception as err:
            if type(err).__module__.startswith("hypothesis"):
                raise
            # Anything unexpected while the code under test is being exercised: either it raised,
            # or it returned something the oracle cannot even look at.
            raise Violation(f"unexpected exception: {describe(err)}") from err
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_test(test, ctx, seed, n):
    """Search. Return None, or a dict describing the smallest failing case found."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    state = {"best": None, "first": None, "harness": None}

    def one(case):
        if state["first"] is not None and time.monotonic() - state["first"] > SHRINK_WALL:
            raise Abort("shrink budget used")
        if ctx.tier == "quick" and state["first"] is None and time.monotonic() - STARTED > SOFT_WALL:
            ctx.event("stopped early: out of time")
            raise Abort("out of time")
        ctx._case_nontrivial = False
        try:
            run_case(test, case, ctx)
        except Reject:
            ctx.rejected += 1
            return "reject"
        except Violation as err:
            if state["first"] is None:
                state["first"] = time.monotonic()
            size = len(json.dumps(case, default=repr))
            if state["best"] is None or size <= state["best"]["size"]:
                state["best"] = {"size": size, "case": case, "message": str(err), "test": test.name}
            raise
        except Hang as err:
            state["best"] = {"size": 0, "case": case, "message": str(err), "test": test.name}
            raise
        ctx.evaluations += 1
        if ctx._case_nontrivial:
            key = case_key(test.name, case)
            if key not in ctx.nontrivial:
                ctx.nontrivial.add(key)
                ctx.sample(test.name, case)
        return None

    try:
        for case in test.fixed:
            one(case)
        if n > 0:
            @hypothesis.seed(seed)
            @settings(max_examples=n, deadline=None, database=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), print_blob=False,
                      report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck))
            @given(test.strategy)
            def search(case):
                if one(case) == "reject":
                    hypothesis.reject()
            search()
    except Abort:
        pass
    except MemoryError as err:
        if state["best"] is None:
            raise HarnessError("out of memory") from err
    except Violation:
        pass
    except HarnessError:
        raise
    except BaseException as err:
        if state["best"] is None:
            raise HarnessError("".join(traceback.format_exception(err))) from err
    return state["best"]


def isolated(fn, *args, timeout=120):
    """Run `fn(*args)` in a forked child; return its (picklable) result.

    For cases that change process-wide state (`sys.modules`, import hooks, `sys.path`, cwd, ...).
    An exception in the child is re-raised here as Violation/HarnessError as appropriate.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Violation as err:
                out = ("violation", str(err))
            except Reject as err:
                out = ("reject", str(err))
            except Hang as err:
                out = ("hang", str(err))
            except HarnessError as err:
                out = ("harness", str(err))
            except OSError as err:
                out = ("violation" if in_repo(err) else "harness", f"unexpected exception: {describe(err)}")
            except BaseException as err:
                out = ("violation", f"unexpected exception: {describe(err)}")
            try:
                blob = pickle.dumps(out)
            except Exception as err:
                blob = pickle.dumps(("harness", f"unpicklable result: {err!r}"))
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        finally:
            os._exit(code)
    os.close(w)
    deadline = time.monotonic() + timeout
    chunks = []
    import select
    killed = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    os.waitpid(pid, 0)
    if killed:
        raise Hang(f"child did not finish in {timeout} s")
    blob = b"".join(chunks)
    if not blob:
        raise HarnessError("child died without a result")
    kind, value = pickle.loads(blob)
    if kind == "ok":
        return value
    if kind == "violation":
        raise Violation(value)
    if kind == "reject":
        raise Reject(value)
    if kind == "hang":
        raise Hang(value)
    raise HarnessError(value)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)
