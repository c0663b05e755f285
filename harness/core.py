"""Core of the property-based checking harness.

A property module (harness/props/cNN.py) exposes

    RULE  : str, how cases are made and what makes one non-trivial
    SUBS  : list of Sub

A Sub couples a generator ``gen(draw) -> case`` (a JSON-able value; every choice is made
by Hypothesis) with ``check(case, ctx)``, a pure function of the case which raises
Violation when the property is broken. Replay files are just {"property", "sub", "case"},
so they bypass Hypothesis altogether.
"""
import collections
import errno
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The property under test does not hold. ``key`` names a specific finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


class _AbortShrink(BaseException):
    pass


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else str(msg), key=key)


def _short(a):
    with np.printoptions(threshold=12, precision=6, edgeitems=2):
        return repr(a)[:400]


def same(a, b, msg, key=None):
    """Exact equality (nan == nan), including shape."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} vs expected {b.shape}", key=key)
    try:
        ok = np.array_equal(a, b, equal_nan=True)
    except TypeError:
        ok = np.array_equal(a, b)
    if not ok:
        raise Violation(f"{msg}: got {_short(a)}, expected {_short(b)}", key=key)


def close(a, b, msg, rtol=1e-8, atol=1e-10, key=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} vs expected {b.shape}", key=key)
    with np.errstate(all="ignore"):
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok:
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
        raise Violation(f"{msg}: max|diff|={np.nanmax(d) if d.size else 0!r} got {_short(a)}, "
                        f"expected {_short(b)} (rtol={rtol}, atol={atol})", key=key)


class expect_raises:
    """with expect_raises((ValueError,), 'msg'): ...  -> Violation if nothing is raised."""

    def __init__(self, excs, msg):
        self.excs, self.msg = excs, msg

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            raise Violation(f"{self.msg}: expected an error, none was raised")
        return issubclass(et, self.excs)


class Ctx:
    def __init__(self, scratch_root):
        self.labels = collections.Counter()
        self.is_nontrivial = False
        self._root = scratch_root
        self._dirs = []
        self.known = []

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def tmp(self):
        d = tempfile.mkdtemp(dir=self._root)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


class Sub:
    def __init__(self, name, gen, check, quick=200, thorough=None, shards=4, doc=""):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.shards = shards
        self.doc = doc or (check.__doc__ or "").strip()


def rng_of(*parts):
    """numpy generator that is a pure function of values drawn by Hypothesis."""
    h = hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))


def case_json(case):
    return json.dumps(case, sort_keys=True)


def classify_exception(e):
    """'violation' | 'harness'."""
    if isinstance(e, Violation):
        return "violation"
    if isinstance(e, (HarnessError, MemoryError, ImportError)):
        return "harness"
    if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM,
                                              errno.EDQUOT, errno.EROFS):
        return "harness"
    # an error from (or via) the code under test on a valid input, or a result the oracle
    # cannot even read: neither happens where the property holds
    pkg = os.path.join(REPO, "hera_cal") + os.sep
    scripts = os.path.join(REPO, "scripts") + os.sep
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    if any(f.startswith(pkg) or f.startswith(scripts) for f in frames):
        return "violation"
    if isinstance(e, OSError):
        return "harness"
    return "violation"


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-4:])
    return f"{type(e).__name__}: {str(e)[:1500]} [{loc}]"


def run_case(sub, case, scratch_root):
    """Returns (ctx, exception or None)."""
    ctx = Ctx(scratch_root)
    try:
        sub.check(case, ctx)
        return ctx, None
    except Exception as e:
        return ctx, e
    finally:
        ctx.cleanup()


def job(sub, seed, n_examples, scratch_root, known_keys, t_end, shrink_s):
    """One Hypothesis run of one Sub. Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    res = dict(evaluations=0, nontrivial=set(), distinct=set(), labels=collections.Counter(),
               samples=[], failure=None, error=None, known=collections.Counter(), skipped=0,
               seconds=0.0)
    t0 = time.time()
    fail = {}
    history = []

    @st.composite
    def cases(draw):
        return sub.gen(draw)

    def body(case):
        now = time.time()
        if fail and now > fail["t"] + shrink_s:
            raise _AbortShrink()
        if now > t_end and not fail:
            res["skipped"] += 1
            return
        js = case_json(case)
        case = json.loads(js)
        if not fail:
            history.append(js)
        ctx, e = run_case(sub, case, scratch_root)
        if not fail:
            res["evaluations"] += 1
            h = hashlib.sha1(js.encode()).digest()[:10]
            res["labels"].update(ctx.labels)
            if ctx.is_nontrivial:
                if h not in res["nontrivial"] and len(res["samples"]) < 3 and len(js) < 3000:
                    res["samples"].append({"sub": sub.name, "case": case})
                res["nontrivial"].add(h)
        if e is None:
            return
        if isinstance(e, Violation) and e.key in known_keys:
            res["known"][e.key] += 1
            return
        kind = classify_exception(e)
        if kind == "harness":
            res["error"] = describe(e) + " case=" + js[:2000]
            raise _AbortShrink()
        if not fail or len(js) <= len(fail["js"]):
            t = fail.get("t", time.time())
            fail.update(js=js, msg=describe(e), t=t)
        raise e

    test = given(cases())(body)
    test = settings(max_examples=n_examples, deadline=None, database=None, print_blob=False,
                    report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _AbortShrink:
        pass
    except BaseException as e:
        if not fail:
            res["error"] = describe(e) + "".join(traceback.format_exception(e))[-3000:]
    if fail:
        res["failure"] = dict(case=json.loads(fail["js"]), msg=fail["msg"], history=history)
    res["seconds"] = time.time() - t0
    return res


def replay_cases(sub, cases, scratch_root):
    """Run cases one after another in a fresh process. Returns None, or (kind, description) of the first that fails."""
    path = os.path.join(scratch_root, "replay.pkl")
    if os.path.exists(path):
        os.remove(path)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(dn, 2)
            sys.stdout = open(os.devnull, "w")
            out = None
            for case in cases:
                ctx, e = run_case(sub, case, scratch_root)
                if e is not None:
                    out = (classify_exception(e), describe(e))
                    break
            with open(path, "wb") as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    if not os.path.exists(path):
        return ("harness", "the replay crashed")
    with open(path, "rb") as fh:
        return pickle.load(fh)


def confirm(sub, failure, scratch_root, seconds):
    """The failing case alone, or else the shortest history found that fails. Returns (cases, description) or None."""
    r = replay_cases(sub, [failure["case"]], scratch_root)
    if r and r[0] == "violation":
        return [failure["case"]], r[1]
    t_end = time.time() + seconds
    hist = [json.loads(h) for h in failure["history"]]      # the last one failed first
    r = replay_cases(sub, hist, scratch_root)
    if not r or r[0] != "violation":
        return None
    best = (hist, r[1])
    n = 2
    while n < len(best[0]):                                 # a short tail may do
        r = replay_cases(sub, hist[-n:], scratch_root)
        if r and r[0] == "violation":
            best = (hist[-n:], r[1])
            break
        n *= 2
    step = max(1, len(best[0]) // 2)
    while time.time() < t_end:                              # drop what is not needed
        k, cut = 0, False
        while k < len(best[0]) - 1 and time.time() < t_end:
            trial = best[0][:k] + best[0][min(k + step, len(best[0]) - 1):]
            r = replay_cases(sub, trial, scratch_root)
            if r and r[0] == "violation":
                best, cut = (trial, r[1]), True
            else:
                k += step
        if step == 1 and not cut:
            break
        step = max(1, step // 2)
    return best


def jobseed(*parts):
    return zlib.crc32("|".join(str(p) for p in parts).encode())


def run_jobs(jobs, nproc, scratch_root, hard_end):
    """jobs: list of (tag, callable). Fork one child per job, nproc at a time."""
    pending = list(enumerate(jobs))[::-1]
    running = {}
    results = {}
    stop = False
    while pending or running:
        while pending and len(running) < nproc and not stop:
            i, (tag, fn) = pending.pop()
            path = os.path.join(scratch_root, f"res{i}.pkl")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setsid()
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(dn, 2)
                    sys.stdout = open(os.devnull, "w")
                    r = fn()
                    with open(path + ".tmp", "wb") as fh:
                        pickle.dump(r, fh)
                    os.rename(path + ".tmp", path)
                except BaseException:
                    try:
                        with open(path + ".err", "w") as fh:
                            fh.write(traceback.format_exc())
                    except BaseException:
                        pass
                    code = 3
                os._exit(code)
            running[pid] = (i, tag, path)
        if not running:
            break
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > hard_end:
                stop = True
                for p in list(running):
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                for p in list(running):
                    i, tag, path = running.pop(p)
                    os.waitpid(p, 0)
                    results[i] = (tag, "timeout", None)
                for i, (tag, fn) in pending:
                    results[i] = (tag, "timeout", None)
                pending = []
            time.sleep(0.02)
            continue
        if pid not in running:
            continue
        i, tag, path = running.pop(pid)
        if os.path.exists(path):
            with open(path, "rb") as fh:
                r = pickle.load(fh)
            results[i] = (tag, "ok", r)
            if r["failure"] is not None:
                # a violation is all we need: do not start further jobs
                for j, (t2, fn) in pending:
                    results[j] = (t2, "notrun", None)
                pending = []
        else:
            err = ""
            if os.path.exists(path + ".err"):
                err = open(path + ".err").read()
            results[i] = (tag, "crash", f"status={status} {err}")
    return [results[i] for i in sorted(results)]
