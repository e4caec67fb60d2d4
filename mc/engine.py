"""Bounded exhaustive exploration engine.

A check module enumerates *cases* (JSON values; each one is a complete program, input, history,
schedule or fault plan), runs every one of them against the real code, and compares each
observation with a reference model.  The engine shards the enumeration over forked workers,
counts distinct states/transitions, re-runs every failing case in a fresh process before reporting,
writes a replayable artefact for it, and writes the evidence file.

Check module interface:
    ID, LEVEL, TECHNIQUE, NOTE           (strings; used for MANIFEST.json)
    ASSUMPTIONS                          (list of strings, optional)
    CAP = {"quick": s, "thorough": s}    (optional wall clock caps)
    def setup(env): ...                  once per worker process (env: engine.Env)
    def cases(tier, env): iterator       deterministic enumeration, simplest first
    def run(case, rec, env): ...         run one case; rec.fail(...) on disagreement
"""
import faulthandler
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence") if REPO == "/repo" else os.environ.get("MC_EVIDENCE", "/tmp/mc-evidence")
NPROC = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
CASE_TIMEOUT = float(os.environ.get("MC_CASE_TIMEOUT", "90"))
MAX_VIOLATIONS_PER_WORKER = 12
# for tools/mutate.py: every worker ends as soon as one has found a violation
FIRST = bool(os.environ.get("MC_FIRST"))


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    """Raised by Recorder.fail(stop=True) to abandon the case after a failure."""


def canon(value):
    return json.dumps(value, sort_keys=True, ensure_ascii=True, default=repr)


def h64(value):
    if not isinstance(value, (str, bytes)):
        value = canon(value)
    if isinstance(value, str):
        value = value.encode("utf8", "surrogatepass")
    return hashlib.blake2b(value, digest_size=8).digest()


class Env:
    """Per-process environment: scratch directory, tier, seed and a place for the check's state."""

    def __init__(self, tier, seed, scratch):
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.data = {}
        self.deadline = None          # explorations inside of a case may stop then (rec.capped)
        self._n = 0

    def fresh_dir(self, name="d"):
        self._n += 1
        path = os.path.join(self.scratch, f"{name}{os.getpid()}-{self._n}")
        os.makedirs(path)
        return path


class Recorder:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.counters = {}
        self.failures = []
        self.capped = False

    def state(self, value):
        """Count a distinct (canonical) state / configuration reached."""
        self.states.add(h64(value))

    def outcome(self, value):
        """Count a distinct observed outcome (used to show the exploration is not vacuous)."""
        self.outcomes.add(h64(value))

    def step(self, n=1):
        """Count operations whose effect on the real code was compared with the model."""
        self.transitions += n

    def trace(self, n=1):
        """Count complete runs of the real implementation compared with the model."""
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fail(self, message, key=None, stop=False, **detail):
        # Failures travel between processes and to JSON files
        detail = {k: v if v is None or isinstance(v, (str, int, float)) else repr(v)[:4000]
                  for k, v in detail.items()}
        self.failures.append({"message": message, "key": key, "detail": detail})
        if stop:
            raise StopCase()

    def expect(self, got, want, message, key=None, **detail):
        if got != want:
            self.fail(message, key=key, got=got, want=want, **detail)
            return False
        return True


def _alarm(_sig, _frame):
    raise CaseTimeout()


def run_one(mod, case, env, rec):
    """Runs one case; every escaping exception is a failure (the real code was given a legal
    program, so neither it nor the observation of its result may fail)."""
    before = len(rec.failures)
    signal.signal(signal.SIGALRM, _alarm)
    # again and again: the code under test may wait once more while it handles the exception
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT), 5)
    try:
        mod.run(case, rec, env)
    except StopCase:
        pass
    except CaseTimeout:
        rec.fail("no answer within the time limit (hang)", key="hang")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        rec.fail(
            f"unexpected {type(e).__name__}: {str(e)[:300]}",
            key="exception",
            traceback=traceback.format_exc()[-1800:],
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rec.failures[before:]


def _worker(mod, tier, seed, scratch, index, nproc, deadline, wfd):
    # sys.stdout of the code under test is noise
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = os.fdopen(wfd, "wb")
    # a hang inside C code or a SIGALRM-swallowing loop: dump and let the parent see the death
    faulthandler.enable()
    env = Env(tier, seed, os.path.join(scratch, f"w{index}"))
    os.makedirs(env.scratch, exist_ok=True)
    env.deadline = deadline
    rec = Recorder()
    known, unknown = load_known(mod.ID), 0
    violations = []
    done = 0
    capped = False
    current = None
    samples = []
    t_start = time.time()
    prog = os.path.join(scratch, f"progress{index}")
    setup = getattr(mod, "setup", None)
    try:
        if setup:
            setup(env)
        for n, case in enumerate(mod.cases(tier, env)):
            if n % nproc != index:
                continue
            if (done & 15) == 0:
                if time.time() > deadline:
                    capped = True
                    break
            if FIRST and os.path.exists(os.path.join(scratch, "stop")):
                break
            current = case
            with open(prog, "w") as f:
                f.write(str(n))
            fails = run_one(mod, case, env, rec)
            done += 1
            if len(samples) < 4 or (n * 2654435761 + seed) % 4294967296 < 4294967296 // (done + 1):
                samples.append(case)
                if len(samples) > 8:
                    del samples[(n + seed) % 4]
            if fails:
                violations.append({"n": n, "case": case, "failures": fails[:4]})
                if not is_known(known, case, fails[:4]):
                    unknown += 1
                    if FIRST:
                        open(os.path.join(scratch, "stop"), "w").close()
                if unknown >= MAX_VIOLATIONS_PER_WORKER or any(f["key"] == "hang" for f in fails):
                    break
        teardown = getattr(mod, "teardown", None)
        if teardown:
            teardown(env)
        result = {
            "ok": True, "done": done, "capped": capped or rec.capped, "violations": violations,
            "states": rec.states, "outcomes": rec.outcomes, "transitions": rec.transitions,
            "traces": rec.traces, "counters": rec.counters, "samples": samples,
        }
    except BaseException:  # noqa
        result = {"ok": False, "error": traceback.format_exc(), "case": current}
    pickle.dump(result, out)
    out.flush()
    out.close()
    os._exit(0)


def _violations(data):
    try:
        return pickle.loads(data).get("violations")
    except Exception:
        return True


def _explore(mod, tier, seed, scratch, cap):
    deadline = time.time() + cap
    pipes = []
    for i in range(NPROC):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for _, r2, _ in pipes:
                    os.close(r2)
                _worker(mod, tier, seed, scratch, i, NPROC, deadline, w)
            finally:
                os._exit(3)
        os.close(w)
        pipes.append((pid, r, i))
    bufs = {r: b"" for _, r, _ in pipes}
    open_fds = set(bufs)
    hard = deadline + 150
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_fds.discard(fd)
                # with a violation at hand nobody waits long for the others
                if _violations(bufs[fd]):
                    hard = min(hard, time.time() + 120)
            else:
                bufs[fd] += chunk
        if time.time() > hard:
            break
    results = []
    for pid, r, i in pipes:
        if r in open_fds:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        os.close(r)
        res = None
        if bufs[r]:
            try:
                res = pickle.loads(bufs[r])
            except Exception:
                res = None
        if res is None:
            n = -1
            try:
                with open(os.path.join(scratch, f"progress{i}")) as f:
                    n = int(f.read() or -1)
            except (OSError, ValueError):
                pass
            res = {"ok": False, "died": True, "n": n,
                   "error": "worker died or hung while running case #%d" % n}
        results.append(res)
    return results


def _in_child(fn, timeout=None):
    """Runs fn() in a forked child, returns its (pickled) result or None if the child died."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            res = fn()
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        except BaseException:  # noqa
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    t_end = time.time() + (CASE_TIMEOUT * 2 if timeout is None else max(1, timeout))
    while True:
        ready, _, _ = select.select([r], [], [], max(0, t_end - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return None
    return pickle.loads(data)


def run_cases_fresh(mod, cases, tier, seed, scratch, timeout=None):
    """Runs a list of cases in a fresh process; returns the failures of the last one."""

    def fn():
        env = Env(tier, seed, tempfile.mkdtemp(dir=scratch))
        if getattr(mod, "setup", None):
            mod.setup(env)
        fails = []
        for case in cases:
            rec = Recorder()
            fails = run_one(mod, case, env, rec)
        if getattr(mod, "teardown", None):
            mod.teardown(env)
        return fails

    return _in_child(fn, timeout)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e.get("property") == pid]


def is_known(known, case, failures):
    """A failing case is known iff it is listed literally (same case, same failure messages'
    keys)."""
    c = canon(case)
    for e in known:
        cases = [canon(x) for x in e["cases"]]
        if c in cases:
            keys = e.get("keys")
            if keys is None or all(f["key"] in keys for f in failures):
                return e
    return None


def prefix_cases(mod, tier, env_scratch, seed, n, nproc):
    """The cases the worker of case #n had run before it."""
    env = Env(tier, seed, env_scratch)
    res = []
    for i, case in enumerate(mod.cases(tier, env)):
        if i > n:
            break
        if i % nproc == n % nproc:
            res.append(case)
    return res


def scratch_base():
    """A memory file system if there is one with enough space."""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 2 << 30 and os.access("/dev/shm", os.W_OK | os.X_OK):
            return "/dev/shm"
    except OSError:
        pass
    return None


def main_check(mod, tier=None, seed=None, replay=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    t0 = time.time()
    pid = mod.ID
    scratch = tempfile.mkdtemp(prefix=f"mc-{pid}-", dir=scratch_base())
    try:
        return _main(mod, pid, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(mod, pid, tier, seed, replay, scratch, t0):
    if replay:
        with open(replay) as f:
            art = json.load(f)
        fails = run_cases_fresh(mod, art["cases"], art.get("tier", tier), seed, scratch)
        if fails is None:
            print("replay: the process died")
            fails = [{"message": "process died", "key": "died", "detail": {}}]
        for fl in fails:
            print("FAIL:", fl["message"])
            for k, v in fl["detail"].items():
                print("   ", k, "=", v)
        print("reproduced" if fails else "not reproduced")
        if fails:
            print(f"VIOLATION property={pid} replay={replay}")
        return 1 if fails else 0

    cap = getattr(mod, "CAP", {}).get(tier) or {"quick": 300, "thorough": 7200}[tier]
    results = _explore(mod, tier, seed, scratch, cap)

    states, outcomes, transitions, traces, done = set(), set(), 0, 0, 0
    counters, samples, violations = {}, [], []
    capped = False
    harness_errors = []
    for i, r in enumerate(results):
        if not r.get("ok"):
            if r.get("died"):
                n = r["n"]
                case = None
                if n >= 0:
                    for k, c in enumerate(mod.cases(tier, Env(tier, seed, scratch))):
                        if k == n:
                            case = c
                            break
                violations.append({"n": n, "case": case,
                                   "failures": [{"message": r["error"], "key": "died",
                                                 "detail": {}}]})
            else:
                harness_errors.append(r["error"])
            continue
        states |= r["states"]
        outcomes |= r["outcomes"]
        transitions += r["transitions"]
        traces += r["traces"]
        done += r["done"]
        capped = capped or r["capped"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += r["samples"]
        violations += r["violations"]

    known = load_known(pid)
    reported_known, real = {}, []
    for v in sorted(violations, key=lambda v: (len(canon(v["case"])), v["n"])):
        e = is_known(known, v["case"], v["failures"])
        if e is not None:
            reported_known[e["what"]] = e
        else:
            real.append(v)
    # Listed findings whose case is not in this tier's enumeration are demonstrated directly.
    for e in known:
        if e["what"] in reported_known:
            continue
        for c in e["cases"][:1]:
            fails = run_cases_fresh(mod, [c], tier, seed, scratch)
            if fails:
                if is_known(known, c, fails):
                    reported_known[e["what"]] = e
                else:
                    real.append({"n": -1, "case": c, "failures": fails})

    artefacts = []
    end = t0 + cap + 400            # the time for running the failing cases again
    left = lambda: end - time.time()        # noqa
    for v in real[:3]:
        fails = run_cases_fresh(mod, [v["case"]], tier, seed, scratch, left())
        cases, note = [v["case"]], "reproduced in a fresh process"
        if fails is None:
            note = "a fresh process running this case dies or gives no answer in time"
        elif not fails and v["n"] >= 0:
            # depends on what ran before in the same process: replay the worker's history
            note = "needs the preceding cases of the same process"
            pre = prefix_cases(mod, tier, scratch, seed, v["n"], NPROC)
            for length in (2, 9, 65, len(pre)):
                cases = pre[-length:]
                fails = run_cases_fresh(mod, cases, tier, seed, scratch, left())
                if fails is None or fails:
                    break
            else:
                note = "observed once; not reproduced by re-running the same cases"
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        path = os.path.join(EVIDENCE, "replay", f"{pid}-{h64(v['case']).hex()}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "cases": cases, "note": note,
                       "failures": v["failures"],
                       "how": f"/verif/run.sh {pid} --replay {path}"},
                      f, indent=1, default=repr)
        artefacts.append((path, v, note))

    seen, uniq = set(), []
    for s in samples:
        c = canon(s)
        if c not in seen:
            seen.add(c)
            uniq.append(s)
    coverage = {
        "cases": done,
        "distinct_outcomes": len(outcomes),
        "exhaustive": (not capped) and not real and not harness_errors,
        "bound": getattr(mod, "BOUND", {}).get(tier, ""),
        "samples": uniq[:6] or ["none"],
    }
    if mod.LEVEL == "model_checking":
        coverage.update(states=len(states), transitions=transitions,
                        traces_validated_against_impl=traces)
    else:
        coverage.update(evaluations=transitions, distinct_nontrivial=len(states),
                        rule=getattr(mod, "RULE", ""), complete_runs=traces)
    if counters:
        coverage["counters"] = dict(sorted(counters.items()))
    if capped:
        coverage["capped"] = f"wall clock cap of {cap} s reached after {done} cases"
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(real),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")

    for what in sorted(reported_known):
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid}: cases={done} states={len(states)} transitions={transitions} "
          f"traces={traces} outcomes={len(outcomes)} capped={capped} "
          f"wall={evidence['wall_s']}s")
    for k, v in sorted(counters.items()):
        print(f"   {k}={v}")
    for path, v, note in artefacts:
        print(f"violation ({note}): case={canon(v['case'])[:600]}")
        for fl in v["failures"][:2]:
            print("   ", fl["message"])
            for k, d in fl["detail"].items():
                print("       ", k, "=", str(d)[:700])
    if artefacts:
        for path, v, note in artefacts[:1]:
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness_errors:
        print("harness error:\n" + harness_errors[0])
        return 2
    if done == 0 or transitions == 0:
        print("harness error: nothing was explored")
        return 2
    return 0
