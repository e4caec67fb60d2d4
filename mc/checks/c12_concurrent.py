"""C12: concurrent users of one cache neither race nor hang."""
import itertools
import os
import shutil

from elsie.utils.cache import FsCache

from .. import sched

ID = "C12"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real FsCache: all interleavings of its lines and lock "
             "operations up to a preemption bound, for all small programs of concurrent requests "
             "with all failure patterns of the constructors")
NOTE = ("Real threads are run one at a time by a scheduler that may switch before every line of "
        "the cache and at every lock operation; every schedule with at most the given number of "
        "preemptions is executed. Checked: no deadlock, one construction of an artefact at a time "
        "and none when it is complete, complete file at return, error to the caller of the failed "
        "construction, construction possible afterwards, independent artefacts do not wait.")
ASSUMPTIONS = ["preemption at line granularity of elsie code (bytecode granularity in thorough)",
               "the global interpreter lock: single bytecodes and dict/set operations are atomic"]
BOUND = {"quick": "2 threads x 1 request, <= 2 preemptions (1 for some failure patterns); 2 threads x "
                  "2 requests and 3 threads x 1 request, <= 1 preemption; 5 failure patterns",
         "thorough": "2 threads <= 3 preemptions, 3 threads <= 2, bytecode granularity <= 2"}
CASE_TIMEOUT = 900

# request: (kind, key); kinds: e = ensure, g = get, f = ensure_by_file
REQS = [["e", "a"], ["e", "b"], ["g", "a"], ["f", "a"]]
# behaviour of the constructions, in order of their start per key; the last one is repeated
FAIL = ["ok", "fail-ok", "fail", "partial-ok", "nofile-ok"]


def cases(tier, env):
    """The expensive ones first."""
    return iter(sorted(all_cases(tier), key=lambda c: (-c[3], -len(c[1]))))


def all_cases(tier):
    th = tier == "thorough"
    # one thread: sequences (no interleaving)
    for n in (1, 2, 3):
        for p in itertools.product(REQS, repeat=n):
            for f in FAIL:
                yield ["tasks", [list(p)], f, 2, 0]
    # two threads, one request each
    for p in itertools.combinations_with_replacement(REQS, 2):
        for f in FAIL:
            b = 2 if p[0] == p[1] == ["e", "a"] or f == "fail-ok" and p[0] == ["e", "a"] or \
                f == "ok" and p[0] != p[1] else 1
            yield ["tasks", [[p[0]], [p[1]]], f, 3 if th else b, 0]
            if th:
                yield ["tasks", [[p[0]], [p[1]]], f, 1, 1]
                yield ["tasks", [[p[0]], [p[1]]], f, 2, 1]
    # gate: the construction of a can finish only after the request of b returned
    for f in ("gate",):
        for bound in (2, 3) if th else (1, 2):
            yield ["gate", [[["e", "a"]], [["e", "b"]]], f, bound, 0]
            yield ["gate", [[["e", "a"]], [["g", "b"]]], f, bound, 0]
            yield ["gate", [[["g", "a"]], [["e", "b"]]], f, bound, 0]
        yield ["gate", [[["e", "a"]], [["e", "b"]], [["e", "a"]]], f, 1, 0]
        yield ["gate", [[["e", "a"]], [["e", "b"]], [["e", "b"]]], f, 1, 0]
    R = [["e", "a"], ["e", "b"]]
    # two threads, up to two requests each
    for n, m in ((1, 2), (2, 2)):
        for p in itertools.product(R, repeat=n):
            for q in itertools.product(R, repeat=m):
                if p[0][1] == "b" or n == m and list(p) > list(q):
                    continue
                for f in ("ok", "fail-ok", "fail"):
                    yield ["tasks", [list(p), list(q)], f, 2 if th or n == 1 and f == "fail-ok" else 1, 0]
    # three threads
    for p in itertools.combinations_with_replacement(R, 3):
        for f in FAIL if th else ("ok", "fail-ok", "fail"):
            yield ["tasks", [[x] for x in p], f, 2 if th else 1, 0]
    for f in ("ok", "fail-ok", "fail"):
        yield ["tasks", [[["e", "a"]], [["e", "a"]], [["g", "a"]]], f, 1, 0]
        if th:
            yield ["tasks", [[["e", "a"]]] * 4, f, 1, 0]
    # an already complete artefact
    for p in itertools.combinations_with_replacement(REQS, 2):
        yield ["warm", [[p[0]], [p[1]]], "ok", 2 if th else 1, 0]
    yield ["warm", [[["e", "a"]], [["e", "a"], ["e", "b"]], [["e", "b"]]], "ok", 1, 0]
    # pruning afterwards / nowait
    for f in FAIL:
        yield ["nowait", [[["e", "a"]], [["n", "a"]]], f, 2 if th else 1, 0]
        yield ["nowait", [[["e", "a"]], [["n", "a"]], [["e", "a"]]], f, 1, 0]


class Boom(Exception):
    pass


CONTENT = {k: f"complete content of {k}\n" * 3 for k in "ab"}


class Run:
    """One execution."""

    def __init__(self, env, rec, case):
        self.kind, self.tasks, self.fail, self.bound, self.opc = case
        self.rec = rec
        d = env.data.get("dir")
        if d is None:
            d = env.data["dir"] = env.fresh_dir()
            env.data["src"] = env.fresh_dir()
            for k in "ab":
                with open(os.path.join(env.data["src"], k), "w") as f:
                    f.write("input " + k)
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        self.src = env.data["src"]
        self.dir = d
        self.cache = FsCache(d, "v")
        self.active = {"a": 0, "b": 0}
        self.starts = {"a": 0, "b": 0}
        self.complete = set()
        self.failed = set()           # (task, key) whose construction failed
        self.results = {}
        self.errors = []
        self.gate = False
        self.clock = 0
        if self.kind == "warm":
            self.request("main", ["e", "a"], 0)
            self.starts = {"a": 0, "b": 0}

    def bad(self, msg, **kw):
        self.errors.append((msg, kw))

    def behaviour(self, key, n):
        seq = self.fail.split("-")
        return seq[min(n, len(seq) - 1)]

    def construct(self, task, key, output):
        """Common body of all constructors; output is None for get."""
        s = sched.Scheduler.current
        n = self.starts[key]
        self.starts[key] += 1
        self.active[key] += 1
        if self.active[key] > 1:
            self.bad("two constructions of one artefact at the same time", key=key)
        if key in self.complete:
            self.bad("a complete artefact is constructed again", key=key)
        try:
            s.point()
            how = self.behaviour(key, n)
            if how == "gate":
                if key == "a":
                    self.gate_lock.acquire()
                    self.gate_lock.release()
                how = "ok"
            if how == "fail":
                self.failed.add((task, key))
                raise Boom(key)
            text = CONTENT[key]
            if output is None:
                s.point()
                if how in ("partial", "nofile"):
                    self.failed.add((task, key))
                    raise Boom(key)
                self.last(key)
                return text
            if how == "nofile":
                self.failed.add((task, key))
                return None
            with open(output, "w") as f:
                f.write(text[:10])
                f.flush()
                s.point()
                if how == "partial":
                    self.failed.add((task, key))
                    raise Boom(key)
                f.write(text[10:])
            self.last(key)
            s.point()
        finally:
            self.active[key] -= 1

    def last(self, key):
        pass

    def request(self, task, req, i):
        kind, key = req
        data = "input " + key

        def c(inp, output, data_type):
            want = data.encode() if kind == "f" else data
            if inp != want or data_type != "txt":
                self.bad("constructor gets a wrong input", got=[repr(inp), data_type])
            return self.construct(task, key, output)

        def cg(inp):
            if inp != data:
                self.bad("constructor gets a wrong input", got=repr(inp))
            return self.construct(task, key, None)

        before = (task, key) in self.failed
        self.failed.discard((task, key))
        try:
            if kind == "g":
                res = self.cache.get(data, "txt", cg)
            elif kind == "f":
                res = self.cache.ensure_by_file(os.path.join(self.src, key), "txt", c)
            elif kind == "n":
                self.cache.ensure(data, "txt", c, wait_on_collision=False)
                res = None
            else:
                res = self.cache.ensure(data, "txt", c)
        except sched.Kill:
            raise
        except Exception as e:
            self.results[(task, i)] = "error"
            if not self.failed:
                # nobody's construction failed
                if not (isinstance(e, Boom) or before):
                    self.bad("request fails although nothing failed", error=repr(e), req=req)
            return
        own = (task, key) in self.failed
        self.results[(task, i)] = "ok"
        if own:
            self.bad("the failure of a construction is not reported to its caller", req=req)
        if kind == "n":
            return
        if kind == "g":
            text = res
        else:
            try:
                with open(res) as f:
                    text = f.read()
            except OSError as e:
                self.bad("a request returned but the artefact does not exist", error=repr(e),
                         req=req)
                return
        if text != CONTENT[key]:
            self.bad("a request returned but the artefact is incomplete", req=req, got=text[:20])
        self.complete.add(key)

    def body(self, t):
        def fn():
            for i, req in enumerate(self.tasks[t]):
                self.request(t, req, i)
                if self.kind == "gate" and req[1] == "b":
                    if self.gate_lock.locked():
                        self.gate_lock.release()

        return fn

    def check(self, s):
        rec = self.rec
        rec.trace()
        rec.step(s.steps)
        rec.count("schedules")
        sch = [c[1] for c in s.choices]
        if s.deadlock:
            rec.fail("deadlock: some request never returns", schedule=sch, stop=True,
                     detail=str(s.deadlock), results=repr(self.results))
        for t, reqs in enumerate(self.tasks):
            for i in range(len(reqs)):
                if (t, i) not in self.results:
                    self.bad("a request ended without an answer", task=t, request=i)
        rec.outcome([self.kind, self.tasks, self.fail, repr(sorted(self.results.items(), key=str)),
                     sorted(self.starts.items())])
        if not any(self.behaviour(k, n) != "ok" for k in "ab" for n in range(3)) \
                and "error" in self.results.values():
            self.bad("a request fails although nothing failed")
        # afterwards: everything can be constructed (again), complete things are not
        self.fail = "ok"
        self.starts = {"a": 0, "b": 0}
        if not self.errors:
            with_main = "later"
            for key in "ab":
                n = self.starts[key]
                was = key in self.complete
                try:
                    self.request(with_main, ["e", key], 0)
                except sched.Deadlock:
                    self.bad("a later request never returns", key=key)
                    break
                if self.results[(with_main, 0)] != "ok":
                    self.bad("a later request fails", key=key)
                if was and self.starts[key] != n:
                    self.bad("a complete artefact is constructed again", key=key)
            self.cache.remove_unused()
            for key in "ab":
                try:
                    self.request(with_main, ["e", key], 0)
                except sched.Deadlock:
                    self.bad("a later request never returns", key=key)
            left = sorted(os.listdir(self.dir))
            if len(left) != 2:
                self.bad("unexpected files in the cache directory", got=left)
        for msg, kw in self.errors[:2]:
            rec.fail(msg, schedule=sch, **kw)
        if self.errors:
            from ..engine import StopCase
            raise StopCase()


def in_elsie(name):
    return "/elsie/" in name and "site-packages" not in name


def run(case, rec, env):
    kind, tasks, fail, bound, opc = case
    rec.state(case)

    def make():
        r = Run(env, rec, case)
        if kind == "gate":
            r.gate_lock = sched.SchedLock()
            r.gate_lock.holder = "gate"
        return [r.body(t) for t in range(len(tasks))], r.check

    if sched.explore(make, in_elsie, bound, opcodes=bool(opc), deadline=env.deadline) is None:
        rec.capped = True
