"""Stateless exploration of thread interleavings of real Python code.

Real threads run one at a time; before every traced line (of files chosen by `trace`) and at every
lock operation the scheduler may switch to another thread.  `explore` enumerates *all* schedules
with at most `bound` preemptions (switches away from a thread that could continue) by depth-first
search over the recorded choices.  Locks, conditions, events and queues made by `threading` while
the patch is active are built on the scheduler's lock, so blocking is seen and a deadlock (no
thread can run) is detected at once.
"""
import _thread
import sys
import threading
import time

_real_lock = _thread.allocate_lock


class Deadlock(Exception):
    pass


class Kill(BaseException):
    """Unwinds the threads of an abandoned execution."""


class Task:
    def __init__(self, sched, fn, name):
        self.sched = sched
        self.fn = fn
        self.name = name
        self.baton = _real_lock()
        self.baton.acquire()
        self.blocked_on = None
        self.timed = False
        self.timed_out = False
        self.done = False
        self.started = False


class SchedLock:
    """Non-reentrant lock whose blocking is visible to the scheduler."""

    def __init__(self):
        self.sched = Scheduler.current
        self.holder = None

    def acquire(self, blocking=True, timeout=-1):
        s = self.sched
        t = s.active_task()
        if t is None:                    # outside of an execution (set-up, checks)
            if self.holder is not None:
                if not blocking:
                    return False
                raise Deadlock("lock left locked")
            self.holder = "main"
            return True
        s.point()
        while self.holder is not None:
            if not blocking:
                return False
            t.timed = timeout is not None and timeout >= 0
            t.timed_out = False
            s.block(t, self)
            if t.timed_out:
                t.timed_out = False
                return False
        self.holder = t
        return True

    def release(self):
        if self.holder is None:
            raise RuntimeError("release unlocked lock")
        self.holder = None
        for t in self.sched.tasks:
            if t.blocked_on is self:
                t.blocked_on = None
        if self.sched.active_task() is not None:
            self.sched.point()

    def locked(self):
        return self.holder is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.holder = None


class Scheduler:
    current = None

    def __init__(self, trace, prefix, bound, opcodes=False):
        self.trace_files = trace        # predicate on file names
        self.prefix = prefix
        self.bound = bound
        self.opcodes = opcodes
        self.choices = []               # [(options, chosen index)]
        self.preemptions = 0
        self.tasks = []
        self.running = None
        self.by_ident = {}
        self.main = _real_lock()
        self.main.acquire()
        self.deadlock = False
        self.killing = False
        self.steps = 0

    def active_task(self):
        return self.by_ident.get(_thread.get_ident())

    # --- tracing

    def _tracer(self, frame, event, arg):
        if self.preemptions >= self.bound and self.steps < 2000:
            return None
        if not self.trace_files(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if self.preemptions >= self.bound and self.steps < 2000:
            return None
        if event == "opcode" or event == "line" and not self.opcodes:
            self.point()
        return self._local

    # --- scheduling

    def enabled(self):
        return [t for t in self.tasks if not t.done and t.blocked_on is None]

    def point(self):
        """The running thread may be preempted here."""
        t = self.active_task()
        if t is None:
            return
        if self.killing:
            raise Kill()
        self.steps += 1
        if self.steps > 5000:
            self.deadlock = "livelock"
            self.finish_all(t)
        if self.preemptions >= self.bound:
            return
        others = [x for x in self.enabled() if x is not t]
        if not others:
            return
        i = self.choose(1 + len(others))
        if i:
            self.preemptions += 1
            self.switch(t, others[i - 1])

    def choose(self, n):
        k = len(self.choices)
        i = self.prefix[k] if k < len(self.prefix) else 0
        if i >= n:
            raise RuntimeError("nondeterministic execution")
        self.choices.append((n, i))
        return i

    def sleep(self, seconds):
        """time.sleep: the others may run as long as they want."""
        t = self.active_task()
        if t is None:
            return
        if self.killing:
            raise Kill()
        self.steps += 1
        if self.steps > 3000:
            self.deadlock = "livelock"
            self.finish_all(t)
        others = [x for x in self.enabled() if x is not t]
        if others:
            i = self.choose(len(others)) if len(others) > 1 else 0
            self.switch(t, others[i])

    def switch(self, t, to):
        self.running = to
        to.baton.release()
        t.baton.acquire()
        if self.killing:
            raise Kill()

    def block(self, t, what):
        t.blocked_on = what
        self.leave(t)

    def leave(self, t):
        """The running thread cannot continue (blocked or done)."""
        en = self.enabled()
        if not en:
            timed = [x for x in self.tasks if not x.done and x.blocked_on is not None and x.timed]
            if timed:
                x = timed[0]
                x.timed_out = True
                x.blocked_on = None
                en = [x]
        if not en:
            if all(x.done for x in self.tasks):
                self.main.release()
                return
            self.deadlock = self.deadlock or True
            self.finish_all(t)
            return
        i = self.choose(len(en)) if len(en) > 1 else 0
        to = en[i]
        self.running = to
        if to is t:
            return
        to.baton.release()
        if not t.done:
            t.baton.acquire()
            if self.killing:
                raise Kill()

    def finish_all(self, t):
        """Ends the execution: every other thread is unwound one after another."""
        self.killing = True
        self.killer = t
        for x in self.tasks:
            if x is not t and not x.done:
                x.baton.release()
                x.thread.join(10)
        self.main.release()
        if not t.done:
            raise Kill()

    # --- running

    def _body(self, t):
        t.baton.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if not self.killing:
                sys.settrace(self._tracer)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except Kill:
            pass
        finally:
            t.done = True
            if not self.killing:
                try:
                    self.leave(t)
                except Kill:
                    pass

    def run(self, fns):
        for i, fn in enumerate(fns):
            t = Task(self, fn, i)
            self.tasks.append(t)
        for t in self.tasks:
            t.thread = RealThread(self._body, t)
        n = len(self.tasks)
        first = self.tasks[self.choose(n) if n > 1 else 0]
        self.running = first
        first.baton.release()
        self.main.acquire()
        for t in self.tasks:
            t.thread.join(10)


class RealThread:
    """A thread that uses nothing of the (patched) threading module."""

    def __init__(self, fn, *args):
        self.lock = _real_lock()
        self.lock.acquire()

        def body():
            try:
                fn(*args)
            finally:
                self.lock.release()

        _thread.start_new_thread(body, ())

    def join(self, timeout):
        if self.lock.acquire(timeout=timeout):
            self.lock.release()
            return True
        return False


class Patch:
    """Makes threading build its primitives on SchedLock."""

    def __enter__(self):
        self.saved = (threading.Lock, threading._allocate_lock, threading.RLock)
        self.real_sleep = time.sleep
        time.sleep = lambda seconds: Scheduler.current.sleep(seconds)
        threading.Lock = SchedLock
        threading._allocate_lock = SchedLock
        threading.RLock = threading._PyRLock
        return self

    def __exit__(self, *a):
        time.sleep = self.real_sleep
        threading.Lock, threading._allocate_lock, threading.RLock = self.saved


def explore(make, trace, bound, opcodes=False, limit=None, on_run=None, deadline=None):
    """make() -> (list of functions, check(sched)); enumerates all schedules.
    Returns the number of executed schedules, None if the deadline stopped it."""
    prefix = []
    runs = 0
    with Patch():
        while True:
            s = Scheduler(trace, prefix, bound, opcodes)
            Scheduler.current = s
            fns, check = make()
            s.run(fns)
            runs += 1
            check(s)
            if on_run:
                on_run(s)
            if limit and runs >= limit:
                return runs
            if deadline and runs % 64 == 0 and time.time() > deadline:
                return None
            ch = s.choices
            k = len(ch) - 1
            while k >= 0 and ch[k][1] + 1 >= ch[k][0]:
                k -= 1
            if k < 0:
                return runs
            prefix = [c[1] for c in ch[:k]] + [ch[k][1] + 1]
