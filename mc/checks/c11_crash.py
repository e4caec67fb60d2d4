"""C11: a crash or a failed export never poisons the cache."""
import errno
import os
import shutil
import sys

import elsie

from .. import fakeproc
from ..engine import CaseTimeout, StopCase
from . import c10_cache as C10
from .c06_pure_render import read
from .c08_pages import pdf_pages

ID = "C11"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of crash points (before every file system operation on the "
             "cache directory, with torn prefixes of what was being written), of interrupts and "
             "I/O errors at the same points and of failures of the external programs at every "
             "command; every later session compared with an empty cache")
NOTE = ("The real session runs in a forked process that is ended at the k-th file system operation "
        "for every k (seen by an audit hook, independent of how the code writes), files changed "
        "since the previous operation are additionally cut to prefixes; then further sessions run "
        "in the left directory and must behave as with an empty cache.")
ASSUMPTIONS = ["process crash, not power loss: completed operations stay",
               "a program that fails does not report success (silently wrong exports are out of "
               "scope)"]
BOUND = {"quick": "6 killed programs x {new, used} cache x 2 outputs x all operations x prefixes "
                  "{0,1,n/2,n-1}; double crashes of 2 programs; all interrupts/I/O errors; every "
                  "command x 6 faults",
         "thorough": "all byte prefixes, double crashes of all programs, all later sessions"}
CASE_TIMEOUT = 100

PARTS = 8
PROGS = ["A", "A2", "B", "C"]
INKFAULTS = ["eof", "eof-partial", "eof-answer", "noexport", "nonnum", "empty", "partial-eof"]
TEXFAULTS = ["pdflatex", "pdf2svg", "pdf2svg-partial", "pdflatex-output", "pdflatex-killed", "pdf2svg-output",
             "pdf2svg-killed"]


def cases(tier, env):
    th = tier == "thorough"
    for prog in PROGS:
        for before in ("none", "same", "other"):
            for kind in ("pdf", "png"):
                for part in range(PARTS):
                    if not th and kind == "png" and before != "none":
                        continue
                    yield ["kill", prog, before, kind, part]
    for prog in PROGS:
        for part in range(PARTS):
            yield ["double", prog, "none", "pdf", part]
    for prog in PROGS:
        for how in ("interrupt", "ioerror", "ioerror-write"):
            for before in ("none", "other"):
                for part in range(PARTS):
                    yield [how, prog, before, "pdf", part]
    for prog in PROGS:
        for f in INKFAULTS:
            for part in range(PARTS):
                yield ["ink", prog, "none", "pdf", part, f]
        for f in TEXFAULTS:
            yield ["tex", prog, "none", "pdf", 0, f]
    for part in range(4 * PARTS):
        yield ["prefix", "C", "none", "pdf", part]
        if th:
            yield ["prefix", "A", "none", "pdf", part]
            yield ["prefix", "B", "same", "pdf", part]


REMOVALS = ("os.remove", "os.rmdir")     # possible on a full disk


class Hook:
    """The audit hook: counts modifying file system operations under `root`."""

    def __init__(self):
        self.root = None
        self.n = 0
        self.action = None          # fn(n)
        self.snaps = None
        self.busy = False

    def __call__(self, event, args):
        if self.root is None or self.busy:
            return
        if event == "open":
            path, _mode, flags = args
            if not isinstance(path, (str, bytes)) or not isinstance(flags, int):
                return
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                return
            paths = [path]
        elif event in ("os.rename", "os.link", "os.symlink"):
            paths = list(args[:2])
        elif event in ("os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.utime"):
            paths = [args[0]]
        else:
            return
        for p in paths:
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if isinstance(p, str) and os.path.abspath(p).startswith(self.root):
                break
        else:
            return
        self.busy = True
        self.event = event
        try:
            self.n += 1
            if self.snaps is not None:
                self.snaps.append(snapshot(self.root))
            if self.action is not None:
                self.action(self.n)
        finally:
            self.busy = False


HOOK = Hook()


def snapshot(root):
    res = {}
    for name in sorted(os.listdir(root)):
        try:
            st = os.stat(os.path.join(root, name))
        except OSError:
            continue
        res[name] = (st.st_size, st.st_mtime_ns, st.st_ino)
    return res


def setup(env):
    C10.setup(env)
    sys.addaudithook(HOOK)


def spec(prog, kind="pdf", mode="full"):
    return [prog, 0, 0, 0, kind, mode]


def other(prog):
    return {"A": "A2", "A2": "A", "B": "C", "C": "B"}[prog]


def killed_session(env, cache, sp, files, action):
    """Runs the session in a forked process with action(n) before the n-th operation.
    Returns (number of operations before the end, snapshots at the last two operations)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            HOOK.root = cache
            HOOK.n = 0
            last = [snapshot(cache), None]

            def act(n):
                last[1] = snapshot(cache)
                action(n, w, last)
                last[0] = last[1]

            HOOK.action = act
            try:
                C10.session(env, cache, sp, files)
            finally:
                HOOK.root = None
            last[1] = snapshot(cache)
            os.write(w, repr((HOOK.n, None, None)).encode())
            code = 0
        except BaseException as e:  # noqa
            os.write(w, repr((HOOK.n, "error", repr(e))).encode())
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    import ast

    return ast.literal_eval(data.decode())


def die_at(k):
    def action(n, w, last):
        if n == k:
            # a renamed file appears complete
            old = set(last[0].values())
            changed = [x for x in last[1] if last[1][x] not in old]
            os.write(w, repr((n, changed, None)).encode())
            os._exit(9)

    return action


def never(n, w, last):
    pass


def prepare(env, d, before, prog, kind):
    cache = os.path.join(d, "base")
    os.mkdir(cache)
    if before == "same":
        C10.session(env, cache, spec(prog, kind), d)
    elif before == "other":
        C10.session(env, cache, spec(other(prog), kind, "keep"), d)
    return cache


def copy(src, dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst)


def later(env, rec, cache, d, prog, kind, what, second=True):
    """Sessions after the failure."""
    plans = [[spec(prog, kind)]]
    if second:
        plans = [[spec(prog, kind, "keep"), spec(other(prog), kind, "keep"), spec(prog, kind)],
                 [spec(other(prog), kind), spec(prog, kind)]]
    for p, plan in enumerate(plans):
        dd = cache
        if p + 1 < len(plans):
            dd = os.path.join(d, "later")
            copy(cache, dd)
        for i, sp in enumerate(plan):
            try:
                svgs, out = C10.session(env, dd, sp, d)
            except (CaseTimeout, StopCase):
                raise
            except BaseException as e:  # noqa
                rec.fail("a session after the failure does not work", failure=what, plan=plan, at=i,
                         error=repr(e)[:300], stop=True)
            rsvgs, rout = C10.reference(env, sp, d)
            rec.step(len(svgs) + len(out))
            if svgs != rsvgs:
                rec.fail("pages after the failure differ", failure=what, plan=plan, at=i, stop=True)
            if out != rout:
                rec.fail("output after the failure differs", failure=what, plan=plan, at=i,
                         got=repr(out)[:300], want=repr(rout)[:300], stop=True)
        rec.trace()


def run(case, rec, env):
    HOOK.root = None
    d = env.fresh_dir()
    try:
        _run(case, rec, env, d)
    finally:
        HOOK.root = None
        HOOK.action = None
        C10.set_elsie_version(C10.ORIG_VERSION)
        shutil.rmtree(d, ignore_errors=True)


def _run(case, rec, env, d):
    how, prog, before, kind, part = case[:5]
    base = prepare(env, d, before, prog, kind)
    cache = os.path.join(d, "cache")
    sp = spec(prog, kind)
    if how in ("ink", "tex"):
        run_faults(case, rec, env, d, base, cache)
        return
    copy(base, cache)
    total, err, info = killed_session(env, cache, sp, d, never)
    if err:
        rec.fail("session fails without any failure", error=info, stop=True)
    if how in ("kill", "prefix"):
        for k in range(1, total + 1):
            if how == "kill" and k % PARTS != part:
                continue
            copy(base, cache)
            n, changed, info = killed_session(env, cache, sp, d, die_at(k))
            if changed == "error" or n != k:
                rec.fail("harness: operation not reached", k=k, n=n, info=info, stop=True)
            cuts = [None]
            for name in changed:
                size = os.path.getsize(os.path.join(cache, name))
                if how == "prefix":
                    cuts += [(name, c) for c in range(size) if c % (4 * PARTS) == part]
                else:
                    cuts += [(name, c) for c in sorted({0, 1, size // 2, size - 1}) if 0 <= c < size]
            if how == "prefix":
                cuts = cuts[1:]
            left = os.path.join(d, "left")
            copy(cache, left)
            for cut in cuts:
                copy(left, cache)
                if cut:
                    os.truncate(os.path.join(cache, cut[0]), cut[1])
                rec.state([prog, before, kind, k, cut and [cut[0].split(".")[-1], cut[1]]])
                rec.count("crash states")
                later(env, rec, cache, d, prog, kind, [how, k, cut], second=how == "kill")
    elif how == "double":
        for k in range(1, total + 1):
            if k % PARTS != part or (env.tier != "thorough" and prog != "C" and k % 3):
                continue
            copy(base, cache)
            killed_session(env, cache, sp, d, die_at(k))
            left = os.path.join(d, "left")
            copy(cache, left)
            j = 0
            while True:
                j += 1
                copy(left, cache)
                n, changed, info = killed_session(env, cache, sp, d, die_at(j))
                if changed == "error":
                    rec.fail("a session after the failure does not work", failure=[k], error=info,
                             stop=True)
                if changed is None:
                    break
                rec.state([prog, before, kind, k, j])
                rec.count("crash states")
                later(env, rec, cache, d, prog, kind, [how, k, j], second=False)
    else:
        for k in range(1, total + 1):
            if k % PARTS != part:
                continue
            copy(base, cache)
            rec.state([how, prog, before, k])
            interrupted(how, k, rec, env, cache, d, sp)
            later(env, rec, cache, d, prog, kind, [how, k])


def interrupted(how, k, rec, env, cache, d, sp):
    """The k-th operation raises; afterwards the work continues in the same session."""
    prog = sp[0]
    backend = C10.start_session(env, cache, 0, 0, 0)
    out = os.path.join(d, "out.pdf")
    path = lambda kind, v: os.path.join(d, "f." + kind)     # noqa
    rsvgs, rout = C10.reference(env, sp, d)

    def write_files():
        for name, data in C10.FILES.items():
            v = [op[1] for op in C10.PROGRAMS[prog] if op[0] == name]
            with open(path(name, 0), "wb") as f:
                f.write(data(v[0] if v else 0))

    def act(n):
        if n == k:
            if how == "interrupt":
                raise KeyboardInterrupt()
            if HOOK.event in REMOVALS:
                return
            raise OSError(errno.ENOSPC, "No space left on device")
        if how == "ioerror-write" and n > k and HOOK.event not in REMOVALS:
            raise OSError(errno.ENOSPC, "No space left on device")

    def attempt():
        deck = elsie.SlideDeck(width=200, height=100, backend=backend, cache_dir=cache)
        decks.append(deck)
        C10.build(deck, C10.PROGRAMS[prog], path)
        built.append(deck)
        deck.render(out)

    decks, built = [], []
    write_files()
    HOOK.n = 0
    HOOK.root = cache
    HOOK.action = act
    raised = None
    try:
        attempt()
    except (OSError, KeyboardInterrupt) as e:
        raised = e
    except fakeproc.Hang:
        raise
    except Exception as e:
        raised = e
    finally:
        HOOK.root = None
        HOOK.action = None
    rec.outcome([how, prog, repr(raised)[:60]])
    if raised is None:
        rec.count("swallowed")
    if how == "interrupt":
        C10.end_session(backend)
        return
    try:
        if built:
            built[0].render(out)
            got = pdf_pages(read(out))
            rec.step()
            if got != rout:
                rec.fail("rendering again after an I/O error gives a wrong output", k=k, how=how,
                         got=got, want=rout, stop=True)
        attempt()
        got = pdf_pages(read(out))
        rec.step()
        if got != rout:
            rec.fail("building again after an I/O error gives a wrong output", k=k, how=how,
                     got=got, want=rout, stop=True)
    finally:
        C10.end_session(backend)


def run_faults(case, rec, env, d, base, cache):
    how, prog, before, kind, part, fault = case
    sp = spec(prog, kind)
    w = env.data["world"]
    orig = C10.start_session
    k = part
    while True:
        copy(base, cache)
        def start(env, dd, ink, els, ttp):
            backend = orig(env, dd, ink, els, ttp)
            if how == "ink":
                w.ink["faults"] = {str(k): fault}
            else:
                w.tex["fault"] = fault
            return backend

        C10.start_session = start
        raised = None
        try:
            C10.session(env, cache, sp, d)
        except (CaseTimeout, StopCase):
            raise
        except BaseException as e:  # noqa
            raised = repr(e)[:80]
        finally:
            C10.start_session = orig
        n = len(w.log)
        rec.state([how, prog, k, fault])
        rec.outcome([how, prog, fault, raised])
        later(env, rec, cache, d, prog, kind, [how, k, fault])
        k += PARTS
        if how == "tex" or k > n + PARTS:
            break
