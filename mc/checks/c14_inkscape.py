"""C14: Inkscape failures surface and do not contaminate later requests."""
import itertools
import json
import os
import shutil

import elsie
from elsie.render.backends import InkscapeBackend

from .. import fakeproc
from .. import world as W
from ..engine import CaseTimeout, StopCase
from .c06_pure_render import read

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of request sequences x failing command x kind of failure of "
             "the Inkscape process (also pairs of failures); later requests compared with a "
             "conversation without failures")
NOTE = ("Every command of every conversation up to the bound fails in every way (end of the process "
        "before, inside or after an answer, no number, several numbers, nothing, no exported file, "
        "noise, flooded error output); the affected call must raise without hanging and all others "
        "give the results of the undisturbed conversation. A part is repeated with a real child "
        "process and real pipes.")
ASSUMPTIONS = ["the failing process does not produce a wrong but plausible answer"]
BOUND = {"quick": "sequences of length <= 3 over 5 requests x every command x 11 failures; length "
                  "2 x all pairs of 3 failures; length 1-2 with real processes",
         "thorough": "length <= 4; pairs in length 3; real processes length 2 fully"}
CASE_TIMEOUT = 10

REQ = ["w", "x", "pdf", "png", "fit"]
FAULTS = ["eof", "eof-partial", "eof-answer", "nonnum", "nan", "twonum", "empty", "noise",
          "noexport", "partial-eof", "flood"]
DEAD = ("eof", "eof-partial", "eof-answer", "partial-eof")
COMMANDS = {"w": 4, "x": 12, "fit": 4, "pdf": 9, "png": 9}


def cases(tier, env):
    th = tier == "thorough"
    for seq in itertools.product(REQ, repeat=1):
        total = 2 + sum(COMMANDS[r] for r in seq)
        for n in range(total + 1):
            for f in FAULTS:
                yield ["real", list(seq), {str(n): f}]
    for n in range(1, 5 if th else 4):
        for seq in itertools.product(REQ, repeat=n):
            total = 2 + sum(COMMANDS[r] for r in seq)
            for k in range(total + 1):
                for f in FAULTS:
                    yield ["proc", list(seq), {str(k): f}]
    # long conversations
    for n in (8, 15, 24) if th else (8, 15):
        for r in range(5):
            seq = [REQ[(i * (1 + r % 3) + r) % 5] for i in range(n)]
            total = 2 + sum(COMMANDS[x] for x in seq)
            for k in range(2 + r, total + 1, 1 if th else 5):
                for f in FAULTS if th else (FAULTS[(k + r) % len(FAULTS)], FAULTS[(3 * k + 1) % len(FAULTS)]):
                    yield ["proc", seq, {str(k): f}]
    for n in (2, 3) if th else (2,):
        for seq in itertools.product(REQ, repeat=n):
            total = 2 + sum(COMMANDS[r] for r in seq)
            for k, m in itertools.combinations(range(2, total + 1), 2):
                for f, g in itertools.product(("nonnum", "noexport", "eof"), repeat=2):
                    if f != "eof":
                        yield ["proc", list(seq), {str(k): f, str(m): g}]
    for seq in itertools.product(REQ, repeat=2):
        total = 2 + sum(COMMANDS[r] for r in seq)
        for k in range(2, total + 1):
            for f in FAULTS if th else ("eof", "nonnum", "noexport"):
                if th or k % 3 == 2:
                    yield ["real", list(seq), {str(k): f}]


def setup(env):
    env.data["world"] = fakeproc.WORLD


def is_real_query(cmd):
    return cmd.startswith("query-")


def request(deck, req, i, out):
    """Executes one request; returns its observable result."""
    if req in ("w", "x", "fit"):
        s = deck.new_slide()
        if req == "fit":
            b = s.box(width=37, height=90)
            b.rect(bg_color="#000001")
            b.text(f"text {i}", scale_to_fit=True)
        else:
            b = s.box()
            b.rect(bg_color="#000001")
            t = b.text(f"text {i} ~#q{{abc}} x")
            if req == "x":
                t.inline_box("#q").rect(bg_color="#000002")
        unit = deck.render(None, return_units=True, select_slides=[s.slide], save_cache=False)[0]
        return unit.get_svg()
    s = deck.new_slide()
    s.box(width=10 + i, height=10).rect(bg_color="#000003")
    res = deck.render(out, select_slides=[s.slide], export_type=req, pdf_merger=None,
                      save_cache=False)
    return [read(f).decode("latin1") for f in res]


def reference(env, seq):
    memo = env.data.setdefault("memo", {})
    key = tuple(seq)
    if key not in memo:
        res, log, _ = converse(env, "proc", seq, {})
        memo[key] = res, log
    return memo[key]


def converse(env, how, seq, faults, check=None):
    """Returns [(result or exception)], commands of the requests."""
    d = env.fresh_dir()
    w = env.data["world"]
    backend = None
    results = []
    spans = []
    try:
        if how == "proc":
            fakeproc.install()
            w.ink = {"faults": faults}
            log = w.log
        else:
            fakeproc.uninstall()
            os.environ["FAKE_INK_FAULT"] = json.dumps(faults)
            os.environ["FAKE_INK_LOG"] = os.path.join(d, "log")
            log = None
        alive = True

        def position():
            if log is not None:
                return len(log)
            try:
                with open(os.path.join(d, "log")) as f:
                    return len(f.readlines())
            except OSError:
                return 0

        try:
            backend = InkscapeBackend(inkscape=W.FAKE, cache_dir=d)
            deck = elsie.SlideDeck(200, 100, backend=backend, cache_dir=d)
        except (CaseTimeout, StopCase):
            raise
        except Exception as e:
            return e, [], [(0, position())]
        start = position()
        spans.append((0, start))
        for i, r in enumerate(seq):
            try:
                results.append(request(deck, r, i, os.path.join(d, "out.pdf")))
            except (CaseTimeout, StopCase):
                raise
            except Exception as e:
                results.append(e)
            end = position()
            spans.append((start, end))
            start = end
        cmds = [c for _, c, _ in log] if log is not None else None
        return results, cmds, spans
    finally:
        if backend is not None:
            W.close_backend(backend)
        os.environ.pop("FAKE_INK_FAULT", None)
        os.environ.pop("FAKE_INK_LOG", None)
        shutil.rmtree(d, ignore_errors=True)


def run(case, rec, env):
    how, seq, faults = case
    rec.state(case)
    want, cmds = reference(env, seq)
    try:
        got, _, spans = converse(env, how, seq, faults)
    except fakeproc.Hang as e:
        rec.fail("the call never returns", hang=str(e), stop=True)
    rec.trace()
    rec.step(len(seq))
    dead = min([int(n) for n, f in faults.items() if f in DEAD and
                (f != "partial-eof" or int(n) < len(cmds) and cmds[int(n)] == "export-do")],
               default=None)
    if isinstance(got, Exception):
        # opening the conversation failed
        if not any(int(n) < 2 + 1 and f in DEAD + ("empty", "nonnum", "nan", "twonum")
                   for n, f in faults.items()):
            rec.fail("the first conversation fails", error=repr(got))
        rec.outcome([seq, faults, "start"])
        return
    shape = []
    for i, (g, w) in enumerate(zip(got, want)):
        lo, hi = spans[i + 1]
        mine = {int(n): f for n, f in faults.items() if lo <= int(n) < hi}
        must = None
        for n, f in mine.items():
            cmd = cmds[n] if n < len(cmds) else ""
            if len(faults) > 1:
                cmd = "?"          # positions are shifted by earlier failures
            if f in ("nonnum", "nan", "twonum", "empty") and is_real_query(cmd):
                must = True
            if f == "noexport" and cmd == "export-do":
                must = True
        died = dead is not None and dead < lo
        if isinstance(g, Exception):
            shape.append("raises")
            if not mine and not died:
                rec.fail("a request after a failure fails", at=i, error=repr(g)[:200], key="after")
            if mine and len(faults) == 1:
                (n, f), = mine.items()
                harmless = f in ("noise", "flood") or f in ("nonnum", "nan", "twonum", "empty") \
                    and not is_real_query(cmds[n]) or f == "noexport" and cmds[n] != "export-do" \
                    or f == "partial-eof" and cmds[n] != "export-do"
                if harmless:
                    rec.fail("a harmless output of Inkscape makes the call fail", at=i,
                             command=cmds[n], fault=f, error=repr(g)[:200])
            continue
        shape.append("ok")
        if must:
            rec.fail("the failure is not reported", at=i, faults=mine, stop=True)
        if g != w:
            rec.fail("a wrong result is returned", at=i, faults=faults, got=repr(g)[:500],
                     want=repr(w)[:500], stop=True)
    rec.outcome([seq, sorted(faults.values()), shape])
