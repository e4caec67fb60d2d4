"""C13: pruning keeps what was used; unchanged rebuilds do no work."""
import hashlib
import itertools
import os
import shutil

import elsie
from elsie.ext.latex import latex
from elsie.render.backends import CairoBackend, InkscapeBackend

from .. import fakeproc
from .. import world as W
from . import c10_cache as C10

ID = "C13"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of histories of sessions, decks, building and rendering with "
             "all pruning/saving flags; work done by the external programs and directory contents "
             "compared with a model of what has to be available")
NOTE = ("Every history up to the bound runs on the real code with in-process stand-ins of Inkscape "
        "and LaTeX; the measurements, exports and compilations of each operation must be a subset "
        "of the ones the model still needs, without repetition, and after each operation the cache "
        "directory must hold all used files, no stale ones after pruning, and all foreign files.")
ASSUMPTIONS = ["one process at a time uses the directory",
               "files used earlier in the same session may survive pruning"]
BOUND = {"quick": "each history followed by an unchanged rebuild in a new session; histories of length <= 4 over 12 operations and <= 6 over 5 operations; two sessions with notebook displays and "
                  "renders of selected slides (8 endings, up to 500 beginnings); Cairo "
                  "length <= 4 over 6",
         "thorough": "length <= 5 over 12, <= 7 over 6; Cairo length 5"}

# building operations: text, second text, equal slide, image, latex
BUILD = ["t1", "t0", "t2", "same", "ora", "tex", "frag"]
RENDER = {"R": ("pdf", True, True), "K": ("pdf", False, True), "N": ("pdf", False, False),
          "X": ("pdf", True, False), "G": ("png", True, True), "H": None}
# of the last slide only
PARTIAL = {"h": None, "S": ("png", True, True), "s": ("png", False, True)}
OPS = ["session", "deck"] + ["t0", "same", "ora", "tex"] + list(RENDER)
SMALL = ["session", "t1", "t2", "R", "G"]

FOREIGN = {"notes.txt": b"n", "mycache.pdf": b"m", "x.cache": b"x", "Cache.txt": b"c",
           ".cache.a": b"h", "1-1.svg": b"<svg/>", "queries.cache": b"{}",
           "cache": b"1", "cache-notes.txt": b"2", "cached.svg": b"3", "cache_0": b"4", "a.cache.pdf": b"5"}


def cases(tier, env):
    th = tier == "thorough"
    for n in range(1, 6 if th else 5):
        for h in itertools.product(OPS, repeat=n):
            if h[-1] not in RENDER or h[0] in ("session", "deck"):
                continue
            yield ["ink", list(h)]
    small = SMALL + (["deck"] if th else [])
    for n in range(5, 8 if th else 7):
        for h in itertools.product(small, repeat=n):
            if h[-1] not in RENDER or h[0] not in BUILD or sum(x in RENDER for x in h) < 2:
                continue
            yield ["ink", list(h)]
    # notebooks and selected slides in a second session
    builds = BUILD[:6] if th else ["t0", "same", "ora", "tex"]
    for b1, r1, b2, b3 in itertools.product(builds, ["R", "K", "G", "H"], builds, builds):
        for tail in (["H"], ["h"], ["S"], ["s"], ["h", "G"], ["S", "R"], ["s", "S", "G"], ["S", "H"]):
            yield ["ink", [b1, r1, "session", b2, b3, *tail]]
            if th or b2 != b3:
                yield ["ink", [b1, b2, r1, "session", b3, b2, *tail]]
    for op in ("many", "pages", "slides", "texts"):
        yield ["ink", [op, "R"]]
        yield ["ink", [op, "t1", "K", "session", op, "G"]]
        yield ["ink", [op, op, "N", "deck", op, "ora", "R", "session", "ora", "R"]]
        if th:
            for op2, r, r2 in itertools.product(("many", "pages", "slides", "texts"), "RKG", "RGH"):
                yield ["ink", [op, op2, r, "session", op2, r2, "session", op, r]]
    for op in ("slides",):
        yield ["cairo", [op, "G", "session", op, "R"]]
    for n in range(1, 6 if th else 5):
        for h in itertools.product(["session", "t1", "ora", "R", "K", "G"], repeat=n):
            if h[-1] in RENDER and h[0] != "session":
                yield ["cairo", list(h)]


def setup(env):
    env.data["world"] = fakeproc.install()


def sha(data):
    return hashlib.sha1(data).hexdigest()


class Model:
    def __init__(self):
        self.disk_q = set()           # measurements that the directory has to provide
        self.disk_e = set()           # exports, LaTeX pictures that the directory has to provide


def run(case, rec, env):
    kind, hist = case
    rec.state(case)
    d = env.fresh_dir()
    try:
        Run(kind, hist, rec, env, d).go()
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Run:
    def __init__(self, kind, hist, rec, env, d):
        self.kind, self.hist, self.rec, self.env = kind, hist, rec, env
        self.cache = os.path.join(d, "cache")
        self.files = d
        os.mkdir(self.cache)
        self.world = env.data["world"]
        self.model = Model()
        self.sessions = []
        for name, data in FOREIGN.items():
            with open(os.path.join(self.cache, name), "wb") as f:
                f.write(data)
        os.mkdir(os.path.join(self.cache, "sub"))
        with open(os.path.join(self.cache, "sub", "cache.deep"), "wb") as f:
            f.write(b"deep")
        with open(os.path.join(d, "f.ora"), "wb") as f:
            f.write(C10.ora_file(0))

    def close(self):
        if self.kind == "ink":
            W.close_backend(self.backend)

    def session(self):
        self.world.reset()
        self.world.tex = {"svg": lambda s: "<svg xmlns='http://www.w3.org/2000/svg' width='9pt' "
                          f"height='9pt'><path id='p' d='M 0 0 L 1 {len(s)}'/></svg>"}
        if self.kind == "cairo":
            self.backend = CairoBackend(cache_dir=self.cache)
        else:
            self.backend = InkscapeBackend(inkscape=W.FAKE, cache_dir=self.cache)
        self.mem_q = set(self.model.disk_q)
        self.used_q = set()
        self.deck()

    def deck(self):
        self.d = elsie.SlideDeck(width=200, height=100, backend=self.backend, cache_dir=self.cache)
        self.n = 0
        self.used_files = set()       # cache files this deck used in this session (known by us)
        self.at_start = self.listing()
        self.used_e = set()
        self.program = []

    def listing(self):
        return {x for x in os.listdir(self.cache) if x.startswith("cache.")}

    def stats(self):
        res = {}
        for x in self.listing():
            if x.endswith(".svg"):
                st = os.stat(os.path.join(self.cache, x))
                res[x] = (st.st_ino, st.st_mtime_ns)
        return res

    def work(self, since):
        """Operations of the external programs since the given position of the log."""
        q, e = [], []
        doc = None
        for _, cmd, note in self.world.log[since:]:
            name = cmd.partition(":")[0]
            if name == "file-open":
                doc = note
            elif name.startswith("query-"):
                q.append((name, doc))
            elif name == "export-do":
                e.append(note)
            elif name == "pdflatex":
                e.append("tex:" + note)
        return q, e

    def go(self):
        rec = self.rec
        self.session()
        self.known_q = {}      # build operation -> its measurements (learned on first execution)
        self.known_tex = set()
        probed = False
        queue = list(self.hist)
        i = -1
        while queue or not probed:
            i += 1
            if not queue:
                # at last: the last deck again in a new session
                probed = True
                queue = ["session", *self.program, "R"]
            op = queue.pop(0)
            since = len(self.world.log)
            if op == "session":
                self.close()
                self.session()
                continue
            if op == "deck":
                self.deck()
                continue
            if op in RENDER or op in PARTIAL:
                self.render(i, op, since)
            else:
                self.build(i, op, since)
            self.foreign(i)
        self.close()
        rec.trace()

    def build(self, i, op, since):
        rec = self.rec
        s = self.d.new_slide()
        if op == "t1":
            s.box().text("Hello")
            s.box().text("Hello")
        elif op == "t0":
            # an empty text, whose width is zero, next to another one
            s.box().text("")
            s.box().text("")
            s.box().text("Hello")
            s.box().text("Hello")
        elif op == "t2":
            t = s.box().text("other ~tt{x}")
            t.inline_box("tt").rect(bg_color="red")
            t.inline_box("tt").rect(bg_color="red")
        elif op == "same":
            s.box().rect(bg_color="green")
        elif op == "ora":
            before = self.stats()
            s.box().image(os.path.join(self.files, "f.ora"))
            if "ora" in self.model.disk_e and before != self.stats():
                rec.fail("a known OpenRaster image is converted again", at=i, stop=True)
            self.model.disk_e.add("ora")
            self.used_e.add("ora")
        elif op == "tex":
            latex(s.box(), "x^2")
            latex(s.box(), "x^2")
        elif op == "many":
            for k in range(1200):
                s.box(width=10, height=5).text("T%d" % k)
        elif op == "pages":
            for k in range(150):
                s.box(show=str(k + 1)).text("P%d ~tt{x}" % (k // 2)).inline_box("tt").rect(bg_color="red")
        elif op == "slides":
            for k in range(80):
                self.d.new_slide().box().rect(bg_color="#%06x" % k)
        elif op == "texts":
            for k in range(120):
                latex(s.box(), "x^{%d}" % (k // 2))
        self.program.append(op)
        q, e = self.work(since)
        rec.step(1 + len(q) + len(e))
        bad = [x for x in q if x in self.mem_q]
        if bad or len(q) != len(set(q)):
            rec.fail("a known text is measured again", at=i, op=op, queries=len(q), stop=True)
        self.known_q.setdefault(op, set())
        self.known_q[op] |= set(q)
        # the operation needs all measurements that were ever seen for it
        self.mem_q |= self.known_q[op]
        self.used_q |= self.known_q[op]
        bad = [x for x in e if x in self.model.disk_e]
        if bad or len(e) != len(set(e)):
            rec.fail("a known LaTeX snippet is compiled again", at=i, op=op, stop=True)
        if op in ("tex", "texts"):
            self.known_tex |= set(e)
            self.model.disk_e |= self.known_tex
            self.used_e |= self.known_tex

    def render(self, i, op, since):
        rec = self.rec
        if not self.program:
            return
        before = self.listing()
        out = os.path.join(self.files, "out.pdf")
        sel = self.d._slides[-1:] if op in PARTIAL else self.d._slides
        if op in ("H", "h"):
            for s in sel:
                s._repr_html_()
            kind, prune, save = "png", False, True
            files = []
        else:
            kind, prune, save = {**RENDER, **PARTIAL}[op]
            files = self.d.render(out, export_type=kind, prune_cache=prune, save_cache=save,
                                  pdf_merger=None, select_slides=list(sel) if op in PARTIAL else None)
        q, e = self.work(since)
        rec.step(1 + len(q) + len(e))
        rec.outcome([self.kind, self.hist[:i + 1], i, len(q), len(e)])
        if q:
            rec.fail("rendering measures a text", at=i, op=op, stop=True)
        bad = [x for x in e if x in self.model.disk_e]
        if bad or len(e) != len(set(e)):
            rec.fail("a known page is exported again", at=i, op=op, stop=True)
        after = self.listing()
        if op not in ("H", "h"):
            for f in files:
                if not os.path.isfile(f):
                    rec.fail("a returned file does not exist", at=i, op=op, file=f, stop=True)
        if self.kind == "cairo":
            if prune:
                used = {os.path.basename(f) for f in files}
                stale = (after & self.at_start) - used - self.ora_files()
                if stale:
                    rec.fail("files of earlier sessions survive pruning", at=i, stale=len(stale),
                             stop=True)
            elif not before <= after:
                rec.fail("files are removed without pruning", at=i, stop=True)
            self.used_files |= after - self.at_start
            if prune:
                self.model.disk_e = set(self.used_e)
            self.check_ora(i)
            return
        # pages of this render
        pages = set()
        for u in self.d.render(None, return_units=True, prune_cache=False, save_cache=False, select_slides=list(sel)):
            pages.add(sha(u.get_svg().encode()) + "." + kind)
        self.used_e |= pages
        self.used_files |= {os.path.basename(f) for f in files} | (after - before)
        self.model.disk_e |= pages
        if prune:
            # guaranteed afterwards: what the deck used
            self.model.disk_e = set(self.used_e)
            stale = (after & self.at_start) - self.touched(files)
            if stale:
                rec.fail("files of earlier sessions survive pruning", at=i, stale=sorted(stale),
                         stop=True)
            self.mem_q = set(self.used_q)
        elif not before <= after:
            rec.fail("files are removed without pruning", at=i, stop=True)
        if save:
            self.model.disk_q = set(self.mem_q)

    def touched(self, files):
        """Files that were in the directory before this deck and that the deck may have used."""
        res = set(self.used_files) | {os.path.basename(f) for f in files}
        if "ora" in self.program or "tex" in self.program or "texts" in self.program:
            res |= {x for x in self.at_start if x.endswith(".svg")}
        return res

    def ora_files(self):
        return {x for x in self.at_start if x.endswith(".svg")} if "ora" in self.program else set()

    def check_ora(self, i):
        if "ora" in self.program and not any(x.endswith(".svg") for x in self.listing()):
            self.rec.fail("the converted image used by the deck was removed", at=i)

    def foreign(self, i):
        for name, data in FOREIGN.items():
            try:
                with open(os.path.join(self.cache, name), "rb") as f:
                    ok = f.read() == data
            except OSError:
                ok = False
            if not ok:
                self.rec.fail("a file that is not a cache file was touched", at=i, file=name)
        if not os.path.isfile(os.path.join(self.cache, "sub", "cache.deep")):
            self.rec.fail("a file in a subdirectory was removed", at=i)
        if self.kind == "ink":
            self.check_ora(i)
