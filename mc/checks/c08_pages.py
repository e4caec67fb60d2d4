"""C08: pages of the output are the slides' fragments in order."""
import hashlib
import io
import itertools
import os
import sys
import types

from elsie.ext.export import export_pptx

from .. import fakeink, fakeproc
from .. import world as W
from .c06_pure_render import new_cairo, read

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of decks (slides with 1-3 fragments, added PDFs) x selections "
             "x grids x postprocessing x output kinds against a reference page sequence")
NOTE = ("Every sequence of slides and PDFs up to the bound is rendered with every selection, grid, "
        "merger and postprocessing variant; the merged file (pages identified by source hashes "
        "written by the Inkscape stand-in), the render units and the grid cells must be the "
        "reference sequence.")
ASSUMPTIONS = ["a grid is completed before an added PDF is placed, as PDFs stay at their place"]
BOUND = {"quick": "sequences of length <= 3 over 5 items x 6 selections x 6 grids x post x 4 "
                  "outputs (PyPDF2, pdfunite, files, PNG) and pptx export; equal pages; length 4 x 6 grids; Cairo length <= 3",
         "thorough": "sequences of length <= 4 (all variants), length 5 x 6 grids"}

ITEMS = ["S1", "S2", "S3", "P1", "P2"]
GRIDS = [None, [1, 1], [2, 1], [1, 2], [2, 2], [3, 1]]
SELECT = ["all", "explicit", "reverse", "last", "first-last", "double"]


def cases(tier, env):
    th = tier == "thorough"
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for seq in itertools.product(ITEMS, repeat=n):
            for sel in SELECT:
                for grid in GRIDS:
                    for post in (0, 1):
                        if n > 2 and post and grid not in (None, [2, 1]):
                            continue
                        yield ["ink", list(seq), sel, grid, post]
    # slides whose pages are all equal
    for n in (1, 2, 3):
        for seq in itertools.product(["E1", "E2", "S2", "P1"], repeat=n):
            if any(it[0] == "E" for it in seq):
                for sel, grid, post in itertools.product(("all", "reverse", "double"), (None, [2, 1]), (0, 1)):
                    yield ["ink", list(seq), sel, grid, post]
                yield ["cairo", list(seq), "double", None, 0]
    for n in (4,) if not th else (5,):
        for seq in itertools.product(ITEMS, repeat=n):
            for grid in GRIDS:
                yield ["ink", list(seq), "all", grid, 0]
    # many pages in bigger grids
    for a in range(1, 11):
        for grid in ([2, 2], [3, 2], [2, 3], [4, 1], [1, 4], [3, 3]):
            yield ["ink", ["S1"] * a, "all", grid, 0]
            yield ["ink", ["S3"] * (a // 3) + ["S1"] * (a % 3), "reverse", grid, 1]
    for a in (9, 10, 11, 12, 13, 25, 41):
        for grid in (None, [4, 3], [5, 2], [10, 1], [1, 12], [4, 4]):
            yield ["ink", ["S1"] * a, "all", grid, a % 2]
            yield ["ink", [f"S{a}"], "all", grid, 0]
            yield ["ink", [f"S{a}", "P1", "S12", "P2"], "reverse", grid, 0]
        yield ["ink", ["S1", "P2", "S2"] * (a // 3), "all", None, 1]
        yield ["cairo", ["S1"] * a, "all", None, 0]
        yield ["cairo", [f"S{a}", "P1", "S12"], "reverse", None, 0]
    for n in (1, 2, 3):
        for seq in itertools.product(ITEMS, repeat=n):
            for sel in ("all", "reverse", "last"):
                yield ["cairo", list(seq), sel, None, n % 2]


def setup(env):
    from PyPDF2 import PdfFileMerger

    fakeproc.install()
    d = env.fresh_dir()
    env.data["dir"] = d
    env.data["out"] = os.path.join(d, "out.pdf")
    for i in range(5):
        for pages in (1, 2):
            m = PdfFileMerger()
            for k in range(pages):
                m.append(io.BytesIO(fakeink.make_pdf(f"x{i}x{k}", 30 + i, 40 + k)))
            with open(os.path.join(d, f"P{pages}-{i}.pdf"), "wb") as f:
                m.write(f)


def pdf_pages(data):
    """[(tag, (w, h))] of a merged file."""
    import re

    from PyPDF2 import PdfFileReader

    r = PdfFileReader(io.BytesIO(data), strict=False)
    res = []
    for i in range(r.getNumPages()):
        p = r.getPage(i)
        raw = p["/Contents"].getObject().getData()
        m = re.search(rb"ELSIE-SRC (\w+)", raw)
        box = [float(v) for v in p["/MediaBox"]]
        res.append((m.group(1).decode() if m else raw, (box[2], box[3])))
    return res


EQUAL = 77


def frag_color(i, k):
    if i >= EQUAL:
        i, k = EQUAL, 0
    return "#%02x%02x00" % (i + 1, k)


def post_color(i):
    i = min(i, EQUAL)
    return "#0000%02x" % (100 + i)


def build(env, case, deck):
    model = []      # per deck entry: ("slide", index, fragments) | ("pdf", index, pages)
    for i, it in enumerate(case[1]):
        n = int(it[1:])
        if it[0] == "P":
            deck.add_pdf(os.path.join(env.data["dir"], f"P{n}-{i % 5}.pdf"))
            model.append(["pdf", i % 5, n])
        else:
            if it[0] == "E":
                i += EQUAL
            s = deck.new_slide(f"n{i}", bg_color="#eeeeee")
            for k in range(1, n + 1):
                at = {"x": 5, "y": 5} if it[0] == "E" or n > 9 else {}
                s.box(show=k, width=20, height=10, **at).rect(bg_color=frag_color(i, k))
            model.append(["slide", i, n])
    return model


def select(deck, model, sel):
    idx = list(range(len(model)))
    if sel == "all":
        return None, idx
    if sel == "reverse":
        idx = idx[::-1]
    elif sel == "last":
        idx = idx[-1:]
    elif sel == "first-last":
        idx = [idx[0], idx[-1]] if len(idx) > 1 else idx
    elif sel == "double":
        idx = idx + idx[:1]
    return [deck._slides[i] for i in idx], idx


def run(case, rec, env):
    kind, seq, sel, grid, post = case
    rec.state(case)
    if kind == "cairo":
        backend, d = new_cairo(env)
        deck = W.elsie.SlideDeck(400, 300, backend=backend, cache_dir=d)
    else:
        deck = W.new_deck(env, width=400, height=300)
    model = build(env, case, deck)
    slides, idx = select(deck, model, sel)
    calls = []

    def postprocess(boxes):
        calls.append([b.slide.name for b in boxes])
        for b in boxes:
            if not any(getattr(c, "name", None) == "post" for c in b.children):
                q = b.box(name="post", x=0, y=0, width=7, height=7, show="1+")
                q.rect(bg_color=post_color(int(b.slide.name[1:])))

    kw = {"save_cache": False, "prune_cache": False}
    if slides is not None:
        kw["select_slides"] = slides
    if grid is not None:
        kw["slides_per_page"] = tuple(grid)
    if post:
        kw["slide_postprocessing"] = postprocess
    # reference page sequence
    want = []
    for i in idx:
        what, n, pages = model[i]
        if what == "pdf":
            want.append(("pdf", [f"x{n}x{k}" for k in range(pages)], (30 + n, 40)))
        else:
            for k in range(1, pages + 1):
                marks = ["#eeeeee", frag_color(n, k)] + ([post_color(n)] if post else [])
                want.append(("page", marks))
    if kind == "cairo":
        check_cairo(case, rec, env, deck, kw, want)
        return
    c, r = grid or (1, 1)
    pages = []           # reference pages: ("pdf", tags) | ("grid", [marks...])
    for w in want:
        if w[0] == "pdf":
            pages.append(w)
        elif pages and pages[-1][0] == "grid" and len(pages[-1][1]) < c * r:
            pages[-1][1].append(w[1])
        else:
            pages.append(("grid", [w[1]]))

    units = deck.render(output=None, return_units=True, **kw)
    names = [f"n{model[i][1]}" for i in idx if model[i][0] == "slide"]
    if post:
        rec.step()
        if calls != [names]:
            rec.fail("postprocessing not called once with the rendered slides in order",
                     got=calls, want=[names])
    rec.step(len(units))
    if len(units) != len(pages):
        rec.fail("wrong number of pages", got=len(units), want=len(pages), stop=True)
    single = {}
    tags = []
    for n, (u, p) in enumerate(zip(units, pages)):
        svg = u.get_svg()
        if p[0] == "pdf":
            if svg is not None:
                rec.fail("a page is where an added PDF is expected", at=n, stop=True)
            tags += p[1]
            continue
        if svg is None:
            rec.fail("an added PDF is where a page is expected", at=n, stop=True)
        page = W.Page(svg)
        got = [it.fill for it in page.items]
        exp = [m for cell in p[1] for m in cell]
        if got != exp:
            rec.fail("page has a wrong content", at=n, got=got, want=exp, stop=True)
        size = (float(page.root.get("width")), float(page.root.get("height")))
        if size != (400.0 * c, 300.0 * r):
            rec.fail("page has a wrong size", at=n, got=size)
        # every cell is the unchanged page at its place
        it = iter(page.items)
        for j, cell in enumerate(p[1]):
            for m in cell:
                item = next(it)
                base = (400 * (j % c), 300 * (j // c))
                mat = item.matrix
                if (mat[4], mat[5]) != base or mat[:4] != (1, 0, 0, 1):
                    rec.fail("a page is at a wrong place of the grid", at=n, cell=j,
                             got=mat, want=base)
                g = item.rect()
                key = (m, g)
                if single.setdefault(m, key) != key:
                    rec.fail("content of a page changed in the grid", at=n, cell=j, got=key,
                             want=single[m])
        tags.append(hashlib.sha1(
            (env_version() + "|" + svg).encode()).hexdigest())
    # merged file
    out = env.data["out"]
    if post:
        calls.clear()
    deck.render(out, **kw)
    got = pdf_pages(read(out))
    rec.step(len(got))
    rec.trace()
    rec.outcome([[p[0], p[1]] for p in pages])
    if [t for t, _ in got] != tags:
        rec.fail("merged file has wrong pages or order", got=[t for t, _ in got], want=tags)
    if post and calls != [names]:
        rec.fail("postprocessing not called once with the rendered slides in order",
                 got=calls, want=[names])
    if grid in (None, [2, 1]):
        # equal pages: the same output in the other ways
        with open(out, "wb") as f:
            f.write(b"old")
        deck.render(out, pdf_merger="pdfunite", **kw)
        got = pdf_pages(read(out))
        rec.step(len(got))
        if [t for t, _ in got] != tags:
            rec.fail("file merged by pdfunite has wrong pages or order", got=[t for t, _ in got], want=tags)
        if all(p[0] != "pdf" for p in pages):
            pptx = Pptx()
            sys.modules["pptx"] = pptx
            export_pptx(deck, out + "x", **kw)
            del sys.modules["pptx"]
            rec.step(len(tags))
            if pptx.result != (out + "x", [("Blank", tag, (0, 0, 123, 45)) for tag in tags]):
                rec.fail("exported presentation is wrong", got=pptx.result, want=tags)
    # list of files
    files = deck.render(out, pdf_merger=None, **kw)
    got = [t for f in files for t, _ in pdf_pages(read(f))]
    rec.step(len(got))
    if got != tags:
        rec.fail("returned files are wrong", got=got, want=tags)
    if all(p[0] != "pdf" for p in pages):
        files = deck.render(None, export_type="png", **kw)
        rec.step(len(files))
        got = [read(f).split(b"src\0")[1][:40].decode() for f in files]
        if got != tags:
            rec.fail("returned png files are wrong", got=got, want=tags)


class Pptx:
    """Stand-in for the pptx module: records the pictures of the saved presentation."""
    result = None

    def Presentation(self):
        self.pages = pages = []
        self.slide_width, self.slide_height = 123, 45
        self.slide_layouts = [types.SimpleNamespace(name=n) for n in ("Title", "Blank", "Other")]

        def add_slide(layout):
            def add_picture(image, x, y, w=None, h=None):
                pages.append((layout.name, read(image).split(b"src\0")[1][:40].decode(), (x, y, w, h)))
            return types.SimpleNamespace(shapes=types.SimpleNamespace(add_picture=add_picture))

        self.slides = types.SimpleNamespace(add_slide=add_slide)
        return self

    def save(self, filename):
        self.result = filename, self.pages


def env_version():
    return "Inkscape 1.2.2 (fake, 2022-12-01)"


def check_cairo(case, rec, env, deck, kw, want):
    import re

    files = deck.render(None, pdf_merger=None, **kw)
    rec.step(len(files))
    rec.trace()
    if len(files) != len(want):
        rec.fail("wrong number of files", got=len(files), want=len(want), stop=True)
    for f, w in zip(files, want):
        pages = pdf_pages(read(f))
        rec.outcome(w[1])
        if w[0] == "pdf":
            got = [t for t, _ in pages]
            if got != w[1]:
                rec.fail("wrong file", got=got, want=w[1])
            continue
        os.remove(f)
        raw = pages[0][0].decode("latin1")
        got = []
        for a in re.findall(r"([\d.]+) ([\d.]+) ([\d.]+) rg", raw):
            got.append("#%02x%02x%02x" % tuple(int(round(float(v) * 255)) for v in a))
        if got != w[1]:
            rec.fail("Cairo page has a wrong content", got=got, want=w[1])
