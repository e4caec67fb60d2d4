"""C06: rendering is a pure, repeatable function of the slide deck."""
import io
import itertools
import os
import re
import zlib

from .. import fakeink
from .. import world as W

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of histories of building and rendering operations; every "
             "rendering compared with a fresh deck that has only the building operations")
NOTE = ("All histories up to the bound over a building alphabet (slides, boxes, text with "
        "scale_to_fit, images, lists, styles, dynamic coordinates, PDFs) and a rendering alphabet "
        "(units, files, selections, grids, HTML, flags), for one deck and for two decks sharing a "
        "backend; each rendering must equal the one of a fresh deck without earlier renderings.")
ASSUMPTIONS = ["fake Inkscape: exported pages carry the hash of their exact source",
               "slide_postprocessing is a building operation and therefore not in the alphabet"]
BOUND = {"quick": "all histories of length 3 (13 builds + 11 renderings), length 4 over 4+5 and build-render-build-render over 13x3x13x2; two "
                  "decks: length 4 over 2x(3+3); Cairo: length 3 over 6+3",
         "thorough": "length 4 over 13+11, length 5 over 4+5; two decks length 5"}

SVG = ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape="
       "'http://www.inkscape.org/namespaces/inkscape' width='40' height='20'>"
       "<g inkscape:label='a**2'><rect fill='#a00002' x='3' width='5' height='5'/></g></svg>")

BUILD = ["slide", "text", "fit", "image", "next", "line", "item", "style", "pdf",
         "grow", "shapes", "code", "lazy"]
RENDER = ["units", "file", "png", "first", "rev", "grid", "html", "htmlsvg", "debug", "noprune",
          "nomerge"]
BUILD_S = ["slide", "fit", "next", "image"]
RENDER_S = ["units", "file", "html", "grid", "debug"]


def cases(tier, env):
    th = tier == "thorough"
    full = BUILD + RENDER
    small = BUILD_S + RENDER_S
    for n in (1, 2, 3) if not th else (1, 2, 3, 4):
        for h in itertools.product(full, repeat=n):
            if h[-1] in RENDER:
                yield ["one", list(h)]
    # the layout changes between two renderings
    for a, r, b, q in itertools.product(BUILD, ("units", "file", "htmlsvg"), BUILD, ("units", "png")):
        yield ["one", [a, r, b, q]]
        if th:
            for c in BUILD:
                yield ["one", [c, a, r, b, q]]
    n = 5 if th else 4
    for h in itertools.product(small, repeat=n):
        if h[-1] in ("file", "units", "html") and sum(x in RENDER for x in h) >= 2:
            yield ["one", list(h)]
    two = [(d, o) for d in "AB" for o in ("fit", "next", "text", "file", "units", "grid")]
    n = 4 if th else 3
    for h in itertools.product(two, repeat=n):
        if h[-1][1] in RENDER and len({d for d, _ in h}) == 2:
            yield ["two", [list(x) for x in h]]
    for h in itertools.product([(d, o) for d in "AB" for o in ("fit", "next", "file", "png")],
                               repeat=4):
        if h[-1][1] in RENDER and len({d for d, _ in h}) == 2:
            yield ["two", [list(x) for x in h]]
    cb = ["slide", "text", "fit", "next", "line", "image"]
    for a, b in itertools.product(BUILD, repeat=2):
        if "pdf" not in (a, b):
            yield ["cairo", [a, "png", b, "png"]]
    for h in itertools.product(cb + ["png", "pdfout", "first"], repeat=3 if not th else 4):
        if h[-1] not in cb:
            yield ["cairo", list(h)]
    for h in itertools.product([(d, o) for d in "AB" for o in ("text", "fit", "png")],
                               repeat=3 if not th else 4):
        if h[-1][1] == "png" and len({d for d, _ in h}) == 2:
            yield ["cairo2", [list(x) for x in h]]


def setup(env):
    d = env.fresh_dir()
    env.data["svg"] = os.path.join(d, "i.svg")
    with open(env.data["svg"], "w") as f:
        f.write(SVG)
    env.data["pdf"] = os.path.join(d, "x.pdf")
    with open(env.data["pdf"], "wb") as f:
        f.write(fakeink.make_pdf("extern", 50, 60))
    env.data["out"] = os.path.join(d, "out.pdf")
    env.data["memo"] = {}


class World:
    """One deck plus the bookkeeping its building operations need."""

    def __init__(self, env, which="A", cairo=None):
        self.env = env
        size = {"A": (400, 300), "B": (320, 500)}[which]
        kw = {"bg_color": "#fff0f0"} if which == "B" else {}
        if cairo is not None:
            backend, d = cairo
            self.deck = W.elsie.SlideDeck(*size, backend=backend, cache_dir=d, **kw)
        else:
            self.deck = W.new_deck(env, width=size[0], height=size[1], **kw)
        self.n = 0
        self.slide = self.deck.new_slide("first")
        self.box = self.slide.box(padding=5)
        self.list = None

    def build(self, op):
        self.n += 1
        n = self.n
        s, b = self.slide, self.box
        if op == "slide":
            self.slide = self.deck.new_slide(f"s{n}", bg_color="#eeeeee")
            self.box = self.slide.box(width="80%", height="80%")
            self.list = None
        elif op == "text":
            t = b.text(f"text ~emph{{{n}}}\nsecond ~#x{{line}}")
            t.inline_box("#x").rect(color="red")
        elif op == "fit":
            t = s.box(width=150, height="fill").text("fit ~#y{me}\nin " + str(n),
                                                     scale_to_fit=True)
            t.inline_box("#y").rect(bg_color="blue")
            t.line_box(0, below=t).rect(bg_color="green")
        elif op == "image":
            b.box(width=60).image(self.env.data["svg"], show_begin=2)
        elif op == "next":
            b.box(show="next+", height=20, width="fill").rect(bg_color=W.color(n))
        elif op == "line":
            q = b.box(width=30, height=20, x="[100%]")
            s.box(x=0, y=0).line([q.p(0, 0), b.mid_point(), s.p("50%", 0)],
                                 end_arrow=W.elsie.Arrow(8))
        elif op == "item":
            if self.list is None:
                from elsie.ext import ordered_list

                self.list = ordered_list(b)
            self.list.item(show="last+").text(f"item {n}")
        elif op == "style":
            s.update_style("default", W.elsie.TextStyle(size=20 + n))
            self.deck.update_style("emph", W.elsie.TextStyle(color="green"))
        elif op == "grow":
            b.text(f"wider and higher {n}\n{n}")     # adds no box
            b.ellipse(color="red")
        elif op == "shapes":
            q = b.box(width=30, height=20, x="[100%]")
            points = [q.p(0, 0), q.p("100%", 5), (b.x("50%"), b.y("100%"))]
            s.box().polygon(points, color="red", rotation=20)
            q.polygon(points, bg_color="blue")
            s.path([("M", q.p(0, 0)), ("Q", b.mid_point(), (s.x(n), b.y("100%"))), ("C", *points)],
                   end_arrow=W.elsie.Arrow(7))
            b.box(height=9).rect(bg_color="green", rx=n, rotation=5).rect(color="gray")
        elif op == "code":
            c = b.code("python", f"def f():\n    ~#z{{return {n}}}\n", use_styles=True, line_numbers=True)
            c.line_box(1, width="fill").rect(bg_color="yellow")
            c.inline_box("#z", show="next").ellipse(color="red")
        elif op == "lazy":
            s.box(x=b.x("100%").add(-9), y=b.p(0, 4).y, width=s.x("10%"), height=b.x(0).map(lambda v: v / 2 + 3)).rect(color="pink")
            b.overlay(z_level=-1, width="50%").rect(bg_color=W.color(n))
        elif op == "pdf":
            self.deck.add_pdf(self.env.data["pdf"])

    def render(self, op):
        d, out = self.deck, self.env.data["out"]
        if op == "units":
            return [u.get_svg() for u in d.render(output=None, return_units=True)]
        if op == "file":
            d.render(out)
            return pdf_tags(out)
        if op == "noprune":
            d.render(out, save_cache=False, prune_cache=False)
            return pdf_tags(out)
        slides = [s for s in d._slides if hasattr(s, "view_box")]
        if op == "nomerge":
            return [read(f) for f in d.render(out, pdf_merger=None)]
        if op == "png":
            return [read(f) for f in d.render(None, export_type="png", select_slides=slides)]
        if op == "first":
            return [u.get_svg() for u in d.render(None, return_units=True,
                                                  select_slides=[d._slides[0]])]
        if op == "rev":
            d.render(out, select_slides=d._slides[::-1])
            return pdf_tags(out)
        if op == "grid":
            d.render(out, slides_per_page=(2, 1))
            return pdf_tags(out)
        if op in ("html", "htmlsvg"):
            from elsie.render.jupyter import render_slide_html

            h = (self.slide._repr_html_() if op == "html"
                 else render_slide_html(self.slide.slide, "svg"))
            return re.sub("elsie-wrapper-[0-9a-f]*", "ID", h)
        if op == "debug":
            d.debug = True
            try:
                d.render(out)
            finally:
                d.debug = False
            return pdf_tags(out)
        assert 0, op


def render_cairo(w, op):
    d = w.deck
    files = []
    try:
        if op == "pdfout":
            files = d.render(None, pdf_merger=None)
            return [cairo_pdf(f) for f in files]
        kw = {"select_slides": [d._slides[0]]} if op == "first" else {}
        files = d.render(None, export_type="png", **kw)
        from PIL import Image

        res = []
        for f in files:
            with Image.open(f) as im:
                res.append([im.size, zlib.crc32(im.tobytes())])
        return res
    finally:
        for f in files:
            if os.path.exists(f):
                os.remove(f)


def cairo_pdf(f):
    from PyPDF2 import PdfFileReader

    reader = PdfFileReader(io.BytesIO(read(f)), strict=False)
    res = []
    for i in range(reader.getNumPages()):
        p = reader.getPage(i)
        res.append((p["/Contents"].getObject().getData(), [float(x) for x in p["/MediaBox"]]))
    return res


def read(f):
    with open(f, "rb") as h:
        return h.read()


def pdf_tags(path):
    from PyPDF2 import PdfFileReader

    reader = PdfFileReader(io.BytesIO(read(path)), strict=False)
    res = []
    for i in range(reader.getNumPages()):
        p = reader.getPage(i)
        data = p["/Contents"].getObject().getData()
        m = re.search(rb"ELSIE-SRC (\w+)", data)
        res.append((m.group(1).decode() if m else None, [float(x) for x in p["/MediaBox"]]))
    return res


def expected(env, kind, which, builds, op):
    """What a fresh deck (own backend state, no rendering before) gives."""
    key = (kind, which, tuple(builds), op)
    memo = env.data["memo"]
    if key not in memo:
        if len(memo) > 30000:
            memo.clear()
        if kind.startswith("cairo"):
            w = World(env, which, new_cairo(env))
        else:
            w = World(env, which)
        for b in builds:
            w.build(b)
        memo[key] = W_h((render_cairo if kind.startswith("cairo") else World.render)(w, op))
    return memo[key]


def W_h(v):
    from ..engine import h64

    return h64(repr(v)), repr(v)[:3000]


def new_cairo(env):
    from elsie.render.backends import CairoBackend

    if "cairo" not in env.data:
        env.data["cairo"] = env.fresh_dir("cairo")
    return CairoBackend(cache_dir=env.data["cairo"]), env.data["cairo"]


def run(case, rec, env):
    kind, hist = case
    rec.state(case)
    cairo = new_cairo(env) if kind.startswith("cairo") else None
    rend = render_cairo if cairo else World.render
    renders = ("png", "pdfout", "first") if cairo else RENDER
    if kind in ("one", "cairo"):
        hist = [("A", h) for h in hist]
        worlds = {"A": World(env, "A", cairo)}
    else:
        worlds = {k: World(env, k, cairo) for k in "AB"}
    builds = {"A": [], "B": []}
    for i, (d, op) in enumerate(hist):
        if op not in renders:
            worlds[d].build(op)
            builds[d].append(op)
            continue
        want, wtext = expected(env, kind, d, builds[d], op)
        before = worlds[d].deck._slides[:]
        got = rend(worlds[d], op)
        rec.step()
        rec.outcome(want.hex())
        g, gtext = W_h(got)
        if g != want:
            rec.fail("rendering differs from the one of a fresh deck", at=i, op=op,
                     diff=first_diff(gtext, wtext), stop=True)
        if before != worlds[d].deck._slides:
            rec.fail("rendering changed the list of slides", at=i, op=op)
    rec.trace()


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return a[max(0, i - 80):i + 120] + "   <>   " + b[max(0, i - 80):i + 120]
    return f"lengths {len(a)} {len(b)}"
