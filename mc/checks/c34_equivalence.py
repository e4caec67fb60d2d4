"""C34: different spellings of the same program make the same pages."""
import io
import itertools
import os
import re

import elsie
from elsie import TextStyle
from elsie.ext import ordered_list, unordered_list
from elsie.ext.todo import todo_placeholder
from PIL import Image

from .. import fakeproc
from .. import world as W

ID = "C34"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of programs over an alphabet of calls of the API; in each program every call is "
             "replaced by every other documented spelling of it (receiver, shortcut, kind of the arguments, explicit defaults), "
             "alone and all together, and the pages have to stay the same")
NOTE = ("Both programs run on the real code; the SVG pages have to be equal up to the form of numbers, as well as "
        "the number of pages and the current fragment.")
ASSUMPTIONS = []


class World:
    """A program under construction; the receiver of a call is a box or one of its items."""

    def __init__(self, env):
        self.env = env
        self.deck = W.new_deck(env, width=300, height=200)
        self.deck.set_style("mine", TextStyle(color="red", size=17, bold=True))
        self.root = self.deck.new_slide()
        a = self.root.box(x=20, y=10, width=200, height=150, p_left=5, p_top=3, name="a")
        self.first = a.box(width=30, height=20)
        # items of all kinds; the box keeps its size
        self.items = [a.rect(color="#000001"), a.ellipse(color="#000002"), a.text("t"), a.line([(0, 0), (3, 4)]),
                      a.polygon([(0, 0), (5, 5), (9, 0)], color="#000003"), a.path([("M", (0, 0)), ("L", (5, 5))]),
                      a.image(env.data["png"]), a.image(env.data["svg"]), a.code("c", "int x")]
        self.a = a
        self.last = a.box(width=25, height=15, horizontal=True)
        self.h = self.root.box(x=0, y=160, width=300, height=40, horizontal=True)
        self.n = 10
        self.list = None

    def color(self):
        self.n += 1
        return W.color(self.n)

    def mark(self, b):
        b.rect(bg_color=self.color())
        return b


def same(*dicts):
    """Spellings of w.mark(r.box(**d))"""
    return [lambda w, r, d=d: w.mark(r.box(**d)) for d in dicts]


OPS = {}
IMAGE = {}


def op(name, *forms, receivers=True):
    OPS[name] = (list(forms), receivers)


op("box", *same({}, {"x": None, "y": None, "width": None, "height": None, "show": None}, {"width": 0, "height": 0},
                {"padding": 0}, {"p_left": 0, "p_right": 0, "p_top": 0, "p_bottom": 0}, {"p_x": 0, "p_y": 0},
                {"horizontal": False}, {"prepend": False}, {"z_level": None}, {"above": None, "below": None},
                {"name": "label"}, {"show": "1+"}, {"width": "0", "height": "0"}, {"z_level": 0}))
op("size", *same({"width": 40, "height": 25}, {"width": "40", "height": "25"}, {"width": 40.0, "height": 25.0},
                 {"height": 25, "width": 40}))
op("pos", *same(*[{"x": x, "y": y, "width": 9, "height": 9} for x, y in ((12, 34), ("12", "34"), (12.0, "34"))]))
op("fill", *same({"width": "fill", "height": "fill"}, {"width": "fill(1)", "height": "fill(1)"}),
   lambda w, r: w.mark(r.fbox()), lambda w, r: w.mark(r.sbox(height="fill")),
   lambda w, r: w.mark(r.fbox(width="fill")))
op("fill2", *same({"width": "fill", "height": 12}, {"width": "fill(1)", "height": "12"}),
   lambda w, r: w.mark(r.fbox(height=12)), lambda w, r: w.mark(r.sbox(height=12)))
op("spread", lambda w, r: w.mark(r.sbox(p_y=4)), *same({"width": "fill", "p_y": 4}, {"width": "fill(1)", "p_top": 4, "p_bottom": 4}),
   lambda w, r: w.mark(r.fbox(height=None, p_y=4)))
op("hspread", lambda w, r: w.mark(w.h.sbox(width=20)), lambda w, r: w.mark(w.h.box(height="fill", width=20)),
   lambda w, r: w.mark(w.h.fbox(width=20)), receivers=False)
def after(item):
    """Spellings of a box that is placed after a new item of the horizontal box."""
    def plain(w, r):
        item(w.h)
        return w.mark(w.h.sbox(width=20))

    def above(w, r):
        i = item(w.h)
        return w.mark(w.h.sbox(width=20, above=i))

    return [plain, above] + [lambda w, r, f=f: w.mark(f(item(w.h))) for f in (
        lambda i: i.sbox(width=20), lambda i: i.box(width=20, height="fill"),
        lambda i: i.fbox(width=20), lambda i: i.sbox(width=20, z_level=None))]


op("hrect", *after(lambda h: h.rect(color="#123123")), receivers=False)
op("htext", *after(lambda h: h.text("h")), receivers=False)
op("hcode", *after(lambda h: h.code("c", "int h;")), receivers=False)
op("himage", *after(lambda h: h.image(IMAGE["png"])), receivers=False)
op("hline", *after(lambda h: h.line([(0, 0), (3, 4)])), receivers=False)
op("overlay", lambda w, r: w.mark(r.overlay()), *same({"x": 0, "y": 0, "width": "100%", "height": "100%"}),
   lambda w, r: w.mark(r.overlay(x="0%", y="[0%]")), lambda w, r: w.mark(r.overlay(x="[100%]", y=0)),
   lambda w, r: w.mark(r.overlay(width="100%")))
op("overlay2", lambda w, r: w.mark(r.overlay(width=30, y="[50%]", show="2")),
   *same({"x": 0, "y": "[50%]", "width": 30, "height": "100%", "show": "2"}))
op("pad", *same({"padding": 7, "width": 30, "height": 30}, {"p_x": 7, "p_y": 7, "width": 30, "height": 30},
                {"p_left": 7, "p_right": 7, "p_top": 7, "p_bottom": 7, "width": 30, "height": 30},
                {"padding": 7, "p_x": 7, "p_left": 7, "width": 30, "height": 30},
                {"padding": 99, "p_x": 7, "p_y": 7, "width": 30, "height": 30},
                {"padding": 99, "p_x": 98, "p_y": 7, "p_left": 7, "p_right": 7, "width": 30, "height": 30}))
op("pad2", *same({"p_left": 1, "p_right": 2, "p_top": 3, "p_bottom": 4, "width": 30, "height": 30},
                 {"padding": 9, "p_left": 1, "p_right": 2, "p_top": 3, "p_bottom": 4, "width": 30, "height": 30},
                 {"p_x": 1, "p_right": 2, "p_y": 4, "p_top": 3, "width": 30, "height": 30},
                 {"padding": 4, "p_x": 2, "p_left": 1, "p_top": 3, "width": 30, "height": 30}))
op("show", *same(*[{"show": s, "width": 8, "height": 8} for s in (2, "2", "2-2", "2,2", " 2 ", "2,2-2")]))
op("show2", *same(*[{"show": s, "width": 8, "height": 8} for s in ("1,3", "3,1", "1-1,3", "3, 1,3", "1,3-3")]))
op("show3", *same(*[{"show": s, "width": 8, "height": 8} for s in ("2+", "2,2+", "2-2,2+", " 2+ ")]))
op("prepend", lambda w, r: w.mark(r.box(width=11, height=5, prepend=True)),
   lambda w, r: w.mark(r.box(width=11, height=5, prepend=True, above=None)))
op("z", *same({"z_level": 3, "width": 9, "height": 9}, {"z_level": 3, "height": 9, "width": "9", "x": None}))
op("lazy", *[lambda w, r, v=v: w.mark(r.box(x=v(w), y=w.first.y("50%"), width=9, height=9)) for v in (
    lambda w: w.first.x(15), lambda w: w.first.x("15"), lambda w: w.first.x("50%"), lambda w: w.first.x(5).add(10),
    lambda w: w.first.x(0).add(7).add(8), lambda w: w.first.x(0).map(lambda v: v + 15), lambda w: w.first.mid_point().x,
    lambda w: w.first.p(15, 3).x, lambda w: w.first.p(10, 3).add(5, 99).x, lambda w: w.first.x("[50%]"))])
op("lazysize", *[lambda w, r, v=v: w.mark(r.box(x=1, y=1, width=v(w), height=9)) for v in (
    lambda w: w.root.x(15), lambda w: w.root.x("5%"), lambda w: w.root.x(5).map(lambda v: v * 3),
    lambda w: w.root.p("5%", 0).x)])
op("rect", *[lambda w, r, d=d: r.rect(bg_color=w.color(), **d) for d in (
    {}, {"color": None}, {"stroke_width": 1}, {"stroke_dasharray": None}, {"rx": None, "ry": None}, {"rotation": None})])
op("rrect", *[lambda w, r, d=d: r.rect(color=w.color(), **d) for d in (
    {"rx": 4}, {"rx": 4.0}, {"ry": None, "rx": 4}, {"rx": 4, "bg_color": None, "stroke_width": 1},
    {"rx": 4, "ry": None}, {"rx": 4, "rotation": None})])
op("ellipse", *[lambda w, r, d=d: r.ellipse(bg_color=w.color(), **d) for d in (
    {}, {"color": None}, {"stroke_width": 1}, {"stroke_dasharray": None}, {"rotation": None})])
op("polygon", *[lambda w, r, f=f: r.polygon(f(r), color=w.color()) for f in (
    lambda r: [(1, 2), (30, 4), (9, 33)], lambda r: ((1, 2), (30, 4), (9, 33)), lambda r: [[1, 2], [30, 4], [9, 33]],
    lambda r: [("1", "2"), ("30", 4.0), (9, "33")], lambda r: [r.p(1, 2), r.p("30", 4), (r.x(9), r.y(33))],
    lambda r: [r.p(0, 0).add(1, 2), (r.x(10).add(20), 4), (9, r.y(11).map(lambda v: v + 22))])])
op("line", *[lambda w, r, f=f, d=d: r.line(f(r, w), color=w.color(), **d) for f, d in (
    (lambda r, w: [(1, 2), w.first.p(15, 10)], {}), (lambda r, w: ((1, 2), w.first.mid_point()), {}),
    (lambda r, w: [r.p(1, 2), w.first.p("50%", "50%")], {"stroke_width": 1}),
    (lambda r, w: [[1, "2"], (w.first.x("50%"), w.first.y(10))], {"start_arrow": None, "end_arrow": None}))])
op("path", *[lambda w, r, f=f: r.path(f(r), color=w.color()) for f in (
    lambda r: [("M", (1, 2)), ("L", (20, 30)), ("Q", (5, 5), (9, 40))],
    lambda r: (("M", (1, 2)), ("L", (20, 30)), ("Q", (5, 5), (9, 40))),
    lambda r: [["M", [1, 2]], ["L", [20, 30]], ["Q", [5, 5], [9, 40]]],
    lambda r: [("M", r.p(1, 2)), ("L", (r.x(20), r.y(30))), ("Q", ("5", "5"), r.p(0, 0).add(9, 40))])])
op("text", *[lambda w, r, a=a, d=d: r.text("a ~mine{b}\nc", *a, **d) for a, d in (
    ((), {}), (("default",), {}), ((), {"style": "default"}), ((), {"escape_char": "~"}), ((), {"escape_char": "~{}"}),
    ((), {"scale_to_fit": False}), ((), {"rotation": None}), ((TextStyle(),), {}), ((), {"rotation": 0}))],
   lambda w, r: r.text("a !mine{b}\nc", escape_char="!"), lambda w, r: r.text("a ~mine(b)\nc", escape_char="~()"),
   lambda w, r: r.text("a ~mine{b}\nc\n"), lambda w, r: r.text("a ~mine{b\n}c"))
op("styled", *[lambda w, r, s=s: r.text("a\nbb", s) for s in (
    "mine", TextStyle(color="red", size=17, bold=True), TextStyle(bold=True, size=17, color="red", font=None, italic=None),
    TextStyle(color="red", size=17, bold=True, priority=0))],
   lambda w, r: r.text("a\nbb", style=w.deck.get_style("mine")),
   lambda w, r: r.text("a\nbb", style=w.deck.get_style("mine", full_style=True)))
op("fit", lambda w, r: w.mark(r.box(width=60, height=30)).text("fit\nme", scale_to_fit=True),
   lambda w, r: w.mark(r.box(width="60", height="30")).text("fit\nme", "default", scale_to_fit=True, rotation=None))
op("code", *[lambda w, r, l=l, d=d: r.code(l, "a\tb {c}\n d", **d) for l, d in (
    (None, {}), ("", {}), (None, {"tabsize": 4}), (None, {"line_numbers": False}), (None, {"style": "code"}),
    (None, {"use_styles": False}), (None, {"escape_char": "!"}), (None, {"scale_to_fit": False}),
    (None, {"rotation": None}), (None, {"use_styles": True}))],
   lambda w, r: r.text("a    b {c}\n d", "code"), lambda w, r: r.code(None, "a    b {c}\n d"))
op("lang", *[lambda w, r, l=l, d=d: r.code(l, "def f():\n\treturn 1", **d) for l, d in (
    ("python", {}), ("python3", {}), ("py", {}), ("python", {"use_styles": True}), ("python", {"tabsize": 4}),
    ("python", {"style": "code", "line_numbers": False}), ("python", {"use_styles": True, "escape_char": "!"}))])
op("png", lambda w, r: r.image(w.env.data["png"]),
   lambda w, r: r.image(w.env.data["png"], image_type="png"),
   lambda w, r: r.image(w.env.data["bytes"], image_type="png"),
   lambda w, r: r.image(io.BytesIO(w.env.data["bytes"]), image_type="png"),
   lambda w, r: r.image(w.env.data["png"], scale=None, rotation=None), lambda w, r: r.image(w.env.data["png"], rotation=0),
   lambda w, r: r.image(w.env.data["bytes"], image_type="jpeg"), lambda w, r: r.image(w.env.data["png2"]))
op("pngbox", *[lambda w, r, d=d: w.mark(r.box(**d[0])).image(w.env.data["png"], **d[1]) for d in (
    ({}, {}), ({}, {"scale": 1}), ({}, {"scale": 1.0}), ({"width": 20, "height": 10}, {}), ({"width": 20}, {}),
    ({"height": 10}, {}), ({"width": "20", "height": "10"}, {"scale": 1}))])
op("svg", lambda w, r: r.image(w.env.data["svg"]), lambda w, r: r.image(w.env.data["svg"], image_type="svg"),
   lambda w, r: r.image(w.env.data["svg"], show_begin=1), lambda w, r: r.image(w.env.data["svg"], fragments=True),
   lambda w, r: r.image(w.env.data["svg"], select_fragments=None), lambda w, r: r.image(w.env.data["svg2"]))
op("svgsel", *[lambda w, r, d=d: r.image(w.env.data["frag"], **d) for d in (
    {"show_begin": 2}, {"show_begin": 2, "fragments": True}, {"show_begin": 2, "select_fragments": None},
    {"show_begin": 2, "image_type": "svg"})])
op("svgone", *[lambda w, r, d=d: r.image(w.env.data["frag"], **d) for d in (
    {"select_fragments": [2, None, 1]}, {"select_fragments": (2, None, 1)},
    {"select_fragments": [2, None, 1], "fragments": False}, {"select_fragments": [2, None, 1], "show_begin": 1})])
op("ul", lambda w, r: lister(unordered_list(r)), lambda w, r: lister(unordered_list(r, label="\u2022")),
   lambda w, r: lister(unordered_list(r, indent=10, label_padding=25)), lambda w, r: lister(unordered_list(r, show="last+")),
   lambda w, r: lister(unordered_list(r, label=lambda b, l: b.text("\u2022"))), lambda w, r: lister(unordered_list(parent=r)),
   lambda w, r: within(unordered_list(r)))
op("ol", lambda w, r: lister(ordered_list(r)), lambda w, r: lister(ordered_list(r, start=1)),
   lambda w, r: lister(ordered_list(r, label=lambda b, l: b.text(".".join(map(str, l)) + "."))),
   lambda w, r: lister(ordered_list(r, 10, 1, 25)), lambda w, r: within(ordered_list(r)))
op("slide", lambda w, r: new(w.deck.new_slide(), w), lambda w, r: new(w.deck.new_slide(name="s"), w),
   lambda w, r: new(w.deck.new_slide(bg_color=None, view_box=None, debug_boxes=False), w),
   lambda w, r: w.deck.slide()(lambda b: new(b, w)), lambda w, r: w.deck.slide(name="s")(lambda b: new(b, w)),
   lambda w, r: new(w.deck.new_slide("s"), w), receivers=False)
op("setstyle", lambda w, r: (w.a.set_style("other", TextStyle(italic=True)), r.text("~other{y}", "other"))[1],
   lambda w, r: (w.a.set_style("other", TextStyle(italic=True), base="default"), r.text("~other{y}", "other"))[1])
op("lines", *[lambda w, r, f=f: w.mark(f(w.items[2])) for f in (
    lambda t: t.line_box(0), lambda t: t.line_box(0, n_lines=1), lambda t: t.line_box(0, 1),
    lambda t: t.line_box(index=0))], receivers=False)

op("inline", *[lambda w, r, f=f: w.mark(f(r.text("a ~mine{b} ~mine{c}\nd"))) for f in (
    lambda t: t.inline_box("mine"), lambda t: t.inline_box("mine", 1), lambda t: t.inline_box(style_name="mine", n_th=1),
    lambda t: t.inline_box("mine", show=None))])
op("inline2", *[lambda w, r, f=f: w.mark(f(r.text(*a) if isinstance(a, tuple) else a(r))) for f, a in (
    (lambda t: t.inline_box("mine", 2), ("a ~mine{b} ~mine{c}",)),
    (lambda t: t.inline_box("mine", n_th=2, z_level=None), ("a ~mine{b} ~mine{c}", "default")),
    (lambda t: t.inline_box("mine", 2, padding=0), lambda r: r.text("a !mine(b) !mine(c)", escape_char="!()")))])
op("arrow", *[lambda w, r, f=f: r.line([(1, 2), (40, 30)], color=w.color(), **f()) for f in (
    lambda: {"end_arrow": elsie.Arrow()}, lambda: {"end_arrow": elsie.Arrow(10)}, lambda: {"end_arrow": elsie.Arrow(10, 40)},
    lambda: {"end_arrow": elsie.Arrow(size=10, angle=40, stroke_width=None, inner=None), "start_arrow": None})])
op("olopt", *[lambda w, r, f=f: lister(f(r)) for f in (
    lambda r: ordered_list(r, start=3, p_y=2), lambda r: ordered_list(r, 10, 3, p_top=2, p_bottom=2),
    lambda r: ordered_list(parent=r, start=3, indent=10, label_padding=25, label=None, p_y=2))])
op("sub", *[lambda w, r, f=f: f(ordered_list(r)) for f in (
    lambda l: [l.item().text("x"), l.ol(start=4, indent=20).item().text("y")],
    lambda l: [l.item(label=None).text("x"), l.ol((1,), start=4, indent=20).item().text("y")],
    lambda l: [l.item(label_padding=25).text("x"), l.ol([1], start=4, indent=20, label=None).item().text("y")],
    lambda l: [l.item(show="last+").text("x"), l.ol(level=[1], start=4, indent=20).item(label_padding=None).text("y")])])
op("todo", lambda w, r: todo_placeholder(w.a), lambda w, r: todo_placeholder(w.a, None),
   lambda w, r: todo_placeholder(box=w.a), lambda w, r: todo_placeholder(w.a, "a"), receivers=False)


def new(b, w):
    w.mark(b.box(width=10, height=10))
    return b


def lister(lst):
    lst.item().text("one")
    sub = lst.ol()
    sub.item().text("two")
    lst.item().text("three")


def within(lst):
    with lst as a:
        a.item().text("one")
        with a.ol() as b:
            b.item().text("two")
        a.item().text("three")


MID = ["box", "fill", "spread", "overlay", "pad", "show", "rect", "line", "text", "png", "slide", "lazy", "prepend",
       "ul", "code", "svgsel", "z", "setstyle", "polygon", "pos", "fit"]
SMALL = ["fill", "overlay", "show", "text", "lazy", "prepend"]


def cases(tier, env):
    th = tier == "thorough"
    names = sorted(OPS)
    for n in (1, 2):
        for t in itertools.product(names, repeat=n):
            yield ["prog", list(t)]
            if th and n == 2:
                yield ["pairs", list(t)]
    for t in itertools.product(MID if th else MID[:11], repeat=3):
        yield ["prog", list(t)]
    if th:
        for t in itertools.product(SMALL, repeat=4):
            yield ["prog", list(t)]
    for kind in ("render", "deck"):
        for t in itertools.product(SMALL, repeat=2):
            yield [kind, list(t)]


BOUND = {"quick": f"all programs of <= 2 of {len(OPS)} calls with up to 14 spellings each and up to 9 receivers, of 3 of 11 calls",
         "thorough": f"all programs of <= 2 of {len(OPS)} calls with all pairs of spellings, of 3 of 21 calls and of 4 of 6 calls"}

SVG = ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' "
       "width='20' height='10'>%s<rect width='5' height='5'/></svg>")


def setup(env):
    fakeproc.install()
    d = env.fresh_dir()
    buf = io.BytesIO()
    Image.new("RGB", (20, 10), (1, 2, 3)).save(buf, "png")
    env.data["bytes"] = buf.getvalue()
    for k in ("png", "png2"):
        env.data[k] = os.path.join(d, k + ".png")
        with open(env.data[k], "wb") as f:
            f.write(buf.getvalue())
    IMAGE["png"] = env.data["png"]
    frag = "<g inkscape:label='**1'><rect width='1' height='1'/></g><g inkscape:label='**2'><rect width='2' height='2'/></g>"
    for k in ("svg", "svg2", "frag"):
        env.data[k] = os.path.join(d, k + ".svg")
        with open(env.data[k], "w") as f:
            f.write(SVG % (frag if k == "frag" else ""))


PATH = re.compile(r""" d=(["'])(.*?)\1""")
NUM = re.compile(r"(?<![\w#.])-?\d+(?:\.\d+)?(?:e[-+]?\d+)?(?![\w])")


def normal(svg):
    """The text of a page with all numbers in the same form"""
    svg = PATH.sub(lambda m: " d=" + re.sub(r"([A-Za-z])(?=[-0-9])", r"\1 ", m.group(2)), svg)
    return NUM.sub(lambda m: "%.5g" % (float(m.group()) + 0.0), svg)


def build(env, names, forms):
    w = World(env)
    for name, (f, recv) in zip(names, forms):
        OPS[name][0][f](w, w.a if recv < 0 else w.items[recv])
    return w


def result(w, **kw):
    return [normal(u.get_svg()) for u in W.render_units(w.deck, **kw)], w.root.current_fragment()


def run(case, rec, env):
    kind, names = case
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 500 == 0:
        env.data.pop("backend", None)
    plain = [(0, -1)] * len(names)
    rec.state(case)
    w = build(env, names, plain)
    want = result(w)
    rec.trace()
    rec.outcome(repr(want))
    if kind == "render":
        for kw in ({"select_slides": None}, {"select_slides": list(w.deck._slides)}, {"select_slides": tuple(w.deck._slides)},
                   {"slides_per_page": None}, {"slides_per_page": (1, 1)}, {"export_type": "png"}, {"save_cache": True},
                   {"prune_cache": True}, {"slide_postprocessing": lambda boxes: None}):
            rec.step()
            rec.expect(result(w, **kw), want, "rendering with " + repr(sorted(kw)))
        return
    if kind == "deck":
        decks = [dict(debug=False), dict(pygments_theme="default"), dict(bg_color=None), dict(name_policy="ignore"),
                 dict(name_policy="auto")]
        for kw in decks:
            rec.step()
            orig = W.new_deck
            W.new_deck = lambda env, **a: orig(env, **a, **kw)
            try:
                rec.expect(result(build(env, names, plain)), want, "deck with " + repr(kw))
            finally:
                W.new_deck = orig
        return
    alts = []
    for i, name in enumerate(names):
        forms, receivers = OPS[name]
        mine = [(f, -1) for f in range(1, len(forms))]
        if receivers:
            k = range(9) if len(names) == 1 else range(i % 2, 9, 2) if len(names) == 2 else (0, 2)
            mine += [(f % len(forms), r) for f, r in enumerate(k)]
        alts.append(mine)
    programs = []
    if kind == "pairs":
        programs = itertools.product(*alts)
    else:
        for i, mine in enumerate(alts):
            # in longer programs only the last call and all calls together vary
            if len(names) == 3 and i < 2:
                continue
            for m in mine:
                programs.append(plain[:i] + [m] + plain[i + 1:])
        if len(names) > 1:
            for k in range(max(map(len, alts))):
                programs.append([(mine[(k + i) % len(mine)] if mine else (0, -1)) for i, mine in enumerate(alts)])
    for p in programs:
        rec.step()
        got = result(build(env, names, p))
        if got != want:
            d = next(((a, b) for a, b in zip(got[0], want[0]) if a != b), None)
            rec.fail("another spelling of the program gives other pages", spelling=list(p), fragments=(got[1], want[1]),
                     pages=(len(got[0]), len(want[0])), difference=d and first_diff(*d))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return a[max(0, i - 80):i + 80] + "   <>   " + b[max(0, i - 80):i + 80]
    return f"lengths {len(a)} {len(b)}"
