"""C33: the frame of the pages: size, view box, background, debug frames and the pixels of PNG pages."""
import itertools
import os
import re

import elsie
from PIL import Image, ImageColor
from PyPDF2 import PdfFileReader

from .. import cairoobs, svgobs
from .. import world as W
from .c24_cairo import view_matrix

ID = "C33"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of page sizes, view boxes, deck and slide backgrounds, contents and ways of creation on "
             "both backends, of debugged box trees, and of all pictures of one or two rectangles on a grid of quarter pixels "
             "against a reference compositor")
NOTE = ("SVG roots and items, recorded Cairo operations, media boxes of the written PDF files and every pixel of "
        "the written PNG files are compared with values computed from the arguments alone.")
ASSUMPTIONS = ["PNG pages: sizes are integers"]
BOUND = {"quick": "5 sizes x 5 view boxes x 6 backgrounds x 7 contents x 2 ways x 3 outputs; debug: trees of <= 2 boxes over "
                  "24 box variants; 2592 pictures of a rectangle, all pairs of 36 rectangles on 2 backgrounds",
         "thorough": "also trees of 3 boxes over 12 variants, triples of 16 rectangles, all scales"}

SIZES = [None, (40, 30), (33, 17), (64.5, 48.25), (1, 1)]
VIEWS = [None, (10, 5, 20, 20), (-5, -5.5, 60, 40), (0, 0, 8, 8), (1.5, 2.5, 10.25, 30)]
BGS = [(None, None), ("#102030", None), (None, "red"), ("#102030", "#fff"), ("", ""), ("#102030", "")]
CONTENTS = ["none", "rect", "step", "z", "root", "prepend", "name"]
OUT = ["svg", "pdf", "png"]

NAMES = [None, "n", "a <b>", ""]
SHOWS = [None, "2", "1"]
RECTS = [(5, 6, 20, 10), (-3.5, 2, 12.5, 33.3333)]
BOXES = [[n, s, r] for n in range(4) for s in range(3) for r in range(2)] + [[0, 0, 2], [1, 0, 3]]
ALLRECTS = RECTS + [(4, 4, 0, 10), (1, 1, 7, 0)]
STYLES = [None, "z", "style"]

XS, YS, WS, HS = (0, 0.25, 0.5, 1, 2.75, -1.5), (0, 0.5, -1), (1, 2.5, 4, 20), (1, 1.75, 9)
COLORS = ["#ff8000", "#000000", "white", "#123456"]
PBG = [None, "#ffffff", "#40e010"]
PAIR = [(x, y, w, h) for x in (0, 1.25, 2.5, -0.5) for y in (0, 1.5, 2.25) for w, h in ((3, 2), (4.5, 1.75), (1.75, 5))]


def cases(tier, env):
    th = tier == "thorough"
    for s, v, b, c, way, out in itertools.product(range(len(SIZES)), range(len(VIEWS)), range(len(BGS)), CONTENTS,
                                                  ("new", "dec"), OUT):
        if out == "png" and s == 3:
            continue
        if out != "svg" and s == 0 and (way == "dec" or c not in ("none", "step")):
            continue                      # large pictures
        yield ["frame", s, v, b, c, way, out]
    for m in range(0, 3):
        for t in itertools.product(range(len(BOXES)), repeat=m):
            for parent in (0, 1):
                if m == 2 or not parent:
                    yield ["debug", list(t), [-1, parent - 1][:m], sum(t) % 3]
    if th:
        for t in itertools.product(range(0, len(BOXES), 2), repeat=3):
            for ps in ([-1, -1, 0], [-1, 0, 1], [-1, 0, 0], [-1, -1, -1]):
                yield ["debug", list(t), ps, sum(t) % 3]
    n = 0
    for r in itertools.product(XS, YS, WS, HS):
        for c, b in itertools.product(range(len(COLORS)), range(len(PBG))):
            n += 1
            for k in (range(4) if th else (n % 4,)):
                yield ["pix", [[list(r), c]], b, k]
    for a, b in itertools.product(PAIR, repeat=2):
        for bg in (0, 2):
            yield ["pix", [[list(a), 0], [list(b), 3]], bg, 0]
    if th:
        for t in itertools.product(PAIR[::2][:16], repeat=3):
            yield ["pix", [[list(r), i] for i, r in enumerate(t)], 0, 0]


def build(deck, kw, content, way):
    def fill(s):
        if content == "rect":
            s.box(x=3, y=4, width=10, height=8).rect(bg_color="#0a0b0c")
        elif content == "step":
            s.box(x=3, y=4, width=10, height=8, show="2").rect(bg_color="#0a0b0c")
        elif content == "z":
            s.box(x=3, y=4, width=10, height=8, z_level=-999999).rect(bg_color="#0a0b0c")
            s.box(x=1, y=1, width=5, height=8, z_level=3).rect(bg_color="#0a0b0d")
            s.box(x=2, y=1, width=5, height=8).rect(bg_color="#0a0b0e")
        elif content == "root":
            s.rect(color="#0a0b0c")
            s.text("x y", elsie.TextStyle(size=5))
        elif content == "prepend":
            s.box(width=7, height=5, prepend=True).rect(bg_color="#0a0b0c")
            s.box(width=7, height="fill", prepend=True, z_level=-2).rect(bg_color="#0a0b0d")
        elif content == "name":
            s.box(name="q", width="50%", height="50%").rect(bg_color="#0a0b0c")

    if way == "dec":
        made = []
        slide = deck.slide(**kw)(lambda s: (made.append(s), fill(s)))
        assert slide is made[0].slide
        return slide
    root = deck.new_slide(**kw)
    fill(root)
    return root.slide


def svg_items(svg):
    page = W.Page(svg)
    return page, [(i.tag, i.geometry(), i.matrix, i.style, (i.el.text or "")) for i in page.items]


def run(case, rec, env):
    {"frame": frame, "debug": debug, "pix": pix}[case[0]](case, rec, env)


def frame(case, rec, env):
    _, s, v, b, content, way, out = case
    kw = {} if SIZES[s] is None else dict(zip(("width", "height"), SIZES[s]))
    size = SIZES[s] or (1024, 768)
    dkw = {} if BGS[b][0] is None else {"bg_color": BGS[b][0]}
    skw = {} if BGS[b][1] is None else {"bg_color": BGS[b][1]}
    if VIEWS[v]:
        skw["view_box"] = VIEWS[v]
    if way == "new" and content == "name":
        skw["name"] = "title"
    bg = BGS[b][0] if BGS[b][1] is None else BGS[b][1]
    steps = 2 if content == "step" else 1
    rec.state(case)
    make = W.new_deck if out == "svg" else cairoobs.new_deck
    deck = make(env, **kw, **dkw)
    slide = build(deck, skw, content, way)
    plain_deck = make(env, **kw)
    plain = build(plain_deck, {k: x for k, x in skw.items() if k != "bg_color"}, content, way)
    rec.step(2)
    rec.expect(slide.name, "title" if "name" in skw else "<lambda>" if way == "dec" else None, "name of the slide")
    if out == "svg":
        pages, others = W.svgs(deck), W.svgs(plain_deck)
        rec.expect(len(pages), steps, "number of pages")
        for p, q in zip(pages, others):
            page, items = svg_items(p)
            root = page.root
            rec.expect((float(root.get("width")), float(root.get("height"))), tuple(map(float, size)), "size of the page")
            rec.expect(root.get("viewBox") and tuple(float(x) for x in root.get("viewBox").replace(",", " ").split()),
                       VIEWS[v] and tuple(map(float, VIEWS[v])), "view box")
            if bg:
                first, items = items[0], items[1:]
                rec.expect(first[:1] + (first[1][1][:4],) + first[2:3], ("rect", (0.0, 0.0, *map(float, size)), svgobs.IDENT),
                           "the background is not the first thing on the page")
                st = first[3]
                rec.expect((st.get("fill"), st.get("stroke", "none")), (bg, "none"), "paint of the background")
            rec.expect(items, svg_items(q)[1], "a background changes the content")
            rec.trace()
        rec.outcome(repr((size, bg, steps)))
        return
    log, other = [], []
    d = env.data["cairo-dir"]
    target = os.path.join(d, "out.pdf")
    with cairoobs.recording(log):
        res = deck.render(target, export_type=out)
    with cairoobs.recording(other):
        plain_deck.render(target + "x", export_type=out, prune_cache=False)
    k = 1 if out == "png" else 0.75
    m = view_matrix(VIEWS[v], *size)
    if bg:
        per = len(log) // steps
        page_logs = []
        pos = 0
        for i, op in enumerate(log):
            if op["op"] == "fill" and cairoobs.hexcolor(op["color"]) == "#%02x%02x%02x" % ImageColor.getrgb(bg) \
                    and is_frame(op, m, size, k):
                page_logs.append(i)
        rec.expect(len(page_logs), steps, "number of backgrounds")
        rec.expect(page_logs[0], 0, "the background is not the first thing on the page")
        if steps == 2:
            rec.expect(page_logs, [0, 1], "the background is not the first thing on the page")
        log = [op for i, op in enumerate(log) if i not in page_logs]
    strip = lambda ops: [(o["op"], o["color"], o.get("path"), o.get("width"), o["matrix"]) for o in ops]
    rec.expect(strip(log), strip(other), "a background changes the content")
    if out == "pdf":
        pages = PdfFileReader(target).pages
        rec.expect(len(pages), steps, "number of pages")
        for p in pages:
            box = [float(x) for x in p.mediaBox]
            want = [0, 0, size[0] * 0.75, size[1] * 0.75]
            if any(abs(x - y) > 0.02 for x, y in zip(box, want)):
                rec.fail("another size of the PDF page", got=box, want=want)
            rec.trace()
    else:
        rec.expect(len(res), steps, "number of pictures")
        for n, f in enumerate(res, 1):
            im = Image.open(f)
            rec.expect(im.size, size, "size of the picture")
            rec.trace()
            if content == "none" or (content == "step" and n == 1):
                check_pixels(rec, im, [((0, 0, *size), bg)] if bg else [], m)
    rec.outcome(repr((size, bg, out)))


def is_frame(op, m, size, k):
    pts = [p for kind, ps in op["path"] for p in ps]
    want = [svgobs.apply(m, p) for p in ((0, 0), (size[0], 0), (size[0], size[1]), (0, size[1]))]
    near = lambda p, q: abs(p[0] - q[0] * k) < 0.02 and abs(p[1] - q[1] * k) < 0.02
    return all(any(near(p, q) for p in pts) for q in want) and all(any(near(p, q) for q in want) for p in pts)


# pictures

def coverage(lo, hi, n):
    return [max(0.0, min(hi, i + 1) - max(lo, i)) for i in range(n)]


def composite(size, layers, m):
    w, h = size
    pixels = [[(0.0, 0.0, 0.0, 0.0)] * w for _ in range(h)]       # premultiplied
    for (x, y, rw, rh), color in layers:
        a, b = svgobs.apply(m, (x, y)), svgobs.apply(m, (x + rw, y + rh))
        cx, cy = coverage(a[0], b[0], w), coverage(a[1], b[1], h)
        rgb = [v / 255 for v in ImageColor.getrgb(color)]
        for j in range(h):
            for i in range(w):
                al = cx[i] * cy[j]
                if al:
                    o = pixels[j][i]
                    pixels[j][i] = tuple(c * al + p * (1 - al) for c, p in zip(rgb + [1.0], o))
    return pixels


def check_pixels(rec, im, layers, m):
    if im.mode != "RGBA":
        rec.fail("the picture is not RGBA", mode=im.mode)
    got = im.load()
    if im.size[0] * im.size[1] > 5000:
        # large pictures: only uniform ones occur
        if m == svgobs.IDENT:
            want = ImageColor.getrgb(layers[0][1]) + (255,) if layers else (0, 0, 0, 0)
            rec.expect([c for _, c in im.getcolors()], [want], "pixels")
        return
    want = composite(im.size, layers, m)
    for j in range(im.size[1]):
        for i in range(im.size[0]):
            *pre, alpha = want[j][i]
            g = got[i, j]
            if abs(g[3] / 255 - alpha) > 0.017:
                rec.fail("wrong opacity of a pixel", x=i, y=j, got=g, alpha=alpha * 255, layers=layers)
            if alpha > 0.05:
                rgb = [c / alpha for c in pre]
                if any(abs(a / 255 - b) > 0.012 + 0.012 / alpha for a, b in zip(g, rgb)):
                    rec.fail("wrong colour of a pixel", x=i, y=j, got=g, want=[c * 255 for c in rgb], layers=layers)


VIEW = [None, (0, 0, 4, 3), (-1, -1, 10, 8), (0, 0, 16, 12)]


def pix(case, rec, env):
    _, rects, bg, view = case
    size = (8, 6)
    key = "pix-deck"
    n = env.data.get("pix-n", 0)
    env.data["pix-n"] = n + 1
    if n % 100 == 0:
        env.data[key] = cairoobs.new_deck(env, width=size[0], height=size[1])
    deck = env.data[key]
    kw = {}
    if PBG[bg]:
        kw["bg_color"] = PBG[bg]
    if VIEW[view]:
        kw["view_box"] = VIEW[view]
    root = deck.new_slide(**kw)
    layers = [((0, 0, *size), PBG[bg])] if PBG[bg] else []
    for r, c in rects:
        root.box(x=r[0], y=r[1], width=r[2], height=r[3]).rect(bg_color=COLORS[c])
        layers.append((r, COLORS[c]))
        rec.step()
    rec.state(case)
    files = deck.render(None, export_type="png", select_slides=[root.slide])
    rec.expect(len(files), 1, "number of pictures")
    with Image.open(files[0]) as im:
        rec.expect(im.size, size, "size of the picture")
        check_pixels(rec, im, layers, view_matrix(VIEW[view], *size))
        rec.outcome(repr(list(im.getdata())))
    rec.trace()


# debug frames

def debug(case, rec, env):
    _, idx, parents, style = case
    rec.state(case)
    results, ops = [], []
    for cairo, dbg in [(False, False), (False, True)] + [(True, False), (True, True)] * (len(idx) < 2):
        deck = (cairoobs if cairo else W).new_deck(env, width=200, height=100)
        kw = {"debug_boxes": True} if dbg else {}
        root = deck.new_slide("root", **kw)
        if STYLES[style] == "style":
            root.update_style("default", elsie.TextStyle(size=40, color="green", align="right"))
        boxes = [root]
        info = [("root", (0, 0, 200, 100), None, None)]
        for n, i in enumerate(idx):
            name, show, r = NAMES[BOXES[i][0]], SHOWS[BOXES[i][1]], ALLRECTS[BOXES[i][2]]
            bkw = dict(x=r[0], y=r[1], width=r[2], height=r[3])
            if name is not None:
                bkw["name"] = name
            if show is not None:
                bkw["show"] = show
            if STYLES[style] == "z" and n == 0:
                bkw["z_level"] = 2
            p = parents[n] + 1
            b = boxes[p].box(**bkw)
            b.rect(bg_color=W.color(n))
            b.line([(0, 0), (5, 5)], color=W.color(n + 100))
            boxes.append(b)
            o = info[p][1]
            info.append((name, (o[0] + r[0], o[1] + r[1], r[2], r[3]), show, p))
        root.box(show="2", x=0, y=0, width=1, height=1)
        info.append((None, (0, 0, 1, 1), "2", 0))
        rec.step(len(idx))
        if cairo:
            ops.append([])
            with cairoobs.recording(ops[-1]):
                deck.render(None, export_type="png")
        else:
            results.append(W.svgs(deck))
    total = 0
    rec.expect(len(results[0]), 2, "number of pages")
    rec.expect(len(results[1]), 2, "number of pages")
    for step, (plain, debugged) in enumerate(zip(*results), 1):
        rec.trace()
        ip, idb = svg_items(plain)[1], svg_items(debugged)[1]
        pink = lambda i: "#ff00ff" in (i[3].get("stroke"), i[3].get("fill"))
        rec.expect([i for i in idb if not pink(i)], ip, "debug frames change the content")
        frames = sorted(i[1][1][:4] for i in idb if i[0] == "rect" and pink(i))
        vis = []
        for name, rect, show, p in info:
            vis.append((show is None or int(show) == step) and (p is None or vis[p]))
        visible = [x for x, y in zip(info, vis) if y]
        want = sorted((float(r[0]), float(r[1]), max(r[2], 0.1), max(r[3], 0.1)) for _, r, _, _ in visible)
        if len(frames) != len(want) or any(abs(a - b) > 1e-4 for f, g in zip(frames, want) for a, b in zip(f, g)):
            rec.fail("other frames", got=frames, want=want)
        page = W.Page(debugged)
        labels = []
        for el in page.root.iter(svgobs.SVG + "text"):
            text = "".join(el.itertext()).replace("\xa0", " ")
            t = re.search(r"\[([^][]*),([^][]*)\]\s*$", text)
            if not t:
                rec.fail("label without a size", text=text)
            labels.append((text[1:t.start()].strip(), float(t.group(1)), float(t.group(2)),
                           float(el.get("x") or next(el.iter(svgobs.SVG + "tspan")).get("x"))))
        want = [((n or "").strip(), max(r[2], 0.1), max(r[3], 0.1), r[0]) for n, r, _, _ in visible]
        key = lambda l: (l[0], round(l[1], 1), round(l[2], 1), round(l[3], 1))
        labels.sort(key=key)
        want.sort(key=key)
        if len(labels) != len(want) or any(
                a[0] != b[0] or any(abs(x - y) > 0.0051 for x, y in zip(a[1:], b[1:])) for a, b in zip(labels, want)):
            rec.fail("other labels", got=labels, want=want)
        rec.outcome(repr(want))
        total += len(visible)
    if ops:
        strip = lambda ops: [(o["op"], o["color"], o.get("path"), o.get("width"), o["matrix"]) for o in ops]
        pink = [o for o in ops[1] if o["color"] and cairoobs.hexcolor(o["color"]) == "#ff00ff"]
        rec.expect(strip([o for o in ops[1] if o not in pink]), strip(ops[0]), "debug frames change the content (Cairo)")
        rec.expect(len([o for o in pink if o["op"] == "stroke"]), total, "number of frames (Cairo)")
