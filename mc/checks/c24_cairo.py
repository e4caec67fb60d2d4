"""C24: Cairo draws the same geometry as the SVG output."""
import io
import itertools
import math
import os
import re

import elsie
from PIL import Image

from .. import cairoobs, fakeproc, pictures, svgobs
from .. import world as W
from ..svgobs import apply, mul

ID = "C24"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of attribute combinations of all primitives, of all sequences of up "
             "to three primitives and of all paths of up to four commands, on both backends")
NOTE = ("Pictures with features drawn by libraries (gradients, masks, embedded bitmaps, layers, kinds of "
        "bitmaps) are compared by pixels with the SVG page drawn by an SVG library. Every cairo fill/stroke/paint is recorded with its device-space outline, paint and stroke "
        "parameters; the list has to be the one that the SVG page of the same program denotes "
        "(an independent interpreter of the written SVG elements).")
ASSUMPTIONS = ["colours are hexadecimal or named", "outlines are compared with a tolerance of 0.15 units + 0.3 % of the length (Cairo approximates arcs)"]
BOUND = {"quick": "attribute products of 7 primitives in 3 view boxes; all pairs of 20 and triples of 10 "
                  "primitives; 34 kinds of pictures in 24 places by pixels; all paths of <= 4 single and <= 3 repeated commands",
         "thorough": "all triples of 20 primitives, all pairs of all variants of different primitives, "
                     "paths of <= 4 repeated commands"}

PAINT = [dict(color=c, bg_color=b, **k) for c, b in (("red", None), (None, "#0f0"), ("#12abEF", "Blue"))
         for k in ({}, {"stroke_width": 3.5}, {"stroke_dasharray": "4 2"},
                   {"stroke_dasharray": "5,1.5 2", "stroke_width": 2}, {"stroke_width": 0})]
PAINT += [dict(color="#123456", stroke_dasharray=d, stroke_width=w) for d in ("1,2,3,4,5,6", "3,1,2 4,5", "1 2 3 4 5 6 7 8 9 10 11 12 13",
                                                                      "0.5,0.25", "30 1,2,2,2,2,2,2,2") for w in (0.5, 1, 9)]
BASIC = 15      # the first paints are combined with everything
DIMS = [(20, 10), (8, 24), (15, 15), (0, 10), (12, 0), (0, 0)]
BIG = [(300, 4), (4, 200), (900, 1), (0.5, 400), (700, 500)]
DIMS += BIG
ROTS = [None, 0, 30, -120]
RADII = [{}, {"rx": 4}, {"ry": 3}, {"rx": 30, "ry": 5}, {"rx": 5, "ry": 0}, {"rx": 2, "ry": 4}, {"rx": 6, "ry": 6}]
POLY = [[(3, 4), (20, 7), (9, 25)], [(2, 2), (25, 3), (10, 9), (12, 28)], [(1, 1), (30, 20)],
        [(5, 5), (25, 8), (6, 9)], [(5, 5), (15, 5), (25, 5), (25, 25)]]
POLY += [[((7 * i) % 41, (11 * i) % 37) for i in range(n)] for n in (12, 40, 70, 130)]
ARROWS = [None, {}, {"size": 6, "angle": 20, "inner": 0.5}, {"size": 8, "stroke_width": 2},
          {"size": 12, "angle": 60, "inner": 1.5}]
BOXES = [None, (10, 5, 30, 60), (-20, 0, 200, 50)]
PTS = [(5, 6), (25, 8), (12, 30), (33, 21), (2, 17), (28, 2), (19, 19), (7, 26), (30, 30), (1, 9), (22, 14), (13, 3)]
NARGS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}


def variants():
    """All variants of each primitive."""
    res = {k: [] for k in ("rect", "ellipse", "polygon", "line", "path", "bitmap", "svg", "svgin")}
    for p, d, r, rad in itertools.product(range(BASIC), range(6), range(4), range(len(RADII))):
        res["rect"].append(["rect", p, d, r, rad])
    for p, d, r in itertools.product(range(BASIC), range(6), range(4)):
        res["ellipse"].append(["ellipse", p, d, r])
    for p, d, r in itertools.product(range(BASIC), range(5), range(4)):
        res["polygon"].append(["polygon", p, d, r])
    for p, d, s, e in itertools.product(range(5), range(5), range(5), range(5)):
        res["line"].append(["line", p, d, s, e])
    for p, a in itertools.product(range(BASIC), range(5)):
        for cmds in ([("M", 1), ("L", 1), ("C", 1)], [("M", 1), ("Q", 1), ("T", 1)], [("M", 1), ("L", 3), ("S", 1)],
                     [("M", 3), ("Q", 2)]):
            res["path"].append(["path", p, a, cmds])
    for k in ("bitmap", "svg", "svgin"):
        for d, r, s in itertools.product(range(3), range(4), (None, 1, 0.5)):
            res[k].append([k, d, r, s])
    return res


def large():
    """Long dash patterns, extreme sizes, many points and commands."""
    for p in range(BASIC, len(PAINT)):
        yield ["rect", p, 0, 2, 1]
        yield ["ellipse", p, 1, 0]
        yield ["polygon", p, 1, 2]
        yield ["line", p, 0, 1, 3]
        yield ["path", p, 1, [("M", 1), ("L", 1), ("C", 1)]]
    for d in range(6, len(DIMS)):
        for p in (0, 3, 6, 11):
            for r in (0, 2):
                yield ["ellipse", p, d, r]
                for rad in range(len(RADII)):
                    yield ["rect", p, d, r, rad]
    for d in range(5, len(POLY)):
        for p in (0, 3, 6, 11):
            for r in (0, 2):
                yield ["polygon", p, d, r]
            yield ["line", min(p, 4), d, 1, 3]
    for c in "MLCSQT":
        for n in (10, 33, 70):
            yield ["path", 10, int(c not in "ML"), [("M", 1), (c, n)]]
            yield ["path", 10, int(c not in "ML"), [("M", 1)] + [(c, 1)] * n]
            yield ["path", 10, 1, [("M", 1)] + [(c, 1), ("T", 1), ("L", 2), ("S", 1)] * (n // 3)]


SHORT = [["rect", 0, 0, 0, 0], ["rect", 3, 1, 2, 5], ["rect", 12, 0, 3, 2], ["ellipse", 0, 1, 0],
         ["ellipse", 2, 0, 2], ["ellipse", 13, 2, 0], ["ellipse", 5, 0, 0], ["polygon", 0, 0, 0],
         ["polygon", 12, 1, 2], ["line", 0, 0, 0, 1], ["line", 2, 1, 3, 0], ["line", 1, 3, 2, 4],
         ["path", 0, 0, [("M", 1), ("C", 1)]], ["path", 12, 1, [("M", 1), ("Q", 1)]], ["bitmap", 0, 2, None],
         ["svg", 1, 0, None], ["svg", 0, 2, 0.5], ["rect", 1, 2, 0, 0], ["text", 0], ["text", 30]]


PIX_DIMS = [(40, 30), (20, 25), (None, None)]
PIX_BOXES = [None, (10, 5, 40, 40)]


def cases(tier, env):
    th = tier == "thorough"
    for name in pictures.NAMES:
        for d, r, s, b in itertools.product(range(3), range(4) if th else (0, 2), (None, 1, 0.5, 2) if th else (None, 0.5),
                                            range(2)):
            yield ["pixels", [[name, d, r, s]], b]
    if th:
        for x, y in itertools.permutations(pictures.NAMES, 2):
            yield ["pixels", [[x, 1, 0, None], [y, 1, 2, 0.5]], 0]
    var = variants()
    k = 0
    for v in itertools.chain(*var.values()):
        for b in range(3):
            k += 1
            yield [[v], b, k % 2]
    for v in large():
        for b in range(3):
            k += 1
            yield [[v], b, k % 2]
    for a in itertools.product(range(20), repeat=2):
        for b in range(2):
            yield [[SHORT[i] for i in a], b, b]
    for a in itertools.product(range(20) if th else (0, 3, 4, 7, 10, 13, 14, 15, 1, 18), repeat=3):
        yield [[SHORT[i] for i in a], sum(a) % 3, sum(a) % 2]
    if th:
        for x, y in itertools.permutations(var, 2):
            for i, v in enumerate(var[x]):
                for w in var[y][i % 7::7]:
                    k += 1
                    yield [[v, w], k % 3, k % 2]
    for n in range(1, 5):
        for cmds in itertools.product("MLCSQT", repeat=n):
            yield [[["path", 10, 0, [("M", 1)] + [(c, 1) for c in cmds]]], 0, 0]
    for n in range(1, 5 if th else 4):
        for cmds in itertools.product(itertools.product("MLCSQT", (1, 2)), repeat=n):
            if any(c[1] > 1 for c in cmds):
                yield [[["path", 10, 0, [("M", 2)] + [list(c) for c in cmds]]], n % 3, 1]


def setup(env):
    fakeproc.install()
    d = env.data["dir"] = env.fresh_dir()
    env.data["pictures"] = pictures.build(d)
    Image.new("RGBA", (6, 4), (200, 10, 10, 255)).save(os.path.join(d, "b.png"))
    with open(os.path.join(d, "b.svg"), "w") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" width="10" height="6">'
                '<rect x="1" y="2" width="7" height="3" fill="#ff8000"/></svg>')
    with open(os.path.join(d, "c.svg"), "w") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" width="0.25in" height="9pt">'
                '<g transform="translate(2 1)"><rect x="1" y="2" width="7" height="3" fill="#00ff80"/></g></svg>')


def arrow(i):
    return None if ARROWS[i] is None else elsie.Arrow(**ARROWS[i])


def draw(slide, v, env):
    kind = v[0]
    if kind in ("rect", "ellipse"):
        w, h = DIMS[v[2]]
        kw = dict(PAINT[v[1]])
        if ROTS[v[3]] is not None:
            kw["rotation"] = ROTS[v[3]]
        box = slide.box(x=7, y=5, width=w, height=h)
        if kind == "rect":
            box.rect(**kw, **RADII[v[4]])
        else:
            box.ellipse(**kw)
    elif kind == "polygon":
        kw = dict(PAINT[v[1]])
        if ROTS[v[3]] is not None:
            kw["rotation"] = ROTS[v[3]]
        slide.box().polygon(POLY[v[2]], **kw)
    elif kind == "line":
        kw = dict(PAINT[v[1]])
        kw.pop("bg_color", None)
        slide.box().line(POLY[v[2]], start_arrow=arrow(v[3]), end_arrow=arrow(v[4]), **kw)
    elif kind == "path":
        pts = itertools.cycle(PTS)
        cmds = [(c, *[next(pts) for _ in range(NARGS[c] * n)]) for c, n in v[3]]
        slide.box().path(cmds, end_arrow=arrow(v[2]), **PAINT[v[1]])
    elif kind == "text":
        slide.box(x=3, y=4).text("a", rotation=v[1])
    else:
        w, h = DIMS[v[1]]
        kw = {}
        if ROTS[v[2]] is not None:
            kw["rotation"] = ROTS[v[2]]
        if v[3] is not None:
            kw["scale"] = v[3]
        box = slide.box(x=7, y=5, width=w, height=h)
        box.image(os.path.join(env.data["dir"], {"bitmap": "b.png", "svg": "b.svg", "svgin": "c.svg"}[kind]), **kw)


# ---- the reference: operations denoted by SVG elements

K = 0.5522847498


def bezier(p0, p1, p2, p3, n=16):
    return [tuple((1 - t) ** 3 * a + 3 * t * (1 - t) ** 2 * b + 3 * t * t * (1 - t) * c + t ** 3 * d
                  for a, b, c, d in zip(p0, p1, p2, p3)) for t in (i / n for i in range(1, n + 1))]


def quad(p0, p1, p2, n=16):
    return [tuple((1 - t) ** 2 * a + 2 * t * (1 - t) * b + t * t * c for a, b, c in zip(p0, p1, p2))
            for t in (i / n for i in range(1, n + 1))]


def arc(cx, cy, rx, ry, a0, a1, n=16):
    return [(cx + rx * math.cos(a), cy + ry * math.sin(a))
            for a in (a0 + (a1 - a0) * i / n for i in range(1, n + 1))]


def svg_outline(it):
    """[(points, closed)] in the coordinates of the element; None: it is not rendered"""
    el = it.el
    num = lambda k: None if el.get(k) is None else float(el.get(k))
    if it.tag == "rect":
        x, y, w, h = (num(k) or 0 for k in ("x", "y", "width", "height"))
        if w <= 0 or h <= 0:
            return None
        rx, ry = num("rx"), num("ry")
        if rx is None:
            rx = ry
        if ry is None:
            ry = rx
        rx, ry = min(rx or 0, w / 2), min(ry or 0, h / 2)
        if not rx or not ry:
            return [([(x, y), (x + w, y), (x + w, y + h), (x, y + h)], True)]
        p = [(x + rx, y), (x + w - rx, y)] + arc(x + w - rx, y + ry, rx, ry, -math.pi / 2, 0)
        p += [(x + w, y + h - ry)] + arc(x + w - rx, y + h - ry, rx, ry, 0, math.pi / 2)
        p += [(x + rx, y + h)] + arc(x + rx, y + h - ry, rx, ry, math.pi / 2, math.pi)
        p += [(x, y + ry)] + arc(x + rx, y + ry, rx, ry, math.pi, 1.5 * math.pi)
        return [(p, True)]
    if it.tag == "ellipse":
        rx, ry = num("rx"), num("ry")
        if rx <= 0 or ry <= 0:
            return None
        return [([(num("cx") + rx, num("cy"))] + arc(num("cx"), num("cy"), rx, ry, 0, 2 * math.pi, 64), None)]
    if it.tag in ("polygon", "polyline"):
        return [(list(it.points()), it.tag == "polygon")]
    assert it.tag == "path"
    subs, cur, cubic, quadr = [], None, None, None
    for name, pts in svgobs.parse_path(el.get("d")):
        n = NARGS[name]
        for i in range(0, len(pts), n):
            a = pts[i:i + n]
            c2 = q2 = None
            if name == "M" and i == 0:
                cur = [a[0]]
                subs.append((cur, False))
            elif name in "ML":
                cur.append(a[0])
            elif name in "CS":
                if name == "S":
                    c = cubic or cur[-1]
                    a = ((2 * cur[-1][0] - c[0], 2 * cur[-1][1] - c[1]),) + tuple(a)
                cur += bezier(cur[-1], *a)
                c2 = a[1]
            else:
                if name == "T":
                    c = quadr or cur[-1]
                    a = ((2 * cur[-1][0] - c[0], 2 * cur[-1][1] - c[1]),) + tuple(a)
                cur += quad(cur[-1], *a)
                q2 = a[0]
            cubic, quadr = c2, q2
    return subs


def color(c):
    import webcolors

    return None if c in (None, "none") else (webcolors.normalize_hex(c) if c[0] == "#" else webcolors.name_to_hex(c))


def svg_ops(page, base):
    ops = []
    for it in page.items:
        m = mul(base, it.matrix)
        k = math.sqrt(abs(m[0] * m[3] - m[1] * m[2]))
        if it.tag == "text":
            continue
        if it.tag == "image":
            x, y, w, h = (float(it.el.get(q)) for q in ("x", "y", "width", "height"))
            if w > 0 and h > 0:
                ops.append(("paint", [apply(m, p) for p in ((x, y), (x + w, y), (x + w, y + h), (x, y + h))]))
            continue
        out = svg_outline(it)
        if out is None or k == 0:
            continue
        out = [([apply(m, p) for p in pts], closed) for pts, closed in out]
        if color(it.fill):
            ops.append(("fill", out, color(it.fill)))
        if color(it.stroke):
            width = float(it.style.get("stroke-width", 1))
            dash = it.style.get("stroke-dasharray")
            dash = [float(v) * k for v in dash.replace(",", " ").split()] if dash and dash != "none" else []
            if len(dash) % 2:
                dash = dash * 2
            ops.append(("stroke", out, color(it.stroke), width * k, dash))
    return ops


def cairo_ops(log, scale):
    ops = []
    for o in log:
        if o["op"].startswith("paint"):
            ops.append(("paint", [(x / scale, y / scale) for x, y in o["picture"]]))
            continue
        if o["color"] and o["color"][3] == 0:
            continue
        subs, cur = [], None
        for kind, dev in o["path"]:
            dev = [(x / scale, y / scale) for x, y in dev]
            if kind == 0:
                cur = [dev[0]]
                subs.append([cur, False])
            elif kind == 1:
                cur.append(dev[0])
            elif kind == 2:
                cur += bezier(cur[-1], *dev)
            else:
                subs[-1][1] = True
        # a move after closing begins no outline
        subs = [(p, c) for p, c in subs if len(p) > 1]
        c = cairoobs.hexcolor(o["color"]) if o["color"] else None
        if o["op"] == "fill":
            ops.append(("fill", subs, c))
        else:
            m = o["matrix"]
            k = math.sqrt(abs(m[0] * m[3] - m[1] * m[2])) / scale
            dash = [v * k for v in o["dash"]]
            if len(dash) % 2:
                dash = dash * 2
            if dash and o["dash_offset"]:
                dash.append(("offset", o["dash_offset"]))
            if o["joins"][:2] != (0, 0) or abs(o["joins"][2] - 4) > 1e-9:
                dash.append(("joins", o["joins"]))
            ops.append(("stroke", subs, c, o["width"] * k, dash))
    return ops


def sample(pts, closed, n=48):
    """Points at equal distances along the outline and its length"""
    p = list(pts) + ([pts[0]] if closed else [])
    seg = [math.dist(a, b) for a, b in zip(p, p[1:])]
    total = sum(seg)
    if total < 1e-9:
        return [pts[0]] * (n + 1), 0
    res, i, done = [], 0, 0.0
    for j in range(n + 1):
        t = total * j / n
        while i < len(seg) - 1 and done + seg[i] < t:
            done += seg[i]
            i += 1
        f = (t - done) / seg[i] if seg[i] else 0
        f = min(max(f, 0), 1)
        res.append((p[i][0] + (p[i + 1][0] - p[i][0]) * f, p[i][1] + (p[i + 1][1] - p[i][1]) * f))
    return res, total


def same_outline(a, b):
    a = [s for s in a if len(s[0]) > 1]
    if len(a) != len(b):
        return f"{len(b)} subpaths instead of {len(a)}"
    for (p, c), (q, d) in zip(a, b):
        if c is not None and c != d and len(p) > 2:
            return "closed" if d else "not closed"
        s, n = sample(p, bool(c))
        t, m = sample(q, bool(d))
        tol = 0.15 + 0.003 * n
        if abs(n - m) > tol + 0.6:
            return f"length {m} instead of {n}"
        for axis in (0, 1):
            lo, hi = (f(u[axis] for u in p) for f in (min, max))
            eps = 0.1 + 0.001 * (hi - lo)
            if abs(lo - min(u[axis] for u in q)) > eps or abs(hi - max(u[axis] for u in q)) > eps:
                return f"extent on axis {axis} is not {lo, hi}"
        for u, v in zip(s, t):
            if math.dist(u, v) > tol:
                return f"point {v} instead of {u}"
    return None


def visible(ops):
    return [o for o in ops if o[0] == "paint" or any(len(p) > 1 for p, _ in o[1])]


def difference(want, got):
    want, got = visible(want), visible(got)
    if [o[0] for o in want] != [o[0] for o in got]:
        return f"operations {[o[0] for o in got]} instead of {[o[0] for o in want]}"
    for w, g in zip(want, got):
        if w[0] == "paint":
            if any(math.dist(a, b) > 0.02 for a, b in zip(w[1], g[1])):
                return f"bitmap at {g[1]} instead of {w[1]}"
            continue
        d = same_outline(w[1], g[1])
        if d:
            return f"{w[0]}: {d}"
        if w[2] != g[2]:
            return f"{w[0]} with {g[2]} instead of {w[2]}"
        if w[0] == "stroke":
            if abs(w[3] - g[3]) > 1e-3 * max(1, w[3]):
                return f"stroke width {g[3]} instead of {w[3]}"
            if len(w[4]) != len(g[4]) or any(abs(a - b) > 1e-3 * max(1, a) for a, b in zip(w[4], g[4])):
                return f"dashes {g[4]} instead of {w[4]}"
    return None


def view_matrix(box, w, h):
    if box is None:
        return svgobs.IDENT
    k = min(w / box[2], h / box[3])
    return (k, 0, 0, k, (w - box[2] * k) / 2 - box[0] * k, (h - box[3] * k) / 2 - box[1] * k)


def pixels(case, rec, env):
    """The page drawn by Cairo and the SVG page drawn by an SVG library are equal pictures"""
    import cairosvg

    _, pics, b = case
    slides = []
    decks = env.data["deck"], env.data["cdeck"]
    for deck in decks:
        slide = deck.new_slide(bg_color="white", **({} if PIX_BOXES[b] is None else {"view_box": PIX_BOXES[b]}))
        for name, d, r, s in pics:
            kw = {} if ROTS[r] is None else {"rotation": ROTS[r]}
            if s is not None:
                kw["scale"] = s
            w, h = PIX_DIMS[d]
            slide.box(x=7, y=5, width=w, height=h).image(env.data["pictures"][name], **kw)
        slides.append(slide.slide)
    svg = W.svgs(decks[0], select_slides=[slides[0]])[0]
    # flowed text is no part of SVG, nothing of it is drawn (the library draws its region)
    svg = re.sub(r"<flowRoot>.*?</flowRoot>", "", svg)
    want = Image.open(io.BytesIO(cairosvg.svg2png(svg.encode(), unsafe=True))).convert("RGB")
    name = decks[1].render(output=None, export_type="png", save_cache=False, prune_cache=False,
                           select_slides=[slides[1]])[0]
    with Image.open(name) as im:
        got = im.convert("RGB")
    os.remove(name)
    rec.trace()
    rec.count("pictures compared by pixels")
    if not rec.expect(got.size, want.size, "size of the picture"):
        return
    a, c = got.tobytes(), want.tobytes()
    rec.outcome(hash(c))
    if a != c:
        bad = [i // 3 for i in range(0, len(a), 3) if max(abs(a[j] - c[j]) for j in (i, i + 1, i + 2)) > 60]
        if len(bad) > 3:
            rec.fail(f"Cairo draws {len(bad)} pixels in other colours than the SVG page has",
                     where=[divmod(i, got.width)[::-1] for i in bad[:10]], svg=svg)


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, width=60, height=40)
        env.data["cdeck"] = cairoobs.new_deck(env, width=60, height=40)
    rec.state(case)
    if case[0] == "pixels":
        return pixels(case, rec, env)
    prims, b, pdf = case
    slides = []
    for deck in (env.data["deck"], env.data["cdeck"]):
        slide = deck.new_slide(**({} if BOXES[b] is None else {"view_box": BOXES[b]}))
        for v in prims:
            draw(slide, v, env)
        slides.append(slide.slide)
    page = W.Page(W.svgs(env.data["deck"], select_slides=[slides[0]])[0])
    vb = page.root.get("viewBox")
    vb = tuple(float(q) for q in vb.split()) if vb else None
    want = svg_ops(page, view_matrix(vb, float(page.root.get("width")), float(page.root.get("height"))))
    log = cairoobs.record(env.data["cdeck"], "pdf" if pdf else "png", select_slides=[slides[1]])[0]
    rec.trace()
    got = cairo_ops(log, 0.75 if pdf else 1.0)
    rec.step(len(want))
    rec.outcome(repr(want))
    d = difference(want, got)
    if d:
        rec.fail("Cairo draws something else than the SVG: " + d, svg=page.svg, got=got, want=want)
