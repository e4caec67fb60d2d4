"""C32: shapes are drawn with exactly the given geometry and paint."""
import itertools
import math

import elsie

from .. import svgobs
from .. import world as W
from .c24_cairo import NARGS, arc, bezier, color, quad, sample, svg_ops

ID = "C32"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the drawing calls (paint x radii x rotation x box, all point sequences "
             "over all kinds of coordinates, all path command sequences), each drawn by the real code and "
             "compared with operations computed from the arguments of the call alone")
NOTE = ("The SVG elements of every page are interpreted (transformations, radii, curves, paint) and must denote "
        "exactly the fills and strokes that the arguments demand, in the order of the calls, on exactly the pages "
        "of the box. C24 compares the other backend with the SVG one, so both together decide Cairo, too.")
ASSUMPTIONS = ["arrows are the business of C31"]
BOUND = {"quick": "rect: 240 paints x 9 radii x 5 rotations x 3 boxes, ellipse: 240 paints x 5 rotations x 3 boxes; "
                  "all polygons/lines of <= 3 of 13 points x paints/rotations rotated; all paths of <= 3 commands with "
                  "<= 2 segments; all chains of 3 of 7 drawings",
         "thorough": "the same for rects and ellipses; polygons/lines of <= 4 of 13 points; paths of 4 commands; chains of 4"}

COLORS = ["-", None, "red", "#00f"]
BGS = ["-", None, "green", "#abcdef"]
WIDTHS = ["-", 1, 2.5, 10, 0]
DASHES = ["-", "4 2", "3"]
PAINTS = list(itertools.product(COLORS, BGS, WIDTHS, DASHES))
RADII = [{}, {"rx": 4}, {"ry": 3}, {"rx": 300, "ry": 5}, {"rx": 5, "ry": 0}, {"rx": 0, "ry": 0}, {"rx": 2.5, "ry": 4},
         {"rx": 6, "ry": 600}, {"rx": 6, "ry": None}]
ROTS = ["-", 0, 30, -90, 405.5]
SEL = [None, "2", "2+"]
BOX = {"a": ((24, 36, 108, 64), dict(x=20, y=30, width=120, height=80, p_left=4, p_top=6, p_right=8, p_bottom=10)),
       "b": ((200.5, 100, 40, 50), dict(x=200.5, y=100, width=40, height=50)),
       "c": ((50, 60, 0, 30), dict(x=50, y=60, width=0, height=30))}
POINTS = [(0, 0), (10, -5.5), ("25", "7"), ("50%", "100%"), ("[75%]", 4), ["0%", "[0%]"], ("lazy", "b", 0, 0),
          ("lazy", "b", "50%", "100%"), ("add", "b", "100%", 5, 3, -4), ("mix", "b", "100%", 7),
          ("lazy", "a", "10", "[50%]"), (1234.567891, 0.12345678), ("map", "b", 0, "50%")]


def kwargs_of(paint, default=None):
    kw = {}
    for key, v in zip(("color", "bg_color", "stroke_width", "stroke_dasharray"), paint):
        if v != "-":
            kw[key] = v
    return kw


def cases(tier, env):
    th = tier == "thorough"
    n = 0
    for i, j, k, b in itertools.product(range(len(PAINTS)), range(len(RADII)), range(len(ROTS)), "abc"):
        n += 1
        yield [[["rect", i, j, k]], b, n % 3]
    for i, k, b in itertools.product(range(len(PAINTS)), range(len(ROTS)), "abc"):
        n += 1
        yield [[["ellipse", i, k]], b, n % 3]
    for m in range(1, 5 if th else 4):
        for t in itertools.product(range(len(POINTS)), repeat=m):
            n += 1
            yield [[["polygon", (n * 7) % len(PAINTS), list(t), n % 5]], "a", n % 3]
            if m > 1:
                yield [[["line", (n * 11) % len(PAINTS), list(t)]], "a", n % 3]
    for i, k in itertools.product(range(len(PAINTS)), range(5)):
        yield [[["polygon", i, [1, 3, 7], k]], "b", i % 3]
        yield [[["line", i, [1, 3, 7]]], "b", i % 3]
        yield [[["path", i, [["M", 1], ["C", 1], ["L", 1]], k]], "b", i % 3]
    for m in range(0, 5 if th else 4):
        for t in itertools.product(itertools.product("MLCSQT", (1, 2)), repeat=m):
            if m == 4 and sum(c[1] > 1 for c in t) > 1:
                continue
            n += 1
            yield [[["path", (n * 13) % len(PAINTS), [["M", 1 + n % 2]] + [list(c) for c in t], n]], "a", n % 3]
    for m in (5, 8, 9, 13, 40, 200):
        for s in range(13):
            n += 1
            pts = [(s + i * (1 + s % 3)) % len(POINTS) for i in range(m)]
            yield [[["polygon", (n * 7) % len(PAINTS), pts, n % 5]], "a", n % 3]
            yield [[["line", (n * 11) % len(PAINTS), pts]], "a", n % 3]
            if m < 100:
                cmds = [["M", 1]] + [["MLCSQT"[(s + i * (1 + s % 5)) % 6], 1 + (i + s) % 4] for i in range(m)]
                yield [[["path", (n * 13) % len(PAINTS), cmds, n]], "a", n % 3]
    chain = [["rect", 3 * 60 + 2 * 15, 0, 0], ["rect", 2 * 60 + 15, 1, 2], ["ellipse", 2 * 60 + 3 * 15, 2],
             ["polygon", 3 * 60 + 15 + 4, [0, 3, 7], 2], ["line", 3 * 60, [0, 3]], ["path", 2 * 60, [["M", 1], ["Q", 1]], 0],
             ["rect", 0, 0, 0]]
    for t in itertools.product(range(len(chain)), repeat=4 if th else 3):
        for b in "ab":
            n += 1
            yield [[chain[i] for i in t], b, n % 3]


def make_point(p, boxes, box):
    """(argument, point in the page)"""
    def coord(rect, axis, v):
        start, size = rect[axis], rect[axis + 2]
        if isinstance(v, str):
            if v.endswith("%]"):
                return start + size * float(v[1:-2]) / 100
            if v.endswith("%"):
                return start + size * float(v[:-1]) / 100
        return start + float(v)

    if p[0] in ("lazy", "add", "mix", "map"):
        other, rect = boxes[p[1]], BOX[p[1]][0]
        if p[0] == "mix":
            return (other.x(p[2]), p[3]), (coord(rect, 0, p[2]), coord(BOX[box][0], 1, p[3]))
        x, y = coord(rect, 0, p[2]), coord(rect, 1, p[3])
        if p[0] == "lazy":
            return other.p(p[2], p[3]), (x, y)
        if p[0] == "map":
            return (other.x(p[2]).map(lambda v: v / 2), other.y(p[3]).add(1)), (x / 2, y + 1)
        return other.p(p[2], p[3]).add(p[4], p[5]), (x + p[4], y + p[5])
    return p, (coord(BOX[box][0], 0, p[0]), coord(BOX[box][0], 1, p[1]))


def rotate(outline, angle, c):
    if not angle or angle == "-":
        return outline
    a = math.radians(angle)
    s, k = math.sin(a), math.cos(a)
    return [([(c[0] + (x - c[0]) * k - (y - c[1]) * s, c[1] + (x - c[0]) * s + (y - c[1]) * k) for x, y in pts], z)
            for pts, z in outline]


def rect_outline(r, rx, ry):
    x, y, w, h = r
    if w <= 0 or h <= 0:
        return None
    rx, ry = (ry if rx is None else rx), (rx if ry is None else ry)
    rx, ry = min(rx or 0, w / 2), min(ry or 0, h / 2)
    if not rx or not ry:
        return [([(x, y), (x + w, y), (x + w, y + h), (x, y + h)], True)]
    q = math.pi / 2
    p = [(x + rx, y), (x + w - rx, y)] + arc(x + w - rx, y + ry, rx, ry, -q, 0)
    p += [(x + w, y + h - ry)] + arc(x + w - rx, y + h - ry, rx, ry, 0, q)
    p += [(x + rx, y + h)] + arc(x + rx, y + h - ry, rx, ry, q, 2 * q)
    p += [(x, y + ry)] + arc(x + rx, y + ry, rx, ry, 2 * q, 3 * q)
    return [(p, True)]


def path_outline(cmds):
    subs, cur, last, ctrl = [], None, None, None
    for name, pts in cmds:
        for i in range(0, len(pts), NARGS[name]):
            a = list(pts[i:i + NARGS[name]])
            if name == "M" and i == 0:
                cur = [a[0]]
                subs.append((cur, False))
            elif name in "ML":
                cur.append(a[0])
            else:
                p = cur[-1]
                if name in "ST":
                    c = ctrl if last in ("CS" if name == "S" else "QT") else p
                    a.insert(0, (2 * p[0] - c[0], 2 * p[1] - c[1]))
                cur += (bezier if name in "CS" else quad)(p, *a)
                ctrl = a[-2]
            last = name if name in "CSQT" else "-"
    return subs


def apply(target, d, boxes, box):
    """Calls the drawing; returns (item, [operations])"""
    kind, paint = d[0], PAINTS[d[1]]
    kw = kwargs_of(paint)
    stroke = kw.get("color", "black" if kind in ("line", "path") else None)
    if kind == "line":
        kw.pop("bg_color", None)
    fill = kw.get("bg_color")
    width = kw.get("stroke_width", 1)
    dash = [float(v) for v in (kw.get("stroke_dasharray") or "").split()]
    rect = BOX[box][0]
    mid = (rect[0] + rect[2] / 2, rect[1] + rect[3] / 2)
    if kind == "rect":
        kw.update(RADII[d[2]])
        if ROTS[d[3]] != "-":
            kw["rotation"] = ROTS[d[3]]
        item = target.rect(**kw)
        out = rect_outline(rect, RADII[d[2]].get("rx"), RADII[d[2]].get("ry"))
        out = out and rotate(out, ROTS[d[3]], mid)
    elif kind == "ellipse":
        if ROTS[d[2]] != "-":
            kw["rotation"] = ROTS[d[2]]
        item = target.ellipse(**kw)
        out = None
        if rect[2] > 0 and rect[3] > 0:
            out = rotate([([(mid[0] + rect[2] / 2, mid[1])]
                           + arc(*mid, rect[2] / 2, rect[3] / 2, 0, 2 * math.pi, 64), None)], ROTS[d[2]], mid)
    elif kind in ("polygon", "line"):
        args, pts = zip(*[make_point(POINTS[i], boxes, box) for i in d[2]])
        if kind == "polygon":
            if ROTS[d[3]] != "-":
                kw["rotation"] = ROTS[d[3]]
            item = target.polygon(list(args), **kw)
            c = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
            out = rotate([(list(pts), True)], ROTS[d[3]], c)
        else:
            item = target.line(list(args), **kw)
            out = [(list(pts), False)]
    else:
        source = itertools.cycle(POINTS[d[3] % 5:] + POINTS[:d[3] % 5])
        cmds, want = [], []
        for name, n in d[2]:
            args, pts = zip(*[make_point(next(source), boxes, box) for _ in range(NARGS[name] * n)])
            cmds.append((name, *args))
            want.append((name, pts))
        item = target.path(cmds, **kw)
        out = path_outline(want)
    ops = []
    if out is not None:
        if fill:
            ops.append(("fill", out, color(fill)))
        if stroke and width:
            ops.append(("stroke", out, color(stroke), width, dash * 2 if len(dash) % 2 else dash))
    return item, ops


def differ(want, got):
    # a shape without a segment paints nothing
    alive = lambda ops: [o for o in ops if any(len(set(p)) > 1 for p, _ in o[1]) and (o[0] != "stroke" or o[3])]
    want, got = alive(want), alive(got)
    if [o[0] for o in want] != [o[0] for o in got]:
        return f"operations {[o[0] for o in got]} instead of {[o[0] for o in want]}"
    for w, g in zip(want, got):
        a, b = ([s for s in o[1] if len(s[0]) > 1] for o in (w, g))
        if len(a) != len(b):
            return f"{len(b)} subpaths instead of {len(a)}"
        for (p, c), (q, d) in zip(a, b):
            if w[0] == "stroke" and c is not None and d is not None and c != d and len(p) > 2:
                return "closed" if d else "not closed"
            if len(p) == len(q):
                if all(math.dist(u, v) < 1e-6 for u, v in zip(p, q)):
                    continue
                return f"{w[0]} of {q[:9]}... instead of {p[:9]}..."
            s, n = sample(p, bool(c))
            t, m = sample(q, bool(d))
            if abs(n - m) > 0.01 + 0.002 * n or any(math.dist(u, v) > 0.02 + 0.001 * n for u, v in zip(s, t)):
                return f"{w[0]} of {q[:9]}... instead of {p[:9]}..."
        if w[2] != g[2]:
            return f"{w[0]} with {g[2]} instead of {w[2]}"
        if w[0] == "stroke" and (abs(w[3] - g[3]) > 1e-6 or list(w[4]) != list(g[4])):
            return f"stroke {g[3:]} instead of {w[3:]}"
    return None


def run(case, rec, env):
    drawings, box, sel = case
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, width=300, height=200)
    deck = env.data["deck"]
    slide = deck.new_slide()
    boxes = {}
    for k in "abc":
        args = dict(BOX[k][1])
        if k == box and SEL[sel] is not None:
            args["show"] = SEL[sel]
        boxes[k] = slide.box(**args)
    slide.box(show="3")
    rec.state(case)
    target, want = boxes[box], []
    for d in drawings:
        target, ops = apply(target, d, boxes, box)
        want += ops
        rec.step()
    pages = W.svgs(deck, select_slides=[slide.slide])
    rec.trace()
    rec.expect(len(pages), 3, "number of pages")
    for k, svg in enumerate(pages, 1):
        page = W.Page(svg)
        shown = SEL[sel] is None or k == 2 or (k == 3 and SEL[sel] == "2+")
        got = svg_ops(page, svgobs.IDENT)
        d = differ(want if shown else [], got)
        if d:
            rec.fail("another shape is drawn: " + d, page=k, svg=svg, got=got, want=want if shown else [])
    rec.outcome(repr(want))
