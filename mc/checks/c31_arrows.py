"""C31: arrows end where the line ends and point along it."""
import itertools
import math

from .. import fakeproc, svgobs
from .. import world as W
from ..world import elsie

ID = "C31"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of lines, polylines and paths (directions x lengths x arrow parameters x ends, all "
             "point sequences, all command sequences) drawn by the real code; the drawn line and heads are compared "
             "with the geometry derived from the statement")
NOTE = ("The direction of a path is the direction of the last control point that differs from its end (reflected "
        "control points of smooth curves included).")
ASSUMPTIONS = ["angles below 90 degrees and positive sizes; the direction of a line whose points all coincide is "
               "not specified (only that it is drawn)"]
BOUND = {"quick": "144 vectors x 60 arrows x 3 ends; all polylines of 2-5 of 6 points x 6 pairs of arrows; all paths of <=3 "
                  "commands (1-2 segments each) x 4 point lists; 25 pairs of lazy anchors x placements x fragments",
         "thorough": "polylines of 6 points, paths of <=4 commands"}

ARROWS = [dict(size=s, angle=a, **kw) for s in (10, 1, 35.5) for a in (40, 5, 60, 89)
          for kw in ({}, {"stroke_width": 4}, {"inner": 0.3}, {"inner": 2.0}, {"inner": 0.75, "stroke_width": 1})]
ARROWS += [dict(size=200, angle=40), dict(size=0.1, angle=30), dict(size=900, angle=20, inner=0.4), dict(size=64.25, angle=45, stroke_width=50)]
PTS = [(0, 0), (40, 0), (0, 30), (-25, 50), (40.5, 30.25), (1e3, -2e3)]
PAIRS = [(0, None), (None, 0), (0, 1), (2, 3), (3, 26), (44, 22)]
NARGS = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}
LISTS = [[(10, 10), (60, 20), (30, 80), (90, 40), (15, 55)],
         [(10, 10), (10, 10), (50, 10)], [(0, 0), (20, 0), (20, 20), (20, 20)], [(5, 5), (-8.5, 30), (5, 5), (70, -3), (9, 9), (12, 1), (6, 2)]]
COORDS = ["0", "50%", "100%", 7, "25%"]


def vectors():
    for x, y in itertools.product(range(-3, 4), repeat=2):
        if x or y:
            for s in (7, 0.01, 300):
                yield (x * s, y * s)


def cases(tier, env):
    th = tier == "thorough"
    for a in range(len(ARROWS)):
        yield ["vectors", a]
    for n in (2, 3, 4, 5, 6) if th else (2, 3, 4, 5):
        for head in itertools.product(range(len(PTS)), repeat=n - 2):
            yield ["lines", list(head)]
    cmds = list(itertools.product("MLCSQT", (1, 2)))
    for n in range(0, 4 if th else 3):
        for seq in itertools.product(range(len(cmds)), repeat=n):
            yield ["paths", [list(cmds[i]) for i in seq]]
    # many segments in one command and many commands
    for c in "MLCSQT":
        for n in (3, 5, 9, 12, 16, 40):
            yield ["paths", [[c, n]]]
            yield ["paths", [["Q", 1], [c, n], ["T", 2]]]
        for n in (5, 12, 40, 100):
            yield ["paths", [[c, 1]] * n]
            yield ["paths", [["C", 1], [c, 1]] * n]
    # long polylines
    for n in (12, 40, 90):
        for s in range(6):
            yield ["lines", [(s + i * (1 + s % 5)) % len(PTS) for i in range(n)]]
    for place in range(4):
        for show in range(4):
            yield ["lazy", place, show]
    for k in range(len(LISTS)):
        yield ["degenerate", k]


def setup(env):
    fakeproc.install()


def arrow(i):
    return None if i is None else elsie.Arrow(**ARROWS[i])


def close(a, b, eps=1e-6):
    return all(abs(u - v) <= eps * max(1, abs(u), abs(v)) for u, v in zip(a, b)) and len(a) == len(b)


def same(ps, qs):
    return len(ps) == len(qs) and all(close(p, q) for p, q in zip(ps, qs))


def cyclic(ps, qs):
    if len(ps) != len(qs):
        return False
    for r in (list(qs), list(reversed(qs))):
        if any(same(ps, r[i:] + r[:i]) for i in range(len(r))):
            return True
    return False


def unit(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = math.hypot(dx, dy)
    return dx / n, dy / n


def direction(points):
    """Direction of the end of a line / control polygon, None if there is none."""
    for p in reversed(points[:-1]):
        if tuple(p) != tuple(points[-1]):
            return unit(p, points[-1])
    return None


def head(i, tip, d):
    """(closed, points)"""
    a = ARROWS[i]
    ang = math.radians(a["angle"])
    c, s = math.cos(ang) * a["size"], math.sin(ang) * a["size"]
    b1 = (tip[0] - d[0] * c - d[1] * s, tip[1] - d[1] * c + d[0] * s)
    b2 = (tip[0] - d[0] * c + d[1] * s, tip[1] - d[1] * c - d[0] * s)
    if "stroke_width" in a:
        return False, [b1, tip, b2]
    pts = [b1, tip, b2]
    if a.get("inner"):
        pts.append((tip[0] - d[0] * c * a["inner"], tip[1] - d[1] * c * a["inner"]))
    return True, pts


def shift(i):
    a = ARROWS[i]
    if "stroke_width" in a:
        return a["stroke_width"] / 2
    return math.cos(math.radians(a["angle"])) * a["size"] * min(0.5, a.get("inner", 0.5))


def moved(tip, d, i):
    return tip[0] - d[0] * shift(i), tip[1] - d[1] * shift(i)


class Item:
    """What is drawn in one colour."""

    def __init__(self, color, start, end, width, points=None, commands=None):
        self.color, self.start, self.end, self.width = color, start, end, width
        self.points, self.commands = points, commands

    def check(self, rec, els):
        want = 1 + (self.start is not None) + (self.end is not None)
        what = dict(points=self.points, commands=self.commands, start=self.start is not None and ARROWS[self.start],
                    end=self.end is not None and ARROWS[self.end])
        if len(els) != want:
            rec.fail("%d elements are drawn for a line with its arrows (not %d)" % (len(els), want), **what)
            return False
        line = els[0]
        if line.fill not in (None, "none") or line.stroke != self.color or float(line.style.get("stroke-width", 1)) != self.width:
            rec.fail("the line does not come first or has wrong attributes", got=line.style, **what)
            return False
        if self.points is not None:
            ctrl = [tuple(p) for p in self.points]
            pts = list(ctrl)
            ds = direction(ctrl[::-1]) if self.start is not None else None
            de = direction(ctrl) if self.end is not None else None
            degenerate = len(set(ctrl)) == 1
            if ds:
                for k in range(len(pts)):
                    if ctrl[k] != ctrl[0]:
                        break
                    pts[k] = moved(ctrl[0], ds, self.start)
            if de:
                for k in reversed(range(len(pts))):
                    if ctrl[k] != ctrl[-1]:
                        break
                    pts[k] = moved(ctrl[-1], de, self.end)
            got = outline(line)
            if got is None or got[0] or not same(got[1], pts):
                rec.fail("the points of the line are wrong", got=got, want=pts, **what)
                return False
            tips = [(self.start, ctrl[0], ds), (self.end, ctrl[-1], de)]
        else:
            ctrl = last_segment(self.commands)
            de = direction(ctrl) if self.end is not None else None
            degenerate = len(set(ctrl)) == 1
            cmds = [[c[0], list(c[1:])] for c in self.commands]
            if de:
                cmds[-1][1][-1] = moved(ctrl[-1], de, self.end)
            got = svgobs.parse_path(line.el.get("d")) if line.tag == "path" else []
            if [c for c, _ in got] != [c for c, _ in cmds] or not all(same(g[1], c[1]) for g, c in zip(got, cmds)):
                rec.fail("the commands of the path are wrong", got=got, want=cmds, **what)
                return False
            tips = [(None, None, None), (self.end, ctrl[-1], de)]
        k = 1
        for i, tip, d in tips:
            if i is None:
                continue
            it = els[k]
            k += 1
            got = outline(it)
            if got is None:
                rec.fail("unexpected element", got=it.tag, **what)
                return False
            if d is None:
                if degenerate and any(close(p, tip) for p in got[1]):
                    continue
                rec.fail("the tip of a head is not at the end", got=got, **what)
                return False
            closed, pts = head(i, tip, d)
            if closed:
                ok = it.fill == self.color and it.stroke in (None, "none") and cyclic(got[1], pts)
            else:
                ok = (it.fill in (None, "none") and it.stroke == self.color and not got[0]
                      and float(it.style.get("stroke-width", 1)) == ARROWS[i]["stroke_width"]
                      and (same(got[1], pts) or same(got[1], pts[::-1])))
            if not ok:
                rec.fail("the arrow head is wrong", got=[it.tag, it.style, got[1]], want=pts, **what)
                return False
        return True


def last_segment(cmds):
    cur, prev, kind = None, None, None
    seg = None
    for c in cmds:
        name, n = c[0], NARGS[c[0]]
        for k in range(1, len(c), n):
            a = [tuple(p) for p in c[k:k + n]]
            if name in "ML":
                seg = [cur or a[0], a[0]]
                kind = None
            elif name in "CS":
                if name == "S":
                    a.insert(0, (2 * cur[0] - prev[0], 2 * cur[1] - prev[1]) if kind == "C" else cur)
                seg, prev, kind = [cur] + a, a[1], "C"
            else:
                if name == "T":
                    a.insert(0, (2 * cur[0] - prev[0], 2 * cur[1] - prev[1]) if kind == "Q" else cur)
                seg, prev, kind = [cur] + a, a[0], "Q"
            cur = seg[-1]
    return seg


def outline(it):
    """(closed, points) of a shape made of straight segments"""
    m = it.matrix
    if it.tag in ("polyline", "polygon"):
        pts, closed = it.points(), it.tag == "polygon"
    elif it.tag == "line":
        pts, closed = [(it.num("x1"), it.num("y1")), (it.num("x2"), it.num("y2"))], False
    elif it.tag == "path":
        pts, closed = [], False
        for c, p in svgobs.parse_path(it.el.get("d")):
            if c not in "MLZz":
                return None
            pts += p
            closed = closed or c in "Zz"
    else:
        return None
    return closed, [svgobs.apply(m, p) for p in pts]


def compare(rec, env, page, items):
    by = {i.color: [] for i in items}
    for it in page.items:
        c = it.fill if it.fill not in (None, "none") else it.stroke
        if c in by:
            by[c].append(it)
    for i in items:
        rec.step()
        if not i.check(rec, by[i.color]):
            return False
    rec.trace()
    return True


def draw(box, n, points, start, end, arrows=None):
    c = W.color(n)
    w = 1 + n % 3
    kw = {}
    if start is not None:
        kw["start_arrow"] = arrows[start] if arrows else arrow(start)
    if end is not None:
        kw["end_arrow"] = arrows[end] if arrows else arrow(end)
    box.line(points, color=c, stroke_width=w, **kw)
    return Item(c, start, end, w, points=points)


def run(case, rec, env):
    kind = case[0]
    rec.state(case)
    if env.data.get("used", 300) >= 300:
        env.data["used"] = 0
        env.data.pop("backend", None)
        fakeproc.WORLD.reset()
        env.data["deck"] = W.new_deck(env, width=1000, height=800, name_policy="ignore")
    env.data["used"] += 1
    deck = env.data["deck"]
    slide = deck.new_slide()
    pages = lambda: W.pages(deck, select_slides=[slide.slide])
    shared = [elsie.Arrow(**a) for a in ARROWS]
    if kind == "vectors":
        a = case[1]
        other = (a * 7 + 3) % len(ARROWS)
        items = []
        for v in vectors():
            for s, e in ((a, None), (None, a), (a, other)):
                p = (100, 50) if len(items) % 2 else (0, 0)
                items.append(draw(slide.overlay(), len(items), [p, (p[0] + v[0], p[1] + v[1])], s, e, shared))
        for _ in range(2):
            page, = pages()
            if not compare(rec, env, page, items):
                return
        rec.outcome(a)
    elif kind == "lines":
        items = []
        for tail in itertools.product(range(len(PTS)), repeat=2):
            pts = [PTS[i] for i in case[1] + list(tail)]
            for s, e in PAIRS:
                items.append(draw(slide, len(items), pts, s, e))
        page, = pages()
        compare(rec, env, page, items)
        rec.outcome((len(case[1]), len(set(case[1]))))
    elif kind == "paths":
        items = []
        for k, pts in enumerate(LISTS):
            for last in itertools.product("CSQT", (1, 2)):
                for first in (1, 2):
                    seq = itertools.cycle(pts)
                    cmds = [(c, *[next(seq) for _ in range(NARGS[c] * n)]) for c, n in [("M", first)] + case[1] + [last]]
                    for end in (None, 0, 1, 22):
                        if end is None and len(items) % 5:
                            continue
                        c = W.color(len(items))
                        kw = {} if end is None else {"end_arrow": shared[end]}
                        slide.path(cmds, color=c, stroke_width=2, **kw)
                        items.append(Item(c, None, end, 2, commands=cmds))
        page, = pages()
        compare(rec, env, page, items)
        rec.outcome(tuple(c for c, _ in case[1]))
    elif kind == "lazy":
        _, place, show = case
        x, y, w, h = [(0, 0, 1000, 800), (130, 45, 400, 300), (-20, 10, 90, 90), (500.5, 300.25, 33, 44)][place]
        outer = slide.box(x=x, y=y, width=w, height=h)
        b1 = outer.box(x=10, y=20, width=60, height=40)
        b2 = slide.box(x=300, y=250, width=80, height=20)
        at = lambda v, size: float(v[:-1]) / 100 * size if isinstance(v, str) and v.endswith("%") else float(v)
        items = []
        how = [{}, {"show": "2+"}, {"show": "last"}, {"show": "1,3"}][show]
        slide.box(show="4")
        target = outer.box(width="fill", height="fill", **how)
        for k, (c1, c2) in enumerate(itertools.product(COORDS, repeat=2)):
            p = [b1.p(c1, c2), (c2, c1), b2.p(c2, "50%").add(5, -3)]
            ox, oy = x, y
            real = [(ox + 10 + at(c1, 60), oy + 20 + at(c2, 40)), (ox + at(c2, w), oy + at(c1, h)),
                    (300 + at(c2, 80) + 5, 250 + 10 - 3)]
            for s, e in PAIRS[:4]:
                i = draw(target, len(items), list(p), s, e, shared)
                i.points = real
                items.append(i)
            c = W.color(len(items))
            target.path([("M", p[0]), ["Q", p[1], p[2]]], color=c, stroke_width=2, end_arrow=shared[0])
            items.append(Item(c, None, 0, 2, commands=[("M", real[0]), ("Q", real[1], real[2])]))
        visible = [{1, 2, 3, 4}, {2, 3, 4}, {4}, {1, 3}][show]
        for _ in range(2):
            got = pages()
            if len(got) != 4:
                rec.fail("pages", got=len(got))
                return
            for n, page in enumerate(got, 1):
                if n in visible:
                    if not compare(rec, env, page, items):
                        return
                elif any(it.stroke == i.color for it in page.items for i in items):
                    rec.fail("an invisible line is drawn")
                    return
        rec.outcome((place, show))
    else:
        # arguments are not modified and later changes of them have no effect
        pts = [list(p) for p in LISTS[case[1]]]
        a = elsie.Arrow(size=12, angle=30)
        cmds = [["M", pts[0]], ["Q", pts[1], pts[2]], ["T", pts[-1]]]
        keep = repr((pts, cmds))
        slide.line(pts, color="#010203", start_arrow=a, end_arrow=a)
        slide.path(cmds, color="#040506", end_arrow=a)
        first = [p.svg for p in pages()]
        if repr((pts, cmds)) != keep:
            rec.fail("arguments are modified", got=repr((pts, cmds)), want=keep)
            return
        pts[0][0] += 50
        pts.append([3, 3])
        cmds.append(["L", (1, 1)])
        cmds[0][1] = (9, 9)
        if [p.svg for p in pages()] != first:
            rec.fail("changing the arguments later changes the picture")
        rec.trace()
