"""C05: dynamic coordinates resolve against final rectangles."""
import itertools

from .. import world as W
from ..reflayout import Node, close, rect_close, resolve_pos

ID = "C05"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (source box, coordinate, transformation, use, later change, "
             "render history) programs; resolved geometry compared with a reference layout model")
NOTE = ("Every combination of source box x coordinate values x add/map chain x use (position, "
        "size, line, polygon, every path command, mixed with plain points) x later resizing x "
        "render history is executed on the real library and compared with the reference layout.")
ASSUMPTIONS = ["a box may only be positioned by boxes that precede it in layout order (the other "
               "direction is a known finding)"]
BOUND = {"quick": "10 sources x 8 x 4 values x 7 transformations x 8 uses x 4 histories (reduced "
                  "products), every page",
         "thorough": "full products, 8 x 8 values, pairs of sources"}

VALS = [0, 10, -5.5, "25", "0%", "50%", "100%", "[30%]", "[150%]"]
SOURCES = ["parent", "self", "sibling", "cousin", "child", "late", "slide", "item", "grown",
           "inner"]
DRAW_ONLY = ("self", "child", "late", "grown2")
USES = ["pos", "size", "pos_x", "line", "polygon", "path", "nested", "mixed"]
MODS = ["none", "add", "addneg", "map", "map-add", "add-map", "reuse"]
HIST = ["plain", "grow", "render-grow-render", "twice"]


def cases(tier, env):
    th = tier == "thorough"
    for use in USES:
        for src in SOURCES:
            if use in ("pos", "size", "pos_x") and src in DRAW_ONLY:
                continue
            for mod in MODS:
                for hist in HIST:
                    for vx in VALS:
                        ys = VALS if th else VALS[VALS.index(vx) % 2::2]
                        for vy in ys:
                            yield ["p", use, src, mod, hist, vx, vy]
    # long chains of transformations, large and tiny numbers, many points
    for use in USES:
        for src in SOURCES:
            if use in ("pos", "size", "pos_x") and src in DRAW_ONLY:
                continue
            for mod in ("many-adds", "tiny", "big", "many-maps"):
                for vx, vy in ((0, "50%"), ("25", "[30%]"), ("100%", 1234.5), ("1000", "250%")):
                    yield ["p", use, src, mod, "plain", vx, vy]
    for m in (10, 33, 64, 65, 100, 257):
        for use in ("line", "polygon"):
            for k in range(len(SOURCES)):
                yield ["m", use, m, k]
    # points as mid_point / LazyPoint.add / lists vs tuples, relative to the drawing box
    for src in SOURCES:
        for use in ("line", "polygon", "path"):
            for hist in HIST:
                for form in ("mid", "mid-add", "p-add", "tuple", "list", "tuple-on-item",
                             "tuple-on-child"):
                    yield ["q", use, src, form, hist]
    # two different boxes in one point (x of one, y of another) and chains of boxes
    pairs = list(itertools.product(SOURCES, repeat=2))
    for a, b in pairs:
        for va, vb in itertools.product((0, 10, "50%", "100%") if th else (7, "50%"), repeat=2):
            yield ["x", a, b, va, vb]
    for k in (1, 2, 3, 4) if not th else (1, 2, 3, 4, 5, 6):
        for vals in itertools.product((0, "50%", "100%", 3), repeat=2):
            for pad in (0, 2):
                yield ["chain", k, vals[0], vals[1], pad]
    for how in ("later-branch", "prepend"):
        yield ["forward", how]
    for dirs in itertools.product((False, True), repeat=3):
        for pads in ((0, 0, 0, 0), (3, 5, 7, 11)):
            for vx, vy in itertools.product(VALS, repeat=2):
                yield ["dirs", list(dirs), list(pads), vx, vy]


class Scene:
    """slide 300x200 > [sibling | cousinparent > cousin > inner | parent > user > child | late]"""

    def __init__(self, env, dirs=(False, False, False), pads=(3, 5, 7, 11)):
        self.deck = W.new_deck(env, width=300, height=200)
        self.slide = self.deck.new_slide()
        self.root = Node((0, 0), (300, 200))
        self.boxes = {"slide": self.slide}
        self.nodes = {"slide": self.root}
        self.colors = {}
        pl, pr, pt, pb = pads
        self.pads = dict(p_left=pl, p_right=pr, p_top=pt, p_bottom=pb)
        self.mk("sibling", "slide", width=60, height=24)
        self.mk("cp", "slide", horizontal=dirs[0], p_left=4)
        self.mk("cousin", "cp", width="40%", height=30)
        self.mk("inner", "cousin", width="50%", height="50%", x="[100%]", y=1)
        self.mk("grown", "cp", horizontal=dirs[1])
        self.mk("parent", "slide", horizontal=dirs[2], width=150, height=60)

    def mk(self, name, parent, lazy=None, pad=True, **kw):
        real = dict(kw)
        spec = dict(kw)
        for k, (lz, fn) in (lazy or {}).items():
            real[k] = lz
            spec[k] = fn
        pads = self.pads if pad else {}
        p = tuple(pads.get(k, 0) for k in ("p_left", "p_right", "p_top", "p_bottom"))
        if "p_left" in kw:
            pads = {}
            p = (kw["p_left"], 0, 0, 0)
        b = self.boxes[parent].box(**real, **pads)
        c = W.color(len(self.colors))
        self.colors[name] = c
        self.boxes[name + ".item"] = b.rect(bg_color=c)
        nd = Node((spec.get("x"), spec.get("y")), (spec.get("width"), spec.get("height")), p,
                  spec.get("horizontal", False))
        self.nodes[parent].children.append(nd)
        self.boxes[name] = b
        self.nodes[name] = nd
        return b

    def source(self, src):
        """(real box-like object, reference node) the coordinates are taken from"""
        if src == "self":
            src = "user"
        if src == "item":
            return self.boxes["cousin.item"], self.nodes["cousin"]
        return self.boxes[src], self.nodes[src]

    def grow(self):
        self.mk("g1", "grown", pad=False, width=33, height=21)
        self.mk("g2", "sibling", pad=False, width=90, height=40)
        self.mk("g3", "slide", pad=False, height=9)

    def check(self, rec, wanted):
        """All named rectangles and drawn points on every page."""
        self.root.place([0, 0, 300, 200], {})
        for page in W.pages(self.deck):
            items = {}
            for it in page.items:
                c = it.fill if it.fill not in (None, "none") else it.stroke
                items.setdefault(c, []).append(it)
            for name, c in self.colors.items():
                if c not in items:
                    continue
                got = items[c][0].rect()
                rec.step()
                if not rect_close(got, self.nodes[name].rect):
                    rec.fail("box at a wrong place", box=name, got=got,
                             want=self.nodes[name].rect)
            for c, want in wanted.items():
                if c not in items:
                    rec.fail("drawing is missing", color=c)
                    continue
                it = items[c][0]
                if it.tag == "path":
                    pts = [p for _, ps in W_parse(it) for p in ps]
                else:
                    pts = it.points()
                exp = [f() for f in want]
                rec.step()
                rec.outcome(exp)
                if len(pts) != len(exp) or not all(
                        close(a[0], b[0]) and close(a[1], b[1]) for a, b in zip(pts, exp)):
                    rec.fail("point resolved to a wrong place", tag=it.tag, got=pts, want=exp)
        rec.trace()


def W_parse(it):
    from ..svgobs import parse_path

    return parse_path(it.attrib["d"])


def ref(node, axis, v):
    return lambda: resolve_pos(v, node.rect[axis], node.rect[2 + axis], 0)


def modify(lz, fn, mod):
    """Applies a transformation to a lazy value and to its reference function."""
    if mod == "none":
        return lz, fn
    if mod == "add":
        return lz.add(7.5), lambda: fn() + 7.5
    if mod == "addneg":
        return lz.add(-3), lambda: fn() - 3
    if mod == "map":
        return lz.map(lambda v: v * 0.5), lambda: fn() * 0.5
    if mod == "map-add":
        return lz.map(lambda v: v * 2).add(1), lambda: fn() * 2 + 1
    if mod == "add-map":
        return lz.add(4).map(lambda v: v / 2).map(abs), lambda: abs((fn() + 4) / 2)
    if mod == "many-adds":
        for _ in range(60):
            lz = lz.add(0.0004).add(1)
        return lz, lambda: fn() + 60 * 1.0004
    if mod == "many-maps":
        for i in range(60):
            lz = lz.map(lambda v, i=i: v + i)
        return lz, lambda: fn() + 1770
    if mod == "tiny":
        return lz.add(0.00025).map(lambda v: v + 0.00025), lambda: fn() + 0.0005
    if mod == "big":
        return lz.add(123456.5).map(lambda v: v - 123000), lambda: fn() + 456.5
    if mod == "reuse":
        lz.add(100)     # derived values do not change the original one
        lz.map(lambda v: 0)
        return lz, fn


def draw(scene, user, use, color, points, wanted):
    """points = [(real point, reference function)] ; draws them with the given primitive"""
    real = [p for p, _ in points]
    wanted[color] = [f for _, f in points]
    if use == "line":
        user.line(real, color=color)
    elif use == "polygon":
        user.polygon(real, bg_color=color)
    else:
        cyc = list(itertools.islice(itertools.cycle(points), 9))
        r = [p for p, _ in cyc]
        user.path([("M", r[0]), ("L", r[1]), ["C", r[2], r[3], r[4]], ("S", r[5], r[6]),
                   ("T", r[7]), ("Q", r[8], r[0])], color=color)
        wanted[color] = [f for _, f in cyc] + [points[0][1]]


def pt(fx, fy):
    return lambda: (fx(), fy())


def forward(case, rec, env):
    """A box positioned by a box that comes later in layout order."""
    s = Scene(env)
    src, parent, kw = {"later-branch": ("grown", "sibling", {}),
                       "prepend": ("cousin", "cp", {"prepend": True})}[case[1]]
    b, nd = s.source(src)
    nd.rect = [0, 0, 0, 0]      # the reference needs two passes
    s.mk("user", parent, lazy={"x": (b.x("50%"), ref(nd, 0, "50%"))}, width=5, height=5, **kw)
    s.root.place([0, 0, 300, 200], {})
    rec.step()
    try:
        W.pages(s.deck)
    except Exception as e:
        rec.fail(f"rendering fails with {type(e).__name__}: {e}", key="forward-reference")
        return
    s.check(rec, {})


def run(case, rec, env):
    rec.state(case)
    if case[0] == "forward":
        forward(case, rec, env)
        return
    kind = case[0]
    wanted = {}
    if kind == "p":
        _, use, src, mod, hist, vx, vy = case
        s = Scene(env)
        if use in ("pos", "size", "pos_x", "nested"):
            b, nd = s.source(src) if src not in DRAW_ONLY else (None, None)
        if use == "nested" and src in DRAW_ONLY:
            # the box of a nested box: positioned by its own (already placed) parent "user"
            s.mk("user", "parent", width=50, height=30)
            b, nd = s.source("user")
        if use in ("pos", "size", "pos_x", "nested"):
            lx, fx = modify(b.x(vx), ref(nd, 0, vx), mod)
            ly, fy = modify(b.y(vy), ref(nd, 1, vy), mod)
        if use == "pos":
            s.mk("user", "parent", lazy={"x": (lx, fx), "y": (ly, fy)}, width=20, height=18)
            s.mk("child", "user", width="fill", height="fill", pad=False)
        elif use == "pos_x":
            s.mk("user", "parent", lazy={"x": (lx, fx)}, width=20, height=18)
            s.mk("user2", "parent", lazy={"y": (ly, fy)}, width=16, height=20)
        elif use == "size":
            s.mk("user", "parent", lazy={"width": (lx, fx), "height": (ly, fy)}, x=3, y="50%")
            s.mk("child", "user", width="50%", height="fill", pad=False)
        elif use == "nested":
            if "user" not in s.boxes:
                s.mk("user", "parent", width=50, height=30)
            s.mk("n1", "user", lazy={"x": (lx, fx), "y": (ly, fy)}, width=30, height=20)
            lx2, fx2 = s.boxes["n1"].x("100%"), ref(s.nodes["n1"], 0, "100%")
            s.mk("n2", "n1", lazy={"x": (lx2, fx2)}, width=10, height=10)
        else:
            s.mk("user", "parent", width=50, height=30)
            s.mk("child", "user", width=20, height=10)
            if src == "late":
                s.mk("late", "slide", width=25, height=15)
            b, nd = s.source(src)
            lx, fx = modify(b.x(vx), ref(nd, 0, vx), mod)
            ly, fy = modify(b.y(vy), ref(nd, 1, vy), mod)
            lp = W.elsie.boxtree.lazy.LazyPoint(lx, ly)
            user, un = s.boxes["user"], s.nodes["user"]
            p1 = (lp, pt(fx, fy))
            p2 = ((lx, 5), pt(fx, ref(un, 1, 5))) if use == "mixed0" else (
                (3, "50%"), pt(ref(un, 0, 3), ref(un, 1, "50%")))
            p3 = (b.p(vx, vy), pt(ref(nd, 0, vx), ref(nd, 1, vy)))
            if use == "mixed":
                # a lazy value inside a plain pair
                p2 = ((lx, vy), pt(fx, ref(un, 1, vy)))
                p3 = ([vx, ly], pt(ref(un, 0, vx), fy))
                draw(s, user, "line", "#ff0001", [p1, p2, p3], wanted)
                draw(s, user, "path", "#ff0002", [p2, p3], wanted)
            else:
                draw(s, user, use, "#ff0001", [p1, p2, p3], wanted)
        finish(s, hist, rec, wanted)
    elif kind == "q":
        _, use, src, form, hist = case
        s = Scene(env)
        s.mk("user", "parent", width=50, height=30)
        s.mk("child", "user", width=20, height=10)
        s.mk("late", "slide", width=25, height=15)
        b, nd = s.source(src)
        user, un = s.boxes["user"], s.nodes["user"]
        if form == "mid":
            p = (b.mid_point(), pt(ref(nd, 0, "50%"), ref(nd, 1, "50%")))
        elif form == "mid-add":
            fx, fy = ref(nd, 0, "50%"), ref(nd, 1, "50%")
            p = (b.mid_point().add(-4, 9), lambda: (fx() - 4, fy() + 9))
        elif form == "p-add":
            fx, fy = ref(nd, 0, "100%"), ref(nd, 1, 2)
            p = (b.p("100%", 2).add(1, 1).add(0, -3), lambda: (fx() + 1, fy() - 2))
        else:
            target, tn = b, nd
            if form == "tuple-on-item":
                target = target.rect(bg_color="#ee0000")
            p = (("25", "100%") if form != "list" else ["25", "100%"],
                 pt(ref(tn, 0, "25"), ref(tn, 1, "100%")))
            if form == "tuple-on-child":
                target, tn = s.boxes["child"], s.nodes["child"]
                p = (p[0], pt(ref(tn, 0, "25"), ref(tn, 1, "100%")))
            user, un = target, tn
        p2 = ((0, 0), pt(ref(un, 0, 0), ref(un, 1, 0)))
        p3 = (("100%", "50%"), pt(ref(un, 0, "100%"), ref(un, 1, "50%")))
        draw(s, user, use, "#ff0001", [p, p2, p3], wanted)
        finish(s, hist, rec, wanted)
    elif kind == "x":
        _, a, b, va, vb = case
        s = Scene(env)
        s.mk("user", "parent", width=50, height=30)
        s.mk("child", "user", width=20, height=10)
        s.mk("late", "slide", width=25, height=15)
        ba, na = s.source(a)
        bb, nb = s.source(b)
        p = (W.elsie.boxtree.lazy.LazyPoint(ba.x(va), bb.y(vb)),
             pt(ref(na, 0, va), ref(nb, 1, vb)))
        q = (bb.p(vb, va), pt(ref(nb, 0, vb), ref(nb, 1, va)))
        draw(s, s.boxes["user"], "line", "#ff0001", [p, q], wanted)
        draw(s, s.boxes["user"], "polygon", "#ff0002", [q, p, q], wanted)
        if a not in DRAW_ONLY and b not in DRAW_ONLY:
            s.mk("t", "parent", lazy={"x": (ba.x(va), ref(na, 0, va)),
                                      "y": (bb.y(vb), ref(nb, 1, vb))}, width=9, height=8)
            s.mk("t2", "t", width=5, height="100%", pad=False)
        s.grow()
        s.check(rec, wanted)
        s.check(rec, wanted)
    elif kind == "chain":
        _, k, vx, vy, pad = case
        s = Scene(env, pads=(pad, 0, pad, 0))
        prev = "cousin"
        for i in range(k):
            b, nd = s.source(prev)
            prev = f"c{i}"
            s.mk(prev, "slide", lazy={"x": (b.x(vx), ref(nd, 0, vx)),
                                      "y": (b.y(vy), ref(nd, 1, vy)),
                                      "width": (b.x(vx).map(lambda v: v / 4),
                                                lambda f=ref(nd, 0, vx): f() / 4)},
                 height=20)
        s.check(rec, wanted)
        s.grow()
        s.check(rec, wanted)
    elif kind == "m":
        _, use, m, k = case
        s = Scene(env)
        s.mk("user", "parent", width=50, height=30)
        s.mk("child", "user", width=20, height=10)
        s.mk("late", "slide", width=25, height=15)
        pts = []
        for i in range(m):
            b, nd = s.source(SOURCES[(k + i) % len(SOURCES)])
            vx, vy = VALS[i % len(VALS)], f"{i}%"
            pts.append((b.p(vx, vy).add(i, 0), pt(lambda f=ref(nd, 0, vx), i=i: f() + i, ref(nd, 1, vy))))
        draw(s, s.boxes["user"], use, "#ff0001", pts, wanted)
        finish(s, ("plain", "render-grow-render")[m % 2], rec, wanted)
    elif kind == "dirs":
        _, dirs, pads, vx, vy = case
        s = Scene(env, dirs, pads)
        s.mk("user", "parent", width="50%", height=12)
        pts = []
        for src in ("slide", "sibling", "cp", "cousin", "inner", "grown", "parent", "user"):
            b, nd = s.source(src)
            pts.append((b.p(vx, vy), pt(ref(nd, 0, vx), ref(nd, 1, vy))))
        draw(s, s.boxes["user"], "line", "#ff0001", pts, wanted)
        draw(s, s.slide, "polygon", "#ff0002", pts, wanted)
        s.check(rec, wanted)


def finish(s, hist, rec, wanted):
    if hist == "render-grow-render":
        s.check(rec, wanted)
    if hist != "plain":
        s.slide.box(show="2", width=4, height=2)
        s.root.children.append(Node((None, None), (4, 2)))
    if hist in ("grow", "render-grow-render"):
        s.grow()
    s.check(rec, wanted)
    if hist == "twice":
        s.check(rec, wanted)
