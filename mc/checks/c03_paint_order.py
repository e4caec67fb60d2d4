"""C03: paint order is the tree order, stably sorted by z-level."""
import itertools

from .. import world as W

ID = "C03"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of box/draw call histories with z-levels and insertion modes, "
             "real paint order compared with a reference ordered tree + stable sort")
NOTE = ("Every history of <=4 (thorough 5) calls over {draw, box} x z-level x {append, prepend, "
        "above, below any sibling} x target is executed on the real library; the order of marker "
        "drawings on each page must equal the model's. A subset is repeated on the Cairo backend "
        "by recording its fill operations, with hidden boxes and with debug_boxes.")
ASSUMPTIONS = []
BOUND = {"quick": "histories of <=4 calls, 3 z-levels; <=3 calls, 6 z-levels",
         "thorough": "histories of <=5 calls, 2 z-levels; <=4 calls, 5 z-levels"}


class Tree:
    """Reference: nodes are ("b", children, z) / ("d", colour, z)."""

    def __init__(self):
        self.boxes = [{"k": "b", "ch": [], "z": 0, "show": None}]
        self.parent = [None]

    def options(self, zs, draws=True):
        """All enabled operations."""
        res = []
        for t, b in enumerate(self.boxes):
            if draws:
                res.append(["draw", t])
            for z in zs:
                res.append(["box", t, z, "append", None])
                res.append(["box", t, z, "prepend", None])
                for i in range(len(b["ch"])):
                    res.append(["box", t, z, "above", i])
                    res.append(["box", t, z, "below", i])
        return res

    def do(self, op, color):
        b = self.boxes[op[1]]
        if op[0] == "draw":
            b["ch"].append({"k": "d", "c": color, "z": b["z"], "seq": len(b["ch"])})
            return
        _, t, z, mode, ref = op[:5]
        nb = {"k": "b", "ch": [], "z": b["z"] if z is None else z,
              "show": op[5] if len(op) > 5 else None}
        self.boxes.append(nb)
        if mode == "append":
            b["ch"].append(nb)
        elif mode == "prepend":
            b["ch"].insert(0, nb)
        else:
            # ref is the position of the sibling at that moment
            b["ch"].insert(ref + (1 if mode == "above" else 0), nb)

    def paint(self, step=1):
        res = []

        def visit(b):
            if b["show"] is not None and b["show"] != step:
                return
            for c in b["ch"]:
                if c["k"] == "d":
                    res.append((c["z"], c["c"]))
                else:
                    visit(c)

        visit(self.boxes[0])
        return [c for z, c in sorted(res, key=lambda p: p[0])]


def histories(depth, zs):
    def rec(prefix):
        t = Tree()
        for i, op in enumerate(prefix):
            t.do(op, i)
        for op in t.options(zs):
            h = prefix + [op]
            yield h
            if len(h) < depth:
                yield from rec(h)

    yield from rec([])


def cases(tier, env):
    th = tier == "thorough"
    for h in histories(3, [None, -1, 1, 0, 2.5, -0.5]):
        yield ["svg", h]
    for h in histories(2, [None, -3, 1, 10, 9]):
        for v in ("debug", "bg", "debug+bg"):
            yield [v, h]
        yield ["cairo", h]
    for h in histories(4, [None, -1, 1]):
        if len(h) == 4:
            yield ["svg", h]
    # hidden boxes: one of the boxes is shown on page 2 only
    for h in histories(3, [None, -1, 1]):
        bx = [i for i, op in enumerate(h) if op[0] == "box"]
        for i in bx:
            if len(h) == 3 or len(bx) > 1:
                yield ["hide", h, i]
    # many siblings of alternating levels (stability of the sort)
    for k in (6, 12, 17, 24):
        for a, b in itertools.product((None, -1, 1, 5), repeat=2):
            yield ["svg", [["box", 0, a if i % 2 else b, "append", None] for i in range(k)]]
            yield ["svg", [["box", i, a if i % 3 else b, "append", None] for i in range(k)]]
            yield ["cairo", [["box", 0, a if i % 2 else b, "prepend", None] for i in range(k)]]
    # large trees: many levels, insertions far from the ends, deep nesting
    levels = [None, 0, 7, -7, 10, 9, 100, 99.5, 1e6, -1e5, 12, 11, 1.5, 1.25, 2 ** 53, 3, 1000]
    for k in (11, 30, 101, 260) if th else (11, 30, 101):
        for step in range(1, len(levels), 1 if th or k < 100 else 5):
            zs = [levels[(i * step) % len(levels)] for i in range(k)]
            for modes in (("append",), ("prepend",), ("above", "below"), ("below", "append", "prepend", "above")):
                h = []
                for i, z in enumerate(zs):
                    m = modes[i % len(modes)] if i else "append"
                    h.append(["box", 0, z, m, (i * (step + 3)) % i if m in ("above", "below") else None])
                yield ["svg", h]
            # chains, with drawings on the way
            h = []
            for i, z in enumerate(zs[:60]):
                h.append(["box", i, z if i % 3 != 1 else None, "append", None])
                h.append(["draw", i // 2])
            yield ["svg", h]
            # two-level trees
            h = [["box", 0, levels[(i + step) % 7], "prepend" if i % 2 else "append", None] for i in range(9)]
            h += [["box", 1 + (i * step) % 9, z, "prepend" if i % 3 else "append", None] for i, z in enumerate(zs[:40])]
            yield ["svg", h]
            yield ["hide", h, 4]
            yield ["cairo", h]
    for z in (-1000000, -999999, -1000001, -1e7):
        for mode in ("append", "prepend"):
            yield ["bg", [["box", 0, z, mode, None], ["draw", 0], ["draw", 1]]]
    # creating a box through a drawing of the same parent
    for z in (None, 1, -1):
        for mode in ("append", "prepend", "above", "below"):
            yield ["viaitem", z, mode]
    if th:
        for h in histories(5, [None, 1]):
            if len(h) == 5:
                yield ["svg", h]


def build(slide, h, tree, hidden=None):
    """Executes the history on the real library and on the model; every box finally draws once."""
    boxes = [slide]
    kids = [[]]        # real children in the model's order
    n = 0
    for i, op in enumerate(h):
        b = boxes[op[1]]
        if op[0] == "draw":
            kids[op[1]].append(b.rect(bg_color=W.color(n)))
            tree.do(op, W.color(n))
        else:
            _, t, z, mode, ref = op
            kw = {}
            if z is not None:
                kw["z_level"] = z
            if mode == "prepend":
                kw["prepend"] = True
            elif mode in ("above", "below"):
                kw[mode] = kids[t][ref]
            show = None
            if hidden is not None:
                show = 2 if hidden == i else None
            nb = b.box(width=10, height=10, show=show, **kw)
            tree.do(op + [show], None)
            pos = {"append": len(kids[t]), "prepend": 0, "above": (ref or 0) + 1,
                   "below": ref}[mode]
            kids[t].insert(pos, nb)
            boxes.append(nb)
            kids.append([])
        n += 1
    # the last drawings: one per box, so that every box is observable
    for t in range(len(boxes)):
        kids[t].append(boxes[t].rect(bg_color=W.color(n)))
        tree.do(["draw", t], W.color(n))
        n += 1
    return boxes


def run(case, rec, env):
    kind = case[0]
    tree = Tree()
    if kind == "viaitem":
        _, z, mode = case
        deck = W.new_deck(env)
        s = deck.new_slide()
        p = s.box(z_level=2, width=50, height=50)
        i1 = p.rect(bg_color=W.color(0))
        i2 = p.ellipse(bg_color=W.color(1))
        kw = {} if z is None else {"z_level": z}
        if mode == "prepend":
            kw["prepend"] = True
        elif mode != "append":
            kw[mode] = i1
        i2.box(**kw).rect(bg_color=W.color(2)).rect(bg_color=W.color(3))
        t = [[2, 0], [2, 1]]
        pos = {"append": 2, "prepend": 0, "above": 1, "below": 0}[mode]
        zz = 2 if z is None else z
        t[pos:pos] = [[zz, 2], [zz, 3]]
        want = [W.color(c) for zl, c in sorted(t, key=lambda p: p[0])]
        got = W.pages(deck)[0].colors()
        rec.state(case)
        rec.trace()
        rec.step(4)
        rec.expect(got, want, "paint order (box created through a drawing)")
        return
    h = case[1]
    rec.state(case)
    if kind == "cairo":
        from .. import cairoobs

        deck = cairoobs.new_deck(env, width=60, height=60)
        slide = deck.new_slide()
        build(slide, h, tree)
        want = tree.paint()
        got = [op["color"] for op in cairoobs.record(deck)[0] if op["op"] == "fill"]
        rec.trace()
        rec.step(len(want))
        rec.expect([cairoobs.hexcolor(c) for c in got], want, "paint order on Cairo")
        return
    deck = W.new_deck(env)
    slide = deck.new_slide(debug_boxes="debug" in kind,
                           bg_color="#abcdef" if "bg" in kind else None)
    build(slide, h, tree, case[2] if kind == "hide" else None)
    pages = W.pages(deck)
    rec.trace()
    steps = 2 if kind == "hide" else 1
    rec.expect(len(pages), steps, "number of pages")
    for k, p in enumerate(pages):
        want = tree.paint(k + 1)
        if "bg" in kind:
            z0 = [op[2] for op in h if op[0] == "box" and op[2] is not None and op[2] <= -1e6]
            if not z0:
                want = ["#abcdef"] + want
        got = [c for c in p.colors() if c != "#ff00ff"]
        if "bg" in kind and z0:
            got = [c for c in got if c != "#abcdef"]
        rec.step(len(want))
        rec.outcome(want)
        if got != want:
            rec.fail("paint order differs", page=k + 1, got=got, want=want)
    if "debug" in kind:
        n = sum(1 for it in pages[0].items if it.stroke == "#ff00ff")
        boxes = len(tree.boxes) + (1 if "bg" in kind else 0)
        rec.expect(n, boxes, "number of debug frames")
