"""C04: boxes are sized and placed by the documented layout rules."""
import itertools

from .. import world as W
from ..reflayout import Node, rect_close

ID = "C04"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of box trees over all size/position/padding/direction kinds, "
             "real layout compared with a reference layout model derived from the documentation")
NOTE = ("All box trees of the bounded families are laid out by the real library and each drawn "
        "rectangle must equal the reference model (tolerance 1e-6). Cases in which a box would "
        "get a negative size are not judged. Bounds: <=3 siblings, <=3 levels, 2 directions.")
ASSUMPTIONS = ["overflow that makes `fill` shares or padded rectangles negative is unspecified"]
BOUND = {"quick": "1 child x all kinds; 2-3 siblings, 3 nested levels, reduced alphabets",
         "thorough": "as quick with full alphabets and 4 siblings"}

SIZE = [None, 40, 70.5, "30", "25%", "150%", "fill", "fill(2)", "0%"]
MANY = [None, 25, "20%", "fill", "fill(3)", "fill(10)", "fill(12)", "fill(100)"]
POS = [None, 0, 10, -5.5, "15", "0%", "50%", "[0%]", "[50%]", "[100%]", "[30%]", "[150%]", "125%"]
PADS = [{}, {"padding": 7}, {"p_left": 3, "p_right": 11, "p_top": 5, "p_bottom": 1}]


def pad_of(kw):
    def pick(*names):
        for n in names:
            if kw.get(n) is not None:
                return kw[n]
        return 0

    return (pick("p_left", "p_x", "padding"), pick("p_right", "p_x", "padding"),
            pick("p_top", "p_y", "padding"), pick("p_bottom", "p_y", "padding"))


# A case is ["tree", node]; node = [kwargs, [children]] (kwargs as given to box(); "_m" = maker,
# "_img"/"_txt" content).  The root node's kwargs apply to a box inside a 400x300 slide.

def n(kw=None, *children):
    return [kw or {}, list(children)]


LEAF = n({"width": 30, "height": 20})


def cases(tier, env):
    thorough = tier == "thorough"
    # A: one child, everything
    for hz in (False, True):
        for pi, pad in enumerate(PADS):
            for w, h in itertools.product(SIZE, repeat=2):
                for x, y in itertools.product(POS, repeat=2):
                    if not thorough and pi == 1 and (x not in (None, 10, "[30%]")):
                        continue
                    inner = [LEAF] if (pi + (w is None)) % 2 else []
                    yield ["t", n(dict(pad, width=200, height=120, horizontal=hz),
                                  n({"width": w, "height": h, "x": x, "y": y}, *inner))]
    # B: two children, all mains, some crosses and positions
    mains = SIZE
    crosses = [None, 20, "fill", "50%"]
    poss = [(None, None), (None, "[0%]"), (12, None), ("[100%]", "50%")]
    specs = list(itertools.product(mains, crosses, poss))
    if not thorough:
        specs2 = list(itertools.product(mains, crosses[:3], poss[:3]))
    else:
        specs2 = specs
    for hz in (False, True):
        for a in specs2:
            for b in specs:
                yield ["t", n({"width": 210, "height": 160, "horizontal": hz},
                              child(a, hz, [LEAF]), child(b, hz, []))]
    # C: three/four siblings along the main axis
    mains3 = [None, 25, "40", "20%", "fill", "fill(3)"]
    pos3 = [(None, None), ("[50%]", None)]
    specs3 = [(m, 10, p) for m in mains3 for p in pos3] + [("fill(2)", "fill", (5, 3))]
    for k in (3, 4) if thorough else (3,):
        for hz in (False, True):
            for combo in itertools.product(specs3, repeat=k):
                for pad in (PADS[0], PADS[2]):
                    yield ["t", n(dict(pad, width=333, height=222, horizontal=hz),
                                  *[child(s, hz, []) for s in combo])]
    # D: nesting; auto-sized parents propagate requests
    lev = [{}, {"width": "fill"}, {"height": "fill"}, {"width": "50%", "height": 60},
           {"padding": 4}, {"x": 5}, {"y": "[100%]"}, {"horizontal": True},
           {"horizontal": True, "p_x": 6, "height": "fill"}, {"width": 90, "p_top": 9}]
    leafs = [n({"width": 30, "height": 20}), n({"width": "fill", "height": 15}),
             n({"width": "50%", "height": "50%", "padding": 2})]
    for a, b, c in itertools.product(lev, repeat=3):
        for l1 in leafs:
            for l2 in leafs[:2] if not thorough else leafs:
                yield ["t", n(a, n(b, l1, n(c, l2)), n({"width": 44, "height": 12}))]
    # E: padding arguments and their precedence
    vals = [None, 0, 6]
    for combo in itertools.product(vals, repeat=7):
        keys = ("p_left", "p_right", "p_top", "p_bottom", "p_x", "p_y", "padding")
        mult = (1, 1.5, 2, 2.5, 0.5, 3, 4)
        kw = {k: (v * m if v else v) for k, v, m in zip(keys, combo, mult) if v is not None}
        yield ["t", n(dict(kw, width=100, height=90), n({"width": "fill", "height": "fill"}))]
    # E2: many siblings, deep nesting, large shares
    for a, b in itertools.product(MANY, repeat=2):
        for hz in (False, True):
            key = "width" if hz else "height"
            for k in (1, 4, 12):
                kids = [n({key: (a if i % 3 else b)}, LEAF) if i % 2 else n({key: b}) for i in range(2 * k)]
                yield ["t", n({"width": 210, "height": 160, "horizontal": hz}, *kids)]
            node = LEAF
            for i in range(12):
                node = n({"horizontal": hz, key: a if i % 2 else b, "p_left": i}, node, *([LEAF] if i % 4 == 0 else []))
            yield ["t", node]
    # E3: numbers with many digits in all notations
    for v in (100, 1000, 4321, 12345.678, 100000, 1e7, 0.001, 99999.5):
        sv = str(v) if isinstance(v, int) else v
        for a, b in itertools.product((v, sv), (40, sv)):
            yield ["t", n({}, n({"width": a, "height": b}, LEAF), LEAF)]
            yield ["t", n({"width": 99}, n({"width": a, "height": b, "x": a, "y": b}, LEAF), LEAF)]
            yield ["t", n({"height": 99, "horizontal": True}, n({"width": a, "p_left": v, "p_y": v * 2}, LEAF), LEAF)]
    for pc in (1, 7, 99, 100, 101, 199, 200, 250, 999, 1000, 12345):
        for other in (None, 40, "fill", f"{pc}%"):
            for hz in (False, True):
                yield ["t", n({"width": 150, "height": 110, "horizontal": hz}, n({"width": f"{pc}%", "height": other}, LEAF), LEAF)]
                yield ["t", n({"width": 150, "height": 110, "horizontal": hz},
                              n({"x": f"{pc}%", "y": f"[{pc}%]", "width": 30, "height": other}, LEAF), LEAF)]
                yield ["t", n({"width": 150, "height": 110, "horizontal": hz},
                              n({"x": f"[{pc}%]", "y": f"{pc}%", "width": other, "height": 20}, LEAF), LEAF)]
    for pd in (99, 150, 1234.5):
        for key in ("padding", "p_x", "p_y", "p_left", "p_right", "p_top", "p_bottom"):
            yield ["t", n({"horizontal": key == "p_x"}, n({key: pd}, LEAF, LEAF), LEAF)]
    # F: shortcuts, with defaults and with overridden arguments
    for mk in ("overlay", "fbox", "sbox"):
        for hz in (False, True):
            for kw in ({}, {"width": 33}, {"height": 21}, {"x": 4}, {"y": "[100%]"},
                       {"padding": 5}, {"p_left": 2, "width": "50%"}):
                for other in (None, 40, "fill"):
                    yield ["t", n({"width": 150, "height": 110, "horizontal": hz},
                                  n(dict(kw, _m=mk), LEAF),
                                  n({"width": other, "height": other}))]
    # G: insertion order: prepended boxes come first in the flow
    for flags in itertools.product(("", "prepend", "above", "below"), repeat=4):
        for hz in (False, True):
            yield ["order", hz, list(flags)]
    # H: text and image content sizes the box
    for kw in ({}, {"width": 10, "height": 5}, {"width": 200, "height": 80}, {"padding": 8},
               {"width": "fill"}, {"height": "30%"}, {"p_left": 9, "width": 20}):
        for hz in (False, True):
            for txt in ("", "a", "abc", "ab\ncdefg\nh"):
                for extra in ([], [LEAF], [n({"width": 300, "height": 2})]):
                    yield ["t", n({"horizontal": hz, "padding": 3},
                                  n(dict(kw, _txt=txt), *extra), LEAF)]


def child(spec, hz, inner):
    main, cross, (pm, pc) = spec
    kw = {"width": main, "height": cross, "x": pm, "y": pc}
    if not hz:
        kw = {"height": main, "width": cross, "y": pm, "x": pc}
    return n(kw, *inner)


NEUTRAL = [{}, {"name": "n"}, {"z_level": 3}, {"name": "a b", "z_level": -2}, {"show": "1+"}]
STYLE = dict(font="f", size=10, line_spacing=1.5, align="left")


def text_size(txt):
    from ..fakeink import char_width

    lines = txt.rstrip("\n").split("\n")
    w = max(sum(char_width(c, 10, font="f") for c in line) for line in lines)
    return (round(w, 6), 15.0 * len(lines))


def build(parent, spec, boxes, nodes, horizontal):
    kw = dict(spec[0])
    mk = kw.pop("_m", "box")
    txt = kw.pop("_txt", None)
    real = {k: v for k, v in kw.items() if v is not None}
    # arguments that have nothing to do with the layout
    real.update(NEUTRAL[(len(boxes) + len(kw)) % len(NEUTRAL)])
    b = getattr(parent, mk)(**real)
    pad = pad_of(kw)
    if mk == "overlay":
        kw = dict({"x": 0, "y": 0, "width": "100%", "height": "100%"}, **kw)
    elif mk == "fbox":
        kw = dict({"width": "fill", "height": "fill"}, **kw)
    elif mk == "sbox":
        kw = dict({"height" if horizontal else "width": "fill"}, **kw)
    content = (0, 0)
    b.rect(bg_color=W.color(len(boxes)))
    if txt is not None:
        b.text(txt, W.elsie.TextStyle(**STYLE))
        content = text_size(txt)
    nd = Node((kw.get("x"), kw.get("y")), (kw.get("width"), kw.get("height")), pad,
              kw.get("horizontal", False), content)
    boxes.append(b)
    nodes.append(nd)
    for c in spec[1]:
        nd.children.append(build(b, c, boxes, nodes, kw.get("horizontal", False)))
    return nd


def compare(deck, root, nodes, rec):
    report = {}
    root.place([0, 0, 400, 300], report)
    rec.trace()
    if report.get("negative"):
        rec.count("skipped_negative")
        return
    got = W.pages(deck)[0].by_fill()
    rec.step(len(nodes))
    rec.outcome([nd.rect for nd in nodes])
    for i, nd in enumerate(nodes):
        r = got.get(W.color(i))
        if not r or len(r) != 1:
            rec.fail("rectangle of a box not drawn exactly once", box=i)
            continue
        r = r[0].rect()
        if not rect_close(r, nd.rect):
            rec.fail("box has a wrong rectangle", box=i, got=list(r), want=nd.rect)


def run(case, rec, env):
    deck = W.new_deck(env, width=400, height=300)
    slide = deck.new_slide()
    rec.state(case)
    root = Node((0, 0), (400, 300))
    if case[0] == "t":
        boxes, nodes = [], []
        root.children.append(build(slide, case[1], boxes, nodes, False))
        compare(deck, root, nodes, rec)
    else:
        _, hz, flags = case
        pn = Node((None, None), (300, 200), horizontal=hz)
        p = slide.box(width=300, height=200, horizontal=hz)
        root.children.append(pn)
        boxes, nodes = [], []
        for i, f in enumerate(flags):
            kw = {}
            if f == "prepend":
                kw["prepend"] = True
            elif f and boxes:
                kw[f] = boxes[-1]
            size = (10 + i, 20 + 2 * i)
            kw.update(NEUTRAL[(i + len(flags[0]) + hz) % len(NEUTRAL)])
            b = p.box(width=size[0], height=size[1], **kw)
            b.rect(bg_color=W.color(i))
            nd = Node((None, None), size)
            if f == "prepend":
                pn.children.insert(0, nd)
            else:
                pn.children.append(nd)
            boxes.append(b)
            nodes.append(nd)
        compare(deck, root, nodes, rec)
