"""C02: layout does not depend on which fragment is shown."""
import itertools

from .. import fakeproc
from .. import world as W
from .c10_cache import ora_file, png_file

ID = "C02"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of box programs x selector assignments; every page compared "
             "with the selector-free program (differential oracle on the real code)")
NOTE = ("All programs of the bounded space are built twice with the real library, with and without "
        "their selectors; each drawing must have the same geometry on every page where it is "
        "visible as in the selector-free program. Bounds: exhaustive trees of 3 boxes x 8 layout "
        "kinds x 4 selectors, and 11 feature templates x 5^4 selector assignments (thorough: 4 boxes, 7^4).")
ASSUMPTIONS = ["text widths come from a deterministic Inkscape stand-in"]
BOUND = {"quick": "3 boxes x 8 layouts x 4 selectors; 11 templates x 5^4 selectors; 16 drawings x 2 directions x 5^3 selectors, with everything placed relative to them",
         "thorough": "4 boxes x 8 layouts x 3 selectors; 11 templates x 7^4 selectors; 16 drawings x 2 directions x 7^3 selectors"}

LAYS = [{}, {"width": 40, "height": 30}, {"width": "30%", "height": "20%"},
        {"width": "fill", "height": "fill"}, {"horizontal": True, "padding": 4},
        {"x": 10, "y": "[100%]", "width": 15, "height": 15}, {"prepend": True, "height": 25},
        {"width": "fill(2)", "height": "fill(2)", "p_left": 7}]
SELS = [None, "2", "2+", "1"]
SELS_T = [None, "2", "1,3", "2+", "next", "1", "last+"]

SVG = ("<svg xmlns='http://www.w3.org/2000/svg' "
       "xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' width='40' height='20'>"
       "<rect fill='#a00001' width='5' height='5'/><g inkscape:label='a**2'>"
       "<rect fill='#a00002' x='3' width='5' height='5'/></g>"
       "<rect inkscape:label='b**3+' fill='#a00003' y='3' width='5' height='5'/></svg>")


def templates():
    return ["column", "row", "fills", "dynamic", "inline", "list", "overlay", "image", "scale",
            "mixed", "resized"]


def cases(tier, env):
    th = tier == "thorough"
    sels = SELS
    for n in (1, 2, 3):
        for t in itertools.product(*[range(i + 1) for i in range(n)]):
            for lays in itertools.product(range(len(LAYS)), repeat=n):
                for s in itertools.product(sels if n < 3 or th else sels[:3], repeat=n):
                    if any(s):
                        yield ["tree", list(t), list(lays), list(s)]
                        if n < 3:
                            yield ["tree-debug", list(t), list(lays), list(s)]
    if th:
        for t in itertools.product(*[range(i + 1) for i in range(4)]):
            for lays in itertools.product((0, 3, 4, 5), repeat=4):
                for s in itertools.product((None, "2", "3+"), repeat=4):
                    if any(s):
                        yield ["tree", list(t), list(lays), list(s)]
    alpha = SELS_T if th else SELS_T[:5]
    for tpl in templates():
        for s in itertools.product(alpha, repeat=4):
            yield ["tpl", tpl, list(s)]
            if all(x in SELS_T[:3] for x in s):
                yield ["tpl-debug", tpl, list(s)]
    # many fragments, many boxes
    far = ["12", "2-30", "11+", "next", "1,9-10", "last+", None, "10"]
    for tpl in templates():
        for k in range(len(far)):
            for st in (1, 3) if not th else (1, 2, 3, 5):
                yield ["tpl", tpl, [far[(k + i * st) % len(far)] for i in range(4)]]
    for n in (11, 40):
        for k in range(len(far)):
            for l in range(len(LAYS)):
                sels = [far[(k + 3 * i) % len(far)] for i in range(n)]
                yield ["tree", [(i * 7 + l) % (i + 1) if i % 3 else 0 for i in range(n)],
                       [(l + i * (k + 1)) % len(LAYS) for i in range(n)], sels]
                if n < 40 or th:
                    yield ["tree", list(range(n)), [l if i % 2 else 3 for i in range(n)], sels]
                    yield ["tree", [0] * n, [l] * n, ["next"] * n]
    for kind in USE:
        for hz in (False, True):
            for s in itertools.product(SELS_T if th else SELS_T[:5], repeat=3):
                yield ["use", kind, hz, list(s)]


def setup(env):
    import os

    d = env.fresh_dir()
    env.data["svg"] = []
    for i in range(3):
        env.data["svg"].append(os.path.join(d, f"i{i}.svg"))
        with open(env.data["svg"][-1], "w") as f:
            f.write(SVG.replace("#a0", f"#a{i}"))
    env.data["memo"] = {}
    fakeproc.install().tex = {"svg": lambda s: "<svg xmlns='http://www.w3.org/2000/svg' width='9pt' height='9pt'>"
                              "<path id='p' d='M 0 0 L 1 1'/></svg>"}
    env.data["png"] = os.path.join(d, "p.png")
    with open(env.data["png"], "wb") as f:
        f.write(png_file(5))
    env.data["ora"] = os.path.join(d, "o.ora")
    with open(env.data["ora"], "wb") as f:
        f.write(ora_file(5))


def mark(box, n):
    box.rect(bg_color=W.color(n))


def build_tree(slide, parents, lays, sels):
    boxes = [slide]
    for i, (p, l, s) in enumerate(zip(parents, lays, sels)):
        b = boxes[p].box(show=s, **LAYS[l])
        mark(b, i)
        if i % 2 == 0:
            b.box(width=11, height=9)
        boxes.append(b)


USE = ["rect", "ellipse", "polygon", "path", "line", "text", "scaled", "rotated", "code", "png", "pngs", "jpeg-r",
       "svg", "svgs", "ora", "latex"]


def build_use(slide, kind, hz, s, env):
    """A drawing in a box (shown by a) and things placed relative to this box: before it, in it, after it."""
    a, b, c = s
    P = slide.box(width=200, height=120, horizontal=hz)
    early = P.box(x=0, y=0, width=4, height=4, show=b)
    args = {"height": "fill"} if hz else {"width": "fill"}
    q = P.box(show=a, p_left=3, **args)
    early.line([q.p(0, 0), q.p("100%", "100%")], color=W.color(0), end_arrow=W.elsie.Arrow(4))
    if kind == "rect":
        q.rect(color=W.color(1), rx=3, rotation=20, stroke_dasharray="3")
    elif kind == "ellipse":
        q.ellipse(color=W.color(1), rotation=20)
    elif kind == "polygon":
        q.polygon([(0, 0), ("50%", 3), q.p("100%", 8)], color=W.color(1), rotation=30)
    elif kind == "path":
        q.path([("M", (0, 0)), ("Q", (9, 1), q.p("100%", 9))], color=W.color(1), end_arrow=W.elsie.Arrow(5))
    elif kind == "line":
        q.line([(0, 0), (9, 9), q.p("100%", 9)], color=W.color(1), start_arrow=W.elsie.Arrow(5),
               end_arrow=W.elsie.Arrow(5))
    elif kind in ("text", "scaled", "rotated"):
        q.text("ab\nc", W.elsie.TextStyle(size=10, align="right", color=W.color(1)), scale_to_fit=kind == "scaled",
               rotation=15 if kind == "rotated" else None)
    elif kind == "code":
        q.set_style("code", W.elsie.TextStyle(size=9, color=W.color(1)))
        q.code(None, "x = 1\n\ty", line_numbers=True)
    elif kind in ("png", "pngs", "jpeg-r"):
        q.image(env.data["png"], image_type="png", scale=2 if kind == "pngs" else None,
                rotation=10 if kind == "jpeg-r" else None)
    elif kind in ("svg", "svgs"):
        q.image(env.data["svg"][1], scale=0.5 if kind == "svgs" else None)
    elif kind == "ora":
        q.image(env.data["ora"])
    else:
        from elsie.ext.latex import latex

        latex(q, "x", scale=1.5)
    q.box(width="50%", height=5).rect(bg_color=W.color(2))
    P.box(width=20, height=10, show=c).line([q.mid_point(), q.p(3, "100%"), (1, 1)], color=W.color(3))
    P.box(x=q.x("[100%]"), y=q.y(1), width=9, height=9, show=b, z_level=-1).rect(bg_color=W.color(4))
    slide.box(width=3, height=3).polygon([q.p(0, 0), q.p("100%", 0), q.p(0, "100%")], bg_color=W.color(5))


def build_tpl(slide, tpl, s, env):
    a, b, c, d = s
    made = [0]

    def st():
        made[0] += 1
        return W.elsie.TextStyle(size=10, align="left", color="#b0%04x" % made[0])

    if tpl == "column":
        for i, x in enumerate(s):
            q = slide.box(show=x, padding=i)
            q.text("line" * i, st())
            mark(q, i)
    elif tpl == "row":
        row = slide.box(horizontal=True, show=a)
        for i, x in enumerate((b, c, d)):
            q = row.box(show=x, width=20 * i)
            q.text("ab" * i, st())
            mark(q, i)
    elif tpl == "fills":
        q = slide.box(width="80%", height="70%", show=a, padding=3)
        for i, x in enumerate((b, c, d)):
            e = q.box(show=x, height=["fill", 30, "fill(2)"][i], width="fill")
            mark(e, i)
    elif tpl == "dynamic":
        p = slide.box(show=a, width=50, height=40)
        mark(p, 0)
        q = slide.box(show=b, x=p.x("100%"), y=p.y("50%"), width=20, height=20)
        mark(q, 1)
        r = slide.box(show=c)
        r.line([p.mid_point(), q.mid_point(), (3, 4)], color=W.color(2))
        slide.box(show=d, x=q.x(5), y=0, width=10, height=10).polygon(
            [q.p(0, 0), p.p("100%", 0), (0, 0)], bg_color=W.color(3))
    elif tpl == "inline":
        p = slide.box(show=a)
        t = p.text("aa ~#q{bbb} c\n~#r{dd}e\nf", st())
        mark(t.inline_box("#q", show=b), 0)
        mark(t.inline_box("#r", show=c), 1)
        mark(t.line_box(1, 2, show=d, below=t), 2)
    elif tpl == "list":
        from elsie.ext import ordered_list

        lst = ordered_list(slide.box(show=a))
        i1 = lst.item(show=b)
        i1.text("one", st())
        mark(i1, 0)
        sub = lst.ul(show=c)
        i2 = sub.item()
        i2.text("two two", st())
        mark(i2, 1)
        i3 = lst.item(show=d)
        i3.text("three", st())
        mark(i3, 2)
    elif tpl == "overlay":
        p = slide.box(width=100, height=60, show=a)
        for i, x in enumerate((b, c, d)):
            o = p.overlay(show=x, padding=i)
            o.text("T" * (i + 1), st())
            mark(o, i)
        mark(slide.box(width=10, height=10), 4)
    elif tpl == "image":
        p = slide.box(show=a)
        p.image(env.data["svg"][0])
        mark(p, 0)
        q = slide.box(height=30, show=b)
        q.image(env.data["svg"][1], show_begin=2)
        mark(q, 1)
        r = slide.box(show=c, width="fill", height="fill")
        r.image(env.data["svg"][2], fragments=False)
        mark(r, 2)
        mark(slide.box(show=d, height=7), 3)
    elif tpl == "scale":
        p = slide.box(width=120, height="fill", show=a)
        t = p.text("abc ~#x{def}\nghi", st(), scale_to_fit=True)
        mark(t.inline_box("#x", show=b), 0)
        mark(t.line_box(1, show=c), 1)
        mark(slide.box(height=33, width=5, show=d), 2)
    elif tpl == "mixed":
        p = slide.box(horizontal=True, width="90%", height=100, show=a)
        q = p.box(width="fill", show=b)
        q.text("x\ny\nz", st())
        mark(q, 0)
        r = p.fbox(show=c)
        mark(r, 1)
        e = r.overlay(show=d)
        e.ellipse(bg_color=W.color(2))
        p.sbox(width=20, show=d).rect(bg_color=W.color(3))
    elif tpl == "resized":
        p = slide.box(show=a)
        mark(p, 0)
        q = slide.box(show=b)
        mark(q, 1)
        p.box(show=c, width=70, height=20)
        q.box(show=d, width=30, height=50, x=0)
        mark(slide.box(width=5, height=5), 2)


def observe(deck):
    res = []
    for p in W.pages(deck):
        d = {}
        for it in p.items:
            c = it.fill if it.fill not in (None, "none") else it.stroke
            d.setdefault(c, []).append(it.geometry())
        res.append(d)
    return res


def make(case, env, strip):
    deck = W.new_deck(env, width=400, height=300)
    slide = deck.new_slide(debug_boxes=case[0].endswith("-debug"))
    if case[0].startswith("tree"):
        _, t, lays, sels = case
        build_tree(slide, t, lays, [None] * len(sels) if strip else sels)
    elif case[0] == "use":
        _, kind, hz, sels = case
        build_use(slide, kind, hz, [None] * 3 if strip else sels, env)
    else:
        _, tpl, sels = case
        build_tpl(slide, tpl, [None] * 4 if strip else sels, env)
    return deck


def run(case, rec, env):
    key = str(case[:-1])
    memo = env.data["memo"]
    if key not in memo:
        if len(memo) > 2000:
            memo.clear()
        deck = make(case, env, True)
        base = {}
        for d in observe(deck):      # images have fragments of their own
            for c, g in d.items():
                if c in base and base[c] != g:
                    rec.fail("geometry differs between pages without any selectors", color=c,
                             got=g, want=base[c])
                base[c] = g
        memo[key] = base
    base = memo[key]
    deck = make(case, env, False)
    pages = observe(deck)
    if case[-1] and all(x is None for x in case[-1]):
        return
    rec.trace()
    rec.state(case)
    seen = set()
    for k, d in enumerate(pages):
        for c, g in d.items():
            seen.add(c)
            rec.step()
            if (c or "").startswith(("#a", "#b", "#0")):
                ok = base.get(c) == g
            else:   # list labels share one colour
                ok = all(x in base.get(c, []) for x in g)
            if not ok:
                rec.fail("drawn at another place than without selectors", page=k + 1, color=c,
                         got=g, want=base.get(c))
    rec.outcome([sorted(d, key=str) for d in pages])
