"""C25: Cairo styles and measures exactly the addressed characters."""
from .. import pangoobs  # before elsie

import itertools
import math

from elsie import TextStyle

from .. import cairoobs, fakeproc, svgobs, textref
from ..svgobs import apply, mul
from .c15_markup import BASES, DEFAULT, REF_STYLES, STYLES, TREE_S, trees
from .c16_code import markup, ranges
from .c24_cairo import view_matrix

ID = "C25"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all placements of inline styles over texts with multi-byte "
             "characters and of all small markup trees, over alignments, scaling, rotation, view boxes "
             "and output formats, against a reference semantics of markup")
NOTE = ("The characters handed to Pango are read back with their effective attributes and device "
        "positions; they have to be those of the reference, on the base lines given by the style, and "
        "boxes drawn for every occurrence and line have to span exactly the drawn characters.")
ASSUMPTIONS = ["real Pango with the installed DejaVu fonts measures and draws",
               "opacity and digit variants are not supported by the Cairo backend",
               "occurrences that are empty or begin with a newline are only counted",
               "with scale_to_fit widths may differ by the rounding of glyph widths (0.6 (1 + scale) per character)"]
BOUND = {"quick": "all placements of 2 ranges x 4 style pairs in 4 texts, modes rotated; 216 modes x 4 texts; "
                  "all trees with <= 3 nodes over 10 styles in 3 base styles",
         "thorough": "all placements of 2 ranges x all pairs of 8 styles in 6 texts and of 3 ranges in 2 texts; "
                     "all modes x all single ranges; trees with <= 4 nodes"}

TEXTS = ["aé\nW€d", "Жb\n\n𝔸c", "wWmM", "ñ \n xß", "a\nb\nč d", "x€€y"]
# long texts: many characters of several bytes, many lines
LONG = ["é" * 60, "𝔸c€" * 30, "añ" * 25 + "\n" + "€x" * 120, "\n".join("ž%d" % i for i in range(14)), "é\n" * 9 + "x" * 90 + "\n\nЖ"]
NAMES = ["r", "b", "s", "p", "q", "m", "#x", "#d"]
PAIRS = [("s", "b"), ("p", "m"), ("#x", "r"), ("s", "s")]
ALIGN = ["left", "middle", "right"]
# (width, height, scale_to_fit)
BOX = [(150, 120, False), (20, 10, False), (90, 140, True), (150, 30, True)]
ROT = [None, 30, 0]
VIEW = [None, (10, 5, 100, 160), (-20, 0, 600, 300)]
MODES = [list(m) for m in itertools.product(range(3), range(4), range(3), range(3), range(2))]
TOKENS = ["r", "b", "n", "s", "p", "q", "m", "#x", "e", "#d"]


def cases(tier, env):
    th = tier == "thorough"
    k = 0
    for t in range(6 if th else 4):
        for s1, s2 in itertools.product(NAMES, repeat=2) if th else PAIRS:
            for a, b in ranges(len(TEXTS[t]), 2, True):
                k += 1
                yield ["ranges", t, [[*a, s1], [*b, s2]], MODES[k * 7 % 216]]
    for t in (0, 3) if th else ():
        for rs in ranges(len(TEXTS[t]), 3, True):
            for names in ("sbs", ("#x", "s", "#x"), "rpq"):
                k += 1
                yield ["ranges", t, [[*r, n] for r, n in zip(rs, names)], MODES[k * 7 % 216]]
    for m in MODES:
        for t in range(len(TEXTS)):
            n = len(TEXTS[t])
            if th:
                for i, r in enumerate(ranges(n, 1, False)):
                    yield ["ranges", t, [[*r[0], NAMES[i % 8]]], m]
            elif t < 4:
                yield ["ranges", t, [[0, n, "b"], [1, 2, "s"], [n - 1, n, "r"]], m]
    for t in LONG:
        n = len(t)
        cuts = [0, 1, 2, n // 3, n // 2, n - 2, n - 1, n] if th else [0, 1, n // 2, n - 1, n]
        for a, b in itertools.combinations(cuts, 2):
            for s1, s2 in PAIRS:
                for c, d in ((b, n), (a, b), (0, n)):
                    k += 1
                    mode = list(MODES[k * 7 % 216])
                    mode[1] = k % 2
                    # ranges nest: the outer one first
                    rs = [[c, d, s1], [a, b, s2]] if c <= a else [[a, b, s1], [c, d, s2]]
                    yield ["ranges", t, [r for r in rs if r[0] < r[1]], mode]
    # 13 ranges side by side, each of a few characters
    for t in LONG:
        for s1, s2 in PAIRS:
            k += 1
            yield ["ranges", t, [[i * 3, i * 3 + 2, (s1, s2)[i % 2]] for i in range(13)],
                   [k % 3, k % 2, k % 3, 0, k % 2]]
    # deep nesting
    for base in BASES:
        for d in range(4, 13 if th else 11):
            for s in range(len(TOKENS)):
                k += 1
                names = [TOKENS[(s + (1 + d % 4) * i) % len(TOKENS)] for i in range(d)]
                nl = "\n" if k % 3 == 0 else ""
                yield ["tree", base, "".join("~%s{%dé%s" % (v, i % 10, nl) for i, v in enumerate(names)) + "".join(
                    "%s}" % chr(97 + i) for i in range(d)) + "z", MODES[k * 7 % 216]]
    for n in range(1, 5 if th else 4):
        for base in BASES:
            for t in trees(n, TREE_S if n == 4 else TOKENS):
                k += 1
                if "{" in t[t.rfind("a") + 1:] and t.rstrip("}").endswith(("\n", "{")):
                    # whether an empty style at the end makes a line is not specified
                    continue
                if n < 3 or th or k % 3 == 0:
                    yield ["tree", base, t, MODES[k * 7 % 216]]


def setup(env):
    fakeproc.install()


def close(a, b, tol=0.02):
    return abs(a - b) <= tol


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        deck = env.data["deck"] = cairoobs.new_deck(env, width=200, height=150)
        for k, v in STYLES.items():
            deck.set_style(k, TextStyle(**v))
    deck = env.data["deck"]
    kind, t, rs, (al, bx, ro, vi, pdf) = case
    w, h, fit = BOX[bx]
    if kind == "ranges":
        t = TEXTS[t] if isinstance(t, int) else t
        src = markup(t, [tuple(r) for r in rs])
        base = dict(DEFAULT, size=20, line_spacing=(1.2, 1.0, 2.5)[(al + bx + ro) % 3], font="DejaVu Serif",
                    align=ALIGN[al])
        style = TextStyle(**{k: base[k] for k in ("size", "line_spacing", "font", "align")})
    else:
        src, rs = rs, []
        base = dict(DEFAULT, align=ALIGN[al])
        b = dict(BASES[t] or {}, align=ALIGN[al])
        base.update(b)
        style = TextStyle(**b)
    chars, _ = textref.parse(src)
    want = textref.lines(chars, base, REF_STYLES)
    slide = deck.new_slide(**({} if VIEW[vi] is None else {"view_box": VIEW[vi]}))
    box = slide.box(x=15, y=10, width=w, height=h)
    kw = {} if ROT[ro] is None else {"rotation": ROT[ro]}
    rec.state(case)
    item = box.text(src, style, scale_to_fit=fit, **kw)
    boxes = add_boxes(item, t if kind == "ranges" else "", rs, len(want))
    ops = []
    with pangoobs.recording() as log:
        ops = cairoobs.record(deck, "pdf" if pdf else "png", select_slides=[slide.slide])[0]
    rec.trace()
    # base lines and characters
    k = 1.0
    nlines = len(want)
    lh = base["size"] * base["line_spacing"]
    got = [ln for snap in log for ln in snap]
    flat_want = [ln for ln in want if ln]
    if fit:
        if not got:
            if flat_want:
                rec.fail("nothing is drawn", want=want)
            return
        first = got[0][0]
        k = first[1]["size"] / flat_want[0][0][1][1]
    view = (0.75, 0, 0, 0.75, 0, 0) if pdf else svgobs.IDENT
    view = mul(view, view_matrix(VIEW[vi], 200, 150))
    if not fit:
        # the box is not smaller than its text
        h = max(h, nlines * lh)
        unit = math.hypot(view[0], view[1])
        w = max([w] + [math.dist(ln[0][2], ln[-1][3]) / unit for ln in got])
    mid = (15 + w / 2, 10 + h / 2)
    m = view
    if ROT[ro]:
        a = math.radians(ROT[ro])
        c, s = math.cos(a), math.sin(a)
        m = mul(view, (c, s, -s, c, mid[0] - c * mid[0] + s * mid[1], mid[1] - s * mid[0] - c * mid[1]))
    inv = invert(m)
    got = [[(c, look(d), apply(inv, p), apply(inv, q)) for c, d, p, q in ln] for ln in got]
    rec.step(len(chars) + len(boxes))
    rec.outcome([[x[:2] for x in ln] for ln in got])
    if [[x[0] for x in ln] for ln in got] != [[x[0] for x in ln] for ln in flat_want]:
        rec.fail("the drawn characters differ", got=got, want=want, src=src, stop=True)
    for ln, wn in zip(got, flat_want):
        for g, wc in zip(ln, wn):
            f, size, color, _, bold, italic = wc[1]
            if g[1][0] != f or not close(g[1][1], size * k, 0.05 * k) or g[1][2] != svgcolor(color) \
                    or g[1][3:] != (bold, italic):
                rec.fail("a character has a wrong style", got=g, want=wc, scale=k, src=src, stop=True)
    if fit and flat_want:
        tw = max(ln[-1][3][0] - ln[0][2][0] for ln in got) / k
        full = min(w / tw, h / (nlines * lh))
        if abs(k - full) > 0.06 * full + 0.03 and abs(k - full) * tw > 0.6 * (1 + k) * max(len(ln) for ln in got):
            rec.fail("the text is not scaled to its box", scale=k, want=full, src=src)
    anchor = {"left": 15, "middle": 15 + w / 2, "right": 15 + w}[base["align"]]
    top = 10 + (h - nlines * lh * k) / 2
    drawn = {}
    it = iter(got)
    slack = 0.05 + (0.01 * base["size"] * k if fit else 0)
    for i, wn in enumerate(want):
        if not wn:
            continue
        ln = drawn[i] = next(it)
        y = top + base["size"] * k + i * lh * k
        if not all(close(p[1], y, slack) and close(q[1], y, slack) for _, _, p, q in ln):
            rec.fail("a line of text is at a wrong place", got=ln[0][2], want=y, line=i, src=src, stop=True)
        x0, x1 = ln[0][2][0], ln[-1][3][0]
        x = {"left": x0, "middle": (x0 + x1) / 2, "right": x1}[base["align"]]
        if not close(x, anchor, 0.05):
            rec.fail("a line of text is not aligned", got=(x0, x1), want=anchor, line=i, src=src, stop=True)
    check_boxes(rec, ops, boxes, invert(view), m, drawn, top, base, lh, k, w, fit, nlines, src, ROT[ro])


def look(d):
    return (d.get("font"), d.get("size"), d.get("color"), d.get("bold"), d.get("italic"))


def svgcolor(c):
    import webcolors

    return webcolors.normalize_hex(c) if c[0] == "#" else webcolors.name_to_hex(c)


def invert(m):
    a, b, c, d, e, f = m
    det = a * d - b * c
    return (d / det, -b / det, -c / det, a / det, (c * f - d * e) / det, (b * e - a * f) / det)


def add_boxes(item, plain, rs, nlines):
    boxes, counter = {}, {}
    for r, (a, b, name) in enumerate(rs):
        counter[name] = counter.get(name, 0) + 1
        if a == b or plain[a] == "\n":
            continue
        color = f"#0a00{r:02x}"
        item.inline_box(name, n_th=counter[name]).rect(bg_color=color)
        i = plain.count("\n", 0, a)
        col = a - (plain.rfind("\n", 0, a) + 1)
        boxes[color] = ("inline", i, col, col + len(plain[a:b].split("\n")[0]))
    for i in range(nlines if rs else 0):
        color = f"#0b00{i:02x}"
        item.line_box(i).rect(bg_color=color)
        boxes[color] = ("line", i, 0, 0)
    return boxes


def check_boxes(rec, ops, boxes, inv, m, drawn, top, base, lh, k, w, fit, nlines, src, rot):
    got = {}
    for o in ops:
        if o["op"] == "fill" and o["color"]:
            got[cairoobs.hexcolor(o["color"])] = [apply(inv, d[0]) for kind, d in o["path"] if kind < 2]
    for color, (what, i, a, b) in boxes.items():
        if color not in got:
            if what == "line" or any(drawn.get(i, [])[a:b]):
                rec.fail("a box around text is not drawn", which=(what, i, a, b), src=src)
            continue
        pts = got[color]
        x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
        y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
        y = top + i * lh * k
        if what == "line":
            want = (15, y, 15 + w, y + lh * k + 1)
        else:
            ch = drawn[i][a:b]
            want = (ch[0][2][0], y, ch[-1][3][0], y + lh * k + 1)
        tol = 0.05 + (0.6 * (1 + k) * len(drawn.get(i, [])) + 0.02 * w if fit else 0)
        tol_y = 0.05 + (0.02 * lh * k * nlines if fit else 0)
        if not (close(x0, want[0], tol) and close(x1, want[2], tol) and close(y0, want[1], tol_y)
                and close(y1, want[3], tol_y)):
            rec.fail("a box does not cover the addressed text", which=(what, i, a, b), got=(x0, y0, x1, y1),
                     want=want, src=src)
