"""C20: text occupies its measured size, is aligned, and scales to fit."""
import itertools
import math

from elsie import TextStyle

from .. import fakeproc, textgeo
from .. import world as W

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of text shapes x styles x box sizing modes x placement x scaling x "
             "rotation, with the position of every drawn character computed from the page")
NOTE = ("From the drawn text element the extents of all characters are recomputed with the metric of the "
        "Inkscape stand-in and compared with the rectangle of the box (also after a second render).")
ASSUMPTIONS = ["text widths come from a deterministic Inkscape stand-in"]
BOUND = {"quick": "9 texts x 6 styles x 6x6 sizings x 4 placements x scaling x rotation, two renders; pairs of texts in one box",
         "thorough": "14 texts x 12 styles x 7x7 sizings x 6 placements x scaling x 3 rotations"}

TEXTS = ["a", "ab\nc", "a\n\nbcd", "~s{a}b\n~b{cc}", "", " ", "a ~f{b\nx}y", "\nb", "wide text of one line",
         "a\nb\nc\nd\ne\nf\ng", "~#x{a}\n\n\n~b{b}", "~s{~b{m}}", "é", "a\n\n",
         "\n".join("line %d" % i for i in range(37)), "a long line " * 120, "~s{" + "x\n" * 12 + "}~b{y}" * 15]
STYLES = [dict(align=a, line_spacing=ls, size=sz, font=f)
          for (ls, sz, f) in ((1.5, 20, "Q"), (1.0, 7.5, "sans-serif"), (1.2, 28, "mono"), (2, 4, "R"))
          for a in ("left", "middle", "right")]
SIZES = [None, 30, "fill", "50%", 0, 151.5, "fill(2)"]
PLACES = [{}, {"x": 11, "y": "[30%]"}, {"padding": 7}, {"in_row": True}, {"p_left": 3, "p_top": 9},
          {"x": "[100%]", "in_row": True}]
ROT = [None, 30, -90]


def cases(tier, env):
    th = tier == "thorough"
    for t in range(14 if th else 9):
        for s in range(12 if th else 6):
            for w, h in itertools.product(range(7 if th else 6), repeat=2):
                for p in range(6 if th else 4):
                    for scale in (False, True):
                        for r in range(3 if th else 2):
                            yield [t, s, w, h, p, scale, r]
    # many lines, many characters, many styles
    for t in (14, 15, 16):
        for s in range(0, 12, 1 if th else 4):
            for w, h in itertools.product((0, 1, 2, 3, 5), repeat=2):
                for p in (0, 1, 2):
                    for scale in (False, True):
                        yield [t, s, w, h, p, scale, 0]
    # two texts in one box
    for t, u in itertools.product((0, 1, 3, 9) if th else (1, 3), repeat=2):
        for s, w, h, p in itertools.product((0, 4), (0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2)):
            for scales in itertools.product((False, True), repeat=2):
                for r in range(2 if th else 1):
                    yield [[t, u], s, w, h, p, scales, r]


def setup(env):
    fakeproc.install()


def close(a, b, tol=1e-5):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        env.data["deck"] = W.new_deck(env, width=300, height=200)
    deck = env.data["deck"]
    t, s, w, h, p, scales, r = case
    st = STYLES[s]
    sources = [TEXTS[i] for i in (t if isinstance(t, list) else [t])]
    scales = list(scales) if isinstance(scales, (list, tuple)) else [scales]
    rot = ROT[r]
    slide = deck.new_slide()
    place = dict(PLACES[p])
    parent = slide.box(width="fill", height="fill", horizontal=place.pop("in_row", False))
    parent.box(width=40, height=30)
    kw = {}
    if SIZES[w] is not None:
        kw["width"] = SIZES[w]
    if SIZES[h] is not None:
        kw["height"] = SIZES[h]
    box = parent.box(**kw, **place)
    box.set_style("s", TextStyle(size=33))
    box.set_style("b", TextStyle(bold=True))
    box.set_style("f", TextStyle(font="W", italic=True))
    box.rect(bg_color="#010203")
    for src, scale in zip(sources, scales):
        box.text(src, TextStyle(**st), scale_to_fit=scale, rotation=rot)
    rec.state(case)
    for again in (False, True):
        page = W.Page(W.svgs(deck, select_slides=[slide.slide])[0])
        rec.trace()
        for i, (src, scale) in enumerate(zip(sources, scales)):
            check(case, page, rec, src, st, kw, scale, rot, again, i, len(sources))


def check(case, page, rec, src, st, kw, scale, rot, again, index, count):
    rect = next(it for it in page.items if it.fill == "#010203")
    rx, ry, rw, rh = rect.rect()
    texts = [it for it in page.items if it.tag == "text"]
    if count > 1:
        if not rec.expect(len(texts), count, "number of drawn texts", svg=page.svg):
            return
        texts = texts[index:index + 1]
    plain = src.split("\n")
    while len(plain) > 1 and not plain[-1]:
        plain.pop()
    nlines = len(plain)
    lh = st["size"] * st["line_spacing"]
    if not texts:
        if not (scale and (rw < 1e-3 or rh < 1e-3)):
            rec.fail("the text is not drawn", svg=page.svg)
        return
    mid = (rx + rw / 2, ry + rh / 2)

    def undo(q):
        if not rot:
            return q
        a = -math.radians(rot)
        dx, dy = q[0] - mid[0], q[1] - mid[1]
        return (mid[0] + dx * math.cos(a) - dy * math.sin(a), mid[1] + dx * math.sin(a) + dy * math.cos(a))

    ls = textgeo.device_lines(texts[0], undo)
    nat = max([sum(textgeo_w(c) for c in chars) for _, chars in textgeo.lines(texts[0])])
    th = nlines * lh
    # scale
    k = 1.0
    if scale and nat > 1e-9:
        k = min(rw / nat, rh / th)
    m = texts[0].matrix
    got = math.hypot(m[0], m[1])
    rec.step()
    if not close(got, k) or not close(math.hypot(m[2], m[3]), k):
        rec.fail("the text has a wrong scale", got=got, want=k, rect=(rx, ry, rw, rh), svg=page.svg)
        return
    if not scale:
        if "width" not in kw and rw < nat - 1e-6:
            rec.fail("the box is narrower than the text", rect=rw, text=nat, svg=page.svg)
        if "height" not in kw and rh < th - 1e-6:
            rec.fail("the box is lower than the text", rect=rh, text=th, svg=page.svg)
    rec.outcome((k, rx, ry, rw, rh, ls[0][0]))
    # vertically centred lines
    top = ry + (rh - th * k) / 2
    bases = [b for b, _ in ls]
    want = [top + st["size"] * k + j * lh * k for j in range(nlines)]
    for b in bases:
        rec.step()
        if not any(close(b[1], w_) for w_ in want):
            rec.fail("a line is at a wrong height", got=b[1], want=want, again=again, svg=page.svg)
            return
    if not close(bases[0][1], want[0]) or not close(bases[-1][1], want[-1] if plain[-1] else bases[-1][1]):
        rec.fail("the lines are at wrong heights", got=bases, want=want, again=again, svg=page.svg)
    # alignment: every line
    edge = {"left": rx, "middle": rx + rw / 2, "right": rx + rw}[st["align"]]
    for b, chars in ls:
        if not chars:
            continue
        a, z = chars[0][1][0], chars[-1][2][0]
        g = {"left": a, "middle": (a + z) / 2, "right": z}[st["align"]]
        rec.step()
        if not close(g, edge):
            rec.fail("a line is not aligned", got=g, want=edge, again=again, svg=page.svg)
            return


def textgeo_w(c):
    return c[2] - c[1]
