"""C19: line_box and inline_box cover the addressed text."""
import itertools
import re

from elsie import TextStyle

from .. import fakeproc, textgeo
from .. import world as W
from .c16_code import markup, ranges

ID = "C19"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all placements of inline styles over the characters of texts and "
             "code, every occurrence and every span of lines, over alignments, scaling and placements")
NOTE = ("Every box is filled and compared with the extents of the addressed characters computed from "
        "the text element drawn on the same page (and again on a second render).")
ASSUMPTIONS = ["text widths come from a deterministic Inkscape stand-in",
               "the height of the boxes is the height of their lines plus 1",
               "occurrences that are empty or begin with a newline are only counted"]
BOUND = {"quick": "all placements of 2 ranges x 6 style pairs in 4 texts of <= 8 characters and 2 codes, "
                  "modes rotated; 96 modes x 24 texts; all overrides",
         "thorough": "every style pair, 6 texts, 4 codes; all placements of 3 ranges in 2 texts; all modes"}

STYLES = {"s": dict(size=33), "b": dict(bold=True), "f": dict(font="W", italic=True),
          "p": dict(size=9, priority=2), "q": dict(size=50, priority=-1)}
NAMES = [*STYLES, "#x"]
PAIRS_Q = [("s", "s"), ("s", "b"), ("b", "#x"), ("p", "s"), ("#x", "#x"), ("f", "q")]
TEXTS = ["ab\ncW d", "a\n\nbé", " x\ny ", "wWmM", "a\nb\nc\nd", "\nab\nc"]
CODES = [("python", 'if a:\n b="c"'), ("c", "a;\n/*d\ne*/ x"), ("text", "a b\ncc"), ("", "a\nbb c")]

ALIGN = ["left", "middle", "right"]
SCALE = [None, (200, 60), (30, 150), (None, 90), (1900, 1700), (3, 2), (None, 900)]
PLACE = [{}, {"x": 11, "y": "[30%]"}, {"padding": 7, "width": 160, "height": 130}, {"p_left": 5, "p_top": 9,
         "in_row": True}, {"width": "fill", "height": "fill"}, {"width": 0, "height": 0, "x": "[100%]"},
         {"horizontal": True, "height": "70%", "y": 3}, {"width": "50%", "in_row": True, "p_y": 4}]
MODES = [list(m) for m in itertools.product(range(3), range(4), range(8))]
OVERRIDES = [{"x": 3}, {"y": "[100%]"}, {"width": 17}, {"height": "50%"}, {"x": "20%", "height": 5},
             {"width": "fill", "y": 2}, {"x": 0, "y": 0, "width": "100%", "height": "100%"},
             {"width": 25, "height": 4, "padding": 1}]


def cases(tier, env):
    th = tier == "thorough"
    k = 0
    pairs = list(itertools.product(NAMES, repeat=2)) if th else PAIRS_Q
    for t in range(6 if th else 4):
        for s1, s2 in pairs:
            for a, b in ranges(len(TEXTS[t]), 2, True):
                k += 1
                yield ["text", t, [[*a, s1], [*b, s2]], MODES[(k * 7) % 96], 0]
    for t in (0, 1) if th else ():
        for rs in ranges(len(TEXTS[t]), 3, True):
            for names in ("sbs", ("#x", "s", "#x"), "fpb"):
                k += 1
                yield ["text", t, [[*r, n] for r, n in zip(rs, names)], MODES[(k * 7) % 96], 0]
    for c in range(4 if th else 2):
        for s1, s2 in pairs if th else PAIRS_Q[:3]:
            for a, b in ranges(len(CODES[c][1]), 2, False):
                k += 1
                yield ["code", c, [[*a, s1], [*b, s2]], MODES[(k * 7) % 96], k % 2]
    for m in MODES:
        for t in range(len(TEXTS)):
            n = len(TEXTS[t])
            for i, rs in enumerate(([[0, n, "b"], [1, 2, "s"]], [[0, 1, "s"], [n - 2, n, "s"]],
                                    [[0, n, "#x"], [0, n, "q"], [n - 1, n, "#x"]],
                                    [[1, n, "p"], [2, n - 1, "p"]])):
                yield ["text", t, rs, m, 0]
        for c in range(4):
            yield ["code", c, [], m, m[2] % 2]
            yield ["code", c, [[0, len(CODES[c][1]), "s"]], m, 1 - m[2] % 2]
    # very large and very small scales
    for t in range(len(TEXTS)):
        n = len(TEXTS[t])
        for sc, al, pl in itertools.product((4, 5, 6), range(3), (0, 1, 3, 6)):
            if sc == 5 and pl == 3:
                continue    # the padding leaves no room
            for rs in ([[0, n, "b"], [1, 2, "s"]], [[0, 1, "s"], [n - 2, n, "s"]], [[1, n, "p"], [2, n - 1, "#x"]]):
                yield ["text", t, rs, [al, sc, pl], 0]
    for o in range(len(OVERRIDES)):
        for m in MODES:
            yield ["over", o, None, m, 0]
    # many lines, many occurrences, long lines
    for lines, per in ((10, 1), (12, 3), (30, 2), (3, 25), (1, 40), (26, 1)):
        text = "\n".join(" ".join("w%d" % (i * per + j) for j in range(per)) + ("\n" if i % 9 == 8 else "") for i in range(lines))
        words = [m.span() for m in re.finditer("w[0-9]+", text)]
        for names in (("s",), ("#x1", "#x10", "#x"), ("b", "s", "b", "#x", "f"), ("#x", "p")):
            for step in (1, 2):
                rs = [[*w, names[i % len(names)]] for i, w in enumerate(words[::step])]
                for m in range(0, 96, 1 if th else 7):
                    k += 1
                    yield ["text", text, rs, MODES[(m + k) % 96], 0]
                    if m % 3 == 0:
                        yield ["code", [("", "text", "python")[k % 3], text], rs, MODES[(m + k) % 96], k % 2]
    for t in range(4):
        yield ["missing", t, None, MODES[0], 0]


def setup(env):
    fakeproc.install()


def close(a, b, tol=1e-5):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def run(case, rec, env):
    n = env.data.get("n", 0)
    env.data["n"] = n + 1
    if n % 200 == 0:
        if n % 10000 == 0:
            env.data.pop("backend", None)
        deck = W.new_deck(env, width=300, height=200)
        for k, v in STYLES.items():
            deck.set_style(k, TextStyle(**v))
        env.data["deck"] = deck
    deck = env.data["deck"]
    kind, t, rs, (al, sc, pl), ln = case
    slide = deck.new_slide()
    place = dict(PLACE[pl])
    parent = slide.box(width="fill", height="fill", horizontal=place.pop("in_row", False))
    parent.box(width=40, height=30)
    if SCALE[sc]:
        w, h = SCALE[sc]
        place.pop("width", None), place.pop("height", None)
        if w is not None:
            place["width"] = w
        place["height"] = h
    box = parent.box(**place)
    box.rect(bg_color="#010203")
    style = TextStyle(align=ALIGN[al], size=20, line_spacing=(1.5, 1.0, 1.2)[(al + sc + pl) % 3], font="Q")
    scale = SCALE[sc] is not None
    rec.state(case)
    if kind == "over":
        overrides(case, rec, deck, slide, box, style, scale)
        return
    if kind == "missing":
        item = box.text("a~s{b}\n~s{c}~b{~s{d}}", style)
        for name, k in (("s", 4), ("b", 2), ("#x", 1), ("", 1), ("a", 1)):
            rec.step()
            try:
                item.inline_box(name, n_th=k)
            except Exception:
                continue
            rec.fail("asking for a missing occurrence did not raise", name=name, n_th=k)
        return
    if kind == "text":
        plain = TEXTS[t] if isinstance(t, int) else t
        src = markup(plain, [tuple(r) for r in rs])
        item = box.text(src, style, scale_to_fit=scale)
    else:
        lang, plain = CODES[t] if isinstance(t, int) else t
        src = markup(plain, [tuple(r) for r in rs])
        item = box.code(lang, src, style=style, scale_to_fit=scale, use_styles=bool(rs), line_numbers=bool(ln))
    nlines = len(plain.rstrip("\n").split("\n")) if plain.strip("\n") else 1
    # one box for each occurrence and each span of lines
    want = {}
    counter = {}
    for r, (a, b, name) in enumerate(rs):
        counter[name] = counter.get(name, 0) + 1
        if a == b or plain[a] == "\n":
            continue
        color = f"#0a00{r:02x}"
        kw = {} if counter[name] == 1 and r % 2 else {"n_th": counter[name]}
        item.inline_box(name, **kw).rect(bg_color=color)
        want[color] = ("inline", a, b)
    for name, c in counter.items():
        try:
            item.inline_box(name, n_th=c + 1)
        except Exception:
            continue
        rec.fail("asking for a missing occurrence did not raise", src=src, name=name)
    for i in range(nlines):
        for k in range(1, nlines - i + 1):
            if k == 2 and i or nlines > 8 and k not in (1, 3, nlines - i):
                continue
            color = f"#0b{i:02x}{k:02x}"
            (item.line_box(i) if k == 1 else item.line_box(i, k)).rect(bg_color=color)
            want[color] = ("line", i, k)
    for again in (False, True):
        page = W.Page(W.svgs(deck, select_slides=[slide.slide])[0])
        rec.trace()
        check(case, rec, page, plain, style, want, nlines, src, again)
        if rec_failed(rec):
            return


def rec_failed(rec):
    return bool(getattr(rec, "violations", None))


def check(case, rec, page, plain, style, want, nlines, src, again):
    kind, t, rs, mode, ln = case
    rect = next(it for it in page.items if it.fill == "#010203").rect()
    text = next(it for it in page.items if it.tag == "text")
    k = text.matrix[0]
    lh = style.size * style.line_spacing * k
    rows = textgeo.device_lines(text)
    # by line index, without the line numbers
    first = rows[0][0][1]
    prefix = len(str(nlines)) + 1 if ln else 0
    byline = {}
    for base, chars in rows:
        i = round((base[1] - first) / lh)
        byline[i] = (base, chars[prefix:])
    got = {it.fill: it.rect() for it in page.items if it.tag == "rect"}
    for color, (what, a, b) in want.items():
        rec.step()
        if color not in got:
            rec.fail("a box around text is not drawn", src=src, which=(what, a, b))
            return
        g = got[color]
        if what == "line":
            w = (rect[0], first - style.size * k + a * lh, rect[2], b * lh + 1)
        else:
            i = plain.count("\n", 0, a)
            col = a - (plain.rfind("\n", 0, a) + 1)
            n = len(plain[a:b].split("\n")[0])
            base, chars = byline[i]
            if "".join(c[0] for c in chars[col:col + n]) != plain[a:b].split("\n")[0]:
                rec.fail("the drawn line is different from the source", src=src, line=i,
                         drawn=[c[0] for c in chars])
                return
            x0, x1 = chars[col][1][0], chars[col + n - 1][2][0]
            w = (x0, base[1] - style.size * k, x1 - x0, lh + 1)
        rec.outcome(tuple(round(v, 6) for v in g))
        if not all(close(p, q) for p, q in zip(g, w)):
            rec.fail("a box does not cover the addressed text", src=src, which=(what, a, b), got=g, want=w,
                     again=again, svg=page.svg)
            return


def overrides(case, rec, deck, slide, box, style, scale):
    over = OVERRIDES[case[1]]
    # the same arguments given to an ordinary box tell what an overridden value means
    item = box.text("ab ~s{c}d\nx~#y{yyy}", style, scale_to_fit=scale)
    item.line_box(1, **over).rect(bg_color="#000001")
    item.inline_box("s", **over).rect(bg_color="#000002")
    item.inline_box("#y", **over).rect(bg_color="#000003")
    item.line_box(1).rect(bg_color="#000011")
    item.inline_box("s").rect(bg_color="#000012")
    item.inline_box("#y").rect(bg_color="#000013")
    full = {"x": 0, "y": 0, "width": 1, "height": 1}
    box.box(**{**full, **over}).rect(bg_color="#000021")
    page = W.Page(W.svgs(deck, select_slides=[slide.slide])[0])
    rec.trace()
    got = {it.fill: it.rect() for it in page.items if it.tag == "rect"}
    plain = got["#000021"]
    for c in (1, 2, 3):
        g, d = got[f"#00000{c}"], got[f"#00001{c}"]
        pad = over.get("padding", 0)
        for j, (key, size) in enumerate((("x", "width"), ("y", "height"))):
            rec.step()
            want_size = plain[j + 2] if size in over else max(d[j + 2] - 2 * pad, 0)
            if not close(g[j + 2], want_size):
                rec.fail("an explicit size is not used", got=g, default=d, plain=plain, over=over)
            pos = over.get(key)
            if pos is None:
                want = d[j] + pad
            elif isinstance(pos, str) and pos.startswith("["):
                continue_align(rec, page, pos, g, j, over)
                continue
            else:
                want = plain[j]
            if not close(g[j], want):
                rec.fail("an explicit position is not used", got=g, default=d, plain=plain, over=over)


def continue_align(rec, page, pos, g, j, over):
    rect = next(it for it in page.items if it.fill == "#010203").rect()
    p = float(pos.strip("[]%")) / 100
    if not close(g[j], rect[j] + (rect[j + 2] - g[j + 2]) * p):
        rec.fail("an explicit alignment is not used", got=g, parent=rect, over=over)
