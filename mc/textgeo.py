"""Positions of the characters of a drawn text (metric of the Inkscape stand-in)."""
from .fakeink import char_width
from .svgobs import apply, text_lines


def lines(item):
    """[(baseline point, [(char, x0, x1, style)])] in the coordinates of the element, by line."""
    el = item.el
    y0 = float(el.get("y") or 0)
    anchor = el.get("text-anchor") or "start"
    res = []
    for x, dy, chars in text_lines(el):
        ws = [char_width(c, float(st["font-size"]), st.get("font-weight", "normal") == "bold",
                         st.get("font-style", "normal") == "italic", st.get("font-family"))
              for c, st in chars]
        total = sum(ws)
        cur = x - {"start": 0, "middle": total / 2, "end": total}[anchor]
        out = []
        for (c, st), w in zip(chars, ws):
            out.append((c, cur, cur + w, st))
            cur += w
        res.append(((x, y0 + dy), out))
    return res


def device_lines(item, undo=None):
    """The same in device coordinates; `undo` is a function applied to every point (a rotation)."""
    undo = undo or (lambda p: p)
    res = []
    for (x, y), chars in lines(item):
        base = undo(apply(item.matrix, (x, y)))
        out = []
        for c, a, b, st in chars:
            p, q = undo(apply(item.matrix, (a, y))), undo(apply(item.matrix, (b, y)))
            out.append((c, p, q, st))
        res.append((base, out))
    return res
