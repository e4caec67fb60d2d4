"""Reference semantics of inline markup."""


class Reject(Exception):
    pass


def parse(src, esc="~", begin="{", end="}"):
    """[(character, names of the enclosing styles from outside in)], [names in order]"""
    out, stack, names = [], [], []
    i = 0
    while i < len(src):
        c = src[i]
        if esc is not None and c == esc:
            if src[i + 1:i + 2] == esc:
                out.append((c, tuple(stack)))
                i += 2
                continue
            j = src.find(begin, i + 1)
            if j < 0:
                raise Reject("no begin")
            stack.append(src[i + 1:j])
            names.append(src[i + 1:j])
            i = j + 1
        elif c == end and stack:
            stack.pop()
            i += 1
        else:
            out.append((c, tuple(stack)))
            i += 1
    if stack:
        raise Reject("unclosed")
    return out, names


ATTRS = ("font", "size", "color", "opacity", "bold", "italic")


def style_dict(style):
    d = {k: getattr(style, k) for k in ATTRS}
    d["priority"] = style.priority
    return d


def effective(base, names, styles):
    """Attributes of a character; base: dict, styles: name -> dict or None."""
    cur = dict(base)
    for n in names:
        s = styles.get(n)
        if s is None:
            continue
        if cur["priority"] > s["priority"]:
            continue
        for k in ATTRS:
            if s[k] is not None:
                cur[k] = s[k]
        cur["priority"] = s["priority"]
    return cur


def look(attrs):
    """What is visible of the attributes."""
    return (attrs["font"], None if attrs["size"] is None else float(attrs["size"]),
            attrs["color"], 1.0 if attrs["opacity"] is None else float(attrs["opacity"]),
            bool(attrs["bold"]), bool(attrs["italic"]))


def lines(chars, base, styles):
    res = [[]]
    for c, names in chars:
        if c == "\n":
            res.append([])
        else:
            res[-1].append((c, look(effective(base, names, styles))))
    while len(res) > 1 and not res[-1]:
        res.pop()
    return res


def svg_look(st):
    return (st.get("font-family"), None if "font-size" not in st else float(st["font-size"]),
            st.get("fill"), float(st.get("fill-opacity", 1)),
            st.get("font-weight", "normal") == "bold", st.get("font-style", "normal") == "italic")


def svg_lines(el, line_height, tol=1e-6):
    """Lines of a text element by index; raises ValueError for a line between two lines."""
    from .svgobs import text_lines

    res = {}
    xs = set()
    for x, y, chars in text_lines(el):
        k = y / line_height
        if abs(k - round(k)) > tol:
            raise ValueError(f"line at {y} is not a multiple of the line height {line_height}")
        res.setdefault(round(k), []).extend((c, svg_look(st)) for c, st in chars)
        xs.add(round(x, 6))
    if len(xs) > 1:
        raise ValueError(f"lines start at different positions {sorted(xs)}")
    n = max(res) + 1
    out = [res.get(i, []) for i in range(n)]
    while len(out) > 1 and not out[-1]:
        out.pop()
    return out
